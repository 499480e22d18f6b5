@@verus
// ---------------- atomics: each operation appends one step to the history of shared steps of the calling thread ----------------
#[derive(Clone, Copy)]
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
pub open spec fn releases(o: Ordering) -> bool { o is Release || o is AcqRel || o is SeqCst }
pub open spec fn acquires(o: Ordering) -> bool { o is Acquire || o is AcqRel || o is SeqCst }
// one indivisible step on the shared word `loc`: it read `old` (if it reads) and left `new`
pub enum Step { Load { loc: int, val: int, ord: Ordering }, Store { loc: int, val: int, ord: Ordering }, Rmw { loc: int, old: int, new: int, ord: Ordering } }
#[verifier::external_body]
pub tracked struct Steps { x: () }
impl Steps { pub uninterp spec fn view(&self) -> Seq<Step>; }
@@verus
#[verifier::external_body]
pub struct AtomicU64 { x: u8 }
impl AtomicU64 {
  pub uninterp spec fn loc(&self) -> int;
  pub uninterp spec fn first(&self) -> int;
  #[verifier::external_body] pub fn new(v: u64) -> (r: AtomicU64) ensures r.first() == v { unimplemented!() }
  #[verifier::external_body] pub fn load(&self, Tracked(st): Tracked<&mut Steps>, o: Ordering) -> (r: u64) ensures final(st)@ == old(st)@.push(Step::Load { loc: self.loc(), val: r as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn store(&self, Tracked(st): Tracked<&mut Steps>, v: u64, o: Ordering) ensures final(st)@ == old(st)@.push(Step::Store { loc: self.loc(), val: v as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn swap(&self, Tracked(st): Tracked<&mut Steps>, v: u64, o: Ordering) -> (r: u64) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: v as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_add(&self, Tracked(st): Tracked<&mut Steps>, v: u64, o: Ordering) -> (r: u64) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: if r + v > u64::MAX { r + v - u64::MAX - 1 } else { r + v }, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_sub(&self, Tracked(st): Tracked<&mut Steps>, v: u64, o: Ordering) -> (r: u64) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: if r < v { r - v + u64::MAX + 1 } else { r - v }, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_and(&self, Tracked(st): Tracked<&mut Steps>, v: u64, o: Ordering) -> (r: u64) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: (r & v) as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_or(&self, Tracked(st): Tracked<&mut Steps>, v: u64, o: Ordering) -> (r: u64) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: (r | v) as int, ord: o }) { unimplemented!() }
}
#[verifier::external_body]
pub struct AtomicUsize { x: u8 }
impl AtomicUsize {
  pub uninterp spec fn loc(&self) -> int;
  pub uninterp spec fn first(&self) -> int;
  #[verifier::external_body] pub fn new(v: usize) -> (r: AtomicUsize) ensures r.first() == v { unimplemented!() }
  #[verifier::external_body] pub fn load(&self, Tracked(st): Tracked<&mut Steps>, o: Ordering) -> (r: usize) ensures final(st)@ == old(st)@.push(Step::Load { loc: self.loc(), val: r as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn store(&self, Tracked(st): Tracked<&mut Steps>, v: usize, o: Ordering) ensures final(st)@ == old(st)@.push(Step::Store { loc: self.loc(), val: v as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn swap(&self, Tracked(st): Tracked<&mut Steps>, v: usize, o: Ordering) -> (r: usize) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: v as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_add(&self, Tracked(st): Tracked<&mut Steps>, v: usize, o: Ordering) -> (r: usize) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: if r + v > usize::MAX { r + v - usize::MAX - 1 } else { r + v }, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_sub(&self, Tracked(st): Tracked<&mut Steps>, v: usize, o: Ordering) -> (r: usize) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: if r < v { r - v + usize::MAX + 1 } else { r - v }, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_and(&self, Tracked(st): Tracked<&mut Steps>, v: usize, o: Ordering) -> (r: usize) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: (r & v) as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_or(&self, Tracked(st): Tracked<&mut Steps>, v: usize, o: Ordering) -> (r: usize) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: (r | v) as int, ord: o }) { unimplemented!() }
}
#[verifier::external_body]
pub struct AtomicU16 { x: u8 }
impl AtomicU16 {
  pub uninterp spec fn loc(&self) -> int;
  pub uninterp spec fn first(&self) -> int;
  #[verifier::external_body] pub fn new(v: u16) -> (r: AtomicU16) ensures r.first() == v { unimplemented!() }
  #[verifier::external_body] pub fn load(&self, Tracked(st): Tracked<&mut Steps>, o: Ordering) -> (r: u16) ensures final(st)@ == old(st)@.push(Step::Load { loc: self.loc(), val: r as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn store(&self, Tracked(st): Tracked<&mut Steps>, v: u16, o: Ordering) ensures final(st)@ == old(st)@.push(Step::Store { loc: self.loc(), val: v as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn swap(&self, Tracked(st): Tracked<&mut Steps>, v: u16, o: Ordering) -> (r: u16) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: v as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_add(&self, Tracked(st): Tracked<&mut Steps>, v: u16, o: Ordering) -> (r: u16) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: if r + v > u16::MAX { r + v - u16::MAX - 1 } else { r + v }, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_sub(&self, Tracked(st): Tracked<&mut Steps>, v: u16, o: Ordering) -> (r: u16) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: if r < v { r - v + u16::MAX + 1 } else { r - v }, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_and(&self, Tracked(st): Tracked<&mut Steps>, v: u16, o: Ordering) -> (r: u16) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: (r & v) as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_or(&self, Tracked(st): Tracked<&mut Steps>, v: u16, o: Ordering) -> (r: u16) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: (r | v) as int, ord: o }) { unimplemented!() }
}
#[verifier::external_body]
pub struct AtomicU32 { x: u8 }
impl AtomicU32 {
  pub uninterp spec fn loc(&self) -> int;
  pub uninterp spec fn first(&self) -> int;
  #[verifier::external_body] pub fn new(v: u32) -> (r: AtomicU32) ensures r.first() == v { unimplemented!() }
  #[verifier::external_body] pub fn load(&self, Tracked(st): Tracked<&mut Steps>, o: Ordering) -> (r: u32) ensures final(st)@ == old(st)@.push(Step::Load { loc: self.loc(), val: r as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn store(&self, Tracked(st): Tracked<&mut Steps>, v: u32, o: Ordering) ensures final(st)@ == old(st)@.push(Step::Store { loc: self.loc(), val: v as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn swap(&self, Tracked(st): Tracked<&mut Steps>, v: u32, o: Ordering) -> (r: u32) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: v as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_add(&self, Tracked(st): Tracked<&mut Steps>, v: u32, o: Ordering) -> (r: u32) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: if r + v > u32::MAX { r + v - u32::MAX - 1 } else { r + v }, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_sub(&self, Tracked(st): Tracked<&mut Steps>, v: u32, o: Ordering) -> (r: u32) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: if r < v { r - v + u32::MAX + 1 } else { r - v }, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_and(&self, Tracked(st): Tracked<&mut Steps>, v: u32, o: Ordering) -> (r: u32) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: (r & v) as int, ord: o }) { unimplemented!() }
  #[verifier::external_body] pub fn fetch_or(&self, Tracked(st): Tracked<&mut Steps>, v: u32, o: Ordering) -> (r: u32) ensures final(st)@ == old(st)@.push(Step::Rmw { loc: self.loc(), old: r as int, new: (r | v) as int, ord: o }) { unimplemented!() }
}
@@subst ". load (" ". load ( Tracked ( st ) ,"
@@subst ". store (" ". store ( Tracked ( st ) ,"
@@subst ". swap (" ". swap ( Tracked ( st ) ,"
@@subst ". fetch_add (" ". fetch_add ( Tracked ( st ) ,"
@@subst ". fetch_sub (" ". fetch_sub ( Tracked ( st ) ,"
@@subst ". fetch_and (" ". fetch_and ( Tracked ( st ) ,"
@@subst ". fetch_or (" ". fetch_or ( Tracked ( st ) ,"
