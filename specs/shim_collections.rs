// ---- assumed contracts on the standard collections (trusted; see DESIGN.md) ----
pub open spec fn sh_eq<T>(a: T, b: T) -> bool { a == b }
#[derive(Debug)]
pub struct VerifErr { pub x: u8 }
pub type Result<T, E = VerifErr> = core::result::Result<T, E>;
#[verifier::external_body]
pub fn verif_anyhow() -> (r: VerifErr) { unimplemented!() }
pub struct VerifString { pub x: u8 }
#[verifier::external_body]
pub fn verif_string() -> (r: VerifString) { unimplemented!() }
pub struct LazyString { pub x: u8 }
impl LazyString { #[verifier::external_body] pub fn new<F: FnOnce() -> VerifString>(f: F) -> (r: LazyString) { unimplemented!() } }
// anyhow::Context: replaces the error, keeps the value
pub trait ShContext { fn context(self, m: &str) -> (r: Self) where Self: Sized; }
impl<T> ShContext for core::result::Result<T, VerifErr> {
  #[verifier::external_body]
  fn context(self, m: &str) -> (r: Self)
    ensures self is Ok <==> r is Ok, self is Ok ==> r == self
  { unimplemented!() } }

// A by-value sequence iterator (std::slice::Iter, vec_deque::Iter, ... and their adapters over pure closures).
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ShIter<T> { inner: std::vec::IntoIter<T> }
impl<T> ShIter<T> {
  // everything the iterator will ever yield, and how much of it was yielded (front, back)
  pub uninterp spec fn all(&self) -> Seq<T>;
  pub uninterp spec fn pos(&self) -> int;
  pub uninterp spec fn bpos(&self) -> int;
  pub open spec fn fresh(&self) -> bool { self.pos() == 0 && self.bpos() == self.all().len() }
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<T>)
    ensures final(self).all() == old(self).all(), final(self).bpos() == old(self).bpos(),
      0 <= old(self).pos() <= old(self).bpos() <= old(self).all().len(),
      0 <= final(self).pos() <= final(self).bpos(),
      match r {
        None => old(self).pos() == old(self).bpos() && final(self).pos() == old(self).pos(),
        Some(x) => old(self).pos() < old(self).bpos() && x == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1 },
  { unimplemented!() }
  #[verifier::external_body]
  pub fn next_back(&mut self) -> (r: Option<T>)
    ensures final(self).all() == old(self).all(), final(self).pos() == old(self).pos(),
      0 <= old(self).pos() <= old(self).bpos() <= old(self).all().len(),
      match r {
        None => old(self).pos() == old(self).bpos() && final(self).bpos() == old(self).bpos(),
        Some(x) => old(self).pos() < old(self).bpos() && x == old(self).all()[old(self).bpos() - 1] && final(self).bpos() == old(self).bpos() - 1 },
  { unimplemented!() }
  #[verifier::external_body]
  pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
    requires self.fresh(), forall|i: int| #![trigger self.all()[i]] 0 <= i < self.all().len() ==> call_requires(f, (self.all()[i],)),
    ensures match r {
      Some(i) => i < self.all().len() && call_ensures(f, (self.all()[i as int],), true)
          && forall|j: int| #![trigger self.all()[j]] 0 <= j < i ==> call_ensures(f, (self.all()[j],), false),
      None => forall|j: int| #![trigger self.all()[j]] 0 <= j < self.all().len() ==> call_ensures(f, (self.all()[j],), false) },
  { unimplemented!() }
  #[verifier::external_body]
  pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
    requires self.fresh(), forall|i: int| #![trigger self.all()[i]] 0 <= i < self.all().len() ==> call_requires(f, (&self.all()[i],)),
    ensures match r {
      Some(x) => exists|i: int| 0 <= i < self.all().len() && x == #[trigger] self.all()[i] && call_ensures(f, (&self.all()[i],), true)
          && forall|j: int| #![trigger self.all()[j]] 0 <= j < i ==> call_ensures(f, (&self.all()[j],), false),
      None => forall|j: int| #![trigger self.all()[j]] 0 <= j < self.all().len() ==> call_ensures(f, (&self.all()[j],), false) },
  { unimplemented!() }
  #[verifier::external_body]
  pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
    requires self.fresh(), forall|i: int| #![trigger self.all()[i]] 0 <= i < self.all().len() ==> call_requires(f, (self.all()[i],)),
    ensures
      r ==> exists|i: int| 0 <= i < self.all().len() && call_ensures(f, (#[trigger] self.all()[i],), true),
      !r ==> forall|j: int| #![trigger self.all()[j]] 0 <= j < self.all().len() ==> call_ensures(f, (self.all()[j],), false),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn all_of<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
    requires self.fresh(), forall|i: int| #![trigger self.all()[i]] 0 <= i < self.all().len() ==> call_requires(f, (self.all()[i],)),
    ensures
      !r ==> exists|i: int| 0 <= i < self.all().len() && call_ensures(f, (#[trigger] self.all()[i],), false),
      r ==> forall|j: int| #![trigger self.all()[j]] 0 <= j < self.all().len() ==> call_ensures(f, (self.all()[j],), true),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: ShIter<B>)
    requires self.fresh(), forall|i: int| #![trigger self.all()[i]] 0 <= i < self.all().len() ==> call_requires(f, (self.all()[i],)),
    ensures r.fresh(), r.all().len() == self.all().len(),
      forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < self.all().len() ==> call_ensures(f, (self.all()[i],), r.all()[i]),
  { unimplemented!() }
  // filter: the kept elements, in order (kept indices are given by a witness sequence)
  #[verifier::external_body]
  pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: ShIter<T>)
    requires self.fresh(), forall|i: int| #![trigger self.all()[i]] 0 <= i < self.all().len() ==> call_requires(f, (&self.all()[i],)),
    ensures r.fresh(),
      exists|w: Seq<int>| filter_witness(w, self.all(), r.all(), f),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn rev(self) -> (r: ShIter<T>)
    requires self.fresh(),
    ensures r.fresh(), r.all().len() == self.all().len(),
       forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[self.all().len() - 1 - i]] 0 <= i < self.all().len() ==> r.all()[i] == self.all()[self.all().len() - 1 - i],
       forall|i: int| #![trigger self.all()[i]] 0 <= i < self.all().len() ==> self.all()[i] == r.all()[self.all().len() - 1 - i],
  { unimplemented!() }
  #[verifier::external_body]
  pub fn enumerate(self) -> (r: ShIter<(usize, T)>)
    requires self.fresh(),
    ensures r.fresh(), r.all().len() == self.all().len(), forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < self.all().len() ==> r.all()[i].0 == i && r.all()[i].1 == self.all()[i],
  { unimplemented!() }
  #[verifier::external_body]
  pub fn collect(self) -> (r: Vec<T>)
    requires self.fresh(),
    ensures r@ == self.all(),
  { unimplemented!() }
}
pub open spec fn filter_witness<T, F: Fn(&T) -> bool>(w: Seq<int>, all: Seq<T>, kept: Seq<T>, f: F) -> bool {
  &&& w.len() == kept.len()
  &&& forall|i: int| #![trigger w[i]] #![trigger kept[i]] 0 <= i < w.len() ==> 0 <= w[i] < all.len() && kept[i] == all[w[i]] && call_ensures(f, (&all[w[i]],), true)
  &&& forall|i: int, j: int| 0 <= i < j < w.len() ==> w[i] < w[j]
  &&& forall|k: int| #![trigger all[k]] 0 <= k < all.len() ==> call_ensures(f, (&all[k],), false) || exists|i: int| 0 <= i < w.len() && #[trigger] w[i] == k
}
impl<'a, T: Copy> ShIter<&'a T> {
  #[verifier::external_body]
  pub fn cloned(self) -> (r: ShIter<T>)
    requires self.fresh(),
    ensures r.fresh(), r.all().len() == self.all().len(), forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < self.all().len() ==> r.all()[i] == *self.all()[i],
  { unimplemented!() }
  #[verifier::external_body]
  pub fn copied(self) -> (r: ShIter<T>)
    requires self.fresh(),
    ensures r.fresh(), r.all().len() == self.all().len(), forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < self.all().len() ==> r.all()[i] == *self.all()[i],
  { unimplemented!() }
}
// `for x in e`: IntoIterator::into_iter
pub trait ShFor { type Item; type It; spec fn for_ens(self, r: Self::It) -> bool; fn sh_for_(self) -> (r: Self::It) ensures self.for_ens(r); }
pub fn sh_for<C: ShFor>(c: C) -> (r: C::It) ensures c.for_ens(r) { c.sh_for_() }
impl<T> ShFor for ShIter<T> { type Item = T; type It = ShIter<T>;
  open spec fn for_ens(self, r: ShIter<T>) -> bool { r == self }
  fn sh_for_(self) -> (r: ShIter<T>) { self } }
pub open spec fn refs_of<T>(r: ShIter<&T>, s: Seq<T>) -> bool {
  r.fresh() && r.all().len() == s.len() && forall|i: int| #![trigger r.all()[i]] #![trigger s[i]] 0 <= i < s.len() ==> *r.all()[i] == s[i]
}
impl<'a, T> ShFor for &'a Vec<T> { type Item = &'a T; type It = ShIter<&'a T>;
  open spec fn for_ens(self, r: ShIter<&'a T>) -> bool { refs_of(r, self@) }
  #[verifier::external_body]
  fn sh_for_(self) -> (r: ShIter<&'a T>) { unimplemented!() } }
impl<'a, T> ShFor for &'a [T] { type Item = &'a T; type It = ShIter<&'a T>;
  open spec fn for_ens(self, r: ShIter<&'a T>) -> bool { refs_of(r, self@) }
  #[verifier::external_body]
  fn sh_for_(self) -> (r: ShIter<&'a T>) { unimplemented!() } }
impl<T> ShFor for Vec<T> { type Item = T; type It = ShIter<T>;
  open spec fn for_ens(self, r: ShIter<T>) -> bool { r.fresh() && r.all() == self@ }
  #[verifier::external_body]
  fn sh_for_(self) -> (r: ShIter<T>) { unimplemented!() } }
impl ShFor for core::ops::Range<usize> { type Item = usize; type It = ShIter<usize>;
  open spec fn for_ens(self, r: ShIter<usize>) -> bool { r.fresh() && r.all().len() == (if self.start <= self.end { self.end - self.start } else { 0 })
     && forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> r.all()[i] == self.start + i }
  #[verifier::external_body]
  fn sh_for_(self) -> (r: ShIter<usize>) { unimplemented!() } }
// `for x in a..=b`
pub trait ShStep: Sized { spec fn si(&self) -> int; }
impl ShStep for usize { open spec fn si(&self) -> int { *self as int } }
impl ShStep for i32 { open spec fn si(&self) -> int { *self as int } }
#[verifier::external_body]
pub fn sh_incl<T: ShStep>(a: T, b: T) -> (r: ShIter<T>)
  ensures r.fresh(), r.all().len() == (if a.si() <= b.si() { b.si() - a.si() + 1 } else { 0 }), forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> r.all()[i].si() == a.si() + i { unimplemented!() }
pub trait ShSeq<T> { spec fn sh_view(&self) -> Seq<T>;
  fn sh_iter<'a>(&'a self) -> (r: ShIter<&'a T>) ensures refs_of(r, self.sh_view()); }
impl<T> ShSeq<T> for Vec<T> { open spec fn sh_view(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn sh_iter<'a>(&'a self) -> (r: ShIter<&'a T>) { unimplemented!() } }
impl<T> ShSeq<T> for [T] { open spec fn sh_view(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn sh_iter<'a>(&'a self) -> (r: ShIter<&'a T>) { unimplemented!() } }
pub trait ShVec<T> { spec fn v_view(self) -> Seq<T>;
  fn sh_into_iter(self) -> (r: ShIter<T>) where Self: Sized ensures r.fresh() && r.all() == self.v_view();
}
impl<T> ShVec<T> for Vec<T> { open spec fn v_view(self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn sh_into_iter(self) -> (r: ShIter<T>) { unimplemented!() } }
pub trait ShExtend<T> { spec fn ext_view(&self) -> Seq<T>;
  fn sh_extend(&mut self, o: Vec<T>) ensures final(self).ext_view() == old(self).ext_view() + o@; }
impl<T> ShExtend<T> for Vec<T> { open spec fn ext_view(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn sh_extend(&mut self, o: Vec<T>) { unimplemented!() } }

// std::collections::VecDeque
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { inner: std::collections::VecDeque<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecDeque<T> {
  #[verifier::external_body]
  pub fn default() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
  #[verifier::external_body]
  pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
  #[verifier::external_body]
  pub fn pop_front(&mut self) -> (r: Option<T>)
    ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first() } { unimplemented!() }
  #[verifier::external_body]
  pub fn pop_back(&mut self) -> (r: Option<T>)
    ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last() } { unimplemented!() }
  #[verifier::external_body]
  pub fn front(&self) -> (r: Option<&T>)
    ensures match r { None => self@.len() == 0, Some(x) => self@.len() > 0 && *x == self@[0] } { unimplemented!() }
  #[verifier::external_body]
  pub fn back(&self) -> (r: Option<&T>)
    ensures match r { None => self@.len() == 0, Some(x) => self@.len() > 0 && *x == self@.last() } { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, i: usize) -> (r: Option<&T>)
    ensures match r { None => i >= self@.len(), Some(x) => i < self@.len() && *x == self@[i as int] } { unimplemented!() }
  #[verifier::external_body]
  pub fn front_mut(&mut self) -> (r: Option<&mut T>)
    ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => old(self)@.len() > 0 && *x == old(self)@[0] && final(self)@ == old(self)@.update(0, *final(x)) } { unimplemented!() }
  #[verifier::external_body]
  pub fn back_mut(&mut self) -> (r: Option<&mut T>)
    ensures match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        Some(x) => old(self)@.len() > 0 && *x == old(self)@.last() && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(x)) } { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
    ensures match r { None => i >= old(self)@.len() && final(self)@ == old(self)@,
        Some(x) => i < old(self)@.len() && *x == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(x)) } { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, idx: usize) -> (r: Option<T>)
    ensures idx < old(self)@.len() ==> r == Some(old(self)@[idx as int]) && final(self)@ == old(self)@.remove(idx as int),
     idx >= old(self)@.len() ==> r == None::<T> && final(self)@ == old(self)@ { unimplemented!() }
  #[verifier::external_body]
  pub fn sh_iter<'a>(&'a self) -> (r: ShIter<&'a T>) ensures refs_of(r, self@) { unimplemented!() }
  #[verifier::external_body]
  pub fn sh_iter_mut<'a>(&'a mut self) -> (r: ShSeqIterMut<'a, T>)
    ensures r.pos() == 0, r.all().len() == old(self)@.len(), final(self)@.len() == old(self)@.len(),
      forall|i: int| #![trigger r.all()[i]] #![trigger old(self)@[i]] #![trigger final(self)@[i]] 0 <= i < old(self)@.len() ==>
         *r.all()[i] == old(self)@[i] && final(self)@[i] == *final(r.all()[i]) { unimplemented!() }
}
impl<'a, T> ShFor for &'a VecDeque<T> { type Item = &'a T; type It = ShIter<&'a T>;
  open spec fn for_ens(self, r: ShIter<&'a T>) -> bool { refs_of(r, self@) }
  #[verifier::external_body]
  fn sh_for_(self) -> (r: ShIter<&'a T>) { unimplemented!() } }

// mutable sequence iterators; an element never handed out keeps its value
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ShSeqIterMut<'a, T> { inner: std::collections::vec_deque::IterMut<'a, T> }
impl<'a, T> ShSeqIterMut<'a, T> {
  pub uninterp spec fn all(&self) -> Seq<&'a mut T>;
  pub uninterp spec fn pos(&self) -> int;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<&'a mut T>)
    ensures final(self).all() == old(self).all(), 0 <= old(self).pos() <= old(self).all().len(),
      match r { None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos(),
        Some(x) => old(self).pos() < old(self).all().len() && x == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1 },
  { unimplemented!() }
  // find on an IterMut: the first element satisfying the predicate is handed out; the others keep their value
  #[verifier::external_body]
  pub fn find<F: Fn(&&'a mut T) -> bool>(self, f: F) -> (r: Option<&'a mut T>)
    requires self.pos() == 0, forall|i: int| #![trigger self.all()[i]] 0 <= i < self.all().len() ==> call_requires(f, (&self.all()[i],)),
    ensures
      match r {
        Some(x) => exists|i: int| 0 <= i < self.all().len() && x == #[trigger] self.all()[i] && call_ensures(f, (&self.all()[i],), true)
          && (forall|j: int| #![trigger self.all()[j]] 0 <= j < i ==> call_ensures(f, (&self.all()[j],), false))
          && (forall|j: int| #![trigger self.all()[j]] 0 <= j < self.all().len() && j != i ==> *final(self.all()[j]) == *self.all()[j]),
        None => (forall|j: int| #![trigger self.all()[j]] 0 <= j < self.all().len() ==> call_ensures(f, (&self.all()[j],), false) && *final(self.all()[j]) == *self.all()[j]) },
  { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_seq_iter_mut_resolved<T>(it: ShSeqIterMut<T>)
  requires #[trigger] has_resolved(it)
  ensures forall|i: int| #![trigger it.all()[i]] it.pos() <= i < it.all().len() ==> *final(it.all()[i]) == *it.all()[i]
{ }

// std::collections::BTreeMap with i64 keys
pub open spec fn sorted_set(ks: Seq<i64>, s: Set<i64>) -> bool {
  &&& ks.len() == s.len()
  &&& forall|i: int, j: int| #![trigger ks[i], ks[j]] 0 <= i < j < ks.len() ==> ks[i] < ks[j]
  &&& forall|i: int| #![trigger ks[i]] 0 <= i < ks.len() ==> s.contains(ks[i])
  &&& forall|k: i64| #![trigger s.contains(k)] s.contains(k) ==> exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k
}
// the keys of a BTreeMap in iteration order
pub open spec fn skeys(s: Set<i64>) -> Seq<i64> { choose|ks: Seq<i64>| sorted_set(ks, s) }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct BTreeMap<K, V> { inner: std::collections::BTreeMap<K, V> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<V> BTreeMap<i64, V> {
  #[verifier::external_body]
  pub fn default() -> (r: Self) ensures r@ == Map::<i64, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Map::<i64, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<i64, V>::empty()), r == (self@.dom().len() == 0), !r ==> exists|k: i64| #[trigger] self@.dom().contains(k) { unimplemented!() }
  #[verifier::external_body]
  pub fn clear(&mut self) ensures final(self)@ == Map::<i64, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key(&self, k: &i64) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &i64) -> (r: Option<&V>)
    ensures match r { None => !self@.dom().contains(*k), Some(v) => self@.dom().contains(*k) && *v == self@[*k] } { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut(&mut self, k: &i64) -> (r: Option<&mut V>)
    ensures match r { None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
       Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)) } { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: i64, v: V) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.insert(k, v),
      match r { None => !old(self)@.dom().contains(k), Some(o) => old(self)@.dom().contains(k) && o == old(self)@[k] } { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &i64) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.remove(*k),
      match r { None => !old(self)@.dom().contains(*k), Some(o) => old(self)@.dom().contains(*k) && o == old(self)@[*k] } { unimplemented!() }
  #[verifier::external_body]
  pub fn first_key_value(&self) -> (r: Option<(&i64, &V)>)
    ensures match r { None => self@.dom().len() == 0 && self@ =~= Map::<i64, V>::empty(),
      Some((k, v)) => self@.dom().contains(*k) && *v == self@[*k] && forall|j: i64| #[trigger] self@.dom().contains(j) ==> *k <= j } { unimplemented!() }
  #[verifier::external_body]
  pub fn last_key_value(&self) -> (r: Option<(&i64, &V)>)
    ensures match r { None => self@.dom().len() == 0 && self@ =~= Map::<i64, V>::empty(),
      Some((k, v)) => self@.dom().contains(*k) && *v == self@[*k] && forall|j: i64| #[trigger] self@.dom().contains(j) ==> *k >= j } { unimplemented!() }
  #[verifier::external_body]
  pub fn sh_iter<'a>(&'a self) -> (r: ShIter<(&'a i64, &'a V)>)
    ensures r.fresh(), sorted_set(skeys(self@.dom()), self@.dom()), r.all().len() == skeys(self@.dom()).len(),
       forall|i: int| #![trigger r.all()[i]] #![trigger skeys(self@.dom())[i]] 0 <= i < r.all().len() ==> *r.all()[i].0 == skeys(self@.dom())[i] && *r.all()[i].1 == self@[skeys(self@.dom())[i]] { unimplemented!() }
  #[verifier::external_body]
  pub fn keys<'a>(&'a self) -> (r: ShIter<&'a i64>)
    ensures r.fresh(), sorted_set(skeys(self@.dom()), self@.dom()), refs_of(r, skeys(self@.dom())) { unimplemented!() }
  #[verifier::external_body]
  pub fn values<'a>(&'a self) -> (r: ShIter<&'a V>)
    ensures r.fresh(), sorted_set(skeys(self@.dom()), self@.dom()), r.all().len() == skeys(self@.dom()).len(),
       forall|i: int| #![trigger r.all()[i]] #![trigger skeys(self@.dom())[i]] 0 <= i < r.all().len() ==> *r.all()[i] == self@[skeys(self@.dom())[i]] { unimplemented!() }
  #[verifier::external_body]
  pub fn sh_iter_mut<'a>(&'a mut self) -> (r: ShMapIterMut<'a, V>)
    ensures r.pos() == 0, r.ks() == skeys(old(self)@.dom()), sorted_set(r.ks(), old(self)@.dom()), r.all().len() == r.ks().len(), final(self)@.dom() == old(self)@.dom(),
      forall|i: int| #![trigger r.all()[i]] #![trigger r.ks()[i]] 0 <= i < r.ks().len() ==>
         *r.all()[i] == old(self)@[r.ks()[i]] && final(self)@[r.ks()[i]] == *final(r.all()[i]) { unimplemented!() }
}
impl<V> BTreeMap<i64, V> {
  #[verifier::external_body]
  pub fn entry<'a>(&'a mut self, k: i64) -> (r: BtmEntry<'a, V>)
    ensures match r {
      BtmEntry::Occupied(e) => e.live() && old(self)@.dom().contains(k) && e.map0() == old(self)@ && e.key0() == k && e.value() == old(self)@[k] && final(self)@ == e.map_final(),
      BtmEntry::Vacant(e) => !old(self)@.dom().contains(k) && e.map0() == old(self)@ && e.key0() == k && final(self)@ == e.map_final() } { unimplemented!() }
}
pub enum BtmEntry<'a, V> { Occupied(BtmOcc<'a, V>), Vacant(BtmVac<'a, V>) }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct BtmOcc<'a, V> { inner: std::collections::btree_map::OccupiedEntry<'a, i64, V> }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct BtmVac<'a, V> { inner: std::collections::btree_map::VacantEntry<'a, i64, V> }
impl<'a, V> BtmOcc<'a, V> {
  pub uninterp spec fn map0(&self) -> Map<i64, V>;
  pub uninterp spec fn key0(&self) -> i64;
  pub uninterp spec fn value(&self) -> V;
  pub uninterp spec fn live(&self) -> bool;  // not removed through this entry yet
  pub uninterp spec fn map_final(&self) -> Map<i64, V>;
  #[verifier::external_body]
  pub fn get(&self) -> (r: &V) ensures *r == self.value() { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut(&mut self) -> (r: &mut V)
    ensures *r == old(self).value(), final(self).value() == *final(r), final(self).map0() == old(self).map0(), final(self).key0() == old(self).key0(), final(self).map_final() == old(self).map_final(), final(self).live() == old(self).live() { unimplemented!() }
  #[verifier::external_body]
  // by reference instead of by value: Verus treats a conditionally moved value as resolved at the join (see DESIGN.md)
  pub fn remove(&mut self) -> (r: V)
    ensures r == old(self).value(), !final(self).live(), final(self).map0() == old(self).map0(), final(self).key0() == old(self).key0(), final(self).map_final() == old(self).map_final() { unimplemented!() }
}
impl<'a, V> BtmVac<'a, V> {
  pub uninterp spec fn map0(&self) -> Map<i64, V>;
  pub uninterp spec fn key0(&self) -> i64;
  pub uninterp spec fn map_final(&self) -> Map<i64, V>;
}
#[verifier::external_body]
pub broadcast proof fn axiom_btm_occ_resolved<V>(e: BtmOcc<V>)
  requires #[trigger] has_resolved(e)
  ensures e.map_final() == (if e.live() { e.map0().insert(e.key0(), e.value()) } else { e.map0().remove(e.key0()) })
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_btm_vac_resolved<V>(e: BtmVac<V>)
  requires #[trigger] has_resolved(e)
  ensures e.map_final() == e.map0()
{ }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct ShMapIterMut<'a, V> { inner: std::collections::btree_map::IterMut<'a, i64, V> }
impl<'a, V> ShMapIterMut<'a, V> {
  pub uninterp spec fn ks(&self) -> Seq<i64>;
  pub uninterp spec fn all(&self) -> Seq<&'a mut V>;
  pub uninterp spec fn pos(&self) -> int;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<(&'a i64, &'a mut V)>)
    ensures final(self).all() == old(self).all(), final(self).ks() == old(self).ks(), 0 <= old(self).pos() <= old(self).all().len(),
      match r { None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos(),
        Some((k, v)) => old(self).pos() < old(self).all().len() && *k == old(self).ks()[old(self).pos()] && v == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1 },
  { unimplemented!() }
  #[verifier::external_body]
  pub fn rev(self) -> (r: ShMapIterMut<'a, V>)
    requires self.pos() == 0,
    ensures r.pos() == 0, r.all().len() == self.all().len(), r.ks().len() == self.ks().len(),
      forall|i: int| #![trigger r.all()[i]] #![trigger r.ks()[i]] 0 <= i < self.all().len() ==> r.all()[i] == self.all()[self.all().len() - 1 - i] && r.ks()[i] == self.ks()[self.all().len() - 1 - i],
      forall|i: int| #![trigger self.all()[i]] #![trigger self.ks()[i]] 0 <= i < self.all().len() ==> self.all()[i] == r.all()[self.all().len() - 1 - i] && self.ks()[i] == r.ks()[self.all().len() - 1 - i],
  { unimplemented!() }
}
impl<'a, V> ShFor for ShMapIterMut<'a, V> { type Item = (&'a i64, &'a mut V); type It = ShMapIterMut<'a, V>;
  open spec fn for_ens(self, r: ShMapIterMut<'a, V>) -> bool { r == self }
  fn sh_for_(self) -> (r: ShMapIterMut<'a, V>) { self } }
#[verifier::external_body]
pub broadcast proof fn axiom_map_iter_mut_resolved<V>(it: ShMapIterMut<V>)
  requires #[trigger] has_resolved(it)
  ensures forall|i: int| #![trigger it.all()[i]] it.pos() <= i < it.all().len() ==> *final(it.all()[i]) == *it.all()[i]
{ }

// rustc_hash::FxHashMap with u64 keys
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct FxHashMap<K, V> { inner: std::collections::HashMap<K, V> }
impl<K, V> View for FxHashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<V> FxHashMap<u64, V> {
  #[verifier::external_body]
  pub fn default() -> (r: Self) ensures r@ == Map::<u64, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<u64, V>::empty()) { unimplemented!() }
  #[verifier::external_body]
  pub fn clear(&mut self) ensures final(self)@ == Map::<u64, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key(&self, k: &u64) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &u64) -> (r: Option<&V>)
    ensures match r { None => !self@.dom().contains(*k), Some(v) => self@.dom().contains(*k) && *v == self@[*k] } { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut(&mut self, k: &u64) -> (r: Option<&mut V>)
    ensures match r { None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
       Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)) } { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: u64, v: V) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.insert(k, v),
      match r { None => !old(self)@.dom().contains(k), Some(o) => old(self)@.dom().contains(k) && o == old(self)@[k] } { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &u64) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.remove(*k),
      match r { None => !old(self)@.dom().contains(*k), Some(o) => old(self)@.dom().contains(*k) && o == old(self)@[*k] } { unimplemented!() }
  #[verifier::external_body]
  pub fn entry<'a>(&'a mut self, k: u64) -> (r: HmEntry<'a, V>)
    ensures match r {
      HmEntry::Occupied(e) => e.live() && old(self)@.dom().contains(k) && e.map0() == old(self)@ && e.key0() == k && e.value() == old(self)@[k] && final(self)@ == e.map_final(),
      HmEntry::Vacant(e) => !old(self)@.dom().contains(k) && e.map0() == old(self)@ && e.key0() == k && final(self)@ == e.map_final() } { unimplemented!() }
}
pub enum HmEntry<'a, V> { Occupied(HmOcc<'a, V>), Vacant(HmVac<'a, V>) }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct HmOcc<'a, V> { inner: std::collections::hash_map::OccupiedEntry<'a, u64, V> }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct HmVac<'a, V> { inner: std::collections::hash_map::VacantEntry<'a, u64, V> }
impl<'a, V> HmOcc<'a, V> {
  pub uninterp spec fn map0(&self) -> Map<u64, V>;
  pub uninterp spec fn key0(&self) -> u64;
  pub uninterp spec fn value(&self) -> V;
  pub uninterp spec fn live(&self) -> bool;  // not removed through this entry yet
  pub uninterp spec fn map_final(&self) -> Map<u64, V>;
  #[verifier::external_body]
  pub fn get(&self) -> (r: &V) ensures *r == self.value() { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut(&mut self) -> (r: &mut V)
    ensures *r == old(self).value(), final(self).value() == *final(r), final(self).map0() == old(self).map0(), final(self).key0() == old(self).key0(), final(self).map_final() == old(self).map_final(), final(self).live() == old(self).live() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, v: V) -> (r: V)
    ensures r == old(self).value(), final(self).value() == v, final(self).map0() == old(self).map0(), final(self).key0() == old(self).key0(), final(self).map_final() == old(self).map_final(), final(self).live() == old(self).live() { unimplemented!() }
  #[verifier::external_body]
  // by reference instead of by value: Verus treats a conditionally moved value as resolved at the join (see DESIGN.md)
  pub fn remove(&mut self) -> (r: V)
    ensures r == old(self).value(), !final(self).live(), final(self).map0() == old(self).map0(), final(self).key0() == old(self).key0(), final(self).map_final() == old(self).map_final() { unimplemented!() }
}
impl<'a, V> HmVac<'a, V> {
  pub uninterp spec fn map0(&self) -> Map<u64, V>;
  pub uninterp spec fn key0(&self) -> u64;
  pub uninterp spec fn map_final(&self) -> Map<u64, V>;
}
#[verifier::external_body]
pub broadcast proof fn axiom_hm_occ_resolved<V>(e: HmOcc<V>)
  requires #[trigger] has_resolved(e)
  ensures e.map_final() == (if e.live() { e.map0().insert(e.key0(), e.value()) } else { e.map0().remove(e.key0()) })
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_hm_vac_resolved<V>(e: HmVac<V>)
  requires #[trigger] has_resolved(e)
  ensures e.map_final() == e.map0()
{ }

// proved facts about sequences and maps used everywhere
pub broadcast proof fn lemma_update_same<T>(s: Seq<T>, i: int, x: T) requires 0 <= i < s.len(), s[i] == x ensures #[trigger] s.update(i, x) == s { assert(s.update(i, x) =~= s); }
pub broadcast proof fn lemma_insert_same<K, V>(m: Map<K, V>, k: K, v: V) requires m.dom().contains(k), m[k] == v ensures #[trigger] m.insert(k, v) == m { assert(m.insert(k, v) =~= m); }
pub broadcast proof fn lemma_insert_insert<K, V>(m: Map<K, V>, k: K, v: V, w: V) ensures #[trigger] m.insert(k, v).insert(k, w) == m.insert(k, w) { assert(m.insert(k, v).insert(k, w) =~= m.insert(k, w)); }
pub broadcast proof fn lemma_insert_remove<K, V>(m: Map<K, V>, k: K, v: V) ensures #[trigger] m.insert(k, v).remove(k) == m.remove(k) { assert(m.insert(k, v).remove(k) =~= m.remove(k)); }
pub broadcast proof fn lemma_remove_absent<K, V>(m: Map<K, V>, k: K) requires !m.dom().contains(k) ensures #[trigger] m.remove(k) == m { assert(m.remove(k) =~= m); }
pub broadcast group group_shim { lemma_update_same, lemma_insert_same, lemma_insert_insert, lemma_insert_remove, lemma_remove_absent,
   axiom_seq_iter_mut_resolved, axiom_map_iter_mut_resolved, axiom_hm_occ_resolved, axiom_hm_vac_resolved, axiom_btm_occ_resolved, axiom_btm_vac_resolved }

// ---- assumed contracts on Option/integer methods vstd does not cover ----
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
  ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, U: core::marker::Destruct, F: FnOnce(T) -> U + core::marker::Destruct> [Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
  requires o is Some ==> call_requires(f, (o->0,)),
  ensures match o { Some(x) => call_ensures(f, (x,), r), None => r == d };

pub trait ShContains<T> { spec fn c_view(&self) -> Seq<T>; fn sh_contains(&self, x: &T) -> (r: bool) ensures r == self.c_view().contains(*x); }
impl ShContains<i64> for Vec<i64> { open spec fn c_view(&self) -> Seq<i64> { self@ }
  #[verifier::external_body]
  fn sh_contains(&self, x: &i64) -> (r: bool) { unimplemented!() } }
