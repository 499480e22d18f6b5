@@verus
// ---------------- shared market data: the shared cells are only read here ----------------
pub type Rc<T> = T;
pub struct RefCell<T> { pub v: T }
impl<T> RefCell<T> { #[verifier::external_body] pub fn borrow(&self) -> (r: &T) ensures *r == self.v { unimplemented!() } }
impl<T> Clone for RefCell<T> { #[verifier::external_body] fn clone(&self) -> (r: RefCell<T>) ensures r == *self { unimplemented!() } }
@@subst "Rc :: new ( $x )" "$x"
@@macro println "()"
@@subst ". with_context ( $f )" ". context ( \"\" )"
@@subst ". entry ( $k ) . and_modify ( | $e | * $e += $a ) . or_insert ( $b )" ". post ( $k , $a , $b )"
@@subst "* $m . entry ( $k ) . or_insert ( $z ) += $a ;" "$m . post_on ( $k , $z , $a ) ;"
@@verus
// ---------------- hash maps, by the identity of their keys ----------------
pub trait HKey { spec fn id(&self) -> int; }
impl HKey for OffsetDateTime { open spec fn id(&self) -> int { self.inst() } }
impl HKey for Date { open spec fn id(&self) -> int { self.day_n() } }
impl HKey for usize { open spec fn id(&self) -> int { *self as int } }
pub struct HashMap<K, V> { pub g: Ghost<Map<int, (K, V)>> }
// an insert keeps the key that is already there
pub open spec fn put<K: HKey, V>(m: Map<int, (K, V)>, k: K, v: V) -> Map<int, (K, V)> { m.insert(k.id(), (if m.dom().contains(k.id()) { m[k.id()].0 } else { k }, v)) }
// an amount added to what is already due at that moment
pub open spec fn posted<K: HKey>(m: Map<int, (K, Real)>, k: K, a: real) -> Map<int, (K, Real)> { m.insert(k.id(), if m.dom().contains(k.id()) { (m[k.id()].0, rl(m[k.id()].1.r() + a)) } else { (k, rl(a)) }) }
impl<K: HKey, V> HashMap<K, V> {
  pub open spec fn m(&self) -> Map<int, (K, V)> { self.g@ }
  // what iteration visits: every entry once, in an order fixed by the map's content
  pub uninterp spec fn order(m: Map<int, (K, V)>) -> Seq<(K, V)>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Map::<int, (K, V)>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == put(old(self).m(), k, v) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self.m().dom().contains(k.id()) && *v == self.m()[k.id()].1, None => !self.m().dom().contains(k.id()) } { unimplemented!() }
  #[verifier::external_body] pub fn from_iter(v: Vec<(K, V)>) -> (r: Self) ensures v@.len() == 1 ==> r.m() == put(Map::empty(), v@[0].0, v@[0].1) { unimplemented!() }
  #[verifier::external_body] pub fn sh_iter<'a>(&'a self) -> (r: ShIter<(&'a K, &'a V)>) ensures r.fresh(), r.all().len() == Self::order(self.m()).len(), forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> *r.all()[i].0 == Self::order(self.m())[i].0 && *r.all()[i].1 == Self::order(self.m())[i].1 { unimplemented!() }
}
impl<K: HKey> HashMap<K, Real> {
  #[verifier::external_body] pub fn post_on(&mut self, k: K, z: Real, a: Real) ensures final(self).m() == (if old(self).m().dom().contains(k.id()) { posted(old(self).m(), k, a.r()) } else { posted(old(self).m(), k, z.r() + a.r()) }) { unimplemented!() }
  #[verifier::external_body] pub fn post(&mut self, k: K, a: Real, b: Real) ensures final(self).m() == (if old(self).m().dom().contains(k.id()) { posted(old(self).m(), k, a.r()) } else { posted(old(self).m(), k, b.r()) }) { unimplemented!() }
}
