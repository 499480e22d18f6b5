@@verus
// ---------------- ndarray's one-dimensional array, by the sequence of its elements ----------------
pub struct Array1<T> { pub g: Ghost<Seq<T>> }
pub open spec fn rs(a: Array1<Real>) -> Seq<Real> { a@ }
pub trait Zero: Sized { spec fn is_zero(&self) -> bool; }
impl Zero for Real { open spec fn is_zero(&self) -> bool { self.r() == 0real } }
impl Zero for i32 { open spec fn is_zero(&self) -> bool { *self == 0 } }
pub open spec fn arr<T>(s: Seq<T>) -> Array1<T> { Array1 { g: Ghost(s) } }
impl<T> Array1<T> {
  pub open spec fn view(&self) -> Seq<T> { self.g@ }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn at_mut(&mut self, i: usize) -> (r: &mut T) requires i < old(self)@.len() ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r)) { unimplemented!() }
  #[verifier::external_body] pub fn at(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
  #[verifier::external_body] pub fn from_vec(v: Vec<T>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
  #[verifier::external_body] pub fn from(v: Vec<T>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
  #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn sh_iter<'a>(&'a self) -> (r: ShIter<&'a T>) ensures refs_of(r, self@) { unimplemented!() }
  #[verifier::external_body] pub fn mapv<B, F: Fn(T) -> B>(&self, f: F) -> (r: Array1<B>) requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_requires(f, (self@[i],))
    ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), r@[i]) { unimplemented!() }
}
impl<T> Clone for Array1<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Zero> Array1<T> { #[verifier::external_body] pub fn zeros(n: usize) -> (r: Self) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).is_zero() { unimplemented!() } }
// arithmetic, element by element
pub open spec fn each_mul(a: Seq<Real>, x: real) -> Seq<Real> { Seq::new(a.len(), |i: int| rl(a[i].r() * x)) }
pub open spec fn each_div(a: Seq<Real>, x: real) -> Seq<Real> { Seq::new(a.len(), |i: int| rl(rdiv(a[i].r(), x))) }
pub open spec fn each_add(a: Seq<Real>, b: Seq<Real>) -> Seq<Real> { Seq::new(a.len(), |i: int| rl(a[i].r() + b[i].r())) }
pub open spec fn each_prod(a: Seq<Real>, b: Seq<Real>) -> Seq<Real> { Seq::new(a.len(), |i: int| rl(a[i].r() * b[i].r())) }
impl Array1<Real> {
  #[verifier::external_body] pub fn scaled(&self, o: Real) -> (r: Array1<Real>) ensures r@ == each_mul(self@, o.r()) { unimplemented!() }
  #[verifier::external_body] pub fn divided(&self, o: Real) -> (r: Array1<Real>) requires o.r() != 0real ensures r@ == each_div(self@, o.r()) { unimplemented!() }
  #[verifier::external_body] pub fn added(&self, o: Array1<Real>) -> (r: Array1<Real>) requires self@.len() == o@.len() ensures r@ == each_add(self@, o@) { unimplemented!() }
  #[verifier::external_body] pub fn times_(&self, o: &Array1<Real>) -> (r: Array1<Real>) requires self@.len() == o@.len() ensures r@ == each_prod(self@, o@) { unimplemented!() }
}
