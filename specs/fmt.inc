@@verus
// ---------------- text built by format! ----------------
pub open spec fn dchar(n: int) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' } }
pub open spec fn decimal(n: int) -> Seq<char> decreases n { if n < 10 { seq![dchar(n)] } else { decimal(n / 10).push(dchar(n % 10)) } }
pub uninterp spec fn padded_negative(w: int, n: int) -> Seq<char>;
// decimal text of n with leading zeros up to width w
pub open spec fn zpad(w: int, n: int) -> Seq<char> { if n < 0 { padded_negative(w, n) } else if decimal(n).len() >= w { decimal(n) } else { Seq::new((w - decimal(n).len()) as nat, |i: int| '0') + decimal(n) } }
#[verifier::external_body]
pub fn fmt_pad(w: u8, n: i128) -> (r: String) ensures r@ == zpad(w as int, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn fmt_lit(s: &'static str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn fmt_empty() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn fmt_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub trait ShDisp { spec fn disp(&self) -> Seq<char>; }
impl ShDisp for i32 { open spec fn disp(&self) -> Seq<char> { zpad(1, *self as int) } }
impl ShDisp for u32 { open spec fn disp(&self) -> Seq<char> { zpad(1, *self as int) } }
impl ShDisp for i64 { open spec fn disp(&self) -> Seq<char> { zpad(1, *self as int) } }
impl ShDisp for u64 { open spec fn disp(&self) -> Seq<char> { zpad(1, *self as int) } }
impl ShDisp for usize { open spec fn disp(&self) -> Seq<char> { zpad(1, *self as int) } }
impl ShDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl ShDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl<T: ShDisp + ?Sized> ShDisp for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } }
#[verifier::external_body]
pub fn fmt_disp<T: ShDisp + ?Sized>(x: &T) -> (r: String) ensures r@ == x.disp() { unimplemented!() }
@@formatstr
