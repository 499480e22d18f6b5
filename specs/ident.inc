@@verus
// ---------------- byte strings ----------------
pub trait ShBytes { spec fn bytes(&self) -> Seq<u8>; }
impl ShBytes for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<const N: usize> ShBytes for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl ShBytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<T: ShBytes + ?Sized> ShBytes for &T { open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() } }
#[verifier::external_body]
pub fn sh_beq<A: ShBytes + ?Sized, B: ShBytes + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.bytes() == b.bytes()) { unimplemented!() }
pub trait ShSlice { spec fn s_view(&self) -> Seq<u8>;
  fn sh_contains(&self, x: &u8) -> (r: bool) ensures r == self.s_view().contains(*x);
  fn sh_starts_with(&self, p: &[u8]) -> (r: bool) ensures r == (p.len() <= self.s_view().len() && self.s_view().take(p.len() as int) == p@);
  fn sh_try_into<const N: usize>(&self) -> (r: Result<[u8; N]>) ensures r is Ok <==> self.s_view().len() == N, r is Ok ==> r->Ok_0@ == self.s_view();
  fn sh_iter<'a>(&'a self) -> (r: ShBytesIter<'a>) ensures r.all() == self.s_view(); }
impl ShSlice for [u8] { open spec fn s_view(&self) -> Seq<u8> { self@ }
  #[verifier::external_body] fn sh_contains(&self, x: &u8) -> (r: bool) { unimplemented!() }
  #[verifier::external_body] fn sh_starts_with(&self, p: &[u8]) -> (r: bool) { unimplemented!() }
  #[verifier::external_body] fn sh_try_into<const N: usize>(&self) -> (r: Result<[u8; N]>) { unimplemented!() }
  #[verifier::external_body] fn sh_iter<'a>(&'a self) -> (r: ShBytesIter<'a>) { unimplemented!() } }
#[verifier::external_body]
pub struct ShBytesIter<'a> { x: &'a u8 }
impl<'a> ShBytesIter<'a> {
  pub uninterp spec fn all(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn all_of<F: Fn(&'a u8) -> bool>(self, f: F) -> (r: bool)
    requires forall|i: int| #![trigger self.all()[i]] 0 <= i < self.all().len() ==> call_requires(f, (&self.all()[i],)),
    ensures !r ==> exists|i: int| 0 <= i < self.all().len() && call_ensures(f, (&#[trigger] self.all()[i],), false),
      r ==> forall|j: int| #![trigger self.all()[j]] 0 <= j < self.all().len() ==> call_ensures(f, (&self.all()[j],), true) { unimplemented!() }
}
pub trait ShAscii { spec fn ascii_(&self) -> bool; fn sh_is_ascii(&self) -> (r: bool) ensures r == self.ascii_(); }
impl ShAscii for u8 { open spec fn ascii_(&self) -> bool { *self < 128 } #[verifier::external_body] fn sh_is_ascii(&self) -> (r: bool) { unimplemented!() } }
// text: what bytes make a str
pub uninterp spec fn is_utf8(s: Seq<u8>) -> bool;
pub uninterp spec fn str_bytes(s: &str) -> Seq<u8>;
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] < 128 }
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
// ASCII is UTF-8; zero bytes after UTF-8 are UTF-8
pub broadcast axiom fn axiom_ascii_utf8(s: Seq<u8>) requires ascii(s) ensures #[trigger] is_utf8(s);
pub broadcast axiom fn axiom_padded_utf8(s: Seq<u8>, n: nat) requires is_utf8(s) ensures is_utf8(#[trigger] (s + zeros(n)));
#[verifier::external_body]
pub fn sh_text(b: &[u8]) -> (r: &str) requires is_utf8(b@) ensures str_bytes(r) == b@ { unimplemented!() }
#[verifier::external_body]
pub fn sh_utf8_check(b: &[u8]) -> (r: Result<&str>) ensures r is Ok <==> is_utf8(b@), r is Ok ==> str_bytes(r->Ok_0) == b@ { unimplemented!() }
#[verifier::external_body]
pub fn sh_str_bytes<'a>(s: &'a str) -> (r: &'a [u8]) ensures r@ == str_bytes(s) { unimplemented!() }
#[verifier::external_body]
pub fn sh_copy_into<const N: usize>(a: &mut [u8; N], n: usize, b: &[u8]) requires n <= N, b.len() == n ensures final(a)@ == b@ + old(a)@.skip(n as int) { unimplemented!() }
pub assume_specification<T, const N: usize> [<[T; N] as std::convert::AsRef<[T]>>::as_ref] (a: &[T; N]) -> (r: &[T]) ensures r@ == a@;
@@method all all_of
@@method contains sh_contains
@@method starts_with sh_starts_with
@@method try_into sh_try_into
@@method is_ascii sh_is_ascii
@@subst "std :: str :: from_utf8_unchecked" "sh_text"
@@subst "from_utf8_unchecked" "sh_text"
@@subst "from_utf8" "sh_utf8_check"
@@subst "checkers :: contains_white_space" "contains_white_space"
@@subst "checkers :: is_ascii" "is_ascii"
@@fn trading-engine/src/utils/checkers.rs contains_white_space props=C09,C10
ensures ret == (code@.contains(32u8) || code@.contains(9u8)),
@@fn trading-engine/src/utils/checkers.rs is_ascii props=C09,C10
ensures ret == ascii(code@),
@@@closure 0 __p0_0: &u8
-> (__r: bool) ensures __r == (*__p0_0 < 128)
@@struct trading-engine/src/types/id/isin_code.rs IsinCode
@@struct trading-engine/src/types/id/ticker.rs Ticker
@@enum trading-engine/src/types/id/mod.rs Symbol
@@enum trading-engine/src/types/venue.rs Venue attr="#[derive(Clone, Copy)]"
@@struct trading-engine/src/types/id/mod.rs IdData
@@sigsubst "&\s*'static IdData" "ShStatic"
@@struct trading-engine/src/types/id/mod.rs InstId attr="#[derive(Clone, Copy)]"
@@verus
// derived clones copy every field
impl Clone for IsinCode { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Symbol { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for IdData { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn isin_ok(s: Seq<u8>) -> bool { s.len() == 12 && ascii(s) && !s.contains(32u8) && !s.contains(9u8) }
pub open spec fn ticker_ok(s: Seq<u8>) -> bool { s.len() <= 32 && is_utf8(s) }
pub open spec fn padded(s: Seq<u8>) -> Seq<u8> { s + zeros((32 - s.len()) as nat) }
pub open spec fn isin_wf(c: IsinCode) -> bool { ascii(c.isin@) }
pub open spec fn ticker_wf(c: Ticker) -> bool { is_utf8(c.ticker@) }
pub open spec fn symbol_wf(c: Symbol) -> bool { match c { Symbol::Isin(x) => isin_wf(x), Symbol::Ticker(x) => ticker_wf(x) } }
// data leaked to live for ever: an address and what is stored there
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct ShStatic { x: u8 }
impl ShStatic {
  pub uninterp spec fn addr(&self) -> int;
  #[verifier::external_body]
  pub fn get(&self) -> (r: &IdData) ensures *r == at_addr(self.addr()) { unimplemented!() }
}
pub uninterp spec fn at_addr(a: int) -> IdData;
#[verifier::external_body]
pub fn sh_leak(d: IdData) -> (r: ShStatic) ensures at_addr(r.addr()) == d { unimplemented!() }
#[verifier::external_body]
pub fn ptr_eq(a: ShStatic, b: ShStatic) -> (r: bool) ensures r == (a.addr() == b.addr()) { unimplemented!() }
// the interning table behind its lock only grows: the address first stored for a key is the key's address for ever
pub uninterp spec fn interned(d: IdData) -> int;
#[verifier::external_body]
pub struct ShCache { x: u8 }
#[verifier::external_body]
pub struct ShCacheEntry { x: u8 }
#[verifier::external_body]
pub fn sh_cache() -> (r: ShCache) { unimplemented!() }
impl ShCache {
  #[verifier::external_body]
  pub fn entry(&mut self, d: IdData) -> (r: ShCacheEntry) ensures r.key0() == d { unimplemented!() }
}
impl ShCacheEntry {
  pub uninterp spec fn key0(&self) -> IdData;
  // the table's invariant: what is stored for a key is the key
  #[verifier::external_body]
  pub fn or_insert_with<F: FnOnce() -> ShStatic>(self, f: F) -> (r: &'static ShStatic)
    requires call_requires(f, ()), forall|p: ShStatic| call_ensures(f, (), p) ==> at_addr(#[trigger] p.addr()) == self.key0(),
    ensures r.addr() == interned(self.key0()), at_addr(r.addr()) == self.key0() { unimplemented!() }
}
// every InstId comes from the table
pub open spec fn inst_wf(i: InstId) -> bool { i.id_ptr.addr() == interned(at_addr(i.id_ptr.addr())) }
pub open spec fn id_data(i: InstId) -> IdData { at_addr(i.id_ptr.addr()) }
#[verifier::external_body]
pub struct ShDe { x: u8 }
impl ShDe { pub uninterp spec fn ok(&self) -> bool; pub uninterp spec fn data(&self) -> IdData; }
#[verifier::external_body]
pub fn sh_read(d: ShDe) -> (r: Result<IdData>) ensures r is Ok <==> d.ok(), r is Ok ==> r->Ok_0 == d.data() { unimplemented!() }
@@verus
// the address the table holds for the default pair
#[verifier::external_body]
pub fn sh_default_ptr() -> (r: ShStatic) ensures r.addr() == interned(at_addr(r.addr())), at_addr(r.addr()).venue is KRX { unimplemented!() }
@@subst "* DEFAULT_ID_PTR" "sh_default_ptr ( )"
@@subst "Box :: leak ( Box :: new ( $x ) )" "sh_leak ( $x )"
@@subst "ID_CACHE . lock ( ) . unwrap ( )" "sh_cache ( )"
@@subst "id_ptr . symbol" "id_ptr . get ( ) . symbol"
@@subst "id_ptr . venue" "id_ptr . get ( ) . venue"
@@subst "id_ptr . clone" "id_ptr . get ( ) . clone"
@@subst "IdData :: deserialize" "sh_read"
@@fn trading-engine/src/types/id/isin_code.rs "Default for IsinCode::default" impl=IsinCode as=IsinCode::default props=C10
ensures isin_wf(ret), forall|i: int| 0 <= i < 12 ==> ret.isin@[i] == 0,
@@fn trading-engine/src/types/id/isin_code.rs IsinCode::new props=C09,C10
ensures ret is Ok <==> isin_ok(bytes@), ret is Ok ==> ret->Ok_0.isin@ == bytes@ && isin_wf(ret->Ok_0),
@@fn trading-engine/src/types/id/isin_code.rs IsinCode::as_str props=C10
requires isin_wf(*self),
ensures str_bytes(ret) == self.isin@,
@@@begin
broadcast use axiom_ascii_utf8;
@@fn trading-engine/src/types/id/isin_code.rs IsinCode::starts_with rename=sh_starts_with props=C09,C10
ensures ret == (prefix.len() <= 12 && self.isin@.take(prefix.len() as int) == prefix@),
@@fn trading-engine/src/types/id/isin_code.rs IsinCode::as_bytes props=C10
ensures ret@ == self.isin@,
@@fn trading-engine/src/types/id/isin_code.rs "PartialEq<&str> for IsinCode::eq" impl=IsinCode as=IsinCode::eq_str rename=eq_str props=C10
ensures ret == (self.isin@ == str_bytes(*other)),
@@@subst
$a == $b . as_bytes ( ) ==> sh_beq ( & $a , sh_str_bytes ( $b ) )
@@fn trading-engine/src/types/id/isin_code.rs "PartialEq<Vec<u8>> for IsinCode::eq" impl=IsinCode as=IsinCode::eq_vec rename=eq_vec props=C10
ensures ret == (self.isin@ == other@),
@@@subst
$a == $b ==> sh_beq ( & $a , & $b )
@@fn trading-engine/src/types/id/isin_code.rs "PartialEq<&[u8]> for IsinCode::eq" impl=IsinCode as=IsinCode::eq_slice rename=eq_slice props=C10
ensures ret == (self.isin@ == (*other)@),
@@@subst
$a == $b ==> sh_beq ( & $a , & $b )
@@fn trading-engine/src/types/id/ticker.rs "Default for Ticker::default" impl=Ticker as=Ticker::default props=C10
ensures ticker_wf(ret), forall|i: int| 0 <= i < 32 ==> ret.ticker@[i] == 0,
@@@begin
broadcast use axiom_ascii_utf8;
@@fn trading-engine/src/types/id/ticker.rs Ticker::new props=C10
ensures ret is Ok <==> ticker_ok(bytes@), ret is Ok ==> ret->Ok_0.ticker@ == padded(bytes@) && ticker_wf(ret->Ok_0),
@@@begin
broadcast use axiom_padded_utf8;
@@@tail
proof { if __res is Ok { assert(__res->Ok_0.ticker@ =~= padded(bytes@)); } }
@@@subst
ticker [ .. $n ] . copy_from_slice ( $b ) ==> sh_copy_into ( & mut ticker , $n , $b )
@@fn trading-engine/src/types/id/ticker.rs Ticker::as_str props=C10
requires ticker_wf(*self),
ensures str_bytes(ret) == self.ticker@,
@@fn trading-engine/src/types/id/ticker.rs "PartialEq for Ticker::eq" impl=Ticker as=Ticker::eq props=C10
ensures ret == (self.ticker@ == other.ticker@),
@@@subst
$a == $b ==> sh_beq ( & $a , & $b )
@@fn trading-engine/src/types/id/mod.rs "Default for Symbol::default" impl=Symbol as=Symbol::default props=C10
ensures symbol_wf(ret),
@@fn trading-engine/src/types/id/mod.rs "Default for InstId::default" impl=InstId as=InstId::default props=C10
ensures inst_wf(ret),
@@fn trading-engine/src/types/id/mod.rs InstId::new props=C09,C10
ensures inst_wf(ret), id_data(ret) == (IdData { symbol: symbol, venue: venue }),
@@@closure 0
-> (__r: ShStatic) ensures at_addr(__r.addr()) == (IdData { symbol: symbol, venue: venue })
@@fn trading-engine/src/types/id/mod.rs "Deserialize<'de> for InstId::deserialize" impl=InstId as=InstId::deserialize props=C10
ensures ret is Ok <==> deserializer.ok(), ret is Ok ==> inst_wf(ret->Ok_0) && id_data(ret->Ok_0) == deserializer.data(),
@@@closure 0
-> (__r: ShStatic) ensures at_addr(__r.addr()) == id_data
@@@sigsubst
<D> ==> 
deserializer:\s*D ==> deserializer: ShDe
Result<InstId, D::Error> ==> Result<InstId>
where\s+D:\s*Deserializer<'de>,? ==> 
@@fn trading-engine/src/types/id/mod.rs InstId::get_id_clone props=C10
ensures ret == id_data(*self),
@@fn trading-engine/src/types/id/mod.rs InstId::get_id props=C10
ensures ret.addr() == self.id_ptr.addr(),
@@fn trading-engine/src/types/id/mod.rs InstId::symbol_str props=C10
requires symbol_wf(id_data(*self).symbol),
ensures match id_data(*self).symbol { Symbol::Isin(x) => str_bytes(ret) == x.isin@, Symbol::Ticker(x) => str_bytes(ret) == x.ticker@ },
@@fn trading-engine/src/types/id/mod.rs InstId::venue props=C10
ensures ret == id_data(*self).venue,
@@fn trading-engine/src/types/id/mod.rs "PartialEq for InstId::eq" impl=InstId as=InstId::eq props=C10
requires inst_wf(*self), inst_wf(*other),
ensures ret == (id_data(*self) == id_data(*other)),
