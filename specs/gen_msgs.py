#!/usr/bin/env python3
"""Writes specs/msgs.unit: the same contracts for each KRX message type (run by hand after an edit; the result is committed)."""
import os
K = "trading-engine/src/data/krx/"
o = []
w = o.append
w('''@@use num.inc
@@bytelits
@@use ident.inc
@@verus
// ---------------- types of the messages ----------------
@@struct trading-engine/src/types/base.rs Slice attr="#[derive(Clone, Copy)]"
@@struct trading-engine/src/types/base.rs LevelSnapshot attr="#[derive(Clone, Copy)]"
@@enum trading-engine/src/types/enums.rs TradeType attr="#[derive(Clone, Copy)]"
@@verus
// byte strings, statics initialised once
#[verifier::external_body]
pub fn sh_lit<const N: usize>(a: [u8; N]) -> (r: &'static [u8]) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn sh_bytes_are<const N: usize>(s: &[u8], a: [u8; N]) -> (r: bool) ensures r == (s@ == a@), r == (s.len() == N && forall|i: int| 0 <= i < N ==> s@[i] == #[trigger] a@[i]), N == 1 && s.len() == 1 ==> r == (s@[0] == a@[0]) { unimplemented!() }
#[verifier::external_body]
pub fn sh_bytes_eq(s: &[u8], a: &[u8]) -> (r: bool) ensures r == (s@ == a@) { unimplemented!() }
#[verifier::external_body]
pub fn sh_any_eq<const N: usize>(v: [&'static [u8]; N], x: &[u8]) -> (r: bool) ensures r == (exists|i: int| 0 <= i < N && #[trigger] v[i]@ == x@) { unimplemented!() }
#[verifier::external_body]
pub fn sh_lazy<T>(v: T) -> (r: &'static T) ensures *r == v { unimplemented!() }
#[verifier::external_body]
pub fn sh_levels(n: usize) -> (r: Vec<LevelSnapshot>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r[i] == (LevelSnapshot { order_count: None, book_price: 0, book_quantity: 0, lp_quantity: None }) { unimplemented!() }
@@subst "vec ! [ LevelSnapshot :: default ( ) ; $n ]" "sh_levels ( $n )"
''')
for m in ("parse_unroll", "parse_unroll_with_buffer", "parse_unroll_unchecked_price_no_count_no_lp_quantity", "parse_unroll_unchecked_price_no_count_no_lp_quantity_with_buffer",
          "parse_unroll_unchecked_price_no_count_with_lp_quantity", "parse_unroll_unchecked_price_no_count_with_lp_quantity_with_buffer"):
    w('@@expand %sunroll_macro.rs %s' % (K, m))
w('''@@struct trading-engine/src/data/quote.rs QuoteSnapshot
@@struct trading-engine/src/data/trade_quote.rs TradeQuoteSnapshot
@@struct trading-engine/src/data/trade.rs TradeData''')
FX = [("QuoteSnapshot", "quote.rs"), ("TradeQuoteSnapshot", "trade_quote.rs")]
MS = [  # name, file, length, levels (max), start, kind
    ("IFMSRPD0034", "derivative_quote.rs", 324, 5, 47, "dq"), ("IFMSRPD0035", "derivative_quote.rs", 554, 10, 47, "dq"),
    ("IFMSRPD0037", "derivative_trade.rs", 431, 5, 172, "dt"), ("IFMSRPD0038", "derivative_trade.rs", 661, 10, 172, "dt"), ("IFMSRPD0036", "derivative_trade.rs", 173, 0, 0, "d0"),
    ("IFMSRPD0002", "stock_quote.rs", 555, 10, 47, "sq"), ("IFMSRPD0003", "stock_quote.rs", 795, 10, 47, "sl")]
for m in MS:
    w('@@struct %s%s %s' % (K, m[1], m[0]))
w('''@@verus
// ---------------- specification: message layouts ----------------
pub open spec fn sl(p: Seq<u8>, a: int, n: int) -> Seq<u8> { p.subrange(a, a + n) }
pub open spec fn off() -> int { 32_400_000_000_000int }
pub open spec fn valid(p: Seq<u8>, n: int) -> bool { p.len() == n && p[n - 1] == 255 }
pub open spec fn id_is(id: InstId, p: Seq<u8>) -> bool { inst_wf(id) && id_data(id).venue is KRX && id_data(id).symbol is Isin && id_data(id).symbol->Isin_0.isin@ == sl(p, 17, 12) }
pub open spec fn timed(old: DateUnixNanoGenerator, new: DateUnixNanoGenerator, p: Seq<u8>, t: TimeStamp) -> bool { exists|k: int| #[trigger] rolled(off(), old, new, sl(p, 35, 12), t.stamp as int, k) }
// which decimal places a derivative's prices have: by product code, then by the code of risk-free rate futures
pub open spec fn dpt(h: Seq<u8>, c: Seq<u8>) -> int {
  if (h[2] == 48 && h[3] == 52 && h[4] == 70) || (h[2] == 48 && h[3] == 53 && h[4] == 70) || (h[2] == 49 && h[3] == 48 && h[4] == 70) { 0 }
  else if c[0] == 75 && c[1] == 82 && c[2] == 52 && c[3] == 49 && c[4] == 54 && c[5] == 57 { 4 } else { 3 }
}
pub open spec fn dpoint(p: Seq<u8>) -> int { dpt(p.subrange(0, 5), p.subrange(17, 29)) }
pub open spec fn dconv(o: OrderConverter, d: int) -> bool { order_layout(o, 8 - d, d, true, 0, 9, 9) }
pub open spec fn dprice_ok(p: Seq<u8>, at: int) -> bool { text_ok(sl(p, at + 1, 8), dpoint(p)) }
pub open spec fn dprice(p: Seq<u8>, at: int) -> int { let v = text_val(sl(p, at + 1, 8), dpoint(p)); if p[at] == 48 { v } else { -v } }
pub open spec fn num_ok(p: Seq<u8>, at: int, n: int) -> bool { digits_ok(sl(p, at, n)) }
pub open spec fn num(p: Seq<u8>, at: int, n: int) -> int { dec(sl(p, at, n)) }
pub open spec fn level_is(l: LevelSnapshot, price: int, qty: int) -> bool { l.book_price == price && l.book_quantity == qty }
// derivatives: ask price, bid price, ask quantity, bid quantity, ask count, bid count
pub open spec fn dlevel_ok(p: Seq<u8>, at: int) -> bool { dprice_ok(p, at) && dprice_ok(p, at + 9) && num_ok(p, at + 18, 9) && num_ok(p, at + 27, 9) && num_ok(p, at + 36, 5) && num_ok(p, at + 41, 5) }
pub open spec fn dlevel(p: Seq<u8>, at: int, a: LevelSnapshot, b: LevelSnapshot) -> bool {
  level_is(a, dprice(p, at), num(p, at + 18, 9)) && level_is(b, dprice(p, at + 9), num(p, at + 27, 9)) && a.order_count is Some && a.order_count->0 == num(p, at + 36, 5)
  && b.order_count is Some && b.order_count->0 == num(p, at + 41, 5) && a.lp_quantity is None && b.lp_quantity is None
}
// stocks: prices have two unused leading bytes; no counts
pub open spec fn sprice_ok(p: Seq<u8>, at: int) -> bool { num_ok(p, at + 2, 9) }
pub open spec fn sprice(p: Seq<u8>, at: int) -> int { num(p, at + 2, 9) }
pub open spec fn slevel_ok(p: Seq<u8>, at: int) -> bool { sprice_ok(p, at) && sprice_ok(p, at + 11) && num_ok(p, at + 22, 12) && num_ok(p, at + 34, 12) }
pub open spec fn slevel(p: Seq<u8>, at: int, a: LevelSnapshot, b: LevelSnapshot) -> bool {
  level_is(a, sprice(p, at), num(p, at + 22, 12)) && level_is(b, sprice(p, at + 11), num(p, at + 34, 12)) && a.order_count is None && b.order_count is None
}
pub open spec fn sqlevel(p: Seq<u8>, at: int, a: LevelSnapshot, b: LevelSnapshot) -> bool { slevel(p, at, a, b) && a.lp_quantity is None && b.lp_quantity is None }
pub open spec fn lplevel_ok(p: Seq<u8>, at: int) -> bool { slevel_ok(p, at) && num_ok(p, at + 46, 12) && num_ok(p, at + 58, 12) }
pub open spec fn lplevel(p: Seq<u8>, at: int, a: LevelSnapshot, b: LevelSnapshot) -> bool {
  slevel(p, at, a, b) && a.lp_quantity is Some && a.lp_quantity->0 == num(p, at + 46, 12) && b.lp_quantity is Some && b.lp_quantity->0 == num(p, at + 58, 12)
}''')
for k, ok, step in (("dlevel", "dlevel_ok", 46), ("sqlevel", "slevel_ok", 46), ("lplevel", "lplevel_ok", 70)):
    w("pub open spec fn %ss_ok(p: Seq<u8>, at: int, n: int) -> bool { %s }" % (k, " && ".join("(n > %d ==> %s(p, at + %d))" % (i, ok, i * step) for i in range(10))))
    w("pub open spec fn %ss(p: Seq<u8>, at: int, n: int, a: Seq<LevelSnapshot>, b: Seq<LevelSnapshot>) -> bool { n <= a.len() && n <= b.len() && %s }" % (k, " && ".join("(n > %d ==> %s(p, at + %d, a[%d], b[%d]))" % (i, k, i * step, i, i) for i in range(10))))
w('''// trades
pub open spec fn trade_ok(p: Seq<u8>, cum: bool) -> bool { dprice_ok(p, 47) && num_ok(p, 56, 9) && (cum ==> num_ok(p, 119, 12)) }
pub open spec fn trade_is(p: Seq<u8>, cum: bool, price: BookPrice, qty: BookQuantity, ty: Option<TradeType>, cq: Option<BookQuantity>) -> bool {
  price == dprice(p, 47) && qty == num(p, 56, 9) && ty == Some(if p[153] == 48 { TradeType::Undefined } else if p[153] == 49 { TradeType::Sell } else { TradeType::Buy })
  && (if cum { cq is Some && cq->0 == num(p, 119, 12) } else { cq is None })
}
pub broadcast proof fn lemma_index(s: Seq<u8>, a: int, b: int, i: int) requires 0 <= a <= b <= s.len(), 0 <= i < b - a ensures #[trigger] s.subrange(a, b)[i] == s[a + i] { }
pub broadcast proof fn lemma_dec_bound5(s: Seq<u8>) requires digits_ok(s), s.len() == 5 ensures #![trigger dec(s)] 0 <= dec(s) < 100_000 { lemma_dec_bound(s); assert(pow10(5) == 100_000) by { reveal_with_fuel(pow10, 7); } }
pub broadcast proof fn lemma_layout(c: NumReprCfg, digits: int, point: int, signed: bool, unused: int, total: int)
  requires #[trigger] layout(c, digits, point, signed, unused, total),
  ensures c.total_length == total, point == 0 && 1 <= digits <= 16 ==> plain(c, 16), point == 0 && 1 <= digits <= 8 ==> plain(c, 8),
{ }
pub broadcast proof fn lemma_conv(k: IntegerConverter, digits: int, point: int, signed: bool, unused: int, total: int)
  requires #[trigger] layout(k.numcfg, digits, point, signed, unused, total), #[trigger] conv_wf(k),
  ensures k.parsing_length == digits + point, k.end_index == unused + b2i(signed) + digits + point, total == k.end_index,
{ }
pub broadcast proof fn lemma_field(c: NumReprCfg, digits: int, point: int, signed: bool, unused: int, total: int, v: Seq<u8>)
  requires layout(c, digits, point, signed, unused, total), v.len() == total, total == unused + b2i(signed) + digits + point,
  ensures #![trigger layout(c, digits, point, signed, unused, total), field_ok(c, v)] #![trigger layout(c, digits, point, signed, unused, total), field(c, v)] #![trigger layout(c, digits, point, signed, unused, total), field_signed(c, v)] #![trigger layout(c, digits, point, signed, unused, total), field_val(c, v)]
    field_ok(c, v) == text_ok(v.subrange(unused + b2i(signed), total), point), field(c, v) == v.subrange(unused + b2i(signed), total),
    field_val(c, v) == text_val(v.subrange(unused + b2i(signed), total), point),
    field_signed(c, v) == (if signed && v[0] != 48 { -field_val(c, v) } else { field_val(c, v) }),
{ }
pub broadcast group group_msg { lemma_sub_sub, lemma_index, lemma_text_val0, lemma_text_ok0, lemma_layout, lemma_conv, lemma_field }
pub broadcast proof fn lemma_text_val0(s: Seq<u8>) ensures #[trigger] text_val(s, 0) == dec(s) { }
pub broadcast proof fn lemma_text_ok0(s: Seq<u8>) ensures #[trigger] text_ok(s, 0) == digits_ok(s) { }
''')
KC = K + "krx_converter.rs"
for fn, st, ens in (("get_krx_timestamp_converter", "KRX_TIMESTAMP_CONVERTER", "ret.offset_nanos == off()"),
                    ("get_krx_base_cum_qnt_converter", "KRX_BASE_CUM_QNT_CONVERTER", "conv_wf(ret.converter), layout(ret.converter.numcfg, 12, 0, false, 0, 12)"),
                    ("get_krx_stock_order_converter", "KRX_STOCK_ORDER_CONVERTER", "order_layout(*ret, 9, 0, false, 2, 11, 12)"),
                    ("get_krx_base_bond_order_converter", "KRX_BASE_BOND_ORDER_CONVERTER", "conv_wf(ret.price) && conv_wf(ret.quantity)"),
                    ("get_krx_base_order_counter", "KRX_BASE_ORDER_COUNTER", "conv_wf(ret.order_count), layout(ret.order_count.numcfg, 5, 0, false, 0, 5)")):
    w('''@@fn %s %s props=C09
ensures %s,
@@@subst
static $n : Lazy < $t > = Lazy :: new ( $f ) ; ==> let $n = sh_lazy ( $f ( ) ) ;
& %s ==> %s''' % (KC, fn, ens, st, st))
D = ["KRX_STOCK_DERIVATIVE_ORDER_CONVERTER", "KRX_GENERAL_COMM_DERIVATIVE_ORDER_CONVERTER", "KRX_RISK_FREE_DERIVATIVE_CONVERTER", "KRX_BASE_DERIVATIVE_ORDER_CONVERTER"]
w('''@@fn %s get_krx_derivative_converter props=C09 noprobe=1
requires payload.len() >= 5,
ensures dconv(*ret, dpt(payload@, isin_code.isin@)),
@@@begin
let ghost h = payload@.subrange(2, 5); let ghost c6 = isin_code.isin@.take(6);
proof {
  let x = [48u8, 52u8, 70u8]@; let y = [48u8, 53u8, 70u8]@; let z = [49u8, 48u8, 70u8]@; let r = [75u8, 82u8, 52u8, 49u8, 54u8, 57u8]@;
  assert(h =~= x <==> h[0] == 48 && h[1] == 52 && h[2] == 70);
  assert(h =~= y <==> h[0] == 48 && h[1] == 53 && h[2] == 70);
  assert(h =~= z <==> h[0] == 49 && h[1] == 48 && h[2] == 70);
  assert(c6 =~= r <==> c6[0] == 75 && c6[1] == 82 && c6[2] == 52 && c6[3] == 49 && c6[4] == 54 && c6[5] == 57);
}
@@@subst
static $n : Lazy < $t > = Lazy :: new ( $f ) ; ==> let $n = sh_lazy ( $f ( ) ) ;
static $n : $t = $v ; ==> let $n = $v ;
TR_STOCK . sh_contains ( & tr_und_code ) ==> sh_any_eq ( TR_STOCK , tr_und_code )
TR_STOCK . contains ( & tr_und_code ) ==> sh_any_eq ( TR_STOCK , tr_und_code )
tr_und_code == TR_COMMODITY ==> sh_bytes_eq ( tr_und_code , TR_COMMODITY )
%s''' % (KC, "\n".join("return & %s ==> return %s" % (d, d) for d in D)))

w("""@@verus
impl TimeStamp { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.stamp == 0 { unimplemented!() } }""")
for t, f in FX:
    w("""@@fn trading-engine/src/data/%s "Default for %s::default" impl=%s as=%s::default props=C09
ensures ret.quote_level_cut == 0, ret.ask_quote_data.len() == 0, ret.bid_quote_data.len() == 0, inst_wf(ret.id),
@@fn trading-engine/src/data/%s %s::with_quote_level props=C09
ensures ret.quote_level_cut == level, ret.ask_quote_data.len() == level, ret.bid_quote_data.len() == level, inst_wf(ret.id),""" % (f, t, t, t, f, t))
    for s in ("ask", "bid"):
        w("""@@fn trading-engine/src/data/%s %s::effective_%s_data props=C09
requires self.quote_level_cut <= self.%s_quote_data.len(),
ensures ret@ == self.%s_quote_data@.take(self.quote_level_cut as int),""" % (f, t, s, s, s))
w("""@@fn trading-engine/src/data/trade.rs "Default for TradeData::default" impl=TradeData as=TradeData::default props=C09
ensures inst_wf(ret.id),
@@fn trading-engine/src/data/trade.rs TradeData::with_capacity props=C09
ensures inst_wf(ret.id),""")
for name, file, ln, lev, start, kind in MS:
    f = K + file
    has = lev > 0
    trade = kind in ("dt", "d0")
    wf = "%s_wf" % name.lower()
    c = ["s.payload_length == %d" % ln, "s.isin_code_slice.start == 17", "s.isin_code_slice.end == 29", "s.timestamp_slice.start == 35", "s.timestamp_slice.end == 47"]
    if has:
        c += ["s.quote_level_cut <= %d" % lev, "s.quote_start_index == %d" % start]
    if trade:
        c += ["s.%s.start == %d && s.%s.end == %d" % (n, a, n, b) for n, a, b in (("trade_price_slice", 47, 56), ("trade_quantity_slice", 56, 65), ("cum_trd_qnt_slice", 119, 131), ("trade_type_slice", 153, 154))]
    w("@@verus\npub open spec fn %s(s: %s) -> bool { %s }" % (wf, name, " && ".join(c)))
    w('''@@fn %s "Default for %s::default" impl=%s props=C09
ensures %s(ret)%s%s,''' % (f, name, name, wf, ", ret.quote_level_cut == %d" % lev if has else "", ", !ret.parse_cum_trd_qnt" if trade else ""))
    w('''@@fn %s "Checker for %s::get_payload_length" impl=%s props=C09
ensures ret == self.payload_length,''' % (f, name, name))
    w('''@@fn %s "Checker for %s::get_quote_level_cut" impl=%s props=C09
ensures ret == %s,''' % (f, name, name, "self.quote_level_cut" if has else "0"))
    w('''@@fn %s "Checker for %s::as_str" impl=%s noprobe=1
''' % (f, name, name))
    w('''@@fn trading-engine/src/data/checker.rs "trait Checker::is_valid_krx_payload" impl=%s as=%s::is_valid_krx_payload props=C09
requires self.payload_length >= 1,
ensures ret is Ok <==> valid(payload@, self.payload_length as int),''' % (name, name))
    if has:
        w('''@@fn %s %s::with_quote_level_cut props=C09
requires %s(self),
ensures ret is Ok <==> quote_level_cut <= %d, ret is Ok ==> ret->Ok_0 == (%s { quote_level_cut: quote_level_cut, ..self }),''' % (f, name, wf, lev, name))
    if trade:
        w('''@@fn %s %s::with_cum_trd_qnt props=C09
ensures ret == (%s { parse_cum_trd_qnt: parse_cum_trd_qnt, ..self }),''' % (f, name, name))
    hd = " hide(dpt);" if kind[0] == "d" else ""
    lv = {"dq": "dlevel", "dt": "dlevel", "sq": "sqlevel", "sl": "lplevel", "d0": None}[kind]
    cut = "self.quote_level_cut as int"
    T = {"dq": "QuoteSnapshot", "sq": "QuoteSnapshot", "sl": "QuoteSnapshot", "dt": "TradeQuoteSnapshot", "d0": "TradeData"}[kind]
    base = {"QuoteSnapshot": "to_quote_snapshot", "TradeQuoteSnapshot": "to_trade_quote_snapshot", "TradeData": "to_trade_data"}[T]
    chk = {"QuoteSnapshot": "is_valid_quote_snapshot_buffer", "TradeQuoteSnapshot": "is_valid_trade_quote_snapshot_buffer"}.get(T)
    buf = "data_buffer" if trade else "buffer"
    if chk:
        w('''@@fn trading-engine/src/data/checker.rs "trait Checker::%s" impl=%s as=%s::%s props=C09
ensures *final(buffer) == *old(buffer), ret is Ok <==> old(buffer).ask_quote_data.len() >= self.quote_level_cut && old(buffer).bid_quote_data.len() >= self.quote_level_cut,''' % (chk, name, name, chk))
    req = ["%s(*self)" % wf, "time_dom(off(), *old(date_gen))"]
    ok = ["time_ok(sl(payload@, 35, 12))"]
    if trade:
        ok.append("trade_ok(payload@, self.parse_cum_trd_qnt)")
    if has:
        ok.append("%ss_ok(payload@, %d, %s)" % (lv, start, cut))
    req.append("valid(payload@, %d) ==> %s" % (ln, " && ".join(ok)))

    def res(v):
        e = ["id_is(%s.id, payload@)" % v, "timed(*old(date_gen), *final(date_gen), payload@, %s.timestamp)" % v]
        e.append("order_layout(*%s.order_converter, 9, 0, false, 2, 11, 12)" % v if kind[0] == "s" else "dconv(*%s.order_converter, dpoint(payload@))" % v)
        if kind in ("dq", "dt"):
            e.append("layout(%s.order_counter.order_count.numcfg, 5, 0, false, 0, 5)" % v)
        if trade:
            e.append("trade_is(payload@, self.parse_cum_trd_qnt, %s.trade_price, %s.trade_quantity, %s.trade_type, %s.cumulative_trade_quantity)" % (v, v, v, v))
        if has:
            e.append("%s.quote_level_cut == self.quote_level_cut" % v)
            e.append("%ss(payload@, %d, %s, %s.ask_quote_data@, %s.bid_quote_data@)" % (lv, start, cut, v, v))
        return e
    e1 = res("ret->Ok_0")
    if has:
        e1 += ["ret->Ok_0.ask_quote_data.len() == self.quote_level_cut && ret->Ok_0.bid_quote_data.len() == self.quote_level_cut"]
    w('''@@fn %s %s::%s props=C09 attr="#[verifier::spinoff_prover] #[verifier::rlimit(200)]"
requires %s,
ensures
  ret is Ok <==> valid(payload@, %d) && isin_ok(sl(payload@, 17, 12)),
  ret is Err ==> *final(date_gen) == *old(date_gen),
%s
@@@begin
hide(dec); hide(digits_ok); hide(text_ok); hide(text_val); hide(field); hide(field_ok); hide(field_val); hide(field_signed); hide(layout); hide(conv_wf); hide(plain); hide(rolled); hide(time_ok); hide(isin_ok);%s
broadcast use group_msg;
''' % (f, name, base, ", ".join(req), ln, "\n".join("  ret is Ok ==> %s," % x for x in e1), hd))
    lens = "" if not has else " && old(%s).ask_quote_data.len() >= self.quote_level_cut && old(%s).bid_quote_data.len() >= self.quote_level_cut" % (buf, buf)
    e2 = res("final(%s)" % buf)
    w('''@@fn %s %s::%s_buffer props=C09 attr="#[verifier::spinoff_prover] #[verifier::rlimit(200)]"
requires %s,
ensures
  ret is Ok <==> valid(payload@, %d) && isin_ok(sl(payload@, 17, 12))%s,
  ret is Err ==> *final(date_gen) == *old(date_gen) && *final(%s) == *old(%s),
%s
@@@begin
hide(dec); hide(digits_ok); hide(text_ok); hide(text_val); hide(field); hide(field_ok); hide(field_val); hide(field_signed); hide(layout); hide(conv_wf); hide(plain); hide(rolled); hide(time_ok); hide(isin_ok);%s
broadcast use group_msg;
''' % (f, name, base, ", ".join(req), ln, lens, buf, buf, "\n".join("  ret is Ok ==> %s," % x for x in e2), hd))
w('''@@verus
} fn main() {}
''')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "msgs.unit"), "w").write("\n".join(o))
