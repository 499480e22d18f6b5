//! Contracts of the bit-parallel digit parsers (trading-engine/src/utils/numeric_converter.rs), for every digit string of every length the callers use.
use trading_engine::utils::numeric_converter::*;

fn digit(b: u8) -> u64 {
    (b - b'0') as u64
}
/// bytes `lo..hi` are decimal digits (the bytes after them are arbitrary)
fn digits<const N: usize>(len: usize) -> [u8; N] {
    let b: [u8; N] = kani::any();
    for i in 0..len {
        kani::assume(b[i] >= b'0' && b[i] <= b'9');
    }
    b
}
/// digits with a decimal point at `at`
fn pointed<const N: usize>(len: usize, at: usize) -> [u8; N] {
    let b: [u8; N] = kani::any();
    for i in 0..len {
        if i == at {
            kani::assume(b[i] == b'.');
        } else {
            kani::assume(b[i] >= b'0' && b[i] <= b'9');
        }
    }
    b
}
/// decimal value of b[..len], skipping position `skip`; balanced so that the solver sees the digits in the same grouping from the right
fn value(b: &[u8], len: usize, skip: usize) -> u64 {
    // d[0] is the last digit
    let mut d = [0u64; 32];
    let mut n = 0;
    let mut i = len;
    while i > 0 {
        i -= 1;
        if i != skip {
            d[n] = digit(b[i]);
            n += 1;
        }
    }
    let p = |i: usize| d[i + 1] * 10 + d[i];
    let q = |i: usize| p(i + 2) * 100 + p(i);
    let r = |i: usize| q(i + 4) * 10_000 + q(i);
    let mut v = r(0);
    if n > 8 {
        v += r(8) * 100_000_000;
    }
    if n > 16 {
        v += p(16) * 10_000_000_000_000_000;
    }
    v
}
const NONE: usize = 99;

macro_rules! under8 { ($($name:ident $len:expr),*) => { $(
    #[kani::proof]
    #[kani::unwind(34)]
    fn $name() {
        let b = digits::<16>($len);
        let want = value(&b, $len, NONE);
        assert!(parse_under8(&b[..$len], $len) == want);
        assert!(parse_under8_with_floating_point(&b[..$len], $len, 0) == want);
    }
)* } }
under8!(p8_1 1, p8_2 2, p8_3 3, p8_4 4, p8_5 5, p8_6 6, p8_7 7, p8_8 8);

macro_rules! float8 { ($($name:ident $len:expr),*) => { $(
    #[kani::proof]
    #[kani::unwind(34)]
    fn $name() {
        for point in 1..=$len {
            let b = pointed::<16>($len, $len - point);
            assert!(parse_under8_with_floating_point(&b[..$len], $len, point) == value(&b, $len, $len - point));
        }
    }
)* } }
float8!(f8_1 1, f8_2 2, f8_3 3, f8_4 4, f8_5 5, f8_6 6, f8_7 7, f8_8 8);

// ---- up to 18 digits: the 16-digit kernel is proved once, its callers are checked against its contract
/// contract of u8_chunk_to_u128_decimal: byte i (from the lowest) is the digit of weight 10^(15-i)
fn kernel_value(chunk: u128) -> u128 {
    let d = |i: u32| (chunk >> (8 * i)) & 0xf;
    let p = |i: u32| d(i) * 10 + d(i + 1);
    let q = |i: u32| p(i) * 100 + p(i + 2);
    let r = |i: u32| q(i) * 10_000 + q(i + 4);
    r(0) * 100_000_000 + r(8)
}
#[kani::proof]
fn kernel16() {
    let c: u128 = kani::any();
    assert!(u8_chunk_to_u128_decimal(c) == kernel_value(c));
}
#[kani::proof]
fn kernel8() {
    let c: u64 = kani::any();
    let d = |i: u32| (c >> (8 * i)) & 0xf;
    let p = |i: u32| d(i) * 10 + d(i + 1);
    let q = |i: u32| p(i) * 100 + p(i + 2);
    assert!(u8_chunk_to_u64_decimal(c) == q(0) * 10_000 + q(4));
}
static mut CHUNK: [u128; 4] = [0; 4];
static mut VALUE: [u128; 4] = [0; 4];
static mut CALLS: usize = 0;
/// stands for the kernel in its callers: any value it could return, remembered with its argument
fn kernel_stub(chunk: u128) -> u128 {
    let v: u128 = kani::any();
    kani::assume(v < 10_000_000_000_000_000 && (chunk != 0 || v == 0));
    unsafe {
        CHUNK[CALLS] = chunk;
        VALUE[CALLS] = v;
        CALLS += 1;
    }
    v
}
/// the k-th kernel call got exactly the digits b[lo..hi] without position `skip`, right aligned
fn called_with(k: usize, b: &[u8], lo: usize, hi: usize, skip: usize) -> u128 {
    unsafe {
        assert!(k < CALLS, "structure: the kernel is not called");
        let (mut i, mut n) = (hi, 0u32);
        while i > lo {
            i -= 1;
            if i != skip {
                assert!(((CHUNK[k] >> (8 * (15 - n))) & 0xf) as u64 == digit(b[i]));
                n += 1;
            }
        }
        while n < 16 {
            assert!((CHUNK[k] >> (8 * (15 - n))) & 0xf == 0);
            n += 1;
        }
        VALUE[k]
    }
}
fn fresh() {
    unsafe { CALLS = 0 }
}

macro_rules! under16 { ($($name:ident $len:expr),*) => { $(
    #[kani::proof]
    #[kani::unwind(34)]
    #[kani::stub(trading_engine::utils::numeric_converter::u8_chunk_to_u128_decimal, kernel_stub)]
    fn $name() {
        let b = digits::<32>($len);
        let r = parse_under16(&b[..$len], $len);
        assert!(r == called_with(0, &b, 0, $len, NONE));
        fresh();
        let r = parse_under16_with_floating_point(&b[..$len], $len, 0);
        assert!(r as u128 == called_with(0, &b, 0, $len, NONE));
        for point in 1..=$len {
            let b = pointed::<32>($len, $len - point);
            fresh();
            let r = parse_under16_with_floating_point(&b[..$len], $len, point);
            assert!(r as u128 == called_with(0, &b, 0, $len, $len - point));
        }
    }
)* } }
under16!(p16_1 1, p16_2 2, p16_3 3, p16_4 4, p16_5 5, p16_6 6, p16_7 7, p16_8 8, p16_9 9, p16_10 10, p16_11 11, p16_12 12, p16_13 13, p16_14 14, p16_15 15, p16_16 16);

macro_rules! under32 { ($($name:ident $len:expr, $lo:expr, $hi:expr);*) => { $(
    #[kani::proof]
    #[kani::unwind(40)]
    #[kani::stub(trading_engine::utils::numeric_converter::u8_chunk_to_u128_decimal, kernel_stub)]
    fn $name() {
        const LOW: u32 = $len - 16;
        if $lo == 0 {
            let b = digits::<40>($len);
            let r = parse_under32(&b[..$len], $len);
            assert!(r == called_with(0, &b, 0, 16, NONE) * 10u128.pow(LOW) + called_with(1, &b, 16, $len, NONE));
            fresh();
            let r = parse_under32_with_floating_point(&b[..$len], $len, 0);
            assert!(r as u128 == called_with(0, &b, 0, 16, NONE) * 10u128.pow(LOW) + called_with(1, &b, 16, $len, NONE));
        }
        for at in $lo..$hi {
            let b = pointed::<40>($len, at);
            fresh();
            let r = parse_under32_with_floating_point(&b[..$len], $len, $len - at) as u128;
            let low = if at >= 16 { LOW - 1 } else { LOW };
            assert!(r == called_with(0, &b, 0, 16, at) * 10u128.pow(low) + called_with(1, &b, 16, $len, at));
        }
    }
)* } }
under32!(p32_17a 17, 0, 5; p32_17b 17, 5, 11; p32_17c 17, 11, 17; p32_18a 18, 0, 5; p32_18b 18, 5, 11; p32_18c 18, 11, 18);

#[kani::proof]
#[kani::unwind(34)]
fn hhmmss() {
    let b = digits::<16>(6);
    let two = |i: usize| digit(b[i]) * 10 + digit(b[i + 1]);
    let s = parse_hhmmss_to_nanos(&b[0..6]);
    assert!(s == (two(0) * 3600 + two(2) * 60 + two(4)) * 1_000_000_000);
}

#[kani::proof]
fn two_three() {
    let b = digits::<8>(3);
    assert!(parse_2digits(&b[..2]) as u64 == digit(b[0]) * 10 + digit(b[1]));
    assert!(parse_3digits(&b[..3]) as u64 == digit(b[0]) * 100 + digit(b[1]) * 10 + digit(b[2]));
}
