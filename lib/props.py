"""What each check runs."""
BOOK_ASSUME = [
    "collections (BTreeMap, FxHashMap, VecDeque, Vec, iterators, entries) behave as their contracts in specs/shim_collections.rs say",
    "domain: order quantities are positive, an incoming order id is not resting in the book, totals fit u64, prices of matched orders lie strictly inside i64, a snapshot names each price once with a positive quantity",
    "logging and error texts are not modelled",
]
PROPS = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06"):
    PROPS[p] = {"units": ["orderbook"], "native": "te", "assumptions": BOOK_ASSUME}

NUM = "numeric::"
P7 = ["kernel8", "kernel16", "two_three", "hhmmss"] + ["p8_%d" % i for i in range(1, 9)] + ["f8_%d" % i for i in range(1, 9)] + ["p16_%d" % i for i in range(1, 17)] + ["p32_%d%s" % (i, c) for i in (17, 18) for c in "abc"]
CONV_ASSUME = ["the byte slice holds the whole field; field bytes are ASCII digits with the decimal point where the layout says", "lengths and total fit usize", "the function pointer in IntegerConverter holds one of the three parsers (it is private and only set in new and default)",
               "reads past the slice end by read_unaligned return arbitrary bytes and do not fault"]
LEAF = ["parse_under8", "parse_under16", "parse_under32", "parse_under8_with_floating_point", "parse_under16_with_floating_point", "parse_under32_with_floating_point", "u8_chunk_to_u64_decimal", "u8_chunk_to_u128_decimal"]
PROPS["C07"] = {"units": ["krx"], "native": "te", "assumptions": CONV_ASSUME, "kani": {"crate": "kn", "features": "c07", "harness": [NUM + h for h in P7], "covers": LEAF + ["parse_2digits", "parse_3digits", "parse_hhmmss_to_nanos"]}}
PROPS["C08"] = {"units": ["krx"], "native": "te", "assumptions": ["offset at most a day; date and previous message before 2445", "the system clock returns some 64-bit value", "twelve digits are given"], "kani": {"crate": "kn", "features": "c07", "harness": [NUM + "p8_6", NUM + "hhmmss"], "covers": ["parse_under8", "parse_hhmmss_to_nanos"]}}

PROPS["C09"] = {"units": ["msgs"], "native": "te", "assumptions": CONV_ASSUME[:2] + ["field texts are digits with the decimal point where the layout says; other bytes are arbitrary", "offset and dates as for C08", "the digit parsers keep the contracts proved for C07", "a value built inside a Lazy static is the value its initialiser returns",
    "the interning table keeps the address first stored for a key (C10)", "derived Clone, Copy and Default are field by field"]}
PROPS["C10"] = {"units": ["ident"], "native": "te", "assumptions": ["the interning table (a locked hash map) keeps the entry first stored for a key; leaked data never moves or changes; key equality is structural equality", "ASCII bytes are UTF-8 and zero bytes may follow UTF-8 text",
    "deserialised codes and tickers are outside the domain (derived Deserialize does not validate them)", "derived Clone is field by field"]}
PROPS["C11"] = {"units": ["count"], "native": "te", "assumptions": ["an atomic read-modify-write is one indivisible step at whatever value it finds, and the steps on one word form one order", "only next() touches a counter's word (the field is private)", "fewer than 2^64 - start values are taken"]}
PROPS["C12"] = {"units": ["timer"], "native": "te", "assumptions": ["format! writes the decimal text of a number, zero-padded to the width asked for", "offset between -24 and 24 hours, local time not before 1970"]}
PROPS["C13"] = {"units": ["spin"], "native": "te", "assumptions": ["an atomic operation is one indivisible step; a release step is seen by the acquire step that reads it", "one writer; a worker calls work_done only for itself and only while it has access; nobody replaces the public data_buffer", "worker ids come from WorkerId::new", "Box::into_raw/from_raw pair up"]}
NDA = "ndarray's Array1 and Array2 index, clone and allocate like sequences (shims in specs/find.unit)"
TIME = "the time crate's dates and offsets follow the Gregorian calendar (specs/time.inc), years 1 to 9999"
PROPS["C14"] = {"units": ["find"], "native": "ql", "assumptions": [NDA, "the element type's comparisons order the values at hand like numbers"]}
PROPS["C15"] = {"units": ["calendar"], "native": "ql", "assumptions": [TIME, "enum_dispatch forwards each call to the variant", "the market types' is_holiday keep the contracts proved in holiday.unit (C17)", "Vec::contains on dates compares dates"]}
PROPS["C16"] = {"units": ["find"], "native": "ql", "assumptions": [NDA, "f32 is treated as the real numbers: no rounding, NaN or overflow", "neighbouring nodes are distinct"]}
PROPS["C17"] = {"units": ["holiday"], "native": "ql", "assumptions": [TIME, "the lunar tables of specs/holiday.inc (written by the korean-lunar-calendar crate) are right"]}
PROPS["C18"] = {"units": ["period", "tenor"], "native": "ql", "assumptions": [TIME, "the regex crate finds the (digits, unit) terms of a period from left to right; a number written in decimal reads back as itself", "terms fit i32 or i64, and every intermediate date stays inside years 1 to 9999", "f32 is treated as the real numbers in from_period_string_to_float"]}
PROPS["C19"] = {"units": ["daycount"], "native": "ql", "assumptions": [TIME, "f32 and f64 are treated as the real numbers: no rounding, NaN or overflow", "enum_dispatch forwards each call to the variant", "ACT/ACT: both moments have the same clock time and offset; time differences: the same offset"]}
PROPS["C20"] = {"units": ["period", "calendar"], "native": "ql", "assumptions": [TIME, "JointCalendar's adjust keeps the contract proved for the trait's default methods in calendar.unit (C15)", "dates lie at least 4000 days inside years 1 to 9999, gaps are at most 2500 days, the calendar's business days are at most 60 days apart, the frequency is not None",
    "the regex crate finds the (digits, unit) terms of a period; a number written in decimal reads back as itself"]}
REAL = "f32 is treated as the real numbers: no rounding, NaN or overflow"
MAPS = "std's HashMap keeps one entry per key, equal moments being one key, and is visited entry by entry in some order (shim in specs/pricing.inc); the shared Rc and RefCell cells are read, never changed, while a price is computed"
PROPS["C21"] = {"units": ["cash"], "native": "ql", "assumptions": [TIME, REAL, MAPS, "curves, calendars, periods and schedules keep what is stated for them (C23, C15, C19, C18, C20)",
    "calculation dates lie at least 4000 days inside years 1 to 9999, the fixing gap is at most 2500 days, a compounding tenor moves every date on", "a curve is given where a floating coupon is still to be paid; the bond has a fixed rate or a rate index"]}
PROPS["C22"] = {"units": ["pricing"], "native": "ql", "assumptions": [TIME, REAL, MAPS, "curves, dividends and instruments' payments keep what is stated for them (C23, C24, C21)", "enum_dispatch forwards each call to the variant"]}
PROPS["C23"] = {"units": ["zero"], "native": "ql", "assumptions": [TIME, REAL, NDA, "the exponential function is positive; nothing else is known of exp and ln", "interpolation, the time between dates and dates moved by a period keep what is stated for them (C16, C19, C18)", "the documented periods from 0D to 100Y reach later and later from the evaluation date, which shares its offset with the dates asked for; neighbouring times of the data differ", "the shared Rc and RefCell cells are read, never changed, by a curve"]}
PROPS["C24"] = {"units": ["dividend"], "native": "ql", "assumptions": [TIME, REAL, MAPS.split(";")[1].strip(), NDA, "no two dividends fall on one day, the spot is not zero and no dividend takes the whole price", "std's Vec::remove and binary search keep the contracts of the shims (the search is proved in find.unit, C14)"]}
PROPS["C25"] = {"units": ["ktbf"], "native": "ql", "assumptions": [TIME, REAL, MAPS, "powers to whole exponents are repeated products; of other powers (positive of a positive base), the exponential (one at zero), the logarithm and the normal distribution nothing else is known", "payments, the values of bonds, fair forwards, curves and day counts keep what is stated for them (C21, C22, C23, C19)", "the yield the argmin search settles on is taken as found; volatility surfaces built from market data are not under contract", "options are alive: time, forward, strike and deviation are positive; yields stay above minus the number of payments a year; a bond is issued on or before its pricing day", "enum_dispatch forwards each call to the variant"]}
PROPS["C26"] = {"units": ["match"], "native": "ql", "assumptions": [MAPS, TIME, "a stock and an option name at least one underlying code", "membership tests and appends of standard vectors, comparison of strings", "Rc is read as the instrument it holds", "enum_dispatch forwards each call to the variant, or to the trait's default where the variant gives no answer of its own"]}
PROPS["C27"] = {"units": ["group", "result"], "native": "ql", "assumptions": [REAL, MAPS.split(",")[0] + ", and is visited entry by entry in some order (shim in specs/result.unit)", "an instrument's type, currency and underlying codes are what match.unit proves for C26", "ndarray's mapv applies its function to every element", "Rc and Arc are read as what they hold; derived Clone copies field by field", "a group is calculated by one engine (rayon, Mutex: exercised by the search on cash portfolios only)"]}
