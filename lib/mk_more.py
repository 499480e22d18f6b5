NC = "trading-engine/src/utils/numeric_converter.rs"
MIX = "Verus contracts on the functions extracted mechanically from /repo on every run; leaf digit parsers by Kani proof harnesses on the real crate, complete for every length used; native search only replays failures"
P("C07", "Numeric fields convert to exactly the number they spell",
  "A field layout is accepted exactly when its parts add up to its total and it carries at most 18 number bytes. For every accepted layout and every text that follows it (digits, an optional decimal point at the stated place, an optional sign byte, unused leading bytes), the converted value is exactly the decimal number spelled, scaled by the kept decimals: negative when the sign byte is not the digit zero. Bytes outside the field never matter, and no conversion panics or overflows. This covers prices, quantities, yields, order counts and cumulative quantities, and the unchecked readers on fields without a decimal point.",
  ["inputs"], "every layout with up to 18 number bytes, every digit string of such a field, every position of the decimal point, every byte following the field",
  "Tests convert a few dozen fixed strings; the bit-parallel digit arithmetic and the slice offsets must be right for all 10^18 digit strings and every layout.",
  [NC, "trading-engine/src/data/krx/krx_converter.rs"], [{"name": "bit-parallel digit parsing", "where": NC + " parse_under8, parse_under16, parse_under32 and their floating-point variants"}, {"name": "layout to parser and slice", "where": NC + " IntegerConverter::new, to_u64, to_i64, *_unchecked; wrappers OrderConverter, OrderCounter, YieldConverter, CumQntConverter"}],
  technique=MIX, note="Verus proves layout checking, slicing, sign handling and every wrapper for all layouts and texts against contracts of the digit parsers; Kani proves those contracts on the real parsers, bit-precisely, once per length 1..18 (all lengths, so complete). The function-pointer field holding the parser is rendered as an enum of the three functions it can hold. Reads past the end of the given slice (read_unaligned of a full register) are not checked as memory accesses.")
P("C08", "Message times land on the right date across midnight",
  "A generator's date is always the start of the UTC day of the time it was set from. Converting an hhmmssuuuuuu message time gives that time of day, plus the fixed offset, on the generator's date; if the previous message is fifteen hours or more ahead, the date advances by whole days, as few as needed to end that gap, and the update stamp is the system time given. The result is remembered as the previous message time, the date never moves otherwise, and no digit time panics.",
  ["inputs", "histories"], "every twelve-digit time, every generator date and previous message time before the year 2445, every offset up to a day, every sequence of messages",
  "Tests convert a few times on one date; the roll-over depends on the previous message, the offset and the fifteen-hour limit together.",
  [NC, "trading-engine/src/types/timestamp.rs"], [{"name": "time of day parsing and day roll-over", "where": NC + " TimeStampConverter::parse_hhmmssuuuuuu"}, {"name": "date state", "where": "trading-engine/src/types/timestamp.rs DateUnixNanoGenerator"}],
  state=[{"name": "utcdate_unix_nano", "meaning": "start of the current UTC day", "where": "trading-engine/src/types/timestamp.rs"}, {"name": "prev_timestamp", "meaning": "time of the last converted message", "where": "trading-engine/src/types/timestamp.rs"}],
  technique=MIX, note="Verus proves the conversion, the roll-over loop with termination and the date arithmetic for all inputs; the two digit parsers it calls are proved by Kani on the real code. Assumes the clock reading returns some 64-bit value.")

KRX = "trading-engine/src/data/krx/"
P("C09", "KRX messages parse to exactly the fields their layout says, or are refused",
  "A quote, trade or trade-and-quote message is accepted exactly when it has the message type's length, ends with the end byte 255 and carries a well-formed 12-byte ISIN code (and, when parsing into a buffer, the buffer has room for the requested levels); otherwise it is refused with an error, without panic and without touching the date state or the buffer. An accepted message yields the ISIN and venue, the message time, every requested price level (prices with sign and decimals, quantities, order counts, liquidity provider quantities, each on the right side at the right depth), the traded price, quantity, side and (if requested) cumulative quantity, the converter matching the instrument's decimals, and the number of levels in use, whether built fresh or into a reused buffer. A level count above the message's capacity is refused when configuring.",
  ["inputs"], "every byte string as payload (with digit fields where the layout has numbers), every number of requested levels, every buffer content, for message types IFMSRPD0002, 0003, 0034, 0035, 0036, 0037 and 0038",
  "Tests parse one or two recorded messages per type; offsets, decimals, level order and stale buffer contents must be right for every message.",
  [KRX + f for f in ("derivative_quote.rs", "derivative_trade.rs", "stock_quote.rs", "unroll_macro.rs", "krx_converter.rs")] + ["trading-engine/src/data/checker.rs", "trading-engine/src/data/quote.rs", "trading-engine/src/data/trade.rs", "trading-engine/src/data/trade_quote.rs"],
  [{"name": "field offsets and unrolled level parsing", "where": KRX + "unroll_macro.rs, IFMSRPD*::to_quote_snapshot*, to_trade_quote_snapshot*, to_trade_data*"}, {"name": "payload and buffer checks", "where": "trading-engine/src/data/checker.rs"}, {"name": "instrument to converter", "where": KRX + "krx_converter.rs get_krx_derivative_converter"}],
  note="All 14 parsing functions are proved for all payloads and buffers after expanding the repository's own unrolling macros mechanically. Number fields are assumed to hold digits; digit parsing itself rests on the contracts C07 proves. Lazy statics are modelled as the value of their initialiser.")
ID = "trading-engine/src/types/id/"
P("C10", "Instrument identifiers are validated, keep their text and compare as their text",
  "An ISIN code is made exactly from twelve ASCII bytes without space or tab, a ticker exactly from at most 32 bytes of UTF-8 text (padded with zeros); anything else is refused without panic. Both give back exactly their bytes, and compare equal to a byte string, text or another code exactly when the bytes agree. An instrument id keeps its symbol and venue; two instrument ids are equal exactly when symbol and venue are equal, however and whenever each was made, including by reading back its serialised form.",
  ["inputs", "histories"], "every byte string, every pair of symbols and venues, every order of creation",
  "Tests make a handful of ids; equality is by interned address and must agree with content for every history of the interning table.",
  [ID + "isin_code.rs", ID + "ticker.rs", ID + "mod.rs", "trading-engine/src/utils/checkers.rs"], [{"name": "validation", "where": ID + "isin_code.rs IsinCode::new, " + ID + "ticker.rs Ticker::new, trading-engine/src/utils/checkers.rs"}, {"name": "interning", "where": ID + "mod.rs InstId::new, deserialize, PartialEq"}],
  state=[{"name": "ID_CACHE", "meaning": "(symbol, venue) -> leaked address", "where": ID + "mod.rs"}],
  note="Verus proves validation, text and equality on the extracted code; the interning table (mutex, hash map, leaked boxes) is assumed to keep the address first stored for a key.")
P("C11", "Counters hand out every number once, in order",
  "The values handed out by a counter (bounded or unbounded, any number of threads calling next in any interleaving) are start, start+1, start+2 and so on, each handed out exactly once with none skipped; a bounded counter returns an error for exactly the calls that fall beyond its end. A virtual order id generator returns consecutive ids. This holds as long as fewer than 2^64 - start values are taken.",
  ["schedules", "histories"], "every interleaving of calls from any number of threads, every start and end",
  "Tests count to 90000 on three threads; a lost update needs an unlucky interleaving.",
  ["trading-engine/src/utils/counter.rs", "trading-engine/src/types/base.rs"], [{"name": "atomic counters", "where": "trading-engine/src/utils/counter.rs next of the four counters"}, {"name": "single-threaded ids", "where": "trading-engine/src/types/base.rs VirtualOrderId::next_id"}],
  state=[{"name": "counter", "meaning": "next value to hand out", "where": "trading-engine/src/utils/counter.rs"}],
  note="Contract of next: exactly one indivisible read-and-add-one step on the word, whose read value is handed out; a lemma over every history of such steps gives uniqueness and order. Indivisibility of the hardware operation is assumed.")
P("C12", "Timestamps are written as the right civil date and time",
  "For every 64-bit nanosecond timestamp and every offset of at most 24 hours with a local time not before 1970, the conversion gives the Gregorian date (year, month, day, with leap years) of the local day as yyyymmdd, and the local time of day as hh:mm:ss.mmm:uuu:nnn with all digits. The time components of a timestamp are its hour, minute, second and millisecond. Nothing overflows or panics.",
  ["inputs"], "every 64-bit timestamp (to the year 2554), every offset in whole hours up to a day",
  "No test checks a converted date; leap years, month ends and day changes by the offset need every day to be right.",
  ["trading-engine/src/utils/timer.rs"], [{"name": "day number to date", "where": "trading-engine/src/utils/timer.rs days_to_date, is_leap_year, days_in_month"}, {"name": "time of day and offset", "where": "trading-engine/src/utils/timer.rs convert_unix_nano_to_date_and_time, time_components_from_unix_nano"}],
  note="Proved against an independent closed form of the Gregorian day number, for all inputs. format! is assumed to print zero-padded decimals.")
P("C13", "The spin queue never lets the writer and a worker in together",
  "A queue is made exactly when its worker ids are distinct, owns a live copy of the value, and starts free for the writer; worker ids run from 0 to 15. The writer gets the value only when no worker has work pending, a worker only while its own turn is pending, and each gets the value last written. Notifying starts one turn for every registered worker and no other; finishing ends only that worker's turn. So in every interleaving the writer and a worker never have access together, no worker is served twice for one notification, and every access sees all writes made before it was granted. Dropping a queue, including a default one, frees its value once.",
  ["schedules", "histories"], "every set of workers, every interleaving of one writer and its workers that follow the protocol",
  "Tests run one round on one thread; exclusion and visibility must hold in every interleaving, and the memory orderings cannot be observed by a test on x86.",
  ["trading-engine/src/spinqueue.rs"], [{"name": "status word", "where": "trading-engine/src/spinqueue.rs ready_to_update, ready_to_work, get, get_mut, notify_all_workers, work_done"}, {"name": "ownership of the value", "where": "trading-engine/src/spinqueue.rs new, default, drop"}],
  state=[{"name": "worker_status", "meaning": "bit i set: worker i's turn is pending", "where": "trading-engine/src/spinqueue.rs"}],
  note="Contracts say which single step each function makes on the status word and with which ordering (acquire or stronger before access, release or stronger when leaving); a lemma over every history allowed by these contracts gives exclusion. The hardware memory model itself is assumed. One writer is assumed.")
QU = "quantlib/src/utils/"
QI = "quantlib/src/math/interpolators/"
QT = "quantlib/src/time/"
P("C14", "Sorted-table search finds where a value belongs",
  "In a sorted, non-empty table of comparable values (numbers without NaN), the search returns the position of the last entry not above the value, the first position when every entry is above it; with equal entries, a position of an equal entry if there is one. The vectorised search over a strictly rising table and sorted values gives that position for every value. Slices and ndarrays answer alike, an array (also an empty one) is reported sorted exactly when no entry exceeds its successor, and nothing panics or loops forever.",
  ["inputs"], "every sorted table of any length and element type, every value, every sorted list of values",
  "Tests look up a handful of values in tables of ten entries; midpoints, ends, duplicates and the carried-over position of the vectorised scan must be right for every table.",
  [QU + "find_index.rs", QU + "find_index_ndarray.rs", "quantlib/src/util.rs"], [{"name": "binary search", "where": QU + "find_index.rs binary_search_index, " + QU + "find_index_ndarray.rs binary_search_index_ndarray"}, {"name": "linear scan between two searches", "where": QU + "find_index.rs vectorized_search_index_for_sorted_vector, " + QU + "find_index_ndarray.rs"}],
  note="Proved generically for every element type whose comparison orders the values at hand like numbers. ndarray's one-dimensional array is assumed to index like a sequence.")
P("C15", "Business-day calendars answer and adjust consistently",
  "A date is a holiday of a calendar exactly when its local day there is a weekend day, or is not among the removed days and is a holiday by the market's rules or an added day; business days are the others; a joint calendar's holidays are those of any member, its business days those of all. Adding or removing a day changes that day only; joint calendars refuse it. Adjusting a date keeps clock time and offset and gives: unadjusted the date itself; following or preceding the nearest business day on or after, on or before; the modified forms that day when it stays in the date's month, otherwise the nearest one the other way. The last day of a month and leap years are those of the Gregorian calendar. Nothing panics or runs forever while such a business day exists.",
  ["inputs", "histories"], "every date (a year or more inside the calendar's range), clock time and offset, every calendar, every list of added and removed days, every set of joined calendars",
  "Tests adjust a few dates; the interplay of local date, added and removed days, month ends and runs of holidays must be right on every day.",
  [QT + "calendar_trait.rs", QT + "jointcalendar.rs", QT + "calendars/southkorea.rs", QT + "calendars/unitedstates.rs", QT + "calendars/nullcalendar.rs", QT + "calendar.rs"],
  [{"name": "holiday decision", "where": QT + "calendar_trait.rs _is_holiday, is_business_day; is_holiday of the calendars"}, {"name": "date adjustment", "where": QT + "calendar_trait.rs adjust*"}, {"name": "joined calendars", "where": QT + "jointcalendar.rs JointCalendar"}],
  state=[{"name": "holiday_adder, holiday_remover", "meaning": "days added to and removed from the market's rules", "where": QT + "calendars/southkorea.rs, unitedstates.rs"}],
  note="The trait's default methods are proved once for any calendar whose answers depend on the date alone; each calendar is proved to be one, and no calendar overrides them. The time crate is assumed to follow the Gregorian calendar (specs/time.inc); the market rules are C17's.")
P("C16", "Interpolation, distribution and factorisation meet their definitions",
  "Over exact real arithmetic: a one-dimensional linear curve is made exactly from matching, strictly rising nodes; it passes through all its nodes, the last one included, runs straight between neighbours and so stays between their values, extends flat or along the end segment when asked to, and otherwise refuses outside points; evaluating many sorted points gives the same values. Step curves take the value of the last node not above the point, or the given end values; surfaces interpolate linearly between their two neighbouring curves. Spreading an amount over nodes conserves it and shares it between the two neighbours in proportion to closeness. A Cholesky factor is lower triangular with positive diagonal and multiplied by its transpose gives the matrix (lower half) back.",
  ["inputs"], "every list of nodes, values and points, every extrapolation setting, every square matrix",
  "Tests evaluate a dozen points; the segment chosen, the ends and the extrapolation branches must be right for every curve and point.",
  [QI + "linear_interpolator.rs", QI + "bilinear_interpolator.rs", QI + "stepwise_interpolatior.rs", QU + "distribute_value.rs", "quantlib/src/math/cholescky_factorization.rs"],
  [{"name": "segment choice and line", "where": QI + "linear_interpolator.rs, " + QI + "bilinear_interpolator.rs"}, {"name": "step curves", "where": QI + "stepwise_interpolatior.rs"}, {"name": "sharing an amount", "where": QU + "distribute_value.rs"}, {"name": "factorisation", "where": "quantlib/src/math/cholescky_factorization.rs"}],
  note="f32 arithmetic is treated as exact real arithmetic (no rounding, no NaN, no overflow). Neighbouring nodes are assumed distinct: constructors do not reject equal ones.")
P("C17", "Market holiday rules name the right days",
  "For every date, a market's rules name exactly: in the United States, per market type, New Year, Independence Day and Christmas kept on the neighbouring weekday, Washington's Birthday, Memorial, Labor, Columbus, Veterans and Martin Luther King days, Thanksgiving and Juneteenth by their k-th-weekday rules and start years, Good Friday two days before Easter Sunday (Gregorian computus, 1901 to 2199), and the market's listed special closings; in Korea the fixed days, lunar New Year and Chuseok with a day either side and Buddha's birthday by the lunar calendar (to 2050), the listed temporary days and, for the exchange, the last weekday of the year (1951 to 2100). No date panics.",
  ["inputs"], "every date the calendar can represent, a few days inside its range, every market type",
  "Tests check a few dozen dates; tables hold hundreds of entries, and weekday and month-end rules differ year by year.",
  [QT + "calendars/unitedstates.rs", QT + "calendars/southkorea.rs", QT + "holiday.rs", QT + "constants.rs"],
  [{"name": "weekday rules", "where": QT + "calendars/unitedstates.rs UnitedStatesType"}, {"name": "lunar and year-end tables", "where": QT + "calendars/southkorea.rs SouthKoreaType"}, {"name": "Easter table", "where": QT + "holiday.rs is_good_friday, " + QT + "constants.rs EASTER_MONDAYS"}],
  note="Tables are read from the source and checked entry by entry inside the proof against independent definitions: computus formulas, and lunar dates generated by the korean-lunar-calendar crate. The time crate is assumed to follow the Gregorian calendar.")
SA = "quantlib/src/utils/string_arithmetic.rs"
P("C18", "Periods move a date as far as they say",
  "A period text is a list of terms, a number and a unit each (Y, M, W, D, h, min, sec), applied from left to right. Adding it to a moment or a date moves each term on in full: years and months by whole months, keeping the day of the month or taking the month's last day where it is too late, the clock time and the offset; weeks, days, hours, minutes and seconds by exactly that much time. Subtracting moves each term back by the same rules. Read as a number of years, a period is the sum of its terms at 365.25 days to a year and 30.5 days to a month, and a text without a term is refused. A payment frequency's k-fold period is one term of k times its number, in its unit.",
  ["inputs"], "every list of terms, every moment, date and offset as long as the calendar range (years 1 to 9999) is kept, every frequency but None and every multiple that fits",
  "Tests add a few periods to a few dates; year borders, month ends, leap days and steps of many months need every pair of date and term to be right.",
  [SA, "quantlib/src/time/conventions.rs", "quantlib/src/time/calendar_trait.rs"], [{"name": "period steps", "where": SA + " add_period, sub_period, add_period_date, sub_period_date"}, {"name": "period as a number", "where": SA + " from_period_string_to_float"}, {"name": "k-fold period of a frequency", "where": "quantlib/src/time/conventions.rs PaymentFrequency::to_string_with_multiple"}],
  note="Proved for all terms and dates against a recursive definition of a walk through the terms. The regex crate's matching is assumed. Known finding: sub_period_date back past more than one January lands in the wrong year (pinned by an existing test).")
P("C19", "Day counts follow their conventions",
  "A year fraction exists exactly when the start is not after the end and the convention is not the dummy, and it is then, over exact real arithmetic, for the actual conventions the whole days between over 365, 360 or 364; for 30/360 the difference of dates in months of 30 days over 360, the street convention reading a start on the 31st as the 30th and then an end on the 31st likewise; for ACT/ACT each day over the length of the calendar year it falls in. It is never negative, and ACT/ACT adds up over adjoining periods. A joint calendar counts like its members. The elapsed time between two moments counts each part over the length of its year, to within 0.0000075 of a year where a period crosses from a common to a leap year or back, adds up through any moment between, is not negative, and is the opposite the other way round.",
  ["inputs"], "every pair of moments in years 1 to 9999 (same offset for elapsed time; same clock time and offset for ACT/ACT), every convention, every calendar",
  "Tests check a dozen pairs of dates; year ends, leap years, month ends and periods of many years must be right for every pair.",
  [QT + "calendar_trait.rs", QT + "jointcalendar.rs", "quantlib/src/util.rs"], [{"name": "year fractions", "where": QT + "calendar_trait.rs year_fraction, " + QT + "jointcalendar.rs year_fraction"}, {"name": "elapsed time", "where": QT + "calendar_trait.rs get_time_difference"}],
  note="Proved over exact reals for all dates, with the per-year loops. Known finding: elapsed time is slightly negative from the last four minutes of a year into a following leap year (pinned by an existing test).")
P("C20", "Coupon schedules cover the contract's life without gaps",
  "For every effective date, maturity, frequency, convention and calendar, a schedule is refused for a negative gap, the dummy convention or when adjusting leaves some period empty. Otherwise its periods follow each other without gap or overlap, the first starting at the effective date and the last ending at maturity; in between they meet at the adjusted dates reached by whole steps of the frequency from the effective date (forward) or from maturity (backward), as few steps as reach the other end. Each is fixed on the preceding business day of its start less the fixing gap and paid on the adjusted day the payment gap after its end, the last one at maturity; none has an amount yet. An already matured contract has no period. Nothing panics.",
  ["inputs"], "every effective date and maturity well inside the calendar range, every frequency but None, every convention, direction and gap up to 2500 days, every calendar whose business days are at most 60 days apart",
  "Tests build a few schedules; stubs at either end, month ends, holidays at the borders and one-period contracts need every combination to be right.",
  ["quantlib/src/instruments/schedule.rs", SA, "quantlib/src/time/conventions.rs", QT + "jointcalendar.rs", QT + "calendar_trait.rs"], [{"name": "period borders", "where": "quantlib/src/instruments/schedule.rs build_schedule"}, {"name": "steps of the frequency", "where": SA + " add_period, sub_period; quantlib/src/time/conventions.rs PaymentFrequency"}, {"name": "adjustment", "where": QT + "calendar_trait.rs adjust*"}],
  note="build_schedule is proved for all inputs in the domain, with all loops and termination, over the contracts of the period steps (C18) and of calendar adjustment (C15), both proved on the real code.")
QI, QE = "quantlib/src/instruments/", "quantlib/src/pricing_engines/"
P("C21", "Bonds and swaps pay exactly what their terms say",
  "A bond has exactly one of a fixed rate and a rate index, and a swap the pattern of exchanges, rates and legs of one known kind; anything else is refused, also when built from conventions. What is still to be paid on a pricing day is, per moment, the sum of: each coupon paid on that day or later, as its given amount, the fixed rate times its share of a year, or its floating coupon; a bond's unit redemption unless it is stripped; and a swap's exchanges, received at the start and paid back at the end on the fixed side, the other way round on the floating side, fixed coupons being paid and floating ones received on the amount exchanged at the start (one unit if none). A floating coupon uses the recorded fixing for past dates and the forward rate for dates to come; overnight coupons compound step by step once under way, else take the mean of the forward rates at the two ends. A coupon whose rate or share is refused refuses the whole.",
  ["inputs"], "every schedule, rate, index, tenor, spread, gap, pricing day, curve, calendar, day count and record of fixings, with calculation dates well inside the calendar range",
  "Tests price a few regular contracts; payments that meet on one date, past and missing fixings, compounding stubs, exchanges before or after the pricing day and refused combinations need every history.",
  [QI + "bond.rs", QI + "plain_swap.rs", "quantlib/src/parameters/rate_index.rs", "quantlib/src/parameters/past_price.rs", "quantlib/src/currency.rs"], [{"name": "payments per moment", "where": QI + "bond.rs get_cashflows; " + QI + "plain_swap.rs get_fixed_cashflows, get_floating_cashflows"}, {"name": "floating coupon", "where": "quantlib/src/parameters/rate_index.rs get_coupon_amount"}, {"name": "kind of swap", "where": QI + "plain_swap.rs PlainSwap::new"}],
  note="Proved over exact reals against recursive definitions of a leg and of a compounded coupon, over the contracts of curves, calendars, day counts and periods. HashMap is modelled by a shim.")
P("C22", "An instrument is worth its discounted payments",
  "A bond is worth the sum of its payments after the pricing day, each times the discount factor of its date, over the discount factor of the pricing day; a swap the same sum of its fixed side plus that of its floating side times the exchange rate, each side on its own curve; a future the spot times the borrowing over the collateral discount factor at maturity less the dividends until then; a currency future the exchange rate times the ratio of the two curves' discount factors; cash and a unit are worth one, and an index or stock its market price. The detailed result has the same value and lists every payment of the pricing day or later with probability one, and expected payments are added up per moment. Exposures are per currency: value times notional, each leg in its own currency (added up if they share it), for a future the gain over the traded price, for a currency future its two legs. What cannot be discounted is refused; nothing panics.",
  ["inputs"], "every instrument with payments as C21 states, every curve, market price, dividend, exchange rate and evaluation or pricing date",
  "Tests price one sample each; payments on the valuation day, shared currencies, past dates and refusals in every combination are not reached by them.",
  [QE + "bond_pricer.rs", QE + "plain_swap_pricer.rs", QE + "futures_pricer.rs", QE + "fx_futures_pricer.rs", QE + "npv_result.rs", QE + "unit_pricer.rs", QE + "cash_pricer.rs", QE + "identity_pricer.rs", QE + "pricer.rs"], [{"name": "value", "where": "npv and npv_result of each pricer"}, {"name": "listed payments", "where": QE + "npv_result.rs"}, {"name": "exposure", "where": "fx_exposure of each pricer"}],
  note="Proved over exact reals for every curve and every set of payments; the yield, bond futures and option pricers are C25; the Monte Carlo pricers are outside.")
QP = "quantlib/src/parameters/"
P("C23", "A zero curve discounts at the rates it was given",
  "Data is refused unless it has one time or date per value, and a market time if it has dates; its times are then the time from the market time to each date. A curve is refused unless its rates are at least one and, if several, at rising times. At each documented period from 0D to 100Y after the evaluation date it keeps the rate given there (the line between neighbouring data, flat beyond them) and the factor exp(-rate x time); between these periods the factor is on the line between its neighbours, so always positive, and before the evaluation date or after 100 years it is refused. Between two times the factor is the quotient, and the forward rate is the loss of value (simple) or of its logarithm (continuous) per year, over an interval widened by a hundred-thousandth of a year if it is too short to divide by; the short rate is the simple forward rate over a day; both refuse times in the wrong order. Forward rates between dates are those between their times. Bumping an interval adds the amount to the kept rates after its first and up to its last time, only those, with every factor following; a reversed interval is refused and changes nothing.",
  ["inputs", "histories"], "every market data, evaluation date, time, date and list of them, every history of bumps",
  "Tests check one curve at its own nodes; points between and beyond the nodes, empty and reversed intervals, unsorted data and bumps over part of the curve need every input.",
  [QP + "zero_curve.rs", "quantlib/src/data/vector_data.rs"], [{"name": "kept rates and factors", "where": QP + "zero_curve.rs new, bump_time_interval, bump_date_interval"}, {"name": "factors and forward rates", "where": QP + "zero_curve.rs get_*"}, {"name": "data", "where": "quantlib/src/data/vector_data.rs VectorData::new"}],
  note="Proved over exact reals with an uninterpreted exponential and logarithm. The simple rate is the loss of value over the interval per year, as existing tests pin it (not the gain on the discounted amount).")
P("C24", "Each dividend is deducted exactly once",
  "Dividends are refused unless those still to come follow each other day by day. The deduction until a date is the product of one minus the yield of each dividend that goes ex after the evaluation date and on or before the day of that date: one before the first, and one when none is left; a price without dividends has deduction one. Moving the evaluation date changes which dividends are still to come and nothing else; bumping an interval adds the amount to the dividends after its first and up to its last day, gone by or not, refuses an empty interval, and leaves the deductions as of the evaluation date. A market price moved forward loses each dividend that goes ex after its own time and up to the new one; moved back, it regains exactly those. So it does not depend on the steps taken: two steps are one, and there and back changes nothing. Observers of the evaluation date are all moved with it. Nothing panics.",
  ["inputs", "histories"], "every list of dividends on distinct days, every yield but one, every history of evaluation dates, bumps and queries",
  "Tests follow one list of dividends over a few dates; ex-dates at the evaluation moment, time zones, lists all gone by, bumps over gone dividends and steps back need every history.",
  [QP + "discrete_ratio_dividend.rs", QP + "market_price.rs", "quantlib/src/evaluation_date.rs", "quantlib/src/util.rs", "quantlib/src/data/vector_data.rs"], [{"name": "deduction until a date", "where": QP + "discrete_ratio_dividend.rs new, update_evaluation_date, get_deduction_ratio"}, {"name": "bump", "where": QP + "discrete_ratio_dividend.rs bump_date_interval"}, {"name": "price over time", "where": QP + "market_price.rs update_evaluation_date"}],
  note="The observers' registration (EvaluationDate::set_date, +=, -=) goes through shared cells that the proof does not model; it is covered by the native search only.")
P("C25", "Bond, bond futures and option quotes follow their formulae",
  "At a yield, compounded as often as the bond pays, the pricer brings every payment due after the day of its pricing day (or evaluation day) to the first of them by whole and broken periods, and from there back by simple interest over the days left of the running period, which began at the last scheduled payment not after that day, or else at the issue; with nothing left to pay the worth is zero. The virtual bond of a futures is worth its coupons, each a period further away, plus one unit, times its notional. A futures is refused unless each underlying bond is priced on its maturity; its price is the virtual bond at the average of their yields, times the borrowing curve's factor at maturity, and without bonds it is refused. An option on an asset in another currency names the exchange rate between them and needs a quanto parameter; its price is the discounted Black formula on the forward shifted by both volatilities, their correlation and the time. A bumped constant volatility is higher by the bump; its variance is its square times the time, and its deviation the root of that.",
  ["inputs"], "every bond with payments as C21 states, every yield, day, curve, volatility, strike, forward, quanto parameter and list of underlying bonds within the stated domain",
  "Tests price one bond, one futures and one option; payments on the pricing day, bonds not yet or all paid out, several underlyings, frequencies, puts and quanto shifts are not reached by them.",
  [QE + "krx_yield_pricer.rs", QE + "ktbf_pricer.rs", QE + "option_analytic_pricer.rs", QI + "ktbf.rs", QI + "vanilla_option.rs", QP + "quanto.rs", QP + "volatility.rs", QP + "volatilities/constant_volatility.rs", "quantlib/src/time/conventions.rs", "quantlib/src/currency.rs"], [{"name": "bond at a yield", "where": QE + "krx_yield_pricer.rs npv"}, {"name": "virtual bond and futures", "where": QI + "ktbf.rs new, npv; " + QE + "ktbf_pricer.rs npv"}, {"name": "option formula", "where": QE + "option_analytic_pricer.rs npv; " + QP + "quanto.rs"}],
  note="Proved over exact reals, over the contracts of payments, curves, day counts and forwards. The search for a bond's yield (argmin) is outside: the futures price is stated over the yields it finds, and it may give up with an error.")
P("C26", "Instruments are matched to their curves and selected as asked",
  "A bond is discounted on the curve kept for its issuer, issuer type, rating and currency, or on none (the name Dummy) when none is kept; a swap, and the forward rate of a swap or bond, on the curve of its rate index (Dummy without one); an option that is not settled daily on the funding curve of its currency; all else on Dummy. A swap other than an IRS, and an FX futures, has the cross-currency curve of its fixed leg's (own) currency and that of its floating leg's (underlying) currency; all else Dummy. Collateral curves are those of the underlying codes, in order; borrowing curves those of the underlying codes, then of the borrowing tags. A missing curve is an error. The selections (by currency, underlying, type, curve used as discount, collateral, forward or either cross-currency curve, maturity up to or beyond a moment) hold exactly the matching instruments that are not of an excluded type, each as often as it stands in the list, in its order; an instrument without maturity matures beyond every moment. The shortest maturity is the least there is; the longest the greatest, and none if one instrument has none. The codes are those of the instruments, one each, in order. The lists of all types, underlying codes, codes that need a volatility (those of options), exchange rates, currencies (with those of futures' underlyings and swaps' floating legs) and curve names other than Dummy hold everything the instruments need, once, in the order met; a curve that is called for but not known is an error.",
  ["inputs"], "every list of instruments, every set of curve maps, every excluded type, code, currency, curve name and maturity",
  "Tests match one futures and one swap and select from three instruments; curves used in two ways, cross-currency pairs, missing curves, perpetual instruments and duplicates are not reached by them.",
  [QE + "match_parameter.rs", "quantlib/src/instrument.rs"] + [QI + x + ".rs" for x in ("futures", "fx_futures", "stock", "cash", "bond_futures", "ktbf", "plain_swap", "bond", "vanilla_option")], [{"name": "curve of an instrument", "where": QE + "match_parameter.rs"}, {"name": "selections and needs", "where": "quantlib/src/instrument.rs Instruments"}],
  note="The instruments' accessors and constructors involved are under contract; that enum_dispatch forwards each question to the variant, or to the trait's default where the variant has no answer, is assumed, and exercised by the search. A stock or option without underlying codes is outside.")
P("C27", "Instruments are grouped once; results keep and convert what was set",
  "Distributing a portfolio puts every instrument into the group of the first category it fits, in the portfolio's order, groups in the categories' order and none empty; if one fits no category the distribution is refused and nothing changes. An instrument fits a category that allows its type, its currency and, if the instrument has underlyings, names exactly its underlyings in order; what a category leaves open it allows. A calculation result starts with its instrument, date and the instrument's currency and nothing else; setting one figure, or one entry of a table by name, changes that and nothing else (an entry set before under the name is replaced), and every figure is shown as set; its value is its net present value times the unit notional, refused without either. Converted to another currency at a rate, every amount (value, exposures, delta, gamma, theta, and vega, rho and dividend sensitivities with their structures and matrices) is the old one times the rate under the same name, and instrument, date, net present value, cash flows and theta days are kept; converting to its own currency changes nothing; a result without a currency is refused.",
  ["inputs", "histories"], "every portfolio and list of categories; every result, figure, name, currency and rate, in exact arithmetic",
  "Tests distribute one portfolio whose categories do not overlap, set one delta, and convert no result.",
  [QE + "engine_generator.rs", QE + "calculation_result.rs", QE + "npv_result.rs", QI + "instrument_info.rs", "quantlib/src/instrument.rs"], [{"name": "groups", "where": QE + "engine_generator.rs EngineGenerator::distribute_instruments"}, {"name": "result", "where": QE + "calculation_result.rs CalculationResult"}],
  note="The text of the refusal is not modelled. That the engines of all groups deposit their results is exercised by the search on cash portfolios, not proved.")
