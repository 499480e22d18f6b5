@@verus
// ---------------- holiday rules, by day number ----------------
pub open spec fn near(d: OffsetDateTime) -> bool { d.wf() && day_lo() + 10 <= d.day_n() <= day_hi() - 10 }
pub open spec fn on(n: int, m: int, d: int) -> bool { mo(n) == m && dm(n) == d }
pub open spec fn dated(n: int, y: int, m: int, d: int) -> bool { yr(n) == y && on(n, m, d) }
// the k-th such weekday of the month, and the last one
pub open spec fn kth(n: int, m: int, w: Weekday, k: int) -> bool { mo(n) == m && wd(n) == w && (dm(n) - 1) / 7 == k - 1 }
pub open spec fn last_in(n: int, m: int, w: Weekday) -> bool { mo(n) == m && wd(n) == w && dm(n) + 7 > dim(yr(n), m) }
// a fixed date, kept on the Monday when it falls on a Sunday, and on the Friday when it falls on a Saturday
pub open spec fn kept_mon(n: int, m: int, d: int) -> bool { on(n, m, d) || (wd(n) == Weekday::Monday && on(n - 1, m, d)) }
pub open spec fn kept(n: int, m: int, d: int) -> bool { kept_mon(n, m, d) || (wd(n) == Weekday::Friday && on(n + 1, m, d)) }
// Easter Sunday (day of the year): the Gregorian computus, and the Julian one carried to the Gregorian calendar
pub open spec fn yday(y: int, md: int) -> int { day_no(y, md / 31, md % 31 + 1) - before_year(y) + 1 }
pub open spec fn easter(y: int) -> int {
  let a = y % 19; let b = y / 100; let c = y % 100; let d = b / 4; let e = b % 4; let f = (b + 8) / 25; let g = (b - f + 1) / 3; let h = (19 * a + b - d - g + 15) % 30; let i = c / 4; let k = c % 4; let l = (32 + 2 * e + 2 * i - h - k) % 7; let m = (a + 11 * h + 22 * l) / 451;
  yday(y, h + l - 7 * m + 114) }
pub open spec fn easter_orthodox(y: int) -> int {
  let a = y % 4; let b = y % 7; let c = y % 19; let d = (19 * c + 15) % 30; let e = (2 * a + 4 * b - d + 34) % 7;
  yday(y, d + e + 114) + (if y < 2100 { 13int } else { 14int }) }
pub open spec fn good_friday(n: int, orthodox: bool) -> bool { 1901 <= yr(n) <= 2199 && doy(n) == (if orthodox { easter_orthodox(yr(n)) } else { easter(yr(n)) }) - 2 }
// ---- United States
pub open spec fn us_washington(n: int) -> bool { if yr(n) >= 1971 { kth(n, 2, Weekday::Monday, 3) } else { kept(n, 2, 22) } }
pub open spec fn us_memorial(n: int) -> bool { if yr(n) >= 1971 { last_in(n, 5, Weekday::Monday) } else { kept(n, 5, 30) } }
pub open spec fn us_labor(n: int) -> bool { kth(n, 9, Weekday::Monday, 1) }
pub open spec fn us_columbus(n: int) -> bool { yr(n) >= 1971 && kth(n, 10, Weekday::Monday, 2) }
pub open spec fn us_veterans(n: int) -> bool { if 1971 <= yr(n) <= 1977 { kth(n, 10, Weekday::Monday, 4) } else { kept_mon(n, 11, 11) } }
pub open spec fn us_juneteenth(n: int, friday: bool) -> bool { yr(n) >= 2022 && (if friday { kept(n, 6, 19) } else { kept_mon(n, 6, 19) }) }
pub open spec fn us_king(n: int, since: int) -> bool { yr(n) >= since && kth(n, 1, Weekday::Monday, 3) }
pub open spec fn us_thanksgiving(n: int) -> bool { kth(n, 11, Weekday::Thursday, 4) }
// what every market keeps
pub open spec fn us_common(n: int, friday: bool) -> bool {
  kept_mon(n, 1, 1) || us_washington(n) || us_memorial(n) || us_juneteenth(n, friday) || (if friday { kept(n, 7, 4) } else { kept_mon(n, 7, 4) }) || us_labor(n) || us_thanksgiving(n) || (if friday { kept(n, 12, 25) } else { kept_mon(n, 12, 25) }) }
pub open spec fn us_federal(n: int) -> bool { us_king(n, 1983) || us_columbus(n) || us_veterans(n) }
pub open spec fn us_bond(n: int) -> bool {
  us_common(n, true) || us_federal(n) || (good_friday(n, false) && yr(n) != 2015 && yr(n) != 2021 && yr(n) != 2023)
  || dated(n, 2018, 12, 5) || dated(n, 2012, 10, 30) || dated(n, 2004, 6, 11) }
pub open spec fn us_nyse_closed(n: int) -> bool {
  ||| dated(n, 2018, 12, 5) ||| dated(n, 2012, 10, 29) ||| dated(n, 2012, 10, 30) ||| dated(n, 2007, 1, 2) ||| dated(n, 2004, 6, 11)
  ||| dated(n, 2001, 9, 11) ||| dated(n, 2001, 9, 12) ||| dated(n, 2001, 9, 13) ||| dated(n, 2001, 9, 14) ||| dated(n, 1994, 4, 27) ||| dated(n, 1985, 9, 27)
  ||| dated(n, 1977, 7, 14) ||| dated(n, 1973, 1, 25) ||| dated(n, 1972, 12, 28) ||| dated(n, 1969, 7, 21) ||| dated(n, 1969, 3, 31) ||| dated(n, 1969, 2, 10)
  ||| dated(n, 1968, 7, 5) ||| dated(n, 1968, 4, 9) ||| dated(n, 1963, 11, 25) ||| dated(n, 1961, 5, 29) ||| dated(n, 1958, 12, 26) ||| dated(n, 1954, 12, 24) ||| dated(n, 1956, 12, 24) ||| dated(n, 1965, 12, 24)
  // the paperwork crisis: closed on Wednesdays from 12 June 1968
  ||| (yr(n) == 1968 && n >= day_no(1968, 6, 12) && wd(n) == Weekday::Wednesday)
  // presidential elections
  ||| ((yr(n) <= 1968 || (yr(n) <= 1980 && yr(n) % 4 == 0)) && kth(n, 11, Weekday::Tuesday, 1)) }
#[verifier::opaque]
pub open spec fn us_rule(t: UnitedStatesType, d: OffsetDateTime) -> bool { let n = d.day_n(); match t {
  UnitedStatesType::Settlement => us_common(n, true) || us_federal(n) || (wd(n) == Weekday::Friday && on(n + 1, 1, 1)),
  UnitedStatesType::Nyse => us_common(n, true) || us_king(n, 1998) || good_friday(n, false) || us_nyse_closed(n),
  UnitedStatesType::GovernmentBond => us_bond(n),
  UnitedStatesType::FederalReserve => us_common(n, false) || us_federal(n),
  UnitedStatesType::Sofr => us_bond(n) || good_friday(n, false) } }
// ---- Korea: the lunar days (month * 100 + day), written by the korean-lunar-calendar crate, not by this repository
pub open spec fn lunar_new_year(y: int) -> int { (if y < 1976 { (if y < 1938 { (if y < 1919 { (if y < 1910 { (if y < 1905 { (if y < 1903 { (if y < 1902 { 219 } else { 208 }) } else { (if y < 1904 { 129 } else { 216 }) }) } else { (if y < 1907 { (if y < 1906 { 204 } else { 125 }) } else { (if y < 1908 { 213 } else { (if y < 1909 { 202 } else { 122 }) }) }) }) } else { (if y < 1914 { (if y < 1912 { (if y < 1911 { 210 } else { 130 }) } else { (if y < 1913 { 218 } else { 206 }) }) } else { (if y < 1916 { (if y < 1915 { 126 } else { 214 }) } else { (if y < 1917 { 204 } else { (if y < 1918 { 123 } else { 211 }) }) }) }) }) } else { (if y < 1928 { (if y < 1923 { (if y < 1921 { (if y < 1920 { 201 } else { 220 }) } else { (if y < 1922 { 208 } else { 128 }) }) } else { (if y < 1925 { (if y < 1924 { 216 } else { 205 }) } else { (if y < 1926 { 124 } else { (if y < 1927 { 213 } else { 202 }) }) }) }) } else { (if y < 1933 { (if y < 1930 { (if y < 1929 { 123 } else { 210 }) } else { (if y < 1931 { 130 } else { (if y < 1932 { 217 } else { 206 }) }) }) } else { (if y < 1935 { (if y < 1934 { 126 } else { 214 }) } else { (if y < 1936 { 204 } else { (if y < 1937 { 124 } else { 211 }) }) }) }) }) }) } else { (if y < 1957 { (if y < 1947 { (if y < 1942 { (if y < 1940 { (if y < 1939 { 131 } else { 219 }) } else { (if y < 1941 { 208 } else { 127 }) }) } else { (if y < 1944 { (if y < 1943 { 215 } else { 205 }) } else { (if y < 1945 { 126 } else { (if y < 1946 { 213 } else { 202 }) }) }) }) } else { (if y < 1952 { (if y < 1949 { (if y < 1948 { 122 } else { 210 }) } else { (if y < 1950 { 129 } else { (if y < 1951 { 217 } else { 206 }) }) }) } else { (if y < 1954 { (if y < 1953 { 127 } else { 214 }) } else { (if y < 1955 { 204 } else { (if y < 1956 { 124 } else { 212 }) }) }) }) }) } else { (if y < 1966 { (if y < 1961 { (if y < 1959 { (if y < 1958 { 131 } else { 219 }) } else { (if y < 1960 { 208 } else { 128 }) }) } else { (if y < 1963 { (if y < 1962 { 215 } else { 205 }) } else { (if y < 1964 { 125 } else { (if y < 1965 { 213 } else { 202 }) }) }) }) } else { (if y < 1971 { (if y < 1968 { (if y < 1967 { 122 } else { 209 }) } else { (if y < 1969 { 130 } else { (if y < 1970 { 217 } else { 206 }) }) }) } else { (if y < 1973 { (if y < 1972 { 127 } else { 215 }) } else { (if y < 1974 { 203 } else { (if y < 1975 { 123 } else { 211 }) }) }) }) }) }) }) } else { (if y < 2013 { (if y < 1994 { (if y < 1985 { (if y < 1980 { (if y < 1978 { (if y < 1977 { 131 } else { 218 }) } else { (if y < 1979 { 207 } else { 128 }) }) } else { (if y < 1982 { (if y < 1981 { 216 } else { 205 }) } else { (if y < 1983 { 125 } else { (if y < 1984 { 213 } else { 202 }) }) }) }) } else { (if y < 1989 { (if y < 1987 { (if y < 1986 { 220 } else { 209 }) } else { (if y < 1988 { 129 } else { 218 }) }) } else { (if y < 1991 { (if y < 1990 { 206 } else { 127 }) } else { (if y < 1992 { 215 } else { (if y < 1993 { 204 } else { 123 }) }) }) }) }) } else { (if y < 2003 { (if y < 1998 { (if y < 1996 { (if y < 1995 { 210 } else { 131 }) } else { (if y < 1997 { 219 } else { 208 }) }) } else { (if y < 2000 { (if y < 1999 { 128 } else { 216 }) } else { (if y < 2001 { 205 } else { (if y < 2002 { 124 } else { 212 }) }) }) }) } else { (if y < 2008 { (if y < 2005 { (if y < 2004 { 201 } else { 122 }) } else { (if y < 2006 { 209 } else { (if y < 2007 { 129 } else { 218 }) }) }) } else { (if y < 2010 { (if y < 2009 { 207 } else { 126 }) } else { (if y < 2011 { 214 } else { (if y < 2012 { 203 } else { 123 }) }) }) }) }) }) } else { (if y < 2032 { (if y < 2022 { (if y < 2017 { (if y < 2015 { (if y < 2014 { 210 } else { 131 }) } else { (if y < 2016 { 219 } else { 208 }) }) } else { (if y < 2019 { (if y < 2018 { 128 } else { 216 }) } else { (if y < 2020 { 205 } else { (if y < 2021 { 125 } else { 212 }) }) }) }) } else { (if y < 2027 { (if y < 2024 { (if y < 2023 { 201 } else { 122 }) } else { (if y < 2025 { 210 } else { (if y < 2026 { 129 } else { 217 }) }) }) } else { (if y < 2029 { (if y < 2028 { 207 } else { 127 }) } else { (if y < 2030 { 213 } else { (if y < 2031 { 203 } else { 123 }) }) }) }) }) } else { (if y < 2041 { (if y < 2036 { (if y < 2034 { (if y < 2033 { 211 } else { 131 }) } else { (if y < 2035 { 219 } else { 208 }) }) } else { (if y < 2038 { (if y < 2037 { 128 } else { 215 }) } else { (if y < 2039 { 204 } else { (if y < 2040 { 124 } else { 212 }) }) }) }) } else { (if y < 2046 { (if y < 2043 { (if y < 2042 { 201 } else { 122 }) } else { (if y < 2044 { 210 } else { (if y < 2045 { 130 } else { 217 }) }) }) } else { (if y < 2048 { (if y < 2047 { 206 } else { 126 }) } else { (if y < 2049 { 214 } else { (if y < 2050 { 202 } else { 123 }) }) }) }) }) }) }) }) }
pub open spec fn buddha(y: int) -> int { (if y < 2001 { (if y < 1976 { (if y < 1963 { (if y < 1957 { (if y < 1954 { (if y < 1952 { 513 } else { (if y < 1953 { 501 } else { 520 }) }) } else { (if y < 1955 { 510 } else { (if y < 1956 { 529 } else { 517 }) }) }) } else { (if y < 1960 { (if y < 1958 { 507 } else { (if y < 1959 { 526 } else { 515 }) }) } else { (if y < 1961 { 503 } else { (if y < 1962 { 522 } else { 511 }) }) }) }) } else { (if y < 1969 { (if y < 1966 { (if y < 1964 { 501 } else { (if y < 1965 { 519 } else { 508 }) }) } else { (if y < 1967 { 527 } else { (if y < 1968 { 516 } else { 505 }) }) }) } else { (if y < 1972 { (if y < 1970 { 523 } else { (if y < 1971 { 512 } else { 502 }) }) } else { (if y < 1974 { (if y < 1973 { 520 } else { 510 }) } else { (if y < 1975 { 429 } else { 518 }) }) }) }) }) } else { (if y < 1988 { (if y < 1982 { (if y < 1979 { (if y < 1977 { 506 } else { (if y < 1978 { 525 } else { 514 }) }) } else { (if y < 1980 { 503 } else { (if y < 1981 { 521 } else { 511 }) }) }) } else { (if y < 1985 { (if y < 1983 { 501 } else { (if y < 1984 { 520 } else { 508 }) }) } else { (if y < 1986 { 527 } else { (if y < 1987 { 516 } else { 505 }) }) }) }) } else { (if y < 1994 { (if y < 1991 { (if y < 1989 { 523 } else { (if y < 1990 { 512 } else { 502 }) }) } else { (if y < 1992 { 521 } else { (if y < 1993 { 510 } else { 528 }) }) }) } else { (if y < 1997 { (if y < 1995 { 518 } else { (if y < 1996 { 507 } else { 524 }) }) } else { (if y < 1999 { (if y < 1998 { 514 } else { 503 }) } else { (if y < 2000 { 522 } else { 511 }) }) }) }) }) }) } else { (if y < 2026 { (if y < 2013 { (if y < 2007 { (if y < 2004 { (if y < 2002 { 501 } else { (if y < 2003 { 519 } else { 508 }) }) } else { (if y < 2005 { 526 } else { (if y < 2006 { 515 } else { 505 }) }) }) } else { (if y < 2010 { (if y < 2008 { 524 } else { (if y < 2009 { 512 } else { 502 }) }) } else { (if y < 2011 { 521 } else { (if y < 2012 { 510 } else { 528 }) }) }) }) } else { (if y < 2019 { (if y < 2016 { (if y < 2014 { 517 } else { (if y < 2015 { 506 } else { 525 }) }) } else { (if y < 2017 { 514 } else { (if y < 2018 { 503 } else { 522 }) }) }) } else { (if y < 2022 { (if y < 2020 { 512 } else { (if y < 2021 { 430 } else { 519 }) }) } else { (if y < 2024 { (if y < 2023 { 508 } else { 527 }) } else { (if y < 2025 { 515 } else { 505 }) }) }) }) }) } else { (if y < 2038 { (if y < 2032 { (if y < 2029 { (if y < 2027 { 524 } else { (if y < 2028 { 513 } else { 502 }) }) } else { (if y < 2030 { 520 } else { (if y < 2031 { 509 } else { 528 }) }) }) } else { (if y < 2035 { (if y < 2033 { 516 } else { (if y < 2034 { 506 } else { 525 }) }) } else { (if y < 2036 { 515 } else { (if y < 2037 { 503 } else { 522 }) }) }) }) } else { (if y < 2044 { (if y < 2041 { (if y < 2039 { 511 } else { (if y < 2040 { 430 } else { 518 }) }) } else { (if y < 2042 { 507 } else { (if y < 2043 { 526 } else { 516 }) }) }) } else { (if y < 2047 { (if y < 2045 { 505 } else { (if y < 2046 { 524 } else { 513 }) }) } else { (if y < 2049 { (if y < 2048 { 502 } else { 520 }) } else { (if y < 2050 { 509 } else { 528 }) }) }) }) }) }) }) }
pub open spec fn chuseok(y: int) -> int { (if y < 2001 { (if y < 1976 { (if y < 1963 { (if y < 1957 { (if y < 1954 { (if y < 1952 { 915 } else { (if y < 1953 { 1003 } else { 922 }) }) } else { (if y < 1955 { 911 } else { (if y < 1956 { 930 } else { 919 }) }) }) } else { (if y < 1960 { (if y < 1958 { 908 } else { (if y < 1959 { 927 } else { 917 }) }) } else { (if y < 1961 { 1005 } else { (if y < 1962 { 924 } else { 913 }) }) }) }) } else { (if y < 1969 { (if y < 1966 { (if y < 1964 { 1002 } else { (if y < 1965 { 920 } else { 910 }) }) } else { (if y < 1967 { 929 } else { (if y < 1968 { 918 } else { 1006 }) }) }) } else { (if y < 1972 { (if y < 1970 { 926 } else { (if y < 1971 { 915 } else { 1003 }) }) } else { (if y < 1974 { (if y < 1973 { 922 } else { 911 }) } else { (if y < 1975 { 930 } else { 920 }) }) }) }) }) } else { (if y < 1988 { (if y < 1982 { (if y < 1979 { (if y < 1977 { 908 } else { (if y < 1978 { 927 } else { 917 }) }) } else { (if y < 1980 { 1005 } else { (if y < 1981 { 923 } else { 912 }) }) }) } else { (if y < 1985 { (if y < 1983 { 1001 } else { (if y < 1984 { 921 } else { 910 }) }) } else { (if y < 1986 { 929 } else { (if y < 1987 { 918 } else { 1007 }) }) }) }) } else { (if y < 1994 { (if y < 1991 { (if y < 1989 { 925 } else { (if y < 1990 { 914 } else { 1003 }) }) } else { (if y < 1992 { 922 } else { (if y < 1993 { 911 } else { 930 }) }) }) } else { (if y < 1997 { (if y < 1995 { 920 } else { (if y < 1996 { 909 } else { 927 }) }) } else { (if y < 1999 { (if y < 1998 { 916 } else { 1005 }) } else { (if y < 2000 { 924 } else { 912 }) }) }) }) }) }) } else { (if y < 2026 { (if y < 2013 { (if y < 2007 { (if y < 2004 { (if y < 2002 { 1001 } else { (if y < 2003 { 921 } else { 911 }) }) } else { (if y < 2005 { 928 } else { (if y < 2006 { 918 } else { 1006 }) }) }) } else { (if y < 2010 { (if y < 2008 { 925 } else { (if y < 2009 { 914 } else { 1003 }) }) } else { (if y < 2011 { 922 } else { (if y < 2012 { 912 } else { 930 }) }) }) }) } else { (if y < 2019 { (if y < 2016 { (if y < 2014 { 919 } else { (if y < 2015 { 908 } else { 927 }) }) } else { (if y < 2017 { 915 } else { (if y < 2018 { 1004 } else { 924 }) }) }) } else { (if y < 2022 { (if y < 2020 { 913 } else { (if y < 2021 { 1001 } else { 921 }) }) } else { (if y < 2024 { (if y < 2023 { 910 } else { 929 }) } else { (if y < 2025 { 917 } else { 1006 }) }) }) }) }) } else { (if y < 2038 { (if y < 2032 { (if y < 2029 { (if y < 2027 { 925 } else { (if y < 2028 { 915 } else { 1003 }) }) } else { (if y < 2030 { 922 } else { (if y < 2031 { 912 } else { 1001 }) }) }) } else { (if y < 2035 { (if y < 2033 { 919 } else { (if y < 2034 { 908 } else { 927 }) }) } else { (if y < 2036 { 916 } else { (if y < 2037 { 1004 } else { 924 }) }) }) }) } else { (if y < 2044 { (if y < 2041 { (if y < 2039 { 913 } else { (if y < 2040 { 1002 } else { 921 }) }) } else { (if y < 2042 { 910 } else { (if y < 2043 { 928 } else { 917 }) }) }) } else { (if y < 2047 { (if y < 2045 { 1005 } else { (if y < 2046 { 925 } else { 915 }) }) } else { (if y < 2049 { (if y < 2048 { 1004 } else { 922 }) } else { (if y < 2050 { 911 } else { 930 }) }) }) }) }) }) }) }
// n is that day or the one before or after it
pub open spec fn around(n: int, y: int, md: int) -> bool { -1 <= n - day_no(y, md / 100, md % 100) <= 1 }
pub open spec fn sk_lunar_new_year(n: int) -> bool { 1901 <= yr(n) <= 2050 && around(n, yr(n), lunar_new_year(yr(n))) }
pub open spec fn sk_buddha(n: int) -> bool { 1951 <= yr(n) <= 2050 && on(n, buddha(yr(n)) / 100, buddha(yr(n)) % 100) }
pub open spec fn sk_chuseok(n: int) -> bool { 1951 <= yr(n) <= 2050 && around(n, yr(n), chuseok(yr(n))) }
// the last weekday of the year, for the years the calendar lists
pub open spec fn last_weekday(y: int) -> int { let w = wd(day_no(y, 12, 31)); if w == Weekday::Saturday { 30 } else if w == Weekday::Sunday { 29 } else { 31 } }
pub open spec fn sk_year_end(n: int) -> bool { 1951 <= yr(n) <= 2100 && on(n, 12, last_weekday(yr(n))) }
pub open spec fn sk_temporary(n: int) -> bool { dated(n, 2023, 1, 24) || dated(n, 2023, 5, 1) || dated(n, 2023, 5, 29) || dated(n, 2023, 10, 2) || dated(n, 2024, 2, 12) || dated(n, 2024, 5, 6) }
#[verifier::opaque]
pub open spec fn sk_rule(t: SouthKoreaType, d: OffsetDateTime) -> bool { let n = d.day_n();
  ||| on(n, 1, 1) ||| on(n, 3, 1) ||| on(n, 5, 1) ||| on(n, 5, 5) ||| on(n, 6, 6) ||| on(n, 8, 15) ||| on(n, 10, 3) ||| on(n, 10, 9) ||| on(n, 12, 25)
  ||| sk_lunar_new_year(n) ||| sk_buddha(n) ||| sk_chuseok(n) ||| sk_temporary(n) ||| (t == SouthKoreaType::Krx && sk_year_end(n)) }
