"""Proleptic Gregorian calendar, written independently of the code under test
(no datetime: years may be far outside 1..9999)."""

MDAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def dim(y, m):
    return 29 if m == 2 and is_leap(y) else MDAYS[m - 1]


def days(y, m, d):
    """Days since 1970-01-01; d may be outside the month."""
    yy = y - (1 if m <= 2 else 0)
    era = yy // 400
    yoe = yy - era * 400
    mp = (m + 9) % 12
    doy = (153 * mp + 2) // 5
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468 + (d - 1)


def civil(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return (y + 1 if m <= 2 else y), m, d


def isodow(n):
    """ISO weekday (Mon=1..Sun=7) of a day number."""
    return (n + 3) % 7 + 1


def on_day(y, m, dow, dom):
    """Day number of the TZDB ON/UNTIL day: dow 0 = exact day; dom 0 = last
    dow of the month; dom > 0 = first dow on or after; dom < 0 = last dow on
    or before -dom.  May fall in a neighbouring month or year."""
    if dow == 0:
        return days(y, m, dom)
    if dom == 0:
        n = days(y, m, dim(y, m))
        return n - (isodow(n) - dow) % 7
    if dom > 0:
        n = days(y, m, dom)
        return n + (dow - isodow(n)) % 7
    n = days(y, m, -dom)
    return n - (isodow(n) - dow) % 7
