"""Reference evaluator: what UTC offset, DST shift and abbreviation a zone has
at every instant, straight from the meaning of TZDB Zone and Rule lines.

Canonical zone : list of eras
  era  = dict(off, save, policy, fmt, until)   until = (y,m,d,secs,suffix)|None
Canonical rule : dict(frm, to, month, dow, dom, at, sfx, save, letter)
"""
from . import cal

INF = 1 << 60
MAX_YEAR = 32766


def occurrences(rules, lo, hi):
    """(sortkey, nominal_secs, sfx, save, letter) of the rules for years
    lo..hi, plus each rule's last occurrence before lo."""
    out = []
    for r in rules:
        years = list(range(max(r['frm'], lo), min(r['to'], hi) + 1))
        prior = min(r['to'], lo - 1)
        if prior >= r['frm']:
            years.append(prior)
        for y in years:
            n = cal.on_day(y, r['month'], r['dow'], r['dom'])
            out.append((n * 86400 + r['at'], r['sfx'], r['save'],
                        r['letter']))
    return out


def initial_letter(rules):
    """LETTER in force before the first transition: that of the earliest rule
    in standard time."""
    best = None
    for r in rules:
        if not r.get('std', r['save'] == 0):
            continue
        n = cal.on_day(r['frm'], r['month'], r['dow'], r['dom'])
        key = n * 86400 + r['at']
        if best is None or key < best[0]:
            best = (key, r['letter'])
    return best[1] if best else ''


def hhmm(secs):
    sign = '-' if secs < 0 else '+'
    secs = abs(secs)
    h, m, s = secs // 3600, secs // 60 % 60, secs % 60
    if s:
        return f'{sign}{h:02}{m:02}{s:02}'
    if m:
        return f'{sign}{h:02}{m:02}'
    return f'{sign}{h:02}'


def abbrev(fmt, off, save, letter):
    if fmt in ('%z', ''):
        return hhmm(off + save)
    if '%s' in fmt:
        return fmt.replace('%s', letter)
    if '/' in fmt:
        a, b = fmt.split('/', 1)
        return a if save == 0 else b
    return fmt


def to_utc(nominal, sfx, off, save):
    if sfx == 'u':
        return nominal
    if sfx == 's':
        return nominal - off
    return nominal - off - save


def evaluate(eras, policies, lo_year, hi_year):
    """Return segments [(utc_start, total_offset, save, abbrev)], consecutive
    ones different, covering the instants of the years lo_year..hi_year."""
    segs = []
    start = -INF
    for era in eras:
        until = era['until']
        off = era['off']
        pol = era['policy']
        if until is None:
            until_nominal = INF
        else:
            y, m, d, secs, usfx = until
            until_nominal = cal.days(y, m, d) * 86400 + secs

        def end_with(save):
            if until is None:
                return INF
            return to_utc(until_nominal, usfx, off, save)

        if pol is None:
            save = era['save']
            segs.append((start, off + save, save,
                         abbrev(era['fmt'], off, save, '')))
            end = end_with(save)
        else:
            rules = policies[pol]
            occ = occurrences(rules, lo_year - 3, hi_year + 2)
            occ.sort(key=lambda o: (to_utc(o[0], o[1], off, 0), o[2]))
            save, letter = 0, initial_letter(rules)
            cur = (start, save, letter)
            pieces = []
            end = None
            for nominal, sfx, osave, oletter in occ:
                t = to_utc(nominal, sfx, off, save)
                e = end_with(save)
                if t >= e:
                    # the era stops before this transition
                    end = e
                    break
                save, letter = osave, oletter
                if t <= start:
                    cur = (start, save, letter)
                else:
                    if cur is not None:
                        pieces.append(cur)
                        cur = None
                    pieces.append((t, save, letter))
            if cur is not None:
                pieces.insert(0, cur)
            if end is None:
                end = end_with(save)
            for t, s, let in pieces:
                if t < end or t == start:
                    segs.append((t, off + s, s,
                                 abbrev(era['fmt'], off, s, let)))
        start = max(start, end)
    return segs


def clip(segs, lo, hi):
    """Segments restricted to [lo, hi) UTC seconds, normalised."""
    out = []
    for i, (t, off, save, ab) in enumerate(segs):
        nxt = segs[i + 1][0] if i + 1 < len(segs) else INF
        if nxt <= lo or t >= hi or nxt <= t:
            continue
        t = max(t, lo)
        if out and out[-1][0] == t:
            out[-1] = (t, off, save, ab)
        else:
            out.append((t, off, save, ab))
    norm = []
    for s in out:
        if norm and norm[-1][1:] == s[1:]:
            continue
        norm.append(s)
    return norm


def in_years(eras, policies, start_year, until_year):
    segs = evaluate(eras, policies, start_year, until_year)
    return clip(segs, cal.days(start_year, 1, 1) * 86400,
                cal.days(until_year, 1, 1) * 86400)
