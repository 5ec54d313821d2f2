"""Abstract TZDB sources: Hypothesis strategies, and the renderer that turns a
model into TZDB text.  A model is a plain JSON value:

  {'zones':    [[name, [era, ...]], ...],
   'policies': [[name, [rule, ...]], ...],
   'links':    [[link, target], ...]}

  era  = {'off': secs, 'rules': null | {'save': secs} | {'policy': name},
          'fmt': str, 'until': null | {'y','m','on','at','sfx'}}   (m.. opt.)
  rule = {'frm': y, 'to': y | 'max', 'month': 1..12, 'on': [dow, dom],
          'at': secs, 'sfx': '' | 'w' | 's' | 'u', 'save': secs,
          'letter': str}
  on   = [0, d] exact day | [dow, 0] last dow | [dow, d] dow>=d |
         [dow, -d] dow<=d
"""
import random
import re

from hypothesis import strategies as st

from . import cal

MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
          'August', 'September', 'October', 'November', 'December']
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward',
         'etcetera', 'europe', 'northamerica', 'southamerica']


def normalize(name):
    return re.sub('[^a-zA-Z0-9_]', '_', name.replace('+', '_PLUS_'))


# ---------------------------------------------------------------- strategies

REGIONS = ['America', 'Europe', 'Asia', 'Africa', 'Pacific', 'Etc',
           'America/Argentina', 'America/Indiana', 'Indian', 'US',
           'Atlantic', 'Australia', 'Antarctica', 'Mex', 'Brazil/East']
CITY_HEAD = 'ABCDEFGHKLMNPRSTZ'
CITY_TAIL = 'abcdefghiklmnorstuy'


@st.composite
def zone_names(draw):
    kind = draw(st.integers(0, 9))
    if kind == 0:
        return draw(st.sampled_from(
            ['UTC', 'GMT', 'EST5EDT', 'W-SU', 'Etc/GMT+1', 'Etc/GMT-1',
             'Etc/GMT+12', 'GMT0', 'GB-Eire', 'America/Port-au-Prince',
             'Etc/GMT-0']))
    city = draw(st.sampled_from(CITY_HEAD)) + draw(
        st.text(CITY_TAIL, min_size=1, max_size=6))
    if kind == 1:
        city += '_' + draw(st.sampled_from(CITY_HEAD)) + 'x'
    if kind == 2:
        return city
    if kind == 3:
        city = draw(st.sampled_from(['', '', '0', '1e'])) + city.lower()
    if kind == 4 and draw(st.integers(0, 1)) == 0:
        # as long as, or longer than, any name in TZDB
        city += '_' + draw(st.text(CITY_TAIL + '_', min_size=20,
                                   max_size=44)) + 'x'
    return draw(st.sampled_from(REGIONS)) + '/' + city


@st.composite
def policy_names(draw):
    if draw(st.integers(0, 3)) == 0:
        return draw(st.sampled_from(
            ['US', 'EU', 'E-Eur', 'C-Eur', 'Russia', 'GB-Eire', 'AN', 'RU2',
             'SA_x', 'W-Eur', 'us', 'eu', 'e-Eur']))
    return draw(st.sampled_from(CITY_HEAD)) + draw(
        st.text(CITY_TAIL + '-_', min_size=0, max_size=4)) + 'q'


LETTERS = ['-', 'S', 'D', 'DD', 'ST', 'GMT', 'BST', 'CAT', '+02', 'PT', 'M']
FMT_POLICY = ['E%sT', '%s', 'C%sT', 'EST/EDT', '%z', '-03/-02', 'LHST',
              'GMT/%s', 'A%sT']
FMT_FIXED = ['LMT', '%z', 'EST', '-03', 'GMT/BST', '+0530', 'CST']
ABBREV = 'ABCDEFGSTWXZabcdefgmstz0123456789+-+-+-'
LETTER = st.one_of([st.sampled_from(LETTERS) for _ in range(6)] + [
    st.text(ABBREV, min_size=1, max_size=2),
    st.text(ABBREV, min_size=1, max_size=8)])
WORD = st.text(ABBREV, min_size=1, max_size=7)
FORMAT_POLICY = st.one_of([st.sampled_from(FMT_POLICY) for _ in range(6)] + [
    WORD, st.builds('{}%s{}'.format, WORD, st.text(ABBREV, max_size=4)),
    st.builds('{}/{}'.format, WORD, WORD)])
FORMAT_FIXED = st.one_of([st.sampled_from(FMT_FIXED) for _ in range(6)] + [
    WORD, WORD, st.builds('{}/{}'.format, WORD, WORD)])

FULL = {'at': 1, 'off': 1, 'save': 60}          # the complete scope's default
LOW = {'at': 60, 'off': 60, 'save': 900}        # basic and extended
RAW = {'at': 1, 'off': 1, 'save': 1}            # anything TZDB can write


def _grained(draw, lo, hi, grain, nice):
    """Seconds in [lo, hi], multiple of grain, biased to multiples of nice."""
    unit = nice if draw(st.integers(0, 2)) else grain
    if unit % grain:
        unit = grain
    return draw(st.integers(-(-lo // unit), hi // unit)) * unit


@st.composite
def at_times(draw, grain=1):
    if draw(st.integers(0, 3)) == 0:
        return draw(st.sampled_from([0, 3600, 7200, 10800, 82800, 86400,
                                     90000]))
    return _grained(draw, 0, 25 * 3600 + 3599, grain, 900)


@st.composite
def offsets(draw, grain=1, limit=16):
    return _grained(draw, -limit * 3600, limit * 3600, grain, 1800)


@st.composite
def saves(draw, grain=60, lo=-3600, hi=9900, nonzero=False):
    if draw(st.integers(0, 1)):
        return draw(st.sampled_from(
            [3600] if nonzero else [3600, 0, 3600, 0]))
    v = _grained(draw, lo, hi, grain, 900)
    return v if v or not nonzero else 3600


@st.composite
def on_days(draw, wide=False):
    """ON fields.  `wide` allows expressions whose limit day may not exist in
    every month."""
    kind = draw(st.integers(0, 3))
    dow = draw(st.integers(1, 7))
    top = 31 if wide else 28
    if kind == 0:
        return [0, draw(st.integers(1, top))]
    if kind == 1:
        return [dow, 0]
    if kind == 2:
        return [dow, draw(st.integers(1, top))]
    return [dow, -draw(st.integers(1, top))]


def _safe_on(draw, month):
    """An ON day that cannot leave its year."""
    on = draw(on_days())
    if month == 12 and on[0] and on[1] >= 23:
        on = [on[0], 0]
    if month == 1 and on[0] and -8 <= on[1] < 0:
        on = [on[0], 1]
    return on


@st.composite
def policies(draw, grain=FULL, lo_year=1890, hi_year=2060, single_ok=True,
             lo_save=-3600, hi_save=9900):
    """A policy whose transitions are well ordered: blocks of consecutive
    years, each with its own yearly pattern of transitions in separate
    months, alternating between DST and standard time."""
    rules = []
    y = draw(st.integers(lo_year, hi_year - 30))
    nblocks = draw(st.integers(1, 6))
    std_letter = draw(LETTER)
    dst_letter = draw(LETTER)
    for b in range(nblocks):
        last = b == nblocks - 1
        if draw(st.integers(0, 2)) == 0:
            span = 0
        else:
            span = draw(st.integers(0, 25))
        to = y + span
        if last and draw(st.integers(0, 1)):
            to = 'max'
        n = draw(st.sampled_from([2, 2, 2, 4, 1]))
        if n == 1:
            months = [draw(st.integers(2, 11))]
        elif n == 2:
            m1 = draw(st.integers(1, 7))
            months = [m1, draw(st.integers(m1 + 3, min(m1 + 8, 11)))]
        else:
            months = [1, 4, 7, 10]
        start_dst = draw(st.booleans())
        for i, m in enumerate(months):
            dst = (i % 2 == 0) == start_dst
            if n == 1:
                dst = draw(st.booleans()) and not (not rules and last)
            save = draw(saves(grain=grain['save'], nonzero=True, lo=lo_save,
                              hi=hi_save)) if dst else 0
            letter = dst_letter if dst else std_letter
            if draw(st.integers(0, 4)) == 0:
                letter = draw(LETTER)
            rules.append({
                'frm': y, 'to': to, 'month': m, 'on': _safe_on(draw, m),
                'at': draw(at_times(grain['at'])),
                'sfx': draw(st.sampled_from(['', 'w', 's', 'u'])),
                'save': save, 'letter': letter})
        if to == 'max' or to >= hi_year:
            break
        y = to + 1 + draw(st.sampled_from([0, 0, 0, 1, 7, 30]))
        if y > hi_year:
            break
    if not any(r['save'] == 0 for r in rules):
        # every policy of the TZDB starts from standard time
        r = dict(rules[0])
        r.update(frm=rules[0]['frm'] - 1, to=rules[0]['frm'] - 1, save=0,
                 on=[0, 1], month=6)
        rules.insert(0, r)
    if draw(st.integers(0, 9)) == 0:
        # daylight saving time all year, but for one rule
        std = [r for r in rules if r['save'] == 0]
        stay = draw(st.sampled_from(std + [std[-1]]))
        for r in rules:
            if r is not stay and r['save'] == 0:
                r['save'] = 3600
    if draw(st.integers(0, 5)) == 0:
        rules = draw(st.permutations(rules))
        rules = list(rules)
    return rules


def _dates():
    out = []
    for m in range(1, 13):
        for d in range(1, cal.dim(2001, m) + 1):
            out.append((m, d))
    return out


DATES = _dates()


@st.composite
def single_year(draw, y, late, grain=FULL, lo_save=-3600, hi_save=9900):
    """Transitions of one year, on days at least three days apart but written
    in any way that gives that day in that year."""
    lo = cal.days(y, 1, 1) + (7 if late else 0)
    hi = cal.days(y, 12, 31) - (0 if late else 7)
    day = lo + draw(st.sampled_from([0, 0, 25, 140, 300]))
    rules = []
    for _ in range(draw(st.integers(1, 6))):
        day += draw(st.sampled_from([0, 0, 1, 2, 10, 24]))
        if day > hi:
            break
        _, m, d = cal.civil(day)
        dow = cal.isodow(day)
        kind = draw(st.integers(0, 4))
        k = draw(st.integers(0, 6))
        on = [0, d]
        if kind in (1, 2):
            yy, mm, dd = cal.civil(day - k)
            if yy == y and not (mm == 12 and dd >= 26):
                m, on = mm, [dow, dd]
        elif kind == 3:
            yy, mm, dd = cal.civil(day + k)
            if yy == y and not (mm == 1 and dd <= 6):
                m, on = mm, [dow, -dd]
        elif kind == 4 and d > cal.dim(y, m) - 7:
            on = [dow, 0]
        save = draw(st.one_of(st.just(0), saves(
            grain=grain['save'], lo=lo_save, hi=hi_save)))
        rules.append({
            'frm': y, 'to': y, 'month': m, 'on': on,
            'at': draw(at_times(grain['at'])),
            'sfx': draw(st.sampled_from(['', 'w', 's', 'u'])),
            'save': save, 'letter': draw(LETTER)})
        day += 3
    return rules


@st.composite
def dense_policies(draw, grain=FULL, lo_save=-3600, hi_save=9900,
                   lo_year=1890, hi_year=2060):
    """A policy with up to six transitions a year, which may share a month,
    touch either end of the year or be written in the month before or after
    theirs; any two stay at least three days apart."""
    late = draw(st.booleans())
    rules = []
    y = draw(st.integers(lo_year, hi_year - 30))
    for b in range(draw(st.integers(1, 5))):
        span = draw(st.sampled_from([0, 0, 0, 1, 2, 20]))
        day = draw(st.sampled_from([5, 5, 200, 300] if late
                                   else [0, 0, 20, 200]))
        if span == 0 and draw(st.booleans()):
            rules += draw(single_year(y, late, grain, lo_save, hi_save))
            y += 1 + draw(st.sampled_from([0, 0, 1, 5, 30]))
            continue
        for _ in range(draw(st.integers(1, 6))):
            day += draw(st.sampled_from([0, 0, 1, 2, 10, 30]))
            if day > (358 if late else 352):
                break
            month, dom = DATES[day]
            m6, d6 = DATES[day + 6]
            dow = draw(st.integers(1, 7))
            kind = draw(st.integers(0, 3))
            if kind == 0:
                month, dom = DATES[day + draw(st.integers(0, 6))]
                on = [0, dom]
            elif kind == 1:
                on = [dow, dom]
            elif kind == 2:
                month, on = m6, [dow, -d6]
            else:
                on = [dow, 0] if dom == cal.dim(2001, month) - 6 \
                    else [dow, dom]
            save = draw(st.one_of(st.just(0), saves(
                grain=grain['save'], lo=lo_save, hi=hi_save)))
            rules.append({
                'frm': y, 'to': y + span, 'month': month, 'on': on,
                'at': draw(at_times(grain['at'])),
                'sfx': draw(st.sampled_from(['', 'w', 's', 'u'])),
                'save': save, 'letter': draw(LETTER)})
            day += 10
        if span == 20 and draw(st.booleans()):
            for r in rules:
                if r['frm'] == y:
                    r['to'] = 'max'
            break
        y += span + 1 + draw(st.sampled_from([0, 0, 1, 5, 30]))
        if y > hi_year:
            break
    if not any(r['save'] == 0 for r in rules):
        y = min([r['frm'] for r in rules] or [lo_year]) - 1
        rules.insert(0, {
            'frm': y, 'to': y, 'month': 6, 'on': [0, 1], 'at': 0, 'sfx': '',
            'save': 0, 'letter': draw(LETTER)})
    return list(draw(st.permutations(rules))) if draw(st.booleans()) \
        else rules


@st.composite
def until_times(draw, year, grain, simple=False):
    u = {'y': year}
    if simple or draw(st.integers(0, 3)) == 0:
        return u
    u['m'] = draw(st.integers(1, 12))
    if draw(st.integers(0, 3)) == 0:
        return u
    m = u['m']
    u['on'] = draw(on_days(wide=False)) if 1 < m < 12 else _safe_on(draw, m)
    if draw(st.integers(0, 3)) == 0:
        return u
    u['at'] = draw(at_times(grain['at']))
    u['sfx'] = draw(st.sampled_from(['', 'w', 's', 'u']))
    return u


@st.composite
def zone_eras(draw, policy_list, grain=FULL, lo_year=1880, hi_year=2060,
              simple=False, offset_limit=16, fixed_save=True, max_eras=6,
              lo_save=-3600, hi_save=7200):
    n = draw(st.integers(1, max_eras))
    ys = sorted(draw(st.lists(st.integers(lo_year, hi_year), min_size=n - 1,
                              max_size=n - 1, unique=True)))
    eras = []
    for i in range(n):
        kind = draw(st.integers(0, 3))
        if policy_list and kind >= 2:
            rules = {'policy': draw(st.sampled_from(policy_list))}
            fmt = draw(FORMAT_POLICY)
        else:
            rules = None
            if kind == 1 and fixed_save:
                rules = {'save': draw(saves(grain=grain['save'], lo=lo_save,
                                            hi=hi_save, nonzero=True))}
            fmt = draw(FORMAT_FIXED)
        eras.append({
            'off': draw(offsets(grain['off'], offset_limit)),
            'rules': rules, 'fmt': fmt,
            'until': None if i == n - 1 else draw(
                until_times(ys[i], grain, simple))})
    return eras


def _unique(names):
    seen, out = set(), []
    for n in names:
        k = normalize(n)
        if k not in seen:
            seen.add(k)
            out.append(n)
    return out


TAILS = ['', '-a', '_b', '+c', 'd', 'E', '0', '_', '-F', '/g', '.h', 'ii']


@st.composite
def close(draw, names):
    """Some of the names replaced by near relatives of the first one, which
    any other way to compare or to rewrite names puts into another order."""
    if len(names) < 2 or draw(st.integers(0, 2)):
        return names
    if draw(st.integers(0, 3)) == 0:
        # upper case, lower case and swapped case name three different things
        first = names[0]
        return _unique([first, first.upper(), first.lower(),
                        first.swapcase()][:len(names)] + names[1:])[
                            :len(names)]
    tails = draw(st.permutations(TAILS))
    return _unique([names[0] + t for t, _ in zip(tails, names)])


@st.composite
def databases(draw, grain=FULL, simple=False, max_zones=5, max_policies=4,
              max_links=4, lo_year=1880, hi_year=2060, offset_limit=16,
              fixed_save=True, hi_save=9900, lo_save=-3600, min_zones=1,
              max_eras=6, era_hi_save=7200):
    pols = draw(close(_unique(
        draw(st.lists(policy_names(), max_size=max_policies)))))
    names = draw(close(_unique(
        draw(st.lists(zone_names(), min_size=min_zones,
                      max_size=max_zones + max_links)))))
    if len(names) > 3 and draw(st.integers(0, 3)) == 0:
        # one region, so that its name is a fragment worth a code
        region = draw(st.sampled_from(REGIONS))
        names = _unique([region + '/' + n.split('/')[-1] for n in names])
    nz = max(1, min(len(names), draw(st.integers(min_zones, max_zones))))
    zones = [[n, draw(zone_eras(
        pols, grain, lo_year, hi_year, simple, offset_limit, fixed_save,
        max_eras, lo_save, era_hi_save))] for n in names[:nz]]
    links = [[n, draw(st.sampled_from(names[:nz]))] for n in names[nz:]]
    model = {
        'policies': [[p, draw(
            dense_policies(grain, lo_save, hi_save, max(lo_year, 1890),
                           hi_year) if draw(st.integers(0, 4)) == 4
            else policies(grain, max(lo_year, 1890), hi_year,
                          lo_save=lo_save, hi_save=hi_save))]
                     for p in pols],
        'zones': zones, 'links': links}
    return model


# ------------------------------------------------------------------ renderer

class Style:
    """Layout choices, a pure function of the integer in the case (0 =
    plain)."""

    def __init__(self, seed):
        self.seed = seed
        self.rnd = random.Random(seed)

    def pick(self, options):
        return options[0] if self.seed == 0 else self.rnd.choice(options)

    def sep(self):
        return self.pick(['\t', '\t', ' ', '\t\t', '  ', ' \t '])


def fmt_time(secs, style=None, colon=False):
    sign = '-' if secs < 0 else ''
    a = abs(secs)
    h, m, s = a // 3600, a // 60 % 60, a % 60
    forms = []
    if s:
        forms = [f'{h}:{m:02}:{s:02}', f'{h:02}:{m:02}:{s:02}',
                 f'{h}:{m}:{s}']
    elif m:
        forms = [f'{h}:{m:02}', f'{h:02}:{m:02}', f'{h}:{m:02}:00']
    else:
        forms = [f'{h}:00', f'{h:02}:00', f'{h}:00:00']
        if not colon:
            forms += [f'{h}', f'{h:02}']
    text = style.pick(forms) if style else forms[0]
    return sign + text


def fmt_on(on):
    dow, dom = on
    if dow == 0:
        return str(dom)
    name = DAYS[dow - 1]
    if dom == 0:
        return 'last' + name
    return f'{name}>={dom}' if dom > 0 else f'{name}<={-dom}'


def fmt_month(m, style):
    name = MONTHS[m - 1]
    return style.pick([name[:3], name[:3], name, name[:4], name[:3].lower(),
                       name.upper()])


def rule_line(name, r, style):
    if r['to'] == 'max':
        to = 'max'
    elif r['to'] == r['frm']:
        to = style.pick(['only', str(r['to'])])
    else:
        to = str(r['to'])
    fields = ['Rule', name, str(r['frm']), to, '-',
              fmt_month(r['month'], style), fmt_on(r['on']),
              fmt_time(r['at'], style) + r['sfx'],
              fmt_time(r['save'], style), r['letter'] or '-']
    for i, text in r.get('raw', {}).items():
        fields[int(i)] = text           # a damaged field
    out = fields[0]
    for f in fields[1:]:
        out += style.sep() + f
    return out


def era_fields(e, style):
    r = e['rules']
    if r is None:
        rules = '-'
    elif 'policy' in r:
        rules = r['policy']
    else:
        rules = fmt_time(r['save'], style, colon=True)
    f = [fmt_time(e['off'], style), rules, e['fmt']]
    u = e['until']
    if u is not None:
        f.append(str(u['y']))
        if 'm' in u:
            f.append(fmt_month(u['m'], style))
            if 'on' in u:
                f.append(fmt_on(u['on']))
                if 'at' in u:
                    f.append(fmt_time(u['at'], style) + u['sfx'])
    for i, text in e.get('raw', {}).items():
        f[int(i)] = text                # a damaged field
    return f


def _noise(style, line):
    if style.seed == 0:
        return line
    k = style.rnd.randrange(8)
    if k == 0:
        return line + '   '
    if k == 1:
        return line + '\t# trailing comment'
    if k == 2:
        return line + ' # Rule Fake 1999 only - Jan 1 0 0 -'
    return line


def _fillers(style):
    if style.seed == 0:
        return []
    k = style.rnd.randrange(6)
    return [['# comment'], [''], ['#Zone\tBogus/Zone 0 - X'], ['   '],
            [], []][k]


def to_files(model, style_seed=0):
    """Render to {filename: text}.  Rules and zones are spread over the nine
    files, in the model's order within each file and each record type."""
    style = Style(style_seed)
    out = {f: [] for f in FILES}

    def target(default):
        return out[default if style_seed == 0 else style.rnd.choice(FILES)]

    for name, rules in model['policies']:
        buf = target('europe')      # one policy's rules stay together
        for r in rules:
            buf.extend(_fillers(style))
            buf.append(_noise(style, rule_line(name, r, style)))
    for name, eras in model['zones']:
        buf = target('northamerica')
        for i, e in enumerate(eras):
            fields = era_fields(e, style)
            if i == 0:
                line = 'Zone' + style.sep() + name
            else:
                line = '\t' + style.pick(['\t\t', '', '    ', '\t'])
                line = line.rstrip(' ') if line.strip(' ') == '' else line
            first = True
            for f in fields:
                line += ('' if first and i else style.sep()) + f
                first = False
            if i:
                buf.extend(_fillers(style))
            buf.append(_noise(style, line))
    for link, tgt in model['links']:
        buf = target('backward')
        buf.append(_noise(style, 'Link' + style.sep() + tgt + style.sep()
                          + link))
    return {f: '\n'.join(v) + ('\n' if v else '') for f, v in out.items()}
