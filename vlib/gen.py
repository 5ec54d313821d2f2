"""Strategies of whole cases: a source and the settings it is compiled with."""
import json

from hypothesis import strategies as st

from . import cal, model as M, pipeline as P
from .harness import Part

SCOPES = ['complete', 'extended', 'basic']


@st.composite
def years(draw, lo=1890, hi=2090, max_width=170):
    """[start, until)"""
    kind = draw(st.integers(0, 4))
    if kind == 0:
        return 2000, 2100
    a = draw(st.integers(lo, hi))
    if kind == 1:
        w = draw(st.integers(1, 3))
    elif kind == 2:
        w = draw(st.integers(1, 30))
    else:
        w = draw(st.integers(10, max_width))
    return a, min(a + w, 2110)


@st.composite
def configs(draw, scopes=SCOPES, strict=None, grains=False, lo=1890,
            plain=False):
    scope = draw(st.sampled_from(scopes))
    tiny = scope != 'complete'
    a, b = draw(years(lo=max(lo, 1875) if tiny else lo))
    if not tiny and draw(st.integers(0, 11)) == 0:
        # more than there are transitions for, on one side or on both
        if draw(st.integers(0, 2)):
            a = draw(st.sampled_from([1, 2, 1000, 1600, 1800, 1844]))
        if draw(st.integers(0, 2)):
            b = draw(st.sampled_from([2200, 3000, 9999, 10000, 10001, 20000,
                                      32767]))
    base = 2100
    if tiny and (a < 1975 or draw(st.integers(0, 3)) == 0):
        base = 2000
    cfg = P.config(
        scope=scope, start=a, until=b, base=base,
        strict=draw(st.booleans()) if strict is None else strict)
    if grains and draw(st.booleans()):
        cfg['at'] = draw(st.sampled_from([1, 60, 900, 15, 1800, 3600]))
        cfg['off'] = draw(st.sampled_from([1, 60, 900, 15, 1800]))
        cfg['save'] = draw(st.sampled_from([60, 900, 1800, 3600, 1]))
    return cfg


ERAS = [400 * k for k in (-4, -3, -1, 1, 2, 10, 15, 19)]


def _settle(rule):
    """The day of a rule for one year, written as a number."""
    if rule['on'][0] and rule['frm'] == rule['to']:
        y, m, d = cal.civil(cal.on_day(rule['frm'], rule['month'],
                                       *rule['on']))
        if y == rule['frm']:
            rule.update(month=m, on=[0, min(d, 28) if m == 2 else d])


def shifted(case, by):
    """The same case in other years; the calendar repeats every 400.  'last'
    moves the last year of the source to about 9999, 'first' the first one to
    about 1."""
    case = json.loads(json.dumps(case))
    cfg = case['cfg']
    if isinstance(by, list):
        years = [y for _, rules in case['model']['policies'] for r in rules
                 for y in (r['frm'], r['to']) if y != 'max'] + [
                     e['until']['y'] for _, eras in case['model']['zones']
                     for e in eras if e['until']] + [cfg['start']]
        by = 9999 - max(years) - by[1] if by[0] == 'last' \
            else 1 - min(years) + by[1]
        for _, rules in case['model']['policies']:
            for r in rules:
                _settle(r)
    if cfg['start'] < 1800 or cfg['until'] > 2200:
        return case
    cfg['start'] += by
    if cfg['scope'] != 'complete':
        # The years of 8 bits are relative to this one.
        cfg['base'] += by
    cfg['until'] += by
    if 'inner' in case:
        case['inner'] = [y + by for y in case['inner']]
    for _, rules in case['model']['policies']:
        for r in rules:
            r['frm'] += by
            if r['to'] != 'max':
                r['to'] += by
    for _, eras in case['model']['zones']:
        for e in eras:
            if e['until']:
                e['until']['y'] += by
    return case


def anywhere(strategy):
    """Some of the cases moved to another millennium."""
    def make():
        base = strategy()
        by = st.sampled_from([0] * 56 + ERAS + [
            ['last', 0], ['last', 1], ['last', 5], ['first', 0],
            ['first', 1]])
        return st.builds(lambda c, k: shifted(c, k) if k else c, base, by)
    return make


def grain_of(cfg):
    return {'at': cfg['at'], 'off': cfg['off'], 'save': cfg['save']}


@st.composite
def compiled(draw, scopes=SCOPES, max_zones=5, max_policies=4, max_links=4,
             compress=None, fine=False, **kw):
    """A source that compiles in the chosen scope, with its settings.  With
    `fine`, values finer than the granularity (which --nostrict truncates) and
    other granularities also occur."""
    cfg = draw(configs(scopes))
    scope = cfg['scope']
    grain = M.FULL if scope == 'complete' else M.LOW
    if fine and not cfg['strict'] and draw(st.booleans()):
        grain = draw(st.sampled_from([M.FULL, M.RAW]))
        if draw(st.integers(0, 3)) == 0:
            cfg['at'] = draw(st.sampled_from([1, 15, 60, 900, 3600]))
            cfg['off'] = draw(st.sampled_from([1, 15, 60, 900, 1800]))
            cfg['save'] = draw(st.sampled_from([60, 300, 900, 1800, 3600]))
    hi = 7620 if scope == 'complete' else 9900
    model = draw(M.databases(
        grain=grain, simple=scope == 'basic',
        fixed_save=scope != 'basic', max_zones=max_zones,
        max_policies=max_policies, max_links=max_links,
        hi_save=hi, era_hi_save=7200, **kw))
    cfg['compress'] = draw(st.booleans()) if compress is None else compress
    cfg['version'] = draw(st.sampled_from(
        ['2024a', '2024b', '2020f', '1999c', '2023z']))
    cfg['ns'] = draw(st.sampled_from(['zonedb', 'zonedbx', 'tdb2000']))
    return {'model': model, 'cfg': cfg,
            'style': draw(st.sampled_from([0, 0, 1, 2, 3, 99]))}


def files(case):
    return M.to_files(case['model'], case.get('style', 0))


@st.composite
def rough_policies(draw, model):
    """Adds rules that share a month, touch January 1, leave the year, or
    overlap, to the policies of a model (for checks that do not need
    well-ordered transitions)."""
    for name, rules in model['policies']:
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
            r = dict(draw(st.sampled_from(rules)))
            k = draw(st.integers(0, 5))
            if k == 0:
                r.update(month=1, on=draw(st.sampled_from(
                    [[0, 1], [7, 1], [7, -7], [3, -1], [3, -2], [3, -6],
                     [5, 7], [1, 2], [0, 2], [2, -8]])))
            elif k == 1:
                r.update(month=12, on=draw(st.sampled_from(
                    [[7, 25], [7, 26], [3, 31], [0, 31], [2, 0], [2, -31],
                     [7, 24], [6, -25]])))
            elif k == 2:
                r.update(on=draw(M.on_days()))
            elif k == 3:
                y = draw(st.integers(1890, 2090))
                r.update(frm=y, to=draw(st.sampled_from(
                    [y, y, y + 1, y + 10, 'max'])))
            elif k == 4:
                r.update(month=draw(st.integers(1, 12)))
            dow, dom = r['on']
            last = cal.dim(2001, r['month'])
            if abs(dom) > last:  # no such day in that month
                r['on'] = [dow, last if dom > 0 else -last]
            rules.insert(draw(st.integers(0, len(rules))), r)
    return model


def djb2(name):
    h = 5381
    for c in name:
        h = (h * 33 + ord(c)) & 0xffffffff
    return h


BORDER_DAYS = [(12, [0, 31]), (12, [0, 31]), (12, [0, 30]), (12, [7, 0]),
               (12, [2, -31]), (12, [5, 25]), (1, [0, 1]), (1, [0, 1]),
               (1, [0, 2]), (1, [7, 1]), (1, [3, 2]), (6, [0, 15])]
BORDER_TIMES = [86400, 90000, 93540, 0, 3600, 7200, 82800, 50400]


@st.composite
def _border_moment(draw, grain):
    m, on = draw(st.sampled_from(BORDER_DAYS))
    at = draw(st.sampled_from(BORDER_TIMES))
    if draw(st.integers(0, 3)) == 0:
        at = draw(M.at_times(grain['at']))
    return m, list(on), at, draw(st.sampled_from(['', 'w', 's', 'u', 'u']))


@st.composite
def borders(draw, scopes=('complete', 'extended')):
    """A source in which things happen next to the first and the last
    requested year: {'model', 'cfg'}."""
    scope = draw(st.sampled_from(list(scopes)))
    grain = M.FULL if scope == 'complete' else M.LOW
    a = draw(st.integers(1985, 2030))
    b = a + draw(st.sampled_from([1, 1, 2, 3, 8, 20]))
    cfg = P.config(scope=scope, start=a, until=b, base=2000,
                   strict=draw(st.booleans()))
    marks = [draw(st.sampled_from([a - 1, a - 1, a - 2, a])),
             draw(st.sampled_from([b - 1, b - 1, b, b, b + 1]))]
    offs = st.sampled_from([0, 3600, -36000, 50400, -43200, 19800, -12600])
    rules = [{'frm': a - 40, 'to': a - 40, 'month': 6, 'on': [0, 1], 'at': 0,
              'sfx': '', 'save': 0, 'letter': draw(M.LETTER)}]
    y, n = a - 4, 0
    while y <= b + 3:
        # at most one rule per border, so that any two stay months apart
        near = draw(st.integers(0, 2))
        if near:
            m, on, at, sfx = draw(_border_moment(grain))
            on = [0, 31] if m == 12 and on[0] and on[1] > 24 else on
            y2 = y
            if n and draw(st.integers(0, 3)) == 0:
                y2 = draw(st.sampled_from([y + 1, y + 2, y + 9, 'max']))
            n += 1
            rules.append({
                'frm': y, 'to': y2, 'month': m, 'on': on, 'at': at,
                'sfx': sfx, 'letter': draw(M.LETTER),
                'save': draw(st.sampled_from([0, 3600, 3600, 5400 if
                                              grain is M.FULL else 1800]))})
            if y2 == 'max':
                break
            y = y2
        y += draw(st.sampled_from([2, 2, 3, 5]))
    zones = []
    for name in ('Aa/Aa', 'Aa/Bb'):
        eras, last = [], None
        for y in sorted(draw(st.sets(st.sampled_from(
                [a - 9] + marks + [b + 6]), max_size=3))):
            if last is not None and y - last < 2:
                continue
            last = y
            u = {'y': y}
            if draw(st.integers(0, 6)):
                u['m'], u['on'], u['at'], u['sfx'] = draw(
                    _border_moment(grain))
            eras.append(u)
        zones.append([name, [{
            'off': draw(offs), 'until': u,
            'rules': {'policy': 'P'} if draw(st.booleans()) else None,
            'fmt': 'X%s'} for u in eras + [None]]])
        for e in zones[-1][1]:
            if e['rules'] is None:
                e['fmt'] = draw(M.FORMAT_FIXED)
    return {'model': {'policies': [['P', rules]], 'zones': zones,
                      'links': []}, 'cfg': cfg, 'style': 0}


# ---- databases of the size at which indexes, offsets and counts grow another
# digit, byte or bit; a case holds the dimensions only

BIG = [1, 2, 70, 130, 200, 257, 300, 520, 1030, 2050]
WORDS = ['Port', 'Santa', 'New', 'a', 'Isla', 'X', 'cape', 'Fort_']


@st.composite
def big(draw):
    scope = draw(st.sampled_from(SCOPES))
    cfg = P.config(scope=scope, start=1900, until=2105, base=2000,
                   compress=draw(st.booleans()))
    return {'cfg': cfg, 'big': {
        'zones': draw(st.sampled_from(BIG)),
        'links': draw(st.sampled_from([0] + BIG)),
        'policies': draw(st.sampled_from([1, 3, 70, 130, 200, 254])),
        'rules': draw(st.sampled_from([1, 2, 10, 60, 130, 200, 253])),
        'eras': draw(st.sampled_from([1, 2, 5, 60, 130, 199])),
        'letters': draw(st.sampled_from([1, 20, 55, 130, 253])),
        'formats': draw(st.sampled_from([1, 30, 130, 260, 700, 1500])),
        'regions': draw(st.sampled_from([1, 5, 15, 30])),
        'pad': draw(st.sampled_from([0, 6, 25]))}}


def _name(i, d):
    w = WORDS[i % 7 % len(WORDS)]
    return (f'Region{i % d["regions"]:02d}/{w}{i:04d}'
            + 'long_name_of_a_small_island'[:d['pad']])


def big_model(d, cfg):
    """The source with these dimensions (total size limited)."""
    low = cfg['scope'] != 'complete'
    basic = cfg['scope'] == 'basic'
    npol, nrul = d['policies'], d['rules']
    while npol * nrul > 4000:
        nrul = nrul * 2 // 3
    nz, nl, ne = d['zones'], d['links'], d['eras']
    while nz + nl > 2200:
        nl = nl * 2 // 3
    alpha = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123'
    letters = list(alpha[:d['letters']]) if d['letters'] < 60 else [
        alpha[i // 50] + alpha[i % 50] for i in range(d['letters'])]
    pols, k = [], 0
    for p in range(npol):
        rules = [{'frm': 1901, 'to': 1901, 'month': 2, 'on': [0, 3], 'at': 0,
                  'sfx': '', 'save': 0, 'letter': letters[k % len(letters)]}]
        for i in range(nrul):
            k += 7 if len(letters) % 7 else 1
            y = 1903 + i % 197
            rules.append({
                'frm': y, 'to': y, 'month': 4 if i < 197 else 10,
                'on': [0, 5 + k % 20], 'at': 900 * (k % 12) + (
                    0 if low else k % 60), 'sfx': ['', 's', 'u'][
                        0 if basic else k % 3],
                'save': 0 if i % 2 else 3600,
                'letter': letters[k % len(letters)]})
        pols.append([f'Pol{p}', rules])
    zones, k = [], 0
    step = max(1, 199 // ne)
    left = max(4500, nz)
    for z in range(nz):
        # long and short zones, so that all of them together stay small
        n = min(ne if z % 9 == 0 or ne < 6 else 1 + z % 3,
                max(1, left - (nz - z)))
        left -= n
        eras = []
        for i in range(n):
            k += 1
            f = k % d['formats']
            kind = k % 3
            rules, fmt = None, f'F{f}T'
            if kind == 0:
                rules, fmt = {'policy': f'Pol{(z + i) % npol}'}, f'F{f}%sT'
            elif kind == 1 and not basic:
                rules = {'save': 1800 if k % 2 else -900}
            u = {'y': 1901 + i * step}
            if not basic and k % 4:
                u.update(m=1 + k % 11, on=[0, 1 + k % 28],
                         at=60 * (k % 1500), sfx=['', 's', 'u'][k % 3])
            eras.append({'off': 900 * (k % 90 - 45) + (
                0 if low else k % 31), 'rules': rules, 'fmt': fmt,
                'until': None if i == n - 1 else u})
        zones.append([_name(z, d), eras])
    # every policy is used
    used = {e['rules']['policy'] for _, es in zones for e in es
            if e['rules'] and 'policy' in e['rules']}
    free = [p for p, _ in pols if p not in used]
    for z, p in zip(zones, free):
        z[1][-1].update(rules={'policy': p}, fmt='G%s')
    links = [[_name(nz + i, d), zones[(i * 31 + 17) % nz][0]]
             for i in range(nl)]
    return {'policies': pols, 'zones': zones, 'links': links}


def _big_cases(key, values):
    """Six per value that between them cross all bounds."""
    out = []
    for k, v in enumerate(values):
        for i, (z, li, p, r, e, le, f, n, c) in enumerate([
                (1030, 1030, 130, 30, 5, 55, 1500, 30, 1),
                (300, 130, 254, 10, 130, 253, 700, 5, 0),
                (2050, 70, 70, 60, 2, 20, 260, 15, 0),
                (130, 2050, 3, 253, 199, 130, 1500, 30, 1),
                (70, 520, 200, 2, 60, 55, 1500, 1, 1),
                (520, 257, 254, 10, 5, 55, 300, 30, 0)]):
            if i == 5 and k:
                continue
            scope = SCOPES[[0, 0, 1, 1, 0, 2][i]]
            out.append({'cfg': P.config(
                scope=scope, start=1900, until=2105, base=2000,
                compress=bool(c)), 'big': {
                    'zones': z, 'links': li, 'policies': p, 'rules': r,
                    'eras': e, 'letters': le, 'formats': f, 'regions': n,
                    'pad': [6, 0, 0, 25, 25, 6][i]}, key: v})
    return out


def expanded(fn):
    """A check of cases which say how big the source is."""
    def run(case, rec):
        rec.label('big')
        return fn(dict(case, model=big_model(case['big'], case['cfg'])), rec)
    return run


def big_part(fn, key='lang', values=(None,), thorough=160):
    """A part which runs a check on big sources, with each of the values of
    one more key of its cases."""
    def strategy():
        return st.builds(lambda c, v: dict(c, **{key: v}), big(),
                         st.sampled_from(list(values)))
    return Part('big', strategy, expanded(fn), 0, thorough,
                cases=lambda tier: _big_cases(key, values))
