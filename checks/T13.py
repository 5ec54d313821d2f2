"""T13: conditional days resolve to the right calendar day."""

from hypothesis import strategies as st

from vlib import cal, gen, harness, model as M, pipeline as P
from vlib.harness import Part, require, same

RULE = (
    'Every form of day (d, lastDow, Dow>=d, Dow<=d with every weekday and '
    'every limit that exists in the month) in random months of years 1 to '
    '9998, as the UNTIL of a zone and as the ON of a rule, resolved by an '
    'independent calendar; days that leave the year must be refused with a '
    'reason, and so must malformed days and days that no such month has. Part '
    '"every year" does so for the days around the end of each February. The '
    'resolver is also called directly. Non-trivial: the day moves to another '
    'month or year, does not exist, or the month is February.')


def limits(y, m):
    return cal.dim(y, m)


@st.composite
def day(draw, y, m):
    top = limits(y, m)
    k = draw(st.integers(0, 5))
    dow = draw(st.integers(1, 7))
    if k == 0:
        return [0, draw(st.integers(1, top))]
    if k == 1:
        return [dow, 0]
    edge = draw(st.booleans())
    if k in (2, 3):
        return [dow, draw(st.integers(top - 7, top) if edge
                          else st.integers(1, top))]
    return [dow, -draw(st.integers(1, 8) if edge else st.integers(1, top))]


def until_case():
    @st.composite
    def s(draw):
        y = draw(st.one_of(st.integers(1995, 2060), st.integers(1800, 2400),
                           st.integers(2, 9998),
                           st.sampled_from([1900, 2000, 2100, 1600, 2096])))
        m = draw(st.one_of(st.integers(1, 12), st.sampled_from([1, 12, 2])))
        return {'y': y, 'm': m, 'on': draw(day(y, m)),
                'at': draw(st.sampled_from([0, 3600, 86400]))}
    return s()


def until_fn(case, rec):
    y, m, on = case['y'], case['m'], case['on']
    model = {'zones': [['Etc/Stay', [{'off': 0, 'rules': None, 'fmt': 'X',
                                      'until': None}]],
                       ['Etc/Move', [
                           {'off': 0, 'rules': None, 'fmt': 'A', 'until': {
                               'y': y, 'm': m, 'on': on, 'at': case['at'],
                               'sfx': ''}},
                           {'off': 3600, 'rules': None, 'fmt': 'B',
                            'until': None}]]],
             'policies': [], 'links': []}
    cfg = P.config('complete', start=y - 1 if y > 2 else 1, until=y + 1)
    want = cal.civil(cal.on_day(y, m, on[0], on[1]))
    try:
        t = P.transform(M.to_files(model), cfg)
    except P.Refused as e:
        require(want[0] != y, f'UNTIL {y} {m} {M.fmt_on(on)} refused: {e}')
        rec.nontrivial()
        return
    require(want[0] == y, f'UNTIL {y} {m} {M.fmt_on(on)} is not refused, '
            f'although it leaves the year')
    e = t.zones_map['Etc/Move']['eras'][0]
    same((e['until_year'], e['until_month'], e['until_day']), want,
         f'UNTIL {y} {m} {M.fmt_on(on)}')
    rec.nontrivial(want[1] != m or m == 2)
    # The note tells a moved month, and only that.
    moved = [n for n in t.notable_zones.get('Etc/Move', [])
             if 'shifted' in n]
    require(bool(moved) == (want[1] != m), f'notes {moved} for a day that '
            f'moves from month {m} to {want[1]}')


def basic_fn_reason(case, rec):
    """Scope basic reports the zone or policy instead of failing."""
    y, m, on = case['y'], case['m'], case['on']
    rules = [{'frm': y - 5, 'to': y - 5, 'month': 6, 'on': [0, 1], 'at': 0,
              'sfx': '', 'save': 0, 'letter': '-'},
             {'frm': y, 'to': y + 3, 'month': m, 'on': on,
              'at': case['at'], 'sfx': '', 'save': 3600, 'letter': 'D'},
             {'frm': y, 'to': y + 3, 'month': (m + 3) % 12 + 1,
              'on': [0, 9], 'at': 0, 'sfx': '', 'save': 0, 'letter': 'S'}]
    model = {'zones': [['Etc/Stay', [{'off': 0, 'rules': None, 'fmt': 'X',
                                      'until': None}]],
                       ['Etc/Move', [{
                           'off': 0, 'rules': {'policy': 'Pol'}, 'fmt': 'A%s',
                           'until': None}]]],
             'policies': [['Pol', rules]], 'links': []}
    dow, dom = on
    leaves = bool(dow and dom and (
        (m == 1 and -7 < dom < 0) or (m == 12 and dom >= 26)))
    jan1 = m == 1 and (on == [0, 1] or (dow and dom in (1, -7)))
    t = P.transform(M.to_files(model), P.config(
        'basic', start=y, until=y + 2, base=y))
    kept = 'Pol' in t.policies_map
    same(kept, not leaves and not jan1,
         f'policy with ON {m} {M.fmt_on(on)} is kept')
    if kept:
        r = t.policies_map['Pol']['rules'][2]
        same((r['in_month'], r['on_day_of_week'], r['on_day_of_month']),
             (m, dow, dom), f'ON {m} {M.fmt_on(on)}')
    else:
        require(any(t.removed_policies.get('Pol', [])), 'no reason given')
        require(any(t.removed_zones.get('Etc/Move', [])), 'no reason given')
    # In the widest scope, it is either kept as written or an error.
    try:
        t = P.transform(M.to_files(model), P.config(
            'complete', start=y, until=y + 2))
    except P.Refused as e:
        require(leaves, f'ON {m} {M.fmt_on(on)} is refused: {e}')
    else:
        require(not leaves, f'ON {m} {M.fmt_on(on)} is accepted')
        r = t.policies_map['Pol']['rules'][2]
        same((r['in_month'], r['on_day_of_week'], r['on_day_of_month']),
             (m, dow, dom), f'ON {m} {M.fmt_on(on)}')
    rec.nontrivial(leaves or jan1 or m in (1, 2, 12))


def on_case():
    @st.composite
    def s(draw):
        c = draw(until_case().filter(lambda c: 1900 < c['y'] < 2400))
        return c
    return s()


def direct_cases(tier):
    years = [1, 4, 100, 400, 1582, 1899, 1900, 1970, 1999, 2000, 2004, 2100,
             2400, 3200, 4000, 8000, 9998] + (list(range(1995, 2030)) if tier == 'quick'
                            else list(range(1850, 2200)))
    for y in years:
        for m in range(1, 13):
            yield {'y': y, 'm': m}


def direct_fn(case, rec):
    f = harness.internal('transformer.transformer', 'calc_day_of_month', 4)
    if not f:
        return          # the name is internal
    y, m = case['y'], case['m']
    top = limits(y, m)
    for dow in range(1, 8):
        for dom in range(-top, top + 1):
            n = cal.on_day(y, m, dow, dom)
            wy, wm, wd = cal.civil(n)
            if wy > y:
                wm = 13
            elif wy < y:
                wm = 0
            with P.subject('calc_day_of_month'):
                got = f(y, m, dow, dom)
            same(tuple(got), (wm, wd),
                 f'calc_day_of_month({y}, {m}, {dow}, {dom})')
    for dom in range(1, top + 1):
        with P.subject('calc_day_of_month'):
            got = f(y, m, 0, dom)
        same(tuple(got), (m, dom), f'calc_day_of_month({y}, {m}, 0, {dom})')
    rec.nontrivial()


FEB = [[7, 0], [4, 0], [7, 29], [1, 23], [6, -29], [5, 28]]


def century_cases(tier):
    return [{'y': y} for y in range(1, 9998, 50)]


def century_fn(case, rec):
    """An UNTIL at the end of February, or just after it, of each year."""
    years = [y for y in range(case['y'], case['y'] + 50) if 1 < y < 9999]
    days = {}
    for i, on in enumerate(FEB + [[7, -6], [2, -1]]):
        m = 2 if i < len(FEB) else 3
        days[f'Etc/Z{i}'] = [(y, m, on) for y in years
                             if abs(on[1]) <= cal.dim(y, m)]
    model = {'zones': [[n, [
        {'off': 0, 'rules': None, 'fmt': 'A', 'until': {
            'y': y, 'm': m, 'on': on, 'at': 0, 'sfx': ''}}
        for y, m, on in d] + [
            {'off': 0, 'rules': None, 'fmt': 'B', 'until': None}]]
        for n, d in days.items()], 'policies': [], 'links': []}
    t = P.transform(M.to_files(model), P.config(
        'complete', start=years[0], until=years[-1] + 1))
    for n, d in days.items():
        eras = t.zones_map[n]['eras']
        for (y, m, on), e in zip(d, eras):
            same((e['until_year'], e['until_month'], e['until_day']),
                 cal.civil(cal.on_day(y, m, on[0], on[1])),
                 f'UNTIL {y} {m} {M.fmt_on(on)}')
    rec.nontrivial()


def bad_case():
    @st.composite
    def s(draw):
        y = draw(st.one_of(st.integers(1901, 2200),
                           st.sampled_from([1900, 2000, 2100, 2023, 2024])))
        m = draw(st.one_of(st.integers(1, 12), st.sampled_from([2, 2, 4])))
        until = draw(st.booleans())
        top = limits(y if until else 2000, m)
        dow = M.DAYS[draw(st.integers(1, 7)) - 1]
        d = draw(st.one_of(st.integers(top + 1, 35), st.integers(32, 400),
                           st.sampled_from([0, top + 1, top + 1])))
        word = draw(st.one_of(
            st.sampled_from([f'{d}', f'{dow}>={d}', f'{dow}<={d}']),
            st.sampled_from([
                f'{dow}>=-3', f'{dow}<=-3', f'{dow}>=', f'{dow}<=', dow,
                f'{dow}>5', f'{dow}=5', f'{dow}<5', f'{dow}=>5', '>=5', '<=5',
                'last', 'lastXyz', 'Xyz>=5', 'Xyz<=5', f'{dow}>=x',
                f'{dow}<=5x', '5x', 'x', '-5', '+5', '1.5', '-'])))
        return {'y': y, 'm': m, 'word': word, 'until': until}
    return s()


def bad_fn(case, rec):
    """A day that cannot be resolved is refused with a reason."""
    y, word = case['y'], case['word']
    mon = M.MONTHS[case['m'] - 1]
    zones = 'Zone\tEtc/Stay\t0:00\t-\tX\n'
    if case['until']:
        zones += (f'Zone\tEtc/Move\t1:00\t-\tA\t{y}\t{mon}\t{word}\n'
                  '\t\t2:00\t-\tB\n')
    else:
        zones += (f'Rule\tPol\t{y - 1}\tonly\t-\tJun\t1\t0\t0\t-\n'
                  f'Rule\tPol\t{y}\t{y + 2}\t-\t{mon}\t{word}\t0\t1:00\tD\n'
                  f'Rule\tPol\t{y}\t{y + 2}\t-\t'
                  f'{M.MONTHS[(case["m"] + 3) % 12]}\t9\t0\t0\tS\n'
                  'Zone\tEtc/Move\t1:00\tPol\tA%sT\n')
    files = {n: '' for n in M.FILES}
    files['europe'] = zones
    for scope in ('complete', 'extended'):
        try:
            P.transform(files, P.config(scope, start=y, until=y + 2, base=y))
        except P.Refused:
            pass
        else:
            require(False, f'{scope}: {mon} {word} in {y} is accepted')
    t = P.transform(files, P.config('basic', start=y, until=y + 2, base=y))
    same(sorted(t.zones_map), ['Etc/Stay'], f'zones kept beside {mon} {word}')
    require(any(t.removed_zones.get('Etc/Move', [])), 'no reason given')
    if not case['until']:
        require(any(t.removed_policies.get('Pol', [])), 'no reason given')
    rec.nontrivial()


PARTS = [Part('until', until_case, until_fn, 4000, 80000),
         Part('on', on_case, basic_fn_reason, 2400, 50000),
         Part('bad days', bad_case, bad_fn, 1200, 20000),
         Part('every year', None, century_fn, 0, 0, cases=century_cases),
         Part('direct', None, direct_fn, 0, 0, cases=direct_cases)]
