"""T03: fields are converted exactly and truncated only as requested."""
from hypothesis import strategies as st

from vlib import canon, expect, gen, harness, model as M, pipeline as P
from vlib.harness import Part, require, same

RULE = (
    'Random sources whose times, offsets and shifts have any number of '
    'seconds, compiled with random granularities, strict and nostrict; each '
    'retained field is compared with the source value and its truncation '
    'toward zero, and the records removed under strict with those off the '
    'grid. A second part does the same to the conversion functions on raw '
    'integers and strings. Non-trivial: some retained field was truncated or '
    'some record was off the grid.')


def case():
    @st.composite
    def s(draw):
        scope = draw(st.sampled_from(['basic', 'complete', 'extended']))
        cfg = draw(gen.configs([scope], grains=True,
                               strict=draw(st.sampled_from(
                                   [True, False, False]))))
        if draw(st.integers(0, 2)):
            # three different granularities
            cfg['at'], cfg['off'], cfg['save'] = draw(st.sampled_from([
                (60, 900, 3600), (900, 60, 1800), (1, 3600, 60),
                (3600, 1, 900), (1800, 900, 60), (15, 7, 3600),
                (60, 3600, 900), (900, 1800, 1), (1, 60, 900),
                (60, 1, 1800), (7, 1800, 3600), (5400, 900, 1800)]))
        grain = draw(st.sampled_from(
            [M.RAW, M.RAW, M.RAW, M.FULL, M.LOW, {'at': 900, 'off': 900,
                                                  'save': 1800}]))
        return {'model': draw(M.databases(
            grain=grain, offset_limit=25, max_zones=4, max_eras=3,
            max_policies=2, lo_save=-4500, hi_save=11700,
            era_hi_save=20000, fixed_save=scope != 'basic',
            simple=scope == 'basic')), 'cfg': cfg}
    return s()


def fn(case, rec):
    model, cfg = case['model'], case['cfg']
    o = expect.outcome(model, cfg)
    try:
        t = P.transform(gen.files(case), cfg)
    except P.Refused as e:
        require(o.raises, f'refused: {e}')
        rec.nontrivial(cfg['strict'])
        rec.label('refused ' + str(o.raises))
        return
    require(not o.raises, f'not refused: {o.raises}')
    same(set(t.zones_map), set(o.zones), 'zones kept')
    same(set(t.policies_map), set(o.policies), 'policies kept')
    g = gen.grain_of(cfg)
    cut = 0
    for n, eras in o.zones.items():
        got = t.zones_map[n]['eras']
        same(len(got), len(eras), f'eras of {n}')
        for i, (e, x) in enumerate(zip(got, eras)):
            w = f'{n} era {i}'
            same(e['offset_seconds'], x['off'], f'{w} offset_seconds')
            same(e['offset_seconds_truncated'],
                 canon.trunc(x['off'], g['off']), f'{w} offset truncated')
            save = (x['rules'] or {}).get('save', 0)
            same(e['era_delta_seconds'], save, f'{w} era_delta_seconds')
            same(e['era_delta_seconds_truncated'],
                 canon.trunc(save, g['save']), f'{w} era delta truncated')
            at = (x['until'] or {}).get('at', 0)
            same(e['until_seconds'], at, f'{w} until_seconds')
            same(e['until_seconds_truncated'], canon.trunc(at, g['at']),
                 f'{w} until truncated')
            cut += (x['off'] % g['off'] != 0) + (save % g['save'] != 0) \
                + (at % g['at'] != 0)
    rules = dict(model['policies'])
    for n, keep in o.policies.items():
        got = t.policies_map[n]['rules']
        got = [r for r in got if not r.get('anchor')]
        want = [rules[n][i] for i in expect.beside_anchor(
            rules[n], cfg['start'], cfg['until'])]
        cut += sum(rules[n][i]['at'] % g['at'] != 0
                   or rules[n][i]['save'] % g['save'] != 0 for i in keep)
        same(len(got), len(want), f'rules of {n}')
        for i, (r, x) in enumerate(zip(got, want)):
            w = f'{n} rule {i}'
            same(r['at_seconds'], x['at'], f'{w} at_seconds')
            same(r['at_seconds_truncated'], canon.trunc(x['at'], g['at']),
                 f'{w} at truncated')
            same(r['delta_seconds'], x['save'], f'{w} delta_seconds')
            same(r['delta_seconds_truncated'],
                 canon.trunc(x['save'], g['save']), f'{w} delta truncated')
            same(r['at_time_suffix'], x['sfx'] or 'w', f'{w} suffix')
    # under strict, no kept record is off the grid
    require(not (cfg['strict'] and cut),
            'a record off the granularity was kept under strict')
    for n, why in o.removed_zones.items():
        require(any(t.removed_zones.get(n, [])), f'{n}: no reason, {why}')
    for n, why in o.removed_policies.items():
        require(any(t.removed_policies.get(n, [])), f'{n}: no reason, {why}')
    rec.nontrivial(cut > 0 or any(
        'granularity' in w for w in list(o.removed_zones.values())
        + list(o.removed_policies.values())))
    rec.label('strict' if cfg['strict'] else 'nostrict')


def conv_case():
    return st.fixed_dictionaries({
        'v': st.one_of(st.integers(-25 * 3600 - 3599, 25 * 3600 + 3599),
                       st.integers(-10**9, 10**9)),
        'g': st.one_of(st.sampled_from([1, 15, 60, 900, 1800, 3600]),
                       st.integers(1, 5000)),
        'style': st.integers(0, 50)})


def helper(name, nargs):
    return harness.internal('transformer.transformer', name, nargs)


def conv_fn(case, rec):
    v, g = case['v'], case['g']
    with P.subject('conversion'):
        q = abs(v) // g
        todo = [('truncate_to_granularity', (v, g), canon.trunc(v, g)),
                ('div_to_zero', (v, g), q if v >= 0 else -q)]
        if abs(v) < 26 * 3600:
            text = M.fmt_time(v, M.Style(case['style']))
            todo.append(('time_string_to_seconds', (text,), v))
            if v >= 0:
                hms = (v // 3600, v // 60 % 60, v % 60)
                todo += [('seconds_to_hms', (v,), hms),
                         ('hms_to_seconds', hms, v)]
        for name, args, want in todo:
            f = helper(name, len(args))
            if f:
                same(f(*args), want, f'{name}{args}')
    rec.nontrivial(v % g != 0)


BAD = ['26:00', '-26:00', '1:60', '1:2:60', '1:2:3:4', 'abc', '1:', ':30',
       '1:-30', '--1', '', '-', '1::2', '99:00', '1:2:-3', 'max', '1.5',
       '25:60', '100', '1_0:00', '1:0_5', '1:00:0_1', '１:00', '1:３0',
       '-٢:00', '1_2', '0x2:00', '1e1:00', '2 :00:x']


def bad_cases(tier):
    return BAD


def bad_fn(case, rec):
    from acetimetools.transformer import transformer as T
    f = helper('time_string_to_seconds', 1)
    if not f or not hasattr(T, 'INVALID_SECONDS'):
        return
    with P.subject('time_string_to_seconds'):
        same(f(case), T.INVALID_SECONDS, f'time_string_to_seconds({case!r})')
    rec.nontrivial()


PARTS = [Part('fields', case, fn, 2400, 50000),
         Part('conversions', conv_case, conv_fn, 8000, 200000),
         Part('malformed', None, bad_fn, 0, 0, cases=bad_cases)]
