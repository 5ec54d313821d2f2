"""B02: the buffer-size estimate is the true maximum over the years."""
from hypothesis import strategies as st

from vlib import canon, decode, gen, model as M, outs, pipeline as P
from vlib.harness import Part, Violation, decoding, require, same

RULE = (
    'Random sources are compiled and given to the estimator over a stand-in '
    'of the zone processor (the real one is not installed). The stand-in '
    'plays a random schedule of sizes per zone and year with its peak '
    'anywhere, also in the first, last and marginal years, and a random '
    'terminal year from which the sizes repeat; or it derives the sizes '
    'from the zone data. Expected: the maximum over every year of the '
    'widened range by brute force, its first year, the overall maximum, and '
    'an error exactly if that is above 8 and not ignored; and every zone the '
    'processor is given equals the compiled zone. Non-trivial: two zones, '
    'and a peak that is not in the first year.')
ASSUMPTIONS = ['the processor\'s contract: sizes are constant from two years '
               'after a terminal year']


@st.composite
def case(draw):
    cfg = draw(gen.configs(grains=True))
    # values that the granularity truncates
    fine = draw(st.booleans())
    if fine:
        cfg['strict'] = False
    hi = cfg['until'] + 3
    model = draw(M.databases(
        grain=M.FULL if fine else M.LOW,
        simple=cfg['scope'] == 'basic', fixed_save=cfg['scope'] != 'basic',
        max_zones=4, max_policies=3, max_links=1, hi_save=7200,
        era_hi_save=7200))
    cfg['ignore_buf'] = draw(st.booleans())
    scripts = {}
    top = draw(st.sampled_from([5, 8, 8, 9, 12]))
    for name, _ in model['zones']:
        if draw(st.integers(0, 4)) == 0:
            continue        # sizes from the zone data
        lo = draw(st.sampled_from([cfg['start'] - 2, cfg['start'] - 40]))
        years = draw(st.lists(st.one_of(
            st.integers(lo, hi), st.sampled_from(
                [cfg['start'] - 1, cfg['start'], cfg['until'] - 1,
                 cfg['until'], cfg['until'] + 1])), min_size=1, max_size=6))
        base = [draw(st.integers(0, 3)), draw(st.integers(1, 4))]
        scripts[name] = {
            'base': base,
            'terminal': draw(st.one_of(
                st.integers(lo - 3, hi), st.sampled_from(
                    [hi, hi + 50, -40000, cfg['start'] - 1, cfg['start'],
                     cfg['until'] - 2]))),
            'years': {str(y): [draw(st.integers(0, top + 2)),
                               draw(st.integers(1, top))] for y in years}}
    return {'model': model, 'cfg': cfg, 'scripts': scripts,
            'style': draw(st.sampled_from([0, 1]))}


def stub():
    from acetime import zone_processor
    return zone_processor


def brute(sizes, lo, hi):
    """(largest buffer, first year) over [lo, hi)."""
    best, when = 0, 0
    for y in range(lo, hi):
        n = sizes(y)[1]
        if n > best:
            best, when = n, y
    return best, when


def fn(case, rec):
    from acetimetools.bufestimator.bufestimator import BufSizeEstimator
    cfg = case['cfg']
    S = stub()
    try:
        t = P.transform(outs.source(case), cfg)
    except P.Refused:
        rec.label('refused')
        return
    if not t.zones_map:
        rec.label('no zone left')
        return
    zones, policies = canon.from_tresult(t)
    before = [repr(t.zones_map), repr(t.policies_map)]
    S.CALLS.clear()
    S.SEEN.clear()
    S.SCRIPT.clear()
    S.SCRIPT.update(case['scripts'])
    error = None
    try:
        with P.subject('buffer estimator'):
            BufSizeEstimator(
                start_year=cfg['start'], until_year=cfg['until'],
                ignore_buf_size_too_large=cfg['ignore_buf']).transform(t)
    except P.Refused as e:
        error = e
    finally:
        S.SCRIPT.clear()
    same([repr(t.zones_map), repr(t.policies_map)], before,
         'the compiled data after the estimate')

    # what the processor was given
    same(sorted(S.SEEN), sorted(zones), 'zones given to the processor')
    with decoding('zones given to the processor'):
        for n, info in S.SEEN.items():
            eras = []
            for e in info['eras']:
                pol = e['zone_policy']
                eras.append(decode.py_era(e, pol['name'] if pol else None))
                if pol:
                    want = [{k: v for k, v in r.items() if k != 'std'}
                            for r in policies[pol['name']]]
                    same([decode.py_rule(r) for r in pol['rules']], want,
                         f'rules of {pol["name"]} given to the processor')
            same(eras, zones[n], f'eras of {n} given to the processor')

    lo = min(t.generated_min_year, cfg['start']) - 1
    hi = max(t.generated_max_year + 1, cfg['until']) + 1
    want, last = {}, 0
    for n, info in S.SEEN.items():
        sc = case['scripts'].get(n)

        def sizes(y):
            return S.scripted(sc, y) if sc else S.sizes_for_year(info, y)
        term = sc['terminal'] if sc else S.terminal_year(info)
        want[n] = brute(sizes, lo, hi)
        last = max(last, min(max(term + 2, lo), hi - 1))
        rec.label('peak ' + ('first' if want[n][1] == lo else 'last'
                             if want[n][1] == hi - 1 else 'inside'))
    top = max(b for b, _ in want.values())
    if hi > 9999:
        rec.label('years beyond 9999')
    rec.nontrivial(len(want) > 1 and any(y > lo for _, y in want.values()))
    if top > 8 and not cfg['ignore_buf']:
        require(error is not None, f'a buffer of {top} was accepted')
        rec.label('too large')
        return
    if error is not None:
        raise Violation(f'refused though the largest buffer is {top}: '
                        f'{error}')
    same({n: tuple(b) for n, b in t.buf_sizes.items()}, want,
         'buffer size and first year')
    same(t.max_buf_size, top, 'largest buffer')
    same(t.estimator_min_year, lo + 1, 'first year of the estimate')
    same(t.estimator_max_year, last, 'last year of the estimate')


def anywhere():
    """Some of the cases in other millennia, with their schedules."""
    def move(c, by):
        d = gen.shifted(c, by) if by else c
        k = d['cfg']['start'] - c['cfg']['start']
        if k:
            for sc in d['scripts'].values():
                sc['terminal'] += k
                sc['years'] = {str(int(y) + k): v
                               for y, v in sc['years'].items()}
        return d
    return st.builds(move, case(), st.sampled_from(
        [0] * 36 + gen.ERAS + [['last', 0], ['last', 1], ['last', -2],
                               ['last', -5], ['last', -30], ['first', 0]]))


PARTS = [Part('schedules', anywhere, fn, 2400, 60000)]
