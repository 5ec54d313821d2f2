"""T01: compilation preserves local time over the requested years."""
from hypothesis import strategies as st

from vlib import canon, corpus, gen, model as M, pipeline as P, tzeval
from vlib.harness import Part, require
from vlib.expect import parse_model

RULE = (
    'Random sources (zones with up to 6 eras, policies with up to 6 blocks of '
    'rules, all ON forms, suffixes, offsets, shifts), sources with UNTILs and '
    'rules next to the first and the last requested year, and the real TZDB, '
    'each '
    'compiled for a random scope, year range, granularity and strictness; '
    'every kept zone is evaluated before and after by an independent '
    'evaluator and compared at every instant of the requested years. '
    'Non-trivial: at least one kept zone has two or more transitions in the '
    'years compared, and the compiler dropped at least one era or rule.')
ASSUMPTIONS = [
    'the evaluator (vlib/tzeval.py) gives the meaning of TZDB lines; it was '
    'validated against zic 1901-2037 on the whole TZDB and random sources '
    '(tools/validate_ref.py)']


def describe(segs):
    out = []
    for t, off, save, ab in segs[:12]:
        out.append(f'{t}: {off}/{save}/{ab}')
    return '; '.join(out)


def compare(name, src, dst, a, b):
    if src == dst:
        return
    n = 0
    while n < min(len(src), len(dst)) and src[n] == dst[n]:
        n += 1
    require(False, f'zone {name} differs in [{a}, {b}) at segment {n}:\n'
            f'  source   {describe(src[max(0, n - 1):])}\n'
            f'  compiled {describe(dst[max(0, n - 1):])}')


def no_letter(eras, pols):
    """A policy without standard time has no initial letter."""
    return any(e['policy'] and not any(r['std'] for r in pols[e['policy']])
               for e in eras)


def check(model, cfg, files, rec, names=None):
    try:
        t = P.transform(files, cfg)
    except P.Refused:
        rec.label('refused')
        return
    grain = gen.grain_of(cfg)
    src_z, src_p = canon.zones(model, grain), canon.policies(model, grain)
    dst_z, dst_p = canon.from_tresult(t)
    a, b = cfg['start'], cfg['until']
    moves = 0
    dropped = 0
    for name, eras in sorted(dst_z.items()):
        if names is not None and name not in names:
            continue
        src = tzeval.in_years(src_z[name], src_p, a, b)
        dst = tzeval.in_years(eras, dst_p, a, b)
        if no_letter(src_z[name], src_p):
            src = [s[:3] + ('',) for s in src]
            dst = [s[:3] + ('',) for s in dst]
        compare(name, src, dst, a, b)
        moves = max(moves, len(src))
        dropped += len(src_z[name]) - len(eras)
    for p, rules in dst_p.items():
        dropped += len(src_p[p]) - len(rules) + 1
    rec.nontrivial(moves >= 3 and dropped > 0)
    rec.label(f'{cfg["scope"]}', 'zones kept' if dst_z else 'no zone kept')


def random_case():
    @st.composite
    def s(draw):
        cfg = draw(gen.configs(grains=True))
        basic = cfg['scope'] == 'basic'
        grain = draw(st.sampled_from([M.FULL, M.LOW])) \
            if cfg['strict'] else M.RAW
        if basic and draw(st.integers(0, 3)):
            model = draw(M.databases(grain=grain, simple=True,
                                     fixed_save=False, max_zones=4))
        else:
            model = draw(M.databases(grain=grain, max_zones=4))
        for p in model['policies']:
            if draw(st.integers(0, 2)) == 0:
                p[1] = draw(M.dense_policies(grain=grain))
        return {'model': model, 'cfg': cfg,
                'style': draw(st.sampled_from([0, 0, 1, 2]))}
    return s()


def border_case():
    return gen.borders()


def random_fn(case, rec):
    check(case['model'], case['cfg'], gen.files(case), rec)


_REAL = []


def real():
    if not _REAL:
        files = corpus.to_files()
        _REAL.extend([files, parse_model(files)])
    return _REAL


def prepare(tier):
    real()


def real_case():
    @st.composite
    def s(draw):
        cfg = draw(gen.configs(strict=False, lo=1850))
        a, b = cfg['start'], cfg['until']
        if draw(st.integers(0, 2)) == 0:
            cfg['until'] = min(a + draw(st.integers(1, 12)), b)
        return {'cfg': cfg}
    return s()


def real_fn(case, rec):
    files, model = real()
    check(model, case['cfg'], files, rec)


PARTS = [Part('random', gen.anywhere(random_case), random_fn, 2400, 60000),
         Part('borders', gen.anywhere(border_case), random_fn, 2400, 60000),
         Part('tzdb', real_case, real_fn, 96, 3000)]
