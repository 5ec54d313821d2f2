"""T09: a narrower year range agrees with a wider one."""
from hypothesis import strategies as st

from checks.T01 import compare
from vlib import canon, corpus, gen, model as M, pipeline as P, tzeval
from vlib.harness import Part, require, same

RULE = (
    'A random source, a source with UNTILs and rules next to the ends of the '
    'inner range, or the real TZDB, is compiled twice: for a range of '
    'years and for a range inside it, with the same other settings; local '
    'time of every zone both keep is compared over the inner range, and '
    'identifiers must be equal. Scopes extended and complete must keep the '
    'same zones. Non-trivial: the inner compilation keeps fewer eras or '
    'rules, and some compared zone has a transition in the inner range.')
ASSUMPTIONS = ['both results are read by vlib/tzeval.py']


@st.composite
def inner(draw, cfg):
    a, b = cfg['start'], cfg['until']
    c = draw(st.integers(a, b - 1))
    d = draw(st.integers(c + 1, min(b, c + draw(
        st.sampled_from([1, 2, 10, 200])))))
    return [c, d]


def check(files, case, rec, must=False):
    cfg = case['cfg']
    c, d = case['inner']
    try:
        wide = P.transform(files, cfg)
    except P.Refused as e:
        require(not must, f'refused: {e}')
        rec.label('refused')
        return
    try:
        narrow = P.transform(files, dict(cfg, start=c, until=d))
    except P.Refused as e:
        require(False, f'[{c}, {d}) refused although '
                f'[{cfg["start"]}, {cfg["until"]}) compiles: {e}')
    wz, wp = canon.from_tresult(wide)
    nz, np = canon.from_tresult(narrow)
    if cfg['scope'] != 'basic':
        same(set(nz), set(wz), 'zones of the narrower range')
        same(dict(narrow.links_map), dict(wide.links_map),
             'links of the narrower range')
    moves = 0
    for n in sorted(set(wz) & set(nz)):
        x = tzeval.in_years(wz[n], wp, c, d)
        y = tzeval.in_years(nz[n], np, c, d)
        compare(n, x, y, c, d)
        moves = max(moves, len(x))
        same(narrow.zone_ids[n], wide.zone_ids[n], f'id of {n}')
    for n in set(narrow.link_ids) & set(wide.link_ids):
        same(narrow.link_ids[n], wide.link_ids[n], f'id of link {n}')

    def size(z, p):
        return (sum(len(e) for e in z.values())
                + sum(len(r) for r in p.values()))
    rec.nontrivial(moves > 1 and size(nz, np) < size(wz, wp))


def case():
    @st.composite
    def s(draw):
        c = draw(gen.compiled(max_zones=4, max_policies=3))
        cfg = c['cfg']
        if draw(st.integers(0, 2)):
            cfg['base'] = 2000
            cfg['start'], cfg['until'] = 1890, 2100
        c['inner'] = draw(inner(cfg))
        return c
    return s()


def border_case():
    @st.composite
    def s(draw):
        c = draw(gen.borders())
        cfg = c['cfg']
        c['inner'] = [cfg['start'], cfg['until']]
        cfg['start'] -= draw(st.sampled_from([0, 1, 5, 60]))
        cfg['until'] += draw(st.sampled_from([0, 1, 5, 40]))
        return c
    return s()


def fn(case, rec):
    check(gen.files(case), case, rec)


_REAL = []


def prepare(tier):
    if not _REAL:
        _REAL.append(corpus.to_files())


def real_case():
    @st.composite
    def s(draw):
        cfg = draw(gen.configs(strict=False, lo=1850))
        if draw(st.booleans()):
            cfg['base'] = 2000
            cfg['start'], cfg['until'] = 1880, 2100
        return {'cfg': cfg, 'inner': draw(inner(cfg))}
    return s()


def real_fn(case, rec):
    prepare(None)
    check(_REAL[0], case, rec, True)


PARTS = [Part('random', gen.anywhere(case), fn, 4000, 40000),
         Part('borders', gen.anywhere(border_case), fn, 2000, 40000),
         Part('tzdb', real_case, real_fn, 48, 1600)]
