"""T08: accuracy years and truncation flags tell the truth."""
from hypothesis import strategies as st

from checks import T01
from vlib import canon, corpus, expect, gen, model as M, pipeline as P, tzeval
from vlib.harness import Part, require, same

RULE = (
    'Random sources and the real TZDB compiled for random years in every '
    'scope; the truncation flags of each zone and of the database, the '
    'accurate-year range and the year ranges reported are compared with the '
    'reference selection, and wherever a side is declared untruncated local '
    'time is compared with the source on that whole side (from 1800, to '
    '2300). Non-trivial: the flags are set on exactly one side, or on '
    'neither.')

MAXU, MAXT, MINY = 32767, 32766, -32767


def years_of(zones, policies):
    ys = [e['until'][0] for eras in zones.values() for e in eras
          if e['until'] is not None]
    fr = [r['frm'] for rules in policies.values() for r in rules
          if r['frm'] != MINY]
    lo = min(ys + fr, default=MAXT)
    hi = max(ys + fr, default=MINY)
    return lo, hi


def check(model, cfg, t, rec, o=None):
    o = o or expect.outcome(model, cfg)
    grain = gen.grain_of(cfg)
    src_z, src_p = canon.zones(model, grain), canon.policies(model, grain)
    dst_z, dst_p = canon.from_tresult(t)
    low = up = False
    for n, info in t.zones_map.items():
        lo, hi = o.era_cut[n]
        for e in o.zones[n]:
            if e['rules'] and 'policy' in e['rules']:
                a, b = o.rule_cut[e['rules']['policy']]
                lo, hi = lo or a, hi or b
        same((bool(info['lower_zone_truncated']),
              bool(info['upper_zone_truncated'])), (lo, hi),
             f'truncation flags of {n}')
        low, up = low or lo, up or hi
        far = 2300 if cfg['start'] < 2300 else cfg['until'] + 200
        for flag, a, b in ((lo, far - 500, cfg['start']),
                           (hi, cfg['until'], far)):
            if not flag and a < b:
                s = tzeval.in_years(src_z[n], src_p, a, b)
                d = tzeval.in_years(dst_z[n], dst_p, a, b)
                if T01.no_letter(src_z[n], src_p):
                    s = [x[:3] for x in s]
                    d = [x[:3] for x in d]
                if s != d:
                    T01.compare(n, s, d, a, b) if len(s[0]) == 4 else \
                        require(False, f'{n} differs in [{a}, {b})')
    same((bool(t.lower_truncated), bool(t.upper_truncated)), (low, up),
         'truncation flags of the database')
    same(t.start_year_accurate, cfg['start'] if low else MINY,
         'start_year_accurate')
    same(t.until_year_accurate, cfg['until'] if up else MAXU,
         'until_year_accurate')
    same((t.generated_min_year, t.generated_max_year),
         years_of({n: [e for e in eras] for n, eras in dst_z.items()}, dst_p),
         'generated min and max year')
    # UNTIL years of the source as written
    src = {n: [dict(e, until=(m['until']['y'],) if m['until'] else None)
               for e, m in zip(src_z[n], eras)]
           for n, eras in model['zones']}
    same((t.original_min_year, t.original_max_year), years_of(src, src_p),
         'original min and max year')
    rec.nontrivial(bool(t.zones_map) and not (low and up))
    rec.label(f'lower={low} upper={up}')


def case():
    @st.composite
    def s(draw):
        c = draw(gen.compiled(max_zones=3, max_policies=3, max_eras=4))
        cfg = c['cfg']
        # ranges that cut on one side or not at all
        k = draw(st.integers(0, 4))
        if k <= 1 and cfg['base'] == 2000:
            cfg['start'] = draw(st.integers(1876, 1900))
        if k in (0, 2):
            cfg['until'] = draw(st.integers(max(cfg['start'] + 1, 2061),
                                            2110))
        return c
    return s()


def fn(case, rec):
    model, cfg = case['model'], case['cfg']
    try:
        t = P.transform(gen.files(case), cfg)
    except P.Refused:
        rec.label('refused')
        return
    check(model, cfg, t, rec)


_REAL = []


def prepare(tier):
    if not _REAL:
        files = corpus.to_files()
        _REAL.extend([files, expect.parse_model(files)])


def real_case():
    @st.composite
    def s(draw):
        cfg = draw(gen.configs(strict=False, lo=1850))
        k = draw(st.integers(0, 3))
        if k <= 1:
            cfg['start'] = 1800 if not cfg['tiny'] else 1875
            cfg['base'] = 2000
            cfg['until'] = max(cfg['until'], cfg['start'] + 1)
        if k in (0, 2):
            cfg['until'] = 2110
        return {'cfg': cfg}
    return s()


def real_fn(case, rec):
    prepare(None)
    try:
        t = P.transform(_REAL[0], case['cfg'])
    except P.Refused as e:
        require(False, f'the real TZDB was refused: {e}')
    check(_REAL[1], case['cfg'], t, rec)


PARTS = [Part('random', gen.anywhere(case), fn, 2000, 50000),
         Part('tzdb', real_case, real_fn, 40, 1200)]
