"""A11: tiny years keep the meaning of every retained year."""
from hypothesis import strategies as st

from checks.T01 import compare
from vlib import canon, decode, gen, harness, model as M, outs
from vlib import pipeline as P, tzeval
from vlib.harness import Part, decoding, fresh_dir, require, same

RULE = (
    'Part "years": for random base years, the converters of FROM/TO and '
    'UNTIL years are run over every year of -600..4000 and the special '
    'years; inside base-126..base+125 (+126 for an UNTIL) the value must be '
    'year - base, outside it must saturate, in order, and the infinities must map to theirs. Part '
    '"database": random sources whose rules and UNTILs lie on both sides of '
    'the window edges are compiled for scopes basic and extended with a '
    'random base year and a range at or across the edges: refused if a '
    'requested year or the one before them is outside the window, else the '
    '8-bit years of the '
    'generated C++ or C text, decoded with the base year, must give each '
    'record its own year (saturated outside) and the source\'s local time '
    'over the whole range. Non-trivial: a record\'s year saturates, or the '
    'range is refused, or (part "years") always.')


@st.composite
def year_case(draw):
    return {'base': draw(st.one_of(
        st.sampled_from([2000, 2050, 2100, 1970, 1900, 2127]),
        st.integers(1500, 2500)))}


def years_fn(case, rec):
    from acetimetools.datatypes import attyping as A
    rule = harness.internal('transformer.transformer',
                            'to_tiny_from_to_year', 2)
    era = harness.internal('transformer.transformer', 'to_tiny_until_year', 2)
    if not rule or not era:
        return
    base = case['base']
    prev = prev_u = -128
    for y in range(-600, 4001):
        v = rule(y, base)
        u = era(y, base)
        d = y - base
        same(v, max(-127, min(126, d)), f'FROM/TO {y}, base {base}')
        require(v >= prev and u >= prev_u, f'order lost at {y}')
        same(u, max(-127, min(127, d)), f'UNTIL {y}, base {base}')
        prev, prev_u = v, u
    for y, want in ((A.MIN_YEAR, -127), (A.MAX_TO_YEAR, 126)):
        same(rule(y, base), want, f'FROM/TO {y}')
    for y, want in ((A.MIN_YEAR, -127), (A.MAX_UNTIL_YEAR, 127)):
        same(era(y, base), want, f'UNTIL {y}')
    rec.nontrivial()


@st.composite
def case(draw):
    base = draw(st.one_of(st.sampled_from([2000, 2050, 2100]),
                          st.integers(2020, 2140)))
    lo, hi = base - 126, base + 125
    scope = draw(st.sampled_from(['extended', 'basic']))
    k = draw(st.integers(0, 5))
    if k == 0:
        a = lo + draw(st.sampled_from([0, 1, 1, 1]))
        b = draw(st.integers(a + 1, hi))
    elif k == 1:
        a, b = draw(st.integers(lo, hi - 1)), hi
    elif k == 2:
        a = draw(st.integers(lo - 3, lo + 2))
        b = draw(st.integers(lo + 3, hi))
    elif k == 3:
        a = draw(st.integers(lo, hi - 4))
        b = draw(st.integers(hi - 2, hi + 4))
    else:
        a = draw(st.integers(lo, hi - 1))
        b = draw(st.integers(a + 1, hi))
    cfg = P.config(scope=scope, start=a, until=b, base=base)
    cfg['compress'] = draw(st.booleans())
    lo_year = draw(st.sampled_from([lo - 20, lo - 8, lo - 8, a - 10,
                                    hi - 40]))
    model = draw(M.databases(
        grain=M.LOW, simple=scope == 'basic', fixed_save=scope != 'basic',
        max_zones=3, max_policies=2, max_links=0,
        lo_year=max(1700, lo_year), hi_year=draw(st.sampled_from(
            [max(1890, lo_year) + 60, max(1890, lo_year, hi) + 40])),
        hi_save=9900))
    for _, rules in model['policies']:
        for r in rules:
            if r['to'] != 'max' and draw(st.integers(0, 2)) == 0:
                # an end near or beyond the upper edge
                y = hi + draw(st.integers(-2, 5))
                if r['to'] < y and all(
                        o['to'] != 'max' and o['frm'] <= r['to']
                        for o in rules):
                    r['to'] = y
    return {'model': model, 'cfg': cfg, 'style': 0,
            'lang': draw(st.sampled_from(['arduino', 'c']))}


def fn(case, rec):
    cfg, lang = case['cfg'], case['lang']
    base, a, b = cfg['base'], cfg['start'], cfg['until']
    files = gen.files(case)
    lo, hi = base - 126, base + 125
    # the year before the first is retained as well
    outside = not (lo < a <= hi and b <= hi + 1)
    edge = b == hi + 1              # the last year itself fits
    try:
        t = P.transform(files, cfg)
    except P.Refused as e:
        rec.nontrivial(outside)
        rec.label('refused')
        require(outside or edge or not fits(e), f'[{a - 1}, {b}) lies in '
                f'{lo}..{hi}, refused: {e}')
        return
    require(not outside, f'[{a}, {b}) compiled although 8-bit years relative '
            f'to {base} hold {lo}..{hi}, and {a - 1} is needed, too')
    if not t.zones_map:
        return
    true = decode.expected(t, cfg, False)
    tiny = decode.expected(t, cfg, True)
    if outs.misfit(true, cfg, lang):
        rec.label('does not fit')
        return
    before = canon.from_tresult(t)
    zidb = P.finish(t, cfg, [lang])
    d = fresh_dir('a11')
    P.generate(zidb, cfg, lang, d)
    with decoding(lang):
        db = decode.c_like(P.read_dir(d), cfg, lang)
    decode.compare(db, tiny, lang, context=False)
    rec.label(lang, cfg['scope'])
    for n, eras in before[0].items():
        src = tzeval.in_years(eras, before[1], a, b)
        dst = tzeval.in_years(db['zones'][n]['eras'], db['policies'], a, b)
        compare(n, src, dst, a, b)
    sat = true['zones'] != tiny['zones'] or true['policies'] != \
        tiny['policies']
    rec.label('saturated' if sat else 'not saturated')
    rec.nontrivial(sat)


def fits(e):
    """Is it the year that was refused?"""
    return 'tiny' in str(e) or 'year' in str(e).lower()


PARTS = [Part('database', gen.anywhere(case), fn, 2400, 60000),
         Part('years', year_case, years_fn, 240, 4000)]
