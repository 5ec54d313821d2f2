"""T02: scope basic drops exactly the zones it cannot represent."""
from hypothesis import strategies as st

from vlib import expect, gen, model as M, pipeline as P
from vlib.harness import Part, require, same

RULE = (
    'Random sources whose zones and policies mix representable and '
    'unrepresentable features (UNTIL with month, fixed RULES, two rules in a '
    'month, rules on January 1), compiled in scope basic and in a wider scope '
    'for random year ranges; the set of zones kept is compared with a '
    'reference decision taken from the source. Non-trivial: basic keeps at '
    'least one zone and drops at least one, or a policy is dropped.')


def case():
    @st.composite
    def s(draw):
        cfg = draw(gen.configs(['basic'], lo=1900))
        grain = M.LOW
        model = draw(M.databases(
            grain=grain, simple=draw(st.booleans()), max_zones=6,
            fixed_save=draw(st.booleans())))
        for n, eras in model['zones']:
            # make single zones simple, so that bases for both outcomes exist
            if draw(st.booleans()):
                for e in eras:
                    if e['until']:
                        e['until'] = {'y': e['until']['y']}
        model = draw(gen.rough_policies(model))
        return {'model': model, 'cfg': cfg,
                'wide': draw(st.sampled_from(['extended', 'complete']))}
    return s()


def fn(case, rec):
    model, cfg = case['model'], case['cfg']
    files = gen.files(case)
    o = expect.outcome(model, cfg)
    try:
        t = P.transform(files, cfg)
    except P.Refused as e:
        require(o.raises, f'basic compilation refused: {e}')
        return
    require(not o.raises, f'should be refused: {o.raises}')
    same(set(t.zones_map), set(o.zones), 'zones kept by scope basic')
    same(set(t.policies_map), set(o.policies), 'policies kept')
    same(set(t.links_map), set(o.links), 'links kept')
    for n, why in o.removed_zones.items():
        require(any(t.removed_zones.get(n, [])),
                f'zone {n} dropped without a reason (expected: {why})')
    rec.nontrivial(bool(o.zones) and bool(o.removed_zones))
    for n, why in o.removed_zones.items():
        rec.label('zone: ' + why)
    for n, why in o.removed_policies.items():
        rec.label('policy: ' + why)

    # The wider scopes have none of these restrictions.
    wide = dict(cfg, scope=case['wide'])
    ow = expect.outcome(model, wide)
    try:
        tw = P.transform(files, wide)
    except P.Refused as e:
        require(ow.raises, f'{case["wide"]} compilation refused: {e}')
        return
    same(set(tw.zones_map), set(n for n, _ in model['zones']),
         f'zones kept by scope {case["wide"]}')
    require(not ow.raises, f'{case["wide"]} should refuse: {ow.raises}')


@st.composite
def edge_model(draw):
    """A policy with two rules that meet in a month, or almost do, or a rule
    on or next to January 1, around the requested years."""
    start = draw(st.integers(1985, 2040))
    until = start + draw(st.sampled_from([1, 2, 10, 40]))
    rules = [M_RULE(start - 20, start - 20, 6, [0, 1], 0)]

    def years(a=None):
        a = draw(st.integers(start - 6, until + 4)) if a is None else a
        return a, a + draw(st.sampled_from([0, 0, 1, 2, 5, 15]))

    m = draw(st.integers(2, 11))
    kind = draw(st.sampled_from(['last', 'first', 'inside', 'next', 'gap',
                                 'month', 'jan', 'dec']))
    if kind in ('jan', 'dec'):
        a, b = years()
        on = draw(st.sampled_from(
            [[0, 1], [0, 2], [7, 1], [3, 2], [7, -7], [5, -8], [0, 31], [1, 0]]
            if kind == 'jan' else [[0, 31], [0, 1], [7, 25], [7, 0], [2, -31]]))
        rules.append(M_RULE(a, draw(st.sampled_from([b, 'max'])),
                            1 if kind == 'jan' else 12, on, 3600))
        rules.append(M_RULE(a, b, m, [0, 5], 0))
    else:
        a, b = years()
        c, d = {'last': lambda: (b, b + draw(st.integers(0, 9))),
                'first': lambda: (a, a),
                'inside': lambda: ((a + b) // 2, (a + b) // 2),
                'next': lambda: years(b + 1),
                'gap': lambda: years(b + 3),
                'month': lambda: (a, b)}[kind]()
        m2 = m % 12 + 1 if kind == 'month' else m
        on = draw(st.sampled_from([[0, 1], [7, 1], [7, 15], [7, 0], [0, 28]]))
        pair = [M_RULE(a, b, m, on, 3600), M_RULE(
            c, 'max' if draw(st.integers(0, 4)) == 0 else d, m2,
            draw(st.sampled_from([[0, 20], [3, 8], [2, -25]])), 0)]
        rules += draw(st.permutations(pair))
    rules = draw(st.permutations(rules))
    model = {'policies': [['P', rules]], 'links': [['Aa/Ln', 'Aa/Bb']],
             'zones': [['Aa/Aa', [M_ERA('-', 'X')]],
                       ['Aa/Bb', [M_ERA('P', 'X%sT')]]]}
    if draw(st.booleans()):
        model['zones'][1][1].insert(0, dict(
            M_ERA('-', 'X'), until={'y': draw(st.integers(start - 8, until + 3)
                                              )}))
    return {'model': model, 'cfg': P.config('basic', start, until,
                                            base=start + 5),
            'wide': draw(st.sampled_from(['extended', 'complete']))}


def M_RULE(a, b, m, on, save):
    return {'frm': a, 'to': b, 'month': m, 'on': on, 'at': 7200, 'sfx': '',
            'save': save, 'letter': 'D' if save else 'S'}


def M_ERA(rules, fmt):
    return {'off': 3600, 'rules': None if rules == '-' else {'policy': rules},
            'fmt': fmt, 'until': None}


PARTS = [Part('scopes', gen.anywhere(case), fn, 2000, 60000),
         Part('edges', gen.anywhere(edge_model), fn, 1600, 40000)]
