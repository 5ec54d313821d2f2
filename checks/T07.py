"""T07: every policy answers for every year, starting in standard time."""
from hypothesis import strategies as st

from vlib import cal, canon, corpus, expect, gen, model as M, pipeline as P
from vlib.harness import Part, require, same

RULE = (
    'Random policies (also with clashing, overlapping and shuffled rules) and '
    'those of the real TZDB, compiled in every scope for random years; each '
    'compiled policy is compared with the anchor and the rules a reference '
    'selection keeps, field by field and in order. Non-trivial: a kept policy '
    'lost at least one rule of its source and keeps one with a DST shift.')

MINY = -32767


def anchor_letter(rules):
    """Letter of the earliest standard-time rule (canonical rules)."""
    best = None
    for r in rules:
        if r['std']:
            n = cal.on_day(r['frm'], r['month'], r['dow'], r['dom'])
            key = (r['frm'], cal.civil(n)[1:])
            if best is None or key < best[0]:
                best = (key, r['letter'])
    return best[1]


def check(model, cfg, t):
    grain = gen.grain_of(cfg)
    src = dict(model['policies'])
    busy = False
    for p, policy in t.policies_map.items():
        got = [canon.from_trule(r) for r in policy['rules']]
        keep, _, _ = expect.retained_rules(
            src[p], cfg['start'], cfg['until'])
        kept = [canon.rule(src[p][i], grain) for i in keep]
        same(got[0], {'frm': MINY, 'to': MINY, 'month': 1, 'dow': 0,
                      'dom': 1, 'at': 0, 'sfx': 'w', 'save': 0, 'std': True,
                      'letter': anchor_letter(kept)},
             f'anchor of policy {p}')
        same((policy['rules'][0]['at_seconds'],
              policy['rules'][0]['delta_seconds']), (0, 0),
             f'AT and SAVE of the anchor of {p}')
        # the anchor stands for a single rule, or for a standard time rule
        # older than the ones in force
        kept = [canon.rule(src[p][i], grain) for i in expect.beside_anchor(
            src[p], cfg['start'], cfg['until'])]
        same(got[1:], kept, f'rules of policy {p} after the anchor')
        if cfg['tiny']:
            same(policy['rules'][0]['from_year_tiny'], -127,
                 f'tiny year of the anchor of {p}')
            same(policy['rules'][0]['to_year_tiny'], -127,
                 f'tiny year of the anchor of {p}')
        if len(kept) < len(src[p]) and any(not r['std'] for r in kept):
            busy = True
    return busy


def case():
    @st.composite
    def s(draw):
        cfg = draw(gen.configs(grains=True))
        basic = cfg['scope'] == 'basic'
        grain = M.LOW if cfg['strict'] else M.RAW
        pols = draw(st.lists(M.policy_names(), min_size=1, max_size=3))
        pols = M._unique(pols)
        model = {'policies': [[p, draw(M.dense_policies(grain) if draw(st.integers(0, 2))
                                    == 2 else M.policies(grain))]
                              for p in pols],
                 'zones': [], 'links': []}
        if draw(st.booleans()):
            model = draw(gen.rough_policies(model))
        for i, p in enumerate(pols):
            model['zones'].append([f'Etc/Zone{i}', [{
                'off': 3600, 'rules': {'policy': p}, 'fmt': 'E%sT',
                'until': None}]])
        return {'model': model, 'cfg': cfg,
                'style': draw(st.sampled_from([0, 1, 5]))}
    return s()


def fn(case, rec):
    model, cfg = case['model'], case['cfg']
    o = expect.outcome(model, cfg)
    try:
        t = P.transform(gen.files(case), cfg)
    except P.Refused as e:
        require(o.raises, f'refused: {e}')
        return
    require(not o.raises, f'not refused: {o.raises}')
    rec.nontrivial(check(model, cfg, t))


_REAL = []


def prepare(tier):
    if not _REAL:
        files = corpus.to_files()
        _REAL.extend([files, expect.parse_model(files)])


def real_case():
    @st.composite
    def s(draw):
        return {'cfg': draw(gen.configs(strict=False, lo=1850))}
    return s()


def real_fn(case, rec):
    prepare(None)
    try:
        t = P.transform(_REAL[0], case['cfg'])
    except P.Refused as e:
        require(False, f'the real TZDB was refused: {e}')
    rec.nontrivial(check(_REAL[1], case['cfg'], t))


PARTS = [Part('policies', gen.anywhere(case), fn, 3200, 80000),
         Part('tzdb', real_case, real_fn, 64, 2000)]
