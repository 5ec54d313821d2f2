"""T12: the result does not depend on file order, hash seed or reruns."""
import difflib
import random

from hypothesis import strategies as st

from checks import A05
from vlib import corpus, gen, model as M, server
from vlib.harness import Part, Violation

RULE = (
    'Random sources (with irregular rules, so that most records carry '
    'several notes) and the real TZDB are compiled for all four languages, '
    'with JSON and zone list, in three processes with different Python hash '
    'seeds, time zones and locales; then again with the same blocks (policies, zones, links) '
    'distributed over the nine files in another order, and a second time in '
    'the same process, into a directory that holds longer files of the same '
    'names. All files must be byte-identical (JSON of moved '
    'blocks: equal in value, since its members follow the source order). '
    'Non-trivial: at '
    'least three blocks changed place and the source compiled.')

SEEDS = [0, 1, 4242]


def blocks(case):
    """The source as blocks that may be moved."""
    if case.get('tzdb'):
        out = {}
        kind = None
        for text in corpus.to_files().values():
            for ln in text.split('\n'):
                w = ln.split()
                if not w or w[0].startswith('#'):
                    continue
                if not ln[0].isspace():
                    kind = (w[0], w[2] if w[0] == 'Link' else w[1])
                out.setdefault(kind, []).append(ln)
        return ['\n'.join(v) for v in out.values()]
    model = case['model']
    style = M.Style(0)
    out = ['\n'.join(M.rule_line(n, r, style) for r in rules)
           for n, rules in model['policies'] if rules]
    one = dict(model, policies=[], links=[])
    for z in model['zones']:
        text = M.to_files(dict(one, zones=[z]), 0)
        out.append(''.join(text.values()).rstrip('\n'))
    for link, target in model['links']:
        out.append(f'Link\t{target}\t{link}')
    return out


def spread(parts, seed):
    """The blocks over the nine files; seed 0: all in the first file."""
    rnd = random.Random(seed)
    files = {f: [] for f in M.FILES}
    parts = list(parts)
    if seed:
        rnd.shuffle(parts)
    for p in parts:
        files[rnd.choice(M.FILES) if seed else M.FILES[0]].append(p)
    return {f: '\n'.join(v) + ('\n' if v else '') for f, v in files.items()}


def fn(case, rec):
    cfg = case['cfg']
    parts = blocks(case)
    variants = [spread(parts, s) for s in [0] + case['orders']]
    # same files: other hash seeds, and once more in the same process
    base = None
    for i, seed in enumerate(SEEDS + SEEDS[-1:]):
        got = server.server(seed).ask(variants[0], cfg, again=i == 3)
        if base is None:
            base = got
        elif got != base:
            report(cfg, variants, (SEEDS[0], 0), (seed, 0), base, got,
                   i == 3)
    # other files
    base = server.server(SEEDS[0]).ask(variants[0], cfg, values=True)
    for v in range(1, len(variants)):
        seed = SEEDS[v % 3]
        got = server.server(seed).ask(variants[v], cfg, values=True)
        if got != base:
            report(cfg, variants, (SEEDS[0], 0), (seed, v), base, got)
    rec.label('refused' if 'refused' in base else cfg['scope'])
    rec.nontrivial('refused' not in base and len(parts) >= 3)


def report(cfg, variants, a, b, ra, rb, again=False):
    names = sorted(k for k in set(ra) | set(rb) if ra.get(k) != rb.get(k))
    if names == ['refused']:
        return              # the same refusal in other words
    fa = server.server(a[0]).ask(variants[a[1]], cfg, True)
    fb = server.server(b[0]).ask(variants[b[1]], cfg, True, again=again)
    n = names[0]
    diff = '\n'.join(list(difflib.unified_diff(
        fa.get(n, '').split('\n'), fb.get(n, '').split('\n'), 'first',
        'second', lineterm='', n=1))[:40])
    raise Violation(
        f'hash seed {a[0]}, order {a[1]} and hash seed {b[0]}, order {b[1]} '
        f'differ{" (second run)" * again} in {", ".join(names)}\n{n}:\n'
        f'{diff}')


def case():
    @st.composite
    def s(draw):
        c = draw(A05.case())
        return {'model': c['model'], 'cfg': c['cfg'],
                'orders': draw(st.lists(st.integers(1, 999), min_size=1,
                                        max_size=2, unique=True))}
    return s()


def tzdb_case():
    @st.composite
    def s(draw):
        c = draw(A05.tzdb_case())
        return {'tzdb': True, 'cfg': c['cfg'],
                'orders': [draw(st.integers(1, 999))]}
    return s()


PARTS = [Part('random', gen.anywhere(case), fn, 480, 16000),
         Part('tzdb', tzdb_case, fn, 8, 160)]
