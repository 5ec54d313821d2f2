"""E01: TZDB source files are read back exactly, whatever their layout."""
import random

from hypothesis import strategies as st

from vlib import corpus, pipeline as P, srctext as S
from vlib.harness import Part, require, same

RULE = (
    'Random TZDB directories - Rule, Zone and Link records spread over the '
    'nine files and written in random layouts (tabs, spaces, comments after '
    'and between lines and inside Zone blocks, blank lines, CR LF, no final '
    'newline, month spellings) - and the real TZDB re-laid-out at random: the '
    'extracted records are compared with the written ones, cell by cell and '
    'in order. Non-trivial: at least one rule, one link and one zone with a '
    'continuation line, in a layout other than the plain one.')
ASSUMPTIONS = [
    'keywords are spelled out at the start of the line and continuation '
    'lines begin with a TAB, as in the TZDB sources; a link name occurs once']


def check(src, rec, files=None):
    files = files or S.render(src)
    x = P.extract(files)
    policies, zones, links = S.want(src)
    gp, gz, gl = S.got(x)
    same(sorted(gp), sorted(policies), 'policy names')
    same(sorted(gz), sorted(zones), 'zone names')
    for n in policies:
        same(gp[n], policies[n], f'rules of {n}')
    for n in zones:
        same(gz[n], zones[n], f'eras of {n}')
    same(gl, {k: v[0] for k, v in links.items()}, 'links')
    for what in ('rule', 'zone', 'link'):
        same((getattr(x, f'invalid_{what}_lines'),
              getattr(x, f'ignored_{what}_lines')), (0, 0),
             f'{what} lines reported as invalid or ignored')
    # the remembered text of a record is that of its line
    p, z, _ = x.get_data()
    for what, got, cells in (
            ('rule', [r['raw_line'] for n in policies for r in p[n]['rules']],
             [[n] + it for n in policies for it in cells_of(src, 'R', n)]),
            ('era', [e['raw_line'] for n in zones for e in z[n]['eras']],
             [it for n in zones for it in cells_of(src, 'Z', n)])):
        for text, c in zip(got, cells):
            t = text.split()
            require(t[-len(c):] == c, f'raw line of a {what}: {text!r} is not '
                    f'the line of {c}')
    rec.nontrivial(policies and links and src['layout']
                   and any(len(e) > 1 for e in zones.values()))
    used = sum(bool(v) for v in src['files'].values())
    rec.label(f'files used: {"1" if used == 1 else "2+"}')
    if any(len([1 for f in src['files'].values() for it in f
                if it[0] == 'R' and it[1] == n]) > 1 for n in policies):
        rec.label('policy of several lines')


def cells_of(src, kind, name):
    out = []
    for f in S.FILES:
        for it in src['files'].get(f, []):
            if it[0] == kind and it[1] == name:
                out += [it[2]] if kind == 'R' else it[2]
    return out


def tzdb(case, rec):
    """The real TZDB, its records dealt to the files and laid out at random."""
    r = random.Random(case['deal'])
    rules, zones, links = corpus.load_lines()
    items = [['R', x[0], x[1:]] for x in rules] + \
        [['Z', n, e] for n, e in zones] + [['L', t, n] for t, n in links]
    if case['deal']:
        r.shuffle(items)
    files = {f: [] for f in S.FILES}
    for it in items:
        files[r.choice(S.FILES)].append(it)
    check({'files': files, 'layout': case['layout']}, rec)


PARTS = [
    Part('layouts', S.sources, check, 2400, 100000),
    Part('tzdb', lambda: st.fixed_dictionaries(
        {'deal': st.integers(0, 10**6), 'layout': st.integers(0, 10**6)}),
        tzdb, 32, 800, examples=[{'deal': 0, 'layout': 0}]),
]
