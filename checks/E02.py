"""E02: a malformed line is dropped and counted, and never spreads."""
import re

from hypothesis import strategies as st

from vlib import pipeline as P, srctext as S
from vlib.harness import Part, require, same

RULE = (
    'Random TZDB directories in which a random subset of lines is damaged '
    '(missing columns, bad years, months, AT/UNTIL suffixes, repeated Links, '
    'stray lines, continuation lines outside of a zone): the extracted records must be those of the undamaged '
    'lines, and each counter the number of damaged lines of its kind. Also '
    'files with random characters put in or taken out: extraction must end '
    'normally and every Rule, Zone and Link line be either read or counted. '
    'Non-trivial: a line was damaged.')
ASSUMPTIONS = ['input files are valid UTF-8']

BAD_YEAR = ['', 'x', '19x0', 'min1', '1990.5', '-', '1990s', 'Jan', 'o',
            '1_990', '１９９０', '19９0', '1990_', '٢٠٠٠', '0x7c6', '1e3']
BAD_TO = ['never', 'once', 'onlyy', 'other', 'onlyonly', 'maxx', 'maximal',
          'mine', '-only', 'only1', 'many']
BAD_MONTH = ['Jxn', '13', '0', '-', 'Ma', 'J', 'Sun', 'xJan', '1']
BAD_SUFFIX = ['x', '-', 'd', 'W', 'S', '+', ':', 'uu', '%', 'h']
BAD_TIME_CELL = ['-', 'Z', 'x', '2:00x', '0d', '24:00a', '2:00h', '1:00:00k']


def _bad(draw, pool):
    return draw(st.sampled_from([b for b in pool if b]))


@st.composite
def damaged_rule(draw, cells):
    c = list(cells)
    k = draw(st.integers(0, 5))
    if k == 0:
        return 'columns', c[:draw(st.integers(0, 7))]
    if k == 1:
        c[0] = _bad(draw, BAD_YEAR)
        return 'year', c
    if k == 2:
        c[1] = _bad(draw, BAD_YEAR + BAD_TO)
        if c[1] == 'o':
            c[1] = 'never'
        if draw(st.booleans()):
            c[1] = str(int(c[0]) - draw(st.sampled_from([1, 1, 2, 10, 100])))
        return 'year', c
    if k == 3:
        c[3] = _bad(draw, BAD_MONTH)
        return 'month', c
    if k == 4:
        c[5] = re.sub('[a-z]$', '', c[5]) + draw(
            st.sampled_from([s for s in BAD_SUFFIX if len(s) == 1]))
        return 'suffix', c
    c[5] = draw(st.sampled_from(BAD_TIME_CELL[:1] + BAD_TIME_CELL[2:]))
    return 'suffix', c


@st.composite
def damaged_era(draw, cells):
    c = list(cells)
    k = draw(st.integers(0, 3))
    if k == 1 and len(c) > 3:
        c[3] = _bad(draw, BAD_YEAR)
        return 'year', c
    if k == 2 and len(c) > 4:
        c[4] = _bad(draw, BAD_MONTH)
        return 'month', c
    if k == 3 and len(c) > 6:
        c[6] = draw(st.sampled_from(BAD_TIME_CELL[:1] + BAD_TIME_CELL[2:]))
        return 'suffix', c
    return 'columns', c[:draw(st.integers(0, 2))]


@st.composite
def cases(draw):
    src = draw(S.sources())
    damage = []     # [file, item index, era index or -1, kind, cells]
    stray = []      # [file, item index, text] put before that item
    for f, items in src['files'].items():
        for i, it in enumerate(items):
            if it[0] == 'R' and draw(st.integers(0, 2)) == 0:
                damage.append([f, i, -1] + list(draw(damaged_rule(it[2]))))
            elif it[0] == 'Z' and draw(st.integers(0, 2)) == 0:
                for j in range(len(it[2])):
                    if draw(st.booleans()):
                        kind, c = draw(damaged_era(it[2][j]))
                        if j == 0 or c:
                            damage.append([f, i, j, kind, c])
            elif it[0] == 'L' and draw(st.integers(0, 3)) == 0:
                damage.append([f, i, -1, 'link', draw(st.sampled_from(
                    [[], [it[1]], 'again', 'again2', 'elsewhere']))])
            if it[0] != 'C' and draw(st.integers(0, 7)) == 0:
                stray.append([f, i, draw(st.sampled_from(
                    ['Rule', 'Zone', 'Link', 'Link A/B', 'Rule ', 'garbage',
                     'zone A/B 0 - X', 'Leap 2016 Dec 31 23:59:60 + S',
                     'Zone\t#name', '=====', '-', '"', 'R US 1990 o - Ja 1 '
                     '0 1 -', '  1:00 - X', 'LInk A B', 'Rul', 'Zo', 'x\ty',
                     '\\', '%', 'ZONE', ' Zone A/B 1 - X',
                     'Rule\n\t\t1:00\t-\tX', 'Link\n\t2:00\t-\tY 1990',
                     'Zone\n\t1:00\t-\tX\t1990\n\t\t\t2:00 - Y',
                     'Link A\n# x\n\t\t1:00\t-\tX',
                     'Zoen\tA/C\t2:00\t-\tY\t2000\n\t\t\t3:00\t-\tZ',
                     'zone A/C 2:00 - Y 2000\n\t\t\t3:00\t-\tZ',
                     'Leap x\n\t1:00\t-\tX']))])
    return {'src': src, 'damage': damage, 'stray': stray}


def apply(case):
    """Returns (damaged source, good source, counters)."""
    src = case['src']
    bad = {f: [[it[0]] + [x if isinstance(x, str) else
                          [list(e) if isinstance(e, list) else e for e in x]
                          for x in it[1:]] for it in items]
           for f, items in src['files'].items()}
    good = {f: [list(it) for it in items]
            for f, items in src['files'].items()}
    count = {'rule': 0, 'zone': 0, 'link': 0}
    drop_eras = {}
    dup = {}
    for f, i, j, kind, cells in case['damage']:
        it = bad[f][i]
        if it[0] == 'R':
            it[2] = cells
            good[f][i] = ['C', '']
            count['rule'] += 1
        elif it[0] == 'Z':
            it[2][j] = cells
            drop_eras.setdefault((f, i), set()).add(j)
            count['zone'] += 1
        elif isinstance(cells, list):
            bad[f][i] = ['X', 'Link' + ''.join('\t' + c for c in cells)]
            good[f][i] = ['C', '']
            count['link'] += 1
        else:
            n = {'again': 2, 'again2': 3, 'elsewhere': 2}[cells]
            good[f][i] = ['C', '']
            count['link'] += n
            dup.setdefault(f, []).append((i, n, cells, it))
    for (f, i), js in drop_eras.items():
        kept = [e for j, e in enumerate(good[f][i][2]) if j not in js]
        good[f][i] = ['Z', good[f][i][1], kept]
    for f, entries in dup.items():
        for i, n, how, it in entries:
            if how == 'elsewhere':
                other = S.FILES[(S.FILES.index(f) + 4) % 9]
                bad[other].append(['L', 'Other/Target', it[2]])
            else:
                for _ in range(n - 1):
                    bad[f].append(['L', it[1], it[2]])
    for f, i, text in reversed(case['stray']):
        bad[f].insert(i, ['X', text])
        word = text.split('#')[0].split()
        if word and text[:4] in ('Rule', 'Zone', 'Link'):
            count[word[0].lower()] += 1
        # Continuation lines after such a line belong to no zone.
        count['zone'] += text.count('\n\t')
    return ({'files': bad, 'layout': src['layout']},
            {'files': good, 'layout': src['layout']}, count)


def check(case, rec):
    bad, good, count = apply(case)
    x = P.extract(S.render(bad))
    policies, zones, links = S.want(good)
    gp, gz, gl = S.got(x)
    same(gp, policies, 'rules of the undamaged lines')
    same(gz, {k: v for k, v in zones.items() if v},
         'eras of the undamaged lines')
    same(gl, {k: v[0] for k, v in links.items()}, 'undamaged links')
    for what, n in count.items():
        same(getattr(x, f'invalid_{what}_lines')
             + getattr(x, f'ignored_{what}_lines'), n,
             f'count of malformed {what} lines')
    x.print_summary()
    rec.nontrivial(sum(count.values()) > 0)
    for d in case['damage']:
        rec.label(f'{d[3]}')
    if case['stray']:
        rec.label('stray line')


NOISE = st.one_of(
    st.text('\t #:-%/<>=0123456789 RuleZoneLinkmaxonlyJanSun', max_size=8),
    st.text(st.characters(codec='utf-8'), max_size=4))


@st.composite
def fuzz_cases(draw):
    src = draw(S.sources())
    edits = draw(st.lists(st.tuples(
        st.integers(0, 8), st.integers(0, 400), st.integers(0, 12), NOISE),
        min_size=1, max_size=6))
    return {'src': src, 'edits': [list(e) for e in edits]}


def fuzz(case, rec):
    files = S.render(case['src'])
    for f, at, cut, text in case['edits']:
        name = S.FILES[f]
        old = files[name]
        at = at % (len(old) + 1)
        files[name] = old[:at] + text + old[at + cut:]
    x = P.extract(files)
    n = {'Rule': 0, 'Link': 0, 'Zone': 0}
    for text in files.values():
        text = text.replace('\r\n', '\n').replace('\r', '\n')
        for line in text.split('\n'):
            line = line.split('#')[0].rstrip()
            if line[:4] in n:
                n[line[:4]] += 1
            elif line[:1] == '\t':
                n['Zone'] += 1
    p, z, li = x.get_data()
    same(sum(len(q['rules']) for q in p.values()) + x.invalid_rule_lines
         + x.ignored_rule_lines, n['Rule'],
         'Rule lines read or counted as malformed')
    same(sum(len(q['eras']) for q in z.values()) + x.invalid_zone_lines
         + x.ignored_zone_lines, n['Zone'],
         'Zone lines read or counted as malformed')
    same(len(li) + x.invalid_link_lines + x.ignored_link_lines, n['Link'],
         'Link lines read or counted as malformed')
    for q in p.values():
        for r in q['rules']:
            require(1 <= r['in_month'] <= 12 and isinstance(
                r['from_year'], int) and isinstance(r['to_year'], int)
                and r['from_year'] <= r['to_year']
                and r['at_time_suffix'] in ('', 'w', 's', 'u', 'g', 'z'),
                f'malformed rule accepted: {r}')
    x.print_summary()
    rec.nontrivial(x.invalid_rule_lines + x.invalid_zone_lines
                   + x.invalid_link_lines > 0)


PARTS = [
    Part('damage', cases, check, 2400, 100000),
    Part('fuzz', fuzz_cases, fuzz, 1600, 100000),
]
