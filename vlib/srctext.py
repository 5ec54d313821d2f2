"""TZDB source directories as lists of records, in any layout: strategies, the
renderer, and the records an exact reader finds in them.

A source is {'files': {file: [item, ...]}, 'layout': int}; an item is
  ['R', name, [FROM, TO, TYPE, IN, ON, AT, SAVE, LETTER]]
  ['Z', name, [[STDOFF, RULES, FORMAT, UNTIL...], ...]]
  ['L', target, link]
  ['C', text]     a comment or blank line
  ['X', text]     a raw line (used by the damage of E02)
Every cell is the text written in the file.
"""
import random

from hypothesis import strategies as st

from . import model as M

FILES = M.FILES
NONZERO = '123456789'


@st.composite
def times(draw, lo=0):
    kind = draw(st.integers(0, 9))
    h = draw(st.integers(0, 25))
    if kind == 0:
        s = str(h)
    elif kind <= 6:
        s = f'{h}:{draw(st.integers(0, 59)):02d}'
    elif kind == 7:
        s = f'{h:02d}:{draw(st.integers(0, 59)):02d}'
    else:
        s = (f'{h}:{draw(st.integers(0, 59)):02d}:'
             f'{draw(st.integers(0, 59)):02d}')
    return ('-' if lo < 0 and draw(st.integers(0, 2)) == 0 else '') + s


suffixes = st.sampled_from(['', '', 'w', 's', 'u', 'g', 'z'])


@st.composite
def months(draw):
    m = draw(st.integers(0, 11))
    full = M.MONTHS[m]
    n = draw(st.sampled_from([3, 3, 3, 4, 5, 9]))
    s = full[:n]
    k = draw(st.integers(0, 9))
    return s.lower() if k == 0 else s.upper() if k == 1 else s


@st.composite
def days(draw):
    k = draw(st.integers(0, 3))
    if k <= 1:
        return str(draw(st.integers(1, 31)))
    d = draw(st.sampled_from(M.DAYS))
    if k == 2:
        return 'last' + d
    return d + draw(st.sampled_from(['>=', '<='])) + str(
        draw(st.integers(1, 31)))


@st.composite
def rules(draw):
    a = draw(st.integers(1850, 2100))
    if draw(st.integers(0, 15)) == 0:
        a = draw(st.sampled_from([0, 1, -1, -400, 99, 999, 9999, 10000,
                                  32700]))
    k = draw(st.integers(0, 3))
    to = 'only' if k == 0 else 'max' if k == 1 else str(
        a + draw(st.integers(0, 60)))
    if k == 3 and draw(st.integers(0, 3)) == 0:
        to = str(max(a, draw(st.sampled_from(
            [1999, 2000, 2037, 2038, 2100, 2999, 3000, 9998, 9999, 10000,
             19999, 32766]))))
    return [str(a), to, draw(st.sampled_from(['-', '-', 'nonpres'])),
            draw(months()), draw(days()),
            draw(times()) + draw(suffixes),
            draw(st.sampled_from(['0', '1:00', '0:30', '-1:00', '2:00', '0s',
                                  '1:00d', '1', '0:20'])),
            draw(st.sampled_from(['-', 'S', 'D', 'WAT', '+00', 'DD', 'Rule',
                                  'Zone', '+0530', '-00:30', 'GMT+0100',
                                  'abcdefghijklmnop', '/', "'S'"]))]


@st.composite
def eras(draw, n, pnames):
    out = []
    year = draw(st.integers(1840, 1950))
    if draw(st.integers(0, 15)) == 0:
        year = draw(st.sampled_from([-2000, -60, 0, 90, 970, 9980, 32000]))
    for i in range(n):
        e = [draw(times(-1)),
             draw(st.sampled_from(['-', '1:00', '0:30', '-1:00'] + pnames)),
             draw(st.sampled_from(['LMT', 'E%sT', '%s', 'GMT/BST', '-', '%z',
                                   '+00/+02', '-00', 'Zone', 'Link']))]
        if i < n - 1 or draw(st.integers(0, 4)) == 0:
            year += draw(st.integers(1, 40))
            if i == n - 1 and draw(st.integers(0, 2)) == 0:
                year = max(year, draw(st.sampled_from(
                    [2000, 2038, 2100, 3000, 9999, 10000, 19999, 32766])))
            e.append(str(year))
            depth = draw(st.integers(0, 3))
            if depth > 0:
                e.append(draw(months()))
            if depth > 1:
                e.append(draw(days()))
            if depth > 2:
                e.append(draw(times()) + draw(suffixes))
        if out and draw(st.integers(0, 9)) == 0:
            # The same line twice, or with the UNTIL of the one before.
            e = list(out[-1]) if draw(st.booleans()) else \
                e[:3] + out[-1][3:]
        out.append(e)
    return out


COMMENTS = ['', '#', '# comment', '#Rule\tX\t1990\tonly\t-\tJan\t1\t0\t0\t-',
            '#Zone\tA/B\t0\t-\tGMT', '# Link A B', '   ', '\t', '\t# tabbed',
            '# ünïcödé “quotes” Île-de-France', '  # Zone A/B 1 - X',
            '\t\t\t#1:00\t-\tX', '####', '# "unbalanced', "# it's"]


@st.composite
def sources(draw, max_items=14):
    pnames = draw(st.lists(st.sampled_from(
        ['US', 'EU', 'C-Eur', 'E-EurAsia', 'W-Eur', 'Link', 'Zion', 'Rule',
         'LH', 'Mexico', 'a_b', 'US2']), min_size=1, max_size=4, unique=True))
    znames = draw(st.lists(M.zone_names(), min_size=1, max_size=6,
                           unique=True))
    lnames = draw(st.lists(st.one_of(M.zone_names(), st.sampled_from(
        ['Zulu', 'Link', 'Zone', 'Rule', 'US/East-Indiana'])),
        max_size=5, unique=True))
    items = []
    for n in znames:
        items.append(['Z', n, draw(eras(draw(st.integers(1, 5)), pnames))])
    for n in lnames:
        items.append(['L', draw(st.sampled_from(znames + ['No/Where'])), n])
    for _ in range(draw(st.integers(0, 8))):
        items.append(['R', draw(st.sampled_from(pnames)), draw(rules())])
        if draw(st.integers(0, 11)) == 0:
            items.append(['R', items[-1][1], list(items[-1][2])])
    items = draw(st.permutations(items))
    files = {f: [] for f in FILES}
    spread = draw(st.sampled_from([1, 2, 9]))
    some = draw(st.permutations(FILES))[:spread]
    for it in items:
        f = draw(st.sampled_from(some))
        files[f].append(it)
        if draw(st.integers(0, 3)) == 0:
            files[f].append(['C', draw(st.sampled_from(COMMENTS))])
    return {'files': files, 'layout': draw(st.integers(0, 50))}


class Layout:
    """Chooses separators, trailing comments and line ends."""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.plain = seed == 0
        self.kind = self.r.choice(['tab', 'space', 'mix', 'aligned'])
        self.eol = self.r.choice(['\n', '\n', '\n', '\r\n'])
        self.final_eol = self.r.random() < .7

    def sep(self):
        if self.plain or self.kind == 'tab':
            return '\t'
        if self.kind == 'space':
            return ' '
        if self.kind == 'aligned':
            return ' ' * self.r.randint(1, 6)
        return self.r.choice(['\t', ' ', '\t\t', '  ', ' \t', '\t \t'])

    def tail(self):
        if self.plain or self.r.random() < .6:
            return ''
        return self.r.choice([' ', '\t', ' # note', '\t# Rule X', '#glued',
                              '\t#\t-\tx', '   #', ' # Gyumüri; “a” # b'])

    def line(self, head, cells):
        return head + self.sep() + self.sep().join(cells) + self.tail() \
            if self.plain else \
            head + ''.join(self.sep() + c for c in cells) + self.tail()

    def lead(self):
        """What a continuation line begins with."""
        if self.plain:
            return '\t\t\t'
        return '\t' + self.r.choice(['', '\t', '\t\t', ' ', '   '])

    def noise(self):
        if self.plain or self.r.random() < .85:
            return []
        return [self.r.choice(COMMENTS)]


def render_item(it, lay):
    kind = it[0]
    if kind == 'R':
        return [lay.line('Rule', [it[1]] + it[2])]
    if kind == 'L':
        return [lay.line('Link', [it[1], it[2]])]
    if kind == 'Z':
        out = [lay.line('Zone', [it[1]] + it[2][0])]
        for e in it[2][1:]:
            out += lay.noise()
            cells = list(e)
            first = cells.pop(0) if cells else ''
            out.append(lay.lead() + first + ''.join(
                lay.sep() + c for c in cells) + lay.tail())
        return out
    return [it[1]]


def render(src):
    out = {}
    for i, f in enumerate(FILES):
        lay = Layout(src['layout'] * 100 + i if src['layout'] else 0)
        lines = []
        for it in src['files'].get(f, []):
            lines += render_item(it, lay)
        text = lay.eol.join(lines)
        if lines and (lay.plain or lay.final_eol):
            text += lay.eol
        out[f] = text
    return out


def month(text):
    return [m[:3].lower() for m in M.MONTHS].index(text[:3].lower()) + 1


def split_at(text):
    if text[-1].isdigit():
        return text, ''
    return text[:-1], text[-1]


def want_rule(c):
    from acetimetools.datatypes.attyping import MAX_TO_YEAR
    a = int(c[0])
    to = a if c[1] == 'only' else MAX_TO_YEAR if c[1] == 'max' else int(c[1])
    at, sfx = split_at(c[5])
    return {'from_year': a, 'to_year': to, 'in_month': month(c[3]),
            'on_day': c[4], 'at_time': at, 'at_time_suffix': sfx,
            'delta_offset': c[6], 'letter': c[7]}


def want_era(c):
    from acetimetools.datatypes.attyping import MAX_UNTIL_YEAR
    at, sfx = split_at(c[6]) if len(c) > 6 else ('00:00', 'w')
    return {'offset_string': c[0], 'rules': c[1], 'format': c[2],
            'until_year': int(c[3]) if len(c) > 3 else MAX_UNTIL_YEAR,
            'until_year_only': len(c) <= 4,
            'until_month': month(c[4]) if len(c) > 4 else 1,
            'until_day_string': c[5] if len(c) > 5 else '1',
            'until_time': at, 'until_time_suffix': sfx}


def want(src):
    """What an exact reader finds: policies, zones and links (targets, a list
    per link name)."""
    policies, zones, links = {}, {}, {}
    for f in FILES:
        for it in src['files'].get(f, []):
            if it[0] == 'R':
                policies.setdefault(it[1], []).append(want_rule(it[2]))
            elif it[0] == 'Z':
                zones.setdefault(it[1], []).extend(
                    want_era(e) for e in it[2])
            elif it[0] == 'L':
                links.setdefault(it[2], []).append(it[1])
    return policies, zones, links


def got(x):
    """The extracted records: the fields that stand for source cells."""
    p, z, li = x.get_data()

    def take(r, keys):
        return {k: r.get(k) for k in keys}
    return ({n: [take(r, RULE_KEYS) for r in q['rules']]
             for n, q in p.items() if q['rules']},
            {n: [take(e, ERA_KEYS) for e in q['eras']]
             for n, q in z.items() if q['eras']},
            dict(li))


RULE_KEYS = ['from_year', 'to_year', 'in_month', 'on_day', 'at_time',
             'at_time_suffix', 'delta_offset', 'letter']
ERA_KEYS = ['offset_string', 'rules', 'format', 'until_year',
            'until_year_only', 'until_month', 'until_day_string',
            'until_time', 'until_time_suffix']
