"""A15: comments in generated sources agree with the records they explain."""
import re

from hypothesis import strategies as st

from vlib import canon, decode, expect, gen, outs
from vlib.harness import Part, Violation, require, same
from vlib.model import normalize

RULE = (
    'Random sources and the real TZDB are compiled for each language; the '
    'output is decoded by its own reader, and every comment in the text is '
    'then compared with it: the source line above each rule and era record '
    'must be a line of that policy or zone in the source, and reading it '
    'again must give the record; the arithmetic next to a field must '
    'evaluate to the field, from the exact value; years, letters, formats, '
    'indexes, counts, names, identifiers, link targets and buffer sizes '
    'given in comments must be those of the record, table entry or constant '
    'they stand next to. Non-trivial: at least eight source lines and forty '
    'other comments were compared, from two zones and a policy.')
LANGS = ['arduino', 'c', 'go', 'python']

LOW_RULE = ['fromyear', 'toyear', 'inmonth', 'ondayofweek', 'ondayofmonth',
            'attimecode', 'attimemodifier', 'deltacode', 'letterindex']
HIGH_RULE = ['fromyear', 'toyear', 'inmonth', 'ondayofweek', 'ondayofmonth',
             'attimemodifier', 'attimecode', 'deltaminutes', 'letterindex']
LOW_ERA = ['zonepolicy', 'format', 'offsetcode', 'deltacode', 'untilyear',
           'untilmonth', 'untilday', 'untiltimecode', 'untiltimemodifier']
HIGH_ERA = ['zonepolicy', 'format', 'offsetcode', 'offsetremainder',
            'deltaminutes', 'untilyear', 'untilmonth', 'untilday',
            'untiltimecode', 'untiltimemodifier']
CONTEXT = ['startyear', 'untilyear', 'startyearaccurate', 'untilyearaccurate',
           'baseyear', 'maxtransitions', 'tzversion', 'numfragments',
           'numletters', 'fragments', 'letters']
OTHER = {'startyear': CONTEXT, 'name': ['name', 'zoneid', 'zonecontext',
                                        'numeras', 'eras', 'targetinfo'],
         'rules': ['rules', 'numrules']}
SUFFIX = {'w': 0, 's': 0x10, 'u': 0x20, 'g': 0x20, 'z': 0x20}


def case():
    @st.composite
    def s(draw):
        c = draw(gen.compiled(min_zones=2, max_zones=6, fine=True))
        c['style'] = 0
        c['lang'] = draw(st.sampled_from(LANGS))
        return c
    return s()


def tzdb_case():
    return st.builds(lambda c, lang: dict(c, lang=lang), outs.tzdb_cases(),
                     st.sampled_from(LANGS))


def arithmetic(text, what):
    """Value of an explanation such as `kSuffixU + minute=5`."""
    t = re.sub(r'k?(?:Atc)?Suffix([WSU])\b',
               lambda m: str(SUFFIX[m.group(1).lower()]), text)
    t = re.sub(r'[A-Za-z_]\w*\s*=', '', t)
    require(re.fullmatch(r'[-+*/%()<\d ]+', t), f'{what}: comment {text!r}')
    try:
        return eval(t.replace('/', '//'), {'__builtins__': {}})
    except (SyntaxError, ArithmeticError, TypeError):
        raise Violation(f'{what}: comment {text!r}')


class Source:
    """The lines of the source by their owner."""

    def __init__(self, files):
        self.rules, self.eras = {}, {}
        for text in files.values():
            cur = None
            for line in text.split('\n'):
                t = line.split('#')[0].split()
                if not t:
                    continue
                if line.startswith('Rule'):
                    self.rules.setdefault(t[1], set()).add(' '.join(t))
                elif line.startswith('Zone'):
                    cur = self.eras.setdefault(t[1], set())
                    cur.add(' '.join(t[2:]))
                elif line[0].isspace() and cur is not None:
                    cur.add(' '.join(t))


class Scan:
    def __init__(self, c, lang, source, rec):
        self.c, self.lang, self.src = c, lang, source
        self.cfg = c.cfg
        self.db = outs.decode_lang(c, lang)
        self.tiny = lang in ('arduino', 'c') and c.cfg['tiny']
        self.low = c.cfg['scope'] != 'complete'
        self.zone_of = {normalize(n): n for n in self.db['zones']}
        self.link_of = {normalize(n): n for n in self.db['links']}
        self.policy_of = {normalize(n): n for n in c.policy_names}
        self.raws = self.notes = 0
        self.rec = rec

    def eq(self, got, want, what):
        self.notes += 1
        same(got, want, f'{self.lang}: comment: {what}')

    # -- the source line of a record

    def raw(self, kind, name, i, comment):
        what = f'{self.lang}: source line of {kind} {name}, record {i}'
        require(comment is not None, f'{what}: none')
        anchor = comment.startswith('Anchor: ')
        extended = comment.startswith('Extended: ') and kind == 'zone'
        if anchor or extended:
            comment = comment.split(': ', 1)[1]
        words = ' '.join(comment.split())
        own = (self.src.rules if kind == 'policy' else self.src.eras)[name]
        require(words in own, f'{what}: {words!r} is not a line of {name}')
        self.raws += 1
        if kind == 'policy':
            r = expect.parse_model({'africa': words})['policies'][0][1][0]
            w = canon.rule(r, self.cfg)
            w['sfx'] = 'u' if w['sfx'] in 'gz' else w['sfx']
            std = w.pop('std')
            true = self.c.true['policies'][normalize(name)]
            if anchor:
                require(std, f'{what}: the anchor takes the letter of a rule '
                        f'that is not standard time: {words!r}')
                w.update(frm=-32767, to=-32767, month=1, dow=0, dom=1, at=0,
                         sfx='w', save=0)
                self.rec.label('anchor')
        else:
            e = expect.parse_model(
                {'africa': 'Zone\tA/B\t' + words})['zones'][0][1][0]
            w = canon.era(e, self.cfg)
            w['policy'] = w['policy'] and normalize(w['policy'])
            if w['until']:
                u = w['until']
                w['until'] = u[:4] + ('u' if u[4] in 'gz' else u[4],)
            true = self.c.true['zones'][name]['eras']
            if extended:
                # the last era kept has no end any more
                require(w['until'] is not None and i == len(true) - 1,
                        f'{what}: {words!r} was not extended')
                w['until'] = None
                self.rec.label('extended')
        same(true[i], w, f'{what}: {words!r}')

    # -- explanations of fields

    def seconds(self, x, field):
        """The exact value in a comment such as `(-3600/15)`."""
        return {'off': x.get('off'), 'att': x.get('at'), 'ats': x.get('at'), 'unt': (
            x['until'][3] if x.get('until') else 0)}[field[:3]]

    def field(self, kind, name, i, label, value, note):
        what = f'{kind} {name}, record {i}: {label}'
        true = self.true_record(kind, name, i)
        if 'year' in label:
            y = true['until'] and true['until'][0] if kind == 'zone' else \
                true['frm' if label.startswith('from') else 'to']
            y = 32767 if y is None else y
            self.eq(int(note), y, f'{what}: {note!r}')
        elif label == 'letterindex':
            self.eq(note, f'"{true["letter"]}"', what)
        else:
            self.eq(arithmetic(note, what), int(value), f'{what}: {note!r}')
            m = re.fullmatch(r'\s*(-?\d+)\s*[/%]\s*15', note)
            if m:
                self.eq(int(m.group(1)), self.seconds(true, label),
                        f'{what}: seconds')
            self.parts(true, kind, label, note, what)

    def parts(self, true, kind, label, note, what):
        """Named parts of an explanation."""
        for k, v in re.findall(r'(\w+)\s*=\s*(-?\d+)', note):
            v = int(v)
            t = true['at'] if kind == 'policy' else (
                true['until'][3] if true['until'] else 0)
            want = {'seconds': t % 15, 'remainder': t % 15,
                    'minute': t // 60 % 15,
                    'deltaminutes': true['save'] // 60,
                    'offsetminute': true.get('off', 0) // 60 % 15}.get(
                        k.replace('_', '').lower())
            if want is not None:
                self.eq(v, want, f'{what}: {k} in {note!r}')
        m = re.search(r'Suffix([WSU])\b', note)
        if m:
            sfx = true['sfx'] if kind == 'policy' else (
                true['until'][4] if true['until'] else 'w')
            self.eq(m.group(1).lower(), sfx, f'{what}: suffix in {note!r}')

    def true_record(self, kind, name, i):
        if kind == 'policy':
            return self.c.true['policies'][normalize(name)][i]
        return self.c.true['zones'][name]['eras'][i]

    # -- names

    def desc(self, text, ident, what):
        """`A/B`, or `A/C -> A/B` for a link, next to an identifier."""
        name, _, target = text.partition(' -> ')
        self.eq(normalize(name), ident, f'{what}: {text!r}')
        require(name in self.db['zones'] or name in self.db['links'],
                f'{what}: {name!r} is not in the database')
        if target:
            require(name in self.db['links'], f'{what}: {name} is a zone')
            self.eq(target, self.db['links'][name]['target'],
                    f'{what}: {text!r}')
        return name

    def ident(self, ident, value, text, what):
        name = self.desc(text, ident, what)
        if value is not None:
            x = self.db['zones'].get(name) or self.db['links'][name]
            self.eq(int(value, 16), x['id'], f'{what} {text!r}')

    def index(self, i, text, table, what):
        require(0 <= i < len(table), f'{what}: index {i}')
        self.eq(text, table[i], f'{what}: entry {i}')

    # -- C++ and C

    def c_file(self, text):
        lines = text.split('\n')
        kind = name = None
        i = 0
        before = None
        table = None
        defs = {}
        group = []
        for k, line in enumerate(lines):
            s = line.strip()
            if not s:
                continue
            m = re.match(r'static const \w+(?:::\w+)? k(?:Atc)?Zone(Era|Rules)'
                         r'(\w+?)\[\]', s)
            if m:
                names = self.zone_of if m.group(1) == 'Era' else \
                    self.policy_of
                kind = 'zone' if m.group(1) == 'Era' else 'policy'
                name, i, group = names[m.group(2)], -1, []
            elif s == '{':
                i += 1
                if kind:
                    prev = before[2:].strip() if before and \
                        before.startswith('//') else None
                    self.raw(kind, name, i, prev)
                group = []
            elif s in ('},', '};'):
                self.group(kind if s == '},' else None, group)
                group = []
                if s == '};':
                    if kind:
                        self.all_there(kind, name, i + 1)
                    kind = None
            else:
                m = re.match(r'(.*?)\s*/\*\s*(\w+)\s*(?:\((.*)\))?\s*\*/,?$',
                             s)
                if m and not s.startswith('#'):
                    label = m.group(2).replace('_', '').lower()
                    group.append(re.sub('tiny$', '', label))
                    if kind and m.group(3) is not None:
                        self.field(kind, name, i, label, m.group(1),
                                   m.group(3))
            before = s
            self.heading(lines, k)
            # -- declarations and tables
            m = re.match(r'extern const \S+ k\w*?Zone(\w+);\s*// (.*)$', s)
            if m:
                self.ident(self.strip_ns(m.group(1), s), None, m.group(2), s)
            m = re.match(r'(?:const uint32_t|#define) k(\w*?)ZoneId(\w+)\s'
                         r'(?:= )?(0x\w+);?\s*(?://|/\*) (.*?)(?: \*/)?$', s)
            if m:
                self.ident(m.group(2), m.group(3), m.group(4), s)
            m = re.match(r'(?:const \w+|#define) k(\w*?)ZoneBufSize(\w+)\s'
                         r'(?:= )?(\d+);?\s*(?://|/\*) (.*) in (-?\d+)'
                         r'(?: \*/)?$', s)
            if m:
                self.ident(m.group(2), None, m.group(4), s)
                b = self.c.t[self.lang].buf_sizes[m.group(4)]
                self.eq((int(m.group(3)), int(m.group(5))),
                        (b.number, b.year), s)
                self.rec.label('buffer size')
            m = re.match(r'&k\w*?Zone(\w+),\s*// (0x\w+), (.*)$', s)
            if m:
                self.ident(self.strip_ns(m.group(1), s), m.group(2),
                           m.group(3), s)
            m = re.match(r'static const char k(Letter|Fragment)(\d+)\[\].*?'
                         r'= (".*");$', s)
            if m:
                defs[m.group(1), int(m.group(2))] = m.group(3)
            m = re.match(r'k(Letter|Fragment)(\d+),\s*//'
                         r"(?: '\\x(\w\w)')? (\".*\")$", s)
            if m:
                n = int(m.group(2))
                self.eq(m.group(4), defs[m.group(1), n], s)
                if m.group(3):
                    self.eq(int(m.group(3), 16), n, s)
                    self.rec.label('fragment')
            if re.match(r'static const char ?\* ?const \w+\[\]', s):
                table = 0
            m = re.match(r'/\*(\\x)?(\w+)\*/ (".*"|NULL),$', s)
            if m and table is not None:
                self.eq(int(m.group(2), 16 if m.group(1) else 10), table, s)
                table += 1
                if m.group(1):
                    self.rec.label('fragment')

    def strip_ns(self, ident, line):
        """C identifiers hold the name of the database before `Zone`."""
        ns = 'k' + self.cfg['ns'] + 'Zone'
        if self.lang == 'c' and ns in line:
            return line.split(ns, 1)[1].split(';')[0].split(',')[0]
        return ident

    def group(self, kind, labels):
        if not labels:
            return
        if kind is None:
            want = OTHER.get(labels[0])
            if want is CONTEXT and self.lang == 'c':
                want = [x for x in want if x != 'baseyear']
            self.eq(labels, want, 'labels of a record')
            return
        want = {('zone', True): LOW_ERA, ('zone', False): HIGH_ERA,
                ('policy', True): LOW_RULE,
                ('policy', False): HIGH_RULE}[kind, self.low]
        self.eq(labels, want, f'labels of a {kind} record')

    def all_there(self, kind, name, n):
        have = self.db['policies'][normalize(name)] if kind == 'policy' \
            else self.db['zones'][name]['eras']
        same(n, len(have), f'{self.lang}: records read of {kind} {name}')

    # -- headings of records

    def heading(self, lines, k):
        """Returns (kind, name) if line k names a zone or policy whose records
        follow, after checking the counts that follow in the heading."""
        m = re.match(r'\s*(?://|#)\s*(Zone|Policy|Link) ?[nN]ame: (.*)$',
                     lines[k])
        if not m:
            return None
        kind, name = m.groups()
        kind = kind.lower()
        what = lines[k].strip()
        if kind == 'link':
            self.eq(' -> ' in name, True, what)
            self.desc(name, normalize(name.partition(' -> ')[0]), what)
            return None
        if kind == 'zone':
            require(name in self.db['zones'], f'{what}: no such zone')
            n = len(self.db['zones'][name]['eras'])
        else:
            require(name in self.policy_of.values(), f'{what}: no such '
                    'policy')
            n = len(self.db['policies'][normalize(name)])
        for line in lines[k + 1:k + 4]:
            c = re.match(r'\s*(?://|#)\s*(?:Zone )?(Eras|Rules|Era ?[cC]ount|'
                         r'Rule ?[cC]ount): (\d+)$', line)
            if c:
                self.eq(int(c.group(2)), n, f'{what}: {line.strip()}')
        return kind, name

    # -- Python

    def py_file(self, text):
        lines = text.split('\n')
        kind = name = before = None
        link = None
        i = -1
        for k, line in enumerate(lines):
            s = line.strip()
            m = re.match(r'ZONE_(ERAS|RULES)_(\w+): ', line)
            if m:
                kind = 'zone' if m.group(1) == 'ERAS' else 'policy'
                name = (self.zone_of if kind == 'zone' else
                        self.policy_of)[m.group(2)]
                i = -1
            elif s == '{' and kind:
                i += 1
                self.raw(kind, name, i, before[1:].strip()
                         if before and before.startswith('#') else None)
            elif line.startswith(']') and kind:
                self.all_there(kind, name, i + 1)
                kind = None
            m = re.match(r'# Link name: (.*)$', line)
            if m:
                link = m.group(1)
            m = re.match(r'ZONE_INFO_(\w+): ', line)
            if m and link is not None:
                self.desc(link, m.group(1), line)
                link = None
            self.heading(lines, k)
            if s:
                before = s

    # -- Go

    def go_file(self, text):
        lines = text.split('\n')
        kind = name = before = None
        i = -1
        total = {'zone': 0, 'policy': 0}
        info = None
        fields = {}
        policies = [None] + sorted(self.c.policy_names)
        order = self.db['all_registry']
        infos = rules = 0
        for k, line in enumerate(lines):
            s = line.strip()
            h = self.heading(lines, k)
            if h:
                if kind:
                    self.all_there(kind, name, i + 1)
                kind, name = h
                i = -1
                for x in lines[k + 1:k + 4]:
                    m = re.match(r'\s*// (?:Era|Rule)Index: (\d+)$', x)
                    if m:
                        self.eq(int(m.group(1)), total[kind],
                                f'{s}: {x.strip()}')
            if line.startswith('}') and kind:
                self.all_there(kind, name, i + 1)
                kind = None
            m = re.match(r'var \w+ = \[\]zoneinfo\.ZoneInfoRecord\{', line)
            if m:
                info = -1
            elif s == '{' and kind:
                i += 1
                total[kind] += 1
                self.raw(kind, name, i, before[2:].strip()
                         if before.startswith('//') else None)
            elif s == '{' and info is not None:
                info += 1
                infos += 1
                n = order[info]
                m = re.match(r'// (\d+): (Zone|Link) (.*)$', before)
                if m:
                    self.eq(int(m.group(1)), info, before)
                    self.eq(m.group(2) == 'Link', n in self.db['links'],
                            before)
                    self.eq(self.desc(m.group(3), normalize(n), before), n,
                            before)
            m = re.match(r'\t\t(\w+): (.*?),(?: // (.*))?$', line)
            if m and m.group(3) is not None:
                self.go_field(kind, name, i, order[info] if info is not None
                              else None, m.groups())
            m = re.match(r'\t\{RuleIndex: (\d+), RuleCount: (\d+)\}, '
                         r'// (\d+): PolicyName: (.*)$', line)
            if m:
                a, n, j, p = m.groups()
                self.eq(int(j), rules, s)
                p = None if p.lower() == '(none)' else p
                self.eq(p, policies[rules], s)
                if p:
                    self.eq(int(n), len(self.db['policies'][normalize(p)]), s)
                rules += 1
            m = re.match(r'\tZoneID(\w+) uint32 = (0x\w+) // (.*)$', line)
            if m:
                self.ident(*m.groups(), s)
            m = re.match(r'\tZoneInfoIndex(\w+) uint16 = (\d+) // (.*)$',
                         line)
            if m:
                self.desc(m.group(3), m.group(1), s)
                self.index(int(m.group(2)), m.group(3), order, s)
            if s:
                before = s

    def go_field(self, kind, name, i, info, m):
        label, value, note = m
        what = f'go: {name or info}, record {i}: {label}: {note!r}'
        if label == 'PolicyIndex':
            p = re.fullmatch(r'PolicyName: (.*)', note)
            require(p, what)
            have = self.true_record(kind, name, i)['policy']
            self.eq(None if p.group(1) == '(none)' else
                    normalize(p.group(1)), have, what)
        elif label == 'FormatIndex':
            f = self.true_record(kind, name, i)['fmt']
            self.eq(note, '"%s"' % ('' if f == '%z' else
                                    f.replace('%s', '%')), what)
        elif label == 'LetterIndex':
            self.eq(note, '"%s"' % self.true_record(kind, name, i)['letter'],
                    what)
        elif label == 'NameIndex':
            self.eq(note, f'"{info}"', what)
        elif label == 'EraCount':
            self.eq(note == 'IsLink=true', info in self.db['links'], what)
        elif label == 'TargetIndex':
            require(info in self.db['links'], what)
            self.eq(note, self.db['links'][info]['target'], what)
        elif label.startswith(('Offset', 'At', 'Until')):
            self.field(kind, name, i, label.lower(), value, note)


def fn(case, rec):
    lang = case['lang']
    c = outs.compile_case(case, [lang], rec)
    if c is None or c.refused:
        return
    s = Scan(c, lang, Source(outs.source(case)), rec)
    read = {'arduino': s.c_file, 'c': s.c_file, 'go': s.go_file,
            'python': s.py_file}[lang]
    for f in sorted(c.outs[lang]):
        read(c.outs[lang][f])
    rec.label(lang)
    want = sum(len(z['eras']) for z in s.db['zones'].values()) + sum(
        map(len, s.db['policies'].values()))
    same(s.raws, want, f'{lang}: source lines above records')
    rec.nontrivial(want >= 8 and (s.notes >= 40 or lang == 'python')
                   and len(s.db['zones']) > 1 and bool(s.db['policies']))


PARTS = [Part('random', gen.anywhere(case), fn, 1200, 24000),
         Part('tzdb', tzdb_case, fn, 32, 640),
         gen.big_part(fn, 'lang', LANGS)]
