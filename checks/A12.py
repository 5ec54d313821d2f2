"""A12: counts and sizes stated in the generated files are true."""
import re

from hypothesis import strategies as st

from checks import A05
from vlib import decode, gen, outs, pipeline as P
from vlib.harness import Part, decoding, fresh_dir, require, same

RULE = (
    'Random sources with irregular rules (so that zones, links and policies '
    'are removed or noted) and the real TZDB, compiled for C++, C, Go or '
    'Python. The data of the files is decoded; then every statement of the '
    'comments of every file is recomputed from it: record counts, zones and '
    'links supported and unsupported, years, sizes per record type (from the '
    'field widths of the record layouts) and their total, lengths of names, '
    'letters, formats and fragments, counts at the head of every section and '
    'record, and each list of unsupported or notable names against the '
    'compiler\'s lists. Non-trivial: something is removed or noted.')
ASSUMPTIONS = ['the size of a context record (16 or 24) is a constant of the '
               'target library; only its part in the total is checked']

LANGS = ['arduino', 'c', 'go', 'python']


def case():
    return A05.case()


def tzdb_case():
    return A05.tzdb_case()


def comments(text):
    """Comment lines without their marker; None where a line is no
    comment."""
    for ln in text.split('\n'):
        m = re.match(r'\s*(?://|#(?!define|ifndef|endif|include|pragma))'
                     r' ?(.*)$', ln)
        yield m.group(1) if m else None


def width(layout):
    return sum(2 if rng is None else 1 if rng in (decode.I8, decode.U8)
               else 2 if rng in (decode.I16, decode.U16) else 4
               for _, rng in layout)


def round4(n):
    return -(-n // 4) * 4


def sizes(cfg, db):
    """Expected (8-bit, 32-bit) sizes of C++ and C data."""
    low = cfg['scope'] != 'complete'
    rule = decode.LOW_RULE if low else decode.HIGH_RULE
    era = decode.LOW_ERA if low else decode.HIGH_ERA
    rules = sum(map(len, db['policies'].values()))
    eras = sum(len(z['eras']) for z in db['zones'].values())
    names = db['stored_names']
    used = {'' if e['fmt'] == '%z' else e['fmt'].replace('%s', '%')
            for z in db['zones'].values() for e in z['eras']}
    frags = [f for f in db['fragments'] if f is not None]
    # The table of fragments also has an unused first entry, whose pointer
    # may or may not be counted.
    out = []
    for ptr, r, p, e, i in (
            (2, width(rule), 3, width(era), width(decode.INFO)),
            (4, round4(width(rule)), 8, round4(width(era) + 4), 24)):
        out.append({
            'Rules': {r * rules}, 'Policies': {p * len(db['policies'])},
            'Eras': {e * eras}, 'Zones': {i * len(db['zones'])},
            'Links': {i * len(db['links'])},
            'Registry': {ptr * len(names)},
            'Formats': {sum(len(f) + 1 for f in used)},
            'Letters': {sum(len(x) + 1 + ptr for x in db['letters'])},
            'Fragments': {sum(len(f) + 1 + ptr for f in frags),
                          sum(len(f) + 1 + ptr for f in frags) + ptr},
            'Names': {sum(len(x) + 1 for x in names.values())},
            'original': {sum(len(n) + 1 for n in names)}})
    return out


def go_sizes(db):
    s, a = db['strings'], db['arrays']
    infos = len(s['ZoneInfosData'])
    unit = infos // max(1, len(db['zones']) + len(db['links']))
    return {
        'Rules': {len(s['ZoneRulesData'])},
        'Policies': {len(s['ZonePoliciesData'])},
        'Eras': {len(s['ZoneErasData'])},
        'Zones': {unit * len(db['zones'])},
        'Links': {unit * len(db['links'])},
        'Registry': {0}, 'Fragments': {0},
        'Formats': {len(s['FormatData']) + 2 * len(a['FormatOffsets'])},
        'Letters': {len(s['LetterData']) + len(a['LetterOffsets'])},
        'Names': {len(s['NameData']) + 2 * len(a['NameOffsets'])}}


SECTION = re.compile(
    r'(Unsupp?orted|Notable) (zone policies|policies|zones|links): (\d+)')


class Facts:
    """What the comments may state."""

    def __init__(self, c, lang, db, t):
        z, li, p = db['zones'], db['links'], db['policies']
        self.zones, self.links = len(z), len(li)
        self.policies = len(p)
        self.eras = {n: len(x['eras']) for n, x in z.items()}
        self.rules = {n: len(x) for n, x in p.items()}
        self.neras = sum(self.eras.values())
        self.nrules = sum(self.rules.values())
        self.both = self.zones + self.links
        self.targets = {n: x['target'] for n, x in li.items()}
        self.removed = {'zones': t.removed_zones, 'links': t.removed_links,
                        'policies': t.removed_policies}
        self.notable = {'zones': t.merged_notable_zones,
                        'links': t.notable_links,
                        'policies': t.notable_policies}


def check_header(name, text, f, cfg, t, lang, db):
    head = text.split('DO NOT EDIT')[0].split('\n')
    values, sections, block = {}, {}, None
    for ln in head:
        m = re.match(r'(?://|#) ?(  )?([A-Z][\w /()-]*):(?: +(.*))?$', ln)
        if not m:
            continue
        indent, key, v = m.groups()
        if indent and block is not None:
            sections.setdefault(block, {})[key] = v
        elif v:
            values[key] = v
        else:
            block = key

    def need(key, want):
        require(key in values, f'{name}: the header has no {key!r}')
        same(values[key], want, f'{name}: {key}')
    rz, rl = len(f.removed['zones']), len(f.removed['links'])
    need('Supported Zones', f'{f.both} ({f.zones} zones, {f.links} links)')
    need('Unsupported Zones', f'{rz + rl} ({rz} zones, {rl} links)')
    need('Requested Years', f'[{cfg["start"]},{cfg["until"]}]')
    need('Accurate Years',
         f'[{t.start_year_accurate},{t.until_year_accurate}]')
    need('Original Years', f'[{t.original_min_year},{t.original_max_year}]')
    need('Generated Years',
         f'[{t.generated_min_year},{t.generated_max_year}]')
    need('Lower/Upper Truncated',
         f'[{t.lower_truncated},{t.upper_truncated}]')
    same({k: int(v) for k, v in sections.get('Records', {}).items()},
         {'Infos': f.both, 'Eras': f.neras, 'Policies': f.policies,
          'Rules': f.nrules}, f'{name}: Records')
    if lang == 'python':
        return
    need('Estimator Years',
         f'[{t.estimator_min_year},{t.estimator_max_year}]')
    need('Max Buffer Size', str(t.max_buf_size))
    blocks = [('Memory', go_sizes(db))] if lang == 'go' else list(zip(
        ('Memory (8-bits)', 'Memory (32-bits)'), sizes(cfg, db)))
    for b, want in blocks:
        require(b in sections, f'{name}: the header has no {b!r}')
        got = dict(sections[b])
        m = re.fullmatch(r'(\d+)(?: \(original: (\d+)\))?', got['Names'])
        require(m is not None, f'{name}: {b}: Names: {got["Names"]}')
        got['Names'] = m.group(1)
        if 'original' in want:
            got['original'] = m.group(2)
        got = {k: int(v) for k, v in got.items()}
        for k, v in want.items():
            require(k in got, f'{name}: {b} has no {k}')
            require(got[k] in v, f'{name}: {b}: {k} is {got[k]}, expected '
                    f'{sorted(v)}')
        same(got['TOTAL'], sum(v for k, v in got.items()
                               if k not in ('TOTAL', 'original')),
             f'{name}: {b}: TOTAL')


def check_body(name, text, f):
    """Statements after the header; returns the lists it holds."""
    body = text.split('DO NOT EDIT', 1)[1]
    lines = list(comments(body))
    listed = {}
    subject = None
    index = {'EraIndex': 0, 'RuleIndex': 0}
    for i, ln in enumerate(lines):
        if ln is None:
            subject = None
            continue
        m = SECTION.fullmatch(ln)
        if m:
            kind = m.group(2).replace('zone ', '')
            src = f.notable if m.group(1) == 'Notable' else f.removed
            require((m.group(1)[0], kind) not in listed,
                    f'{name}: two lists {ln!r}')
            listed[m.group(1)[0], kind] = True
            check_list(name, ln, lines[i + 1:], src[kind], int(m.group(3)))
            continue
        m = re.fullmatch(r'(\w[\w ]*): (.*)', ln)
        if not m:
            continue
        k, v = m.groups()
        if k in ('Zone name', 'ZoneName'):
            subject = ('zone', v)
            require(v in f.eras, f'{name}: {ln}')
        elif k in ('Policy name', 'PolicyName'):
            subject = ('policy', decode.normalize(v))
            require(subject[1] in f.rules, f'{name}: {ln}')
        elif k in ('Link name', 'LinkName'):
            a, _, b = v.partition(' -> ')
            require(a in f.targets, f'{name}: {ln}')
            same(b, f.targets[a], f'{name}: target of {a}')
        elif k in ('Eras', 'Zone Eras', 'Era count', 'EraCount') and subject:
            same(int(v), f.eras[subject[1]], f'{name}: {k} of {subject[1]}')
            index['EraIndex'] += int(v)
        elif k in ('Rules', 'Rule count', 'RuleCount') and subject:
            same(int(v), f.rules[subject[1]], f'{name}: {k} of {subject[1]}')
            index['RuleIndex'] += int(v)
        elif k in index:
            same(int(v), index[k], f'{name}: {k} of {subject}')
        elif k in ('Total', 'Supported Zones and Links'):
            require(v in (str(f.both), f'{f.both} ({f.zones} zones, '
                                       f'{f.links} links)'),
                    f'{name}: {ln}')
        else:
            want = {'zones': f.zones, 'links': f.links, 'eras': f.neras,
                    'numeras': f.neras, 'numrules': f.nrules,
                    'rules': f.nrules, 'policies': f.policies,
                    'zone policies': f.policies}
            k2 = k.lower().replace('supported ', '')
            if k2 in want:
                same(v, str(want[k2]), f'{name}: {k}')
    return listed


def check_list(name, head, lines, want, count):
    """The list below a heading."""
    names, blocks = [], {}
    started = False
    for ln in lines:
        if ln is None or ln.startswith('---'):
            if names or (started and ln is not None):
                break
            started = started or ln is not None
            continue
        m = re.match(r'(\S+) \{', ln)
        if m:
            names.append(m.group(1))
            blocks[m.group(1)] = ln
        elif names:
            blocks[names[-1]] += '\n' + ln
    same(count, len(want), f'{name}: {head!r}')
    same(names, sorted(want), f'{name}: names below {head!r}')
    for n, reasons in want.items():
        text = blocks[n]
        for r in reasons:
            if isinstance(r, str):
                require(r in text, f'{name}: {n}: no mention of {r!r}')
                continue
            for p, rs in r.items():
                require(re.search(r'\b' + re.escape(p) + r' \{', text),
                        f'{name}: {n}: no notes of policy {p}')
                for x in rs:
                    require(x in text, f'{name}: {n}: no mention of {x!r}')


def fn(case, rec):
    lang, cfg = case['lang'], case['cfg']
    c = outs.compile_case(case, [lang], rec)
    if c is None or c.refused:
        return
    t = c.t[lang]
    db = outs.decode_lang(c, lang)
    f = Facts(c, lang, db, t)
    listed = {}
    for name, text in sorted(c.outs[lang].items()):
        with decoding(name):
            if 'DO NOT EDIT' not in text:
                continue
            check_header(name, text, f, cfg, t, lang, db)
            listed.update(check_body(name, text, f))
    for kind in ('zones', 'links', 'policies'):
        for what in 'UN':
            src = f.removed if what == 'U' else f.notable
            require((what, kind) in listed or not src[kind],
                    f'{lang}: no list of {kind} ({what})')
    if lang in ('arduino', 'c'):
        with decoding('buffer sizes'):
            buffers(c, lang, db, t)
    rec.label(lang)
    rec.nontrivial(any(map(len, f.removed.values()))
                   or any(map(len, f.notable.values())))


def buffers(c, lang, db, t):
    want = {decode.normalize(n): b for n, b in t.buf_sizes.items()}
    same(db['buf_constants'], {n: b[0] for n, b in want.items()},
         f'{lang}: buffer size constants')
    text = c.outs[lang]['zone_infos.h']
    m = re.search(r'// MaxBufSize: (\d+)', text)
    require(m is not None, f'{lang}: MaxBufSize is not stated')
    same(int(m.group(1)), max(b[0] for b in want.values()),
         f'{lang}: MaxBufSize')
    for n, y in re.findall(r'BufSize(\w+).*// \S+ in (-?\d+)', text):
        same(int(y), want[n][1], f'{lang}: year of the buffer size of {n}')


def no_estimate(case, rec):
    """Without the estimator there are no buffer sizes to state."""
    cfg, lang = dict(case['cfg'], estimate=False), case['lang']
    try:
        t = P.transform(outs.source(case), cfg)
    except P.Refused:
        return
    want = decode.expected(t, cfg)
    if not t.zones_map or outs.misfit(want, cfg, lang):
        return
    zidb = P.finish(t, cfg, [lang])
    d = fresh_dir('out')
    P.generate(zidb, cfg, lang, d)
    c = outs.Compiled()
    c.cfg, c.outs = cfg, {lang: P.read_dir(d)}
    c.policy_names = sorted(t.policies_map)
    db = outs.decode_lang(c, lang)
    f = Facts(c, lang, db, t)
    for name, text in sorted(c.outs[lang].items()):
        with decoding(name):
            if 'DO NOT EDIT' in text:
                check_header(name, text, f, cfg, t, lang, db)
                check_body(name, text, f)
    rec.label('no estimate')
    rec.nontrivial(len(t.zones_map) > 1)


PARTS = [Part('random', gen.anywhere(case), fn, 2000, 50000),
         Part('no_estimate', case, no_estimate, 200, 5000),
         Part('tzdb', tzdb_case, fn, 48, 960),
         gen.big_part(fn, 'lang', LANGS)]
