"""A10: letter and format tables recover every abbreviation."""
import json

from hypothesis import strategies as st

from vlib import gen, native, outs, pipeline as P
from vlib.harness import Part, decoding, fresh_dir, require, same

RULE = (
    'Random policies of up to 40 rules whose LETTERs and zones whose FORMATs '
    'come from pools with shared prefixes, digits, signs, the empty letter '
    'and many repetitions (removed ones and unused policies included), and '
    'the real TZDB, compiled for C++, C and Go. The raw tables are read from '
    'the files: strictly sorted, starting with the empty string, exactly the '
    'strings in use, offsets 0..length without gap; every rule and era read '
    'through them must give the source strings; the JSON index maps must '
    'describe the same tables. Non-trivial: four or more distinct letters or '
    'formats.')

ALPHA = 'ABDSTWZabgz0129+-'
LANGS = ['arduino', 'c', 'go']


@st.composite
def case(draw):
    cfg = draw(gen.configs())
    cfg.update(start=draw(st.sampled_from([1990, 1990, 2000, 2010])),
               until=draw(st.sampled_from([2030, 2050])), base=2100)
    one = draw(st.booleans())
    word = st.text(ALPHA, min_size=1, max_size=1 if one else 5)
    letters = draw(st.lists(word, min_size=0, max_size=25, unique=True))
    letters = [x for x in letters if x not in ('-', '0')] + ['-', 'S']
    # a letter "~" cannot be written in a time zone abbreviation
    heads = draw(st.lists(st.text('ABCEMTabz', min_size=1, max_size=4),
                          min_size=1, max_size=12, unique=True))
    fixed = draw(st.lists(st.text('ABMTabz019+-', min_size=3, max_size=6),
                          min_size=1, max_size=10, unique=True))
    fixed = [x for x in fixed if x.strip('-')] or ['LMT']
    npol = draw(st.integers(1, 4))
    pols = []
    for p in range(npol):
        n = draw(st.sampled_from([1, 2, 3, 8, 20, 40]))
        rules = [{'frm': 1980, 'to': 1980, 'month': 6, 'on': [0, 10],
                  'at': 0, 'sfx': '', 'save': 0,
                  'letter': draw(st.sampled_from(letters))}]
        for i in range(n):
            y = 1985 + draw(st.integers(0, 60))
            rules.append({
                'frm': y, 'to': y, 'month': draw(st.integers(2, 11)),
                'on': [0, draw(st.integers(2, 28))], 'at': 7200, 'sfx': '',
                'save': 3600 * draw(st.integers(0, 1)),
                'letter': draw(st.sampled_from(letters))})
        pols.append([f'P{p}', rules])
    zones = []
    for z in range(draw(st.integers(1, 5))):
        eras = []
        ys = sorted(draw(st.sets(st.integers(1986, 2045), max_size=8)))
        for y in ys + [None]:
            if draw(st.integers(0, 2)):
                h = draw(st.sampled_from(heads))
                r = {'policy': f'P{draw(st.integers(0, npol - 1))}'}
                fmt = draw(st.sampled_from(
                    [h + '%s', '%s', h + '%sT', f'{h}T/{h}S', '%z',
                     '%s' + h]))
            else:
                r, fmt = None, draw(st.sampled_from(fixed + ['%z']))
            eras.append({'off': 3600 * z, 'rules': r, 'fmt': fmt,
                         'until': None if y is None else {'y': y}})
        zones.append([f'Zone/A{z}', eras])
    cfg['compress'] = draw(st.booleans())
    return {'model': {'policies': pols, 'zones': zones, 'links': []},
            'cfg': cfg, 'style': 0}


def strict_sorted(xs, what):
    for a, b in zip(xs, xs[1:]):
        require(a < b, f'{what}: {a!r} before {b!r}')


def offsets(db, what, width):
    data, off = db['strings'][what + 'Data'], db['arrays'][what + 'Offsets']
    # a sentinel "~" may follow the last string
    require(off[0] == 0 and data[off[-1]:] in (b'', b'~'),
            f'{what}Offsets: {off[:3]}..{off[-1]} over {len(data)} bytes')
    require(data.isascii(), f'{what}Data is not ASCII')
    strict_sorted([-1] + off[1:], f'{what}Offsets after the empty string'
                  if width else f'{what}Offsets')


def fn(case, rec):
    c = outs.compile_case(case, LANGS, rec)
    if c is None:
        return
    letters = sorted({r['letter'] for rs in c.true['policies'].values()
                      for r in rs} | {''})
    used = [e['fmt'] for z in c.true['zones'].values() for e in z['eras']]
    formats = sorted({'' if f == '%z' else f.replace('%s', '%') for f in used}
                     | {''})
    for lang in LANGS:
        if lang in c.refused:
            continue
        want = outs.want_for(c, lang)
        db = outs.decode_lang(c, lang)
        same(db['letters'], letters, f'{lang}: letters')
        strict_sorted(db['letters'], f'{lang}: letters')
        if lang == 'go':
            same(db['formats'], formats, 'go: formats')
            same(sorted(db['names']), sorted({**c.true['zones'],
                                              **c.true['links']}),
                 'go: names')
            strict_sorted(db['names'], 'go: names')
            offsets(db, 'Letter', 1)
            offsets(db, 'Format', 1)
            offsets(db, 'Name', 0)
        else:
            raw = set()
            for n, v in db['unit'].data.items():
                if 'ZoneEra' in db['unit'].types[n]:
                    raw |= {e[1] for e in v}
            same(sorted(raw | {''}), formats, f'{lang}: format strings')
        for p, rs in want['policies'].items():
            same([r['letter'] for r in db['policies'][p]],
                 [r['letter'] for r in rs], f'{lang}: letters of {p}')
        for n, z in want['zones'].items():
            same([e['fmt'] for e in db['zones'][n]['eras']],
                 [e['fmt'] for e in z['eras']], f'{lang}: formats of {n}')
        d = fresh_dir('json')
        P.generate(c.zidb[lang], c.cfg, 'json', d)
        with decoding('JSON file'):
            with open(d + '/zonedb.json') as f:
                j = json.load(f)
            if lang == 'go':
                maps(j['go_letters_map'], letters, 'go_letters_map')
                maps(j['go_formats_map'], formats, 'go_formats_map')
                maps(j['go_names_map'], db['names'], 'go_names_map')
            else:
                same(j['letters_map'], {x: i for i, x in enumerate(letters)},
                     'letters_map')
    rec.nontrivial(len(letters) >= 4 or len(formats) >= 4)


def maps(m, table, what):
    """{string: [index, offset]} with a final sentinel."""
    want, pos = {}, 0
    for i, s in enumerate(table):
        want[s] = [i, pos]
        pos += len(s)
    want['~'] = [len(table), pos]
    same(m, want, what)


def compiled_fn(case, rec):
    c = outs.compile_case(case, ['arduino', 'c'], rec)
    if c is None:
        return
    for lang in c.outs:
        native.check(c, lang, outs.want_for(c, lang))
    rec.nontrivial(len(c.true['policies']) > 0)


PARTS = [Part('tables', case, fn, 1600, 40000),
         Part('compiled', case, compiled_fn, 40, 1600),
         Part('tzdb', outs.tzdb_cases, fn, 48, 960),
         gen.big_part(fn)]
