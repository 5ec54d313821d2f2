"""T11: zone identifiers are the stable hash of the name."""
import json

from hypothesis import strategies as st

from vlib import corpus, gen, model as M, outs, pipeline as P
from vlib.harness import Part, Violation, decoding, fresh_dir, require, same

RULE = (
    'Sources of up to 30 zones and links with random names (and the real '
    'TZDB) are compiled in random scopes, alone and reduced to a random '
    'include list; every identifier in the compiled data, in the C++, C and '
    'Go files and in the JSON file must be this check\'s own djb2 hash of '
    'the name, non-zero and unique. Sources with two names of equal hash '
    '(made by moving 33 between neighbouring characters) among zones and '
    'links, or with a name whose hash is zero, must be refused as long as '
    'both names, or that name, are to be compiled. Non-trivial: at least '
    'one link and four names, or a collision, or a zero.')

ZERO = ['Area/Baopaqkmg', 'Area/Barzzedvk', 'Area/Bayoimxgs', 'Aagijotkq',
        'Aajtbcmtu', 'Abgqyyscx', 'Etc/GBagfgnqzy', 'Etc/GBbtxvhvvo',
        'Etc/GBcdlmmvbb', 'America/New_Baabdlpsx', 'America/New_Baxkkzbqs']


def plain(name, off=0):
    return [name, [{'off': off, 'rules': None, 'fmt': 'LMT', 'until': None}]]


@st.composite
def database(draw, lo=3, hi=28):
    names = M._unique(draw(st.lists(M.zone_names(), min_size=lo,
                                    max_size=hi)))
    k = draw(st.integers(1, max(1, len(names) - 1)))
    zones = [plain(n, 900 * draw(st.integers(-40, 40))) for n in names[:k]]
    links = [[n, draw(st.sampled_from(names[:k]))] for n in names[k:]]
    return {'policies': [], 'zones': zones, 'links': links}


@st.composite
def case(draw):
    cfg = draw(gen.configs())
    cfg['compress'] = draw(st.booleans())
    model = draw(database())
    names = [z[0] for z in model['zones']] + [x[0] for x in model['links']]
    return {'model': model, 'cfg': cfg, 'style': draw(st.sampled_from([0, 1])),
            'include': draw(st.lists(st.sampled_from(names), min_size=1,
                                     max_size=6, unique=True)),
            'lang': draw(st.sampled_from(['arduino', 'c', 'go', 'json']))}


def check_ids(t, what):
    ids = list(t.zone_ids.items()) + list(t.link_ids.items())
    same(sorted(n for n, _ in ids),
         sorted(list(t.zones_map) + list(t.links_map)),
         f'{what}: names with an identifier')
    for n, i in ids:
        same(i, gen.djb2(n), f'{what}: identifier of {n}')
        require(i != 0, f'{what}: identifier of {n} is zero')
    require(len({i for _, i in ids}) == len(ids),
            f'{what}: identifiers are not unique')


def fn(case, rec):
    cfg = case['cfg']
    files = outs.source(case)
    try:
        t = P.transform(files, cfg)
    except P.Refused as e:
        if not case.get('tzdb'):
            names = [x[0] for x in case['model']['zones']
                     + case['model']['links']]
            if len({gen.djb2(n) for n in names}) == len(names):
                raise Violation(f'refused: {e}')
        rec.label('refused')
        return
    check_ids(t, 'compiled data')
    # the identifier does not depend on what else is compiled
    if case['include']:
        need = set(case['include'])
        if not case.get('tzdb'):
            links = dict(map(tuple, case['model']['links']))
            need |= {links[n] for n in need if n in links}
        try:
            sub = P.transform(files, dict(cfg, include=sorted(need)))
            check_ids(sub, 'with an include list')
        except P.Refused as e:
            if not case.get('tzdb'):
                raise Violation(f'refused with an include list: {e}')
    lang = case['lang']
    rec.label(lang)
    names = list(t.zones_map) + list(t.links_map)
    rec.nontrivial(len(names) >= 4 and bool(t.links_map))
    if not t.zones_map:
        return
    if lang == 'json':
        zidb = P.finish(t, cfg, [])
        d = fresh_dir('json')
        P.generate(zidb, cfg, 'json', d)
        with decoding('JSON file'):
            with open(d + '/zonedb.json', encoding='utf-8') as f:
                j = json.load(f)
            got = {**j['zone_ids'], **j['link_ids']}
            same(got, {n: gen.djb2(n) for n in names}, 'JSON identifiers')
        return
    c = outs.compile_case(case, [lang], rec)
    if c is None or c.refused:
        return
    db = outs.decode_lang(c, lang)
    for part in ('zones', 'links'):
        for n, x in db[part].items():
            same(x['id'], gen.djb2(n), f'{lang}: identifier of {n}')
    same(db['id_constants'], {M.normalize(n): gen.djb2(n) for n in names},
         f'{lang}: identifier constants')


ALPHA = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_')


def twins(name):
    """Names with the same hash."""
    out = []
    for i in range(len(name) - 1):
        for d in (1, -1):
            a, b = ord(name[i]) + d, ord(name[i + 1]) - 33 * d
            if a > 0 and b > 0 and chr(a) in ALPHA and chr(b) in ALPHA and \
                    name[i] in ALPHA and name[i + 1] in ALPHA:
                out.append(name[:i] + chr(a) + chr(b) + name[i + 2:])
    return out


@st.composite
def collision(draw):
    cfg = draw(gen.configs())
    model = draw(database(2, 8))
    zones, links = model['zones'], model['links']
    base = draw(st.sampled_from(zones + links))[0]
    if not twins(base):
        base = base + 'bx'
        zones.append(plain(base))
    twin = draw(st.sampled_from(twins(base)))
    if draw(st.booleans()):
        zones.insert(draw(st.integers(0, len(zones))), plain(twin, 3600))
    else:
        links.insert(draw(st.integers(0, len(links))), [twin, zones[0][0]])
    inc = []
    if draw(st.integers(0, 2)) == 0:
        # a list with both, or without one of them
        names = [z[0] for z in zones] + [x[0] for x in links]
        drop = draw(st.sampled_from([None, base, twin]))
        inc = [n for n in names if n != drop]
    cfg['include'] = sorted(inc)
    return {'model': model, 'cfg': cfg, 'style': 0, 'pair': [base, twin]}


def collide(case, rec):
    a, b = case['pair']
    same(gen.djb2(a), gen.djb2(b), 'case')
    try:
        t = P.transform(outs.source(case), case['cfg'])
    except P.Refused:
        rec.label('refused')
        rec.nontrivial()
        return
    names = set(t.zones_map) | set(t.links_map)
    require(not {a, b} <= names, f'{a} and {b} have the same identifier '
            f'{gen.djb2(a)} in one database')
    inc = set(case['cfg']['include'])
    require(inc and not {a, b} <= inc, f'{a} and {b} collide, and nothing '
            'stopped the compilation')
    check_ids(t, 'compiled data')
    rec.label('only one included')
    rec.nontrivial()


@st.composite
def zero(draw):
    cfg = draw(gen.configs())
    model = draw(database(1, 6))
    name = draw(st.sampled_from(ZERO))
    if draw(st.booleans()):
        model['zones'].append(plain(name))
    else:
        model['links'].append([name, model['zones'][0][0]])
    return {'model': model, 'cfg': cfg, 'style': 0, 'name': name}


def zero_fn(case, rec):
    same(gen.djb2(case['name']), 0, 'case')
    try:
        P.transform(outs.source(case), case['cfg'])
    except P.Refused:
        rec.nontrivial()
        return
    raise Violation(f'{case["name"]} was given the identifier 0')


def tzdb_case():
    @st.composite
    def s(draw):
        c = draw(outs.tzdb_cases())
        names = [z for f in corpus.to_files().values()
                 for z in _zone_names(f)]
        c['include'] = sorted(draw(st.lists(
            st.sampled_from(names), min_size=1, max_size=20, unique=True)))
        c['lang'] = draw(st.sampled_from(['arduino', 'c', 'go', 'json']))
        return c
    return s()


def _zone_names(text):
    return [ln.split()[1] for ln in text.split('\n') if ln.startswith('Zone')]


PARTS = [Part('ids', case, fn, 1600, 40000),
         Part('collision', collision, collide, 1600, 40000),
         Part('zero', zero, zero_fn, 240, 4000),
         Part('tzdb', tzdb_case, fn, 16, 320)]
