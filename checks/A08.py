"""A08: registries are searchable and complete."""
from hypothesis import strategies as st

from vlib import corpus, expect, gen, model as M, native, outs
from vlib.harness import Part, require, same

RULE = (
    'Random sources with up to 14 zones and 14 links, and the real TZDB, are '
    'compiled for C++, C and Go; both registries of each output must be '
    'strictly sorted by identifier, every compiled name must be found by a '
    'binary search on its own djb2 hash, every entry must lead to the record '
    'of that name, every link to the target its Link line names, and the '
    'identifier and index constants to the same records. Non-trivial: four '
    'or more names, one of them a link.')

LANGS = ['arduino', 'c', 'go']


@st.composite
def case(draw):
    cfg = draw(gen.configs())
    names = M._unique(draw(st.lists(M.zone_names(), min_size=3,
                                    max_size=28)))
    k = draw(st.integers(1, max(1, min(14, len(names) - 1))))
    zones = [[n, [{'off': 900 * draw(st.integers(-40, 40)), 'rules': None,
                   'fmt': draw(M.FORMAT_FIXED),
                   'until': None}]] for n in names[:k]]
    links = [[n, draw(st.sampled_from(names[:k]))] for n in names[k:]]
    cfg['compress'] = draw(st.booleans())
    return {'model': {'policies': [], 'zones': zones, 'links': links},
            'cfg': cfg, 'style': draw(st.sampled_from([0, 1])),
            'langs': draw(st.sampled_from([['arduino'], ['c'], ['go']]))}


def find(ids, h):
    """Binary search, as the libraries do."""
    lo, hi = 0, len(ids)
    while lo < hi:
        mid = (lo + hi) // 2
        if ids[mid] == h:
            return mid
        if ids[mid] < h:
            lo = mid + 1
        else:
            hi = mid
    return None


_REAL = []


def source_links(case):
    if not case.get('tzdb'):
        return dict(map(tuple, case['model']['links']))
    if not _REAL:
        _REAL.append(dict(map(tuple, expect.parse_model(
            corpus.to_files())['links'])))
    return _REAL[0]


def fn(case, rec):
    langs = case['langs']
    c = outs.compile_case(case, langs, rec)
    if c is None:
        return
    declared = source_links(case)
    names = set(c.true['zones']) | set(c.true['links'])
    for lang in langs:
        if lang in c.refused:
            continue
        db = outs.decode_lang(c, lang)
        same(set(db['zones']), set(c.true['zones']), f'{lang}: zones')
        same(set(db['links']), set(c.true['links']), f'{lang}: links')
        rows = {**db['zones'], **db['links']}
        regs = [('all', db['all_registry'], names)]
        if db['zone_registry'] is not None:
            regs.append(('zones', db['zone_registry'],
                         set(c.true['zones'])))
        for what, reg, want in regs:
            ids = [rows[n]['id'] for n in reg]
            for a, b in zip(ids, ids[1:]):
                require(a < b, f'{lang} registry {what}: {a} before {b}')
            same(len(reg), len(want), f'{lang}: size of registry {what}')
            for n in want:
                i = find(ids, gen.djb2(n))
                require(i is not None, f'{lang} registry {what}: {n} is not '
                        'found by its hash')
                same(reg[i], n, f'{lang} registry {what}: record found for '
                     f'{n}')
        for n, x in db['links'].items():
            same(x['target'], declared[n], f'{lang}: target of {n}')
        same(db['id_constants'],
             {M.normalize(n): gen.djb2(n) for n in names},
             f'{lang}: identifier constants')
        if lang == 'go':
            same(db['indexes'], {M.normalize(n): i for i, n in
                                 enumerate(db['all_registry'])},
                 'go: index constants')
            same(db['numbers']['ZoneInfoCount'], len(names),
                 'go: ZoneInfoCount')
        rec.label(lang)
    rec.nontrivial(len(names) >= 4 and bool(c.true['links']))


def compiled_fn(case, rec):
    lang = case['langs'][0]
    if lang == 'go':
        lang = 'c'
    c = outs.compile_case(case, [lang], rec)
    if c is None:
        return
    native.check(c, lang, outs.want_for(c, lang))
    rec.nontrivial(len(c.true['zones']) + len(c.true['links']) >= 4)


def tzdb_case():
    return st.builds(lambda c, x: dict(c, langs=[x]), outs.tzdb_cases(),
                     st.sampled_from(LANGS))


PARTS = [Part('random', case, fn, 2400, 60000),
         Part('compiled', case, compiled_fn, 48, 1600),
         Part('tzdb', tzdb_case, fn, 48, 960),
         gen.big_part(fn, 'langs', [['arduino'], ['c'], ['go']])]
