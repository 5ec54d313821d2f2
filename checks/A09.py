"""A09: compressed names expand to the original names."""
from hypothesis import strategies as st

from vlib import gen, model as M, native, outs, pipeline as P
from vlib.harness import Part, decoding, fresh_dir, require, same

RULE = (
    'Random sets of zone and link names, built from a small pool of '
    'components so that 0 to 35 leading components repeat often enough to be '
    'replaced, with names starting in hex digits after a code, nested and '
    'repeated components, and lengths and counts around the thresholds; '
    'compiled for C++ and C with and without compression. The stored text of '
    'every name is read back by a parser with the escape rules of C (and by '
    'g++/gcc in part "compiled") and expanded with the generated table. '
    'Non-trivial: compression is on and a name is stored shorter than it '
    'is.')

HEADS = ['Africa', 'America', 'Asia', 'Ab', 'Abc', 'Abcd', 'Etc', 'Argentina',
         'Indian', 'Indiana', 'beef', 'cafe', 'U', 'US', '0a', 'A-b', 'A_b_c',
         'Europe', 'EuropeA', 'f00', 'dead', 'a+b', 'Fo',
         'L' + 'o' * 61 + 'ng', 'Antarctica' * 7, 'abc' * 43]
TAILS = ['abc', 'Abe', 'Face', 'Bad', 'c', 'D', '0', '1a', 'UTC', 'Z', 'beef',
         'Etc', 'x', 'GMT+1', 'GMT-1', 'Ho_Chi', 'e5', 'FFa', 'Port-au',
         'Ab', 'ef']


@st.composite
def case(draw):
    cfg = draw(gen.configs())
    names = set()
    if draw(st.integers(0, 7)) == 0:
        # many fragments, around the limit of 31
        k = draw(st.sampled_from([29, 30, 31, 32, 33, 35]))
        extra = draw(st.integers(0, 2))
        for i in range(k):
            for t in 'abcd':
                names.add(f'Reg{i:02}/{t}')
        for i in range(extra):      # too few to count
            for t in 'abc':
                names.add(f'Few{i}/{t}')
    else:
        heads = draw(st.lists(st.sampled_from(HEADS), min_size=1,
                              max_size=6, unique=True))
        n = draw(st.integers(1, 30))
        for _ in range(n):
            k = draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3]))
            parts = [draw(st.sampled_from(heads)) for _ in range(k)]
            names.add('/'.join(parts + [draw(st.sampled_from(TAILS))]))
    names = M._unique(sorted(names))
    seen, keep = set(), []
    for x in names:
        h = gen.djb2(x)
        if h and h not in seen:
            seen.add(h)
            keep.append(x)
    nz = draw(st.integers(1, len(keep)))
    keep = draw(st.permutations(keep)) if len(keep) < 40 else keep
    cfg['compress'] = draw(st.sampled_from([True, True, True, False]))
    return {'names': list(keep), 'zones': nz, 'cfg': cfg,
            'lang': draw(st.sampled_from(['arduino', 'c']))}


def source(case):
    names, k = case['names'], case['zones']
    zones = ''.join(f'Zone\t{n}\t1:00\t-\tX\n' for n in names[:k])
    links = ''.join(f'Link\t{names[0]}\t{n}\n' for n in names[k:])
    files = {f: '' for f in M.FILES}
    files['asia'] = zones
    files['backward'] = links
    return files


def fn(case, rec, compiled=False):
    cfg, lang, names = case['cfg'], case['lang'], case['names']
    c = None
    want = {'zones': dict.fromkeys(names), 'links': {}}
    frags = outs.fragments(want)
    try:
        t = P.transform(source(case), cfg)
        same(sorted({**t.zones_map, **t.links_map}), sorted(names),
             'compiled names')
        zidb = P.finish(t, cfg, [lang])
        d = fresh_dir('a09')
        P.generate(zidb, cfg, lang, d)
        texts = P.read_dir(d)
    except P.Refused as e:
        # the tables have room for 31; a compiler may keep one spare
        require(cfg['compress'] and len(frags) >= 31,
                f'refused with {len(frags)} fragments: {e}')
        rec.label('too many fragments')
        rec.nontrivial()
        return
    require(not cfg['compress'] or len(frags) <= 31,
            f'{len(frags)} fragments were accepted')
    rec.label(lang, 'compress' if cfg['compress'] else 'nocompress',
              'fragments %s' % ('0' if not frags else '1-5' if len(frags) < 6
                                else '6+'))
    c = outs.Compiled()
    c.cfg, c.outs = cfg, {lang: texts}
    db = outs.decode_lang(c, lang)
    table = db['fragments']
    require(table[0] is None, 'fragment 0 is used')
    require(len(table) <= 32, f'{len(table)} fragments')
    stored = db['stored_names']
    same(sorted(stored), sorted(names), 'expanded names')
    raw = list(stored.values())
    require(len(set(raw)) == len(raw), 'two names are stored alike')
    for n, s in stored.items():
        require(all(0 < ord(x) < 127 for x in s), f'bytes of {n}: {s!r}')
    for f in table[1:]:
        require(f and all(32 <= ord(x) < 127 for x in f),
                f'fragment {f!r}')
    if not cfg['compress']:
        same(table, [None], 'fragments without compression')
        for n, s in stored.items():
            same(s, n, 'name without compression')
    else:
        # every repeated component is replaced
        same(table[1:], frags, 'fragments')
        for n, s in stored.items():
            parts = n.split('/')
            same(s, ''.join(chr(1 + frags.index(p + '/'))
                            if p + '/' in frags else p + '/'
                            for p in parts[:-1]) + parts[-1],
                 f'stored text of {n}')
    if compiled:
        out = native.build_and_dump(texts, cfg, lang)
        with decoding('dump'):
            got = native.decode_dump(out, cfg, lang)
        same(sorted({**got['zones'], **got['links']}), sorted(names),
             'names printed by the compiled program')
    rec.nontrivial(cfg['compress'] and any(len(s) < len(n)
                                           for n, s in stored.items()))


def compiled_fn(case, rec):
    fn(case, rec, True)


PARTS = [Part('names', case, fn, 2000, 50000),
         Part('compiled', case, compiled_fn, 64, 1600)]
