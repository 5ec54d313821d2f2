"""A05: the JSON file is a complete dump of the compiled database."""
import copy
import json

from hypothesis import strategies as st

from vlib import canon, decode, expect, gen, model as M, outs, pipeline as P
from vlib.harness import Part, decoding, fresh_dir, require, same

RULE = (
    'Random sources (with irregular rules, so that notes and removals '
    'occur) and the real TZDB are compiled for a random scope and language; '
    'the JSON file, written after the files of that language, is parsed '
    'with duplicate keys refused and compared member by member with the '
    'compiled zones, the notes, settings and counts computed independently. '
    'Without --strict, values finer than the granularity occur. Non- '
    'trivial: the file holds at least one note or removed record and two '
    'zones.')

KEYS = {
    'tz_version', 'tz_version_number', 'tz_files', 'scope', 'start_year',
    'until_year', 'start_year_accurate', 'until_year_accurate',
    'until_at_granularity', 'offset_granularity', 'delta_granularity',
    'strict', 'compress', 'num_zones', 'num_policies', 'num_links',
    'num_eras', 'num_rules', 'zones_map', 'policies_map', 'links_map',
    'zone_ids', 'link_ids', 'removed_zones', 'removed_links',
    'removed_policies', 'notable_zones', 'merged_notable_zones',
    'notable_links', 'notable_policies', 'original_min_year',
    'original_max_year', 'generated_min_year', 'generated_max_year',
    'lower_truncated', 'upper_truncated', 'buf_sizes', 'max_buf_size',
    'estimator_min_year', 'estimator_max_year', 'zones_to_policies',
    'letters_map', 'formats_map', 'fragments_map', 'compressed_names',
    'memory_map8', 'memory_map32', 'go_letters_map', 'go_formats_map',
    'go_names_map', 'go_zone_and_link_index_map', 'go_policy_index_size_map',
    'go_info_index_size_map', 'go_memory_map'}
PASSED = ['original_min_year', 'original_max_year', 'generated_min_year',
          'generated_max_year', 'lower_truncated', 'upper_truncated',
          'start_year_accurate', 'until_year_accurate']
NOTES = ['removed_zones', 'removed_links', 'removed_policies',
         'notable_zones', 'notable_links', 'notable_policies']


def unique(pairs):
    d = {}
    for k, v in pairs:
        require(k not in d, f'member {k!r} twice in the JSON file')
        d[k] = v
    return d


def version_number(v):
    if len(v) >= 5 and v[:4].isdigit() and 'a' <= v[4] <= 'z':
        return (int(v[:4]) - 2000) * 100 + ord(v[4]) - 96
    return 0


def case():
    @st.composite
    def s(draw):
        cfg = draw(gen.configs(strict=None))
        if draw(st.booleans()):
            cfg['strict'] = False
        low = cfg['scope'] != 'complete'
        grain = M.LOW if low else M.FULL
        if draw(st.integers(0, 2)) == 0 and not (low and cfg['strict']):
            grain = draw(st.sampled_from([M.FULL, M.RAW]))
        model = draw(M.databases(
            grain=grain, simple=cfg['scope'] == 'basic'
            and draw(st.booleans()), fixed_save=draw(st.booleans()),
            hi_save=7620, min_zones=2))
        draw(gen.rough_policies(model))
        cfg['compress'] = draw(st.booleans())
        cfg['version'] = draw(st.sampled_from(
            ['2024a', '2000a', '2037z', '1999g', 'HEAD', '2024', 'main']))
        return {'model': model, 'cfg': cfg, 'style': 0,
                'lang': draw(st.sampled_from(
                    ['arduino', 'c', 'go', 'python']))}
    return s()


def tzdb_case():
    return st.builds(lambda c, lang: dict(c, lang=lang), outs.tzdb_cases(),
                     st.sampled_from(['arduino', 'c', 'go', 'python']))


def sorted_notes(notes):
    return {k: sorted(v) for k, v in notes.items() if v}


def fn(case, rec):
    lang, cfg = case['lang'], case['cfg']
    files = outs.source(case)
    try:
        t0 = P.transform(files, cfg)
    except P.Refused:
        rec.label('refused')
        return
    if not t0.zones_map:
        return
    want = decode.expected(t0, cfg)
    kept = copy.deepcopy(t0)
    if outs.misfit(want, cfg, lang):
        rec.label('does not fit')
        return
    zidb = P.finish(t0, cfg, [lang])
    d = fresh_dir('json')
    P.generate(zidb, cfg, lang, d)
    P.generate(zidb, cfg, 'json', d)
    with decoding('JSON file'):
        with open(d + '/zonedb.json', encoding='utf-8') as f:
            text = f.read()
        j = json.loads(text, object_pairs_hook=unique)
    rec.label(lang, cfg['scope'])
    with decoding('JSON members'):
        check(j, want, kept, cfg, lang, files)
    rec.nontrivial(len(j['zones_map']) > 1 and any(j[k] for k in NOTES))


def check(j, want, t, cfg, lang, files):
    same(sorted(j), sorted(KEYS), 'members')
    # the records
    zs = {n: [canon.from_tera(e) for e in z['eras']]
          for n, z in j['zones_map'].items()}
    ps = {n: [canon.from_trule(r) for r in p['rules']]
          for n, p in j['policies_map'].items()}
    for rs in ps.values():
        for r in rs:
            del r['std']
    names = {M.normalize(p): p for p in ps}
    same(sorted(zs), sorted(want['zones']), 'zones')
    for n, z in want['zones'].items():
        same(zs[n], [dict(e, policy=e['policy'] and names[e['policy']])
                     for e in z['eras']], f'eras of {n}')
    same({M.normalize(p): r for p, r in ps.items()}, want['policies'],
         'policies')
    same(j['links_map'], {n: x['target'] for n, x in want['links'].items()},
         'links')
    same(j['zone_ids'], {n: gen.djb2(n) for n in zs}, 'zone_ids')
    same(j['link_ids'], {n: gen.djb2(n) for n in j['links_map']},
         'link_ids')
    # the source text of each record
    lines = {' '.join(ln.split('#')[0].split()) for x in files.values()
             for ln in x.split('\n')}
    tails = {ln.split(' ', 2)[-1] for ln in lines if ln.startswith('Zone ')}
    for p in j['policies_map'].values():
        for r in p['rules']:
            raw = ' '.join(r['raw_line'].split())
            require(raw in lines or any(
                x and raw.endswith(' ' + x) for x in lines),
                f'raw line {raw!r} is not in the source')
    for z in j['zones_map'].values():
        for e in z['eras']:
            raw = ' '.join(e['raw_line'].split())
            require(raw in lines or raw in tails
                    or any(x and raw.endswith(' ' + x)
                           for x in lines | tails),
                    f'raw line {raw!r} is not in the source')
            same(expect.parse_time(e['offset_string']), e['offset_seconds'],
                 f'offset of {raw!r}')
            same(canon.trunc(e['offset_seconds'], cfg['off']),
                 e['offset_seconds_truncated'], f'offset of {raw!r}')
            short = '' if e['format'] == '%z' else \
                e['format'].replace('%s', '%')
            same(e['format_short'], short, f'format of {raw!r}')
    # notes
    for k in NOTES:
        same(j[k], sorted_notes(getattr(t, k)), k)
        same(list(j[k]), sorted(j[k]), f'order of {k}')
    used = {}
    for n, z in zs.items():
        p = sorted({e['policy'] for e in z if e['policy']})
        if p:
            used[n] = p
    same(j['zones_to_policies'], used, 'zones_to_policies')
    merged = {n: list(v) for n, v in j['notable_zones'].items()}
    for n, p in used.items():
        sub = {x: j['notable_policies'][x] for x in p
               if x in j['notable_policies']}
        if sub:
            merged.setdefault(n, []).append(sub)
    same(j['merged_notable_zones'], merged, 'merged_notable_zones')
    # settings
    same({k: j[k] for k in (
        'tz_version', 'tz_version_number', 'tz_files', 'scope', 'start_year',
        'until_year', 'until_at_granularity', 'offset_granularity',
        'delta_granularity', 'strict', 'compress')},
        {'tz_version': cfg['version'],
         'tz_version_number': version_number(cfg['version']),
         'tz_files': M.FILES, 'scope': cfg['scope'],
         'start_year': cfg['start'], 'until_year': cfg['until'],
         'until_at_granularity': cfg['at'], 'offset_granularity': cfg['off'],
         'delta_granularity': cfg['save'], 'strict': cfg['strict'],
         'compress': cfg['compress']}, 'settings')
    for k in PASSED:
        same(j[k], getattr(t, k), k)
    # counts
    same({k: j[k] for k in ('num_zones', 'num_policies', 'num_links',
                            'num_eras', 'num_rules')},
         {'num_zones': len(zs), 'num_policies': len(ps),
          'num_links': len(j['links_map']),
          'num_eras': sum(map(len, zs.values())),
          'num_rules': sum(map(len, ps.values()))}, 'counts')
    same(sorted(j['buf_sizes']), sorted(zs), 'zones in buf_sizes')
    same(j['max_buf_size'], max(n for n, _ in j['buf_sizes'].values()),
         'max_buf_size')
    # tables of the language
    letters = sorted({r['letter'] for rs in ps.values() for r in rs} | {''})
    fmts = {e['fmt'].replace('%s', '%') for z in zs.values() for e in z}
    if lang in ('arduino', 'c'):
        same(j['letters_map'], {x: i for i, x in enumerate(letters)},
             'letters_map')
        short = sorted('' if f == '%z' else f for f in fmts)
        same(j['formats_map'], {x: i for i, x in enumerate(short)},
             'formats_map')
        frags = outs.fragments(want) if cfg['compress'] else []
        same(j['fragments_map'], {x: i + 1 for i, x in enumerate(frags)},
             'fragments_map')
        same(sorted(j['compressed_names']),
             sorted(set(zs) | set(j['links_map'])) if cfg['compress'] else [],
             'names in compressed_names')
        for n, text in j['compressed_names'].items():
            same(decode.expand(text, [None] + frags), n,
                 f'compressed name of {n}')
    else:
        for k in ('letters_map', 'formats_map', 'fragments_map',
                  'compressed_names', 'memory_map8', 'memory_map32'):
            same(j[k], {}, k)
    if lang == 'go':
        for k, words in (('go_letters_map', letters),
                         ('go_formats_map', sorted(
                             {'' if f == '%z' else f for f in fmts}
                             | {''})),
                         ('go_names_map',
                          sorted(set(zs) | set(j['links_map'])))):
            table, off = {}, 0
            for i, w in enumerate(words + ['~']):
                table[w] = [i, off]
                off += len(w)
            same(j[k], table, k)
        both = {**j['zone_ids'], **j['link_ids']}
        same(j['go_zone_and_link_index_map'],
             {n: i for i, n in enumerate(sorted(both, key=both.get))},
             'go_zone_and_link_index_map')
        table, off = {'': [0, 0, 0]}, 0
        for i, p in enumerate(sorted(ps)):
            table[p] = [i + 1, off, len(ps[p])]
            off += len(ps[p])
        same(j['go_policy_index_size_map'], table,
             'go_policy_index_size_map')
        table, off = {}, 0
        for i, n in enumerate(sorted(zs)):
            table[n] = [i, off, len(zs[n])]
            off += len(zs[n])
        same(j['go_info_index_size_map'], table, 'go_info_index_size_map')
    else:
        for k in KEYS:
            if k.startswith('go_'):
                same(j[k], {}, k)


PARTS = [Part('random', gen.anywhere(case), fn, 2000, 50000),
         Part('tzdb', tzdb_case, fn, 48, 960),
         gen.big_part(fn, 'lang', ['arduino', 'c', 'go', 'python'])]
