"""T05: an include list selects exactly the named zones and links."""
import os

from hypothesis import strategies as st

from vlib import canon, corpus, expect, gen, harness, model as M
from vlib import pipeline as P
from vlib.harness import Part, require, same

RULE = (
    'Random sources, and the real TZDB, compiled with and without a random '
    'subset of their zone and link names as include list (also with unknown '
    'names); kept names, compiled eras, rules, identifiers and removed lists '
    'are compared. A second part writes list files in random layouts and '
    'reads them back. Non-trivial: the list keeps something and drops '
    'something.')


def case():
    @st.composite
    def s(draw):
        c = draw(gen.compiled(max_zones=7, max_links=7))
        names = [n for n, _ in c['model']['zones'] + c['model']['links']]
        if draw(st.booleans()):
            pick = draw(st.sets(st.sampled_from(names)))
            # usually with the targets of links
            if draw(st.integers(0, 3)):
                pick |= {t for n, t in c['model']['links'] if n in pick}
        else:
            pick = set(names) - draw(st.sets(st.sampled_from(names)))
        if draw(st.integers(0, 5)) == 0:
            pick.add(draw(st.sampled_from(
                ['No/Such', 'America', 'Etc/', ' ', 'utc'])))
        if draw(st.integers(0, 5)) == 0 and pick:
            # near misses of a name must not select it
            n = draw(st.sampled_from(sorted(pick)))
            pick = (pick - {n}) | {draw(st.sampled_from(
                [n + 'x', n[:-1], n.lower(), n + '/', n.split('/')[-1]]))}
        pick.discard('')
        c['pick'] = sorted(pick)
        return c
    return s()


def compare(all_, part, pick, src_zones, src_links, src_policies, rec,
            drop_ok):
    want_z = {n for n in src_zones if n in pick} if pick else set(src_zones)
    want_l = {n for n in src_links if n in pick} if pick else set(src_links)
    if drop_ok:
        want_z &= set(all_.zones_map)
        want_l = {n for n in want_l if src_links[n] in want_z}
    same(set(part.zones_map), want_z, 'zones selected')
    same(set(part.links_map), want_l, 'links selected')
    za, pa = canon.from_tresult(all_)
    zb, pb = canon.from_tresult(part)
    used = set()
    for n in want_z:
        same(zb[n], za[n], f'zone {n} compiled with the list')
        used |= {e['policy'] for e in zb[n] if e['policy']}
        same(part.zone_ids[n], all_.zone_ids[n], f'zone id of {n}')
        a, b = all_.zones_map[n], part.zones_map[n]
        for k in a:
            same(b[k], a[k], f'{k} of zone {n} compiled with the list')
    same(set(pb), used, 'policies kept with the list')
    for n in used:
        same(pb[n], pa[n], f'policy {n} compiled with the list')
    for n in want_l:
        same(part.links_map[n], src_links[n], f'link {n}')
        same(part.link_ids[n], all_.link_ids[n], f'link id of {n}')
    if not drop_ok:
        same(set(part.removed_zones), set(src_zones) - want_z,
             'zones reported as removed')
        same(set(part.removed_links), set(src_links) - want_l,
             'links reported as removed')
        same(set(part.removed_policies), set(src_policies) - used,
             'policies reported as removed')
    rec.nontrivial(bool(pick) and bool(want_z)
                   and want_z != set(src_zones))


def fn(case, rec):
    model, cfg = case['model'], case['cfg']
    files = gen.files(case)
    full = dict(cfg, include=[])
    some = dict(cfg, include=case['pick'])
    o = expect.outcome(model, some)
    try:
        all_ = P.transform(files, full)
    except P.Refused:
        rec.label('refused without list')
        return
    try:
        part = P.transform(files, some)
    except P.Refused as e:
        require(o.raises, f'refused with the list: {e}')
        rec.label('refused: ' + o.raises)
        return
    require(not o.raises, f'not refused with the list: {o.raises}')
    zones, links = [n for n, _ in model['zones']], dict(model['links'])
    compare(all_, part, set(case['pick']), zones, links,
            [n for n, _ in model['policies']], rec,
            cfg['scope'] == 'basic')


_REAL = []


def real():
    if not _REAL:
        files = corpus.to_files()
        _REAL.extend([files, expect.parse_model(files)])
    return _REAL


def prepare(tier):
    real()


def real_case():
    @st.composite
    def s(draw):
        files, model = real()
        names = [n for n, _ in model['zones'] + model['links']]
        rnd = draw(st.integers(0, 1 << 30))
        import random
        r = random.Random(rnd)
        pick = set(r.sample(names, r.choice([1, 2, 5, 30, 200, 590])))
        pick |= {t for n, t in model['links'] if n in pick}
        return {'pick': sorted(pick), 'scope': draw(
            st.sampled_from(['complete', 'extended']))}
    return s()


def real_fn(case, rec):
    files, model = real()
    cfg = P.config(case['scope'], strict=False)
    try:
        all_ = P.transform(files, cfg)
        part = P.transform(files, dict(cfg, include=case['pick']))
    except P.Refused as e:
        require(False, f'the real TZDB was refused: {e}')
    compare(all_, part, set(case['pick']),
            [n for n, _ in model['zones']], dict(model['links']),
            [n for n, _ in model['policies']], rec, False)


def list_case():
    line = st.one_of(
        st.sampled_from(['', '   ', '\t', '# America/Foo', '#', '  # x',
                         '#America/Bar']),
        M.zone_names(), M.zone_names().map(lambda n: n + '  '),
        M.zone_names().map(lambda n: '\t' + n),
        # A comment is a whole line.
        st.builds(lambda n, x: n + x, M.zone_names(),
                  st.sampled_from(['#', '#b', ' # x', ' ', '\u00e9', ';',
                                   '//', ' B/C'])))
    return st.fixed_dictionaries({
        'lines': st.lists(line, max_size=12), 'eol': st.booleans()})


def list_fn(case, rec):
    read_include_list = harness.internal('tzcompiler', 'read_include_list', 1)
    if not read_include_list:
        return
    path = os.path.join(harness.fresh_dir('list'), 'zones.txt')
    text = '\n'.join(case['lines'])
    if case['eol'] and text:
        text += '\n'
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    want = {x.strip() for x in case['lines']
            if x.strip() and not x.strip().startswith('#')}
    with P.subject('read_include_list'):
        got = read_include_list(path)
    same(set(got), want, 'names read from the list file')
    rec.nontrivial(bool(want) and len(case['lines']) > len(want))


PARTS = [Part('subset', gen.anywhere(case), fn, 1400, 40000),
         Part('tzdb', real_case, real_fn, 32, 1200),
         Part('file', list_case, list_fn, 2000, 20000)]
