"""A07: all output languages describe the same database."""
import copy

from vlib import canon, decode, gen, outs, pipeline as P
from vlib.harness import Part, decoding, fresh_dir, same

RULE = (
    'Random sources and the real TZDB are compiled once for all four '
    'languages and JSON; each output is decoded by its own independent '
    'reader and the five databases are compared with each other, field by '
    'field (8-bit years saturated the same way where C++ and C use them); '
    'the files of each language must also be identical to those of a run '
    'for that language alone. Without --strict, values finer than the '
    'granularity occur. Non-trivial: two or more zones, a policy, and a '
    'zone of several eras.')
LANGS = ['arduino', 'c', 'go', 'python']


def case():
    return gen.compiled(min_zones=2, max_zones=6, fine=True)


def from_json(j):
    from vlib.model import normalize
    pols = {}
    for p, v in j['policies_map'].items():
        rs = [canon.from_trule(r) for r in v['rules']]
        for r in rs:
            del r['std']
        pols[normalize(p)] = rs
    zones = {}
    for n, z in j['zones_map'].items():
        es = [canon.from_tera(e) for e in z['eras']]
        zones[n] = {'id': j['zone_ids'][n], 'eras': [
            dict(e, policy=e['policy'] and normalize(e['policy']))
            for e in es]}
    return {'context': {
        'version': j['tz_version'], 'start': j['start_year'],
        'until': j['until_year'], 'start_acc': j['start_year_accurate'],
        'until_acc': j['until_year_accurate'],
        'max_transitions': j['max_buf_size']},
        'zones': zones,
        'links': {n: {'id': j['link_ids'][n], 'target': t}
                  for n, t in j['links_map'].items()},
        'policies': pols, 'zone_registry': None, 'all_registry': None}


def saturate(db, base):
    """The same database with years as 8-bit fields hold them."""
    db = copy.deepcopy(db)
    for rs in db['policies'].values():
        for r in rs:
            r['frm'] = decode.tiny_from_to(r['frm'], base)
            r['to'] = decode.tiny_from_to(r['to'], base)
    for z in db['zones'].values():
        for e in z['eras']:
            if e['until']:
                e['until'] = (decode.tiny_until(e['until'][0], base),
                              *e['until'][1:])
    return db


def fn(case, rec):
    import json
    cfg = case['cfg']
    files = outs.source(case)
    try:
        t0 = P.transform(files, cfg)
    except P.Refused:
        rec.label('refused')
        return
    want = decode.expected(t0, cfg)
    if not t0.zones_map or any(outs.misfit(want, cfg, x) for x in LANGS):
        rec.label('does not fit')
        return
    rec.label(cfg['scope'])
    alone = {}
    for x in LANGS:
        t = copy.deepcopy(t0)
        z = P.finish(t, cfg, [x])
        d = fresh_dir('alone')
        P.generate(z, cfg, x, d)
        alone[x] = P.read_dir(d)
    zidb = P.finish(t0, cfg, LANGS)
    texts = {}
    for x in LANGS + ['json']:
        d = fresh_dir('all')
        P.generate(zidb, cfg, x, d)
        texts[x] = P.read_dir(d)
    for x in LANGS:
        same(texts[x], alone[x], f'{x} files with and without other '
             'languages')
    c = outs.Compiled()
    c.cfg, c.outs, c.policy_names = cfg, texts, sorted(t0.policies_map)
    with decoding('JSON'):
        j = from_json(json.loads(texts['json']['zonedb.json']))
    dbs = {x: outs.decode_lang(c, x) for x in LANGS}
    decode.compare(dbs['go'], j, 'Go against JSON')
    decode.compare({**dbs['python']}, {**decode.without_ids(j)},
                   'Python against JSON')
    narrow = saturate(j, cfg['base']) if cfg['tiny'] else j
    decode.compare(dbs['c'], {**narrow, 'zone_registry':
                              dbs['arduino']['zone_registry'],
                              'all_registry': dbs['arduino']['all_registry']},
                   'C against JSON')
    decode.compare(dbs['arduino'], {
        **narrow, 'zone_registry': dbs['c']['zone_registry'],
        'all_registry': dbs['go']['all_registry']}, 'C++ against JSON')
    for k in ('id_constants', 'buf_constants'):
        same(dbs['arduino'][k], dbs['c'][k], f'C++ and C {k}')
    same(dbs['arduino']['id_constants'], dbs['go']['id_constants'],
         'C++ and Go identifiers')
    same(dbs['arduino']['letters'], dbs['go']['letters'],
         'C++ and Go letters')
    rec.nontrivial(len(j['zones']) > 1 and bool(j['policies']) and any(
        len(z['eras']) > 1 for z in j['zones'].values()))


PARTS = [Part('random', gen.anywhere(case), fn, 1000, 24000),
         Part('tzdb', outs.tzdb_cases, fn, 24, 480),
         gen.big_part(fn)]
