"""T06: a compiled database is always well formed."""
from hypothesis import strategies as st

from checks import T04
from vlib import cal, corpus, gen, model as M, pipeline as P
from vlib.harness import Part, require, same

RULE = (
    'Random sources, half of them with damaged fields, dangling references, '
    'UNTILs out of order and clashing rules, and the real TZDB, compiled in '
    'every scope for random years and granularities; every record of every '
    'result that is produced is checked against the structural rules and '
    'field ranges its readers rely on. Non-trivial: the result holds a zone '
    'with a policy, and something of the source was dropped.')

MAXU, MAXT, MINY = 32767, 32766, -32767


def in_range(what, v, lo, hi):
    require(isinstance(v, int) and lo <= v <= hi,
            f'{what}: {v!r} is outside [{lo}, {hi}]')


def check_era(n, e, cfg, last):
    y = e['until_year']
    if last:
        same(y, MAXU, f'{n}: until_year of the last era')
    else:
        require(MINY < y < MAXT, f'{n}: UNTIL year {y}')
    in_range(f'{n}: until_month', e['until_month'], 1, 12)
    in_range(f'{n}: until_day', e['until_day'], 1,
             31 if last else cal.dim(y, e['until_month']))
    require(e['until_time_suffix'] in ('w', 's', 'u'),
            f'{n}: UNTIL suffix {e["until_time_suffix"]!r}')
    for k, t, grain, lo, hi in (
            ('until_seconds', 'until_seconds_truncated', cfg['at'], 0, 93599),
            ('offset_seconds', 'offset_seconds_truncated', cfg['off'],
             -93599, 93599),
            ('era_delta_seconds', 'era_delta_seconds_truncated', cfg['save'],
             -93599, 93599)):
        in_range(f'{n}: {k}', e[k], lo, hi)
        in_range(f'{n}: {t}', e[t], lo, hi)
        require(e[t] % grain == 0, f'{n}: {t} {e[t]} is off the {grain}s grid')
        require(abs(e[t]) <= abs(e[k]) < abs(e[t]) + grain,
                f'{n}: {t} {e[t]} of {e[k]}')
    f = e['format']
    require(f and isinstance(f, str), f'{n}: empty FORMAT')
    require('%z' not in f or f == '%z', f'{n}: FORMAT {f!r}')
    require('%s' not in f or e['policy_name'], f'{n}: FORMAT {f!r}')
    same(e['format_short'], f.replace('%z', '').replace('%s', '%'),
         f'{n}: format_short of {f!r}')
    if e['policy_name']:
        same(e['era_delta_seconds'], 0, f'{n}: DST shift of an era with rules')
    if cfg['scope'] == 'basic':
        require(last or e['until_year_only'], f'{n}: UNTIL not simple')
        same(e['era_delta_seconds'], 0, f'{n}: fixed DST shift')
    if cfg['tiny']:
        in_range(f'{n}: until_year_tiny', e['until_year_tiny'], -127, 127)
        if last:
            same(e['until_year_tiny'], 127, f'{n}: last until_year_tiny')


def check_rule(p, r, cfg, first):
    lo, hi = r['from_year'], r['to_year']
    if first:
        same((lo, hi), (MINY, MINY), f'{p}: years of the first rule')
    else:
        require(MINY < lo <= hi <= MAXT and lo < MAXT,
                f'{p}: rule years {lo}..{hi}')
    in_range(f'{p}: in_month', r['in_month'], 1, 12)
    dow, dom = r['on_day_of_week'], r['on_day_of_month']
    in_range(f'{p}: day of week', dow, 0, 7)
    in_range(f'{p}: day of month', dom, -31 if dow else 1, 31)
    require(r['at_time_suffix'] in ('w', 's', 'u'),
            f'{p}: AT suffix {r["at_time_suffix"]!r}')
    for k, t, grain, lo, hi in (
            ('at_seconds', 'at_seconds_truncated', cfg['at'], 0, 93599),
            ('delta_seconds', 'delta_seconds_truncated', cfg['save'],
             -93599, 93599)):
        in_range(f'{p}: {k}', r[k], lo, hi)
        in_range(f'{p}: {t}', r[t], lo, hi)
        require(r[t] % grain == 0, f'{p}: {t} {r[t]} is off the {grain}s grid')
        require(abs(r[t]) <= abs(r[k]) < abs(r[t]) + grain,
                f'{p}: {t} {r[t]} of {r[k]}')
    in_range(f'{p}: delta_seconds_truncated', r['delta_seconds_truncated'],
             -3600, 10799)
    require(isinstance(r['letter'], str) and r['letter'] != '-',
            f'{p}: LETTER {r["letter"]!r}')
    if cfg['tiny']:
        in_range(f'{p}: from_year_tiny', r['from_year_tiny'], -127, 126)
        in_range(f'{p}: to_year_tiny', r['to_year_tiny'], -127, 126)
        require(r['from_year_tiny'] <= r['to_year_tiny'],
                f'{p}: tiny years out of order')


def well_formed(t, cfg):
    used = set()
    for n, info in t.zones_map.items():
        eras = info['eras']
        require(eras, f'{n}: no eras')
        prev = None
        for i, e in enumerate(eras):
            check_era(n, e, cfg, i == len(eras) - 1)
            cur = (e['until_year'], e['until_month'], e['until_day'],
                   e['until_seconds'])
            require(prev is None or prev < cur,
                    f'{n}: UNTIL {cur} does not follow {prev}')
            prev = cur
            if e['policy_name']:
                require(e['policy_name'] in t.policies_map,
                        f'{n}: policy {e["policy_name"]} is missing')
                used.add(e['policy_name'])
    same(set(t.policies_map), used, 'policies present and policies used')
    for p, policy in t.policies_map.items():
        require(policy['rules'], f'policy {p} is empty')
        for i, r in enumerate(policy['rules']):
            check_rule(p, r, cfg, i == 0)
    for li, target in t.links_map.items():
        require(target in t.zones_map, f'link {li} -> {target} leads nowhere')
        require(li not in t.zones_map, f'{li} is a link and a zone')
    same(set(t.zone_ids), set(t.zones_map), 'names in zone_ids')
    same(set(t.link_ids), set(t.links_map), 'names in link_ids')
    for n, v in list(t.zone_ids.items()) + list(t.link_ids.items()):
        in_range(f'id of {n}', v, 1, 0xffffffff)
    for a, b, what in ((t.zones_map, t.removed_zones, 'zone'),
                       (t.links_map, t.removed_links, 'link'),
                       (t.policies_map, t.removed_policies, 'policy')):
        both = set(a) & set(b)
        require(not both, f'{what} both kept and removed: {both}')
    return bool(used)


def case():
    @st.composite
    def s(draw):
        if draw(st.booleans()):
            return draw(T04.case())
        c = draw(gen.compiled(max_zones=5))
        if draw(st.booleans()):
            c['model'] = draw(gen.rough_policies(c['model']))
        return c
    return s()


def fn(case, rec):
    try:
        t = P.transform(gen.files(case), case['cfg'])
    except P.Refused:
        rec.label('refused')
        return
    pol = well_formed(t, case['cfg'])
    m = case['model']
    lost = (len(t.zones_map) < len(m['zones'])
            or len(t.policies_map) < len(m['policies'])
            or sum(len(i['eras']) for i in t.zones_map.values())
            < sum(len(e) for _, e in m['zones']))
    rec.nontrivial(pol and lost)
    rec.label(case['cfg']['scope'])


_REAL = []


def prepare(tier):
    if not _REAL:
        _REAL.append(corpus.to_files())


def real_case():
    @st.composite
    def s(draw):
        return {'cfg': draw(gen.configs(strict=False, lo=1850, grains=True))}
    return s()


def real_fn(case, rec):
    prepare(None)
    try:
        t = P.transform(_REAL[0], case['cfg'])
    except P.Refused as e:
        rec.label('refused')
        return
    rec.nontrivial(well_formed(t, case['cfg']))


PARTS = [Part('structure', gen.anywhere(case), fn, 3200, 80000),
         Part('tzdb', real_case, real_fn, 48, 1600)]
