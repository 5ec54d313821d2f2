"""Model -> canonical zones and rules: what the source text means, field by
field, with the documented granularity truncation (towards zero)."""
from . import cal

MAX_YEAR = 32766
INF_YEAR = 32767
MIN_YEAR = -32767


def trunc(v, grain):
    q = abs(v) // grain
    return q * grain if v >= 0 else -q * grain


def rule(r, grain):
    return {
        'frm': r['frm'], 'to': MAX_YEAR if r['to'] == 'max' else r['to'],
        'month': r['month'], 'dow': r['on'][0], 'dom': r['on'][1],
        'at': trunc(r['at'], grain['at']), 'sfx': r['sfx'] or 'w',
        'save': trunc(r['save'], grain['save']), 'std': r['save'] == 0,
        'letter': '' if r['letter'] == '-' else r['letter']}


def until(u, grain):
    if u is None:
        return None
    m = u.get('m', 1)
    on = u.get('on', [0, 1])
    if on[0] == 0:
        d = on[1]
        y = u['y']
    else:
        y, m, d = cal.civil(cal.on_day(u['y'], m, on[0], on[1]))
    return (y, m, d, trunc(u.get('at', 0), grain['at']),
            u.get('sfx', 'w') or 'w')


def era(e, grain):
    r = e['rules']
    return {
        'off': trunc(e['off'], grain['off']),
        'save': trunc(r['save'], grain['save'])
        if r and 'save' in r else 0,
        'policy': r['policy'] if r and 'policy' in r else None,
        'fmt': e['fmt'], 'until': until(e['until'], grain)}


def zones(model, grain):
    return {n: [era(e, grain) for e in eras] for n, eras in model['zones']}


def policies(model, grain):
    return {n: [rule(r, grain) for r in rules]
            for n, rules in model['policies']}


# ---- the transformer's own records -> canonical form

def from_trule(r):
    return {'frm': r['from_year'], 'to': r['to_year'],
            'month': r['in_month'], 'dow': r['on_day_of_week'],
            'dom': r['on_day_of_month'], 'at': r['at_seconds_truncated'],
            'sfx': r['at_time_suffix'], 'save': r['delta_seconds_truncated'],
            'letter': r['letter'], 'std': r['delta_seconds'] == 0}


def from_tera(e):
    u = None
    if e['until_year'] != INF_YEAR:
        u = (e['until_year'], e['until_month'], e['until_day'],
             e['until_seconds_truncated'], e['until_time_suffix'])
    return {'off': e['offset_seconds_truncated'],
            'save': e['era_delta_seconds_truncated'],
            'policy': e['policy_name'], 'fmt': e['format'], 'until': u}


def from_tresult(t):
    zs = {n: [from_tera(e) for e in i['eras']]
          for n, i in t.zones_map.items()}
    ps = {n: [from_trule(r) for r in p['rules']]
          for n, p in t.policies_map.items()}
    return zs, ps
