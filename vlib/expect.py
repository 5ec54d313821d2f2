"""What the compiler is expected to keep, refuse or report: a reference for the
selection decisions, written from the documentation."""
import re

from . import cal, canon, model as M


# ---- TZDB text -> model (an independent reader of the source format)

def parse_time(text):
    sign = -1 if text.startswith('-') else 1
    p = [int(x) for x in text.lstrip('-').split(':')]
    while len(p) < 3:
        p.append(0)
    return sign * (p[0] * 3600 + p[1] * 60 + p[2])


def parse_on(text):
    if text.isdigit():
        return [0, int(text)]
    if text.startswith('last'):
        return [M.DAYS.index(text[4:7]) + 1, 0]
    m = re.fullmatch(r'([A-Z][a-z]+)([<>])=(\d+)', text)
    d = int(m.group(3))
    return [M.DAYS.index(m.group(1)) + 1, d if m.group(2) == '>' else -d]


def _month(text):
    return [m[:3].lower() for m in M.MONTHS].index(text[:3].lower()) + 1


def _at(text):
    if text[-1].isdigit():
        return parse_time(text), ''
    return parse_time(text[:-1]), text[-1]


def parse_model(files):
    """Model of well-formed plain source files (tab or space separated)."""
    zones, policies, links = {}, {}, {}
    for f in M.FILES:
        cur = None
        for line in files.get(f, '').split('\n'):
            line = line.split('#')[0].rstrip()
            if not line:
                continue
            t = line.split()
            if line.startswith('Rule'):
                at, sfx = _at(t[7])
                to = t[3]
                policies.setdefault(t[1], []).append({
                    'frm': int(t[2]),
                    'to': 'max' if to == 'max' else
                    int(t[2]) if to == 'only' else int(to),
                    'month': _month(t[5]), 'on': parse_on(t[6]), 'at': at,
                    'sfx': sfx, 'save': parse_time(t[8]), 'letter': t[9]})
                cur = None
                continue
            if line.startswith('Link'):
                links[t[2]] = t[1]
                cur = None
                continue
            if line.startswith('Zone'):
                cur = zones.setdefault(t[1], [])
                t = t[2:]
            r = t[1]
            e = {'off': parse_time(t[0]), 'fmt': t[2], 'until': None,
                 'rules': None if r == '-' else
                 {'save': parse_time(r)} if ':' in r else {'policy': r}}
            if len(t) > 3:
                u = e['until'] = {'y': int(t[3])}
                if len(t) > 4:
                    u['m'] = _month(t[4])
                if len(t) > 5:
                    u['on'] = parse_on(t[5])
                if len(t) > 6:
                    u['at'], u['sfx'] = _at(t[6])
            cur.append(e)
    return {'zones': [[n, e] for n, e in zones.items()],
            'policies': [[n, r] for n, r in policies.items()],
            'links': [[n, t] for n, t in links.items()]}


# ---- selection: which eras, rules, policies, zones and links are kept

def retained_eras(eras, start, until):
    """Eras that matter for [start, until), with one year of margin on both
    sides.  Returns (kept eras, dropped_old, dropped_new, extended)."""
    kept = [e for e in eras
            if e['until'] is None or e['until']['y'] >= start - 1]
    old = len(eras) - len(kept)
    out = []
    prev = None
    for e in kept:
        if prev is None or (prev['until'] is not None
                            and prev['until']['y'] <= until + 1):
            out.append(e)
        prev = e
    new = len(kept) - len(out)
    extended = bool(out) and out[-1]['until'] is not None
    if extended:
        last = dict(out[-1])
        last['until'] = None
        out[-1] = last
    return out, old, new, extended


def is_std(r):
    return r['save'] == 0 and '8' not in r.get('raw', {})


def to_year(r):
    return canon.MAX_YEAR if r['to'] == 'max' else r['to']


def rule_date(r, y):
    """Year, month and day of a rule in a year; months 0 and 13 belong to the
    neighbouring years.  A day which does not exist (refused elsewhere) counts
    as the beginning of its month."""
    dow, dom = r['on']
    m = r['month']
    bad = r.get('raw', {}).get('6')
    if bad is not None:
        return y, m, int(bad) if bad.isdigit() else 0
    if dow == 0:
        return y, m, dom
    if abs(dom) > cal.dim(y, m) or not 1 <= y <= 9999:
        return y, m, 0
    yy, mm, dd = cal.civil(cal.on_day(y, m, dow, dom))
    return y, mm + 12 * (yy - y), dd


def rules_in_force(rules, start, until):
    """Indexes of the rules that matter for [start, until) with a margin of a
    year, and of the last ones in force before."""
    lo, hi = start - 1, until + 1
    keep = {i for i, r in enumerate(rules)
            if to_year(r) >= lo and r['frm'] < hi}
    prior = [(to_year(r), rule_date(r, to_year(r))[1], i)
             for i, r in enumerate(rules) if to_year(r) < lo]
    if prior:
        best = max(prior)[:2]
        keep |= {i for y, m, i in prior if (y, m) == best}
    return keep


def retained_rules(rules, start, until):
    """The rules in force, and at least one in standard time.  Returns (indexes
    kept, dropped_old, dropped_new)."""
    lo = start - 1
    keep = rules_in_force(rules, start, until)
    if not any(is_std(rules[i]) for i in keep):
        std = [(rule_date(r, r['frm']), i) for i, r in enumerate(rules)
               if is_std(r)]
        if std:
            keep.add(min(std)[1])
    force = rules_in_force(rules, start, until)
    gone = [i for i in range(len(rules)) if i not in keep or (
        i not in force and to_year(rules[i]) < lo)]
    old = any(to_year(rules[i]) < lo for i in gone)
    new = any(to_year(rules[i]) >= lo for i in gone)
    return sorted(keep), old, new


def beside_anchor(rules, start, until):
    """Indexes of the rules which follow the anchor: it takes the place of a
    standard time rule which is the only rule, or is not in force."""
    keep, _, _ = retained_rules(rules, start, until)
    if len(keep) == 1 and is_std(rules[keep[0]]):
        return []
    force = rules_in_force(rules, start, until)
    return [i for i in keep
            if i in force or to_year(rules[i]) >= start - 1]


def off_grid(v, grain):
    return abs(v) % grain != 0


def rule_ok_on(r):
    """ON days that could leave the year are not supported in rules."""
    dow, dom = r['on']
    if dow and dom:
        if r['month'] == 1 and -7 < dom < 0:
            return False
        if r['month'] == 12 and dom >= 26:
            return False
    return True


def zone_reason(eras, cfg, basic):
    """Why a zone with these retained eras is dropped, or None.  eras: model
    eras after extension."""
    if basic and any(e['until'] and 'm' in e['until'] for e in eras):
        return 'until not simple'
    for e in eras:
        u = e['until']
        if u and 'on' in u and u['on'][0]:
            d = cal.on_day(u['y'], u['m'], u['on'][0], u['on'][1])
            if cal.civil(d)[0] != u['y']:
                return 'until day leaves the year'
    for e in eras:
        at = (e['until'] or {}).get('at', 0)
        if at < 0 or at // 3600 > 25:
            return 'until time'
        if cfg['strict'] and off_grid(at, cfg['at']):
            return 'until granularity'
    for e in eras:
        sfx = (e['until'] or {}).get('sfx', '')
        if sfx in ('g', 'z') or (basic and sfx not in ('', 'w')):
            return 'until suffix'
    for e in eras:
        if abs(e['off']) // 3600 > 25:
            return 'offset'
        if cfg['strict'] and off_grid(e['off'], cfg['off']):
            return 'offset granularity'
    for e in eras:
        r = e['rules']
        if r and 'save' in r:
            if basic:
                return 'fixed rules'
            if r['save'] == 0 or abs(r['save']) // 3600 > 25:
                return 'fixed save'
            if cfg['strict'] and off_grid(r['save'], cfg['save']):
                return 'fixed save granularity'
    if any(e.get('raw') for e in eras):
        return 'invalid field'
    prev = None
    for e in eras:
        c = canon.until(e['until'], {'at': 1})
        c = c[:4] if c else (canon.INF_YEAR,)
        if prev is not None and c <= prev:
            return 'until not increasing'
        prev = c
    return None


def policy_reason(rules, keep, cfg, basic):
    kept = [rules[i] for i in keep]
    if not kept:
        return 'no rules in range'
    if basic and multiple_in_month(kept):
        return 'several transitions in a month'
    for r in kept:
        if r.get('raw'):
            return 'invalid field'
        if r['at'] < 0 or r['at'] // 3600 > 25:
            return 'at'
        if cfg['strict'] and off_grid(r['at'], cfg['at']):
            return 'at granularity'
        if r['sfx'] in ('g', 'z'):
            return 'at suffix'
        if abs(r['save']) // 3600 > 25:
            return 'save'
        if cfg['strict'] and off_grid(r['save'], cfg['save']):
            return 'save granularity'
        if not -3600 <= canon.trunc(r['save'], cfg['save']) < 10800:
            return 'save range'
        if not rule_ok_on(r):
            return 'on day leaves the year'
    if basic:
        for i in beside_anchor(rules, cfg['start'], cfg['until']):
            r = rules[i]
            if r['month'] == 1 and (r['on'] == [0, 1] or (
                    r['on'][0] and r['on'][1] in (1, -7))):
                return 'transition on Jan 1'
    return None


def multiple_in_month(kept):
    for i, a in enumerate(kept):
        for b in kept[i + 1:]:
            if a['month'] == b['month'] and a['frm'] <= to_year(b) \
                    and b['frm'] <= to_year(a):
                return True
    return False


class Outcome:
    """zones: name -> retained model eras; policies: name -> kept indexes;
    removed_*: name -> reason; raises: reason or None."""

    def __init__(self):
        self.zones, self.policies, self.links = {}, {}, {}
        self.removed_zones, self.removed_policies = {}, {}
        self.removed_links = {}
        self.era_cut = {}       # zone -> (old, new)
        self.rule_cut = {}      # policy -> (old, new)
        self.dropped_new = {}   # zone -> number of eras removed
        self.raises = None


def outcome(model, cfg):
    o = Outcome()
    basic = cfg['scope'] == 'basic'
    inc = set(cfg['include'])
    wanted_zones = wanted_links = 0
    zs = {}
    for n, eras in model['zones']:
        if inc and n not in inc:
            o.removed_zones[n] = 'not included'
            continue
        wanted_zones += 1
        kept, old, new, _ = retained_eras(eras, cfg['start'], cfg['until'])
        if not kept:
            o.removed_zones[n] = 'no eras'
            continue
        why = zone_reason(kept, cfg, basic)
        if why is None:
            for e in kept:
                pol = e['rules'] and 'policy' in e['rules']
                if ('%z' in e['fmt'] and e['fmt'] != '%z') or (
                        '%s' in e['fmt'] and not pol) or not e['fmt'] or (
                        '%' in e['fmt'].replace('%s', '').replace('%z', '')):
                    o.raises = 'format'
        if why:
            o.removed_zones[n] = why
            continue
        zs[n] = kept
        o.era_cut[n] = (old > 0, new > 0)
        o.dropped_new[n] = new
    used = {e['rules']['policy'] for eras in zs.values() for e in eras
            if e['rules'] and 'policy' in e['rules']}
    pols = dict(model['policies'])
    for n, rules in pols.items():
        if n not in used:
            o.removed_policies[n] = 'unused'
            continue
        keep, old, new = retained_rules(rules, cfg['start'], cfg['until'])
        why = policy_reason(rules, keep, cfg, basic)
        if why:
            o.removed_policies[n] = why
            continue
        if not any(is_std(rules[i]) for i in keep):
            o.raises = 'no standard time in policy'
        o.policies[n] = keep
        o.rule_cut[n] = (old, new)
    for n, eras in zs.items():
        miss = [e['rules']['policy'] for e in eras
                if e['rules'] and 'policy' in e['rules']
                and e['rules']['policy'] not in o.policies]
        if miss:
            o.removed_zones[n] = 'policy missing'
        else:
            o.zones[n] = eras
    used = {e['rules']['policy'] for eras in o.zones.values() for e in eras
            if e['rules'] and 'policy' in e['rules']}
    for n in list(o.policies):
        if n not in used:
            o.removed_policies[n] = 'unused'
            del o.policies[n]
    for n, t in model['links']:
        if inc and n not in inc:
            o.removed_links[n] = 'not included'
            continue
        wanted_links += 1
        if t in o.zones:
            o.links[n] = t
        else:
            o.removed_links[n] = 'target missing'
    if not basic and (len(o.zones) != wanted_zones
                      or len(o.links) != wanted_links):
        o.raises = o.raises or 'lost zones or links'
    return o
