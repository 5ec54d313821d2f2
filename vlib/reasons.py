"""Are the reasons of the removed lists true?  A reason may quote a field of
the record, a granularity, a name or a date; what it quotes has to be there, in
that record, and the complaint has to apply to it.  A reason which quotes
nothing, or is worded in a way unknown here, is left alone."""
import re

from . import canon, expect, model as M
from .harness import require


def records(files):
    """Raw fields of the source: policies and zones by name."""
    pols, zones = {}, {}
    for f in M.FILES:
        cur = None
        for line in files.get(f, '').split('\n'):
            line = line.split('#')[0].rstrip()
            t = line.split()
            if not t:
                continue
            if t[0] == 'Rule':
                pols.setdefault(t[1], []).append(t)
                cur = None
            elif t[0] == 'Link':
                cur = None
            else:
                if t[0] == 'Zone':
                    cur = zones.setdefault(t[1], [])
                    t = t[2:]
                cur.append(t)
    return pols, zones


def secs(text):
    """Seconds of a time, or None if it is not one."""
    m = re.fullmatch(r'(-?)(\d+)(?::(\d+))?(?::(\d+))?', text)
    if not m:
        return None
    h, mi, s = (int(x or 0) for x in m.groups()[1:])
    if h > 25 or mi > 59 or s > 59:
        return None
    return (-1 if m.group(1) else 1) * (h * 3600 + mi * 60 + s)


def split(text):
    return (text, '') if text[-1:].isdigit() else (text[:-1], text[-1:])


def fields(recs, i, default=None):
    return [r[i] for r in recs if len(r) > i] + (
        [default] if default is not None else [])


SOURCES = {'STDOFF': (0, False), 'RULES': (1, False), 'UNTIL': (6, True),
           'until_day': (5, False), 'AT': (7, True), 'SAVE': (8, False),
           'on_day': (6, False)}
GRAIN = {'STDOFF': 'off', 'RULES': 'save', 'SAVE': 'save', 'UNTIL': 'at',
         'AT': 'at'}


def quoted_field(text, recs, cfg, what):
    """A complaint about one field."""
    m = re.search(r"\b(STDOFF|RULES|UNTIL|until_day|AT|SAVE|on_day)"
                  r"( suffix)? '([^']*)'", text)
    if not m:
        return False
    kw, suffix, value = m.groups()
    col, timed = SOURCES[kw]
    have = fields(recs, col)
    if suffix:
        require(value and value in [split(x)[1] for x in have],
                f'{what}: {text!r}: no such suffix')
        return True
    if timed:
        have = [split(x)[0] for x in have]
    require(value in have, f'{what}: {text!r}: no such field')
    g = re.search(r"multiples? of '([^']*)'", text)
    if g:
        grain = cfg[GRAIN[kw]]
        require(g.group(1) == str(grain),
                f'{what}: {text!r}: granularity is {grain}')
        v = secs(value)
        require(v is not None and v % grain, f'{what}: {text!r}: it is one')
    elif text.startswith('negative'):
        require(value.startswith('-'), f'{what}: {text!r}: not negative')
    elif text.startswith('unexpected 0:00'):
        require(secs(value) == 0, f'{what}: {text!r}: not zero')
    elif text.startswith('invalid') and kw not in ('until_day', 'on_day'):
        require(secs(value) is None, f'{what}: {text!r}: it is valid')
    elif 'too large' in text and kw == 'SAVE':
        v = secs(value)
        require(v is not None and not -3600 <= canon.trunc(
            v, cfg['save']) < 10800, f'{what}: {text!r}: it is not')
    return True


def check(files, model, cfg, t):
    """All reasons of a compilation.  Returns how many were examined."""
    pols, zones = records(files)
    done = 0
    for name, why in t.removed_zones.items():
        what = f'zone {name}'
        for text in map(str, why):
            if quoted_field(text, zones[name], cfg, what):
                done += 1
            elif m := re.search(r"policy '([^']*)'", text):
                require(m.group(1) in fields(zones[name], 1),
                        f'{what}: {text!r}: not its policy')
                require(m.group(1) not in t.policies_map,
                        f'{what}: {text!r}: it was found')
                done += 1
            elif m := re.search(r'([<>]) year (-?\d+)', text):
                y = cfg['start'] if m.group(1) == '<' else cfg['until']
                require(int(m.group(2)) == y, f'{what}: {text!r}: not {y}')
                done += 1
            elif m := re.search(r'UNTIL: (-?\d+)-(\d\d)-\d\d (-?\d+)s', text):
                y, mo, s = map(int, m.groups())
                require(y >= canon.INF_YEAR or any(
                    r[3] == str(y)
                    and (s == 0 if len(r) <= 6 else secs(split(r[6])[0]) == s)
                    for r in zones[name] if len(r) > 3),
                    f'{what}: {text!r}: no such UNTIL')
                done += 1
            elif m := re.search(r' unsupported for (\S+)$', text):
                require(m.group(1) in fields(zones[name], 5),
                        f'{what}: {text!r}: no such day')
                done += 1
    for name, why in t.removed_policies.items():
        what = f'policy {name}'
        rules = dict(model['policies'])[name]
        for text in map(str, why):
            if quoted_field(text, pols[name], cfg, what):
                done += 1
            elif m := re.search(r"cannot shift '([^']*)' from (\w+)", text):
                require(any(r[6] == m.group(1)
                            and r[5][:3].lower() == m.group(2).lower()
                            for r in pols[name]),
                        f'{what}: {text!r}: no such rule')
                done += 1
            elif m := re.search(
                    r"Found (\d+) .*'(-?\d+)-(\d+)'", text):
                n, y, mo = map(int, m.groups())
                keep, _, _ = expect.retained_rules(
                    rules, cfg['start'], cfg['until'])
                c = sum(rules[i]['month'] == mo and rules[i]['frm'] <= y
                        <= expect.to_year(rules[i]) for i in keep)
                require(n == c and n > 1, f'{what}: {text!r}: there are {c}')
                done += 1
            elif m := re.search(
                    r'Jan 1 .*\((-?\d+)-(\d+)-(-?\d+)\)', text):
                y, mo, d = map(int, m.groups())
                require(mo == 1 and any(
                    r['frm'] == y and r['month'] == 1 and r['on'][1] == d
                    for r in rules), f'{what}: {text!r}: no such rule')
                done += 1
    for name, why in t.removed_links.items():
        tgt = dict(map(tuple, model['links']))[name]
        for text in map(str, why):
            if m := re.search(r'Target Zone "([^"]*)"', text):
                require(m.group(1) == tgt,
                        f'link {name}: {text!r}: its target is {tgt}')
                require(tgt not in t.zones_map,
                        f'link {name}: {text!r}: it is there')
                done += 1
    return done
