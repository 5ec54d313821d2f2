"""Decoders of the generated databases, written from the documented record
layouts.  Each returns the same canonical form:

 {'context': {...}, 'zones': {name: {'id', 'eras': [...]}},
  'links': {name: {'id', 'target'}}, 'policies': {symbol: [rule]},
  'zone_registry': [name], 'all_registry': [name]}
"""
import re
import struct

from . import canon, ctext
from .harness import Violation, require, same
from .model import normalize

MAXU, MAXT, MINY = 32767, 32766, -32767
SFX = {0x00: 'w', 0x10: 's', 0x20: 'u'}
I8, U8 = (-128, 127), (0, 255)
I16, U16 = (-32768, 32767), (0, 65535)
U32 = (0, 0xffffffff)


# ------------------------------------------------------------- the compiled

def tiny_from_to(y, base):
    if y in (MINY, MAXT):
        return y
    if y - base <= -127:
        return MINY
    if y - base >= 126:
        return MAXT
    return y


def tiny_until(y, base):
    if y - base <= -127:
        return MINY
    if y == MAXU or y - base >= 127:
        return MAXU
    return y


def expected(t, cfg, tiny=False):
    """Canonical form of a TransformerResult."""
    zs, ps = canon.from_tresult(t)
    for rules in ps.values():
        for r in rules:
            del r['std']
            if tiny:
                r['frm'] = tiny_from_to(r['frm'], cfg['base'])
                r['to'] = tiny_from_to(r['to'], cfg['base'])
    zones = {}
    for n, eras in zs.items():
        out = []
        for e in eras:
            if e['policy'] is not None:
                e['policy'] = normalize(e['policy'])
            if tiny and e['until']:
                y = tiny_until(e['until'][0], cfg['base'])
                e['until'] = (y,) + e['until'][1:]
            out.append(e)
        zones[n] = {'id': t.zone_ids[n], 'eras': out}
    links = {n: {'id': t.link_ids[n], 'target': z}
             for n, z in t.links_map.items()}
    ids = dict(t.zone_ids)
    both = dict(ids)
    both.update(t.link_ids)
    return {
        'context': {
            'version': cfg['version'], 'start': cfg['start'],
            'until': cfg['until'], 'start_acc': t.start_year_accurate,
            'until_acc': t.until_year_accurate,
            'max_transitions': t.max_buf_size},
        'zones': zones, 'links': links,
        'policies': {normalize(p): r for p, r in ps.items()},
        'zone_registry': sorted(ids, key=ids.get),
        'all_registry': sorted(both, key=both.get)}


def compare(got, want, what, context=True):
    """Field by field, naming the first record that differs."""
    for part in ('zones', 'links', 'policies'):
        same(sorted(got[part]), sorted(want[part]), f'{what}: {part}')
        for n in want[part]:
            g, w = got[part][n], want[part][n]
            if g != w:
                if part == 'zones':
                    same(g.get('id'), w.get('id'), f'{what}: id of {n}')
                    g, w = g['eras'], w['eras']
                if isinstance(w, list):
                    same(len(g), len(w), f'{what}: records of {part} {n}')
                    for i in range(len(w)):
                        same(g[i], w[i], f'{what}: {part} {n}, record {i}')
                same(g, w, f'{what}: {part} {n}')
    if context:
        for k in want['context']:
            if k in got['context']:
                same(got['context'][k], want['context'][k],
                     f'{what}: context {k}')
    for k in ('zone_registry', 'all_registry'):
        if got.get(k) is not None and want.get(k) is not None:
            same(got[k], want[k], f'{what}: {k}')


# ----------------------------------------------------------- C++ and C text

LOW_RULE = [('frm', I8), ('to', I8), ('month', U8), ('dow', U8), ('dom', I8),
            ('code', U8), ('mod', U8), ('delta', U8), ('letter', U8)]
HIGH_RULE = [('frm', I16), ('to', I16), ('month', U8), ('dow', U8),
             ('dom', I8), ('mod', U8), ('code', U16), ('delta', I8),
             ('letter', U8)]
LOW_ERA = [('policy', None), ('fmt', None), ('off', I8), ('delta', U8),
           ('y', I8), ('m', U8), ('d', U8), ('code', U8), ('mod', U8)]
HIGH_ERA = [('policy', None), ('fmt', None), ('off', I16), ('rem', U8),
            ('delta', I8), ('y', I16), ('m', U8), ('d', U8), ('code', U16),
            ('mod', U8)]
INFO = [('name', None), ('id', U32), ('context', None), ('num', U8),
        ('eras', None), ('target', None)]


def record(values, layout, what):
    require(isinstance(values, list) and len(values) == len(layout),
            f'{what}: {len(values)} fields, expected {len(layout)}')
    out = {}
    for v, (k, rng) in zip(values, layout):
        if rng is not None:
            require(isinstance(v, int) and not isinstance(v, bool),
                    f'{what}: field {k} is {v!r}')
            require(rng[0] <= v <= rng[1],
                    f'{what}: {k} = {v} does not fit in {rng}')
        out[k] = v
    return out


def suffix(mod, what):
    s = SFX.get(mod & 0xf0)
    require(s is not None, f'{what}: bad suffix in {mod:#x}')
    return s


def rule_from(f, low, letters, base, what):
    i = f['letter']
    require(i < len(letters), f'{what}: letter index {i} of {len(letters)}')
    if low:
        frm, to = f['frm'], f['to']
        years = [MINY if y == -127 else MAXT if y == 126 else y + base
                 for y in (frm, to)]
        require(-128 not in (frm, to) and 127 not in (frm, to),
                f'{what}: tiny years {frm}..{to}')
        at = f['code'] * 900 + (f['mod'] & 15) * 60
        save = ((f['delta'] & 15) - 4) * 900
        require(f['delta'] < 16, f'{what}: delta code {f["delta"]}')
    else:
        years = [f['frm'], f['to']]
        at = f['code'] * 15 + (f['mod'] & 15)
        save = f['delta'] * 60
    return {'frm': years[0], 'to': years[1], 'month': f['month'],
            'dow': f['dow'], 'dom': f['dom'], 'at': at,
            'sfx': suffix(f['mod'], what), 'save': save,
            'letter': letters[i]}


def long_format(f):
    return '%z' if f == '' else f.replace('%', '%s')


def era_from(f, low, base, what):
    if low:
        off = f['off'] * 900 + (f['delta'] >> 4) * 60
        save = ((f['delta'] & 15) - 4) * 900
        y = MAXU if f['y'] == 127 else MINY if f['y'] == -127 \
            else f['y'] + base
        require(f['y'] != -128, f'{what}: tiny until year -128')
        secs = f['code'] * 900 + (f['mod'] & 15) * 60
    else:
        off = f['off'] * 15 + f['rem']
        save = f['delta'] * 60
        y = f['y']
        secs = f['code'] * 15 + (f['mod'] & 15)
    sfx = suffix(f['mod'], what)
    if y == MAXU:
        until = None
        same((f['m'], f['d'], secs, sfx), (1, 1, 0, 'w'),
             f'{what}: UNTIL fields of an era without end')
    else:
        until = (y, f['m'], f['d'], secs, sfx)
    return {'off': off, 'save': save, 'fmt': long_format(f['fmt']),
            'until': until}


def expand(name, fragments):
    """Expand fragment codes of a compressed name."""
    out = ''
    for c in name:
        if ord(c) < 32:
            require(1 <= ord(c) < len(fragments),
                    f'name {name!r}: fragment {ord(c)} of {len(fragments)}')
            out += fragments[ord(c)]
        else:
            out += c
    return out


def c_like(files, cfg, language):
    """Decode generated Arduino or C files from their text."""
    u = ctext.parse(files[f] for f in sorted(files)
                    if f.endswith(('.h', '.cpp', '.c')))
    low = cfg['scope'] != 'complete'
    base = cfg['base']
    ar = language == 'arduino'
    ns = cfg['ns']
    Z = 'kZone' if ar else f'k{ns}Zone'
    S = 'kZone' if ar else 'kAtcZone'

    def text(v):
        while isinstance(v, ctext.Ref):
            v = u.value(v)
        return v

    ctx = u.value(f'{Z}Context')
    if ar:
        names = ['start', 'until', 'start_acc', 'until_acc', 'base',
                 'max_transitions', 'version', 'num_fragments', 'num_letters',
                 'fragments', 'letters']
    else:
        names = ['start', 'until', 'start_acc', 'until_acc',
                 'max_transitions', 'version', 'num_fragments', 'num_letters',
                 'fragments', 'letters']
    ranges = {'start': I16, 'until': I16, 'start_acc': I16, 'until_acc': I16,
              'base': I16, 'max_transitions': I16, 'num_fragments': U8,
              'num_letters': U8}
    c = record(ctx, [(n, ranges.get(n)) for n in names],
               f'{language} context')
    fragments = [text(x) for x in text(c['fragments'])]
    letters = [text(x) for x in text(c['letters'])]
    same(c['num_fragments'], len(fragments), f'{language}: numFragments')
    same(c['num_letters'], len(letters), f'{language}: numLetters')
    require(fragments[0] is None, f'{language}: fragment 0')
    context = {'version': text(c['version']), 'start': c['start'],
               'until': c['until'], 'start_acc': c['start_acc'],
               'until_acc': c['until_acc'],
               'max_transitions': c['max_transitions']}
    if ar:
        context['base'] = c['base']
        same(text(u.value('kTzDatabaseVersion')), context['version'],
             'kTzDatabaseVersion')

    policies = {}
    prefix = Z + 'Policy' if ar else None
    rules_of = {}
    for n in u.order:
        m = re.fullmatch(r'k(?:Atc|' + re.escape(ns) + r')?ZonePolicy(.*)', n)
        if not m or 'Policy' not in u.types[n]:
            continue
        f = record(u.value(n), [('rules', None), ('num', U8)], n)
        raw = u.value(f['rules'])
        same(f['num'], len(raw), f'{n}: number of rules')
        policies[m.group(1)] = [
            rule_from(record(x, LOW_RULE if low else HIGH_RULE,
                             f'{n}[{i}]'), low, letters, base, f'{n}[{i}]')
            for i, x in enumerate(raw)]
        rules_of[n] = m.group(1)

    era_cache = {}

    def eras(ref, num, what):
        raw = u.value(ref)
        same(num, len(raw), f'{what}: number of eras')
        if ref not in era_cache:
            out = []
            for i, x in enumerate(raw):
                w = f'{ref}[{i}]'
                f = record(x, LOW_ERA if low else HIGH_ERA, w)
                f['fmt'] = text(f['fmt'])
                e = era_from(f, low, base, w)
                p = f['policy']
                if p is not None:
                    require(p in rules_of, f'{w}: policy {p} is not defined')
                    p = rules_of[p]
                e['policy'] = p
                out.append(e)
            era_cache[ref] = out
        return era_cache[ref]

    infos = {}
    raws = {}
    for n in u.order:
        if 'ZoneInfo' in u.types[n] and u.dims[n] is None \
                and isinstance(u.data[n], list) and '*' not in u.types[n]:
            infos[n] = record(u.value(n), INFO, n)
            require(n in u.externs, f'{n} is not declared in the header')
    names = {}
    for n, f in infos.items():
        raw = text(f['name'])
        raws[n] = raw
        names[n] = expand(raw, fragments)
        require(f['context'] == f'{Z}Context', f'{n}: context {f["context"]}')
    zones, links = {}, {}
    for n, f in infos.items():
        name = names[n]
        same(n, Z + normalize(name), f'symbol of {name}')
        e = eras(f['eras'], f['num'], n)
        require(name not in zones and name not in links,
                f'{name} is defined twice')
        if f['target'] is None:
            zones[name] = {'id': f['id'], 'eras': e}
        else:
            require(f['target'] in infos, f'{n}: target {f["target"]}')
            target = names[f['target']]
            require(infos[f['target']]['target'] is None,
                    f'{n}: target is a link')
            same(f['eras'], infos[f['target']]['eras'],
                 f'{n}: eras of the link and of its target')
            links[name] = {'id': f['id'], 'target': target}

    def registry(sym):
        r = u.value(sym)
        for x in r:
            require(x in names, f'{sym}: {x} is not defined')
        require(u.dims[sym] in (None, len(r)), f'{sym}: size {u.dims[sym]}')
        require(u.externs.get(sym) in (None, len(r)),
                f'{sym}: declared size {u.externs.get(sym)}')
        return [names[x] for x in r]
    reg_z = registry(f'{Z}Registry')
    reg_a = registry(f'{Z}AndLinkRegistry')
    same(u.value(f'{Z}RegistrySize'), len(reg_z), f'{Z}RegistrySize')
    same(u.value(f'{Z}AndLinkRegistrySize'), len(reg_a),
         f'{Z}AndLinkRegistrySize')

    # Constants
    ids, bufs = {}, {}
    for src in (u.data, u.defines):
        for k, v in src.items():
            for kind, d in (('Id', ids), ('BufSize', bufs)):
                p = f'{Z}{kind}'
                if k.startswith(p) and k[len(p):]:
                    v2 = v if isinstance(v, int) else _int(v)
                    if v2 is not None:
                        require(k[len(p):] not in d, f'{k} defined twice')
                        d[k[len(p):]] = v2
    return {'context': context, 'zones': zones, 'links': links,
            'policies': policies, 'zone_registry': reg_z,
            'all_registry': reg_a, 'id_constants': ids,
            'buf_constants': bufs, 'fragments': fragments,
            'letters': letters, 'stored_names': {
                names[n]: raws[n] for n in names},
            'unit': u}


def _int(v):
    try:
        return int(v, 0)
    except (ValueError, TypeError):
        return None


# ------------------------------------------------------------------ Go text

GO_STR = r'"(?:[^"\\\n]|\\.)*"'


def go_string(literal):
    """Bytes of a Go interpreted string literal (hex escapes have exactly two
    digits)."""
    s = literal[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c != '\\':
            out += c.encode('utf-8')
            i += 1
            continue
        e = s[i + 1]
        if e == 'x':
            h = s[i + 2:i + 4]
            if not re.fullmatch(r'[0-9a-fA-F]{2}', h):
                raise Violation(f'bad hex escape in {literal[:80]}')
            out.append(int(h, 16))
            i += 4
        elif e in ctext.SIMPLE and e != '?':
            out += ctext.SIMPLE[e].encode()
            i += 2
        else:
            raise Violation(f'bad escape in {literal[:80]}')
    return bytes(out)


def go_constants(text):
    """(strings, numbers, number arrays) declared in Go source text."""
    strings, numbers, arrays = {}, {}, {}
    text = re.sub(r'^[ \t]*//[^\n]*$', '', text, flags=re.M)
    pat = re.compile(
        r'^const[ \t]+(\w+)(?:[ \t]+string)?[ \t]*=\s*((?:' + GO_STR
        + r')(?:\s*\+\s*' + GO_STR + r')*)', re.M)
    for m in pat.finditer(text):
        require(m.group(1) not in strings, f'{m.group(1)} declared twice')
        strings[m.group(1)] = b''.join(
            go_string(x) for x in re.findall(GO_STR, m.group(2)))
    for m in re.finditer(
            r'^(?:const[ \t]+|[ \t]+)(\w+)(?:[ \t]+u?int\d*)?[ \t]*=[ \t]*'
            r'(-?(?:0x[0-9a-fA-F]+|\d+))\b', text, re.M):
        require(m.group(1) not in numbers, f'{m.group(1)} declared twice')
        numbers[m.group(1)] = int(m.group(2), 0)
    for m in re.finditer(
            r'^var[ \t]+(\w+)[ \t]*=[ \t]*\[\](u?int\d+)\{([^}]*)\}', text,
            re.M):
        body = re.sub(r'//[^\n]*', '', m.group(3))
        vals = [int(x, 0) for x in body.replace(',', ' ').split()]
        bits = int(re.search(r'\d+', m.group(2)).group())
        hi = (1 << bits) - 1
        for v in vals:
            require(0 <= v <= hi, f'{m.group(1)}: {v} overflows '
                    f'{m.group(2)}')
        arrays[m.group(1)] = vals
    return strings, numbers, arrays


def go_table(strings, arrays, name, sentinel):
    data, off = strings[name + 'Data'], arrays[name + 'Offsets']
    out = []
    for a, b in zip(off, off[1:]):
        require(0 <= a <= b <= len(data), f'{name}Offsets: {a}, {b}')
        out.append(data[a:b].decode('ascii'))
    return out


def go(files, cfg):
    strings, numbers, arrays = {}, {}, {}
    for f in ('zone_infos.go', 'zone_policies.go', 'zone_registry.go'):
        s, n, a = go_constants(files[f])
        for d, x in ((strings, s), (numbers, n), (arrays, a)):
            for k in x:
                require(k not in d, f'{k} declared twice')
            d.update(x)
    letters = go_table(strings, arrays, 'Letter', '~')
    formats = go_table(strings, arrays, 'Format', '~')
    names = go_table(strings, arrays, 'Name', '~')

    def chunks(what, size, count):
        data = strings[what]
        same(numbers[size], {'ZoneRuleChunkSize': 12, 'ZonePolicyChunkSize':
                             4, 'ZoneEraChunkSize': 14,
                             'ZoneInfoChunkSize': 12}[size], size)
        n = numbers[count]
        same(len(data), n * numbers[size], f'length of {what}')
        return [data[i * numbers[size]:(i + 1) * numbers[size]]
                for i in range(n)]

    rules = []
    for i, b in enumerate(chunks('ZoneRulesData', 'ZoneRuleChunkSize',
                                 'ZoneRuleCount')):
        v = struct.unpack('<hhBBbBHbB', b)
        f = dict(zip(('frm', 'to', 'month', 'dow', 'dom', 'mod', 'code',
                      'delta', 'letter'), v))
        rules.append(rule_from(f, False, letters, 0, f'go rule {i}'))
    pols = []
    nxt = 0
    for i, b in enumerate(chunks('ZonePoliciesData', 'ZonePolicyChunkSize',
                                 'ZonePolicyCount')):
        idx, cnt = struct.unpack('<HH', b)
        if i == 0:
            same((idx, cnt), (0, 0), 'the null policy')
            pols.append(None)
            continue
        require(idx + cnt <= len(rules) and cnt > 0,
                f'policy {i}: rules {idx}+{cnt} of {len(rules)}')
        same(idx, nxt, f'first rule of policy {i}')
        nxt = idx + cnt
        pols.append(rules[idx:idx + cnt])
    same(nxt, len(rules), 'rules covered by policies')
    eras = []
    pol_index = []
    for i, b in enumerate(chunks('ZoneErasData', 'ZoneEraChunkSize',
                                 'ZoneEraCount')):
        v = struct.unpack('<HBBhhbBBBH', b)
        f = dict(zip(('fmt', 'policy', 'rem', 'off', 'y', 'delta', 'm', 'd',
                      'mod', 'code'), v))
        require(f['fmt'] < len(formats), f'era {i}: format {f["fmt"]}')
        require(f['policy'] < len(pols), f'era {i}: policy {f["policy"]}')
        f['fmt'] = formats[f['fmt']]
        e = era_from(f, False, 0, f'go era {i}')
        pol_index.append(f['policy'])
        eras.append(e)
    infos = []
    for i, b in enumerate(chunks('ZoneInfosData', 'ZoneInfoChunkSize',
                                 'ZoneInfoCount')):
        zid, nm, idx, cnt, target = struct.unpack('<IHHHH', b)
        require(nm < len(names), f'info {i}: name {nm}')
        require(idx + cnt <= len(eras), f'info {i}: eras {idx}+{cnt}')
        infos.append((zid, names[nm], idx, cnt, target))
    zones, links = {}, {}
    used = [0] * len(eras)
    for i, (zid, n, idx, cnt, target) in enumerate(infos):
        require(n not in zones and n not in links, f'{n} twice')
        if cnt:
            for k in range(idx, idx + cnt):
                used[k] += 1
            same(target, 0, f'target of zone {n}')
            zones[n] = {'id': zid, 'eras': [
                dict(eras[k], policy=pol_index[k])
                for k in range(idx, idx + cnt)]}
        else:
            require(target < len(infos), f'link {n}: target {target}')
            require(infos[target][3] > 0, f'link {n} leads to a link')
            links[n] = {'id': zid, 'target': infos[target][1]}
    require(all(x == 1 for x in used), 'some eras are not in just one zone')

    reg = files['zone_registry.go']
    ctx = dict(re.findall(r'^\s*(\w+):\s*([-\w]+),', reg, re.M))
    for k, v in ctx.items():
        if k in ('StartYear', 'UntilYear', 'StartYearAccurate',
                 'UntilYearAccurate', 'MaxTransitions'):
            continue
        same(v, k, 'DataContext field')
    context = {'version': strings['TzDatabaseVersion'].decode(),
               'start': int(ctx['StartYear']),
               'until': int(ctx['UntilYear']),
               'start_acc': int(ctx['StartYearAccurate']),
               'until_acc': int(ctx['UntilYearAccurate']),
               'max_transitions': int(ctx['MaxTransitions'])}
    ids = {k[6:]: v for k, v in numbers.items()
           if k.startswith('ZoneID') and k[6:]}
    tests = go_constants(files['zone_registry_test.go'])[1]
    indexes = {k[13:]: v for k, v in tests.items()
               if k.startswith('ZoneInfoIndex')}
    return {'context': context, 'zones': zones, 'links': links,
            'policies': pols, 'zone_registry': None,
            'all_registry': [x[1] for x in infos], 'id_constants': ids,
            'letters': letters, 'formats': formats, 'names': names,
            'indexes': indexes, 'strings': strings, 'arrays': arrays,
            'numbers': numbers, 'ctx': ctx}


def go_named(db, policy_names):
    """Give the policies of a decoded Go database their names, which are in
    sorted order."""
    names = [None] + [normalize(p) for p in sorted(policy_names)]
    same(len(db['policies']), len(names), 'number of Go policies')
    db = dict(db)
    db['policies'] = {n: db['policies'][i]
                      for i, n in enumerate(names) if n is not None}
    for z in db['zones'].values():
        for e in z['eras']:
            e['policy'] = names[e['policy']]
    return db


# ------------------------------------------------------------------- Python

def python_modules(files):
    """Import generated Python files as modules of a package next to the
    (stub) acetime.typing; returns {file stem: namespace}."""
    import importlib
    import sys
    import types
    acetime = importlib.import_module('acetime')
    importlib.import_module('acetime.typing')
    out = {}
    name = 'acetime.verifdb'
    pkg = types.ModuleType(name)
    pkg.__path__ = []
    sys.modules[name] = pkg
    acetime.verifdb = pkg
    try:
        for stem in ('zone_policies', 'zone_infos', 'zone_registry'):
            mod = types.ModuleType(f'{name}.{stem}')
            mod.__package__ = name
            code = compile(files[stem + '.py'], stem + '.py', 'exec')
            exec(code, mod.__dict__)
            sys.modules[mod.__name__] = mod
            setattr(pkg, stem, mod)
            out[stem] = mod.__dict__
    finally:
        del acetime.verifdb
        for k in list(sys.modules):
            if k == name or k.startswith(name + '.'):
                del sys.modules[k]
    return out


RULE_KEYS = {'from_year', 'to_year', 'in_month', 'on_day_of_week',
             'on_day_of_month', 'at_seconds', 'at_time_suffix',
             'delta_seconds', 'letter'}
ERA_KEYS = {'offset_seconds', 'zone_policy', 'era_delta_seconds', 'format',
            'until_year', 'until_month', 'until_day', 'until_seconds',
            'until_time_suffix'}


def py_rule(r):
    same(set(r), RULE_KEYS, 'fields of a Python rule')
    return {'frm': r['from_year'], 'to': r['to_year'], 'month': r['in_month'],
            'dow': r['on_day_of_week'], 'dom': r['on_day_of_month'],
            'at': r['at_seconds'], 'sfx': r['at_time_suffix'],
            'save': r['delta_seconds'], 'letter': r['letter']}


def py_era(e, policy):
    same(set(e), ERA_KEYS, 'fields of a Python era')
    y = e['until_year']
    rest = (e['until_month'], e['until_day'], e['until_seconds'],
            e['until_time_suffix'])
    if y == MAXU:
        same(rest, (1, 1, 0, 'w'), 'UNTIL fields of an era without end')
    return {'off': e['offset_seconds'], 'save': e['era_delta_seconds'],
            'policy': policy, 'fmt': e['format'],
            'until': None if y == MAXU else (y,) + rest}


def python(files, cfg):
    m = python_modules(files)
    zp, zi, zr = m['zone_policies'], m['zone_infos'], m['zone_registry']
    policies, by_id = {}, {}
    for k, v in zp.items():
        if k.startswith('ZONE_POLICY_'):
            n = k[12:]
            same(set(v), {'name', 'rules'}, f'fields of {k}')
            same(normalize(v['name']), n, f'name of {k}')
            require(v['rules'] is zp['ZONE_RULES_' + n],
                    f'{k} does not share its rules')
            policies[n] = [py_rule(r) for r in v['rules']]
            by_id[id(v)] = n

    def eras(info, what):
        out = []
        for e in info['eras']:
            p = e['zone_policy']
            require(p is None or id(p) in by_id,
                    f'{what}: the policy is not one of zone_policies')
            out.append(py_era(e, None if p is None else by_id[id(p)]))
        return out

    zones, links, objects = {}, {}, {}
    for k, v in zi.items():
        if not k.startswith('ZONE_INFO_'):
            continue
        n = v['name']
        same(k, 'ZONE_INFO_' + normalize(n), f'symbol of {n}')
        objects[n] = v
        if 'link_to' in v:
            same(set(v), {'name', 'eras', 'link_to'}, f'fields of {k}')
            t = v['link_to']
            require('link_to' not in t, f'{n}: target is a link')
            require(zi['ZONE_INFO_' + normalize(t['name'])] is t,
                    f'{n}: target is not a zone of the database')
            require(t['eras'] is v['eras'],
                    f'{n} does not share the eras of {t["name"]}')
            links[n] = {'target': t['name']}
        else:
            same(set(v), {'name', 'eras'}, f'fields of {k}')
            require(zi['ZONE_ERAS_' + normalize(n)] is v['eras'],
                    f'{n} does not share its eras')
            zones[n] = {'eras': eras(v, n)}
    for reg, want in (('ZONE_REGISTRY', set(zones)),
                      ('ZONE_AND_LINK_REGISTRY', set(zones) | set(links))):
        same(sorted(zr[reg]), sorted(want), f'names in {reg}')
        for n, v in zr[reg].items():
            require(v is objects[n], f'{reg}[{n!r}] is another zone')
    return {'context': {'version': zi['TZDB_VERSION'],
                        'start': zi['START_YEAR'], 'until': zi['UNTIL_YEAR'],
                        'start_acc': zi['START_YEAR_ACCURATE'],
                        'until_acc': zi['UNTIL_YEAR_ACCURATE']},
            'zones': zones, 'links': links, 'policies': policies,
            'zone_registry': None, 'all_registry': None,
            'orders': {r: list(zr[r]) for r in
                       ('ZONE_REGISTRY', 'ZONE_AND_LINK_REGISTRY')}}


def without_ids(db):
    db = dict(db)
    for part in ('zones', 'links'):
        db[part] = {n: {k: v for k, v in x.items() if k != 'id'}
                    for n, x in db[part].items()}
    return db
