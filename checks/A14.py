"""A14: a value that does not fit its field is refused, never wrapped."""
from hypothesis import strategies as st

from vlib import decode, outs, pipeline as P
from vlib.harness import Part, decoding

RULE = (
    'Sources with one quantity at, just below or just above the limit of its '
    'field (times and offsets in 15 s, 15 min or minute codes with every '
    'remainder, shifts, years, requested years, numbers of rules, eras, '
    'letters, policies and name fragments, totals of letter, format and name '
    'bytes) are compiled for C++, C and Go. The limits follow from the '
    'record layouts. If every compiled value fits, the output must be '
    'produced and decode to the compiled values; if not, generation must '
    'stop. Non-trivial: the quantity is within a few steps of its limit.')
ASSUMPTIONS = ['UNTIL year 32767 is reserved for eras without end']

LANGS = ['arduino', 'c', 'go']


def rule(frm, to, month=4, at=0, save=3600, letter='', sfx='', on=(0, 1)):
    return {'frm': frm, 'to': to, 'month': month, 'on': list(on), 'at': at,
            'sfx': sfx, 'save': save, 'letter': letter}


def era(off=0, rules=None, fmt='LMT', until=None):
    return {'off': off, 'rules': rules, 'fmt': fmt, 'until': until}


def model(policies=(), zones=(), links=()):
    return {'policies': [list(p) for p in policies],
            'zones': [['Etc/UTC', [era()]]] + [list(z) for z in zones],
            'links': [list(x) for x in links]}


def word(i, first='A'):
    """Distinct three-letter strings."""
    a = 'BCDEFGHIJKLMNOPQRSTUVWXYZ'
    return first + a[i // 25 % 25] + a[i % 25]


@st.composite
def near(draw, limit, spread=3):
    """A value around one of the limits."""
    x = draw(st.sampled_from(limit))
    return x + draw(st.integers(-spread, spread))


@st.composite
def config(draw, scopes=('complete', 'extended', 'basic')):
    scope = draw(st.sampled_from(list(scopes)))
    cfg = P.config(scope=scope, start=1980, until=2090, strict=draw(
        st.booleans()), base=2050, compress=draw(st.booleans()))
    return cfg


KINDS = ['at', 'off', 'save', 'until', 'year', 'range', 'era_save',
         'era_save']


@st.composite
def values(draw):
    kind = draw(st.sampled_from(KINDS))
    cfg = draw(config({'range': ('complete',),
                       'era_save': ('complete', 'extended')}.get(
        kind, ('complete', 'complete', 'extended', 'basic'))))
    if draw(st.integers(0, 3)) == 0:
        cfg['at'], cfg['off'] = draw(st.sampled_from(
            [(1, 1), (60, 60), (15, 15), (900, 900), (60, 1)]))
        cfg['save'] = draw(st.sampled_from([1, 60, 900]))
    hi = cfg['scope'] == 'complete'
    grain = draw(st.sampled_from([1, 60, 900] if hi else [60, 60, 900, 1]))

    def time(limits):
        v = draw(near([x // grain for x in limits], 5)) * grain
        if draw(st.integers(0, 3)) == 0:
            v += draw(st.integers(-20, 20))
        return v
    at, off, save, until = 7200, 3600, 3600, 7200
    frm, to, uy = 1990, 2030, 2040
    # the parser takes times up to 25:59:59
    times = [26 * 3600, 25 * 3600, 24 * 3600, 26 * 3600 - 1, 255 * 900,
             65536 * 15]
    if kind == 'at':
        at = max(0, time(times))
    elif kind == 'until':
        until = max(0, time(times))
    elif kind == 'off':
        off = draw(st.sampled_from([1, -1])) * time(
            [26 * 3600, 26 * 3600 - 1, 24 * 3600, 127 * 900, 64 * 900,
             32767 * 15])
    elif kind in ('save', 'era_save'):
        save = draw(st.sampled_from([1, -1, 1])) * draw(st.sampled_from(
            [60, 60, 900, 15])) * draw(st.integers(0, 20)) + draw(
            st.sampled_from([127 * 60, -128 * 60, 11 * 900, -4 * 900, 0,
                             255 * 60, 256 * 60, 256 * 900, 15 * 900]))
        if draw(st.booleans()):
            save = draw(st.sampled_from(
                [900 * k for k in (-5, -4, 11, 12, 15, 16)]
                + [60 * k for k in (-129, -128, 127, 128)]))
    elif kind == 'year':
        big = [32767, 32768, 65536, -32767 if hi else 1900, 40000, 99999]
        which = draw(st.integers(0, 2))
        if which == 0:
            to = max(draw(near(big)), frm)
        elif which == 1:
            frm = draw(near(big))
            to = max(to, frm)
        else:
            uy = draw(near(big))
            if uy == 32767:         # reserved: an era without end
                uy = 32766
    else:
        if draw(st.booleans()):
            cfg['until'] = draw(near([32767, 32768, 33000, 65536]))
            cfg['start'] = cfg['until'] - draw(st.integers(1, 30))
        else:
            cfg['start'] = draw(near([-32767, -32768, -33000, -65536]))
            cfg['until'] = cfg['start'] + draw(st.integers(1, 30))
    pol = ['P', [rule(frm, to, 4, at, save, 'D',
                      draw(st.sampled_from(['', 's', 'u']))),
                 rule(1990, 2030, 10, 7200, 0, 'S'),
                 rule(1960, 1960, 1, 0, 0, 'S')]]
    u = {'y': uy, 'm': 3, 'on': [0, 2], 'at': until,
         'sfx': draw(st.sampled_from(['', 's', 'u']))}
    shape = draw(st.integers(0, 2))
    rules = {'save': save} if kind == 'era_save' and save else \
        {'policy': 'P'}
    fmt = 'A%sT'
    if rules.get('save') is not None:
        fmt = 'AST'
    eras = [era(off, rules, fmt, u), era(3600, None, 'XST')]
    if shape == 1:
        eras = [era(3600, None, 'XST', {'y': 1995})] + eras
    zones = [['Aa/Bb', eras]]
    if rules.get('save') is not None or shape == 2:
        zones.append(['Aa/Cc', [era(0, {'policy': 'P'}, 'B%sT')]])
    return {'kind': kind, 'model': model([pol], zones), 'cfg': cfg,
            'style': draw(st.sampled_from([0, 0, 1])),
            'lang': draw(st.sampled_from(LANGS))}


LANGS_OF = {'letter_bytes': ['go'], 'fragments': ['arduino', 'c'],
            'policies': ['go', 'go', 'c', 'arduino'],
            'letters': ['arduino', 'c', 'arduino', 'c', 'go']}
SCOPES_OF = {k: ('complete', 'extended')
             for k in ('rules', 'letters', 'letter_bytes')}
COUNT_KINDS = ['rules', 'eras', 'letters', 'letter_bytes', 'policies', 'fragments']


@st.composite
def counts(draw):
    kind = draw(st.sampled_from(COUNT_KINDS))
    cfg = draw(config(SCOPES_OF.get(kind, ('complete', 'extended',
                                           'basic'))))
    lang = draw(st.sampled_from(LANGS_OF.get(kind, LANGS)))
    n = draw(st.integers(28, 34) if kind == 'fragments' else
             st.integers(252, 258))
    return counted(kind, cfg, lang, n, draw(st.integers(1, 30)))


def count_edges(tier):
    """Every count at and just over its limit, in every language."""
    for kind in COUNT_KINDS:
        for lang in sorted(set(LANGS_OF.get(kind, LANGS))):
            for n in ((30, 31, 32) if kind == 'fragments' else
                      (254, 255, 256, 257)):
                for scope in ('complete', 'extended'):
                    yield counted(kind, P.config(scope=scope, base=2020),
                                  lang, n, 12)


def counted(kind, cfg, lang, n, long):
    cfg['start'], cfg['until'] = 1940, 2090
    cfg['base'] = 2020
    pols, zones = [], []
    if kind in ('rules', 'letters', 'letter_bytes'):
        # alternating shifts, two a year, from 1941
        letters = ['S'] * 400
        if kind == 'letters':
            letters = [word(i) for i in range(n)] + ['BBB'] * 200
        if kind == 'letter_bytes':
            letters = []
            left = n
            while left > 0:
                k = min(left, long if left > long + 3 else left)
                if left - k in (1, 2):
                    k = left
                letters.append(word(len(letters)) + 'x' * (k - 3)
                               if k >= 3 else 'QZ'[:k])
                left -= k
        m = n if kind == 'rules' else min(len(letters), 250) \
            if kind == 'letters' else len(letters)
        rules = [rule(1941 + i // 4, 1941 + i // 4, 2 + 2 * (i % 4), 7200,
                      3600 if i % 2 else 0, letters[i])
                 for i in range(m)]
        pols.append(['P', rules])
        zones.append(['Aa/Bb', [era(3600, {'policy': 'P'}, 'A%sT')]])
        if kind == 'letters' and n > 250:
            pols.append(['Q', [rule(
                1941 + i, 1941 + i, 4, 7200, 3600 * (i % 2), letters[250 + i])
                for i in range(n - 250)]])
            zones.append(['Aa/Cc', [era(0, {'policy': 'Q'}, 'B%sT')]])
    elif kind == 'eras':
        eras = [era(3600 * (i % 3), None, 'AST', {
            'y': 1941 + i // 3, 'm': 1 + 4 * (i % 3), 'on': [0, 1],
            'at': 0, 'sfx': ''}) for i in range(n - 1)]
        zones.append(['Aa/Bb', eras + [era(0, None, 'BST')]])
    elif kind == 'policies':
        for i in range(n):
            pols.append([word(i), [rule(1941, 1941, 4, 0, 0, 'S'),
                                   rule(1950, 1950, 4, 0, 3600, 'D'),
                                   rule(1951, 1951, 4, 0, 0, 'S')]])
            zones.append(['Aa/' + word(i),
                          [era(0, {'policy': word(i)}, 'A%sT')]])
    else:
        for i in range(n):
            for k in range(4):
                zones.append([f'{word(i)}x/{word(k)}', [era()]])
    return {'kind': kind, 'model': model(pols, zones), 'cfg': cfg,
            'style': 0, 'lang': lang}


def fn(case, rec):
    lang, cfg = case['lang'], case['cfg']
    c = outs.compile_case(case, [lang], rec)
    rec.label(f'{case["kind"]} {lang}')
    if c is None:
        rec.label(f'{case["kind"]}: source refused')
        return
    rec.nontrivial('Aa/Bb' in c.true['zones']
                   or len(c.true['zones']) > 20)
    if lang in c.refused:
        rec.label(f'{case["kind"]} {cfg["scope"]} {lang}: refused')
        return
    rec.label(f'{case["kind"]} {cfg["scope"]} {lang}: produced')
    with decoding(f'{lang} output'):
        db = outs.decode_lang(c, lang)
        decode.compare(db, outs.want_for(c, lang), lang)


# ------------------------------------------------------------------- totals

def total_cases(tier):
    """Totals near 65535 bytes in the Go tables, and the number of Go
    records."""
    out = []
    for kind in ('names', 'formats'):
        for total in ((65534, 65535, 65536) if tier == 'quick' else
                      (65000, 65533, 65534, 65535, 65536, 65537, 66000,
                       80000, 131072)):
            out.append({'kind': kind, 'total': total})
    for kind in ('eras', 'rules'):
        for total in ((65536,) if tier == 'quick' else
                      (65534, 65535, 65536, 65537, 65540, 65800)):
            out.append({'kind': kind, 'total': total})
    return out


def totals(case, rec):
    kind, total = case['kind'], case['total']
    cfg = P.config(start=1940, until=2090, strict=False)
    cfg['estimate'] = False
    pols, zones = [], []
    if kind in ('names', 'formats'):
        # names of 100 characters, formats of 100 characters
        sizes = []
        left = total - (7 if kind == 'names' else 3)
        while left:
            k = 100 if left >= 200 or left == 100 else left
            if left in range(101, 200):
                k = left - 50
            sizes.append(k)
            left -= k
        for i, k in enumerate(sizes):
            name = f'Aa/{i:04}' if kind == 'formats' else \
                (f'Aa/{i:04}' + 'x' * k)[:k]
            fmt = (f'F{i:04}' + 'x' * k)[:k] if kind == 'formats' else 'LMT'
            zones.append([name, [era(0, None, fmt)]])
    elif kind == 'eras':
        left, i = total - 1, 0
        while left:
            k = min(left, 440)
            if 0 < left - k < 2:
                k -= 2
            eras = [era(900 * (j % 3), None, 'AST', {
                'y': 1941 + j // 3, 'm': 1 + 4 * (j % 3), 'on': [0, 1],
                'at': 0, 'sfx': ''}) for j in range(k - 1)]
            zones.append([f'Aa/{i:04}', eras + [era(0, None, 'BST')]])
            left -= k
            i += 1
    else:
        left, i = total, 0
        while left:
            k = min(left, 590)
            if 0 < left - k < 10:
                k -= 20
            # the first rule sets standard time and makes an anchor
            rules = [rule(1941 + j // 4, 1941 + j // 4, 2 + 2 * (j % 4),
                          7200, 3600 * (j % 2), 'S') for j in range(k - 1)]
            pols.append([word(i), rules])
            zones.append([f'Aa/{i:04}', [era(0, {'policy': word(i)},
                                             'A%sT')]])
            left -= k
            i += 1
    case = {'model': model(pols, zones), 'cfg': cfg, 'style': 0}
    c = outs.compile_case(case, ['go'], rec)
    if c is None:
        rec.label(f'totals {kind}: source refused')
        return
    rec.nontrivial()
    rec.label(f'totals {kind}: ' + ('refused' if c.refused else 'produced'))
    if not c.refused:
        with decoding('go output'):
            decode.compare(outs.decode_lang(c, 'go'), c.true, 'go')


def edge_cases(tier):
    """Every shift at or next to a limit, in every scope and language."""
    shifts = sorted({900 * k + d for k in (-5, -4, 11, 12, 15, 16)
                     for d in (0, 60, -60)}
                    | {60 * k for k in (-129, -128, -127, 126, 127, 128,
                                        255, 256)})
    out = []
    for lang in LANGS:
        for scope in ('complete', 'extended'):
            for sv in shifts:
                if scope == 'extended' and sv % 900:
                    continue
                cfg = P.config(scope=scope, start=1980, until=2090,
                               base=2050)
                out.append({
                    'kind': 'edge', 'cfg': cfg, 'style': 0, 'lang': lang,
                    'model': model([], [['Aa/Bb', [era(
                        3600, {'save': sv}, 'AST')]]])})
                pol = ['P', [rule(1990, 2030, 4, 7200, sv, 'D'),
                             rule(1990, 2030, 10, 7200, 0, 'S'),
                             rule(1960, 1960, 1, 0, 0, 'S')]]
                out.append({
                    'kind': 'edge', 'cfg': cfg, 'style': 0, 'lang': lang,
                    'model': model([pol], [['Aa/Bb', [era(
                        3600, {'policy': 'P'}, 'A%sT')]]])})
    return out


PARTS = [Part('edges', None, fn, 0, 0, cases=edge_cases),
         Part('values', values, fn, 3000, 100000),
         Part('counts', counts, fn, 160, 6000),
         Part('count edges', None, fn, 0, 0, cases=count_edges),
         Part('totals', None, totals, 0, 0, cases=total_cases)]
