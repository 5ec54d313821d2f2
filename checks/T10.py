"""T10: ambiguous or unsupported names and formats stop compilation."""
from hypothesis import strategies as st

from vlib import expect, gen, model as M, pipeline as P
from vlib.harness import Part, require

RULE = (
    'Random sources that compile get one planted conflict (two names with '
    'one djb2 hash, two names or policies with one symbol, a link to a link '
    'or to itself, an unresolvable FORMAT, a link with the name of a zone) or '
    'a near miss of one (names differing in a letter, case or one hash unit, '
    'links sharing a target, a policy named like a zone, resolvable FORMATs); '
    'the first must be refused and the second compiled. Non-trivial: a '
    'conflict was planted in a source that compiles without it.')

CHARS = ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-')


def _pairs():
    out = []
    for a in CHARS:
        for b in CHARS:
            for d in range(-3, 4):
                c, e = chr(ord(a) + d), chr(max(1, ord(b) - 33 * d))
                if d and c in CHARS and e in CHARS and c.isalpha() \
                        and a.isalpha():
                    out.append((a + b, c + e))
    return out


PAIRS = _pairs()
PARTS_OF_NAMES = st.text('abcdefgh_XYZ', min_size=0, max_size=5)


@st.composite
def hash_pair(draw):
    """Two different names with the same djb2 hash."""
    head = draw(st.sampled_from(['', 'Etc/', 'America/', 'Asia/A']))
    a, b = draw(st.sampled_from(PAIRS))
    x, y = draw(PARTS_OF_NAMES), draw(PARTS_OF_NAMES)
    return head + x + a + y, head + x + b + y


@st.composite
def symbol_pair(draw, plus=True):
    """Two different names with one normalized symbol."""
    head = draw(st.sampled_from(['Etc/', 'America/', '']))
    x = draw(st.sampled_from(['Ab', 'GMT', 'Q']))
    y = draw(st.sampled_from(['c', 'Dx', '0']))
    if draw(st.booleans()):
        a, b = draw(st.sampled_from(
            [('-', '_'), ('/', '_'), ('-', '/'), ('.', '_'), ('--', '__')]))
    else:
        a, b = draw(st.sampled_from(
            [('+', '_PLUS_'), ('+', '-PLUS-'), ('++', '+_PLUS_')]))
    return head + x + a + y, head + x + b + y


def near_pair():
    return st.sampled_from([
        ('Etc/GMT+1', 'Etc/GMT-1'), ('Etc/Abc', 'Etc/AbC'),
        ('Etc/Abc', 'Etc/Abcd'), ('Etc/Abc', 'Abc'), ('Etc/Ab_c', 'Etc/Abc'),
        ('Etc/Ab-c', 'Etc/A-bc'), ('Etc/GMT+0', 'Etc/GMT0'),
        ('Etc/bA', 'Etc/ac'), ('Etc/ab', 'Etc/ba'), ('Etc/bA', 'Etc/aa'),
        ('Etc/A_PLUSb', 'Etc/A+b'), ('a/b', 'A/b')])


def add_zone(model, name):
    model['zones'].append([name, [{'off': 3600, 'rules': None, 'fmt': 'XST',
                                   'until': None}]])


@st.composite
def add_pair(draw, model, a, b):
    """Adds two names, each as zone or link, anywhere in the source."""
    target = model['zones'][0][0]
    for n in draw(st.permutations([a, b])):
        if draw(st.booleans()):
            add_zone(model, n)
        else:
            model['links'].append([n, target])
    model['zones'] = list(draw(st.permutations(model['zones'])))
    model['links'] = list(draw(st.permutations(model['links'])))


CONFLICTS = ['hash', 'symbol', 'policy', 'link', 'self', 'format', 'name']
NEAR = ['near', 'nearpolicy', 'sharedtarget', 'formats', 'policyzone']


def case():
    @st.composite
    def s(draw):
        c = draw(gen.compiled(max_zones=4, max_links=3))
        model = c['model']
        names = {M.normalize(n) for n, _ in model['zones'] + model['links']}
        kind = draw(st.sampled_from(CONFLICTS * 2 + NEAR))
        c['base'] = M.to_files(model)
        if kind in ('hash', 'symbol', 'near'):
            a, b = draw({'hash': hash_pair, 'symbol': symbol_pair,
                         'near': near_pair}[kind]())
            if kind != 'symbol' and (
                    M.normalize(a) in names or M.normalize(b) in names):
                kind = 'none'
            else:
                draw(add_pair(model, a, b))
        elif kind in ('policy', 'nearpolicy'):
            a, b = draw(st.sampled_from(
                [('E-Eur', 'E_Eur'), ('X+q', 'X_PLUS_q'), ('A--b', 'A_-b')]
                if kind == 'policy' else
                [('E-Eur', 'EEur'), ('Abq', 'ABq'), ('E-Eurx', 'E_Eury')]))
            rules = [{'frm': 1900, 'to': 'max', 'month': 3, 'on': [0, 5],
                      'at': 0, 'sfx': '', 'save': 0, 'letter': '-'}]
            model['policies'] = [p for p in model['policies']
                                 if M.normalize(p[0]) not in (
                                     M.normalize(a), M.normalize(b))]
            # eras must not lose their policy
            have = {p[0] for p in model['policies']} | {a, b}
            for _, eras in model['zones']:
                for e in eras:
                    if e['rules'] and 'policy' in e['rules'] \
                            and e['rules']['policy'] not in have:
                        e['rules'] = {'policy': a}
            for n in draw(st.permutations([a, b])):
                model['policies'].append([n, rules])
            # both are used
            for i, n in enumerate((a, b)):
                name = f'Etc/Qx{i}'
                if name not in names:
                    model['zones'].append([name, [{
                        'off': 0, 'rules': {'policy': n}, 'fmt': 'X%s',
                        'until': None}]])
        elif kind in ('link', 'self', 'sharedtarget'):
            t = model['zones'][0][0]
            if names & {'Etc_La', 'Etc_Lb'}:
                kind = 'none'
            else:
                model['links'] += draw(st.permutations(
                    [['Etc/La', t], ['Etc/Lb', 'Etc/La']] if kind == 'link'
                    else [['Etc/La', 'Etc/La']] if kind == 'self'
                    else [['Etc/La', t], ['Etc/Lb', t]]))
        elif kind in ('format', 'formats'):
            n, eras = draw(st.sampled_from(model['zones']))
            kept, old, _, _ = expect.retained_eras(
                eras, c['cfg']['start'], c['cfg']['until'])
            e = eras[old + draw(st.integers(0, len(kept) - 1))]
            pol = e['rules'] and 'policy' in e['rules']
            if kind == 'format':
                bad = ['%z%s', '%zX', 'A%z', '+%z', '%z/%z', '%', 'A%dT',
                       'A%', '%S', 'A%/B', '%%s', 'E%sT%', '%+03d']
                if not pol:
                    bad += ['%s', 'E%sT', 'A/%s', '%sx']
                e['fmt'] = draw(st.sampled_from(bad))
                # scope basic may drop the zone first
                if c['cfg']['scope'] == 'basic':
                    c['cfg'].update(P.config('complete', c['cfg']['start'],
                                             c['cfg']['until']))
                    c['unsure'] = True
            else:
                e['fmt'] = draw(st.sampled_from(
                    ['%z', 'X', '-00', 'A/B'] + (['%s', 'E%sT', 'A%s/B']
                                                 if pol else [])))
        elif kind == 'name':
            if model['links'] and draw(st.booleans()):
                add_zone(model, model['links'][0][0])
            else:
                model['links'].append([model['zones'][0][0],
                                       model['zones'][-1][0]])
        elif kind == 'policyzone':
            # policies and zones have separate symbols
            if 'Qq' in names or any(p[0] == 'Qq' for p in model['policies']):
                kind = 'none'
            else:
                add_zone(model, 'Qq')
                model['policies'].append(['Qq', [{
                    'frm': 1900, 'to': 'max', 'month': 3, 'on': [0, 5],
                    'at': 0, 'sfx': '', 'save': 0, 'letter': '-'}]])
                model['zones'][0][1][-1]['rules'] = {'policy': 'Qq'}
                model['zones'][0][1][-1]['fmt'] = 'X'
        c['kind'] = kind
        c['style'] = 0
        return c
    return s()


def fn(case, rec):
    kind, cfg = case['kind'], case['cfg']
    rec.label(kind)
    try:
        P.transform(case['base'], cfg)
        base = True
    except P.Refused:
        base = False
    try:
        t = P.transform(gen.files(case), cfg)
        why = None
    except P.Refused as e:
        why = str(e)
    if kind in CONFLICTS:
        require(why is not None, f'a source with a conflict ({kind}) compiled')
        rec.nontrivial(base)
    elif base:
        require(why is None, f'a source without a conflict ({kind}) was '
                f'refused: {why}')
        if kind != 'none':
            for n, _ in case['model']['links']:
                require(n in t.links_map or cfg['scope'] == 'basic',
                        f'link {n} lost')


PARTS = [Part('conflicts', case, fn, 2400, 60000)]
