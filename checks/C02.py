"""C02: invalid requests fail without output."""
import os

from hypothesis import strategies as st

from vlib import cli, harness, model as M, pipeline as P
from vlib.harness import Part, require, same

RULE = (
    'A valid request on a random source is damaged in one or more ways - '
    'unknown action, language, scope or flag, a start year the scope does '
    'not support, years in the wrong order, a value that is not a number, a required flag left out, a '
    'missing or unreadable input or include file - and run through the '
    'command line: the status must not be 0 and no file may appear or '
    'change. The undamaged request on the same source, with years on the '
    'boundary of the scope, must succeed and write its files. Non-trivial: '
    'every damaged request.')

REQUIRED = ['actions', 'languages', 'input_dir', 'scope', 'tz_version']
LIMIT = {'basic': 1980, 'extended': 1974}

WORDS = st.sampled_from(
    ['zonedbx', 'Json', 'zones', 'all', '', ' json', 'json ', 'zonedb;json',
     'jsonzonedb', 'zone', 'python', 'validation', '*', 'zonedb json',
     'tzdb', 'unittest'])
LANGS = st.sampled_from(
    ['Python', 'cpp', '', 'c++', 'arduino c', 'java', ' go', 'golang', 'none',
     'json', 'zonedb', '*', 'C', 'pythongo', 'all', 'py'])
SCOPES = st.sampled_from(
    ['Basic', '', 'full', 'all', 'comp', 'complete ', 'basic,extended',
     'none', 'ext'])
NUMBERS = st.sampled_from(['x', '', '2000.5', '20 00', '1e3', '0x7d0', '-'])


@st.composite
def damages(draw, scope):
    k = draw(st.integers(0, 10))
    if k == 10:
        return ['range', draw(st.sampled_from([1, 1, 2, 10, 50]))]
    if k == 0:
        return ['action', draw(WORDS), draw(st.integers(0, 2))]
    if k == 1:
        return ['language', draw(LANGS), draw(st.integers(0, 2))]
    if k == 2:
        return ['scope', draw(SCOPES)]
    if k == 3:
        return ['missing flag', draw(st.sampled_from(REQUIRED))]
    if k == 4:
        return ['missing file', draw(st.sampled_from(M.FILES)),
                draw(st.sampled_from(['gone', 'dir', 'dangling', 'bytes']))]
    if k == 5:
        return ['no directory', draw(st.sampled_from(
            ['nowhere', 'input/africa', '']))]
    if k == 6:
        return ['flag', draw(st.sampled_from(
            ['--unknown', '--no_such=1', 'stray', '--languagesx', '-q',
             '--nocompres_s']))]
    if k == 7:
        return ['number', draw(st.sampled_from(
            ['start_year', 'until_year', 'tiny_base_year', 'granularity',
             'until_at_granularity', 'offset_granularity',
             'delta_granularity'])), draw(NUMBERS)]
    if k == 8 or scope == 'complete':
        return ['include', draw(st.sampled_from(['gone', 'dir']))]
    return ['year', draw(st.integers(-5, LIMIT[scope] - 1)) if draw(
        st.booleans()) else LIMIT[scope] - draw(st.integers(1, 3))]


@st.composite
def cases(draw):
    scope = draw(st.sampled_from(['basic', 'extended', 'complete', 'basic',
                                  'extended']))
    model = draw(M.databases(
        grain=M.LOW, simple=True, max_zones=2, max_policies=2, max_links=2,
        hi_save=7200, era_hi_save=7200))
    lo = LIMIT.get(scope, 1850)
    return {
        'scope': scope, 'model': model,
        'start': draw(st.sampled_from([lo, lo, lo + 1, 2000])),
        'actions': draw(st.lists(st.sampled_from(
            ['zonedb', 'json', 'zonelist']), min_size=1, max_size=3)),
        'languages': draw(st.lists(st.sampled_from(
            ['python', 'arduino', 'c', 'go']), min_size=1, max_size=3)),
        'damage': draw(st.lists(damages(scope), min_size=1, max_size=1)
                       if draw(st.integers(0, 3)) else
                       st.lists(damages(scope), min_size=2, max_size=3))}


def run(case, damage, top, runner):
    cwd = os.path.join(top, 'cwd')
    d = os.path.join(top, 'input')
    if not os.path.isdir(cwd):
        os.makedirs(cwd)
        with open(os.path.join(cwd, 'zone_infos.cpp'), 'w') as h:
            h.write('// of an earlier run\n')
    d = P.write_input(M.to_files(case['model'], 0),
                      os.path.join(os.path.relpath(top, harness.scratch()),
                                   'input'))
    flags = {'actions': list(case['actions']),
             'languages': list(case['languages']),
             'scope': case['scope'], 'input_dir': d, 'tz_version': '2024a',
             'db_namespace': 'zonedb', 'start_year': str(case['start']),
             'until_year': '2090', 'ignore_buf_size_too_large': True,
             'nostrict': True}
    extra = []
    for what, *a in damage:
        if what in ('action', 'language'):
            at = a[1] % (len(flags[what + 's']) + 1) \
                if isinstance(flags.get(what + 's'), list) else 0
            if a[1] == 2 or not isinstance(flags.get(what + 's'), list):
                flags[what + 's'] = [a[0]]
            else:
                flags[what + 's'].insert(at, a[0])
        elif what == 'scope':
            flags['scope'] = a[0]
        elif what == 'missing flag':
            flags[a[0]] = None
        elif what == 'missing file':
            path = os.path.join(d, a[0])
            if os.path.isdir(path) or os.path.islink(path):
                continue
            if os.path.exists(path):
                os.unlink(path)
            if a[1] == 'dir':
                os.mkdir(path)
            elif a[1] == 'dangling':
                os.symlink(os.path.join(top, 'nothing'), path)
            elif a[1] == 'bytes':
                with open(path, 'wb') as h:
                    h.write(b'# caf\xe9\nLink\tA\tB\n')
        elif what == 'no directory':
            flags['input_dir'] = os.path.join(top, a[0]) if a[0] else ''
        elif what == 'flag':
            extra.append(a[0])
        elif what == 'number':
            flags[a[0]] = a[1]
        elif what == 'include':
            flags['include_list'] = os.path.join(top, 'no-list') \
                if a[0] == 'gone' else d
        elif what == 'year':
            flags['start_year'] = str(a[0])
        elif what == 'range':
            flags['until_year'] = str(case['start'] - a[0])
    argv = []
    for f, v in flags.items():
        if v is None:
            continue
        if v is True:
            argv.append('--' + f)
        else:
            argv.append(f'--{f}=' + (','.join(v) if isinstance(v, list)
                                     else v))
    argv += extra
    before = cli.snapshot(top)
    status, log = runner(argv, cwd)
    after = cli.snapshot(top)
    changed = sorted(k for k in set(before) | set(after)
                     if before.get(k) != after.get(k))
    return argv, status, log, changed


EXPECT = {
    'python': ['zone_infos.py', 'zone_policies.py', 'zone_registry.py'],
    'go': ['zone_infos.go', 'zone_policies.go', 'zone_registry.go']}


def check(case, rec, runner=cli.run_forked):
    top = harness.fresh_dir('c02')
    argv, status, log, changed = run(case, case['damage'], top, runner)
    same(changed, [], f'files touched by {argv} ({case["damage"]})')
    require(status != 0, f'status 0 of {argv} ({case["damage"]})')
    rec.nontrivial()
    rec.label(*(x[0] for x in case['damage']))
    # positive control: the request without the damage
    top = harness.fresh_dir('c02')
    argv, status, log, changed = run(case, [], top, runner)
    if 'empty' in log or 'does not fit' in log or 'not a multiple' in log \
            or 'not tiny' in log:
        require(status != 0, f'error, but status 0 of {argv}:\n{log[-800:]}')
        rec.label('control: nothing left to compile')
        return
    require(status == 0, f'the valid request {argv} ends with status '
            f'{status}:\n{log[-1200:]}')
    if 'zonedb' in case['actions']:
        for lang in case['languages']:
            ok = [c for c in changed if c.startswith('cwd/zone_') and
                  c.endswith({'python': '.py', 'go': '.go', 'c': '.c',
                              'arduino': '.cpp'}[lang])]
            require(ok, f'{argv}: no {lang} file among {changed}')
    if 'json' in case['actions']:
        require('cwd/zonedb.json' in changed, f'{argv}: no JSON file')
    if 'zonelist' in case['actions']:
        require('cwd/zones.txt' in changed, f'{argv}: no zones.txt')
    rec.label('control: succeeds')


def process(case, rec):
    check(case, rec, cli.run_process)


SIMPLE = {'policies': [['X', [
    {'frm': 1970, 'to': 'max', 'month': 4, 'on': [7, 8], 'at': 7200,
     'sfx': '', 'save': 3600, 'letter': 'D'},
    {'frm': 1970, 'to': 'max', 'month': 10, 'on': [7, 8], 'at': 7200,
     'sfx': '', 'save': 0, 'letter': 'S'}]]],
    'zones': [['A/B', [{'off': 3600, 'rules': {'policy': 'X'}, 'fmt': 'C%sT',
                        'until': None}]]], 'links': [['C/D', 'A/B']]}


def limits(tier):
    """The first years that a scope does not support."""
    for scope, lo in LIMIT.items():
        for y in (lo - 1, lo - 2, lo - 7, 0, -1):
            for langs in (['python'], ['arduino'], ['c'], ['go'],
                          ['python', 'go']):
                for actions in (['zonedb'], ['json'], ['zonelist', 'json']):
                    yield {'scope': scope, 'model': SIMPLE, 'start': lo,
                           'actions': actions, 'languages': langs,
                           'damage': [['year', y]]}


PARTS = [
    Part('limits', None, check, 0, 0, cases=limits),
    Part('requests', cases, check, 700, 20000),
    Part('process', cases, process, 24, 800),
]
