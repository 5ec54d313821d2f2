"""C01: the command line produces what its flags say."""
import os

from hypothesis import strategies as st

from vlib import cli, corpus, gen, harness, model as M, pipeline as P
from vlib.harness import Part, require, same

RULE = (
    'Random sources compiled through the command line with random flags, in '
    'random order and spelling, each flag given or left to its documented '
    'default, into a directory that can hold older and longer files of the '
    'same names: the files in the output directory must be exactly those of the '
    'requested actions and languages, byte for byte what the compiler '
    'classes produce when they are given the documented settings, and '
    'nothing else may change in the input, output and working directories. '
    'Non-trivial: the run succeeds with at least three flags away from their '
    'default.')

LANGS = ['python', 'arduino', 'c', 'go']
STALE = {'zone_infos.cpp': 'stale\n', 'zonedb.json': '{"stale": 1}',
         'unrelated.txt': 'mine\n', 'zone_policies.py': '# stale\n'}


@st.composite
def cases(draw):
    scope = draw(st.sampled_from(gen.SCOPES))
    lo = {'basic': 1980, 'extended': 1974, 'complete': 1850}[scope]
    a = draw(st.integers(lo, 2060))
    if draw(st.integers(0, 3)) == 0:
        a = lo
    opts = {}       # flag -> value, or None where left to its default

    def maybe(flag, strategy):
        if draw(st.booleans()):
            opts[flag] = draw(strategy)

    maybe('start_year', st.just(a))
    a = opts.get('start_year', 2000)
    if a >= 2100 or draw(st.booleans()):
        opts['until_year'] = min(a + draw(st.integers(1, 120)), 2120)
    maybe('tiny_base_year', st.sampled_from([2000, 2100, 2050, 1990]))
    gr = st.sampled_from([1, 15, 60, 300, 900, 1800, 3600, 7, 5400, 7200,
                          86400])
    for f in ('until_at_granularity', 'offset_granularity',
              'delta_granularity', 'granularity'):
        if draw(st.integers(0, 3)) == 0:
            opts[f] = draw(gr)
    for f in ('strict', 'compress'):
        k = draw(st.integers(0, 2))
        if k:
            opts[f] = k == 1
    maybe('json_file', st.sampled_from(
        ['zonedb.json', 'zonedbx.json', 'a b.json', 'x', 'zones.json',
         'sub/zonedb.json', '../side.json']))
    if draw(st.integers(0, 2)) == 0:
        opts['skip_bufestimator'] = True
    if draw(st.integers(0, 2)) == 0:
        opts['ignore_buf_size_too_large'] = True
    out = draw(st.sampled_from(['', 'abs', 'rel', 'dot']))
    grain = M.LOW if scope != 'complete' and draw(st.booleans()) else M.FULL
    model = draw(M.databases(
        grain=grain, simple=scope == 'basic', max_zones=4, max_policies=3,
        max_links=3))
    names = [z[0] for z in model['zones']] + [x[0] for x in model['links']]
    include = None
    if draw(st.integers(0, 2)) == 0:
        include = draw(st.lists(st.one_of(
            st.sampled_from(names), st.sampled_from(
                ['', '# comment', '   ', '#' + names[0], 'No/Such', '\t',
                 '  # ' + names[0]])), max_size=8))
        if draw(st.booleans()):
            pad = draw(st.sampled_from(['  ', '\t']))
            include = [pad + x + pad for x in include]
    flags = sorted(opts)
    return {
        'scope': scope, 'opts': opts, 'include': include, 'out': out,
        'model': model,
        'actions': draw(st.lists(st.sampled_from(
            ['zonedb', 'json', 'zonelist']), min_size=1, max_size=4)),
        'languages': draw(st.lists(st.sampled_from(LANGS), min_size=1,
                                   max_size=4)),
        'ns': draw(st.sampled_from(['zonedb', 'zonedbx', 'tzdb2000'])),
        'version': draw(st.sampled_from(['2024a', '2024b', 'HEAD', '2023c '
                                         'patched', 'x-1.2', ''])),
        'order': draw(st.permutations(flags + [
            'actions', 'languages', 'input_dir', 'scope', 'tz_version',
            'db_namespace', 'output_dir', 'include_list'])),
        'equals': draw(st.integers(0, 2**18)),
        'stale': draw(st.sampled_from([False, True, 'long']))}


def settings(case):
    """The documented meaning of the flags."""
    o = case['opts']
    cfg = P.config(
        scope=case['scope'], start=o.get('start_year', 2000),
        until=o.get('until_year', 2100), base=o.get('tiny_base_year', 2100),
        strict=o.get('strict', True), compress=o.get('compress', True),
        version=case['version'], ns=case['ns'],
        ignore_buf=o.get('ignore_buf_size_too_large', False),
        estimate=not o.get('skip_bufestimator', False))
    for key, flag in (('at', 'until_at_granularity'),
                      ('off', 'offset_granularity'),
                      ('save', 'delta_granularity')):
        cfg[key] = o.get('granularity') or o.get(flag) or cfg[key]
    if case['include'] is not None:
        names = [x.strip() for x in case['include']]
        cfg['include'] = sorted(
            {n for n in names if n and not n.startswith('#')})
    return cfg


def arguments(case, d, out_arg, include_path):
    o = case['opts']
    values = dict(o, actions=','.join(case['actions']),
                  languages=','.join(case['languages']),
                  input_dir=d, scope=case['scope'],
                  tz_version=case['version'], db_namespace=case['ns'],
                  output_dir=out_arg, include_list=include_path)
    argv = []
    for i, f in enumerate(case['order']):
        v = values[f]
        if v is None:
            continue
        if isinstance(v, bool):
            if f in ('strict', 'compress'):
                argv.append(f'--{f}' if v else f'--no{f}')
            else:
                argv.append(f'--{f}')
        elif case['equals'] >> (i % 18) & 1:
            argv.append(f'--{f}={v}')
        else:
            argv += [f'--{f}', str(v)]
    return argv


def check(case, rec, run=cli.run_forked):
    top = harness.fresh_dir('cli')
    cwd = os.path.join(top, 'cwd')
    d = os.path.join(top, 'input')
    os.makedirs(cwd)
    os.makedirs(d)
    for f, text in (M.to_files(case['model'], 0) if 'model' in case
                    else corpus.to_files()).items():
        with open(os.path.join(d, f), 'w') as h:
            h.write(text)
    with open(os.path.join(d, 'README'), 'w') as h:
        h.write('not a zone file\n')
    out, arg = {'': (cwd, None), 'dot': (cwd, '.'),
                'abs': (os.path.join(top, 'out put'),) * 2,
                'rel': (os.path.join(cwd, 'o/x'), 'o/x')}[case['out']]
    os.makedirs(out, exist_ok=True)
    if case['opts'].get('json_file', '').startswith('sub/'):
        os.makedirs(os.path.join(out, 'sub'))
    inc = None
    if case['include'] is not None:
        inc = os.path.join(top, 'list.txt')
        with open(inc, 'w') as h:
            h.write('\n'.join(case['include']) + '\n')
    argv = arguments(case, d, arg, inc)
    cfg = settings(case)
    languages = set(case['languages'])
    invocation = ' '.join([cli.SCRIPT] + argv)
    want = {}
    refusal = None
    try:
        files = {f: open(os.path.join(d, f)).read() for f in M.FILES}
        t = P.transform(files, cfg)
        zidb = P.finish(t, cfg, languages)
        kinds = [x for x in LANGS if x in languages] \
            if 'zonedb' in case['actions'] else []
        kinds += [k for k in ('json', 'zonelist') if k in case['actions']]
        for k in kinds:
            gd = harness.fresh_dir('want')
            P.generate(zidb, cfg, k, gd, invocation)
            for f, text in P.read_dir(gd).items():
                if k == 'json':
                    f = case['opts'].get('json_file', f)
                want[f] = text
    except P.Refused as e:
        refusal = e
    kept = dict(STALE) if case['stale'] else {}
    if case['stale'] == 'long':
        kept.update((f, text + 'stale\n' * 50) for f, text in want.items())
    for f, text in kept.items():
        with open(os.path.join(out, f), 'w') as h:
            h.write(text)
    before = cli.snapshot(top)
    status, log = run(argv, cwd)
    after = cli.snapshot(top)
    if refusal:
        rec.label('refused: ' + str(refusal)[:60])
        require(status != 0, f'the settings are refused ({refusal}), but the '
                f'command line ended with status 0: {argv}')
        return
    require(status == 0, f'status {status} of {argv}:\n' + log[-1500:])
    got = {}
    for base, _, names in os.walk(out):
        for n in names:
            path = os.path.join(base, n)
            with open(path, encoding='utf-8') as h:
                got[os.path.relpath(path, out)] = h.read()
    side = os.path.join(out, '..', 'side.json')
    if os.path.exists(side):
        with open(side, encoding='utf-8') as h:
            got['../side.json'] = h.read()
    same(sorted(got), sorted(set(want) | set(kept)),
         f'files written by {argv}')
    for f in want:
        if got[f] != want[f]:
            a, b = got[f].splitlines(), want[f].splitlines()
            diff = [(x, y) for x, y in zip(a, b) if x != y][:3]
            require(False, f'{f} of {argv} differs from what the settings '
                    f'{cfg} give: {diff or (len(a), len(b))}')
    rel = os.path.relpath(out, top)
    written = [os.path.normpath(os.path.join(out, f)) for f in want]
    for k in set(before) | set(after):
        if k == rel or os.path.join(top, k) in written:
            continue
        same(after.get(k), before.get(k), f'{k} before and after the run')
    o = case['opts']
    rec.nontrivial(len(o) + (inc is not None) >= 3)
    rec.label(*(f'--{f}' for f in o))
    rec.label(*case['actions'])
    if inc:
        rec.label('--include_list')


def process(case, rec):
    check(case, rec, cli.run_process)


PARTS = [
    Part('flags', cases, check, 900, 20000),
    Part('process', cases, process, 24, 800),
    Part('tzdb', None, check, 0, 0, examples=[
        {'scope': s, 'opts': o, 'include': None, 'out': 'abs',
         'actions': ['zonedb', 'json', 'zonelist'], 'languages': langs,
         'ns': 'zonedb', 'version': '2024a', 'stale': False,
         'order': sorted(o) + [
             'actions', 'languages', 'input_dir', 'scope', 'tz_version',
             'db_namespace', 'output_dir', 'include_list'], 'equals': 0}
        for s, o, langs in (
            ('basic', {'skip_bufestimator': True}, ['arduino']),
            ('complete', {'start_year': 1800, 'until_year': 2090,
                          'ignore_buf_size_too_large': True},
             ['python', 'go']))]),
]
