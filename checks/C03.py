"""C03: the wrapper scripts pass data and flags through untouched.

The scripts delete files.  They are run as the user nobody, who owns nothing
but the scratch directory of the case, and with an `rm` that refuses targets
outside that directory."""
import json
import os
import shutil
import subprocess
import sys

from hypothesis import strategies as st

from vlib import cli, harness, model as M, pipeline as P
from vlib.harness import HarnessError, Part, require, same

RULE = (
    'Random git repositories with tags, branches, uncommitted changes and '
    'clutter, in directories with ordinary and unusual names, are given to '
    'copytz.sh and tzcompiler.sh with random tags and flags. A recorder '
    'stands in for tzcompiler.py (and the real one is run on some cases): '
    'the files it is shown, its arguments and its status must be those asked '
    'for, and afterwards nothing but the documented target may have changed. '
    'Non-trivial: the request is valid and the tag differs from the working '
    'tree, or an existing target must be kept.')
ASSUMPTIONS = [
    'files whose names begin with a dot are left in the copy of the tree',
    'a directory name does not begin with a dash']

FILES = M.FILES
CLUTTER = ['Makefile', 'zic.c', 'private.h', 'NEWS', 'leapseconds', 'version',
           'africa.bak', 'Africa', 'northamerica2', 'factory', 'backzone',
           'systemv', 'etc', 'sub/africa', 'sub/x.c', 'zone.tab',
           'calendars', 'version.txt', 'a file', 'asia ', '*', 'pacificnew']
NAMES = ['tz', 'tz', 'src.tz', 'my tz', 'a  b', "it's", 'tz(1)', 'x;y', '$HOME',
         'w*', 'ünï', 'a\tb', '[ab]', 'tz&']
TAGS = ['2024a', '2022b', 'v1.0', 'rel/1', 'HEAD2', 'main2', '1.0-rc_1']
FLAGS = st.sampled_from(
    ['--scope', 'complete', '--languages', 'arduino,c', '--nostrict',
     '--start_year=1900', 'a b', '*', '$HOME', '', '--tag', '--tzrepo',
     '--nocleanup', '-h', '--help', '"', "'", '--json_file', 'x  y', '\\',
     '--tz_version', '?', '--actions=zonedb,json', '`x`', '-x', 'ünï'])


@st.composite
def cases(draw, compile_only=False):
    script = 'tzcompiler.sh' if compile_only else draw(
        st.sampled_from(['copytz.sh', 'tzcompiler.sh']))
    tags = draw(st.lists(st.sampled_from(TAGS), max_size=3, unique=True))
    which = draw(st.sampled_from(['', 'no-such-tag'] + tags * 3 + ['']))
    flags = draw(st.lists(FLAGS, max_size=7))
    if flags and flags[0] in ('--tag', '--tzrepo', '--nocleanup', '-h',
                              '--help'):
        flags.insert(0, '--strict')
    return {
        'script': script, 'tags': tags, 'tag': which,
        'branch': draw(st.booleans()),      # the last tag is a branch
        'annotated': draw(st.booleans()),
        'absent': draw(st.lists(st.sampled_from(FILES), max_size=2)
                       if draw(st.integers(0, 4)) == 0 else st.just([])),
        'clutter': draw(st.lists(st.sampled_from(CLUTTER), max_size=6,
                                 unique=True)),
        'dirty': draw(st.booleans()),
        'names': [draw(st.sampled_from(NAMES)) for _ in range(3)],
        'relative': draw(st.booleans()),
        'slash': draw(st.booleans()),
        'exists': draw(st.sampled_from(['', '', '', '', 'dir', 'file',
                                        'empty'])),
        'flags': flags, 'nocleanup': draw(st.booleans()),
        'order': draw(st.integers(0, 5)),
        'status': draw(st.sampled_from([0, 0, 0, 1, 2, 3]))}


RECORDER = '''#!/usr/bin/env python3
import json, os, sys
a = sys.argv[1:]
d = a[a.index('--input_dir') + 1] if '--input_dir' in a else None
shown = {}
if d and os.path.isdir(d):
    for n in os.listdir(d):
        if not n.startswith('.'):
            p = os.path.join(d, n)
            shown[n] = open(p).read() if os.path.isfile(p) else None
box = os.environ['VERIF_BOX']
with open(os.path.join(box, 'rec', 'calls'), 'a') as f:
    f.write(json.dumps({'argv': a, 'cwd': os.getcwd(), 'shown': shown}) + '\\n')
sys.exit(int(os.environ['VERIF_STATUS']))
'''

RM = '''#!/usr/bin/env bash
# rm that refuses targets outside of the scratch directory
for a in "$@"; do
    case "$a" in
        -*) ;;
        *) p=$(realpath -m -- "$a")
           case "$p" in
               "$VERIF_BOX"/?*) ;;
               *) echo "$p" >> "$VERIF_BOX/rec/escapes"; exit 1 ;;
           esac ;;
    esac
done
exec /bin/rm "$@"
'''


def write(path, text, mode=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)
    if mode:
        os.chmod(path, mode)


def content(label, f):
    return f'# {f} of {label}\nLink\tA/{label}\tB/{f}\n'


class Box:
    def __init__(self, real=False):
        self.top = os.path.realpath(harness.fresh_dir('box'))
        for d in (os.environ.get('VERIF_SCRATCH'), harness.scratch(),
                  self.top):
            if d:
                os.chmod(d, 0o755)
        for s in ('tzcompiler.sh', 'copytz.sh'):
            os.makedirs(f'{self.top}/app', exist_ok=True)
            shutil.copy2(os.path.join(harness.REPO, s), f'{self.top}/app/{s}')
        if real:
            shutil.copytree(os.path.join(harness.REPO, 'src'),
                            f'{self.top}/app/src',
                            ignore=shutil.ignore_patterns('__pycache__'))
            shutil.copytree(os.path.join(harness.ROOT, 'vlib', 'stub'),
                            f'{self.top}/stub',
                            ignore=shutil.ignore_patterns('__pycache__'))
        else:
            write(f'{self.top}/app/src/acetimetools/tzcompiler.py', RECORDER,
                  0o755)
        write(f'{self.top}/bin/rm', RM, 0o755)
        write(f'{self.top}/bin/python3', '#!/bin/sh\nexec "%s" %s"$@"\n' % (
            sys.executable, '' if real else '-S -E '), 0o755)
        shutil.copy(f'{self.top}/bin/python3', f'{self.top}/bin/python')
        os.makedirs(f'{self.top}/rec')
        os.makedirs(f'{self.top}/home')
        self.env = {
            'PATH': f'{self.top}/bin:/usr/bin:/bin', 'HOME':
            f'{self.top}/home', 'LANG': 'C.UTF-8', 'VERIF_BOX': self.top,
            'VERIF_STATUS': '0', 'GIT_CONFIG_NOSYSTEM': '1',
            'GIT_AUTHOR_NAME': 'a', 'GIT_AUTHOR_EMAIL': 'a@x',
            'GIT_COMMITTER_NAME': 'a', 'GIT_COMMITTER_EMAIL': 'a@x',
            'PYTHONDONTWRITEBYTECODE': '1', 'TMPDIR': f'{self.top}/home',
            'PYTHONPATH': f'{self.top}/app/src:{self.top}/stub'}

    def give(self):
        if os.geteuid() == 0:
            for base, dirs, files in os.walk(self.top):
                for n in [base] + [os.path.join(base, f) for f in files]:
                    os.chown(n, 65534, 65534, follow_symlinks=False)

    def run(self, args, cwd, **env):
        kw = dict(user=65534, group=65534, extra_groups=[]) \
            if os.geteuid() == 0 else {}
        p = subprocess.run(args, cwd=cwd, env=dict(self.env, PWD=cwd, **env),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=120, **kw)
        return p.returncode, p.stdout.decode(errors='replace')

    def git(self, cwd, *args):
        rc, out = self.run(['git', '-c', 'init.defaultBranch=main', *args],
                           cwd)
        if rc:
            raise HarnessError(f'git {args}: {out}')


def make_source(box, case, src, text=content):
    """The repository; returns {tag or '': {file: content}} as visible."""
    states = {}
    os.makedirs(src)
    box.give()
    box.git(src, 'init', '--quiet')
    labels = case['tags'] + ['tip']
    for i, label in enumerate(labels):
        for f in FILES:
            if f not in case['absent']:
                write(f'{src}/{f}', text(label, f))
        for c in case['clutter']:
            if not os.path.isdir(f'{src}/{c}'):
                write(f'{src}/{c}', f'clutter {label}\n')
        write(f'{src}/.gitignore', f'*.o {label}\n')
        box.give()
        box.git(src, 'add', '-A')
        box.git(src, 'commit', '--quiet', '-m', label)
        states[label] = label
        if label in case['tags']:
            if case['branch'] and i == len(case['tags']) - 1:
                box.git(src, 'branch', label)
            elif case['annotated']:
                box.git(src, 'tag', '-a', '-m', 'x', label)
            else:
                box.git(src, 'tag', label)
    states[''] = 'tip'
    if case['dirty']:
        for f in FILES[:3] + ['northamerica']:
            if f not in case['absent']:
                write(f'{src}/{f}', text('dirty', f))
        write(f'{src}/untracked.c', 'int x;\n')
    box.give()
    return {t: {f: text('dirty' if t == '' and case['dirty'] and f in
                        FILES[:3] + ['northamerica'] else s, f)
                for f in FILES if f not in case['absent']}
            for t, s in states.items()}


def visible(d):
    out = {}
    for n in os.listdir(d):
        if not n.startswith('.'):
            p = os.path.join(d, n)
            if os.path.isfile(p):
                with open(p) as f:
                    out[n] = f.read()
            else:
                out[n] = None
    return out


def unchanged(before, after, except_under, what):
    for k in sorted(set(before) | set(after)):
        if k in except_under or any(
                k.startswith(e + '/') for e in except_under):
            continue
        same(after.get(k), before.get(k), f'{what}: {k!r}')


def put_existing(kind, path):
    if kind == 'dir':
        write(f'{path}/africa', 'precious\n')
        write(f'{path}/notes', 'precious\n')
    elif kind == 'empty':
        os.makedirs(path)
    elif kind == 'file':
        write(path, 'precious\n')


def setup(case, real=False, text=content):
    box = Box(real)
    src = os.path.join(box.top, 'work', case['names'][0], 'repo')
    cwd = os.path.join(box.top, 'work', case['names'][1], 'cwd')
    states = make_source(box, case, src, text)
    os.makedirs(cwd)
    write(f'{cwd}/mine.txt', 'mine\n')
    write(f'{box.top}/work/wo/mine.txt', 'mine\n')
    arg = os.path.relpath(src, cwd) if case['relative'] else src
    if case['slash']:
        arg += '/'
    return box, src, cwd, states, arg


def check(case, rec):
    if case['script'] == 'copytz.sh':
        return check_copy(case, rec)
    box, src, cwd, states, arg = setup(case)
    put_existing(case['exists'], f'{cwd}/tzfiles')
    box.give()
    groups = [['--tzrepo', arg]]
    if case['tag'] or case['order'] & 1:
        groups.append(['--tag', case['tag']])
    if case['nocleanup']:
        groups.append(['--nocleanup'])
    groups = groups[case['order'] % len(groups):] + \
        groups[:case['order'] % len(groups)]
    args = sum(groups, []) + case['flags']
    before = cli.snapshot(box.top)
    rc, log = box.run(['bash', f'{box.top}/app/tzcompiler.sh'] + args, cwd,
                      VERIF_STATUS=str(case['status']))
    after = cli.snapshot(box.top)
    escaped(box, args)
    calls = []
    if os.path.exists(f'{box.top}/rec/calls'):
        with open(f'{box.top}/rec/calls') as f:
            calls = [json.loads(x) for x in f]
    tz = os.path.relpath(f'{cwd}/tzfiles', box.top)
    what = f'tzcompiler.sh {args}'
    if case['exists'] or case['tag'] == 'no-such-tag':
        rec.label('refused')
        rec.nontrivial(case['exists'] == 'dir')
        require(rc != 0, f'{what}: status 0\n{log}')
        require(not calls, f'{what}: compiled all the same')
        unchanged(before, after, ['rec'] + ([] if case['exists'] or
                                            not case['nocleanup'] else [tz]),
                  what)
        return
    require(rc == case['status'], f'{what}: status {rc}, the compiler ended '
            f'with {case["status"]}\n{log}')
    require(len(calls) == 1, f'{what}: {len(calls)} calls of the compiler')
    c = calls[0]
    argv = list(c['argv'])
    given = {}
    for flag in ('--input_dir', '--output_dir', '--tz_version'):
        i = argv.index(flag)
        given[flag] = argv[i + 1]
        del argv[i:i + 2]
    same(argv, case['flags'], f'{what}: flags of the compiler')
    same(given['--tz_version'], case['tag'] or 'HEAD', f'{what}: version')
    same(os.path.realpath(os.path.join(cwd, given['--output_dir'])), cwd,
         f'{what}: output directory')
    same(c['shown'], states[case['tag']], f'{what}: zone files compiled')
    same(os.path.lexists(f'{cwd}/tzfiles'), case['nocleanup'],
         f'{what}: tzfiles left behind')
    if case['nocleanup']:
        same(visible(f'{cwd}/tzfiles'), states[case['tag']],
             f'{what}: files in tzfiles')
    unchanged(before, after, ['rec', tz], what)
    rec.nontrivial(case['tag'] or case['dirty'])
    rec.label('tzcompiler.sh ' + ('with' if case['tag'] else 'without')
              + ' tag')


def escaped(box, args):
    path = f'{box.top}/rec/escapes'
    if os.path.exists(path):
        with open(path) as f:
            require(False, f'{args}: rm outside of the working '
                    f'directories: {f.read()}')


def check_copy(case, rec):
    box, src, cwd, states, arg = setup(case)
    dst = os.path.join(cwd, case['names'][2])
    put_existing(case['exists'], dst)
    box.give()
    args = (['--tag', case['tag']] if case['tag'] or case['order'] & 1
            else []) + [arg, os.path.basename(dst) if case['relative']
                        else dst]
    before = cli.snapshot(box.top)
    rc, log = box.run(['bash', f'{box.top}/app/copytz.sh'] + args, cwd)
    after = cli.snapshot(box.top)
    escaped(box, args)
    rel = os.path.relpath(dst, box.top)
    what = f'copytz.sh {args}'
    if case['exists'] or case['tag'] == 'no-such-tag':
        rec.label('refused')
        rec.nontrivial(case['exists'] == 'dir')
        require(rc != 0, f'{what}: status 0\n{log}')
        unchanged(before, after, [] if case['exists'] else [rel], what)
        return
    require(rc == 0, f'{what}: status {rc}\n{log}')
    got = visible(dst)
    version = got.pop('version.txt', None)
    same(got, states[case['tag']], f'{what}: files of the copy')
    require(version is not None and version.strip() == case['tag'],
            f'{what}: version.txt is {version!r}')
    unchanged(before, after, [rel], what)
    rec.nontrivial(case['tag'] or case['dirty'])
    rec.label('copytz.sh ' + ('with' if case['tag'] else 'without') + ' tag')


ZONES = {'africa': 'Zone\tA/%s\t1:00\t-\tX\n',
         'europe': 'Zone\tE/%s\t2:00\t-\tY\n'}


def real_text(label, f):
    return ZONES.get(f, '# %s\n') % label.replace('/', '_').replace('.', '_')


@st.composite
def real_cases(draw):
    case = draw(cases(compile_only=True))
    case.update(exists='', absent=[], flags=[], nocleanup=False)
    if case['tag'] == 'no-such-tag':
        case['tag'] = ''
    return case


def real(case, rec):
    """The real compiler behind the script."""
    box, src, cwd, states, arg = setup(case, True, real_text)
    box.give()
    args = ['--tzrepo', arg] + (
        ['--tag', case['tag']] if case['tag'] else []) + [
        '--actions', 'json,zonedb', '--languages', 'python', '--scope',
        'complete', '--start_year', '1990', '--until_year', '2050',
        '--skip_bufestimator']
    before = cli.snapshot(box.top)
    rc, log = box.run(['bash', f'{box.top}/app/tzcompiler.sh'] + args, cwd)
    escaped(box, args)
    require(rc == 0, f'tzcompiler.sh {args}: status {rc}\n{log[-1500:]}')
    after = cli.snapshot(box.top)
    rel = os.path.relpath(cwd, box.top)
    outs = ['zonedb.json', 'zone_infos.py', 'zone_policies.py',
            'zone_registry.py']
    unchanged(before, after, [f'{rel}/{f}' for f in outs],
              f'tzcompiler.sh {args}')
    with open(f'{cwd}/zonedb.json') as f:
        db = json.load(f)
    want = [line.split()[1] for t in states[case['tag']].values()
            for line in t.splitlines() if line.startswith('Zone')]
    same(sorted(db['zones_map']), sorted(want), 'zones in the JSON file')
    same(db['tz_version'], case['tag'] or 'HEAD', 'version in the JSON file')
    with open(f'{cwd}/zone_infos.py') as f:
        require(all(w in f.read() for w in want[:1]), 'zone_infos.py')
    rec.nontrivial()
    rec.label('real compiler')




PARTS = [
    Part('scripts', cases, check, 360, 6000),
    Part('real', real_cases, real, 16, 400),
]
