"""Compiles cases in another process with its own hash seed: one JSON request
per line on stdin, one JSON answer per line on stdout."""
import hashlib
import json
import os
import sys

LANGS = ['arduino', 'c', 'go', 'python']


def outputs(files, cfg, again=False):
    """All output files of one source, or the refusal. With `again`, they
    are written a second time over longer ones of the same names."""
    import copy
    from vlib import decode, harness, outs, pipeline as P
    try:
        t0 = P.transform(files, cfg)
    except P.Refused as e:
        return {'refused': str(e)}
    if not t0.zones_map:
        return {'refused': 'no zone left'}
    want = decode.expected(t0, cfg)
    res = {}
    for lang in LANGS:
        if outs.misfit(want, cfg, lang):
            continue
        t = copy.deepcopy(t0)
        try:
            zidb = P.finish(t, cfg, [lang])
            d = harness.fresh_dir('srv')
            for k in (lang, 'json', 'zonelist'):
                P.generate(zidb, cfg, k, d)
            if again:
                for f in os.listdir(d):
                    with open(os.path.join(d, f), 'a') as h:
                        h.write('stale\n' * 99)
                for k in (lang, 'json', 'zonelist'):
                    P.generate(zidb, cfg, k, d)
        except P.Refused as e:
            # the order of a set may show in a message
            res[lang] = f'refused: {type(e).__name__}'
            continue
        for f, text in P.read_dir(d).items():
            res[f'{lang}/{f}'] = text
    return res


def digests(res, values):
    """With `values`, JSON files count by value: the order of the members
    of an object is that of the source files."""
    if values:
        res = {k: json.dumps(json.loads(v), sort_keys=True)
               if k.endswith('.json') else v for k, v in res.items()}
    return {k: hashlib.blake2b(v.encode(), digest_size=12).hexdigest()
            for k, v in res.items()}


class Server:
    """Client side."""
    def __init__(self, seed):
        import subprocess
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ, PYTHONHASHSEED=str(seed),
                   PYTHONDONTWRITEBYTECODE='1', TZ=ZONES[seed % 3],
                   LC_ALL='C' if seed % 2 else 'C.UTF-8')
        self.p = subprocess.Popen(
            [sys.executable, '-m', 'vlib.server'], cwd=root, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, files, cfg, full=False, values=False, again=False):
        from vlib.harness import HarnessError, Violation
        self.p.stdin.write(json.dumps(
            {'files': files, 'cfg': cfg, 'full': full, 'values': values,
             'again': again}) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError('the compiling process ended')
        a = json.loads(line)
        if 'violation' in a:
            raise Violation(a['violation'])
        return a['result']


_SERVERS = {}
ZONES = ['UTC0', 'AAA-14', 'BBB11BBC,M3.1.0,M10.1.0']


def server(seed):
    key = (os.getpid(), seed)
    if key not in _SERVERS:
        _SERVERS[key] = Server(seed)
    return _SERVERS[key]


def main():
    sys.path.insert(0, os.getcwd())
    from vlib import harness
    harness.setup_process()
    try:
        for line in sys.stdin:
            q = json.loads(line)
            try:
                r = outputs(q['files'], q['cfg'], q['again'])
                a = {'result': r if q['full'] else digests(r, q['values'])}
            except harness.Violation as v:
                a = {'violation': str(v)}
            try:
                sys.stdout.write(json.dumps(a) + '\n')
                sys.stdout.flush()
            except BrokenPipeError:
                break
    finally:
        harness._drop_scratch()
        os._exit(0)


if __name__ == '__main__':
    main()
