"""Development aid: compares vlib/tzeval.py with zic on the real TZDB and on
generated models.  Not a check; it tests the checks' own oracle."""
import os, struct, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import given, settings, HealthCheck, seed
from vlib import cal, canon, corpus, model, tzeval

ONE = {'at': 1, 'off': 1, 'save': 1}
INF32 = 1 << 62


def tzif(path):
    b = open(path, 'rb').read()
    def hdr(o):
        return struct.unpack('>6l', b[o + 20:o + 44])
    u, s, l, t, ty, c = hdr(0)
    o = 44 + t * 5 + ty * 6 + c + l * 8 + s + u
    u, s, l, t, ty, c = hdr(o)
    o += 44
    times = struct.unpack(f'>{t}q', b[o:o + 8 * t]); o += 8 * t
    idx = b[o:o + t]; o += t
    tys = [struct.unpack('>lBB', b[o + 6 * i:o + 6 * i + 6]) for i in range(ty)]
    o += 6 * ty
    ab = b[o:o + c]
    def info(i):
        off, dst, a = tys[i]
        return off, dst, ab[a:ab.index(b'\0', a)].decode()
    segs = [(-tzeval.INF,) + info(0)]
    for tm, i in zip(times, idx):
        segs.append((tm,) + info(i))
    return segs


def mine(eras, pols, lo, hi):
    return [(t, o, int(s != 0), a) for t, o, s, a in
            tzeval.in_years(eras, pols, lo, hi)]


def zic_optimize(segs):
    """zic merges a transition into the previous one when local time would
    otherwise not advance between them."""
    out = []
    for s in segs:
        if out and len(out) > 1:
            prev = out[-1]
            if s[0] + prev[1] <= prev[0] + out[-2][1]:
                out[-1] = (prev[0],) + s[1:]
                continue
        out.append(s)
    return out


def theirs(segs, lo, hi):
    c = tzeval.clip(segs, cal.days(lo, 1, 1) * 86400, cal.days(hi, 1, 1) * 86400)
    return c


def norm(segs):
    out = []
    for s in segs:
        if out and out[-1][1:] == s[1:]:
            continue
        out.append(s)
    return out


def zic(text, d):
    p = os.path.join(d, 'src'); open(p, 'w').write(text)
    r = subprocess.run(['/usr/sbin/zic', '-b', 'fat', '-d', os.path.join(d, 'zi'), p],
                       capture_output=True, text=True)
    return r


def compare(model_or_files, text, zones, pols, lo, hi, verbose=True):
    bad = 0
    with tempfile.TemporaryDirectory() as d:
        r = zic(text, d)
        if r.returncode:
            return None, r.stderr
        for n, eras in zones.items():
            a = norm(theirs(norm(zic_optimize([
                (t, o, int(s != 0), x) for t, o, s, x in
                tzeval.evaluate(eras, pols, lo, hi)])), lo, hi))
            try:
                b = norm(theirs(tzif(os.path.join(d, 'zi', n)), lo, hi))
            except IndexError:
                continue
            if os.environ.get("NOABBR"):
                a = norm([x[:3] for x in a]); b = norm([x[:3] for x in b])
            if a != b:
                bad += 1
                if verbose:
                    print('DIFF', n)
                    for x in [x for x in a if x not in b][:4]: print('  mine ', x, cal.civil(x[0]//86400))
                    for x in [x for x in b if x not in a][:4]: print('  zic  ', x, cal.civil(x[0]//86400))
    return bad, ''


def real():
    rules, zones, links = corpus.load_lines()
    from vlib import pipeline, harness, expect
    files = corpus.to_files()
    m = expect.parse_model(files)
    text = ''.join(files.values())
    print(compare(None, text, canon.zones(m, ONE), canon.policies(m, ONE), 1900, 2037))


def rand(n):
    stat = [0, 0, 0]
    @seed(int(os.environ.get('SEED', '1')))
    @settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck))
    @given(model.databases(grain=model.FULL))
    def t(m):
        for n, eras in m['zones']:
            eras.insert(0, {'off': 0, 'rules': None, 'fmt': 'LMT', 'until': {'y': 1850}})
        files = model.to_files(m, 0)
        text = '\n'.join(files.values())
        bad, err = compare(m, text, canon.zones(m, ONE), canon.policies(m, ONE), 1901, 2037, False)
        if bad is None:
            stat[2] += 1
            if stat[2] < 3: print(err)
            return
        stat[0] += 1
        if bad:
            stat[1] += 1
            if os.environ.get('RAISE'):
                compare(m, text, canon.zones(m, ONE), canon.policies(m, ONE), 1901, 2037, True)
                print(text)
                raise AssertionError()
    t()
    print(stat)

def calendar():
    import datetime
    epoch = datetime.date(1970, 1, 1).toordinal()
    d = datetime.date(1, 1, 1)
    while True:
        n = d.toordinal() - epoch
        assert cal.days(d.year, d.month, d.day) == n
        assert cal.civil(n) == (d.year, d.month, d.day)
        assert cal.isodow(n) == d.isoweekday()
        if d == datetime.date.max:
            break
        d += datetime.timedelta(1)
    print('calendar ok')


if __name__ == '__main__':
    {'real': real, 'calendar': calendar,
     'rand': lambda: rand(int(sys.argv[2]))}[sys.argv[1]]()
