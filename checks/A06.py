"""A06: zones.txt lists exactly the compiled zones."""
import re

from hypothesis import strategies as st

from vlib import decode, gen, harness, outs, pipeline as P
from vlib.harness import Part, decoding, fresh_dir, require, same

RULE = (
    'Random sources and the real TZDB are compiled for a random scope and '
    'years; zones.txt is parsed, compared with the compiled zones, and then '
    'read back by the compiler\'s own include-list reader to compile the '
    'same source again, which must give the same zones, eras, rules and '
    'identifiers. Non-trivial: two or more zones, and a link or a removed '
    'zone that the list must leave out.')


def case():
    @st.composite
    def s(draw):
        c = draw(gen.compiled(min_zones=2, max_zones=8))
        if c['cfg']['scope'] == 'basic' and draw(st.booleans()):
            # leave some zones that basic cannot keep
            m = draw(gen.compiled(scopes=['extended'], min_zones=2,
                                  max_zones=8))
            c['model'] = m['model']
        if draw(st.integers(0, 3)) == 0:
            c['cfg']['include'] = sorted(draw(st.sets(st.sampled_from(
                [n for n, _ in c['model']['zones'] + c['model']['links']]))))
        return c
    return s()


def names_of(text):
    """Lines that are neither blank nor comments."""
    return [ln for ln in text.split('\n') if ln and not ln.startswith('#')]


def fn(case, rec):
    cfg = dict(case['cfg'], estimate=False)
    files = outs.source(case)
    try:
        t = P.transform(files, cfg)
    except P.Refused:
        rec.label('refused')
        return
    rec.label(cfg['scope'])
    want = decode.expected(t, cfg)
    zidb = P.finish(t, cfg, [])
    d = fresh_dir('zl')
    P.generate(zidb, cfg, 'zonelist', d)
    texts = P.read_dir(d)
    same(sorted(texts), ['zones.txt'], 'files')
    text = texts['zones.txt']
    names = names_of(text)
    same(names, sorted(want['zones']), 'zones in zones.txt')
    counts = re.findall(r'^#\s*numZones:\s*(\S+)', text, re.M)
    same(counts, [str(len(names))], 'count in zones.txt')
    require(text.endswith('\n'), 'the last line is not ended')
    rec.nontrivial(len(names) > 1 and bool(
        want['links'] or t.removed_zones or t.removed_links))
    if not names:
        return
    # as an include list
    read_include_list = harness.internal('tzcompiler', 'read_include_list', 1)
    if not read_include_list:
        return
    with P.subject('read_include_list'):
        include = read_include_list(d + '/zones.txt')
    same(sorted(include), names, 'include list')
    try:
        t2 = P.transform(files, dict(cfg, include=sorted(include)))
    except P.Refused as e:
        require(False, f'refused with zones.txt as include list: {e}')
    got = decode.expected(t2, cfg)
    same(got['zones'], want['zones'], 'zones with zones.txt as include list')
    same(got['policies'], want['policies'],
         'policies with zones.txt as include list')
    same(got['links'], {}, 'links with zones.txt as include list')


def list_case():
    names = st.sampled_from(['Etc/UTC', 'America/New_York', 'Asia/Aden',
                             'GMT', 'W-SU', 'Etc/GMT+1', 'A', 'zone'])
    line = st.one_of(
        st.builds(lambda a, n, b: a + n + b,
                  st.sampled_from(['', '', ' ', '\t', '  ']), names,
                  st.sampled_from(['', '', ' ', '\t '])),
        st.builds(lambda a, n: a + '#' + n,
                  st.sampled_from(['', ' ', '\t']), names),
        st.sampled_from(['', ' ', '#', '# x', '\t']))
    return st.builds(
        lambda ls, end: {'text': '\n'.join(ls) + ('\n' if end else '')},
        st.lists(line, max_size=10), st.booleans())


def list_fn(case, rec):
    """Blank and comment lines are skipped, surrounding space is not part of
    a name."""
    read_include_list = harness.internal('tzcompiler', 'read_include_list', 1)
    if not read_include_list:
        return
    d = fresh_dir('inc')
    with open(d + '/list', 'w') as f:
        f.write(case['text'])
    want = {x.strip() for x in case['text'].split('\n')}
    want = {x for x in want if x and not x.startswith('#')}
    with P.subject('read_include_list'), decoding('include list'):
        same(sorted(read_include_list(d + '/list')), sorted(want),
             'include list')
    rec.nontrivial(len(want) > 1)


PARTS = [Part('random', gen.anywhere(case), fn, 2000, 50000),
         Part('include list', list_case, list_fn, 400, 8000),
         Part('tzdb', outs.tzdb_cases, fn, 32, 640),
         gen.big_part(fn)]
