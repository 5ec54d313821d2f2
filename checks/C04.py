"""C04: what a run reports in its log is true of the run."""
import ast
import os
import re

from hypothesis import strategies as st

from checks import T04
from vlib import cli, gen, harness, model as M, pipeline as P
from vlib.harness import Part, require, same

RULE = (
    'Random sources with removable and notable records (as in T04, with more '
    'records) are compiled through the command line, and the log is compared '
    'with the run: settings, years, line and entry counts, the summary of '
    'kept, removed and noted records, for each step that removes or notes '
    'something its number and the names and reasons it lists (in order, '
    'all of them or with a gap), each of them once, over all steps each removed record '
    'exactly once, buffer sizes, note counts, skipped stages, and the files '
    'reported as created are the files written. Lines that are absent or '
    'worded in another way are not judged, except that a written file must '
    'be reported as long as any is. Non-trivial: the run '
    'succeeds and a step that removes something was reported.')
ASSUMPTIONS = ['log lines carry the wording of the present version; unknown '
               'wording is accepted']

LANGS = ['python', 'arduino', 'c', 'go']


# Malformed lines: they are counted, and change nothing else.
JUNK = ['Rule', 'Zone', 'Link\tA/B', '\t\t1:00\t-\tX', 'Rule\tJunk\t19x0',
        'Rule\tJunk\t1990\t1980\t-\tJan\t1\t0\t0\t-',
        'Rule\tJunk\t1990\tonly\t-\tJxn\t1\t0\t0\t-',
        'Zone\tJunk/Zone\t1:00', 'Zone\tJunk/Zone\t1:00\t-\tX\t19x9',
        'Link\tA/B\tC/Junk\nLink\tA/C\tC/Junk']


@st.composite
def cases(draw):
    scope = draw(st.sampled_from(['basic', 'basic', 'basic', 'extended',
                                  'complete', 'complete']))
    cfg = draw(gen.configs([scope], grains=draw(st.booleans())))
    low = {'basic': 1980, 'extended': 1974, 'complete': -32767}[scope]
    if cfg['start'] < low:
        cfg['start'] = low
        cfg['until'] = max(cfg['until'], low + 1)
    if draw(st.booleans()):
        cfg['strict'] = False
    big = draw(st.integers(0, 1))
    basic = scope == 'basic'
    model = draw(M.databases(
        grain=draw(st.sampled_from([M.LOW, M.LOW, M.FULL, M.RAW])),
        simple=basic and draw(st.booleans()), fixed_save=True,
        max_zones=16 if big else 5, max_policies=9 if big else 4,
        max_links=12 if big else 4))
    if basic and draw(st.booleans()):
        model = draw(gen.rough_policies(model))
    if draw(st.integers(0, 2)) == 0:
        model = draw(T04.damage(model))
    if draw(st.integers(0, 2)) == 0:
        # days that leave the year
        m, on = draw(st.sampled_from([(12, [2, 29]), (12, [7, 31]),
                                      (1, [3, -3]), (1, [7, -1])]))
        late = [e['until'] for _, eras in model['zones'] for e in eras
                if e['until'] and e['until']['y'] >= cfg['start']]
        rules = [r for _, rs in model['policies'] for r in rs]
        if late and draw(st.booleans()):
            for u in late if draw(st.booleans()) else late[-1:]:
                u.update(m=m, on=on)
        elif rules:
            draw(st.sampled_from(rules)).update(month=m, on=on)
    if draw(st.integers(0, 2)) == 0:
        names = [n for n, _ in model['zones'] + model['links']]
        cfg['include'] = sorted(draw(st.sets(
            st.sampled_from(names), min_size=1)))
    cfg['estimate'] = draw(st.booleans())
    return {'model': model, 'cfg': cfg, 'junk': draw(st.lists(st.tuples(
                st.sampled_from(M.FILES), st.sampled_from(JUNK)),
                max_size=5)),
            'languages': draw(st.lists(st.sampled_from(LANGS), min_size=1,
                                       max_size=3, unique=True)),
            'actions': draw(st.lists(st.sampled_from(
                ['zonedb', 'json', 'zonelist']), min_size=1, max_size=3,
                unique=True))}


def messages(log):
    out = []
    for line in log.split('\n'):
        m = re.match(r'(?:INFO|WARNING|ERROR):[\w.]+:(.*)', line)
        if m:
            out.append(m.group(1))
    return out


class Log:
    def __init__(self, lines):
        self.lines = lines
        self.seen = 0

    def check(self, pattern, want, what):
        """Every line of this form must hold these values."""
        for line in self.lines:
            m = re.fullmatch(pattern, line)
            if m:
                self.seen += 1
                same(list(m.groups()), [str(x) for x in want],
                     f'{what}: {line!r}')


def steps(lines):
    """(verb, kind, count, listed lines) of each step."""
    out = []
    for i, line in enumerate(lines):
        m = re.match(r'(Removed|Noted) (\d+) (.*)', line)
        if not m:
            continue
        word = m.group(3).split()
        kind = 'links' if 'links' in word[:1] else \
            'policies' if 'policies' in word[:2] else \
            'zones' if word[:1] in (['zone'], ['zones']) else None
        listed = []
        for x in lines[i + 1:]:
            if not x.startswith('- '):
                break
            listed.append(x[2:])
        out.append((m.group(1), kind, int(m.group(2)), listed, line))
    return out


def judge_steps(lines, t, known, rec):
    total = {'zones': 0, 'policies': 0, 'links': 0}
    told = set()
    for verb, kind, n, listed, line in steps(lines):
        require(n > 0, f'a step that reports nothing: {line}')
        gap = [x for x in listed if x == '[...]']
        names = []
        for x in listed:
            m = re.fullmatch(r'(.+?) \((.*)\)', x)
            if not m:
                continue
            names.append(m.group(1))
            require(m.group(1) in known, f'{line}: lists {x!r}, which is not '
                    'in the source')
            if kind is None or t is None:
                continue
            pool = getattr(t, ('removed_' if verb == 'Removed'
                               else 'notable_') + kind)
            if verb == 'Removed':
                require(m.group(1) in pool, f'{line}: lists {x!r}, which is '
                        f'not among {sorted(pool)}')
            try:
                why = set(ast.literal_eval(m.group(2)))
            except (ValueError, SyntaxError, TypeError):
                continue
            for w in why:
                key = (kind, verb, m.group(1), w)
                require(key not in told, f'{line}: {x!r} was reported before')
                told.add(key)
            have = set(map(str, pool.get(m.group(1), ())))
            require(why <= have, f'{line}: reasons {why} of {m.group(1)} are '
                    f'not among {have}')
        same(names, sorted(set(names)), f'names listed after {line!r}')
        if gap:
            require(len(names) < n, f'{line}: lists {names} and a gap')
            rec.label('list with a gap')
        elif names:
            same(len(names), n, f'names listed after {line!r}')
        if t is None:
            continue
        if kind and verb == 'Removed':
            total[kind] += n
            rec.label(f'removed {kind}')
            rec.nontrivial()
        elif kind:
            pool = getattr(t, 'notable_' + kind)
            rec.label(f'noted {kind}')
            # A record that is noted may be removed later on.
            require(n <= len(pool), f'{line}: {len(pool)} are noted')
    return total


def check(case, rec):
    cfg = case['cfg']
    files = gen.files(case)
    for f, line in case['junk']:
        files[f] = 'Link\n' + files[f] + line + '\n'
    top = harness.fresh_dir('log')
    d, out = os.path.join(top, 'in'), os.path.join(top, 'out')
    os.makedirs(d)
    os.makedirs(out)
    for f, text in files.items():
        with open(os.path.join(d, f), 'w') as h:
            h.write(text)
    argv = ['--actions', ','.join(case['actions']), '--languages',
            ','.join(case['languages']), '--input_dir', d, '--output_dir',
            out, '--scope', cfg['scope'], '--start_year', str(cfg['start']),
            '--until_year', str(cfg['until']), '--tiny_base_year',
            str(cfg['base']), '--until_at_granularity', str(cfg['at']),
            '--offset_granularity', str(cfg['off']), '--delta_granularity',
            str(cfg['save']), '--tz_version', cfg['version'],
            '--db_namespace', cfg['ns'], '--ignore_buf_size_too_large',
            '--strict' if cfg['strict'] else '--nostrict']
    if not cfg['estimate']:
        argv.append('--skip_bufestimator')
    if cfg['include']:
        inc = os.path.join(top, 'list')
        with open(inc, 'w') as h:
            h.write('\n'.join(cfg['include']) + '\n')
        argv += ['--include_list', inc]
    status, text = cli.run_forked(argv, top)
    lines = messages(text)
    log = Log(lines)
    written = sorted(f for f in os.listdir(out))
    made = [m.group(1) for m in (re.fullmatch(r'Created (.*)', x)
                                 for x in lines) if m]
    if made:
        same(sorted({os.path.realpath(os.path.join(top, x)) for x in made}),
             [os.path.realpath(os.path.join(out, f)) for f in written],
             'files reported as created, and files written')

    log.check(r'Scope: (\S+)', [cfg['scope']], 'settings')
    log.check(r'Start year: (\S+); Until year: (\S+)',
              [cfg['start'], cfg['until']], 'settings')
    log.check(r'Strict: (\S+)', [cfg['strict']], 'settings')
    log.check(r'TZ Version: (.*)', [cfg['version']], 'settings')
    log.check(r'Ignore too large transition buf_size: (\S+)', [True],
              'settings')
    log.check(r'Granularity for UNTIL/AT: (\S+)', [cfg['at']], 'settings')
    log.check(r'Granularity for STDOFF.*: (\S+)', [cfg['off']], 'settings')
    log.check(r'Granularity for RULES.*: (\S+)', [cfg['save']], 'settings')
    log.check(r'Generate tiny years: (\S+)', [cfg['tiny']], 'settings')
    log.check(r'Tiny base year: (\S+)', [cfg['base']], 'settings')

    x = P.extract(files)
    p, z, li = x.get_data()
    known = {*p, *z, *li}
    model = case['model']
    if not case['junk']:
        log.check(r'Summary: Line count: (\d+) Rules, (\d+) Zones, '
                  r'(\d+) Links', [len(model['policies']),
                                   len(model['zones']),
                                   len(model['links'])],
                  'names in the source')
    log.check(r'Summary: Name count: (\d+) Rules, (\d+) Zones, (\d+) Links',
              [len(p), len(z), len(li)], 'names read')
    log.check(r'Summary: Rule entry count: (\d+)',
              [sum(len(q['rules']) for q in p.values())], 'rules read')
    log.check(r'Summary: Zone entry count: (\d+)',
              [sum(len(q['eras']) for q in z.values())], 'eras read')
    log.check(r'Summary: Ignored lines: (\d+) Rules, (\d+) Zones, '
              r'(\d+) Links', [x.ignored_rule_lines, x.ignored_zone_lines,
                               x.ignored_link_lines], 'ignored lines')
    log.check(r'Summary: Invalid lines: (\d+) Rules, (\d+) Zones, '
              r'(\d+) Links', [x.invalid_rule_lines, x.invalid_zone_lines,
                               x.invalid_link_lines], 'invalid lines')
    log.check(r'Processing years \[(\S+), (\S+)\)',
              [cfg['start'], cfg['until']], 'years')
    log.check(r'Found (\d+) zones, (\d+) policies, (\d+) links',
              [len(z), len(p), len(li)], 'records to transform')

    try:
        t = P.transform(files, cfg)
    except P.Refused as e:
        rec.label('refused')
        require(status != 0, f'refused by the transformer ({e}), but the '
                'command line ended with status 0')
        judge_steps(lines, None, known, rec)
        return
    total = judge_steps(lines, t, known, rec)
    for kind, n in total.items():
        pool = getattr(t, 'removed_' + kind)
        if n or any(x[1] == kind for x in steps(lines)):
            same(n, len(pool), f'{kind} counted as removed over all steps, '
                 f'and in the removed list {sorted(pool)}')
    for kind in ('Zones', 'Policies', 'Links'):
        k = kind.lower()
        log.check(rf'Summary: {kind}: generated=(\d+); removed=(\d+); '
                  r'noted=(\d+)', [len(getattr(t, f'{k}_map')),
                                   len(getattr(t, f'removed_{k}')),
                                   len(getattr(t, f'notable_{k}'))],
                  'summary of the transformer')
    try:
        P.finish(t, cfg, set(case['languages']))
    except P.Refused:
        rec.label('refused')
        require(status != 0, 'status 0 after a refusal')
        return
    if status:
        rec.label('refused by a generator')
        return
    same('Skipping buffer size estimation' in text, not cfg['estimate'],
         'log says that the estimate is skipped') \
        if 'buffer size' in text else None
    if cfg['estimate']:
        log.check(r'Requested years: \[(\S+), (\S+)\)',
                  [cfg['start'], cfg['until']], 'estimate')
        log.check(r'Generated years: \[(\S+), (\S+)\]',
                  [t.generated_min_year, t.generated_max_year], 'estimate')
        log.check(r'Checking years:  \[(\S+), (\S+)\)',
                  [min(t.generated_min_year, cfg['start']),
                   max(t.generated_max_year + 1, cfg['until'])], 'estimate')
        log.check(r'max_terminal_year: (\S+)', [t.estimator_max_year],
                  'estimate')
        log.check(r'Found max_buffer_size=(\d+)', [t.max_buf_size],
                  'estimate')
        peak = [m.groups() for m in (re.fullmatch(r'  (\S+) in (-?\d+)', x)
                                     for x in lines) if m]
        if peak:
            same(sorted(peak), sorted(
                (n, str(b.year)) for n, b in t.buf_sizes.items()
                if b.number == t.max_buf_size),
                'zones and years of the largest buffer')
    notes = 0
    for why in t.merged_notable_zones.values():
        for w in why:
            notes += 1 if isinstance(w, str) else sum(
                len(v) for v in w.values())
    log.check(r'Zones: (\d+); Comments: (\d+)',
              [len(t.merged_notable_zones), notes], 'notes')
    log.check(r'Summary: (\d+) Zones; (\d+) Policies; (\d+) Links',
              [len(t.zones_map), len(t.policies_map), len(t.links_map)],
              'summary of the Arduino transformer')
    for line in lines:
        m = re.fullmatch(r"Ignoring fragment '(.*)' with count (\d+), too "
                         'few', line)
        if m:
            names = list(t.zones_map) + list(t.links_map)
            n = sum([c + '/' for c in x.split('/')[:-1]].count(m.group(1))
                    for x in names)
            same(int(m.group(2)), n, f'names with the fragment: {line}')
            require(m.group(1) not in t.fragments_map, line + ' and yet used')
    require(status == 0, 'the run failed:\n' + text[-800:])
    rec.label(f'recognised lines: {min(log.seen // 5 * 5, 40)}+')


PARTS = [Part('logs', gen.anywhere(cases), check, 900, 20000)]
