"""T14: every unusual field of a kept zone is noted where it is used."""
import re

from hypothesis import strategies as st

from vlib import canon, cal, corpus, expect, gen, model as M, pipeline as P
from vlib.harness import Part, require, same

RULE = (
    'Random sources with fields of every granularity, odd shifts, long '
    'letters, conditional UNTIL days and future eras, compiled with random '
    'granularities, and the real TZDB; the notes of each kept zone and policy '
    'are read as (field, value, kind) and compared with those its kept '
    'records call for, and the notes merged into zones with the zones that '
    'use each policy. Non-trivial: the result has a note on a zone or '
    'policy, and a zone or policy without notes.')


def text(secs, sfx=''):
    return M.fmt_time(secs)


def time_notes(field, secs, txt, grain, boundary=True):
    out = set()
    if boundary and secs % 900:
        out.add((field, txt, 'multiple'))
    t = canon.trunc(secs, grain)
    if t != secs:
        out.add((field, txt, 'truncated'))
    elif secs % 60:
        out.add((field, txt, 'multiple'))
    return out


def zone_notes(eras, dropped, cfg, cell):
    out = set()
    for e in eras:
        u = e['until']
        if u:
            on = u.get('on', [0, 1])
            if on[0]:
                m = cal.civil(cal.on_day(u['y'], u['m'], *on))[1]
                if m != u['m']:
                    out.add(('until_month', str(u['m']), 'shifted'))
            if 'at' in u:
                out |= time_notes('UNTIL', u['at'], cell(u, 'at'), cfg['at'])
        o = cell(e, 'off')
        if e['off'] % 900:
            out.add(('STDOFF', o, 'multiple'))
        elif e['off'] % 1800:
            out.add(('STDOFF', o, 'multiple'))
        if canon.trunc(e['off'], cfg['off']) != e['off']:
            out.add(('STDOFF', o, 'truncated'))
        r = e['rules']
        if r and 'save' in r:
            s = cell(r, 'save')
            if r['save'] < 0:
                out.add(('RULES', s, 'negative'))
            elif r['save'] != 3600:
                out.add(('RULES', s, 'different'))
            out |= time_notes('RULES', r['save'], s, cfg['save'], False)
        if r and 'policy' in r and '%s' not in e['fmt'] \
                and '/' not in e['fmt']:
            out.add(('RULES', '%s', 'missing'))
    if dropped:
        out.add(('removed', str(dropped), 'eras'))
    return out


def policy_notes(rules, cfg, cell):
    out = set()
    for r in rules:
        out |= time_notes('AT', r['at'], cell(r, 'at'), cfg['at'])
        s = cell(r, 'save')
        if r['save'] < 0:
            out.add(('SAVE', s, 'negative'))
        elif r['save'] not in (0, 3600):
            out.add(('SAVE', s, 'different'))
        out |= time_notes('SAVE', r['save'], s, cfg['save'], False)
        letter = '' if r['letter'] == '-' else r['letter']
        if len(letter) > 1:
            out.add(('LETTER', letter, 'single'))
    return out


KINDS = ['truncated', 'multiple', 'negative', 'different', 'single',
         'missing', 'shifted']


def read(note):
    """(field, value, kind) of a note."""
    low = note.lower()
    field = next((f for f in ('until_month', 'UNTIL', 'STDOFF', 'RULES',
                              'SAVE', 'LETTER', 'AT')
                  if f in note), None)
    if field is None and 'removed' in low:
        return ('removed', re.search(r'\d+', note).group(), 'eras')
    kind = next((k for k in KINDS if k in low), None)
    v = re.search(r"'([^']*)'", note)
    return (field, v.group(1) if v else None, kind)


def check(model, cfg, t, cell, rec):
    """cell(record, key) -> the text of a time field in the source."""
    from acetimetools.transformer.commenter import Commenter
    with P.subject('commenter'):
        Commenter().transform(t)
    pols = dict(model['policies'])
    pnotes = {}
    for p in t.policies_map:
        keep, _, _ = expect.retained_rules(
            pols[p], cfg['start'], cfg['until'])
        want = policy_notes([pols[p][i] for i in keep], cfg, cell)
        got = {read(n) for n in t.notable_policies.get(p, [])}
        same(got, want, f'notes of policy {p}')
        pnotes[p] = sorted(t.notable_policies.get(p, []))
    quiet = noted = 0
    for n, eras in model['zones']:
        if n not in t.zones_map:
            continue
        kept, _, new, _ = expect.retained_eras(
            eras, cfg['start'], cfg['until'])
        want = zone_notes(kept, new, cfg, cell)
        got = {read(x) for x in t.notable_zones.get(n, [])}
        same(got, want, f'notes of zone {n}')
        noted += bool(want)
        used = {e['rules']['policy'] for e in kept
                if e['rules'] and 'policy' in e['rules']}
        merged = list(t.merged_notable_zones.get(n, []))
        own = [x for x in merged if isinstance(x, str)]
        same(sorted(own), sorted(t.notable_zones.get(n, [])),
             f'own notes of {n} among the merged ones')
        sub = {}
        for x in merged:
            if not isinstance(x, str):
                for p, notes in x.items():
                    require(p not in sub, f'notes of {p} twice in {n}')
                    sub[p] = sorted(notes)
        same(sub, {p: pnotes[p] for p in used if pnotes[p]},
             f'policy notes merged into {n}')
        quiet += not merged
    for n, merged in t.merged_notable_zones.items():
        if n not in t.zones_map:
            require(all(isinstance(x, str) for x in merged),
                    f'policy notes in {n}, which is not in the database')
    rec.nontrivial(bool((noted or any(pnotes.values()))
                        and (quiet or not all(pnotes.values()))))


def plain_cell(r, k):
    if k == 'save' and 'frm' not in r:
        return M.fmt_time(r[k], None, True)
    return M.fmt_time(r[k])


def case():
    @st.composite
    def s(draw):
        cfg = draw(gen.configs(strict=draw(st.sampled_from(
            [False, False, True])), grains=True, lo=1900))
        basic = cfg['scope'] == 'basic'
        grain = M.RAW if not cfg['strict'] else draw(
            st.sampled_from([M.LOW, M.FULL]))
        if draw(st.booleans()):
            grain = M.LOW
        model = draw(M.databases(
            grain=grain, simple=basic, fixed_save=not basic, max_zones=4))
        for _, eras in model['zones']:
            for e in eras:
                u = e['until']
                if u and 'on' in u and draw(st.integers(0, 2)) == 0 \
                        and 1 < u['m'] < 12:
                    u['on'] = [draw(st.integers(1, 7)), draw(
                        st.sampled_from([-1, -3, -6, 25, 27, 28, -7]))]
        return {'model': model, 'cfg': cfg}
    return s()


def fn(case, rec):
    model, cfg = case['model'], case['cfg']
    try:
        t = P.transform(gen.files(case), cfg)
    except P.Refused:
        rec.label('refused')
        return
    check(model, cfg, t, plain_cell, rec)


_REAL = []


def prepare(tier):
    if not _REAL:
        files = corpus.to_files()
        _REAL.extend([files, expect.parse_model(files)])


def real_case():
    @st.composite
    def s(draw):
        cfg = draw(gen.configs(strict=False, grains=True, lo=1850))
        return {'cfg': cfg}
    return s()


def real_fn(case, rec):
    prepare(None)
    try:
        t = P.transform(_REAL[0], case['cfg'])
    except P.Refused as e:
        rec.label('refused')
        return
    # The text of the source is not kept by the model: compare values.
    check(_REAL[1], case['cfg'], _norm(t), plain_cell, rec)


def _norm(t):
    """Rewrite the times quoted in notes to one spelling."""
    def fix(note):
        field = read(note)[0]
        if field not in ('UNTIL', 'STDOFF', 'RULES', 'SAVE', 'AT'):
            return note

        def one(m):
            v = m.group(1)
            if re.fullmatch(r'-?\d+(:\d+){0,2}', v):
                return "'" + M.fmt_time(expect.parse_time(v)) + "'"
            return m.group(0)
        return re.sub(r"'([^']*)'", one, note, count=1)
    for m in (t.notable_zones, t.notable_policies):
        for k in m:
            m[k] = {fix(n) for n in m[k]}
    return t


PARTS = [Part('notes', gen.anywhere(case), fn, 3200, 60000),
         gen.big_part(fn),
         Part('tzdb', real_case, real_fn, 40, 1200)]
