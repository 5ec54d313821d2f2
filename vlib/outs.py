"""Compiling a case up to the output files, with the expected content taken
before any output stage has run."""
import copy

from . import corpus, decode, gen, pipeline as P
from .harness import Violation, same

I8, U8, I16, U16 = decode.I8, decode.U8, decode.I16, decode.U16


def _in(v, rng):
    return rng[0] <= v <= rng[1]


def misfit(want, cfg, language):
    """Why the compiled database (canonical, true years) does not fit in the
    records of the language, or None.  `want` must hold true years."""
    if language != 'python':
        for y in (cfg['start'], cfg['until']):
            if not _in(y, I16):
                return f'requested year {y}'
    rules = [r for rs in want['policies'].values() for r in rs]
    eras = [e for z in want['zones'].values() for e in z['eras']]
    letters = {r['letter'] for r in rules} | {''}
    if language in ('arduino', 'c'):
        for p, rs in want['policies'].items():
            if len(rs) > 255:
                return f'{len(rs)} rules in {p}'
        for n, z in want['zones'].items():
            if len(z['eras']) > 255:
                return f'{len(z["eras"])} eras in {n}'
        if len(letters) > 255:
            return f'{len(letters)} letters'
        if cfg['compress'] and len(fragments(want)) > 31:
            return 'fragments'
        if cfg['scope'] == 'complete':
            return misfit_high(rules, eras)
        for x in rules + eras:
            if x['save'] % 900 or not 0 <= x['save'] // 900 + 4 <= 15:
                return f'shift {x["save"]}'
        for r in rules:
            if r['at'] % 60 or not _in(r['at'] // 900, U8):
                return f'AT {r["at"]}'
        for e in eras:
            if e['off'] % 60 or not _in(e['off'] // 900, I8):
                return f'STDOFF {e["off"]}'
            if e['until'] and (e['until'][3] % 60 or
                               not _in(e['until'][3] // 900, U8)):
                return f'UNTIL {e["until"]}'
        return None
    if language == 'go':
        if sum(map(len, letters)) > 255:
            return 'letters'
        fmts = {e['fmt'].replace('%s', '%') for e in eras}
        if sum(map(len, fmts)) > 65535:
            return 'formats'
        if len(want['policies']) > 254:
            return f'{len(want["policies"])} policies'
        names = list(want['zones']) + list(want['links'])
        if sum(map(len, names)) > 65535:
            return 'names'
        if len(rules) > 65535 or len(eras) > 65535:
            return 'records'
        return misfit_high(rules, eras)
    return None


def misfit_high(rules, eras):
    for x in rules + eras:
        if x['save'] % 60 or not _in(x['save'] // 60, I8):
            return f'shift {x["save"]}'
    for r in rules:
        if not _in(r['at'] // 15, U16):
            return f'AT {r["at"]}'
        if not (_in(r['frm'], I16) and _in(r['to'], I16)):
            return f'years {r["frm"]}..{r["to"]}'
    for e in eras:
        if not _in(e['off'] // 15, I16):
            return f'STDOFF {e["off"]}'
        if e['until'] and not (_in(e['until'][0], I16)
                               and _in(e['until'][3] // 15, U16)):
            return f'UNTIL {e["until"]}'
    return None


def fragments(want):
    """Leading components (with '/') that are longer than 3 characters and
    occur more than 3 times."""
    n = {}
    for name in list(want['zones']) + list(want['links']):
        for c in name.split('/')[:-1]:
            n[c + '/'] = n.get(c + '/', 0) + 1
    return sorted(f for f, k in n.items() if len(f) > 3 and k > 3)


def source(case):
    if case.get('tzdb'):
        return corpus.to_files()
    return case['files'] if 'files' in case else gen.files(case)


class Compiled:
    pass


def compile_case(case, languages, rec, refusable=()):
    """Compile a case in each language on its own.  Returns a Compiled, or
    None if the source was refused before any output stage (rec is labelled).
    A later refusal is a violation if every value fits."""
    cfg = case['cfg']
    files = source(case)
    rec.label(cfg['scope'])
    try:
        t0 = P.transform(files, cfg)
    except P.Refused:
        rec.label('refused')
        return None
    if not t0.zones_map:
        rec.label('no zone left')
        return None
    rec.label('zones %d' % min(len(t0.zones_map), 5))
    c = Compiled()
    c.cfg = cfg
    c.true = decode.expected(t0, cfg, False)
    c.tiny = decode.expected(t0, cfg, True)
    c.policy_names = sorted(t0.policies_map)
    c.outs, c.t, c.zidb, c.refused = {}, {}, {}, {}
    for lang in languages:
        t = copy.deepcopy(t0)
        why = misfit(c.true, cfg, lang)
        try:
            zidb = P.finish(t, cfg, [lang])
            d = P.harness.fresh_dir(f'out_{lang}')
            P.generate(zidb, cfg, lang, d)
            c.outs[lang] = P.read_dir(d)
        except P.Refused as e:
            if why is None and not (cfg['compress'] and
                                    len(fragments(c.true)) == 31):
                # 31 codes are all there are; keeping one spare is allowed
                raise Violation(f'{lang}: refused though every value fits: '
                                f'{e}')
            rec.label(f'{lang}: does not fit')
            c.refused[lang] = str(e)
            continue
        if why is not None:
            raise Violation(f'{lang}: generated though it cannot hold {why}')
        c.t[lang], c.zidb[lang] = t, zidb
        for w in (c.true, c.tiny):
            w['context']['max_transitions'] = t.max_buf_size
    return c


def want_for(c, lang):
    return c.tiny if lang in ('arduino', 'c') and c.cfg['tiny'] else c.true


def decode_lang(c, lang):
    """Decoded database of one output, policies by normalized name."""
    with P.harness.decoding(f'{lang} output'):
        if lang in ('arduino', 'c'):
            return decode.c_like(c.outs[lang], c.cfg, lang)
        if lang == 'go':
            return decode.go_named(decode.go(c.outs[lang], c.cfg),
                                   c.policy_names)
        if lang == 'python':
            return decode.python(c.outs[lang], c.cfg)
        raise ValueError(lang)


def interesting(c):
    """A database with a policy, two zones, and an era that uses a policy."""
    w = c.true
    return (len(w['zones']) >= 2 and bool(w['policies'])
            and any(len(z['eras']) > 1 for z in w['zones'].values()))


__all__ = ['compile_case', 'decode_lang', 'want_for', 'misfit', 'fragments',
           'interesting', 'same']


def tzdb_cases(scopes=gen.SCOPES):
    """The real TZDB compiled with random settings."""
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        cfg = draw(gen.configs(scopes, strict=False))
        if cfg['scope'] == 'complete' and draw(st.booleans()):
            cfg.update(start=1800)
        cfg['compress'] = draw(st.booleans())
        return {'cfg': cfg, 'tzdb': True}
    return s()
