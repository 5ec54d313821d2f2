"""T04: no zone, link or policy disappears without an explanation."""
from hypothesis import strategies as st

from vlib import expect, gen, model as M, pipeline as P, reasons
from vlib.harness import Part, require, same

RULE = (
    'Random sources in which fields are damaged (invalid times, days, '
    'suffixes), policies and link targets are missing, UNTILs go backwards '
    'and rules break limits, in every scope, with and without include lists; '
    'every record of the source must be in the result or, with a reason, in '
    'the removed list, as a reference decision predicts; a reason that '
    'quotes a field, name, date or granularity must be true of the record; '
    'losing an included '
    'zone or link must stop scopes extended and complete. Non-trivial: the '
    'compilation removes or refuses something besides unused policies.')

BAD_TIME = ['26:00', '1:60', 'x:00', '2:00:61', '-2:00', '1:2:3:4', '99:00u',
            '2:00us', '2:00ww', '1:00:00zu']
BAD_SFX = ['2:00g', '2:00z']
BAD_SAVE = ['26:00', '0:60', '3:00', '-2:00', '1:00:77', 'one']
BAD_ON = ['Sun=>1', 'lastSunday', 'Sunday>=8', 'last', 'Foo<=3', '1st',
          'Sun', '0']
BAD_OFF = ['26:00', '1:60', 'abc', '1:2:3:4']
BAD_RULES = ['26:00', '0:00', '1:60', 'x:y', '-0:00']


@st.composite
def damage(draw, model):
    for n, rules in model['policies']:
        if draw(st.integers(0, 5)) == 0:
            r = draw(st.sampled_from(rules))
            k, pool = draw(st.sampled_from(
                [(7, BAD_TIME), (7, BAD_SFX), (8, BAD_SAVE), (6, BAD_ON)]))
            r['raw'] = {str(k): draw(st.sampled_from(pool))}
    for n, eras in model['zones']:
        k = draw(st.integers(0, 15))
        if k == 0:
            e = draw(st.sampled_from(eras))
            e['raw'] = {'0': draw(st.sampled_from(BAD_OFF))}
        elif k == 1 or k == 12:
            e = eras[-1] if k == 12 else draw(st.sampled_from(eras))
            e['raw'] = {'1': draw(st.sampled_from(BAD_RULES))}
        elif k == 13:
            # off every grid, in one place only
            e = eras[-1] if draw(st.booleans()) else draw(
                st.sampled_from(eras))
            e['rules'] = {'save': draw(st.sampled_from([61, 1234, -77]))}
            e['fmt'] = 'QQT'
        elif k == 14:
            c = [e for e in eras[-3:] if e['until'] and 'at' in e['until']]
            if c:
                c[-1]['until']['at'] += draw(st.sampled_from([1, 61]))
        elif k == 15:
            eras[-1]['off'] += draw(st.sampled_from([1, 61]))
        elif k == 2:
            c = [e for e in eras if e['until'] and 'on' in e['until']]
            if c:
                e = draw(st.sampled_from(c))
                e['raw'] = {'5': draw(st.sampled_from(BAD_ON))}
        elif k == 3:
            c = [e for e in eras if e['until'] and 'at' in e['until']]
            if c:
                e = draw(st.sampled_from(c))
                e['raw'] = {'6': draw(st.sampled_from(BAD_TIME + BAD_SFX))}
        elif k == 4 and len(eras) > 2:
            u = [e['until'] for e in eras[:-1]]
            i = draw(st.integers(0, len(u) - 2))
            eras[i]['until'], eras[i + 1]['until'] = u[i + 1], u[i]
        elif k == 5 and len(eras) > 1 and eras[0]['until']:
            e = eras[0] if draw(st.booleans()) else draw(
                st.sampled_from(eras[:-1]))
            e['until'] = dict(
                e['until'], m=draw(st.sampled_from([1, 12])),
                on=draw(st.sampled_from([[7, -1], [7, 31], [3, -3],
                                         [2, 27], [7, 25], [7, -7]])))
        elif k in (6, 7) and len(eras) > 2:
            # the same UNTIL twice, or different in the last place only
            i = draw(st.integers(0, len(eras) - 3))
            u = dict(eras[i]['until'])
            if 'at' in u and draw(st.booleans()):
                u['at'] = max(0, u['at'] + draw(
                    st.sampled_from([-900, -60, 60, 900])))
            elif 'on' in u and 'at' not in u and draw(st.booleans()):
                u['at'], u['sfx'] = 0, ''
            eras[i + 1]['until'] = u
        elif k == 8:
            # a zone that ends, maybe before the range
            y = max([e['until']['y'] for e in eras[:-1]] or [1940])
            eras[-1]['until'] = {'y': y + draw(
                st.sampled_from([1, 1, 10, 50, 200]))}
    if model['policies'] and draw(st.integers(0, 5)) == 0:
        model['policies'].pop()         # dangling references
    if model['links'] and draw(st.integers(0, 5)) == 0:
        model['links'][0][1] = 'Nowhere/Land'
    return model


def case():
    @st.composite
    def s(draw):
        cfg = draw(gen.configs(['basic', 'basic', 'extended', 'complete'],
                               grains=draw(st.booleans())))
        basic = cfg['scope'] == 'basic'
        model = draw(M.databases(
            grain=draw(st.sampled_from([M.LOW, M.LOW, M.FULL, M.RAW])),
            simple=basic and draw(st.integers(0, 2)) > 0,
            fixed_save=not basic or draw(st.booleans()), max_zones=5))
        if draw(st.booleans()):
            model = draw(gen.rough_policies(model))
        if draw(st.integers(0, 4)):
            model = draw(damage(model))
        if draw(st.integers(0, 3)) == 0:
            names = [n for n, _ in model['zones'] + model['links']]
            cfg['include'] = sorted(draw(st.sets(st.sampled_from(names))))
        return {'model': model, 'cfg': cfg}
    return s()


def strip_extended(model, cfg):
    """A damaged UNTIL of an era that is extended to infinity no longer
    matters, and neither does one in an era or rule that is dropped."""
    zones = []
    for n, eras in model['zones']:
        kept, _, _, extended = expect.retained_eras(
            eras, cfg['start'], cfg['until'])
        eras = [dict(e) for e in eras]
        if extended:
            last = [e for e in eras if e['until'] is not None
                    and {k: v for k, v in e.items() if k != 'until'}
                    == {k: v for k, v in kept[-1].items() if k != 'until'}]
            for e in last:
                if set(e.get('raw', {})) & {'5', '6'}:
                    e.pop('raw')
        zones.append([n, eras])
    return dict(model, zones=zones)


def fn(case, rec):
    model, cfg = case['model'], case['cfg']
    o = expect.outcome(strip_extended(model, cfg), cfg)
    files = gen.files(case)
    try:
        t = P.transform(files, cfg)
    except P.Refused as e:
        require(o.raises, f'refused: {e}')
        rec.nontrivial()
        rec.label('refused: ' + o.raises)
        return
    require(not o.raises, f'not refused: {o.raises}')
    for what, source, kept, removed, want, gone in (
            ('zone', model['zones'], t.zones_map, t.removed_zones, o.zones,
             o.removed_zones),
            ('policy', model['policies'], t.policies_map, t.removed_policies,
             o.policies, o.removed_policies),
            ('link', model['links'], t.links_map, t.removed_links, o.links,
             o.removed_links)):
        names = [n for n, _ in source]
        for n in names:
            a, b = n in kept, n in removed
            require(a != b, f'{what} {n}: kept={a} removed={b}')
            if b:
                require(any(str(x).strip() for x in removed[n]),
                        f'{what} {n} removed without a reason')
        same(set(kept), set(want), f'{what} names kept (removed: {gone})')
        same(set(removed), set(names) - set(want), f'{what} names removed')
        for why in gone.values():
            rec.label(f'{what}: {why}')
    same(dict(t.links_map), {n: tgt for n, tgt in model['links']
                             if n in o.links}, 'link targets')
    if reasons.check(files, model, cfg, t):
        rec.label('reasons that quote the record')
    rec.nontrivial(bool(
        o.removed_zones or o.removed_links
        or set(o.removed_policies.values()) - {'unused'}))


PARTS = [Part('accounts', gen.anywhere(case), fn, 2400, 60000)]
