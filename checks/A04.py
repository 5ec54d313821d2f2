"""A04: the generated Python database evaluates to the compiled zones."""
from vlib import decode, gen, outs
from vlib.harness import Part, require, same

RULE = (
    'Random sources and the real TZDB, compiled for all three scopes; the '
    'three Python files are executed as modules and every object compared '
    'with the compiled zones: all fields, the sharing of policies, eras and '
    'link targets by reference, and both registries. Without --strict, '
    'values finer than the granularity occur. Non-trivial: two or more '
    'zones, a policy, and a zone of several eras.')


def case():
    return gen.compiled(min_zones=2, max_zones=6, fine=True)


def fn(case, rec):
    c = outs.compile_case(case, ['python'], rec)
    if c is None or c.refused:
        return
    got = outs.decode_lang(c, 'python')
    decode.compare(got, {**decode.without_ids(c.true),
                         'zone_registry': None, 'all_registry': None},
                   'Python')
    for reg, names in got['orders'].items():
        same(names, sorted(names), f'order of {reg}')
    require(got['context']['version'] == case['cfg']['version'],
            'TZDB_VERSION')
    rec.nontrivial(outs.interesting(c))


PARTS = [Part('modules', gen.anywhere(case), fn, 2400, 60000),
         Part('tzdb', outs.tzdb_cases, fn, 48, 960),
         gen.big_part(fn)]
