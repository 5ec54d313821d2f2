"""A02: the generated C database decodes to the compiled zones."""
from vlib import decode, gen, native, outs
from vlib.harness import Part

RULE = (
    'Random sources and the real TZDB, compiled for all three scopes, with '
    'and without name compression; the C text is read by an independent '
    'parser and every record decoded through the documented layouts (part '
    '"text"), and some are compiled by gcc (overflow and pointer mismatches '
    'are errors) against a stub header with the documented types, and every '
    'field printed by a program (part "compiled"); both are compared with '
    'the compiled zones. Without --strict, values finer than the '
    'granularity occur. Non-trivial: two or more zones, a policy, and a '
    'zone of several eras.')
ASSUMPTIONS = ['record layouts as documented for acetimec zone_info.h, which '
               'is not installed here (types in vlib/native.py)']


def case():
    return gen.compiled(min_zones=2, max_zones=6, fine=True)


def text_fn(case, rec):
    c = outs.compile_case(case, ['c'], rec)
    if c is None or c.refused:
        return
    got = outs.decode_lang(c, 'c')
    decode.compare(got, outs.want_for(c, 'c'), 'C')
    rec.nontrivial(outs.interesting(c))


def compiled_fn(case, rec):
    c = outs.compile_case(case, ['c'], rec)
    if c is None or c.refused:
        return
    native.check(c, 'c', outs.want_for(c, 'c'))
    rec.nontrivial(outs.interesting(c))


PARTS = [Part('text', gen.anywhere(case), text_fn, 2400, 60000),
         Part('compiled', gen.anywhere(case), compiled_fn, 96, 2000),
         Part('tzdb', outs.tzdb_cases, text_fn, 48, 960),
         gen.big_part(text_fn)]
