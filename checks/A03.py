"""A03: the generated Go database decodes to the compiled zones."""
from vlib import decode, gen, outs
from vlib.harness import Part, same

RULE = (
    'Random sources and the real TZDB, compiled for all three scopes; the '
    'string constants of the Go files are read as bytes, sliced into '
    'records and unpacked little-endian through the documented layouts, '
    'every index and offset checked against its table, and compared with '
    'the compiled zones. Without --strict, values finer than the '
    'granularity occur. Non-trivial: two or more zones, a policy, and a '
    'zone of several eras.')
ASSUMPTIONS = ['record layouts as documented in acetimego zoneinfo, which is '
               'not installed here']


def case():
    return gen.compiled(min_zones=2, max_zones=6, fine=True)


def fn(case, rec):
    c = outs.compile_case(case, ['go'], rec)
    if c is None or c.refused:
        return
    got = outs.decode_lang(c, 'go')
    decode.compare(got, c.true, 'Go')
    same(got['id_constants'], {
        decode.normalize(n): z['id'] for part in ('zones', 'links')
        for n, z in c.true[part].items()}, 'Go: ZoneID constants')
    rec.nontrivial(outs.interesting(c))


PARTS = [Part('text', gen.anywhere(case), fn, 2400, 60000),
         Part('tzdb', outs.tzdb_cases, fn, 48, 960),
         gen.big_part(fn)]
