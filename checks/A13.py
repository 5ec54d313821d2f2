"""A13: Go binary data and Go test records are identical."""
import re
import struct

from hypothesis import strategies as st

from checks import A05
from vlib import decode, gen, gonative, outs
from vlib.gen import djb2
from vlib.harness import Part, decoding, require, same
from vlib.model import normalize

RULE = (
    'Random sources and the real TZDB compiled for Go. Every binary record '
    'is unpacked and compared field by field with the record of the same '
    'index in the _test.go files; both contexts must hold the same values; '
    'every index constant must select the record whose identifier and name '
    'are those of the constant. A sample is compiled with the Go compiler '
    'against a stand-in of the acetimego library, and the generated tests '
    'are run on it. Non-trivial: a policy, a link and two eras.')

LAYOUT = {
    'ZoneRule': ('ZoneRulesData', '<hhBBbBHbB', [
        'FromYear', 'ToYear', 'InMonth', 'OnDayOfWeek', 'OnDayOfMonth',
        'AtSecondsModifier', 'AtSecondsCode', 'DeltaMinutes',
        'LetterIndex']),
    'ZonePolicy': ('ZonePoliciesData', '<HH', ['RuleIndex', 'RuleCount']),
    'ZoneEra': ('ZoneErasData', '<HBBhhbBBBH', [
        'FormatIndex', 'PolicyIndex', 'OffsetSecondsRemainder',
        'OffsetSecondsCode', 'UntilYear', 'DeltaMinutes', 'UntilMonth',
        'UntilDay', 'UntilSecondsModifier', 'UntilSecondsCode']),
    'ZoneInfo': ('ZoneInfosData', '<IHHHH', [
        'ZoneID', 'NameIndex', 'EraIndex', 'EraCount', 'TargetIndex'])}


def records(files):
    """The record arrays of the test files, by record type."""
    out = {}
    for name, text in files.items():
        if not name.endswith('_test.go'):
            continue
        text = re.sub(r'//[^\n]*', '', text)
        for m in re.finditer(
                r'var Zone(\w+)Records = \[\]zoneinfo\.(\w+)Record\{(.*?)\n\}',
                text, re.S):
            kind = 'Zone' + m.group(1)
            same(m.group(2), kind, f'type of {kind}Records')
            require(kind not in out, f'{kind}Records twice')
            rows = []
            body = m.group(3)
            for b in re.findall(r'\{([^{}]*)\}', body):
                row = {}
                for k, v in re.findall(r'(\w+)\s*:\s*([^,\s]+)', b):
                    require(k not in row, f'{kind}: {k} twice in a record')
                    row[k] = int(v, 0)
                rows.append(row)
            left = re.sub(r'\{[^{}]*\}\s*,', '', body).strip()
            same(left, '', f'text outside the records of {kind}')
            out[kind] = rows
    return out


def check_contexts(files, db):
    text = re.sub(r'^\s*//[^\n]*$', '', files['zone_registry_test.go'],
                  flags=re.M)
    m = re.search(r'var RecordContext = zoneinfo\.ZoneRecordContext\{(.*?)\n\}',
                  text, re.S)
    require(m is not None, 'no RecordContext')
    got = dict(re.findall(r'(\w+)\s*:\s*([-\w]+),', m.group(1)))
    want = {k: v for k, v in db['ctx'].items()
            if not k.endswith(('Count', 'ChunkSize')) and
            not (k.startswith('Zone') and k.endswith('Data'))}
    for k in LAYOUT:
        want[k + 'Records'] = k + 'Records'
    same(got, want, 'RecordContext')


def fn(case, rec):
    c = outs.compile_case(case, ['go'], rec)
    if c is None or c.refused:
        return
    files = c.outs['go']
    db = decode.go(files, c.cfg)
    with decoding('Go test records'):
        recs = records(files)
        same(sorted(recs), sorted(LAYOUT), 'kinds of records')
        for kind, (data, fmt, fields) in LAYOUT.items():
            rows = [dict(zip(fields, v))
                    for v in struct.iter_unpack(fmt, db['strings'][data])]
            same(len(recs[kind]), len(rows), f'number of {kind} records')
            for i, (a, b) in enumerate(zip(recs[kind], rows)):
                # a field that is left out is zero in Go
                same({k: a.pop(k, 0) for k in fields}, b,
                     f'{kind} record {i} and its data')
                same(a, {}, f'unknown fields of {kind} record {i}')
        check_contexts(files, db)
    _, fmt, fields = LAYOUT['ZoneInfo']
    infos = [dict(zip(fields, v)) for v in
             struct.iter_unpack(fmt, db['strings']['ZoneInfosData'])]
    names = list(c.true['zones']) + list(c.true['links'])
    for what, consts in (('index', db['indexes']),
                         ('identifier', db['id_constants'])):
        same(sorted(consts), sorted(map(normalize, names)),
             f'names of the {what} constants')
    for n in names:
        i = db['indexes'][normalize(n)]
        require(i < len(infos), f'index of {n}: {i}')
        r = infos[i]
        same(db['names'][r['NameIndex']], n, f'name at the index of {n}')
        same(r['ZoneID'], djb2(n), f'identifier at the index of {n}')
        same(db['id_constants'][normalize(n)], r['ZoneID'],
             f'identifier constant of {n}')
    w = c.true
    rec.nontrivial(bool(w['policies']) and bool(w['links'])
                   and any(len(z['eras']) > 1 for z in w['zones'].values()))
    return c, db


EXTRA = '''package %s

import "testing"

func TestVerifConstants(t *testing.T) {
	for _, x := range []struct{ index uint16; id uint32; name string }{
%s
	} {
		info := RecordContext.ZoneInfoRecords[x.index]
		if info.ZoneID != x.id {
			t.Fatalf("%%s: id %%x", x.name, info.ZoneID)
		}
		a := DataContext.NameOffsets[info.NameIndex]
		b := DataContext.NameOffsets[info.NameIndex+1]
		if DataContext.NameData[a:b] != x.name {
			t.Fatalf("%%s: named %%s", x.name, DataContext.NameData[a:b])
		}
		if DataContext.ZoneInfosData[12*int(x.index)] != byte(x.id) {
			t.Fatalf("%%s: data", x.name)
		}
	}
}
'''


def compiled(case, rec):
    r = fn(case, rec)
    if r is None:
        return
    c, db = r
    rows = '\n'.join(
        f'\t\t{{ZoneInfoIndex{normalize(n)}, ZoneID{normalize(n)}, "{n}"}},'
        for n in list(c.true['zones']) + list(c.true['links']))
    out = gonative.run_tests(c.outs['go'], EXTRA % (c.cfg['ns'], rows))
    for t in ('TestZoneInfoReader', 'TestZoneEraReader',
              'TestZonePolicyReader', 'TestZoneRuleReader',
              'TestVerifConstants'):
        require(f'--- PASS: {t}' in out, f'{t} did not run:\n{out}')
    rec.label('compiled')


def case():
    return A05.case().map(lambda c: dict(c, lang='go'))


def tzdb_case():
    return A05.tzdb_case().map(lambda c: dict(c, lang='go'))


PARTS = [Part('random', gen.anywhere(case), fn, 2400, 60000),
         Part('compiled', gen.anywhere(case), compiled, 32, 2400),
         Part('tzdb', tzdb_case, fn, 24, 480),
         Part('tzdb_compiled', tzdb_case, compiled, 8, 96),
         gen.big_part(fn, 'lang', ['go'])]
assert st
