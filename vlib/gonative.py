"""Compiling a generated Go package against a stand-in for the acetimego
library, and running its own tests."""
import os
import shutil
import subprocess

from . import harness
from .harness import HarnessError, Violation

ZONEINFO = '''package zoneinfo

type ZoneRuleRecord struct {
	FromYear int16
	ToYear int16
	InMonth uint8
	OnDayOfWeek uint8
	OnDayOfMonth int8
	AtSecondsModifier uint8
	AtSecondsCode uint16
	DeltaMinutes int8
	LetterIndex uint8
}

type ZonePolicyRecord struct {
	RuleIndex uint16
	RuleCount uint16
}

type ZoneEraRecord struct {
	FormatIndex uint16
	PolicyIndex uint8
	OffsetSecondsRemainder uint8
	OffsetSecondsCode int16
	UntilYear int16
	DeltaMinutes int8
	UntilMonth uint8
	UntilDay uint8
	UntilSecondsModifier uint8
	UntilSecondsCode uint16
}

type ZoneInfoRecord struct {
	ZoneID uint32
	NameIndex uint16
	EraIndex uint16
	EraCount uint16
	TargetIndex uint16
}


type ZoneRecordContext struct {
	TzDatabaseVersion string
	StartYear int16
	UntilYear int16
	StartYearAccurate int16
	UntilYearAccurate int16
	MaxTransitions int16
	LetterData string
	LetterOffsets []uint8
	FormatData string
	FormatOffsets []uint16
	NameData string
	NameOffsets []uint16
	ZoneRuleRecords []ZoneRuleRecord
	ZonePolicyRecords []ZonePolicyRecord
	ZoneEraRecords []ZoneEraRecord
	ZoneInfoRecords []ZoneInfoRecord
}

type ZoneDataContext struct {
	TzDatabaseVersion string
	StartYear int16
	UntilYear int16
	StartYearAccurate int16
	UntilYearAccurate int16
	MaxTransitions int16
	LetterData string
	LetterOffsets []uint8
	FormatData string
	FormatOffsets []uint16
	NameData string
	NameOffsets []uint16
	ZoneRuleChunkSize uint16
	ZonePolicyChunkSize uint16
	ZoneEraChunkSize uint16
	ZoneInfoChunkSize uint16
	ZoneRuleCount uint16
	ZonePolicyCount uint16
	ZoneEraCount uint16
	ZoneInfoCount uint16
	ZoneRulesData string
	ZonePoliciesData string
	ZoneErasData string
	ZoneInfosData string
}
'''

INTERNAL = '''package internal

import (
	"github.com/bxparks/acetimego/zoneinfo"
	"testing"
)

type reader struct {
	s string
	i int
}

func (r *reader) u8() uint8 { r.i++; return r.s[r.i-1] }
func (r *reader) u16() uint16 { a := uint16(r.u8()); return a | uint16(r.u8())<<8 }
func (r *reader) u32() uint32 { a := uint32(r.u16()); return a | uint32(r.u16())<<16 }

func chunk(t *testing.T, s string, size uint16, count uint16, records int) {
	if int(count) != records {
		t.Fatalf("count %d, records %d", count, records)
	}
	if len(s) != int(size)*int(count) {
		t.Fatalf("%d bytes, not %d * %d", len(s), size, count)
	}
}

func VerifyZoneInfoReader(t *testing.T, d *zoneinfo.ZoneDataContext,
	x *zoneinfo.ZoneRecordContext) {
	chunk(t, d.ZoneInfosData, d.ZoneInfoChunkSize, d.ZoneInfoCount,
		len(x.ZoneInfoRecords))
	for i, w := range x.ZoneInfoRecords {
		r := reader{d.ZoneInfosData, i * int(d.ZoneInfoChunkSize)}
		g := zoneinfo.ZoneInfoRecord{}
		g.ZoneID = r.u32()
		g.NameIndex = r.u16()
		g.EraIndex = r.u16()
		g.EraCount = r.u16()
		g.TargetIndex = r.u16()
		if g != w {
			t.Fatalf("info %d: data %v record %v", i, g, w)
		}
	}
	if d.TzDatabaseVersion != x.TzDatabaseVersion ||
		d.StartYear != x.StartYear || d.UntilYear != x.UntilYear ||
		d.StartYearAccurate != x.StartYearAccurate ||
		d.UntilYearAccurate != x.UntilYearAccurate ||
		d.MaxTransitions != x.MaxTransitions {
		t.Fatalf("contexts differ")
	}
	if d.LetterData != x.LetterData || d.FormatData != x.FormatData ||
		d.NameData != x.NameData {
		t.Fatalf("context strings differ")
	}
}

func VerifyZoneEraReader(t *testing.T, d *zoneinfo.ZoneDataContext,
	x *zoneinfo.ZoneRecordContext) {
	chunk(t, d.ZoneErasData, d.ZoneEraChunkSize, d.ZoneEraCount,
		len(x.ZoneEraRecords))
	for i, w := range x.ZoneEraRecords {
		r := reader{d.ZoneErasData, i * int(d.ZoneEraChunkSize)}
		g := zoneinfo.ZoneEraRecord{}
		g.FormatIndex = r.u16()
		g.PolicyIndex = r.u8()
		g.OffsetSecondsRemainder = r.u8()
		g.OffsetSecondsCode = int16(r.u16())
		g.UntilYear = int16(r.u16())
		g.DeltaMinutes = int8(r.u8())
		g.UntilMonth = r.u8()
		g.UntilDay = r.u8()
		g.UntilSecondsModifier = r.u8()
		g.UntilSecondsCode = r.u16()
		if g != w {
			t.Fatalf("era %d: data %v record %v", i, g, w)
		}
	}
}

func VerifyZonePolicyReader(t *testing.T, d *zoneinfo.ZoneDataContext,
	x *zoneinfo.ZoneRecordContext) {
	chunk(t, d.ZonePoliciesData, d.ZonePolicyChunkSize, d.ZonePolicyCount,
		len(x.ZonePolicyRecords))
	for i, w := range x.ZonePolicyRecords {
		r := reader{d.ZonePoliciesData, i * int(d.ZonePolicyChunkSize)}
		g := zoneinfo.ZonePolicyRecord{}
		g.RuleIndex = r.u16()
		g.RuleCount = r.u16()
		if g != w {
			t.Fatalf("policy %d: data %v record %v", i, g, w)
		}
	}
}

func VerifyZoneRuleReader(t *testing.T, d *zoneinfo.ZoneDataContext,
	x *zoneinfo.ZoneRecordContext) {
	chunk(t, d.ZoneRulesData, d.ZoneRuleChunkSize, d.ZoneRuleCount,
		len(x.ZoneRuleRecords))
	for i, w := range x.ZoneRuleRecords {
		r := reader{d.ZoneRulesData, i * int(d.ZoneRuleChunkSize)}
		g := zoneinfo.ZoneRuleRecord{}
		g.FromYear = int16(r.u16())
		g.ToYear = int16(r.u16())
		g.InMonth = r.u8()
		g.OnDayOfWeek = r.u8()
		g.OnDayOfMonth = int8(r.u8())
		g.AtSecondsModifier = r.u8()
		g.AtSecondsCode = r.u16()
		g.DeltaMinutes = int8(r.u8())
		g.LetterIndex = r.u8()
		if g != w {
			t.Fatalf("rule %d: data %v record %v", i, g, w)
		}
	}
}
'''


def env():
    base = os.environ.get('VERIF_SCRATCH') or harness.scratch()
    e = {k: v for k, v in os.environ.items() if not k.startswith('GO')}
    e.update(GOCACHE=os.path.join(base, 'gocache'),
             GOPATH=os.path.join(base, 'gopath'), GOFLAGS='-mod=mod',
             GOPROXY='off', GOTOOLCHAIN='local', GO111MODULE='on',
             GOTELEMETRY='off', CGO_ENABLED='0', GOENV='off',
             GOMAXPROCS='2')
    return e


def run_tests(files, extra=''):
    """Run the package's own tests (and those of `extra`)."""
    root = harness.fresh_dir('gomod')
    for d in ('zoneinfo', 'internal', 'zonedb'):
        os.makedirs(os.path.join(root, d))

    def put(path, text):
        with open(os.path.join(root, path), 'w') as f:
            f.write(text)
    put('go.mod', 'module github.com/bxparks/acetimego\n\ngo 1.22\n')
    put('zoneinfo/zoneinfo.go', ZONEINFO)
    put('internal/verify.go', INTERNAL)
    for f, text in files.items():
        if f.endswith('.go'):
            put('zonedb/' + f, text)
    if extra:
        put('zonedb/verif_extra_test.go', extra)
    try:
        p = subprocess.run(
            ['go', 'test', '-vet=off', '-count=1', '-p', '2', '-v',
             './zonedb'], cwd=root, env=env(),
            capture_output=True, text=True, timeout=300)
    except FileNotFoundError as e:
        raise HarnessError(str(e))
    shutil.rmtree(root, ignore_errors=True)
    if p.returncode:
        text = p.stdout + p.stderr
        raise Violation('the generated Go package does not compile, or its '
                        'tests fail:\n' + text[-3000:])
    return p.stdout
