"""Compiles generated C++ and C databases against stub headers holding the
documented record types, and prints every field with a program."""
import os
import subprocess

from . import decode, harness
from .harness import HarnessError, Violation, require, same

LOW = '''
struct ZoneContext { int16_t startYear; int16_t untilYear;
  int16_t startYearAccurate; int16_t untilYearAccurate; %(base)s
  int16_t maxTransitions; const char* tzVersion; uint8_t numFragments;
  uint8_t numLetters; const char* const* fragments;
  const char* const* letters; };
struct ZoneRule { int8_t fromYearTiny; int8_t toYearTiny; uint8_t inMonth;
  uint8_t onDayOfWeek; int8_t onDayOfMonth; uint8_t atTimeCode;
  uint8_t atTimeModifier; uint8_t deltaCode; uint8_t letterIndex; };
struct ZonePolicy { const ZoneRule* rules; uint8_t numRules; };
struct ZoneEra { const ZonePolicy* zonePolicy; const char* format;
  int8_t offsetCode; uint8_t deltaCode; int8_t untilYearTiny;
  uint8_t untilMonth; uint8_t untilDay; uint8_t untilTimeCode;
  uint8_t untilTimeModifier; };
struct ZoneInfo { const char* name; uint32_t zoneId;
  const ZoneContext* zoneContext; uint8_t numEras; const ZoneEra* eras;
  const ZoneInfo* targetInfo; };
'''
HIGH = '''
struct ZoneContext { int16_t startYear; int16_t untilYear;
  int16_t startYearAccurate; int16_t untilYearAccurate; %(base)s
  int16_t maxTransitions; const char* tzVersion; uint8_t numFragments;
  uint8_t numLetters; const char* const* fragments;
  const char* const* letters; };
struct ZoneRule { int16_t fromYear; int16_t toYear; uint8_t inMonth;
  uint8_t onDayOfWeek; int8_t onDayOfMonth; uint8_t atTimeModifier;
  uint16_t atTimeCode; int8_t deltaMinutes; uint8_t letterIndex; };
struct ZonePolicy { const ZoneRule* rules; uint8_t numRules; };
struct ZoneEra { const ZonePolicy* zonePolicy; const char* format;
  int16_t offsetCode; uint8_t offsetRemainder; int8_t deltaMinutes;
  int16_t untilYear; uint8_t untilMonth; uint8_t untilDay;
  uint16_t untilTimeCode; uint8_t untilTimeModifier; };
struct ZoneInfo { const char* name; uint32_t zoneId;
  const ZoneContext* zoneContext; uint8_t numEras; const ZoneEra* eras;
  const ZoneInfo* targetInfo; };
'''

LOW_PRINT = {
    'rule': ('fromYearTiny toYearTiny inMonth onDayOfWeek onDayOfMonth '
             'atTimeCode atTimeModifier deltaCode letterIndex'),
    'era': ('offsetCode deltaCode untilYearTiny untilMonth untilDay '
            'untilTimeCode untilTimeModifier')}
HIGH_PRINT = {
    'rule': ('fromYear toYear inMonth onDayOfWeek onDayOfMonth '
             'atTimeModifier atTimeCode deltaMinutes letterIndex'),
    'era': ('offsetCode offsetRemainder deltaMinutes untilYear untilMonth '
            'untilDay untilTimeCode untilTimeModifier')}

DUMP = '''
static void hex(const char* s) {
  if (!s) { printf(" -"); return; }
  printf(" x");
  for (; *s; s++) printf("%%02x", (unsigned char) *s);
}
int main(void) {
  const %(T)sZoneContext* c = &%(Z)sContext;
  printf("context %%d %%d %%d %%d %%d %%d %%d %%d", c->startYear,
    c->untilYear, c->startYearAccurate, c->untilYearAccurate, %(basev)s,
    c->maxTransitions, c->numFragments, c->numLetters);
  hex(c->tzVersion); printf("\\n");
  printf("fragments");
  for (int i = 0; i < c->numFragments; i++) hex(c->fragments[i]);
  printf("\\nletters");
  for (int i = 0; i < c->numLetters; i++) hex(c->letters[i]);
  printf("\\nzones");
  for (int i = 0; i < (int) %(Z)sRegistrySize; i++)
    hex(%(Z)sRegistry[i]->name);
  printf("\\n");
  for (int i = 0; i < (int) %(Z)sAndLinkRegistrySize; i++) {
    const %(T)sZoneInfo* z = %(Z)sAndLinkRegistry[i];
    printf("info"); hex(z->name);
    printf(" %%lu %%d %%d", (unsigned long) z->zoneId, z->zoneContext == c,
      z->numEras);
    hex(z->targetInfo ? z->targetInfo->name : 0);
    printf(" %%d\\n", z->targetInfo ? z->targetInfo->eras == z->eras : 1);
    for (int k = 0; k < z->numEras; k++) {
      const %(T)sZoneEra* e = &z->eras[k];
      printf("era"); hex(e->format);
      printf("%(erafmt)s %%d\\n"%(eraargs)s,
        e->zonePolicy ? e->zonePolicy->numRules : 0);
      if (e->zonePolicy) for (int r = 0; r < e->zonePolicy->numRules; r++) {
        const %(T)sZoneRule* u = &e->zonePolicy->rules[r];
        printf("rule%(rulefmt)s\\n"%(ruleargs)s);
      }
    }
  }
  return 0;
}
'''

ERRORS = ['-Werror=narrowing', '-Werror=overflow', '-Werror=return-type']
C_ERRORS = ['-Werror=overflow', '-Werror=int-conversion',
            '-Werror=incompatible-pointer-types',
            '-Werror=implicit-function-declaration',
            '-Werror=pointer-sign', '-Wall']


def run(cmd, cwd):
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True,
                           timeout=120)
    except FileNotFoundError as e:
        raise HarnessError(str(e))
    return p


def sources(cfg, language):
    low = cfg['scope'] != 'complete'
    ar = language == 'arduino'
    base = 'int16_t baseYear;' if ar else ''
    text = (LOW if low else HIGH) % {'base': base}
    fields = LOW_PRINT if low else HIGH_PRINT
    if ar:
        hdr = ('#pragma once\n#include <stdint.h>\nnamespace ace_time {\n'
               f'namespace {cfg["scope"]} {{\n{text}\n}}\n}}\n')
        typ = f'ace_time::{cfg["scope"]}::'
        Z = f'ace_time::{cfg["ns"]}::kZone'
    else:
        for n in ('Context', 'Rule', 'Policy', 'Era', 'Info'):
            text = text.replace(f'struct Zone{n} ', f'struct AtcZone{n} ')
            text = text.replace(f'const Zone{n}*', f'const AtcZone{n}*')
        tds = ''.join(f'typedef struct AtcZone{n} AtcZone{n};\n'
                      for n in ('Context', 'Rule', 'Policy', 'Era', 'Info'))
        hdr = ('#ifndef STUB_H\n#define STUB_H\n#include <stdint.h>\n'
               f'#include <stddef.h>\n{tds}{text}\n#endif\n')
        typ = 'Atc'
        Z = f'k{cfg["ns"]}Zone'
    ef, rf = fields['era'].split(), fields['rule'].split()
    dump = DUMP % {
        'T': typ, 'Z': Z, 'basev': 'c->baseYear' if ar else '0',
        'erafmt': ' %d' * len(ef),
        'eraargs': ''.join(f', e->{x}' for x in ef),
        'rulefmt': ' %d' * len(rf),
        'ruleargs': ''.join(f', u->{x}' for x in rf)}
    inc = '#include <stdio.h>\n#include "zone_registry.h"\n'
    return hdr, inc + '#include "zone_infos.h"\n#include ' \
        '"zone_policies.h"\n' + dump


def build_and_dump(files, cfg, language):
    """Compile the generated files, run the dump program; returns its
    output."""
    root = harness.fresh_dir('native')
    ar = language == 'arduino'
    db = os.path.join(root, 'zonedb')
    os.makedirs(db)
    os.makedirs(os.path.join(root, 'zoneinfo'))
    hdr, dump = sources(cfg, language)

    def put(path, text):
        with open(os.path.join(root, path), 'w') as f:
            f.write(text)
    srcs = []
    for f, text in files.items():
        put('zonedb/' + f, text)
        if f.endswith(('.cpp', '.c')):
            srcs.append(f)
    if ar:
        put('zoneinfo/infos.h', hdr)
        put('zoneinfo/compat.h', '#pragma once\n#define ACE_TIME_PROGMEM\n')
        put('zonedb/dump.cpp', dump)
        cmd = ['g++', '-std=c++11', '-O0', *ERRORS, '-I', root, '-o', 'dump',
               'dump.cpp', *srcs]
    else:
        put('zoneinfo/zone_info.h', hdr)
        put('zonedb/dump.c', dump)
        cmd = ['gcc', '-std=c11', '-O0', *C_ERRORS, '-o', 'dump', 'dump.c',
               *srcs]
    p = run(cmd, db)
    if p.returncode:
        raise Violation(f'the generated {language} files do not compile:\n'
                        + p.stderr[:3000])
    p = run(['./dump'], db)
    if p.returncode:
        raise Violation(f'the program reading the {language} database '
                        f'ended with {p.returncode}')
    return p.stdout


def unhex(x):
    return None if x == '-' else bytes.fromhex(x[1:]).decode('latin-1')


def decode_dump(text, cfg, language):
    """Canonical form with policies inlined as lists of rules."""
    low = cfg['scope'] != 'complete'
    base = cfg['base']
    lines = [ln.split(' ') for ln in text.split('\n') if ln]
    it = iter(lines)
    c = next(it)
    nums = [int(x) for x in c[1:9]]
    context = dict(zip(('start', 'until', 'start_acc', 'until_acc', 'base',
                        'max_transitions'), nums))
    context['version'] = unhex(c[9])
    if language == 'c':
        del context['base']
    frags = [unhex(x) for x in next(it)[1:]]
    letters = [unhex(x) for x in next(it)[1:]]
    reg = [decode.expand(unhex(x), frags) for x in next(it)[1:]]
    zones, links, order = {}, {}, []
    rows = list(it)
    i = 0
    while i < len(rows):
        r = rows[i]
        i += 1
        require(r[0] == 'info', 'bad dump')
        name = decode.expand(unhex(r[1]), frags)
        require(r[3] == '1', f'{name}: wrong context')
        require(r[6] == '1', f'{name}: eras of the target are not shared')
        eras = []
        for _ in range(int(r[4])):
            e = rows[i]
            i += 1
            vals = [int(x) for x in e[2:]]
            keys = [k for k, _ in (decode.LOW_ERA if low else
                                   decode.HIGH_ERA)[2:]]
            f = dict(zip(keys, vals))
            f['fmt'] = unhex(e[1])
            era = decode.era_from(f, low, base, name)
            n = vals[-1]
            rules = []
            for row in rows[i:i + n]:
                f = dict(zip([k for k, _ in (
                    decode.LOW_RULE if low else decode.HIGH_RULE)],
                    [int(x) for x in row[1:]]))
                rules.append(decode.rule_from(f, low, letters, base, name))
            i += n
            era['policy'] = rules or None
            eras.append(era)
        order.append(name)
        if r[5] == '-':
            zones[name] = {'id': int(r[2]), 'eras': eras}
        else:
            links[name] = {'id': int(r[2]),
                           'target': decode.expand(unhex(r[5]), frags)}
    return {'context': context, 'zones': zones, 'links': links,
            'policies': {}, 'zone_registry': reg, 'all_registry': order}


def inline(want):
    w = dict(want)
    w['zones'] = {n: {'id': z['id'], 'eras': [
        dict(e, policy=want['policies'][e['policy']] if e['policy'] else None)
        for e in z['eras']]} for n, z in want['zones'].items()}
    w['policies'] = {}
    return w


def check(c, language, want):
    out = build_and_dump(c.outs[language], c.cfg, language)
    with harness.decoding(f'{language} dump'):
        got = decode_dump(out, c.cfg, language)
    decode.compare(got, inline(want), f'compiled {language}')
    if language == 'arduino':
        same(got['context']['base'], c.cfg['base'], 'compiled baseYear')
