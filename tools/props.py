"""The property list: writes /verif/properties.jsonl.  Run after editing."""
import json
import os

EX = 'acetimetools/src'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe,
         state=None):
    p = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': n, 'where': w} for n, w in mech],
                     'observe_at': observe, 'hook_needed': None}}
    if state:
        p['anchors']['state'] = [
            {'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(p)


X = 'src/acetimetools/extractor/extractor.py'
T = 'src/acetimetools/transformer/transformer.py'
AT = 'src/acetimetools/transformer/artransformer.py'
GT = 'src/acetimetools/transformer/gotransformer.py'
CM = 'src/acetimetools/transformer/commenter.py'
AG = 'src/acetimetools/generator/argenerator.py'
CG = 'src/acetimetools/generator/cgenerator.py'
GG = 'src/acetimetools/generator/gogenerator.py'
PG = 'src/acetimetools/generator/pygenerator.py'
JG = 'src/acetimetools/generator/jsongenerator.py'
ZG = 'src/acetimetools/generator/zonelistgenerator.py'
BU = 'src/acetimetools/generator/byteutils.py'
BE = 'src/acetimetools/bufestimator/bufestimator.py'
BI = 'src/acetimetools/bufestimator/zone_info_inliner.py'
TY = 'src/acetimetools/datatypes/attyping.py'
MN = 'src/acetimetools/tzcompiler.py'

# ------------------------------------------------------------- extraction
prop('E01', 'TZDB source files are read back exactly, whatever their layout',
     'Every Rule, Zone (with its continuation lines) and Link line of the '
     'nine input files becomes exactly one rule, era or link with the values '
     'written in the file, in file order, under the name written. Comments, blank lines, tab/space layout (a continuation line starts with a tab), month-name spelling, "only"/"max" and '
     'the choice of file change nothing, and nothing is invented.',
     ['inputs'],
     'all well-formed TZDB source directories, in every layout the source '
     'format allows',
     'Tests parse a handful of single fields; no test reads a whole '
     'directory, mixes layouts or checks that nothing is lost or invented.',
     [X], [('line reader and block parser', f'{X}:_parse_zone_file,_read_line'),
           ('field parsers', f'{X}:_process_rule_line,_process_zone_line')],
     ['Extractor.parse(); Extractor.get_data()'])

prop('E02', 'A malformed line is dropped and counted, and never spreads',
     'A Rule line, Zone era line or duplicate Link that cannot be parsed is '
     'dropped, counted in the matching invalid counter, and does not alter '
     'any other record; extraction itself never crashes on it. Lines with '
     'a bad month or year, a TO before the FROM, a bad AT/UNTIL suffix or '
     'missing columns, and continuation lines outside of a zone, are '
     'recognised as malformed.',
     ['inputs', 'fault_sequences'],
     'all source directories in which any subset of lines is damaged',
     'Tests never feed a damaged line to the extractor, let alone damaged '
     'lines among good ones.',
     [X], [('per-line exception barrier', f'{X}:_process_rules,_process_zones'),
           ('duplicate links', f'{X}:_process_links')],
     ['Extractor counters', 'Extractor.get_data()'])

# ---------------------------------------------------------- transformation
prop('T01', 'Compilation preserves local time over the requested years',
     'For every zone kept, the compiled eras and rules give the same UTC '
     'offset, the same DST shift and the same abbreviation as the TZDB '
     'source at every instant of the requested years, once the source '
     'fields are truncated to the requested granularity. This holds for '
     'every scope and every [start_year, until_year) range.',
     ['inputs', 'configurations'],
     'all TZDB sources x scopes x year ranges x granularities',
     'The unit tests check helper functions on single values; no test '
     'compares compiled data with the meaning of its source.',
     [T], [('era and rule truncation',
            f'{T}:_remove_zone_eras_too_old,_remove_zone_eras_too_new,'
            '_remove_rules_too_old_or_new,find_latest_prior_rules'),
           ('anchor rules', f'{T}:_create_rules_with_anchor_transition'),
           ('field conversion', f'{T}:time_string_to_seconds')],
     ['TransformerResult.zones_map, policies_map after transform()'])

prop('T02', 'Scope basic drops exactly the zones it cannot represent',
     'In scope basic a zone is kept if and only if its retained eras have '
     'year-only UNTILs, no fixed-offset RULES and policies without two '
     'transitions in one month or a transition on January 1; every other '
     'zone is dropped with a reason. In scopes extended and complete none '
     'of these restrictions drops a zone.',
     ['inputs', 'configurations'],
     'all TZDB sources x year ranges, basic scope against the wider scopes',
     'No test runs the basic filters at all.',
     [T], [('basic-only filters',
            f'{T}:_remove_zone_with_non_simple_until_year,'
            '_remove_policies_multiple_transitions_in_month,'
            '_remove_policies_with_border_transitions')],
     ['zones_map and removed_zones/removed_policies after transform()'])

prop('T03', 'Fields are converted exactly and truncated only as requested',
     'Each retained record carries its source value exactly and a truncated '
     'value rounded toward zero to the requested granularity. Under strict, '
     'anything not on the granularity boundary is removed with a reason; '
     'under nostrict it is kept, truncated and noted.',
     ['inputs', 'configurations'],
     'all field values x granularities x strict/nostrict',
     'Tests check the truncation helper on a few values but never through '
     'the pipeline, nor the strict/nostrict choice.',
     [T], [('truncation', f'{T}:truncate_to_granularity,div_to_zero'),
           ('strict filters', f'{T}:_create_zones_with_expanded_until_time,'
            '_create_zones_with_expanded_offset_string,'
            '_create_rules_with_expanded_at_time,'
            '_update_rules_with_expanded_delta_offset')],
     ['retained eras and rules; removed_* and notable_* comments'])

prop('T04', 'No zone, link or policy disappears without an explanation',
     'Every zone, link and policy of the source is either in the result or '
     'in the matching removed list with at least one reason, and never in '
     'both. What a reason quotes (a field of the record, a granularity, a '
     'policy, a link target, a year) is true of that record. In scopes extended and complete, losing an included zone or '
     'link stops the compilation with an error instead.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all sources, including ones with invalid fields or dangling '
     'references, x scopes',
     'Tests never run the filter chain, so nothing accounts for what it '
     'removes.',
     [T], [('comment maps', f'{T}:all_removed_zones,all_removed_policies,'
            'all_removed_links'),
           ('final count check', f'{T}:_verify_zones_and_links_count')],
     ['zones_map, links_map, policies_map, removed_* after transform()'])

prop('T05', 'An include list selects exactly the named zones and links',
     'With an include list, the result holds exactly the listed zones and '
     'links, each compiled as it is without the list, plus only the '
     'policies they use; everything else is reported as removed. Blank and '
     '# lines of the list file are ignored, and an empty list selects '
     'everything.',
     ['inputs', 'configurations'],
     'all sources x all subsets of their zones and links',
     'No test uses an include list.',
     [T, MN], [('filters', f'{T}:_filter_include_zones,'
                '_filter_include_links'),
               ('list file', f'{MN}:read_include_list')],
     ['zones_map, links_map, policies_map after transform()'])

prop('T06', 'A compiled database is always well formed',
     'Every zone of a compiled database has eras with strictly increasing '
     'UNTIL whose last one never ends; every policy an era names is present '
     'and non-empty, no unused policy remains, and every link leads to a '
     'present zone. Every field lies in the range its readers expect.',
     ['inputs', 'configurations'],
     'all sources x configurations for which compilation succeeds',
     'Structural invariants range over every database; tests build none.',
     [T], [('era checks', f'{T}:_remove_zones_with_non_monotonic_until,'
            '_verify_zones_until_year,_extend_zone_eras_until'),
           ('reference checks', f'{T}:_remove_unused_policies,'
            '_remove_zones_without_rules,_remove_links_to_missing_zones')],
     ['TransformerResult after transform()'])

prop('T07', 'Every policy answers for every year, starting in standard time',
     'The first rule of every compiled policy is an anchor at the beginning '
     'of time with zero DST shift and the letter of the earliest '
     'standard-time rule kept, so at least one rule applies in any year. '
     'All other rules are rules of the source, unchanged and in order; none '
     'with a DST shift is lost to the anchor.',
     ['inputs', 'configurations'],
     'all policies x year ranges',
     'Tests check the anchor on two fixed rule lists.',
     [T], [('anchor', f'{T}:_create_rules_with_anchor_transition,'
            '_get_anchor_rule,_convert_to_anchor'),
           ('check', f'{T}:_verify_rules_have_anchors')],
     ['policies_map after transform()'])

prop('T08', 'The accuracy years and truncation flags tell the truth',
     'A database that declares itself untruncated on a side agrees with its '
     'source at every instant on that side, and its accurate-year range '
     'then extends without limit there; otherwise the range is exactly the '
     'requested years. The reported original and generated year ranges are '
     'those of the data.',
     ['inputs', 'configurations'],
     'all sources x year ranges',
     'No test looks at truncation metadata.',
     [T], [('flags', f'{T}:_update_truncation_status'),
           ('ranges', f'{T}:_calc_accurate_years,_detect_tzdb_years')],
     ['TransformerResult.{start,until}_year_accurate, *_truncated, '
      '*_min_year, *_max_year'])

prop('T09', 'A narrower year range agrees with a wider one',
     'Compiling the same source for a sub-range of years gives the same '
     'local time for every zone in the sub-range as compiling it for the '
     'whole range, and the same identifiers. This also holds for the real '
     'TZDB for any range.',
     ['inputs', 'configurations'],
     'all pairs of nested year ranges, on generated sources and on the '
     'real TZDB',
     'Needs two compilations and an evaluator; tests run neither.',
     [T], [('era and rule truncation', f'{T}:_remove_zone_eras_too_old,'
            '_remove_zone_eras_too_new,_remove_rules_too_old_or_new')],
     ['zones_map and policies_map of the two compilations'])

prop('T10', 'Ambiguous or unsupported names and formats stop compilation',
     'Two names with the same identifier, two names that become the same '
     'symbol, a link to a link, and a FORMAT that cannot be resolved (%z with '
     'other text, %s without rules, any other %) each stop the compilation '
     'with an error; no partial or ambiguous database is produced. Sources '
     'without such a conflict are never refused on these grounds.',
     ['inputs'],
     'all sources, with and without planted conflicts',
     'Tests exercise none of the detectors through a compilation.',
     [T], [('detectors', f'{T}:_detect_hash_collisions,'
            '_detect_links_to_links,'
            '_detect_zones_and_links_with_similar_names'),
           ('format checks',
            f'{T}:_remove_zones_with_invalid_rules_format_combo')],
     ['exceptions of Transformer.transform()'])

prop('T11', 'Zone identifiers are the stable hash of the name',
     'Each zone and link identifier is the 32-bit djb2 hash of its full '
     'name: non-zero, unique in a database, the same in every database and '
     'every output language, whatever else is compiled with it.',
     ['inputs', 'configurations'],
     'all names, all databases',
     'One or two hash values are asserted; stability and uniqueness across '
     'databases and languages are not.',
     [T], [('hash', f'{T}:hash_name,_generate_zone_ids,_generate_link_ids')],
     ['zone_ids, link_ids, and the identifiers of each generated file'])

prop('T12', 'The result does not depend on file order, hash seed or reruns',
     'Compiling the same records gives byte-identical output files when run '
     'again and under any Python hash seed, and the same generated files '
     '(the JSON file up to the order of its members) in any distribution '
     'and order of zones, policies and links over the input files.',
     ['inputs', 'configurations'],
     'all sources x permutations of their blocks x hash seeds',
     'Tests run once in one process with one hash seed.',
     [TY, AG, CG, GG, PG],
     [('sorting', f'{TY}:_sort_comments,_sort_merged_comments'),
      ('sorted emission', f'{AG}, {CG}, {GG}, {PG}')],
     ['all generated files'])

prop('T13', 'Conditional days resolve to the right calendar day',
     'lastSun, Sun>=N and Sun<=N resolve to the calendar day TZDB defines, '
     'including shifts into the neighbouring month, for any year and any '
     'limit day that exists in the month; an UNTIL day that leaves its year, '
     'and an ON day that can leave the year, are refused with a reason, and '
     'an ON day that cannot leave it is kept as written. A malformed day, or '
     'one that its month does not have, is refused with a reason as well.',
     ['inputs'],
     'all (year, month, weekday, day) combinations',
     'Tests sample about ten combinations.',
     [T], [('resolver', f'{T}:calc_day_of_month,_days_in_month,'
            '_parse_on_day_string'),
           ('ON limits', f'{T}:_create_rules_with_on_day_expansion')],
     ['calc_day_of_month()', 'until_month/until_day, on_day_* of results'])

prop('T14', 'Every unusual field of a kept zone is noted where it is used',
     'A kept zone or policy with a truncated or oddly granular time, a '
     'negative or unusual DST shift, a shifted UNTIL, removed future eras, a multi-character letter, or rules behind a FORMAT without %s or / carries a note saying so, and a record '
     'without any of these carries none. The notes of a policy also appear '
     'on exactly the zones that use it.',
     ['inputs', 'configurations'],
     'all sources x granularities',
     'Tests never look at notes.',
     [T, CM], [('notes', f'{T}:add_comment'),
               ('merge', f'{CM}:_create_merged_comments_map')],
     ['notable_zones, notable_policies, merged_notable_zones'])

# ---------------------------------------------------------------- artifacts
prop('A01', 'The generated C++ database decodes to the compiled zones',
     'The generated C++ files compile, and reading every field through the '
     'documented record encodings gives back the compiled zones, links, '
     'eras, rules, formats, letters, names and context exactly. Scopes '
     'basic, extended and complete each do so with their own encoding.',
     ['inputs', 'configurations'],
     'all compiled databases x scopes x compression',
     'No test runs the C++ generator.',
     [AT, AG], [('encodings', f'{AT}:_to_encoded_time_minutes,'
                 '_to_encoded_time_seconds,_process_eras_stdoff_delta'),
                ('files', f'{AG}:generate_files')],
     ['zone_policies.*, zone_infos.*, zone_registry.* for Arduino'])

prop('A02', 'The generated C database decodes to the compiled zones',
     'The generated C files compile, and reading every field through the '
     'documented record encoding gives back the compiled zones, links, '
     'eras, rules, formats, letters, names and context exactly.',
     ['inputs', 'configurations'],
     'all compiled databases x scopes x compression',
     'No test runs the C generator.',
     [AT, CG], [('encodings', f'{AT}:_to_encoded_time_seconds,'
                 '_process_eras_stdoff_delta'),
                ('files', f'{CG}:generate_files')],
     ['zone_policies.*, zone_infos.*, zone_registry.* for C'])

prop('A03', 'The generated Go database decodes to the compiled zones',
     'Slicing the binary strings of the generated Go files into records and '
     'reading them little-endian gives back the compiled zones, links, '
     'eras, rules, formats, letters, names and context exactly; all '
     'indexes and offsets stay inside their tables.',
     ['inputs', 'configurations'],
     'all compiled databases',
     'No test runs the Go generator.',
     [GT, GG, BU], [('layout', f'{GG}:_generate_rule_data,'
                     '_generate_era_data,_generate_infos_data'),
                    ('indexes', f'{GT}:_generate_info_index_size_map')],
     ['zone_policies.go, zone_infos.go, zone_registry.go'])

prop('A04', 'The generated Python database evaluates to the compiled zones',
     'Importing the generated Python files gives, for every zone, link and '
     'policy, exactly the compiled fields, shared by reference where the '
     'source shares them, and a registry that finds each by its name.',
     ['inputs', 'configurations'],
     'all compiled databases',
     'No test runs the Python generator.',
     [PG], [('files', f'{PG}:generate_files')],
     ['zone_policies.py, zone_infos.py, zone_registry.py'])

prop('A05', 'The JSON file is a complete dump of the compiled database',
     'The JSON file parses, and its content equals the compiled database: '
     'all zones, policies, links, identifiers, notes, counts and settings. '
     'Its counts match its own content, and the version number encodes the '
     'version string.',
     ['inputs', 'configurations'],
     'all compiled databases x settings',
     'No test writes the JSON file.',
     [JG, TY], [('dump', f'{JG}:generate_files'),
                ('assembly', f'{TY}:create_zone_info_database')],
     ['zonedb.json'])

prop('A06', 'zones.txt lists exactly the compiled zones',
     'The zone list holds each compiled zone once, sorted by name, no links '
     'and no removed zones, and its header count equals the number of '
     'names. Used as an include list it selects the same zones again.',
     ['inputs', 'configurations'],
     'all compiled databases',
     'No test writes the list.',
     [ZG], [('list', f'{ZG}:_generate_zones')], ['zones.txt'])

prop('A07', 'All output languages describe the same database',
     'From one compilation, the C++, C, Go, Python and JSON outputs hold '
     'the same zones, links, identifiers, eras, rules and settings.',
     ['inputs', 'configurations'],
     'all compiled databases',
     'No test runs two generators.',
     [AG, CG, GG, PG, JG], [('generators', f'{AG}, {CG}, {GG}, {PG}')],
     ['the five outputs of one compilation'])

prop('A08', 'Registries are searchable and complete',
     'The C++, C and Go registries are sorted by identifier without '
     'duplicates, hold exactly the zones (or zones and links), and each '
     'entry leads to the record of that name; each link leads to its '
     'target zone, as declared in the source.',
     ['inputs', 'configurations'],
     'all compiled databases',
     'Binary search fails only on particular sets of names; tests have '
     'none.',
     [AG, CG, GG, GT], [('registries', f'{AG}:_generate_registry, {CG}, '
                         f'{GT}:_generate_zone_and_link_index_map')],
     ['kZoneRegistry, kZoneAndLinkRegistry, ZoneInfosData'])

prop('A09', 'Compressed names expand to the original names',
     'Expanding the fragment codes of any compressed zone or link name with '
     'the generated fragment table gives the original name; codes never '
     'collide with printable text or the terminator, and too many fragments '
     'stop the compilation. Without compression names are stored as they '
     'are.',
     ['inputs', 'configurations'],
     'all sets of zone and link names',
     'Tests compress a few names with a fixed table.',
     [AT, AG, CG], [('compression', f'{AT}:_generate_fragments,'
                     '_compress_name'),
                    ('emission', f'{AG}, {CG}')],
     ['compressed_names, fragments_map, generated name strings'])

prop('A10', 'Letter and format tables recover every abbreviation',
     'Through the letter and format tables of each output every rule gets '
     'back its LETTER and every era its FORMAT; tables are sorted, free of '
     'duplicates, hold nothing that is not used besides the empty string, '
     'and offsets delimit each string exactly.',
     ['inputs'],
     'all sets of letters and formats',
     'Tests have no table with more than a few entries.',
     [AT, GT], [('tables', f'{AT}:_collect_letter_strings,'
                 f'_collect_format_strings; {GT}:_collect_letter_strings')],
     ['kLetters, LetterData/LetterOffsets, FormatData/FormatOffsets'])

prop('A11', 'Tiny years keep the meaning of every retained year',
     'With 8-bit years relative to a base year, every year inside the '
     'representable window decodes to itself, -infinity and +infinity keep '
     'their meaning, years outside saturate without reordering, and a '
     'requested range outside the window stops the compilation (the year '
     'before start_year, whose rules can still be in force when it begins, '
     'has to be inside as well).',
     ['inputs', 'configurations'],
     'all years x base years',
     'Tests sample a few years against base 2100.',
     [T], [('conversion', f'{T}:is_year_tiny,to_tiny_from_to_year,'
            'to_tiny_until_year')],
     ['*_tiny fields, generated low-resolution records'])

prop('A12', 'Counts and sizes stated in the generated files are true',
     'The record counts, zone/link/policy/rule/era totals, name and string '
     'sizes and per-record-type byte sizes stated in file headers and '
     'context records equal those of the data in the same files, and every '
     'removed or notable record is listed by name.',
     ['inputs', 'configurations'],
     'all compiled databases',
     'No test reads a generated header.',
     [AT, GT, AG, CG, GG], [('memory maps', f'{AT}:_generate_memory_map; '
                             f'{GT}:_generate_memory_map'),
                            ('headers', f'{AG}, {CG}, {GG}')],
     ['headers of the generated files'])

prop('A13', 'Go binary data and Go test records are identical',
     'The generated Go package compiles, its test records equal the decoded '
     'binary data record by record, and its index and identifier constants '
     'point at the records of those names.',
     ['inputs', 'configurations'],
     'all compiled databases',
     'The generated Go tests run in another repository; none runs here.',
     [GG], [('twin emission', f'{GG}:_generate_rules_string vs '
             '_generate_rules_data, _generate_eras_string vs '
             '_generate_eras_data')],
     ['*_test.go against *.go'])

prop('A14', 'A value that does not fit its field is refused, never wrapped',
     'If any compiled value cannot be represented in the field the chosen '
     'output gives it, generation stops with an error; no output is '
     'produced in which it is wrapped, truncated or reinterpreted.',
     ['inputs', 'configurations'],
     'all sources with extreme offsets, shifts, times, counts and string '
     'totals',
     'Tests use ordinary values; limits of composed fields are not '
     'reached.',
     [AT, GT, BU, T], [('guards', f'{AT}:_process_rules_delta,'
                        f'_process_eras_stdoff_delta; {BU}; '
                        f'{GT}:transform')],
     ['exceptions, or decoded outputs'])

prop('A15', 'Comments in the generated sources agree with the records',
     'In the C++, C, Go and Python files, the source line written above each '
     'rule and era record is the line of that policy or zone which the '
     'record was compiled from (marked Anchor or Extended where the record '
     'was made from it), and every explanation written next to a field, '
     'name, table entry or constant (exact seconds and their arithmetic, '
     'suffix, true year, letter, format, index, count, identifier, link '
     'target, buffer size) is true of the value it stands next to.',
     ['inputs', 'configurations'],
     'all sources x scopes, granularities, years, languages',
     'No test reads a generated file; a wrong comment compiles.',
     [AG, CG, GG, PG], [('comments', f'{AG}, {CG}, {GG}, {PG}: every '
                         'comment in a template with a value')],
     ['comments of the output against the decoded records and the source'])

prop('B01', 'Byte encoders round-trip their whole range and refuse the rest',
     'Each integer writer appends exactly its width, little-endian two\'s '
     'complement, for every value of its type and raises for every other '
     'value without writing; the Go string renderer yields a literal that '
     'denotes exactly the given bytes for any chunk size.',
     ['inputs'],
     'all integers, all byte strings x chunk sizes',
     'Tests check two or three values per writer.',
     [BU], [('writers', f'{BU}:write_u8..write_i32'),
            ('renderer', f'{BU}:convert_to_go_string,hex_encode')],
     ['byteutils functions'])

prop('B02', 'The buffer-size estimate is the true maximum over the years',
     'For each zone the estimate is the largest buffer the zone processor '
     'reports over the years checked, with the first year it occurs, and '
     'the overall maximum is the largest of these; the processor sees '
     'exactly the compiled data. An estimate above the library limit stops '
     'the compilation unless overridden.',
     ['inputs', 'configurations'],
     'all compiled databases x year ranges',
     'No test runs the estimator (its dependency is absent).',
     [BE, BI], [('scan', f'{BE}:_find_max_buffer_sizes'),
                ('limit', f'{BE}:transform'),
                ('inlining', f'{BI}:generate_zonedb')],
     ['buf_sizes, max_buf_size, estimator years'])

prop('C01', 'The command line produces what its flags say',
     'Running the compiler on a directory writes exactly the files of the '
     'requested actions and languages, with the same content the documented '
     'settings give: each scope has its documented defaults, each '
     'granularity, year, strictness, compression, include-list and version '
     'flag overrides them, and a run never modifies its input.',
     ['configurations', 'inputs'],
     'all combinations of flags x sources',
     'No test runs the command line.',
     [MN], [('defaults and overrides', f'{MN}:main')],
     ['tzcompiler.py process: exit status and files'])

prop('C02', 'Invalid requests fail without output',
     'Unknown actions, languages or scopes, years a scope does not support, '
     'an until year before the start year, missing required flags and missing '
     'inputs end with a non-zero status and write no database file.',
     ['configurations', 'fault_sequences'],
     'all invalid flag combinations and missing inputs',
     'No test runs the command line.',
     [MN], [('validation', f'{MN}:main')],
     ['tzcompiler.py process: exit status and files'])

prop('C03', 'The wrapper scripts pass data and flags through untouched',
     'copytz.sh copies, of the visible files, exactly the nine zone files (plus a version file) '
     'from the source tree and refuses to overwrite; tzcompiler.sh compiles '
     'that copy with the flags given, labels it with the tag, and leaves '
     'the source tree untouched.',
     ['inputs', 'configurations'],
     'all source trees, tags and flag lists',
     'No test runs the scripts.',
     ['tzcompiler.sh', 'copytz.sh'],
     [('scripts', 'tzcompiler.sh, copytz.sh')],
     ['the scripts\' exit status and files, inside a scratch directory'])

prop('C04', 'What a run reports in its log is true of the run',
     'The settings, year ranges, line, name and entry counts, and buffer sizes '
     'that a run logs are those of the run; each step that removes or notes '
     'records reports their number and lists names and reasons that it really '
     'gave, over all steps each removed zone, policy and link is counted '
     'exactly once, the summaries agree with the result, and the files '
     'reported as created are exactly the files written.',
     ['inputs', 'configurations'],
     'all sources and flags',
     'No test looks at the log.',
     [MN, X, T, AT, GT, CM, BE, AG, CG, GG, PG, JG, ZG],
     [('counts of removed and noted records', T + ': _print_comments_map and '
       'its callers'),
      ('summaries', 'print_summary of each stage'),
      ('buffer sizes', BE + ': calculate_max_buf_size'),
      ('files created', 'the generators: _write_file')],
     ['the log of a command line run, next to its result'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
