From 5201403818d5257c83038b59781805f28944275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 01/33] fix: write_i32 refused values in [2^30, 2^31-1)

'1 << 31 - 1' is '1 << 30', so the largest int32 values could not be
written.
---
 src/acetimetools/generator/byteutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/generator/byteutils.py b/src/acetimetools/generator/byteutils.py
index 5c549f5..8d19915 100644
--- a/src/acetimetools/generator/byteutils.py
+++ b/src/acetimetools/generator/byteutils.py
@@ -71,8 +71,8 @@ def write_u32(data: bytearray, x: int) -> None:
 
 
 def write_i32(data: bytearray, x: int) -> None:
-    if x > (1 << 31 - 1):
-        raise ValueError(f"x={x} > {1<<31-1}, cannot write into int32")
+    if x > (1 << 31) - 1:
+        raise ValueError(f"x={x} > {(1<<31)-1}, cannot write into int32")
     if x < -(1 << 31):
         raise ValueError(f"x={x} < {-(1<<31)}, cannot write into int32")
     if x < 0:
-- 
2.43.0


From 0b44e6cfc523a9ff9864ccddd3522845ed9f7790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 02/33] fix: invalid or negative AT crashed instead of removing
 the policy

The reason was built by an f-string followed by a '%' operator without
a placeholder, which raises TypeError.
---
 src/acetimetools/transformer/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 09cc099..643ff26 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1141,13 +1141,13 @@ class Transformer:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"invalid AT '{at_time}'" % at_time)
+                        f"invalid AT '{at_time}'")
                     break
                 if at_seconds < 0:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"negative AT '{at_time}'" % at_time)
+                        f"negative AT '{at_time}'")
                     break
 
                 # Check if AT is not on 15-minute boundary
-- 
2.43.0


From c9d17ea536a38d5f99cca132f9c5844794d1d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 03/33] fix: an extended last era kept the month, day and time
 of its old UNTIL

When later eras were removed, an UNTIL such as 'lastSun' was resolved in
the year MAX_UNTIL_YEAR, which raised 'year 32767 is out of range' for
many year ranges of the real TZDB.
---
 src/acetimetools/transformer/transformer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 643ff26..a414fa4 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -432,6 +432,13 @@ class Transformer:
             last_era = info['eras'][-1]
             if last_era['until_year'] != MAX_UNTIL_YEAR:
                 last_era['until_year'] = MAX_UNTIL_YEAR
+                # Replace the rest of UNTIL as well, because the original day
+                # (e.g. 'lastSun') cannot be resolved in MAX_UNTIL_YEAR.
+                last_era['until_year_only'] = True
+                last_era['until_month'] = 1
+                last_era['until_day_string'] = '1'
+                last_era['until_time'] = '00:00'
+                last_era['until_time_suffix'] = 'w'
                 last_era['raw_line'] = 'Extended: ' + last_era['raw_line']
                 # Don't bother adding an entry in notable_zones, because there
                 # would already be a note about removing eras "too new".
-- 
2.43.0


From a0bf6c43cdd8cb73d2c8e351ad451bd5f4725369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 04/33] fix: ON 'Sun<=1' in January was accepted, 'Sun<=7'
 refused

Sun<=1 can shift into the previous year, Sun<=7 never does.
---
 src/acetimetools/transformer/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index a414fa4..277dc45 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1338,8 +1338,8 @@ class Transformer:
                 # "dayOfWeek<=6" or "dayOfWeek>=26" if the shift causes the year
                 # to change.
                 if on_day_of_week != 0 and on_day_of_month != 0:
-                    if (-7 <= on_day_of_month
-                            and on_day_of_month < -1
+                    if (-7 < on_day_of_month
+                            and on_day_of_month < 0
                             and rule['in_month'] == 1):
                         valid = False
                         add_comment(
-- 
2.43.0


From e53e597b5bd3d71aeb227926fe2aa7e248f916c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 05/33] fix: a policy reduced to one DST rule silently lost its
 DST

A single remaining rule became the anchor whatever its SAVE, e.g. DST of
Guam in 1959 with --until_year 1960. Keep the earliest standard time
rule as the source of the anchor in that case.
---
 src/acetimetools/transformer/transformer.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 277dc45..a5da37b 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1039,6 +1039,17 @@ class Transformer:
             for rule in priors:
                 rule['truncated'] = 0
 
+            # Keep the earliest standard time rule if no other one is kept,
+            # because the anchor rule takes its LETTER.
+            used = [rule for rule in rules if rule['truncated'] == 0]
+            if used and not any(_is_standard_time(rule) for rule in used):
+                standard_rules = [r for r in rules if _is_standard_time(r)]
+                if standard_rules:
+                    earliest = min(
+                        standard_rules,
+                        key=lambda r: (r['from_year'], r['in_month']))
+                    earliest['truncated'] = 0
+
             # Collect used rules.
             used_rules: List[ZoneRuleRaw] = []
             lower_truncated = False
@@ -1375,7 +1386,7 @@ class Transformer:
         """
         for name, policy in policies_map.items():
             rules = policy['rules']
-            if len(rules) == 1:
+            if len(rules) == 1 and rules[0]['delta_seconds'] == 0:
                 _convert_to_anchor(rules[0])
             else:
                 anchor_rule = _get_anchor_rule(rules)
@@ -2194,6 +2205,11 @@ def _detect_tzdb_years(
     return min_year, max_year
 
 
+def _is_standard_time(rule: ZoneRuleRaw) -> bool:
+    """Return true if SAVE of the given rule is 0."""
+    return time_string_to_seconds(rule['delta_offset']) == 0
+
+
 def _get_anchor_rule(rules: List[ZoneRuleRaw]) -> ZoneRuleRaw:
     """Return the anchor rule that will act as the earliest rule with SAVE
     == 0.
-- 
2.43.0


From 8432c4c42d4d4216b4c1f74659e8a78c9d591076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:56 +0000
Subject: [PATCH 06/33] fix: tzcompiler.sh deleted an existing tzfiles
 directory it refused to overwrite

The cleanup trap was already installed when the script stopped with
'Cannot overwrite existing'.
---
 tzcompiler.sh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tzcompiler.sh b/tzcompiler.sh
index 6381a47..bc088aa 100755
--- a/tzcompiler.sh
+++ b/tzcompiler.sh
@@ -50,6 +50,13 @@ function copy_tzfiles() {
         exit 1
     fi
 
+    # Install a trap to delete the tzfile/ temp directory, but disable it if
+    # --nocleanup given for debugging. Not before the check above, which would
+    # delete a directory that was not created by this script.
+    if [[ $cleanup == 1 ]]; then
+        trap clean_tzfiles EXIT
+    fi
+
     # Copy or clone the repo, depending on the $tag.
     if [[ "$tag" == '' ]]; then
         echo "+ cp -a $src/ $dst/"
@@ -118,12 +125,6 @@ else
     tz_version=$tag
 fi
 
-# Install a trap to delete the tzfile/ temp directory, but disable it if
-# --nocleanup given for debugging.
-if [[ $cleanup == 1 ]]; then
-    trap clean_tzfiles EXIT
-fi
-
 # Do the actual work.
 copy_tzfiles $tzrepo $TZFILES
 run_tzcompiler "$@"
-- 
2.43.0


From 40ed25c6209991de40b45da7ed564c89cb10e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:56 +0000
Subject: [PATCH 07/33] fix: malformed time strings crashed or were misread

An empty time (e.g. AT 'u') raised IndexError, and a sign inside the
string (e.g. '1:-30') was accepted as 0:30.
---
 src/acetimetools/transformer/transformer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index a5da37b..28a538f 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1732,7 +1732,7 @@ def time_string_to_seconds(time_string: str) -> int:
     Returns INVALID_SECONDS if there is a parsing error.
     """
     sign = 1
-    if time_string[0] == '-':
+    if time_string[:1] == '-':
         sign = -1
         time_string = time_string[1:]
 
@@ -1748,6 +1748,9 @@ def time_string_to_seconds(time_string: str) -> int:
     except Exception:
         return INVALID_SECONDS
 
+    # The sign is allowed only at the front of the string.
+    if hour < 0 or minute < 0 or second < 0:
+        return INVALID_SECONDS
     # A number of countries use 24:00, and Japan uses 25:00(!).
     # Rule  Japan   1948    1951  -     Sep Sat>=8  25:00   0   	S
     if hour > 25:
-- 
2.43.0


From 70e6dda6391f643052fd97602142ae4148a9b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:56 +0000
Subject: [PATCH 08/33] fix: a Rule, Zone or Link line without a name crashed
 the extractor

Such lines are now counted as invalid like other malformed lines.
---
 src/acetimetools/extractor/extractor.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index b3ff2c7..4318a43 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -161,16 +161,26 @@ class Extractor:
             tag: str = line[:4]
             if tag == 'Rule':
                 tokens: List[str] = line.split()
+                in_zone_mode = False
+                if len(tokens) < 2:
+                    self.invalid_rule_lines += 1
+                    continue
                 policy_name: str = tokens[1]
                 _add_item(self.rule_lines, policy_name, line)
-                in_zone_mode = False
             elif tag == 'Link':
                 tokens = line.split()
+                in_zone_mode = False
+                if len(tokens) < 3:
+                    self.invalid_link_lines += 1
+                    continue
                 link_name: str = tokens[2]
                 _add_item(self.link_lines, link_name, tokens[1])
-                in_zone_mode = False
             elif tag == 'Zone':
                 tokens = line.split()
+                in_zone_mode = False
+                if len(tokens) < 2:
+                    self.invalid_zone_lines += 1
+                    continue
                 zone_name: str = tokens[1]
                 _add_item(self.zone_lines, zone_name, ' '.join(tokens[2:]))
                 in_zone_mode = True
-- 
2.43.0


From f120fb50018533e6e9e591fa9b210224763720ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 09/33] fix: --granularity was ignored

It is documented to override the other granularity flags.
---
 src/acetimetools/tzcompiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index 2fedb3c..a80341d 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -473,6 +473,10 @@ def main() -> None:
         offset_granularity = args.offset_granularity
     if args.delta_granularity:
         delta_granularity = args.delta_granularity
+    if args.granularity:
+        until_at_granularity = args.granularity
+        offset_granularity = args.granularity
+        delta_granularity = args.granularity
 
     logging.info('======== TZ Compiler settings')
     logging.info(f'Scope: {args.scope}')
-- 
2.43.0


From 3de8d8000cf741ff253b1d8d8a0f6c73e4b9d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:56 +0000
Subject: [PATCH 10/33] fix: values which do not fit in 8 bits were generated
 for Arduino and C

SAVE above 2:07 in 'complete' scope, and a rule, era or letter count
above 255, were written into 8-bit fields without a check.
---
 src/acetimetools/transformer/artransformer.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 75e1976..6ef7ed8 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -151,6 +151,8 @@ class ArduinoTransformer:
         """
         for policy_name, policy in policies_map.items():
             rules = policy['rules']
+            if len(rules) > 255:
+                raise Exception(f'{policy_name}: too many rules {len(rules)}')
             for rule in rules:
                 seconds = rule['at_seconds_truncated']
                 suffix = rule['at_time_suffix']
@@ -188,6 +190,9 @@ class ArduinoTransformer:
                     letter=letter,
                     indexed_letters=self.letters_map,
                 )
+                if rule['letter_index'] > 255:
+                    raise Exception(
+                        f'Too many letters {len(self.letters_map)}')
 
     def _process_rules_delta(self, policies_map: PoliciesMap) -> None:
         """Convert the delta_seconds extracted from the SAVE field of a RULE
@@ -225,7 +230,12 @@ class ArduinoTransformer:
                         raise Exception(
                             f'delta_seconds={delta_seconds} is '
                             'not a multiple of 0:01 minutes')
-                    rule['delta_minutes'] = delta_seconds // 60
+                    delta_minutes = delta_seconds // 60
+                    if delta_minutes < -128 or delta_minutes > 127:
+                        raise Exception(
+                            f'delta_minutes={delta_minutes} '
+                            'does not fit in 1 byte')
+                    rule['delta_minutes'] = delta_minutes
 
     def _process_eras_stdoff_delta(self, zones_map: ZonesMap) -> None:
         """Convert the STDOFF and RULES/DSTOFF fields of ZoneEraRaw into values
@@ -245,6 +255,8 @@ class ArduinoTransformer:
         """
         for zone_name, info in zones_map.items():
             eras = info['eras']
+            if len(eras) > 255:
+                raise Exception(f'{zone_name}: too many eras {len(eras)}')
             for era in eras:
                 offset_seconds = era['offset_seconds_truncated']
                 delta_seconds = era['era_delta_seconds_truncated']
@@ -538,7 +550,7 @@ def _generate_fragments(zones_map: ZonesMap, links_map: LinksMap) -> IndexMap:
 
     # Make sure that index is < 32, before ASCII-space.
     if index >= 32:
-        raise Exception("Too many fragments {index}")
+        raise Exception(f"Too many fragments {index}")
 
     return fragments_map
 
-- 
2.43.0


From 0b701998ebd5240ba19fbd319f79e578fc3ff599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 11/33] fix: C files could not be generated in scopes basic and
 extended

delta_minutes is only present in the 'high' encoding of scope complete.
---
 src/acetimetools/generator/cgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index d8034e5..456d5a4 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -302,7 +302,7 @@ extern "C" {{
                 at_time_modifier_comment = \
                     f'{label} + minute={remaining_minutes}'
                 delta_code = rule['delta_code_encoded']
-                delta_minutes = rule['delta_minutes']
+                delta_minutes = rule['delta_seconds_truncated'] // 60
                 delta_code_comment = f"(delta_minutes={delta_minutes})/15 + 4"
 
             if self.generate_tiny_years:
@@ -657,7 +657,7 @@ const AtcZoneInfo k{self.db_namespace}Zone{zone_normalized_name} {progmem} = {{
             offset_code = era['offset_code']
             delta_code = era['delta_code_encoded']
             offset_minute = era['offset_minute']
-            delta_minutes = era['delta_minutes']
+            delta_minutes = era['era_delta_seconds_truncated'] // 60
             delta_code_comment = (
                 f"((offset_minute={offset_minute}) << 4) + "
                 f"((delta_minutes={delta_minutes})/15 + 4)"
-- 
2.43.0


From 54ad39574c80858564a69643a40c18ee8bde3f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 12/33] fix: --skip_bufestimator crashed the Arduino and C
 generators

There are no buffer sizes in that case, so leave out the constants.
---
 src/acetimetools/generator/argenerator.py | 8 +++++---
 src/acetimetools/generator/cgenerator.py  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/acetimetools/generator/argenerator.py b/src/acetimetools/generator/argenerator.py
index 386a626..e8b7462 100644
--- a/src/acetimetools/generator/argenerator.py
+++ b/src/acetimetools/generator/argenerator.py
@@ -394,9 +394,11 @@ extern const {self.scope}::ZoneInfo kZone{zone_normalized_name}; // {zone_name}
 const uint32_t kZoneId{zone_normalized_name} = 0x{zone_id:08x}; // {zone_name}
 """
 
-            buf_size = self.buf_sizes[zone_name].number
-            buf_year = self.buf_sizes[zone_name].year
-            buf_sizes += f"""\
+            # Not available with --skip_bufestimator.
+            if zone_name in self.buf_sizes:
+                buf_size = self.buf_sizes[zone_name].number
+                buf_year = self.buf_sizes[zone_name].year
+                buf_sizes += f"""\
 const uint8_t kZoneBufSize{zone_normalized_name} = {buf_size};  \
 // {zone_name} in {buf_year}
 """
diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index 456d5a4..f2ce820 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -401,9 +401,11 @@ extern const AtcZoneInfo k{self.db_namespace}Zone{zone_normalized_name}; \
 /* {zone_name} */
 """
 
-            buf_size = self.buf_sizes[zone_name].number
-            buf_year = self.buf_sizes[zone_name].year
-            zone_buf_sizes += f"""\
+            # Not available with --skip_bufestimator.
+            if zone_name in self.buf_sizes:
+                buf_size = self.buf_sizes[zone_name].number
+                buf_year = self.buf_sizes[zone_name].year
+                zone_buf_sizes += f"""\
 #define k{self.db_namespace}ZoneBufSize{zone_normalized_name} {buf_size}  \
 /* {zone_name} in {buf_year} */
 """
-- 
2.43.0


From ea3ded1dd33727708828e5ddc007a7cca0e44402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 13/33] fix: tzcompiler.sh without --tag crashed on the version
 'HEAD'

---
 src/acetimetools/datatypes/attyping.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/datatypes/attyping.py b/src/acetimetools/datatypes/attyping.py
index 8f38210..0088a84 100644
--- a/src/acetimetools/datatypes/attyping.py
+++ b/src/acetimetools/datatypes/attyping.py
@@ -561,8 +561,11 @@ def _sort_merged_comments(
 def _to_version_number(version: str) -> int:
     """Convert version string (e.g. '2020a') to an integer of the form YYNN
     (e.g. '2001'), where YY is (year - 2000) and NN is the patch number,
-    where 'a' is 01.
+    where 'a' is 01. Return 0 if the version is not a TZDB release, e.g. 'HEAD'
+    (see tzcompiler.sh).
     """
     year = version[0:4]
-    patch = version[4]
+    patch = version[4:5]
+    if not (len(year) == 4 and year.isdigit() and 'a' <= patch <= 'z'):
+        return 0
     return (int(year) - 2000) * 100 + (ord(patch) - ord('a') + 1)
-- 
2.43.0


From 3c51068c829a474a0f0e19e3bd62a2b092a59895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 14/33] fix: policies with the same normalized name were not
 detected

E.g. 'E-Eur' and 'E_Eur' both generated kZonePolicyE_Eur.
---
 src/acetimetools/transformer/transformer.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 28a538f..779f804 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -130,6 +130,7 @@ class Transformer:
         _detect_links_to_links(links_map)
         _detect_hash_collisions(zones_map=zones_map, links_map=links_map)
         _detect_zones_and_links_with_similar_names(zones_map, links_map)
+        _detect_policies_with_similar_names(policies_map)
         original_min_year, original_max_year = \
             _detect_tzdb_years(zones_map, policies_map)
 
@@ -2179,6 +2180,20 @@ def _detect_zones_and_links_with_similar_names(
         result_links[link_name] = zone_name
 
 
+def _detect_policies_with_similar_names(policies_map: PoliciesMap) -> None:
+    """Policy names like "E-Eur" and "E_Eur" would produce the same symbol, so
+    make this a fatal error as well.
+    """
+    normalized_names: Dict[str, str] = {}  # normalized_name, name
+    for policy_name in policies_map.keys():
+        nname = normalize_name(policy_name)
+        if normalized_names.get(nname):
+            raise Exception(
+                f"Duplicate normalized policy name: {policy_name} -> {nname}"
+            )
+        normalized_names[nname] = policy_name
+
+
 def _detect_tzdb_years(
     zones_map: ZonesMap, policies_map: PoliciesMap,
 ) -> Tuple[int, int]:
-- 
2.43.0


From 560b6f9fae498056f93a83e4e4d20021510e72b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 15/33] fix: zones were lost if their policy had no rule before
 until_year

The policy was removed as 'All rules too old or too new', which removed
its zones, e.g. Pacific/Apia with --until_year 2005, and stopped the
compilation in scopes extended and complete. Standard time applies
before the first rule.
---
 src/acetimetools/transformer/transformer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 779f804..091ef1d 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1041,9 +1041,10 @@ class Transformer:
                 rule['truncated'] = 0
 
             # Keep the earliest standard time rule if no other one is kept,
-            # because the anchor rule takes its LETTER.
+            # because the anchor rule takes its LETTER. The policy may have no
+            # other rule before until_year, but its zones are still valid.
             used = [rule for rule in rules if rule['truncated'] == 0]
-            if used and not any(_is_standard_time(rule) for rule in used):
+            if not any(_is_standard_time(rule) for rule in used):
                 standard_rules = [r for r in rules if _is_standard_time(r)]
                 if standard_rules:
                     earliest = min(
-- 
2.43.0


From 3c7408d4768388e08e5750a56063118c9a574dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 16/33] fix: scope basic accepted a transition on Jan 1 written
 as 'Sun<=7'

BasicZoneProcessor does not support transitions on Jan 1.
---
 src/acetimetools/transformer/transformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 091ef1d..e57c3f1 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1443,7 +1443,8 @@ class Transformer:
                 month = rule['in_month']
                 on_day_of_month = rule['on_day_of_month']
                 if from_year > MIN_YEAR and to_year > MIN_YEAR:
-                    if month == 1 and on_day_of_month == 1:
+                    # 'Sun>=1' and 'Sun<=7' can fall on Jan 1 as well.
+                    if month == 1 and on_day_of_month in (1, -7):
                         valid = False
                         add_comment(
                             removed_policies, name,
-- 
2.43.0


From 20c28a07eda54c5d91eef455ddfe355c9754605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 17/33] fix: policies of removed zones stayed in the database

In scope basic a zone is removed if one of its policies is not supported. Its
other policies remained, although no zone uses them.
---
 src/acetimetools/transformer/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index e57c3f1..01b0046 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -184,8 +184,10 @@ class Transformer:
         if self.generate_tiny_years:
             policies_map = self._update_rules_tiny_from_to_years(policies_map)
 
-        # Part 6: Remove unused zones and links, and verify some invariants.
+        # Part 6: Remove unused zones, policies and links, and verify some
+        # invariants. A policy can become unused if its zones lost another one.
         zones_map = self._remove_zones_without_rules(zones_map, policies_map)
+        policies_map = self._remove_unused_policies(zones_map, policies_map)
         links_map = self._remove_links_to_missing_zones(links_map, zones_map)
         self._verify_zones_until_year(zones_map)
         self._verify_policies_from_year(policies_map)
-- 
2.43.0


From 47d05fffdf39856cbe1947f368ee6a6f06754a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 18/33] fix: the Go FORMAT table held an unused '%z'

The eras store %z as the empty string (format_short).
---
 src/acetimetools/transformer/gotransformer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/acetimetools/transformer/gotransformer.py b/src/acetimetools/transformer/gotransformer.py
index 471128a..f8617d2 100644
--- a/src/acetimetools/transformer/gotransformer.py
+++ b/src/acetimetools/transformer/gotransformer.py
@@ -132,9 +132,7 @@ def _collect_format_strings(zones_map: ZonesMap) -> OffsetMap:
     formats.add('')  # TODO: delete?
     for zone_name, info in zones_map.items():
         for era in info['eras']:
-            format = era['format']
-            format = format.replace('%s', '%')
-            formats.add(format)
+            formats.add(era['format_short'])
 
     # Create a map of format to byte offset
     index = 0
-- 
2.43.0


From 47970c87310aa0775c93093942a7788f6e7b6363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 19/33] fix: the count of notable zones in C, Go and Python
 files was too small

The list that follows is that of merged_notable_zones (which includes the
notes of the policies), as in the Arduino files.
---
 src/acetimetools/generator/cgenerator.py  | 2 +-
 src/acetimetools/generator/gogenerator.py | 2 +-
 src/acetimetools/generator/pygenerator.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index f2ce820..41fa88c 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -432,7 +432,7 @@ extern const AtcZoneInfo k{self.db_namespace}Zone{link_normalized_name}; \
         notable_link_items = render_comments_map(self.notable_links)
 
         num_removed_infos = len(self.removed_zones)
-        num_notable_infos = len(self.notable_zones)
+        num_notable_infos = len(self.merged_notable_zones)
         num_removed_links = len(self.removed_links)
         num_notable_links = len(self.notable_links)
 
diff --git a/src/acetimetools/generator/gogenerator.py b/src/acetimetools/generator/gogenerator.py
index 4f54d3c..2235090 100644
--- a/src/acetimetools/generator/gogenerator.py
+++ b/src/acetimetools/generator/gogenerator.py
@@ -549,7 +549,7 @@ const ZoneInfosData = {zone_infos_data_string}
 {removed_info_items}
 
 // ---------------------------------------------------------------------------
-// Notable zones: {len(self.notable_zones)}
+// Notable zones: {len(self.merged_notable_zones)}
 // ---------------------------------------------------------------------------
 
 {notable_info_items}
diff --git a/src/acetimetools/generator/pygenerator.py b/src/acetimetools/generator/pygenerator.py
index 9d0c708..ec623f6 100644
--- a/src/acetimetools/generator/pygenerator.py
+++ b/src/acetimetools/generator/pygenerator.py
@@ -286,7 +286,7 @@ UNTIL_YEAR_ACCURATE = {self.until_year_accurate}
 {removed_info_items}
 
 # ---------------------------------------------------------------------------
-# Notable zones: {len(self.notable_zones)}
+# Notable zones: {len(self.merged_notable_zones)}
 # ---------------------------------------------------------------------------
 
 {notable_info_items}
-- 
2.43.0


From 455db63388032ba2a38371bf4e5d58a6a2ab6ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:51 +0000
Subject: [PATCH 20/33] fix: the size of the Go policies left out the null
 policy

---
 src/acetimetools/transformer/gotransformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/gotransformer.py b/src/acetimetools/transformer/gotransformer.py
index f8617d2..34ffc10 100644
--- a/src/acetimetools/transformer/gotransformer.py
+++ b/src/acetimetools/transformer/gotransformer.py
@@ -302,7 +302,7 @@ def _generate_memory_map(
     rule_size = num_rules * rule_chunk_size
 
     policy_chunk_size = 4
-    policy_size = num_policies * policy_chunk_size
+    policy_size = (num_policies + 1) * policy_chunk_size  # 1 null policy
 
     era_chunk_size = 14
     era_size = num_eras * era_chunk_size
-- 
2.43.0


From 3a53947ab6e2fed8284511f7947e805096463cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 21/33] fix: years beyond int16 and a 256th letter were written
 into narrower fields

A year above 32767 in a rule, an era or the requested range was written into
an int16 field, and 256 letters into the uint8 count of letters.
---
 src/acetimetools/transformer/artransformer.py | 18 +++++++++++++++---
 src/acetimetools/transformer/transformer.py   |  3 +++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 6ef7ed8..5847744 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -154,6 +154,9 @@ class ArduinoTransformer:
             if len(rules) > 255:
                 raise Exception(f'{policy_name}: too many rules {len(rules)}')
             for rule in rules:
+                if self.time_code_format == 'high':
+                    _check_int16(rule['from_year'], f'{policy_name}: FROM')
+                    _check_int16(rule['to_year'], f'{policy_name}: TO')
                 seconds = rule['at_seconds_truncated']
                 suffix = rule['at_time_suffix']
                 if self.time_code_format == 'low':
@@ -181,6 +184,10 @@ class ArduinoTransformer:
         """Convert the LETTER fields of ZoneRuleRaw into values that are
         consumed by the ZonePolicy classes of the Arduino AceTime library.
         """
+        # The number of letters is a uint8 field of the context record.
+        if len(letters_map) > 255:
+            raise Exception(f'Too many letters {len(letters_map)}')
+
         for policy_name, policy in policies_map.items():
             rules = policy['rules']
             for rule in rules:
@@ -190,9 +197,6 @@ class ArduinoTransformer:
                     letter=letter,
                     indexed_letters=self.letters_map,
                 )
-                if rule['letter_index'] > 255:
-                    raise Exception(
-                        f'Too many letters {len(self.letters_map)}')
 
     def _process_rules_delta(self, policies_map: PoliciesMap) -> None:
         """Convert the delta_seconds extracted from the SAVE field of a RULE
@@ -319,6 +323,8 @@ class ArduinoTransformer:
         for zone_name, info in zones_map.items():
             eras = info['eras']
             for era in eras:
+                if self.time_code_format == 'high':
+                    _check_int16(era['until_year'], f'{zone_name}: UNTIL')
                 seconds = era['until_seconds_truncated']
                 suffix = era['until_time_suffix']
                 if self.time_code_format == 'low':
@@ -501,6 +507,12 @@ def _to_encoded_time_seconds(seconds: int, suffix: str) -> EncodedTime:
         modifier=time_modifier)
 
 
+def _check_int16(value: int, what: str) -> None:
+    """Verify that the value fits in an int16 field."""
+    if value < -32768 or value > 32767:
+        raise Exception(f'{what} {value} does not fit in 2 bytes')
+
+
 def _to_suffix_code(suffix: str) -> int:
     """These fit in the upper 4-bits of an 8-bit integer."""
     if suffix == 'w':
diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 01b0046..231ecfc 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -122,6 +122,9 @@ class Transformer:
         )
 
         # Part 1: Perform sanity checks, and gather some global parameters.
+        for year in (self.start_year, self.until_year):
+            if year < MIN_YEAR or year > MAX_UNTIL_YEAR:
+                raise Exception(f"Year {year} does not fit in 2 bytes")
         if self.generate_tiny_years:
             if not is_year_tiny(self.start_year, self.tiny_base_year):
                 raise Exception(f"Start year {self.start_year} not tiny")
-- 
2.43.0


From c9d8c8a0dc2fb201642d257dea585b8293aace39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:08 +0000
Subject: [PATCH 22/33] fix: the scripts broke on paths with spaces or
 wildcards

The paths were not quoted, so that copytz.sh failed and tzcompiler.sh copied
to, and then deleted, another directory than $PWD/tzfiles.
---
 copytz.sh     |  6 +++---
 tzcompiler.sh | 22 +++++++++++-----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/copytz.sh b/copytz.sh
index 75c5898..b213607 100755
--- a/copytz.sh
+++ b/copytz.sh
@@ -49,11 +49,11 @@ if [[ -e "$dst" ]]; then
 fi
 if [[ "$tag" == '' ]]; then
     echo "+ cp -a $src/ $dst/"
-    cp -a $src/ $dst/
+    cp -a "$src/" "$dst/"
 else
     # Check out TZDB repo at the $tag, unless --skip_checkout flag is given.
     echo "+ git clone --quiet --branch $tag $src $dst"
-    git -c advice.detachedHead=false clone --quiet --branch $tag $src $dst
+    git -c advice.detachedHead=false clone --quiet --branch "$tag" "$src" "$dst"
 fi
 
 # Remove all files other than the zone info files with Rule and Zone entries.
@@ -63,7 +63,7 @@ fi
 # files.
 echo "+ rm -rf $dst/{clutter}"
 shopt -s extglob # in case it isn't enabled by default
-cd $dst
+cd "$dst"
 rm -rf !(\
 africa|\
 antarctica|\
diff --git a/tzcompiler.sh b/tzcompiler.sh
index bc088aa..ca8cee7 100755
--- a/tzcompiler.sh
+++ b/tzcompiler.sh
@@ -19,7 +19,7 @@ set -eu
 shopt -s extglob # needed by copy_tzfiles()
 
 # Can't use $(realpath $(dirname $0)) because realpath doesn't exist on MacOS
-DIRNAME=$(dirname $0)
+DIRNAME=$(dirname "$0")
 
 # Location of the TZDB files after copying them from the source git repo.
 TZFILES=$PWD/tzfiles
@@ -34,7 +34,7 @@ function usage() {
 
 function clean_tzfiles() {
     echo "+ rm -rf $TZFILES"
-    rm -fr $TZFILES
+    rm -fr "$TZFILES"
 }
 
 # Copy the tz git repo at the specified tag. If no tag given, copy the current
@@ -60,11 +60,11 @@ function copy_tzfiles() {
     # Copy or clone the repo, depending on the $tag.
     if [[ "$tag" == '' ]]; then
         echo "+ cp -a $src/ $dst/"
-        cp -a $src/ $dst/
+        cp -a "$src/" "$dst/"
     else
         # Check out TZDB repo at the $tag, unless --skip_checkout flag is given.
         echo "+ git clone --quiet --branch $tag $src $dst"
-        git -c advice.detachedHead=false clone --quiet --branch $tag $src $dst
+        git -c advice.detachedHead=false clone --quiet --branch "$tag" "$src" "$dst"
     fi
 
     # Remove all files other than the zone info files with Rule and Zone
@@ -73,7 +73,7 @@ function copy_tzfiles() {
     # directories. See src/acetimetools/extractor/extractor.py for the master
     # list of zone info files. This requires the 'shopt -s extglob' to be set.
     echo "+ rm -rf $dst/{clutter}"
-    (cd $dst; rm -rf !(\
+    (cd "$dst"; rm -rf !(\
 africa|\
 antarctica|\
 asia|\
@@ -92,11 +92,11 @@ function run_tzcompiler() {
         --input_dir $TZFILES \
         --output_dir $OUTPUT_DIR \
         --tz_version $tz_version \
-        $@
-    $DIRNAME/src/acetimetools/tzcompiler.py \
-        --input_dir $TZFILES \
-        --output_dir $OUTPUT_DIR \
-        --tz_version $tz_version \
+        "$@"
+    "$DIRNAME/src/acetimetools/tzcompiler.py" \
+        --input_dir "$TZFILES" \
+        --output_dir "$OUTPUT_DIR" \
+        --tz_version "$tz_version" \
         "$@"
 }
 
@@ -126,5 +126,5 @@ else
 fi
 
 # Do the actual work.
-copy_tzfiles $tzrepo $TZFILES
+copy_tzfiles "$tzrepo" "$TZFILES"
 run_tzcompiler "$@"
-- 
2.43.0


From b326155301378cb0b0745904cb13002a82bb2b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:06 +0000
Subject: [PATCH 23/33] fix: rules of the wrong month were kept as the latest
 prior and earliest ones

---
 src/acetimetools/transformer/transformer.py | 25 ++++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 231ecfc..35f44a0 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1054,7 +1054,7 @@ class Transformer:
                 if standard_rules:
                     earliest = min(
                         standard_rules,
-                        key=lambda r: (r['from_year'], r['in_month']))
+                        key=lambda r: _rule_date(r, r['from_year']))
                     earliest['truncated'] = 0
 
             # Collect used rules.
@@ -1802,9 +1802,10 @@ def find_latest_prior_rules(
 ) -> List[ZoneRuleRaw]:
     """Find the most recent prior rules before the given year. The RULE.at_time
     field can be a conditional expression such as 'lastSun' or 'Mon>=8', so it's
-    easiest to just compare the (year, month) only. Also, instead of looking for
-    the single Rule that is the most recent, we grab all Rules that fit into the
-    month bucket. There are 2 reasons:
+    easiest to just compare the (year, month) only, where the month is the one
+    of the actual date (e.g. 'Sun>=29' in May can be in June). Also, instead of
+    looking for the single Rule that is the most recent, we grab all Rules that
+    fit into the month bucket. There are 2 reasons:
 
     1) A handful of Zone Policies have multiple Rules in the same month. From
     _remove_rules_multiple_transitions_in_month():
@@ -1828,9 +1829,8 @@ def find_latest_prior_rules(
     candidate_date = (0, 0)  # sentinel date earlier than all real Rules
     for rule in rules:
         rule_year = rule['to_year']
-        rule_month = rule['in_month']
         if rule_year < year:
-            rule_date = (rule_year, rule_month)
+            rule_date = _rule_date(rule, rule_year)[:2]
             if rule_date > candidate_date:
                 candidate_date = rule_date
                 candidates = [rule]
@@ -1839,6 +1839,19 @@ def find_latest_prior_rules(
     return candidates
 
 
+def _rule_date(rule: ZoneRuleRaw, year: int) -> Tuple[int, int, int]:
+    """Return the (year, month, day) of the rule in the given year. An invalid
+    'on_day', which is removed later, counts as the beginning of the month.
+    """
+    month = rule['in_month']
+    try:
+        dow, dom = _parse_on_day_string(rule['on_day'])
+        month, day = calc_day_of_month(year, month, dow, dom)
+    except ValueError:
+        day = 0
+    return (year, month, day)
+
+
 def find_earliest_subsequent_rules(
     rules: List[ZoneRuleRaw],
     year: int,
-- 
2.43.0


From 92f2b36708ce9dc4c6ff019014ba95a6d3224cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 24/33] fix: days that do not exist were accepted or misread

ON and UNTIL days like '45', 'Feb 30' and 'Sun>=0' were written into the
database as they are, 'Sun>=-3' was read as 'Sun<=3', and 'Sun>=32' stopped
scope basic with a ValueError. They are now removed with a reason like other
invalid days.
---
 src/acetimetools/transformer/transformer.py | 34 +++++++++++++++------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 35f44a0..29fec7a 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -515,7 +515,10 @@ class Transformer:
                 # of month because we know the year.
                 (on_day_of_week, on_day_of_month) = \
                     _parse_on_day_string(until_day_string)
-                if (on_day_of_week, on_day_of_month) == (0, 0):
+                days_in_month = _days_in_month(
+                    era['until_year'], era['until_month'])
+                if ((on_day_of_week, on_day_of_month) == (0, 0)
+                        or abs(on_day_of_month) > days_in_month):
                     valid = False
                     add_comment(
                         removed_zones, name,
@@ -1345,7 +1348,10 @@ class Transformer:
                 on_day = rule['on_day']
                 (on_day_of_week, on_day_of_month) = _parse_on_day_string(on_day)
 
-                if (on_day_of_week, on_day_of_month) == (0, 0):
+                # Feb 29 is valid because a rule can apply to a leap year.
+                days_in_month = _days_in_month(2000, rule['in_month'])
+                if ((on_day_of_week, on_day_of_month) == (0, 0)
+                        or abs(on_day_of_month) > days_in_month):
                     valid = False
                     add_comment(
                         removed_policies, name,
@@ -1708,7 +1714,7 @@ def _parse_on_day_string(on_string: str) -> Tuple[int, int]:
 
     """
     if on_string.isdigit():
-        return (0, int(on_string))
+        return (0, _parse_day_of_month(on_string))
 
     if on_string[:4] == 'last':
         dayOfWeek = on_string[4:]
@@ -1719,22 +1725,32 @@ def _parse_on_day_string(on_string: str) -> Tuple[int, int]:
     greater_than_equal_index = on_string.find('>=')
     if greater_than_equal_index >= 0:
         dayOfWeek = on_string[:greater_than_equal_index]
-        dayOfMonth = on_string[greater_than_equal_index + 2:]
-        if dayOfWeek not in WEEK_TO_WEEK_INDEX:
+        dayOfMonth = _parse_day_of_month(
+            on_string[greater_than_equal_index + 2:])
+        if dayOfWeek not in WEEK_TO_WEEK_INDEX or dayOfMonth == 0:
             return (0, 0)
-        return (WEEK_TO_WEEK_INDEX[dayOfWeek], int(dayOfMonth))
+        return (WEEK_TO_WEEK_INDEX[dayOfWeek], dayOfMonth)
 
     less_than_equal_index = on_string.find('<=')
     if less_than_equal_index >= 0:
         dayOfWeek = on_string[:less_than_equal_index]
-        dayOfMonth = on_string[less_than_equal_index + 2:]
-        if dayOfWeek not in WEEK_TO_WEEK_INDEX:
+        dayOfMonth = _parse_day_of_month(
+            on_string[less_than_equal_index + 2:])
+        if dayOfWeek not in WEEK_TO_WEEK_INDEX or dayOfMonth == 0:
             return (0, 0)
-        return (WEEK_TO_WEEK_INDEX[dayOfWeek], -int(dayOfMonth))
+        return (WEEK_TO_WEEK_INDEX[dayOfWeek], -dayOfMonth)
 
     return (0, 0)
 
 
+def _parse_day_of_month(day_string: str) -> int:
+    """Return the day of month (1-31), or 0 if it is not valid."""
+    if not (day_string.isascii() and day_string.isdigit()):
+        return 0
+    day = int(day_string)
+    return day if day <= 31 else 0
+
+
 def time_string_to_seconds(time_string: str) -> int:
     """Converts the '[-]hh:mm:ss' string into +/- total seconds from 00:00.
     Returns INVALID_SECONDS if there is a parsing error.
-- 
2.43.0


From 80008ad6e99c5aafa4eb6e3921421acb5080b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 25/33] fix: a FORMAT with a stray '%' was accepted

The '%s' of FORMAT is stored as a single '%', so that another '%' (e.g. 'A%dT')
would be read back as a place for the LETTER.
---
 src/acetimetools/transformer/transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 29fec7a..19dddcc 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -779,6 +779,11 @@ class Transformer:
                 if '%z' in format and format != '%z':
                     raise Exception(f"{zone_name}: invalid FORMAT '{format}'")
 
+                # A '%s' is stored as '%', so any other '%' would be read back
+                # as a place for the LETTER.
+                if format != '%z' and '%' in format.replace('%s', ''):
+                    raise Exception(f"{zone_name}: invalid FORMAT '{format}'")
+
                 # If the RULES column is a '-' or 'hh:mm' (i.e. not a reference
                 # to a policy), then FORMAT probably shouldn't contain a '%s'
                 # because the value of %s is supposed to come from the LETTER
-- 
2.43.0


From 7db85072c99cca2fe0d4508232f8179fccb21e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 26/33] fix: continuation lines outside of a zone were dropped
 silently

They are now counted as invalid Zone lines.
---
 src/acetimetools/extractor/extractor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index 4318a43..27dc707 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -186,10 +186,13 @@ class Extractor:
                 in_zone_mode = True
                 # prev_tag = tag
                 prev_name = zone_name
-            elif tag[0] == '\t' and in_zone_mode:
+            elif tag[0] == '\t':
                 # Collect subsequent lines that begin with a TAB character into
                 # the current 'Zone' entry.
-                _add_item(self.zone_lines, prev_name, line)
+                if in_zone_mode:
+                    _add_item(self.zone_lines, prev_name, line)
+                else:
+                    self.invalid_zone_lines += 1
 
     def _process_rules(self) -> None:
         name: str
-- 
2.43.0


From 201997008c50850bd6575af7ae66a88666892938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 27/33] fix: a Rule line whose TO year is before its FROM year
 was accepted

zic(8) refuses such a line as well.
---
 src/acetimetools/extractor/extractor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index 27dc707..af2406b 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -399,6 +399,8 @@ def _process_rule_line(line: str) -> ZoneRuleRaw:
         to_year = MAX_TO_YEAR
     else:
         to_year = int(to_year_string)
+    if to_year < from_year:
+        raise Exception(f'TO year {to_year} before FROM year {from_year}')
 
     in_month: int = month_to_index(tokens[5])
     on_day: str = tokens[6]
-- 
2.43.0


From 46254823bc7c68bad95b06b915624879b329e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 28/33] fix: an until_year before the start_year was accepted

The database claimed to be accurate for a range of years that does not exist.
---
 src/acetimetools/transformer/transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 19dddcc..30d751a 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -125,6 +125,10 @@ class Transformer:
         for year in (self.start_year, self.until_year):
             if year < MIN_YEAR or year > MAX_UNTIL_YEAR:
                 raise Exception(f"Year {year} does not fit in 2 bytes")
+        if self.start_year > self.until_year:
+            raise Exception(
+                f"Start year {self.start_year} after until year "
+                f"{self.until_year}")
         if self.generate_tiny_years:
             if not is_year_tiny(self.start_year, self.tiny_base_year):
                 raise Exception(f"Start year {self.start_year} not tiny")
-- 
2.43.0


From cfe96179ae969ac3d8c811ea74030bda81c714d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 29/33] fix: TAB lines after a line with an unknown keyword
 were added to the previous zone

---
 src/acetimetools/extractor/extractor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index af2406b..2239530 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -193,6 +193,10 @@ class Extractor:
                     _add_item(self.zone_lines, prev_name, line)
                 else:
                     self.invalid_zone_lines += 1
+            elif not tag[0].isspace():
+                # A line with an unknown keyword (e.g. a misspelled 'Zone')
+                # ends the current 'Zone' entry.
+                in_zone_mode = False
 
     def _process_rules(self) -> None:
         name: str
-- 
2.43.0


From 4f95c6e3dbf0b522a53781ea069baa208774ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 30/33] fix: the first tiny year mixed up the rules of the year
 before with older ones

start_year may be the first year that fits in 8 bits. The rules of the year
before it, which the transformer retains because they can be in force on Jan 1,
then saturate together with the latest prior rule, and the later month wins no
matter which of the two is older.
---
 src/acetimetools/transformer/transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 30d751a..647358f 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -132,6 +132,10 @@ class Transformer:
         if self.generate_tiny_years:
             if not is_year_tiny(self.start_year, self.tiny_base_year):
                 raise Exception(f"Start year {self.start_year} not tiny")
+            # The rules of the year before are needed as well, and they must
+            # not fall together with older ones.
+            if not is_year_tiny(self.start_year - 1, self.tiny_base_year):
+                raise Exception(f"Year before {self.start_year} not tiny")
             if not is_year_tiny(self.until_year, self.tiny_base_year):
                 raise Exception(f"Until year {self.until_year} not tiny")
         _detect_links_to_links(links_map)
-- 
2.43.0


From 9ecb7f37dbc65694a7233e65822cb73db73145b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:37 +0000
Subject: [PATCH 31/33] fix: a standard time rule kept for the anchor only
 could override the rules in force

A policy without a standard time rule in force keeps its earliest one, so that
the anchor rule can take its LETTER. With tiny years, that rule and the latest
prior rules saturate to the same year, and the one in the later month wins even
if it is decades older. The anchor now replaces it.
---
 src/acetimetools/transformer/transformer.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 647358f..0568326 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1063,7 +1063,9 @@ class Transformer:
 
             # Keep the earliest standard time rule if no other one is kept,
             # because the anchor rule takes its LETTER. The policy may have no
-            # other rule before until_year, but its zones are still valid.
+            # other rule before until_year, but its zones are still valid. The
+            # anchor rule replaces it if it is too old.
+            earliest: Optional[ZoneRuleRaw] = None
             used = [rule for rule in rules if rule['truncated'] == 0]
             if not any(_is_standard_time(rule) for rule in used):
                 standard_rules = [r for r in rules if _is_standard_time(r)]
@@ -1071,23 +1073,22 @@ class Transformer:
                     earliest = min(
                         standard_rules,
                         key=lambda r: _rule_date(r, r['from_year']))
-                    earliest['truncated'] = 0
 
             # Collect used rules.
             used_rules: List[ZoneRuleRaw] = []
             lower_truncated = False
             upper_truncated = False
             for rule in rules:
-                if rule['truncated'] == 0:
+                if rule['truncated'] == 0 or rule is earliest:
                     used_rules.append(rule)
-                elif rule['truncated'] < 0:
+                if rule['truncated'] < 0:
                     lower_truncated = True
-                else:
+                elif rule['truncated'] > 0 and rule is not earliest:
                     upper_truncated = True
 
             # Update results.
             removed_count = len(rules) - len(used_rules)
-            if removed_count == 0:
+            if removed_count == 0 and not lower_truncated:
                 results[name] = policy
             elif removed_count < len(rules):
                 policy['rules'] = used_rules
@@ -1416,7 +1417,8 @@ class Transformer:
                 _convert_to_anchor(rules[0])
             else:
                 anchor_rule = _get_anchor_rule(rules)
-                rules.insert(0, anchor_rule)
+                policy['rules'] = [anchor_rule] + [
+                    rule for rule in rules if rule['truncated'] >= 0]
         return policies_map
 
     def _verify_rules_have_anchors(
-- 
2.43.0


From ab1519b5f13cdf5d4a109054c79d65886e9bde13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:11 +0000
Subject: [PATCH 32/33] fix: reject times with underscores or non-ASCII digits

int() accepts them, so '1_0:00' was read as 10:00 instead of being reported as
an invalid time.
---
 src/acetimetools/transformer/transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 0568326..11dac54 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1775,6 +1775,10 @@ def time_string_to_seconds(time_string: str) -> int:
         sign = -1
         time_string = time_string[1:]
 
+    # Python's int() accepts '1_0' and non-ASCII digits, zic(8) does not.
+    if '_' in time_string or not time_string.isascii():
+        return INVALID_SECONDS
+
     try:
         elems = time_string.split(':')
         if len(elems) == 0:
-- 
2.43.0


From a0961712324fc5c94ec29dd713939c50ecfc87eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 33/33] fix: reject years with underscores or non-ASCII digits

int() accepts them, so a malformed FROM, TO or UNTIL such as '1_990' was read
as 1990 instead of being skipped and counted.
---
 src/acetimetools/extractor/extractor.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index 2239530..0d2d0b7 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -395,14 +395,14 @@ def _process_rule_line(line: str) -> ZoneRuleRaw:
     tokens: List[str] = line.split()
 
     # Check for valid year.
-    from_year: int = int(tokens[2])
+    from_year: int = _parse_year(tokens[2])
     to_year_string: str = tokens[3]
     if to_year_string == 'only':
         to_year: int = from_year
     elif to_year_string == 'max':
         to_year = MAX_TO_YEAR
     else:
-        to_year = int(to_year_string)
+        to_year = _parse_year(to_year_string)
     if to_year < from_year:
         raise Exception(f'TO year {to_year} before FROM year {from_year}')
 
@@ -425,6 +425,14 @@ def _process_rule_line(line: str) -> ZoneRuleRaw:
     }
 
 
+def _parse_year(year_string: str) -> int:
+    """Convert the year string to an integer. Python's int() accepts '1_990'
+    and non-ASCII digits, zic(8) does not."""
+    if '_' in year_string or not year_string.isascii():
+        raise ValueError(f"Invalid year '{year_string}'")
+    return int(year_string)
+
+
 def parse_at_time_string(at_string: str) -> Tuple[str, str]:
     """Parses the '2:00s' string into '2:00' and 's'. If there is no suffix,
     returns a '' as the suffix.
@@ -458,7 +466,7 @@ def _process_zone_line(line: str) -> ZoneEraRaw:
 
     # check 'until' year
     if len(tokens) >= 4:
-        until_year: int = int(tokens[3])
+        until_year: int = _parse_year(tokens[3])
     else:
         until_year = MAX_UNTIL_YEAR
 
-- 
2.43.0

