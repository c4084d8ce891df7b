From 22393fd92a2cd2e4153ccb54516d64670680fa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 01/52] fix: reject section identifiers when serializing Fluent
 instead of dropping them

---
 python/moz/l10n/formats/fluent/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 9312a18..0fe8df2 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -140,6 +140,8 @@ def fluent_astify(
     if res_comment:
         body.append(ftl.ResourceComment(res_comment))
     for idx, section in enumerate(resource.sections):
+        if section.id:
+            raise ValueError(f"Unsupported section id: {section.id}")
         section_comment = comment_str(section)
         if (not trim_comments and idx != 0) or section_comment:
             body.append(ftl.GroupComment(section_comment))
-- 
2.43.0


From 28e97ba43d987b8dbea1e4fed193242670ecf51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 02/52] fix: reject section and long entry identifiers when
 serializing gettext instead of dropping them

---
 python/moz/l10n/formats/gettext/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index ca065f2..722b37b 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -60,12 +60,16 @@ def gettext_serialize(
             nplurals = int(pm[1])
 
     for section in resource.sections:
+        if section.id:
+            raise ValueError(f"Unsupported section id: {section.id}")
         if section.comment:
             raise ValueError("Section comments are not supported")
         if section.meta:
             raise ValueError("Section metadata is not supported")
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if len(entry.id) not in (1, 2):
+                    raise ValueError(f"Unsupported entry id: {entry.id}")
                 context = entry.id[1] if len(entry.id) == 2 else None
                 pe = POEntry(msgctxt=context, msgid=entry.id[0])
                 msg = entry.value
-- 
2.43.0


From 642b7befbfa6563f085bd283d1b7f52625c25e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 03/52] fix: reject entry properties in formats without them
 instead of dropping them

---
 python/moz/l10n/formats/android/serialize.py    | 2 ++
 python/moz/l10n/formats/dtd/serialize.py        | 2 ++
 python/moz/l10n/formats/gettext/serialize.py    | 2 ++
 python/moz/l10n/formats/inc/serialize.py        | 2 ++
 python/moz/l10n/formats/ini/serialize.py        | 2 ++
 python/moz/l10n/formats/plain_json/serialize.py | 2 ++
 python/moz/l10n/formats/properties/serialize.py | 2 ++
 python/moz/l10n/formats/webext/serialize.py     | 2 ++
 python/moz/l10n/formats/xliff/serialize.py      | 2 ++
 9 files changed, 18 insertions(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 322ab9a..e5ee9fe 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -102,6 +102,8 @@ def android_serialize(
 
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 if len(entry.id) not in (1, 2):
                     raise ValueError(f"Unsupported entry id: {entry.id or entry}")
                 name = entry.id[0]
diff --git a/python/moz/l10n/formats/dtd/serialize.py b/python/moz/l10n/formats/dtd/serialize.py
index 85dd14e..76df2aa 100644
--- a/python/moz/l10n/formats/dtd/serialize.py
+++ b/python/moz/l10n/formats/dtd/serialize.py
@@ -90,6 +90,8 @@ def dtd_serialize(
         id_prefix = ".".join(section.id) + "." if section.id else ""
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 name = id_prefix + ".".join(entry.id)
                 if not re_name.fullmatch(name):
diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 722b37b..ee0bc68 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -68,6 +68,8 @@ def gettext_serialize(
             raise ValueError("Section metadata is not supported")
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 if len(entry.id) not in (1, 2):
                     raise ValueError(f"Unsupported entry id: {entry.id}")
                 context = entry.id[1] if len(entry.id) == 2 else None
diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index 2d12c58..c025465 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -57,6 +57,8 @@ def inc_serialize(
             raise ValueError(f"Section identifiers not supported: {section.id}")
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 if len(entry.id) != 1:
                     raise ValueError(f"Unsupported identifier: {entry.id}")
diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 6be53ae..531bd4e 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -70,6 +70,8 @@ def ini_serialize(
         at_empty_line = False
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 msg = entry.value
                 if isinstance(msg, str):
diff --git a/python/moz/l10n/formats/plain_json/serialize.py b/python/moz/l10n/formats/plain_json/serialize.py
index b72680f..807d412 100644
--- a/python/moz/l10n/formats/plain_json/serialize.py
+++ b/python/moz/l10n/formats/plain_json/serialize.py
@@ -54,6 +54,8 @@ def plain_json_serialize(
             section_parent = section_parent[part]
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 check(entry.comment, entry.meta)
                 if not entry.id:
                     raise ValueError(f"Unsupported empty identifier in {section.id}")
diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 83a2075..1e1fd99 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -105,6 +105,8 @@ def properties_serialize(
         id_prefix = ".".join(section.id) + "." if section.id else ""
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 key = id_prefix + ".".join(entry.id)
                 key = escape_chars(key, ensure_ascii)
diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 53fb6a0..93aa598 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -59,6 +59,8 @@ def webext_serialize(
         check(section.comment, section.meta)
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Properties are not supported: {entry.id}")
                 check(None, entry.meta)
                 if len(entry.id) != 1:
                     raise ValueError(f"Unsupported entry identifier: {entry.id}")
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 8e08d62..01180ff 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -121,6 +121,8 @@ def xliff_serialize(
                     parent.append(etree.Comment(comment_str))
                 continue
 
+            if entry.properties:
+                raise ValueError(f"Properties are not supported: {entry.id}")
             if len(entry.id) != 1:
                 raise ValueError(f"Unsupported entry id: {entry.id}")
             id = entry.id[0]
-- 
2.43.0


From 34b5704f169f90b48773a1ffe5db7bbdfe82719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 04/52] fix: reject entity comments and metadata when
 serializing Android instead of dropping them

---
 python/moz/l10n/formats/android/serialize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index e5ee9fe..9fb8996 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -94,7 +94,13 @@ def android_serialize(
         if section.id:
             if section.id == ("!ENTITY",):
                 for entry in section.entries:
+                    if entry.comment and not trim_comments:
+                        raise ValueError("Entity comments are not supported")
                     if isinstance(entry, Entry):
+                        if entry.meta or entry.properties:
+                            raise ValueError(
+                                f"Unsupported entity metadata or properties: {entry.id}"
+                            )
                         entities.append(entity_definition(entry))
                 continue
             else:
-- 
2.43.0


From 60ae4260620622c58d403ff576ae04eff2ee7bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 05/52] fix: reject plural variants not matching any gettext
 plural form instead of dropping them

---
 python/moz/l10n/formats/gettext/serialize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index ee0bc68..a4f875f 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -105,6 +105,12 @@ def gettext_serialize(
                         )
                         for keys, pattern in msg.variants.items()
                     )
+                    names = plurals or [str(idx) for idx in range(nplurals)]
+                    for key, _ in variants:
+                        if key not in names[:nplurals]:
+                            raise ValueError(
+                                f"Unsupported plural variant for {entry.id}: {key}"
+                            )
                     pe.msgstr_plural = {
                         idx: next(
                             (
-- 
2.43.0


From d75179e68ad05e9555807e2ca3fd7aaecf382cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 06/52] fix: trim section comments when serializing XLIFF
 without comments

---
 python/moz/l10n/formats/xliff/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 01180ff..c8dfa77 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -109,7 +109,7 @@ def xliff_serialize(
                 assign_metadata(parent, section.meta, trim_comments)
             prev[parent_key] = parent
         indent = 2 * len(section.id)
-        if section.comment:
+        if section.comment and not trim_comments:
             comment = etree.Comment(comment_body(section.comment, indent))
             parent.addprevious(comment)
 
-- 
2.43.0


From a3c66b35c37d15ffb3ccb17b2d3c06fd03ca1d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:42 +0000
Subject: [PATCH 07/52] fix: do not modify the placeholders given to
 webext_parse_message

---
 python/moz/l10n/formats/webext/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index 39ffc8b..d65f008 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -72,6 +72,7 @@ def webext_parse_message(
     )
     pattern: Pattern = []
     declarations: dict[str, Expression] = {}
+    ph_names: dict[str, str] = {}
     pos = 0
     for m in placeholder.finditer(source):
         text = source[pos : m.start()]
@@ -86,8 +87,8 @@ def webext_parse_message(
             ph = ph_data.get(ph_key, None)
             if ph is None:
                 raise ValueError(f"Missing placeholders entry for {ph_key}")
-            elif "_name" in ph:
-                ph_name = ph["_name"]
+            elif ph_key in ph_names:
+                ph_name = ph_names[ph_key]
             else:
                 decl_src = ph["content"]
                 decl_arg_match = pos_arg.fullmatch(decl_src)
@@ -105,7 +106,7 @@ def webext_parse_message(
                 if ph_name[0].isdigit():
                     ph_name = f"_{ph_name}"
                 declarations[ph_name] = decl_value
-                ph["_name"] = ph_name
+                ph_names[ph_key] = ph_name
             exp = Expression(VariableRef(ph_name), attributes={"source": m[0]})
             pattern.append(exp)
         elif m[2]:
-- 
2.43.0


From 72a34179a870d436fc1f7d5f28787887c5d53c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:42 +0000
Subject: [PATCH 08/52] fix: match only MF2 number literals with number_re

---
 python/moz/l10n/formats/mf2/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index d379ace..d875512 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -32,7 +32,7 @@ from ...model import (
 _name_start = r"a-zA-Z_\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u061B\u061D-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFC\U00010000-\U000EFFFF"
 name_re = compile(f"[{_name_start}][{_name_start}0-9-.\xb7\u0300-\u036f\u203f-\u2040]*")
 identifier_re = compile(f"{name_re.pattern}(?::{name_re.pattern})?")
-number_re = compile(r"-?(?:0|(?:[1-9]\d*))(?:.\d+)?(?:[eE][-+]?\d+)?")
+number_re = compile(r"-?(?:0|(?:[1-9][0-9]*))(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?")
 
 
 class MF2ValidationError(ValueError):
-- 
2.43.0


From 3af9d7220cfa3a80ede02e711c741a852e811303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:42 +0000
Subject: [PATCH 09/52] fix: keep empty literals distinct from missing operands
 in MF2

---
 python/moz/l10n/formats/mf2/message_parser.py | 2 +-
 python/moz/l10n/formats/mf2/serialize.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 95b5735..4e08db1 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -264,7 +264,7 @@ class MF2Parser:
             arg_end = self.pos
             ch = self.skip_opt_space()
         if ch == ":":
-            if arg and self.pos == arg_end:
+            if arg is not None and self.pos == arg_end:
                 raise MF2ParseError(self, "Expected space")
             function = self.identifier(1)
             options = self.options()
diff --git a/python/moz/l10n/formats/mf2/serialize.py b/python/moz/l10n/formats/mf2/serialize.py
index 1c90c29..e975ef6 100644
--- a/python/moz/l10n/formats/mf2/serialize.py
+++ b/python/moz/l10n/formats/mf2/serialize.py
@@ -103,10 +103,10 @@ def _quoted_pattern(pattern: Pattern) -> Iterator[str]:
 
 def _expression(expr: Expression) -> Iterator[str]:
     yield "{"
-    if expr.arg:
+    if expr.arg is not None:
         yield _value(expr.arg)
     if expr.function:
-        yield f" :{expr.function}" if expr.arg else f":{expr.function}"
+        yield f" :{expr.function}" if expr.arg is not None else f":{expr.function}"
     yield from _options(expr.options)
     yield from _attributes(expr.attributes)
     yield "}"
-- 
2.43.0


From 091491fdbd059ae5fd8954f0c4ee2f8edbe9c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:42 +0000
Subject: [PATCH 10/52] fix: reject an incomplete escape at the end of an MF2
 message

---
 python/moz/l10n/formats/mf2/message_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 4e08db1..7352b9e 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -242,6 +242,8 @@ class MF2Parser:
             else:
                 text += ch
             self.pos += 1
+        if at_esc:
+            raise MF2ParseError(self, "Incomplete escape")
         return text
 
     def expression_or_markup(self) -> Expression | Markup:
-- 
2.43.0


From a42236de64181f530c324ad7c8859255f82d3288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 11/52] fix: never resolve external entities when detecting the
 format of XML

---
 python/moz/l10n/formats/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/__init__.py b/python/moz/l10n/formats/__init__.py
index f122e48..c24686d 100644
--- a/python/moz/l10n/formats/__init__.py
+++ b/python/moz/l10n/formats/__init__.py
@@ -131,7 +131,10 @@ def detect_format(name: str | None, source: bytes | str | None = None) -> Format
         from lxml.etree import LxmlError, iterparse
 
         bs = source.encode() if isinstance(source, str) else source
-        _, xml_root = next(iterparse(BytesIO(bs), events=("start",)))
+        # Before lxml 6.1, iterparse() would by default load external entities.
+        _, xml_root = next(
+            iterparse(BytesIO(bs), events=("start",), resolve_entities=False)
+        )
         ns = xml_root.nsmap.get(None, None)
         if ns:
             return Format.xliff if ns in xliff_ns else None
-- 
2.43.0


From b4ddce43e73cc1ffc81d5e3e74c29644d446229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 12/52] fix: read the JSON source of moz-l10n compare as UTF-8

---
 python/moz/l10n/bin/compare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index 32fa19c..d97f5d7 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -108,7 +108,7 @@ def cli(
         return included and not excluded
 
     if source.endswith(".json"):
-        with open(source) as f:
+        with open(source, encoding="utf-8") as f:
             source_data: dict[str, Collection[str]] = json.load(f)
         if ext_include or ext_exclude:
             source_data = {k: set(v) for k, v in source_data.items() if ext_filter(k)}
-- 
2.43.0


From f4566bc2a54611290308814e5121d27a6fd9d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:59 +0000
Subject: [PATCH 13/52] fix: Serialize built files completely before opening
 them for writing

---
 python/moz/l10n/bin/build.py      | 8 +++++---
 python/moz/l10n/bin/build_file.py | 7 ++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index 8e76184..43bc078 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -225,9 +225,11 @@ def write_target_file(
 
     msg = f"merge {name}"
     log.info(f"{msg} ({msg_delta:+d})" if msg_delta != 0 else msg)
-    with open(tgt_path, "w", encoding="utf-8") as file:
-        for line in serialize_resource(l10n_res, trim_comments=True):
-            file.write(line)
+    # Serialize everything before opening the file, as that truncates it.
+    content = "".join(serialize_resource(l10n_res, trim_comments=True))
+    data = content.encode("utf-8")
+    with open(tgt_path, "wb") as file:
+        file.write(data)
     return msg_delta, total_count, missing_ids
 
 
diff --git a/python/moz/l10n/bin/build_file.py b/python/moz/l10n/bin/build_file.py
index 48601f9..da65c9a 100644
--- a/python/moz/l10n/bin/build_file.py
+++ b/python/moz/l10n/bin/build_file.py
@@ -71,9 +71,10 @@ def cli(
             from_path = l10n if l10n is not None and exists(l10n) else source
             copyfile(from_path, target)
         elif l10n is None:
-            with open(target, "w", encoding="utf-8") as file:
-                for line in serialize_resource(source_res, trim_comments=True):
-                    file.write(line)
+            content = "".join(serialize_resource(source_res, trim_comments=True))
+            data = content.encode("utf-8")
+            with open(target, "wb") as out:
+                out.write(data)
             total_count = sum(
                 isinstance(entry, Entry)
                 for section in source_res.sections
-- 
2.43.0


From 5da2b9e90033e6bd981d1dc4e1b824ca9609172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 14/52] fix: Serialize migrated resources completely before
 opening them for writing

---
 python/moz/l10n/migrate/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 66bdcd5..887a989 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -154,9 +154,9 @@ class Migrate:
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
                     tgt_path = self.paths.format_target_path(tgt_fmt, locale)
                     if not dry_run:
-                        with open(tgt_path, "w", encoding="utf-8") as file:
-                            for line in serialize_resource(res):
-                                file.write(line)
+                        data = "".join(serialize_resource(res)).encode("utf-8")
+                        with open(tgt_path, "wb") as file:
+                            file.write(data)
                     all_changes[tgt_path] = changed
         return all_changes
 
-- 
2.43.0


From b4a155be24155008a05e03646d0004813ca67d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 15/52] fix: Migrations must not replace unparsable files or
 another path's file

---
 python/moz/l10n/migrate/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 887a989..2e9b92e 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -17,7 +17,7 @@ from __future__ import annotations
 import dataclasses
 from copy import deepcopy
 from logging import getLogger
-from os.path import isdir, isfile, join
+from os.path import exists, isdir, isfile, join
 from typing import Any, Callable, Union
 
 from moz.l10n.formats import Format, detect_format
@@ -127,9 +127,16 @@ class Migrate:
 
             src_res: Resource[Message] | None = None
             for locale in locales:
+                tgt_path, _ = self.paths.target(ref_path, locale=locale)
+                if tgt_path is None:
+                    log.warning(f"No target path for {ref_path} in locale {locale}")
+                    continue
                 ctx = MigrationContext(self.paths, ref_path, locale, self.parse_options)
                 res = ctx.get_resource(ref_path)
                 if res is None:
+                    if exists(tgt_path):
+                        log.warning(f"Not changing unparsable {tgt_path}")
+                        continue
                     if src_res is None:
                         src_res = _get_empty_resource(
                             join(self.paths.ref_root, ref_path)
@@ -152,7 +159,6 @@ class Migrate:
                     nc = len(changed)
                     entries = "1 entry" if nc == 1 else f"{nc} entries"
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
-                    tgt_path = self.paths.format_target_path(tgt_fmt, locale)
                     if not dry_run:
                         data = "".join(serialize_resource(res)).encode("utf-8")
                         with open(tgt_path, "wb") as file:
-- 
2.43.0


From 788f60674bc93213190eeb786253f2d3e1fb93f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:46 +0000
Subject: [PATCH 16/52] fix: quote MF2 patterns that start with bidi marks or
 an empty part before a period

---
 python/moz/l10n/formats/mf2/serialize.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/serialize.py b/python/moz/l10n/formats/mf2/serialize.py
index e975ef6..6dbd0b2 100644
--- a/python/moz/l10n/formats/mf2/serialize.py
+++ b/python/moz/l10n/formats/mf2/serialize.py
@@ -30,7 +30,9 @@ from ...model import (
 )
 from .validate import name_re, number_re
 
-complex_start_re = compile(r"[\t\n\r \u3000]*\.")
+complex_start_re = compile(
+    r"[\t\n\r \u3000\u061c\u200e\u200f\u2066-\u2069]*\."
+)
 literal_esc_re = compile(r"[\\|]")
 text_esc_re = compile(r"[\\{}]")
 
@@ -42,17 +44,10 @@ def mf2_serialize_message(message: Message) -> str:
     Does not validate the message before serialization;
     for that, use `mf2_validate_message()`.
     """
-    if (
-        isinstance(message, PatternMessage)
-        and not message.declarations
-        and (
-            not message.pattern
-            or not isinstance(part0 := message.pattern[0], str)
-            or not complex_start_re.match(part0)
-        )
-    ):
-        # simple message
-        return "".join(mf2_serialize_pattern(message.pattern))
+    if isinstance(message, PatternMessage) and not message.declarations:
+        simple = "".join(mf2_serialize_pattern(message.pattern))
+        if not complex_start_re.match(simple):
+            return simple
 
     res = ""
     for name, expr in message.declarations.items():
-- 
2.43.0


From b621201ce2090ecacb510e35d43ca4d584678bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:26 +0000
Subject: [PATCH 17/52] fix: Escape # and ! at the start of .properties keys,
 which would turn them into comments

---
 python/moz/l10n/formats/properties/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 1e1fd99..2fe8f99 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -111,6 +111,8 @@ def properties_serialize(
                 key = id_prefix + ".".join(entry.id)
                 key = escape_chars(key, ensure_ascii)
                 key = key.translate(special_key_trans)
+                if key.startswith(("#", "!")):
+                    key = "\\" + key
 
                 value: str
                 msg = entry.value
-- 
2.43.0


From 12b0c9a80fd81367fb240dc156d83072fd6a8a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:30 +0000
Subject: [PATCH 18/52] fix: Prefix each line of .properties comments, also
 after carriage returns

---
 python/moz/l10n/formats/properties/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 2fe8f99..778c476 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
-from re import Match, compile
+from re import Match, compile, split
 from typing import Any, Callable, Literal
 
 from ...model import Entry, Message, PatternMessage, Resource
@@ -89,7 +89,7 @@ def properties_serialize(
         if comment:
             if standalone and not at_empty_line:
                 yield "\n"
-            for line in comment.strip("\n").split("\n"):
+            for line in split(r"\r\n|\r|\n", comment.strip("\r\n")):
                 if not line or line.isspace():
                     yield "#\n"
                 else:
-- 
2.43.0


From 98923daa721e01d9605572c2c1cedb6ff6e4516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:08 +0000
Subject: [PATCH 19/52] fix: Comments serialized as .inc must not become
 #define lines

---
 python/moz/l10n/formats/inc/serialize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index c025465..da6c3e2 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -18,6 +18,7 @@ from collections.abc import Iterator
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
+from .parse import re_define
 
 
 def inc_serialize(
@@ -40,8 +41,8 @@ def inc_serialize(
         if meta:
             raise ValueError("Metadata is not supported")
         if comment:
-            for line in comment.strip("\n").split("\n"):
-                if line.startswith("#"):
+            for line in comment.strip("\n").splitlines():
+                if line.startswith("#") and not re_define.fullmatch(line):
                     if not trim_comments or not line.startswith("# "):
                         yield f"{line}\n"
                 elif not trim_comments:
-- 
2.43.0


From 968625a4fe067d0c24a3d32e92c1e71a8526f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:14 +0000
Subject: [PATCH 20/52] fix: Replace all line breaks in serialized .inc values

---
 python/moz/l10n/formats/inc/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index da6c3e2..a288d8e 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -15,6 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
+from re import sub
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
@@ -72,7 +73,7 @@ def inc_serialize(
                     value = "".join(msg.pattern)  # type: ignore[arg-type]
                 else:
                     raise ValueError(f"Unsupported message for {entry.id[0]}: {msg}")
-                value = value.replace("\n", " ")
+                value = sub(r"\r\n|[\n\r\v\f\x1c-\x1e\x85\u2028\u2029]", " ", value)
                 yield f"#define {entry.id[0]} {value}\n"
                 yield "\n"
             else:
-- 
2.43.0


From b358dddba908d01474729a83631077be0997c459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:18 +0000
Subject: [PATCH 21/52] fix: Reject .ini values that would be read as a shorter
 value and a comment

---
 python/moz/l10n/formats/ini/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 531bd4e..586d8ce 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -83,6 +83,8 @@ def ini_serialize(
                 else:
                     raise ValueError(f"Unsupported message for {entry.id}: {msg}")
                 lines = value.rstrip().splitlines()
+                if lines and search(r"^[^;]*\s;", lines[0]):
+                    raise ValueError(f"Unsupported comment in {entry.id}: {value}")
                 yield (
                     f"{id_str(entry.id)}={lines.pop(0) if lines else ''}".rstrip()
                     + "\n"
-- 
2.43.0


From 526ae253c2c3472ba21f9757a0075acd494b1354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:23 +0000
Subject: [PATCH 22/52] fix: Reject .ini identifiers that start a comment

---
 python/moz/l10n/formats/ini/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 586d8ce..dda297c 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -99,6 +99,6 @@ def ini_serialize(
 
 def id_str(id: tuple[str, ...]) -> str:
     name = ".".join(id)
-    if search(r"^\s|[\n:=[\]]|\s$", name):
+    if search(r"^[\s#;]|[\n:=[\]]|\s$", name):
         raise ValueError(f"Unsupported character in identifier: {id}")
     return name
-- 
2.43.0


From c70a3b608b257982cb38ccf796405e76d60122c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 23/52] fix: Do not read .ini options whose name starts with
 rem as comments

---
 python/moz/l10n/formats/ini/parse.py     | 17 ++++++++++++++++-
 python/moz/l10n/formats/ini/serialize.py |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/ini/parse.py b/python/moz/l10n/formats/ini/parse.py
index 7a96ac8..3b50e83 100644
--- a/python/moz/l10n/formats/ini/parse.py
+++ b/python/moz/l10n/formats/ini/parse.py
@@ -16,6 +16,7 @@ from __future__ import annotations
 
 from collections.abc import Generator
 from io import StringIO
+from re import compile
 from typing import TextIO
 
 from iniparse import ini  # type: ignore[import-untyped]
@@ -24,6 +25,20 @@ from ...model import Comment, Entry, Message, PatternMessage, Resource, Section
 from .. import Format
 
 
+class CommentLine(ini.CommentLine):  # type: ignore[misc]
+    # Unlike the base class, does not match options such as `remember = value`
+    regex = compile(
+        r"^(?P<csep>[;#]|[rR][eE][mM](?=\s+[^\s:=]|\s*$))(?P<comment>.*)$"
+    )
+
+
+class INIConfig(ini.INIConfig):  # type: ignore[misc]
+    _line_types = [
+        CommentLine if line_type is ini.CommentLine else line_type
+        for line_type in ini.INIConfig._line_types
+    ]
+
+
 def ini_parse(source: TextIO | str | bytes) -> Resource[Message]:
     """
     Parse an .ini file into a message resource.
@@ -36,7 +51,7 @@ def ini_parse(source: TextIO | str | bytes) -> Resource[Message]:
         file = StringIO(str(source, "utf8"))
     else:
         file = source
-    cfg = ini.INIConfig(file, optionxformvalue=None)
+    cfg = INIConfig(file, optionxformvalue=None)
 
     resource = Resource[Message](Format.ini, [])
     section: Section[Message] | None = None
diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index dda297c..4bb6c4d 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -99,6 +99,6 @@ def ini_serialize(
 
 def id_str(id: tuple[str, ...]) -> str:
     name = ".".join(id)
-    if search(r"^[\s#;]|[\n:=[\]]|\s$", name):
+    if search(r"^(?:[\s#;]|[rR][eE][mM]\s)|[\n:=[\]]|\s$", name):
         raise ValueError(f"Unsupported character in identifier: {id}")
     return name
-- 
2.43.0


From 9431a11fdba1b9003c52200fd06176a6523e4093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:26 +0000
Subject: [PATCH 24/52] fix: Prefix all lines of gettext comments, also those
 polib only recognises when parsing

---
 python/moz/l10n/formats/gettext/serialize.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index a4f875f..79bda1c 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -48,7 +48,7 @@ def gettext_serialize(
 
     pf = POFile(wrapwidth=wrapwidth)
     if not trim_comments and resource.comment and not resource.comment.isspace():
-        pf.header = resource.comment.rstrip() + "\n"
+        pf.header = comment_lines(resource.comment.rstrip()) + "\n"
     pf.metadata = {m.key: m.value for m in resource.meta}
     yield str(pf)
 
@@ -127,7 +127,7 @@ def gettext_serialize(
                         f"Value for {entry.id} is not supported: {entry.value}"
                     )
                 if not trim_comments and entry.comment:
-                    pe.comment = entry.comment.lstrip("\n").rstrip()
+                    pe.comment = comment_lines(entry.comment.lstrip("\n").rstrip())
                 for m in entry.meta:
                     if m.key == "obsolete":
                         pe.obsolete = m.value != "false"
@@ -135,7 +135,7 @@ def gettext_serialize(
                         pe.msgid_plural = m.value
                     elif not trim_comments:
                         if m.key == "translator-comments":
-                            cs = (m.value).lstrip("\n").rstrip()
+                            cs = comment_lines(m.value.lstrip("\n").rstrip())
                             pe.tcomment = f"{pe.tcomment}\n{cs}" if pe.tcomment else cs
                         elif m.key == "reference":
                             pos = m.value.split(":", 1)
@@ -155,3 +155,11 @@ def gettext_serialize(
                 raise ValueError(
                     f"Standalone comments are not supported: {entry.comment}"
                 )
+
+
+def comment_lines(comment: str) -> str:
+    """
+    When parsing, polib considers all of the line boundaries of `str.splitlines()`,
+    while only prefixing comment lines after newlines when serializing.
+    """
+    return "\n".join(comment.splitlines())
-- 
2.43.0


From 66e5db5e809a805ac3b08edd29cc0d06ba2f21d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:31 +0000
Subject: [PATCH 25/52] fix: Escape unterminated comments in DTD values

---
 python/moz/l10n/formats/dtd/serialize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/dtd/serialize.py b/python/moz/l10n/formats/dtd/serialize.py
index 76df2aa..fbf1992 100644
--- a/python/moz/l10n/formats/dtd/serialize.py
+++ b/python/moz/l10n/formats/dtd/serialize.py
@@ -22,6 +22,7 @@ from ...model import Entry, Message, PatternMessage, Resource
 from .parse import name, re_comment
 
 re_name = compile(name, UNICODE)
+re_comment_start = compile(r"<(!\s*--)")
 
 
 def dtd_serialize(
@@ -80,7 +81,8 @@ def dtd_serialize(
         else:
             quoted = value.replace('"', "&quot;")
             quoted = f'"{quoted}"'
-        return re_comment.sub("", quoted)
+        # Avoid joining an unterminated comment with later contents
+        return re_comment_start.sub(r"&lt;\1", re_comment.sub("", quoted))
 
     yield from comment(resource.comment, None, True)
     for meta in resource.meta:
-- 
2.43.0


From 151cb6d156fe2fc68b3483a9f400038491ec2684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:44 +0000
Subject: [PATCH 26/52] fix: Do not wrap Android strings that contain ]]> in a
 CDATA section

---
 python/moz/l10n/formats/android/serialize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 9fb8996..0268bc2 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -289,13 +289,17 @@ def set_plural_message(plurals: etree._Element, msg: SelectMessage) -> None:
 tag_like = compile(r"<.+>")
 
 
+def use_cdata(text: str) -> bool:
+    return tag_like.search(text) is not None and "]]>" not in text
+
+
 def set_pattern_message(
     el: etree._Element, msg: Message | str, allow_cdata: bool
 ) -> None:
     if isinstance(msg, str):
         el.text = escape_part(msg)
         escape_pattern(el)
-        if allow_cdata and tag_like.search(el.text) is not None:
+        if allow_cdata and use_cdata(el.text):
             # The manual wrapper is a workaround for
             # https://bugs.launchpad.net/lxml/+bug/2111509
             el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
@@ -398,7 +402,7 @@ def set_pattern(
         allow_cdata
         and len(el) == 0
         and el.text
-        and tag_like.search(el.text) is not None
+        and use_cdata(el.text)
     ):
         # The manual wrapper is a workaround for
         # https://bugs.launchpad.net/lxml/+bug/2111509
-- 
2.43.0


From 70b0f52f8c80e0d587093b41cafda780845d3a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 27/52] fix: Only serialize Fluent number literals as such

---
 python/moz/l10n/formats/fluent/serialize.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 0fe8df2..aacce93 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -37,6 +37,7 @@ from ...model import (
     VariableRef,
 )
 
+number_re = compile(r"-?[0-9]+(?:\.[0-9]+)?")
 ws_at_start = compile(r"\s+")
 ws_at_end = compile(r"\s+$")
 
@@ -358,13 +359,11 @@ def variant_key(
     key: str | CatchallKey, other: str
 ) -> ftl.NumberLiteral | ftl.Identifier:
     kv = str(key) or other
-    try:
-        float(kv)
+    if number_re.fullmatch(kv):
         return ftl.NumberLiteral(kv)
-    except Exception:
-        if fullmatch(r"[a-zA-Z][\w-]*", kv):
-            return ftl.Identifier(kv)
-        raise ValueError(f"Unsupported variant key: {kv}")
+    if fullmatch(r"[a-zA-Z][\w-]*", kv):
+        return ftl.Identifier(kv)
+    raise ValueError(f"Unsupported variant key: {kv}")
 
 
 def flat_pattern(
@@ -521,11 +520,9 @@ def value(
     decl: dict[str, Expression], val: str | VariableRef, decl_name: str = ""
 ) -> ftl.InlineExpression:
     if isinstance(val, str):
-        try:
-            float(val)
+        if number_re.fullmatch(val):
             return ftl.NumberLiteral(val)
-        except Exception:
-            return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
+        return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
     elif val.name != decl_name and val.name in decl:
         return expression(decl, decl[val.name], val.name)
     else:
-- 
2.43.0


From bc4b62d2c5cc4332324f13c677326ac798956986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:54 +0000
Subject: [PATCH 28/52] fix: Reject names that are not valid Fluent
 identifiers, which would be read as something else

---
 python/moz/l10n/formats/fluent/serialize.py | 27 +++++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index aacce93..766d0bf 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Callable, Iterator
-from re import compile, fullmatch
+from re import ASCII, compile, fullmatch
 from typing import Any, cast
 
 from fluent.syntax import FluentSerializer
@@ -37,6 +37,7 @@ from ...model import (
     VariableRef,
 )
 
+identifier_re = compile(r"[a-zA-Z][\w-]*", ASCII)
 number_re = compile(r"-?[0-9]+(?:\.[0-9]+)?")
 ws_at_start = compile(r"\s+")
 ws_at_end = compile(r"\s+$")
@@ -207,7 +208,7 @@ def fluent_astify_entry(
     )
     attributes = list(
         ftl.Attribute(
-            ftl.Identifier(key),
+            identifier(key),
             fluent_astify_message(val, escape_empty=True, escape_syntax=escape_syntax),
         )
         for key, val in entry.properties.items()
@@ -224,13 +225,13 @@ def fluent_astify_entry(
         c_str = comment_str(entry)
     comment = ftl.Comment(c_str) if c_str else None
     if is_term:
-        return ftl.Term(ftl.Identifier(id[1:]), value, attributes, comment)
+        return ftl.Term(identifier(id[1:]), value, attributes, comment)
     else:
         if pattern_is_empty(value):
             value_ = None if attributes else valid_empty_pattern(value)
         else:
             value_ = value
-        return ftl.Message(ftl.Identifier(id), value_, attributes, comment)
+        return ftl.Message(identifier(id), value_, attributes, comment)
 
 
 def fluent_serialize_message(
@@ -361,7 +362,7 @@ def variant_key(
     kv = str(key) or other
     if number_re.fullmatch(kv):
         return ftl.NumberLiteral(kv)
-    if fullmatch(r"[a-zA-Z][\w-]*", kv):
+    if identifier_re.fullmatch(kv):
         return ftl.Identifier(kv)
     raise ValueError(f"Unsupported variant key: {kv}")
 
@@ -457,7 +458,7 @@ def function_ref(
     for name, val in expr.options.items():
         ftl_val = value(decl, val)
         if isinstance(ftl_val, ftl.Literal):
-            named.append(ftl.NamedArgument(ftl.Identifier(name), ftl_val))
+            named.append(ftl.NamedArgument(identifier(name), ftl_val))
         else:
             raise ValueError(
                 f"Fluent option value must be literal for {name}: {ftl_val}"
@@ -490,7 +491,9 @@ def function_ref(
             raise ValueError(
                 "Message and term references must have a literal message identifier"
             )
-        match = fullmatch(r"(-?[a-zA-Z][\w-]*)(?:\.([a-zA-Z][\w-]*))?", arg.value)
+        match = fullmatch(
+            r"(-?[a-zA-Z][\w-]*)(?:\.([a-zA-Z][\w-]*))?", arg.value, ASCII
+        )
         if not match:
             raise ValueError(f"Invalid message or term identifier: {arg.value}")
         msg_id = match[1]
@@ -507,6 +510,8 @@ def function_ref(
     if not ftl_name or not isinstance(ftl_name, str):
         raise ValueError(f"A @fluent-fn attribute is required for :{function}")
 
+    if not fullmatch(r"[A-Z][A-Z0-9_-]*", ftl_name):
+        raise ValueError(f"Unsupported Fluent function name: {ftl_name}")
     args = ftl.CallArguments([arg] if arg else None, named)
     return ftl.FunctionReference(ftl.Identifier(ftl_name), args)
 
@@ -526,4 +531,10 @@ def value(
     elif val.name != decl_name and val.name in decl:
         return expression(decl, decl[val.name], val.name)
     else:
-        return ftl.VariableReference(ftl.Identifier(val.name))
+        return ftl.VariableReference(identifier(val.name))
+
+
+def identifier(name: str) -> ftl.Identifier:
+    if not identifier_re.fullmatch(name):
+        raise ValueError(f"Unsupported Fluent identifier: {name}")
+    return ftl.Identifier(name)
-- 
2.43.0


From dd6d56071803fcb2aaed6c414eb7b8177baf6c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:09 +0000
Subject: [PATCH 29/52] fix: Escape non-BMP characters in ASCII .properties
 files as surrogate pairs

---
 python/moz/l10n/formats/properties/parse.py     | 10 ++++++++--
 python/moz/l10n/formats/properties/serialize.py |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 10f5881..f07473b 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -30,12 +30,18 @@ class LineKind(Enum):
     VALUE = 3
 
 
-esc_re = compile("\\\\(u[0-9A-Fa-f]{1,4}|.)")
+esc_re = compile(
+    r"\\(u[Dd][89ABab][0-9A-Fa-f]{2}\\u[Dd][C-Fc-f][0-9A-Fa-f]{2}"
+    r"|u[0-9A-Fa-f]{1,4}|.)"
+)
 
 
 def esc_parse(match: Match[str]) -> str:
     esc = match.group(1)
-    if len(esc) > 1 and esc[0] == "u":
+    if len(esc) > 5:
+        # UTF-16 surrogate pair
+        return bytes.fromhex(esc[1:5] + esc[7:]).decode("utf-16-be")
+    elif len(esc) > 1 and esc[0] == "u":
         n = int(esc[1:], 16)
         return chr(n)
     elif esc == "t":
diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 778c476..a0b2c7d 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -37,7 +37,9 @@ def encode_char(m: Match[str]) -> str:
         return r"\f"
     elif ch == "\r":
         return r"\r"
-    return f"\\u{ord(ch):04x}"
+    # Characters outside the BMP are escaped as UTF-16 surrogate pairs
+    utf16 = ch.encode("utf-16-be", "surrogatepass").hex()
+    return "".join(f"\\u{utf16[i : i + 4]}" for i in range(0, len(utf16), 4))
 
 
 def escape_chars(value: str, ensure_ascii: bool) -> str:
-- 
2.43.0


From a0e7d6c0c29479e1b5ae3b24468575ab83e4c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:52 +0000
Subject: [PATCH 30/52] fix: Reject webext messages with a literal $ that would
 change or break a placeholder

---
 python/moz/l10n/formats/webext/serialize.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 93aa598..feca366 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -27,6 +27,7 @@ from ...model import (
     Resource,
     VariableRef,
 )
+from .parse import placeholder
 
 
 def webext_serialize(
@@ -104,7 +105,9 @@ def webext_serialize_message(
         raise ValueError(f"Unsupported message: {msg}")
     msgstr = ""
     placeholders: dict[str, Any] = {}
+    spans: list[tuple[int, int]] = []
     for part in msg.pattern:
+        start = len(msgstr)
         if isinstance(part, str):
             msgstr += sub(r"\$+", r"$\g<0>", part)
         elif (
@@ -155,4 +158,9 @@ def webext_serialize_message(
                 msgstr += arg_name if arg_name.startswith("$") else f"${arg_name}"
         else:
             raise ValueError(f"Unsupported message part: {part}")
+        if not isinstance(part, str) and placeholder.fullmatch(msgstr, start):
+            spans.append((start, len(msgstr)))
+    # A $ next to a placeholder may make it be read as something else
+    if spans != [m.span() for m in placeholder.finditer(msgstr) if not m[3]]:
+        raise ValueError(f"Unsupported $ next to a placeholder: {msgstr}")
     return msgstr, dict(sorted(placeholders.items()))
-- 
2.43.0


From 7f9c750b1ce08717e8d66c4cca71d7e7a2d57869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:58 +0000
Subject: [PATCH 31/52] fix: Unescape .properties messages parsed with printf
 placeholders

---
 python/moz/l10n/formats/properties/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index f07473b..1e102e7 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -157,7 +157,7 @@ def properties_parse_message(
     if kind != LineKind.VALUE or not all(kind == LineKind.EMPTY for kind, _, _ in rest):
         raise ValueError("Source is not a .properties value")
     if printf_placeholders:
-        return PatternMessage(list(parse_printf_pattern(source)))
+        return PatternMessage(list(parse_printf_pattern(value)))
     return PatternMessage([value])
 
 
-- 
2.43.0


From b558cc4cc6ce14d8982b5a674a6006f99d3be194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:11 +0000
Subject: [PATCH 32/52] fix: Escape all control characters in Android strings

---
 python/moz/l10n/formats/android/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 0268bc2..5c7dcd2 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -425,7 +425,7 @@ android_escape = str.maketrans(
 )
 
 # Control codes are not valid in XML, and nonstandard whitespace needs escaping
-control_chars = compile(r"[\x00-\x19\x7F-\x9F]|[^\S ]|(?<= ) ")
+control_chars = compile(r"[\x00-\x1F\x7F-\x9F]|[^\S ]|(?<= ) ")
 
 
 def escape_char(ch: str) -> str:
-- 
2.43.0


From b77c400a754e0e4c492045d3f4626a55ca39519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 33/52] fix: Reject .inc entry identifiers that are not names

---
 python/moz/l10n/formats/inc/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index a288d8e..9df9187 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
-from re import sub
+from re import fullmatch, sub
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
@@ -62,7 +62,7 @@ def inc_serialize(
                 if entry.properties:
                     raise ValueError(f"Properties are not supported: {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
-                if len(entry.id) != 1:
+                if len(entry.id) != 1 or not fullmatch(r"\w+", entry.id[0]):
                     raise ValueError(f"Unsupported identifier: {entry.id}")
                 msg = entry.value
                 if isinstance(msg, str):
-- 
2.43.0


From f8da79056bd122d96cc80a936ec2f2d29ebae2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 34/52] fix: Reject DTD include names that are not names

---
 python/moz/l10n/formats/dtd/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/dtd/serialize.py b/python/moz/l10n/formats/dtd/serialize.py
index fbf1992..9b7aaaa 100644
--- a/python/moz/l10n/formats/dtd/serialize.py
+++ b/python/moz/l10n/formats/dtd/serialize.py
@@ -86,6 +86,8 @@ def dtd_serialize(
 
     yield from comment(resource.comment, None, True)
     for meta in resource.meta:
+        if not re_name.fullmatch(meta.key):
+            raise ValueError(f"Unsupported DTD name: {meta.key}")
         yield f"<!ENTITY % {meta.key} SYSTEM {quote(meta.value)}>\n%{meta.key};\n"
     for section in resource.sections:
         yield from comment(section.comment, section.meta, True)
-- 
2.43.0


From 8fdc397c8a2d85b9bb5505c4d2d16b566f8c8877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 35/52] fix: Reject empty .ini section and entry identifiers

---
 python/moz/l10n/formats/ini/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 4bb6c4d..de535c7 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -99,6 +99,6 @@ def ini_serialize(
 
 def id_str(id: tuple[str, ...]) -> str:
     name = ".".join(id)
-    if search(r"^(?:[\s#;]|[rR][eE][mM]\s)|[\n:=[\]]|\s$", name):
+    if not name or search(r"^(?:[\s#;]|[rR][eE][mM]\s)|[\n:=[\]]|\s$", name):
         raise ValueError(f"Unsupported character in identifier: {id}")
     return name
-- 
2.43.0


From d429ca4dd5782e08a29ecc127c4d2a0a76b61e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 36/52] fix: Escape backslashes in JSON entry identifiers

---
 python/moz/l10n/message/from_json.py | 9 ++++++---
 python/moz/l10n/message/to_json.py   | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index a19bb63..762af84 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Mapping
-from re import split
+from re import findall, sub
 from typing import Any, Literal
 
 from ..model import (
@@ -39,8 +39,11 @@ def entry_from_json(key: str, json: dict[str, Any]) -> Entry[Message]:
 
     May raise `MF2ValidationError`.
     """
-    if r"\." in key:
-        id = tuple(str(part).replace(r"\.", ".") for part in split(r"(?<!\\)\.", key))
+    if "\\" in key:
+        id = tuple(
+            sub(r"\\([.\\])", r"\1", part)
+            for part in findall(r"(?:^|\.)((?:\\[.\\]|[^.])*)", key)
+        )
     else:
         id = tuple(key.split("."))
     meta = [Metadata(key, value) for key, value in json["@"]] if "@" in json else []
diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index 257de8a..d56d0c1 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -35,7 +35,9 @@ def entry_to_json(entry: Entry[Message]) -> tuple[str, dict[str, Any]]:
     Returns the stringified entry id and a JSON object.
     The JSON Schema of the output is provided as [entry.json](../../../../schemas/entry.json).
     """
-    id = ".".join(part.replace(".", r"\.") for part in entry.id)
+    id = ".".join(
+        part.replace("\\", r"\\").replace(".", r"\.") for part in entry.id
+    )
     json: dict[str, Any] = {}
     if entry.meta:
         json["@"] = list([m.key, m.value] for m in entry.meta)
-- 
2.43.0


From 4878f55c1e79e327802a4f2c13a1e5c950941788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 37/52] fix: Retain declarations of entries with an empty
 pattern in JSON

---
 python/moz/l10n/message/to_json.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index d56d0c1..c14fd85 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -47,6 +47,7 @@ def entry_to_json(entry: Entry[Message]) -> tuple[str, dict[str, Any]]:
         not entry.properties
         or not isinstance(entry.value, PatternMessage)
         or entry.value.pattern
+        or entry.value.declarations
     ):
         json["="] = message_to_json(entry.value)
     if entry.properties:
-- 
2.43.0


From 6212820aede811059c861bf2ebda1656e0f8bb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 38/52] fix: Escape line breaks other than \n and blank-line
 spaces in Fluent patterns

---
 python/moz/l10n/formats/fluent/serialize.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 766d0bf..44f1bfc 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -417,7 +417,9 @@ def valid_empty_pattern(pattern: ftl.Pattern) -> ftl.Pattern:
     return ftl.Pattern([ftl.Placeable(value({}, empty_text))])
 
 
-not_text = compile(r"[{}]+|\n *[*.[]")
+not_text = compile(
+    r"[{}]+|[\r\v\f\x1c-\x1e\x85\u2028\u2029]+|(?<=\n) +(?=\n)|\n *([*.[])"
+)
 
 
 def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeable]:
@@ -426,12 +428,11 @@ def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeab
     elements: list[ftl.TextElement | ftl.Placeable] = []
     idx = 0
     for m in not_text.finditer(source):
-        start = m.start()
-        esc = m[0].lstrip()
-        start += len(m[0]) - len(esc)
+        esc = m[1] or m[0]
+        start = m.end() - len(esc)
         if start > idx:
             elements.append(ftl.TextElement(source[idx:start]))
-        elements.append(ftl.Placeable(ftl.StringLiteral(esc)))
+        elements.append(ftl.Placeable(value({}, esc)))
         idx = m.end()
     if idx < len(source):
         elements.append(ftl.TextElement(source[idx:]))
@@ -516,8 +517,12 @@ def function_ref(
     return ftl.FunctionReference(ftl.Identifier(ftl_name), args)
 
 
-# Non-printable ASCII C0 & C1 / Unicode Cc characters
-esc_cc = {n: f"\\u{n:04X}" for r in (range(0, 32), range(127, 160)) for n in r}
+# Non-printable ASCII C0 & C1 / Unicode Cc characters, and line & paragraph separators
+esc_cc = {
+    n: f"\\u{n:04X}"
+    for r in (range(0, 32), range(127, 160), range(0x2028, 0x202A))
+    for n in r
+}
 esc_bs = compile(r'([\\"])')
 
 
-- 
2.43.0


From a9dfca28000d28a7b3a3c73b0ca5e530fad52646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 39/52] fix: Split JSON entry identifiers with an unambiguous
 pattern

---
 python/moz/l10n/message/from_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index 762af84..73d9948 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -42,7 +42,7 @@ def entry_from_json(key: str, json: dict[str, Any]) -> Entry[Message]:
     if "\\" in key:
         id = tuple(
             sub(r"\\([.\\])", r"\1", part)
-            for part in findall(r"(?:^|\.)((?:\\[.\\]|[^.])*)", key)
+            for part in findall(r"(?:^|\.)((?:\\[\s\S]|[^.\\])*\\?)", key)
         )
     else:
         id = tuple(key.split("."))
-- 
2.43.0


From 69f8e8488a166f8bea2c3db81fb285d178f30049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 40/52] fix: Reject lists and functions of the wrong type in
 MF2 JSON, with MF2ValidationError

---
 python/moz/l10n/formats/mf2/from_json.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/from_json.py b/python/moz/l10n/formats/mf2/from_json.py
index 654484b..b9ce705 100644
--- a/python/moz/l10n/formats/mf2/from_json.py
+++ b/python/moz/l10n/formats/mf2/from_json.py
@@ -42,7 +42,7 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             raise MF2ValidationError(f"Invalid JSON message: {json}")
 
         declarations: dict[str, Expression] = {}
-        for decl in json["declarations"]:
+        for decl in _list(json["declarations"]):
             decl_type = decl["type"]
             if decl_type not in {"input", "local"}:
                 raise MF2ValidationError(f"Invalid JSON declaration type: {decl}")
@@ -63,13 +63,13 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             return PatternMessage(pattern, declarations)
 
         assert msg_type == "select"
-        selectors = tuple(_variable(sel) for sel in json["selectors"])
+        selectors = tuple(_variable(sel) for sel in _list(json["selectors"]))
         variants = {
-            tuple(_key(key) for key in vari["keys"]): _pattern(vari["value"])
-            for vari in json["variants"]
+            tuple(_key(key) for key in _list(vari["keys"])): _pattern(vari["value"])
+            for vari in _list(json["variants"])
         }
         return SelectMessage(declarations, selectors, variants)
-    except (IndexError, KeyError, TypeError) as err:
+    except (AttributeError, IndexError, KeyError, TypeError) as err:
         raise MF2ValidationError(f"Invalid JSON: {err!r}")
 
 
@@ -80,7 +80,7 @@ def _pattern(json: list[Any]) -> Pattern:
         else _markup(part)
         if part["type"] == "markup"
         else _expression(part)
-        for part in json
+        for part in _list(json)
     ]
 
 
@@ -88,8 +88,8 @@ def _expression(json: dict[str, Any]) -> Expression:
     if json["type"] != "expression":
         raise MF2ValidationError(f"Invalid JSON expression type: {json}")
     arg = _value(json["arg"]) if "arg" in json else None
-    json_func = json.get("function", None)
-    if json_func:
+    if "function" in json:
+        json_func = json["function"]
         if json_func["type"] != "function":
             raise MF2ValidationError(f"Invalid JSON function type: {json_func}")
         function = _string(json_func, "name")
@@ -154,6 +154,12 @@ def _variable(json: dict[str, Any]) -> VariableRef:
     return VariableRef(_string(json, "name"))
 
 
+def _list(json: list[Any]) -> list[Any]:
+    if not isinstance(json, (list, tuple)):
+        raise MF2ValidationError(f"Expected a list: {json}")
+    return json
+
+
 def _string(obj: dict[str, Any], key: str | None = None) -> str:
     value = obj if key is None else obj.get(key, None)
     if isinstance(value, str):
-- 
2.43.0


From eba413b0fb56ba6ccfde4b22e94ba4b43a3135b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:32 +0000
Subject: [PATCH 41/52] fix: Reject duplicate variants in MF2 JSON

---
 python/moz/l10n/formats/mf2/from_json.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/from_json.py b/python/moz/l10n/formats/mf2/from_json.py
index b9ce705..3cc52d4 100644
--- a/python/moz/l10n/formats/mf2/from_json.py
+++ b/python/moz/l10n/formats/mf2/from_json.py
@@ -64,10 +64,12 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
 
         assert msg_type == "select"
         selectors = tuple(_variable(sel) for sel in _list(json["selectors"]))
-        variants = {
-            tuple(_key(key) for key in _list(vari["keys"])): _pattern(vari["value"])
-            for vari in _list(json["variants"])
-        }
+        variants: dict[tuple[str | CatchallKey, ...], Pattern] = {}
+        for vari in _list(json["variants"]):
+            keys = tuple(_key(key) for key in _list(vari["keys"]))
+            if keys in variants:
+                raise MF2ValidationError(f"Duplicate JSON variant: {vari}")
+            variants[keys] = _pattern(vari["value"])
         return SelectMessage(declarations, selectors, variants)
     except (AttributeError, IndexError, KeyError, TypeError) as err:
         raise MF2ValidationError(f"Invalid JSON: {err!r}")
-- 
2.43.0


From dded1d1aae7b5b3f635d1496292b6e827123c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 42/52] fix: Raise MF2ValidationError for malformed JSON
 messages and entries, as documented

---
 python/moz/l10n/message/from_json.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index 73d9948..37b9b2b 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -18,6 +18,7 @@ from collections.abc import Mapping
 from re import findall, sub
 from typing import Any, Literal
 
+from ..formats.mf2.validate import MF2ValidationError
 from ..model import (
     CatchallKey,
     Entry,
@@ -39,6 +40,13 @@ def entry_from_json(key: str, json: dict[str, Any]) -> Entry[Message]:
 
     May raise `MF2ValidationError`.
     """
+    try:
+        return _entry(key, json)
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError) as err:
+        raise MF2ValidationError(f"Invalid JSON entry: {err!r}")
+
+
+def _entry(key: str, json: dict[str, Any]) -> Entry[Message]:
     if "\\" in key:
         id = tuple(
             sub(r"\\([.\\])", r"\1", part)
@@ -52,8 +60,8 @@ def entry_from_json(key: str, json: dict[str, Any]) -> Entry[Message]:
         id=id,
         meta=meta,
         comment=json.get("#", ""),
-        value=message_from_json(json["="]) if "=" in json else PatternMessage([]),
-        properties={key: message_from_json(value) for key, value in json["+"].items()}
+        value=_message(json["="]) if "=" in json else PatternMessage([]),
+        properties={key: _message(value) for key, value in json["+"].items()}
         if "+" in json
         else {},
     )
@@ -66,6 +74,13 @@ def message_from_json(json: list[Any] | dict[str, Any]) -> Message:
 
     May raise `MF2ValidationError`.
     """
+    try:
+        return _message(json)
+    except (AttributeError, IndexError, KeyError, TypeError, ValueError) as err:
+        raise MF2ValidationError(f"Invalid JSON message: {err!r}")
+
+
+def _message(json: list[Any] | dict[str, Any]) -> Message:
     if isinstance(json, Mapping) and "sel" in json:
         return SelectMessage(
             declarations={
-- 
2.43.0


From 003d3d275d9ae4d1a854bc5bb585f5bb6bd29abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 43/52] fix: List missing messages in source order in moz-l10n
 compare

---
 python/moz/l10n/bin/compare.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index d97f5d7..22649f3 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -111,7 +111,9 @@ def cli(
         with open(source, encoding="utf-8") as f:
             source_data: dict[str, Collection[str]] = json.load(f)
         if ext_include or ext_exclude:
-            source_data = {k: set(v) for k, v in source_data.items() if ext_filter(k)}
+            source_data = {
+                k: dict.fromkeys(v) for k, v in source_data.items() if ext_filter(k)
+            }
     else:
         source_paths: L10nConfigPaths | L10nDiscoverPaths = (
             L10nConfigPaths(source)
@@ -192,12 +194,12 @@ def compare(
 
 def msg_ids(path: str) -> Collection[str]:
     res = parse_resource(path)
-    return {
+    return dict.fromkeys(
         ".".join(section.id + entry.id)
         for section in res.sections
         for entry in section.entries
         if isinstance(entry, Entry)
-    }
+    )
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 13613d2458e45a02ef9d5d4ba395ad61acd960b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 44/52] fix: Build locales in a fixed order

---
 python/moz/l10n/bin/build.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index 43bc078..6f8dfac 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -107,7 +107,9 @@ def cli(
             source = parse_resource(source_path)
         except UnsupportedFormat:
             source = None
-        for locale in locales.intersection(path_locales) if path_locales else locales:
+        for locale in sorted(
+            locales.intersection(path_locales) if path_locales else locales
+        ):
             l10n_path = paths.format_target_path(l10n_path_template, locale)
             rel_path = relpath(l10n_path, base)
             tgt_path = join(target, rel_path)
-- 
2.43.0


From c0b8eab4b3315a92167a523b0efde0aab8ae81cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 45/52] fix: Keep forced paths in a fixed order

---
 python/moz/l10n/paths/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index d639850..1c9f7d1 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -175,7 +175,7 @@ class L10nConfigPaths:
                         path for path in fp if ref_re.fullmatch(path.replace(sep, "/"))
                     }
                     if fp_match:
-                        for path in fp_match:
+                        for path in sorted(fp_match):
                             self._path_data[path][get_target(path)] = locales
                         fp -= fp_match
             else:
-- 
2.43.0


From 420659e579c1bbdcff8ef7dad4632e6ca1534cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 46/52] fix: Migrate locales in a fixed order

---
 python/moz/l10n/migrate/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 2e9b92e..6c2cb04 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -126,7 +126,7 @@ class Migrate:
                 raise ValueError(f"Invalid reference path: {ref_path}")
 
             src_res: Resource[Message] | None = None
-            for locale in locales:
+            for locale in sorted(locales):
                 tgt_path, _ = self.paths.target(ref_path, locale=locale)
                 if tgt_path is None:
                     log.warning(f"No target path for {ref_path} in locale {locale}")
-- 
2.43.0


From 70b3acc6665038a3ddd310d98feff4afe946e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 47/52] fix: Reject empty variant keys in Fluent instead of
 writing them as the default one

---
 python/moz/l10n/formats/fluent/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 44f1bfc..8658dd4 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -359,7 +359,7 @@ def fallback_name(message: SelectMessage) -> str:
 def variant_key(
     key: str | CatchallKey, other: str
 ) -> ftl.NumberLiteral | ftl.Identifier:
-    kv = str(key) or other
+    kv = key if isinstance(key, str) else key.value or other
     if number_re.fullmatch(kv):
         return ftl.NumberLiteral(kv)
     if identifier_re.fullmatch(kv):
-- 
2.43.0


From 126f604a3a9f693005b6cb6bc37e32f3152ddd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 48/52] fix: Ignore the order of sections that share an
 identifier in l10n_equal()

---
 python/moz/l10n/resource/l10n_equal.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/resource/l10n_equal.py b/python/moz/l10n/resource/l10n_equal.py
index 0a57878..6b932c1 100644
--- a/python/moz/l10n/resource/l10n_equal.py
+++ b/python/moz/l10n/resource/l10n_equal.py
@@ -42,7 +42,14 @@ def l10n_sections(resource: Resource[Any]) -> list[tuple[Any, ...]]:
         for section in resource.sections
         if any(isinstance(entry, Entry) for entry in section.entries)
     ]
-    ls.sort(key=lambda s: s[0])
+    ls.sort(
+        key=lambda s: (
+            s[0],
+            s[1],
+            sorted((key, sorted(values)) for key, values in s[2].items()),
+            [e[0] for e in s[3]],
+        )
+    )
     nonempty_idx = next(
         (idx for idx, (id, comment, meta, _) in enumerate(ls) if id or comment or meta),
         len(ls),
-- 
2.43.0


From d09df261160798be392dcbf72f83d2b35653c957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 49/52] fix: Write empty variants of Fluent select expressions
 as { "" }

---
 python/moz/l10n/formats/fluent/serialize.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 8658dd4..734130a 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -309,6 +309,11 @@ def fluent_astify_message(
         (list(keys), flat_pattern(message.declarations, value, escape_syntax))
         for keys, value in message.variants.items()
     ]
+    # Variants always need a value.
+    variants = [
+        (keys, valid_empty_pattern(pattern) if pattern_is_empty(pattern) else pattern)
+        for keys, pattern in variants
+    ]
 
     other = fallback_name(message)
     keys0 = variants[0][0]
-- 
2.43.0


From dbd680885b4fd3db998747c9d59e1dd9dbdaafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 50/52] fix: Write the comment of an .xcstrings select message

---
 python/moz/l10n/formats/xliff/serialize.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index c8dfa77..8382f5a 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -340,9 +340,9 @@ def add_xcstrings_selectmessage(
     source_entries: bool,
     trim_comments: bool,
 ) -> None:
-    if entry.comment:
-        # TODO
-        pass
+    comment = entry.comment
+    if any(k.split("[")[0] == "note" for m in entry.meta for k in m.key.split("/")):
+        comment = ""
     msg = entry.value
     msg_id = entry.id[0]
 
@@ -365,12 +365,14 @@ def add_xcstrings_selectmessage(
                 base_meta.append(m)
         unit = etree.SubElement(parent, "trans-unit", {"id": msg_id})
         pattern: Pattern = [sel] if "source" in sel.attributes else []
-        add_unit(unit, "", base_meta, pattern, source_entries, trim_comments)
+        add_unit(unit, comment, base_meta, pattern, source_entries, trim_comments)
         for keys, pattern in msg.variants.items():
             key = str(keys[0]) or "other"
             id = f"{msg_id}|==|substitutions.{sub_name}.plural.{key}"
             unit = etree.SubElement(parent, "trans-unit", {"id": id})
-            add_unit(unit, "", sub_meta[key], pattern, source_entries, trim_comments)
+            add_unit(
+                unit, comment, sub_meta[key], pattern, source_entries, trim_comments
+            )
         return
 
     var_type = None
@@ -390,7 +392,7 @@ def add_xcstrings_selectmessage(
             if m_key == key:
                 meta.append(Metadata("/".join(parts), m.value))
         unit = etree.SubElement(parent, "trans-unit", {"id": id})
-        add_unit(unit, "", meta, pattern, source_entries, trim_comments)
+        add_unit(unit, comment, meta, pattern, source_entries, trim_comments)
 
 
 def assign_metadata(
-- 
2.43.0


From 036bbb9d35795d27c551065b04271c10b91b557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 51/52] fix: Never reorder MF2 declarations to be before their
 dependencies

---
 python/moz/l10n/formats/mf2/validate.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index d875512..cc20457 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -15,7 +15,6 @@
 from __future__ import annotations
 
 from collections.abc import Iterable, Mapping
-from functools import cmp_to_key
 from re import compile
 from typing import Literal
 
@@ -106,17 +105,6 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
                     deep_dependencies(dep, res)
         return res
 
-    def cmp_decl_data(a: tuple[str, bool], b: tuple[str, bool]) -> int:
-        a_name, a_input = a
-        b_name, b_input = b
-        if a_name in dependencies[b_name]:
-            return -1
-        if b_name in dependencies[a_name]:
-            return 1
-        if a_input != b_input:
-            return -1 if a_input else 1
-        return -1 if a_name < b_name else 1
-
     if not isinstance(declarations, Mapping):
         raise MF2ValidationError(f"Invalid declarations: {declarations}")
     for name, expr in declarations.items():
@@ -143,10 +131,13 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
         dependencies[name] = deps
 
     if len(declarations) > 1:
-        decl_data.sort(key=cmp_to_key(cmp_decl_data))
-        inserts = [(name, declarations.pop(name)) for name, _ in decl_data[1:]]
-        for name, expr in inserts:
-            declarations[name] = expr
+        # Inputs first and then by name, but always after any dependencies
+        decl_data.sort(key=lambda data: (not data[1], data[0]))
+        remaining = [name for name, _ in decl_data]
+        while remaining:
+            name = next(n for n in remaining if dependencies[n].isdisjoint(remaining))
+            remaining.remove(name)
+            declarations[name] = declarations.pop(name)
 
 
 def _validate_pattern(pattern: Pattern) -> None:
-- 
2.43.0


From 4de060732ae63c5b9dceab0a88bae080c32075d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 52/52] fix: Raise MF2ValidationError for malformed options and
 markup kinds

---
 python/moz/l10n/formats/mf2/validate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index cc20457..bdb6342 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -164,15 +164,16 @@ def _validate_expression(expr: Expression) -> None:
             )
         if expr.options:
             raise MF2ValidationError("Invalid expression with options but no function")
-    elif isinstance(expr.function, str) and identifier_re.fullmatch(expr.function):
-        _validate_options(expr.options)
-    else:
+    elif not isinstance(expr.function, str) or not identifier_re.fullmatch(
+        expr.function
+    ):
         raise MF2ValidationError(f"Invalid function name: {expr.function}")
+    _validate_options(expr.options)
     _validate_attributes(expr.attributes)
 
 
 def _validate_markup(markup: Markup) -> None:
-    if markup.kind not in {"open", "standalone", "close"}:
+    if markup.kind not in ("open", "standalone", "close"):
         raise MF2ValidationError(f"Invalid markup kind: {markup.kind}")
     if not isinstance(markup.name, str) or not identifier_re.fullmatch(markup.name):
         raise MF2ValidationError(f"Invalid markup name: {markup.name}")
-- 
2.43.0

