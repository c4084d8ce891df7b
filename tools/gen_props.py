"""Authoring source of properties.jsonl: run `python3 tools/gen_props.py` after editing."""
import json, os
P = "python/moz/l10n/"
SER = [P + f"formats/{f}/serialize.py" for f in
       ("android", "dtd", "fluent", "gettext", "inc", "ini", "plain_json", "properties", "webext", "xliff")]
PAR = [P + f"formats/{f}/parse.py" for f in
       ("android", "dtd", "fluent", "gettext", "inc", "ini", "plain_json", "properties", "webext", "xliff")]
props = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": anchors})

p("C01", "Trimmed output carries no comments",
  "When a resource is serialized with comment trimming requested, in any format, no resource, section or entry comment "
  "(standalone or attached) appears anywhere in the output; the only exception is the processing directives that .inc files carry as comments. "
  "The localized files written by `l10n-build` and `l10n-build-file` likewise carry no comments from either the source or the translation.",
  ["inputs"], "All resources, all formats, all placements of comments (resource, section, entry, and format-specific per-item comments).",
  "Tests trim a handful of fixture files per format; the claim is over every comment position of every resource, including positions a fixture never fills (e.g. group comments in XLIFF).",
  SER + [P + "resource/serialize_resource.py", P + "bin/build.py", P + "bin/build_file.py"],
  [("trim_comments guards in each serializer", P + "formats/*/serialize.py"), ("trim_comments=True", P + "bin/build.py write_target_file, " + P + "bin/build_file.py")],
  ["serialize_resource(..., trim_comments=True)", "files written by l10n-build"])

p("C02", "Comments are written unless trimming is requested",
  "When a resource is serialized without comment trimming, in a format that has comments, every non-empty resource, section, standalone and entry "
  "comment reaches the output (or serialization raises an error); for JSON formats that cannot hold it, a resource or section comment raises an error.",
  ["inputs"], "All resources and comment placements, for each serializer.",
  "A fixture has comments in fixed places; a drop that depends on the neighbouring content (first entry, empty section, entry following a comment) is not sampled.",
  SER, [("comment emission", P + "formats/*/serialize.py")], ["serialize_resource()"])

p("C03", "Every message of a resource is written or serialization fails",
  "For every section and every entry of a resource, serializing it either writes that entry's identifier and its value to the output or raises an error: "
  "no entry, section, attribute/property message or plural variant is silently skipped, whatever the other contents of the resource.",
  ["inputs"], "All resources, for each of the ten serializers; all positions of the message among the others.",
  "Tests serialize fixed resources; a conditional skip (e.g. for empty values, repeated ids, particular sections) shows only for the input that triggers it.",
  SER, [("entry loop of each serializer", P + "formats/*/serialize.py")], ["serialize_resource()"])

p("C04", "Every part of a message is written or rejected",
  "Serializing a message in any format writes every text segment and every placeholder (variable, literal operand, markup element) of its pattern, in every variant, "
  "or raises an error; a part the format cannot express (select messages in formats without plurals, unknown placeholder kinds) is never silently left out.",
  ["inputs"], "All messages of the data model, for each message format.",
  "The data model is recursive and open; tests exercise some tens of patterns, and each unlisted part kind falls through some branch.",
  SER + [P + "message/serialize.py", P + "formats/mf2/serialize.py"], [("pattern loops", P + "formats/*/serialize.py")], ["serialize_message()", "serialize_resource()"])

p("C05", "Structure a format cannot represent is rejected",
  "A resource with structure its target format cannot represent is rejected with an error rather than written without it: section identifiers or multi-part message "
  "identifiers in flat formats, metadata in formats without metadata, and select messages in formats without plurals or variants.",
  ["inputs"], "All resources, for each (format, unsupported feature) pair.",
  "Tests try one or two such pairs; the guarantee is over the whole format/feature matrix and any position of the offending item.",
  SER, [("ValueError raises", P + "formats/*/serialize.py")], ["serialize_resource()"])

p("C06", "Format dispatch is complete and options reach the format",
  "Every supported format can be parsed and serialized through the generic resource and message functions, each format name is handled by that format's own implementation, "
  "and every option given to the generic functions (comment trimming, escapes, plural categories, placeholders, source entries, ...) reaches that implementation unchanged.",
  ["inputs", "configurations"], "All members of the format enumeration and all keyword options.",
  "Each option needs a format- and option-specific test; defaults usually hide a dropped option.",
  [P + "formats/__init__.py", P + "resource/parse_resource.py", P + "resource/serialize_resource.py", P + "message/parse.py", P + "message/serialize.py"],
  [("if/elif dispatch", P + "resource/parse_resource.py"), ("if/elif dispatch", P + "message/serialize.py")],
  ["parse_resource()", "serialize_resource()", "parse_message()", "serialize_message()"])

p("C07", "Escaping covers every syntax-significant character",
  "Every character that is significant in a format's syntax at the place where a message, key or attribute is written (quotes, backslashes, separators, line breaks, braces, markup, "
  "non-XML control characters) is escaped by that format's serializer, and each escape it writes is decoded by the same format's parser to the same character.",
  ["inputs"], "All characters, for .properties, Android, Fluent, DTD, MessageFormat 2, WebExtensions and entry-id escapes.",
  "Round-trip tests sample a few characters in a few positions.",
  [P + "formats/properties/serialize.py", P + "formats/properties/parse.py", P + "formats/android/serialize.py", P + "formats/android/parse.py",
   P + "formats/fluent/serialize.py", P + "formats/dtd/serialize.py", P + "formats/mf2/serialize.py", P + "formats/mf2/message_parser.py", P + "formats/webext/serialize.py"],
  [("escape regexes and tables", P + "formats/*/serialize.py"), ("unescape regexes and tables", P + "formats/*/parse.py")],
  ["serialize_resource()", "parse_resource()"])

p("C08", "MessageFormat 2 lexical syntax is exactly that of the specification",
  "The MessageFormat 2 parser, serializer and validator accept as name, identifier, unquoted literal and number exactly the character sequences the MF2 grammar allows, "
  "agree with each other on them; the serializer quotes every literal that is not a bare name or number, and never writes a simple message that would be read as a complex one.",
  ["inputs"], "All strings over Unicode.",
  "Grammar conformance is over an infinite language; tests list examples.",
  [P + "formats/mf2/message_parser.py", P + "formats/mf2/serialize.py", P + "formats/mf2/validate.py"],
  [("name_re, number_re", P + "formats/mf2/validate.py"), ("literal quoting", P + "formats/mf2/serialize.py"), ("character classes", P + "formats/mf2/message_parser.py")],
  ["mf2_parse_message()", "mf2_serialize_message()", "mf2_validate_message()"])

p("C09", "JSON data model is written and read losslessly and as its schema says",
  "The JSON written for a message or entry uses only keys and types its published JSON schema declares, carries every part of the message or entry, and every key the schema declares is "
  "read back into the corresponding part; MF2 data model JSON of any other shape raises the documented error rather than being silently misread, and no JSON value makes a reader fail with any other error.",
  ["inputs"], "All messages and entries; all JSON values.",
  "Recursive data model; optional keys multiply; tests hold a few dozen examples.",
  [P + "message/to_json.py", P + "message/from_json.py", P + "formats/mf2/to_json.py", P + "formats/mf2/from_json.py", "schemas/message.json", "schemas/entry.json"],
  [("writers", P + "message/to_json.py"), ("readers", P + "message/from_json.py"), ("schemas", "schemas/*.json")],
  ["message_to_json()", "message_from_json()", "entry_to_json()", "entry_from_json()", "mf2_to_json()", "mf2_from_json()"])

p("C10", "An empty value is not treated as an absent one",
  "An empty string and a missing value are kept apart wherever the data model distinguishes them: an empty literal operand, option value, attribute value or variant key of a message is "
  "written and compared as an empty string, never as if it were absent.",
  ["inputs"], "All messages whose operands, options, attributes or values are empty strings.",
  "Empty operands are rare in fixtures; truthiness tests behave the same for all other values.",
  [P + "formats/mf2/serialize.py", P + "message/to_json.py", P + "message/from_json.py", P + "formats/mf2/to_json.py"],
  [("`is None` tests", P + "formats/mf2/serialize.py")], ["mf2_serialize_message()", "message_to_json()"])

p("C11", "Library functions do not modify their inputs",
  "Parsing, serializing, comparing and converting resources and messages leave every object passed in exactly as it was; only the documented in-place updater of a target resource changes "
  "an argument, and it changes only the target, never the source.",
  ["inputs", "histories"], "All inputs and all sequences of calls sharing inputs.",
  "Tests rarely compare inputs after the call, and mutation may need a particular part kind.",
  SER + PAR + [P + "resource/add_entries.py", P + "resource/l10n_equal.py", P + "message/to_json.py", P + "message/from_json.py", P + "formats/mf2/serialize.py", P + "formats/mf2/validate.py"],
  [("fresh containers", P + "formats/*/*.py")], ["all public parse/serialize/convert functions"])

p("C12", "Results depend only on arguments",
  "The result of a library call depends only on its arguments (and the files it is asked to read): not on earlier calls, environment variables, locale, time, randomness, or hash order; "
  "repeated runs give identical output in identical order.",
  ["histories", "configurations"], "All call histories, all process environments and hash seeds.",
  "A leak shows only across calls in one process or across processes with different hash seeds.",
  [P + "formats", P + "message", P + "resource", P + "paths", P + "migrate", P + "bin"],
  [("no module-level mutable state", P + "**"), ("sorted sets", P + "bin/*.py, " + P + "paths/*.py")], ["all public functions", "command output"])

p("C13", "Files are replaced only after their new content is complete",
  "The commands and the migration runner that rewrite localization files open a file for writing only after its complete new content has been computed, so an error in parsing, "
  "transforming or serializing leaves the existing file untouched.",
  ["fault_sequences", "crash_points", "inputs"], "All failures (unsupported content, invalid messages, user callbacks raising) at any point of producing the content.",
  "Tests do not make serialization fail midway with an existing file in place.",
  [P + "bin/build.py", P + "bin/build_file.py", P + "bin/fix.py", P + "migrate/__init__.py"],
  [("open(..., 'w') after building content", P + "bin/*.py")], ["file contents after an exception"])

p("C14", "Read-only operations never write",
  "Parsing, serializing, linting, comparing, path discovery and a dry run of a migration never create, modify or delete any file or directory.",
  ["inputs", "configurations"], "All inputs and options.",
  "Absence of an effect on every path cannot be sampled.",
  [P + "bin/lint.py", P + "bin/compare.py", P + "migrate/__init__.py", P + "bin/migrate.py", P + "paths", P + "resource", P + "formats"],
  [("dry_run guard", P + "migrate/__init__.py")], ["file system"])

p("C15", "Commands report failure through their exit status",
  "`l10n-lint` exits with a non-zero status whenever any of the requested files has an unsupported format or cannot be parsed, `l10n-fix` whenever any cannot be read, parsed or serialized "
  "(files in unsupported formats are skipped, as documented), `l10n-migrate` whenever a migration script cannot be loaded or its migration cannot be applied, and each of them when its arguments are "
  "contradictory or missing: whatever the outcome for files or migrations handled before or after the failing one.",
  ["inputs", "histories"], "All sequences of per-file outcomes.",
  "Tests try single outcomes; masking of an early failure by a later success needs a specific sequence.",
  [P + "bin/lint.py", P + "bin/fix.py", P + "bin/migrate.py", P + "bin/compare.py"],
  [("result accumulation", P + "bin/*.py"), ("sys.exit", P + "bin/*.py")], ["process exit status"])

p("C16", "Text files are read and written as UTF-8",
  "Every text file the library or its commands read or write as text is decoded and encoded as UTF-8 (or another encoding fixed by the file format) independently of the platform's locale settings.",
  ["configurations"], "All locale settings / platforms.",
  "Tests run under a UTF-8 locale.",
  [P + "bin", P + "migrate", P + "formats", P + "resource", P + "paths"],
  [("encoding='utf-8'", P + "**")], ["file contents"])

p("C17", "XML input is parsed without external or unbounded expansion",
  "Parsing untrusted Android, XLIFF or Xcode XML never loads external entities or DTDs, never uses the network, and does not lift the parser's size limits.",
  ["inputs"], "All XML inputs.",
  "An option change is invisible unless a hostile document is tried.",
  [P + "formats/android/parse.py", P + "formats/xliff/parse.py", P + "formats/xliff/parse_xcode.py", P + "formats/__init__.py"],
  [("etree.XMLParser options", P + "formats/*/parse.py")], ["parse_resource()"])

p("C18", "Everything but Android and XLIFF works without the XML extra",
  "The library imports and handles all formats other than Android and XLIFF when lxml is not installed, and requests for those two formats raise a clear error instead of failing at import.",
  ["configurations"], "All import orders and all entry modules, with and without lxml.",
  "One new import anywhere in the transitive import closure breaks it; tests in the lxml-less environment import only some modules.",
  [P + "resource/parse_resource.py", P + "resource/serialize_resource.py", P + "message/parse.py", P + "message/serialize.py", P + "formats/__init__.py"],
  [("guarded imports", P + "resource/*.py, " + P + "message/*.py")], ["import", "UnsupportedFormat / ValueError"])

p("C19", "No input makes a parser's pattern matching blow up",
  "No regular expression applied to file or message content can take time exponential in the length of its input.",
  ["inputs"], "All input strings.",
  "Catastrophic backtracking needs crafted input.",
  [P + "formats", P + "util", P + "paths", P + "migrate", P + "message"],
  [("regular expressions", P + "**")], ["running time of parse_resource() / parse_message()"])

p("C20", "MF2 conversions fail only with their documented errors",
  "Parsing a MessageFormat 2 string raises only the MF2 parse error (or validation error), and reading MF2 data model JSON or validating a message (also one whose parts have the wrong types) raises only the MF2 validation error, for every input.",
  ["inputs"], "All strings and all JSON values.",
  "The failing input for an unguarded access (index past the end, missing key, wrong type) is specific.",
  [P + "formats/mf2/message_parser.py", P + "formats/mf2/from_json.py", P + "formats/mf2/validate.py"],
  [("try/except conversion", P + "formats/mf2/from_json.py"), ("bounds-checked access", P + "formats/mf2/message_parser.py")],
  ["mf2_parse_message()", "mf2_from_json()", "mf2_validate_message()"])

p("C21", "Parsers never silently discard source content",
  "Every message, comment and attribute a parser recognises in a file ends up in the resulting resource, and content it does not recognise raises an error (or is reported); "
  "no element, entry or comment is silently dropped because of what surrounds it.",
  ["inputs"], "All source files, for each parser.",
  "Drops depend on unusual combinations (duplicate elements, junk between entries, trailing comments).",
  PAR + [P + "formats/xliff/parse_trans_unit.py", P + "formats/xliff/parse_xcode.py"],
  [("element loops", P + "formats/*/parse.py")], ["parse_resource()"])

p("C22", "Resource equality is symmetric and ignores order of entries",
  "Comparing two resources or entries for localization equality gives the same answer when the arguments are exchanged, considers identifiers, comments, metadata, values and properties of both sides alike, "
  "and does not depend on the order of sections or of uniquely named entries.",
  ["inputs"], "All pairs of resources.",
  "Pairs form a product space; tests compare a few.",
  [P + "resource/l10n_equal.py"], [("normalised projection compared on both sides", P + "resource/l10n_equal.py")], ["l10n_equal()"])

p("C23", "Migrations never change or lose existing translations",
  "Applying a migration adds only entries that the target lacks: it never changes, reorders or removes an existing entry, never replaces an existing file it could not parse, and a dry run computes the same changes without writing.",
  ["inputs", "fault_sequences"], "All migration definitions, all existing target trees including unparsable files.",
  "Needs targets with existing entries or broken files in each position.",
  [P + "migrate/__init__.py", P + "migrate/utils.py"],
  [("existing-entry check before insertion", P + "migrate/__init__.py"), ("get_resource error handling", P + "migrate/__init__.py")], ["target files"])

p("C24", "Adding entries keeps all target entries; builds contain only source messages",
  "Adding entries from a source resource to a target never removes or changes the value of a message already in the target; building a localized file writes only identifiers present in the source file, "
  "taking the translated value when there is one.",
  ["inputs"], "All pairs of source and target resources.",
  "Merge order and section combinations are open-ended.",
  [P + "resource/add_entries.py", P + "bin/build.py", P + "bin/build_file.py"],
  [("insertion only", P + "resource/add_entries.py"), ("source id filter", P + "bin/build.py")], ["add_entries()", "files written by l10n-build"])

p("C25", "Path mapping functions agree with each other",
  "For configured and for discovered localization trees, the listing of files, the mapping from reference path to target path, and the reverse lookup apply the same rules "
  "(template-to-target suffixes, locale substitution, ignore rules), and characters of a configured path that are not wildcards match only themselves.",
  ["inputs", "configurations"], "All configurations and paths.",
  "Paths with unusual characters and locale codes are not in the fixtures.",
  [P + "paths/config.py", P + "paths/discover.py", P + "paths/android_locale.py"],
  [("path_regex / target mapping", P + "paths/config.py"), (".pot/.po suffix mapping", P + "paths/*.py")], ["L10nConfigPaths", "L10nDiscoverPaths"])

p("C26", "Comment text cannot become messages or markup",
  "Whatever text a comment holds, writing it cannot create additional messages, keys or markup in the output: each of its lines is prefixed in line-based formats, and comment terminators are neutralised in XML and DTD output.",
  ["inputs"], "All comment strings.",
  "Needs hostile comment text (line separators, terminators) per format.",
  SER, [("comment line prefixing", P + "formats/*/serialize.py"), ("`--` replacement", P + "formats/android/serialize.py, " + P + "formats/dtd/serialize.py")], ["serialize_resource()"])

p("C27", "Hidden and ignored files are never processed",
  "Walking a file tree from a starting directory never yields a file that is hidden or inside a hidden directory below it, nor one matched by the ignore rules in effect for it or inside a directory they match: all rules of the ignore file and the rule for hidden names are applied to every path relative to the root, whatever neighbours it has in its directory. Discovery hands its ignore file on, never descends into hidden directories, and takes no hidden file for localizable content.",
  ["inputs", "configurations"], "All directory trees and ignore files.",
  "Tree shapes are open-ended.",
  [P + "util/walk_files.py", P + "paths/discover.py"], [("filters before yield", P + "util/walk_files.py")], ["walk_files()"])

p("C28", "Parsing a serialized resource gives back an equal resource",
  "For every resource obtained by parsing a file, serializing and parsing it again gives an equal resource, and serialization is idempotent.",
  ["inputs"], "All files of all formats.", "Infinite input space; equality of runtime values.",
  SER + PAR, [("parser/serializer pairs", P + "formats/*")], ["parse_resource()", "serialize_resource()"])

p("C29", "Reported line positions are those of the source file",
  "Each parsed entry's recorded line positions point at the lines of its comment, key, value and end in the source, monotonically and within the file.",
  ["inputs"], "All files of the formats with positions.", "Numerical results over arbitrary inputs.",
  PAR, [("linepos computation", P + "formats/*/parse.py")], ["Entry.linepos"])

p("C30", "Message normalization preserves meaning and is idempotent",
  "Normalizing a message only joins adjacent text segments, drops empty ones, and drops the declarations that nothing in use refers to, directly or through other declarations; everything else stays as it was and in its order, so that the message formats to the same text, and normalizing twice equals normalizing once.",
  ["inputs"], "All messages.", "Equality of runtime values.",
  [P + "util/normalize.py"], [("normalize_message", P + "util/normalize.py")], ["normalize_message()"])
p("C31", "MF2 validation accepts exactly the valid messages and keeps them valid",
  "mf2_validate_message() rejects every message that breaks a rule of the MF2 data model (missing fallback variant, variant key count, missing selector annotation, declarations that depend on themselves, options without a function, malformed names, kinds and values) and accepts every message that keeps them; the declarations of an accepted message end up in an order in which each comes after those it depends on, and nothing else about it is changed.",
  ["inputs"], "All messages.", "Declarations depend on each other through runtime values.",
  [P + "formats/mf2/validate.py", P + "formats/mf2/message_parser.py"], [("validation", P + "formats/mf2/validate.py")], ["mf2_validate_message()"])
p("C32", "JavaScript and Python implementations agree",
  "The JavaScript package reads and writes the same JSON data model and produces the same messages as the Python library.",
  ["inputs"], "All messages.", "Two languages; only examples are compared.",
  ["js/src/model.ts", "schemas/message.json", P + "message/to_json.py"], [("shared schema", "schemas/*.json")], ["js parseMessage/serializeMessage"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(props))
