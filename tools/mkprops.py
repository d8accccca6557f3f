#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
L = "lib/src/parse/"
G = "lib/src/gen/"
A = "app/commsdsl2comms/src/"

p("P01", "Schema files merge into one protocol, or are rejected",
  "Parsing a sequence of schema files and then validating yields, per distinct schema name, one schema holding the union of all their definitions in the order given; every schema-level attribute (id, version, DSL version, endianness, description, unique-id policy...) repeated by a later file must equal the first file's value or the file is rejected. A second schema name is accepted only when multiple schemas are enabled and the DSL version allows it. Validation succeeds once and only with at least one file, and afterwards no file can be added.",
  ["histories", "inputs"], "every sequence of parse / validate calls and every way of splitting a definition over files and schema names",
  "Tests parse one or two fixed files; they never permute files, repeat headers with one differing attribute, or call the API in another order.",
  [L + "ParseProtocolImpl.cpp", L + "ParseSchemaImpl.cpp"],
  [("schema lookup by name and header comparison", L + "ParseProtocolImpl.cpp parseValidateSchema"), ("lifecycle guards", L + "ParseProtocolImpl.cpp parse/parseValidate")],
  ["ParseProtocol public API: parse, parseValidate, parseSchemas"])

p("P02", "Element names are unique per namespace, across all files",
  "Within one namespace of one schema, two fields, two messages, two interfaces, two frames can never have the same name, and two namespaces of the same name are one namespace: reopening it (in the same or in a later file) continues it and is subject to the same uniqueness. Names which are not identifiers are rejected, and so are sibling member fields, layers and aliases which collide (the case of the first letter makes no difference, as it does not in generated names). Elements with the same name in different namespaces, or of different kinds, are independent.",
  ["inputs", "histories"], "every order of definitions over namespaces (nested, reopened) and files",
  "Tests contain a few fixed duplicate-name schemas; not reopened namespaces, split files, case variants or every element kind.",
  [L + "ParseNamespaceImpl.cpp", L + "ParseFieldImpl.cpp", L + "ParseFrameImpl.cpp", L + "parse_common.cpp"],
  [("per-namespace maps keyed by name", L + "ParseNamespaceImpl.cpp"), ("name syntax check", L + "parse_common.cpp parseIsValidName"), ("sibling name check", L + "ParseFieldImpl.cpp parseValidateMembersNames")],
  ["ParseNamespace lists after parseValidate, accept/reject"])

p("P03", "Message identifiers are unambiguous and listings are ordered by them",
  "An accepted schema never has two messages with the same numeric id unless they have different order values and the schema allows non-unique ids, at whatever depth below one top-level namespace they are defined; an id given by name resolves to exactly the value of that enumerator. The list of all messages of a schema contains each message once, sorted by id and then by order.",
  ["inputs"], "every set of messages with ids (numeric, hexadecimal or enumerator reference), orders and namespaces",
  "Tests have one duplicate id schema; they do not vary namespace nesting, order values, the id notation or both at once.",
  [L + "ParseNamespaceImpl.cpp", L + "ParseMessageImpl.cpp", L + "ParseSchemaImpl.cpp"],
  [("id/order uniqueness validation", L + "ParseSchemaImpl.cpp parseValidateAllMessages"), ("id resolution", L + "ParseMessageImpl.cpp parseUpdateId"), ("sorting", L + "ParseSchemaImpl.cpp parseAllMessages")],
  ["ParseSchema::parseAllMessages, accept/reject"])

p("P04", "References resolve to the definition in scope, or are rejected",
  "A reference to a field, interface, enumerator, special value, bit or message resolves to the element at exactly that (dot separated, optionally schema qualified) path, provided it was defined earlier in processing order; every other reference - undefined, defined later, wrong kind, wrong schema, inner path of something without it - makes the definition rejected. Numeric, boolean, default and string attributes which name another element's value take exactly the value of that element, where a namespace and a field sharing a name means the namespace. Resolution never depends on unrelated definitions.",
  ["inputs", "histories"], "every placement of definitions and references over namespaces, files and schemas",
  "Tests use a handful of well-formed references; not forward references, shadowed names in other namespaces, or references across schemas in either order.",
  [L + "ParseProtocolImpl.cpp", L + "ParseNamespaceImpl.cpp", L + "ParseRefFieldImpl.cpp", L + "parse_common.cpp"],
  [("external reference lookup", L + "ParseProtocolImpl.cpp parseFindField/parseExternalRef"), ("path walk", L + "ParseNamespaceImpl.cpp parseFindField"), ("value references", L + "ParseFieldImpl.cpp parseStrToNumeric")],
  ["ParseRefField::parseField, value projections, accept/reject"])

p("P05", "Version annotations are consistent in every accepted definition",
  "In every accepted definition, an element with versions is introduced no earlier than its container and the schema's version allows, is deprecated only after it was introduced and not after its container was, and 'removed' appears only together with a deprecation; every definition which breaks one of these is rejected. Members which say nothing take the versions of their container, and elements outside messages and composite fields carry no versions. What is taken from a reused or copied definition keeps its annotations, except that it is introduced no earlier than the new element.",
  ["inputs"], "every combination of introduced/deprecated/removed annotations on schema, message, field, member, valid value, special, bit",
  "Tests pin a few pairs; the relation quantifies over nested containers and all boundary values (equal, one below, one above).",
  [L + "ParseXmlWrap.cpp", L + "ParseFieldImpl.cpp", L + "ParseMessageImpl.cpp", L + "ParseIntFieldImpl.cpp", L + "ParseEnumFieldImpl.cpp", L + "ParseSetFieldImpl.cpp"],
  [("version checks", L + "ParseXmlWrap.cpp parseGetAndCheckVersions"), ("inheritance", L + "ParseFieldImpl.cpp parseUpdateVersions")],
  ["parseSinceVersion/parseDeprecatedSince/parseIsDeprecatedRemoved projections"])

p("P06", "Features newer than the schema's DSL version have no effect",
  "A property or construct introduced in a later DSL version than the one the schema declares never affects the parsed model: an attribute is ignored with a warning, and a construct is rejected or ignored exactly as if it were unknown. A schema which declares no DSL version supports everything. Raising the declared version never changes the meaning of a schema which uses only older features.",
  ["inputs", "configurations"], "every gated feature at every declared DSL version",
  "Tests declare one DSL version per schema and do not cross features with versions.",
  [L + "ParseProtocolImpl.cpp", L + "ParseFieldImpl.cpp", L + "ParseMessageImpl.cpp", L + "ParseOptCondImpl.cpp"],
  [("property support table", L + "ParseProtocolImpl.cpp parseIsPropertySupported"), ("feature predicates", L + "ParseProtocolImpl.cpp parseIs...Supported")],
  ["warnings, projections, accept/reject"])

p("P07", "Integer fields describe exactly the values their schema declares",
  "For every accepted integer field, the default and the special values lie inside the value range of the declared type, the valid ranges are exactly the declared ones, sorted and with overlapping or adjacent ranges of the same versions merged, and the default is the declared one; a default or special value outside is rejected; a value which cannot be serialized in the reduced length, and a valid range outside the type, are reported. This holds over the full 64-bit signed and unsigned ranges.",
  ["inputs"], "every type, length, bit length, serialization offset, default, special and list of ranges, in particular at the limits of each type",
  "Tests use small numbers far away from type limits and at most two or three ranges.",
  [L + "ParseIntFieldImpl.cpp", L + "parse_common.cpp"],
  [("range normalisation and checks", L + "ParseIntFieldImpl.cpp parseUpdateValidRanges"), ("specials", L + "ParseIntFieldImpl.cpp parseUpdateSpecials"), ("limits", L + "ParseIntFieldImpl.cpp parseMinValueForType...")],
  ["ParseIntField projections, accept/reject"])

p("P08", "Enumerations and bit sets describe exactly the declared values and bits",
  "Every accepted enumeration contains exactly the declared name to value pairs, all fitting in its type and length, with duplicate values only where explicitly allowed and duplicate names never; its default is the declared value. Every accepted set contains exactly the declared bits, all inside its length, unique unless allowed, with the declared default and reserved values applied to unnamed bits; anything else is rejected.",
  ["inputs"], "every type, length, list of values or bits with versions, uniqueness and default attributes, including reuse of another definition",
  "Tests exercise a few literals; not boundaries of every type and length, or the interplay of uniqueness with reuse.",
  [L + "ParseEnumFieldImpl.cpp", L + "ParseSetFieldImpl.cpp"],
  [("values", L + "ParseEnumFieldImpl.cpp parseUpdateValues"), ("bits", L + "ParseSetFieldImpl.cpp parseUpdateBits")],
  ["ParseEnumField/ParseSetField projections, accept/reject"])

p("P09", "Serialization length bounds compose from the parts",
  "The reported minimal and maximal serialization lengths of every field and message are determined by its parts: the sum over bundle and message members (only members present in the version the message was introduced count for a message minimum), the extremes over variant members, zero to maximum for optional ones, prefix plus content for strings, data and lists, and saturation when a part is unbounded. A declared minimal length requirement is accepted exactly when the computed minimum satisfies it.",
  ["inputs"], "every nesting of field kinds and every combination of prefixes, counts, fixed lengths and versions",
  "Tests compare lengths of a few fixed fields; the rule is recursive over all compositions.",
  [L + "ParseFieldImpl.cpp", L + "ParseBundleFieldImpl.cpp", L + "ParseListFieldImpl.cpp", L + "ParseStringFieldImpl.cpp", L + "ParseDataFieldImpl.cpp", L + "ParseMessageImpl.cpp", L + "parse_common.cpp"],
  [("per kind minimum/maximum", L + "Parse*FieldImpl.cpp parseMinLengthImpl/parseMaxLengthImpl"), ("saturating addition", L + "parse_common.cpp parseAddToLength"), ("minimal length check", L + "ParseFieldImpl.cpp parseUpdateValidateMinLength")],
  ["parseMinLength/parseMaxLength of every field and message"])

p("P10", "Variable length content is delimited in exactly one consistent way",
  "Every accepted string, data or list has at most one way to delimit its content (fixed size, prefix, terminator), and a prefix is a usable one: of an integer kind or with length semantics, and when it names a sibling it is an earlier-declared sibling of the right kind. Contradictory or unusable combinations are rejected, and default and valid values exceeding what the delimiting allows are reported.",
  ["inputs"], "every combination of fixed length or count, prefixes (inline, referenced, detached), terminators, element length prefixes and reuse",
  "Tests have single fixed combinations, not the product of delimiting attributes with reuse.",
  [L + "ParseStringFieldImpl.cpp", L + "ParseDataFieldImpl.cpp", L + "ParseListFieldImpl.cpp"],
  [("prefix checks", L + "ParseStringFieldImpl.cpp parseUpdatePrefix..."), ("list combinations", L + "ParseListFieldImpl.cpp")],
  ["prefix projections, accept/reject"])

p("P11", "Reuse, copy and replace derive a definition without touching the source",
  "An element which reuses or copies another has exactly the properties and members of its source as they were at that point, changed only by what it declares itself; members which no longer exist in the versions of the new element are left out, replaced members take the place and order of the replaced ones, aliases are kept while what they denote is, and a derived definition whose inherited members or conditions need a member which is left out or replaced by an unfit one is rejected. The source is never changed, and code injection sources are inherited only on request.",
  ["inputs", "histories"], "every chain of reuse, field copying, alias copying and member replacement over fields, messages and interfaces",
  "Tests reuse once; they do not chain, nest, overlap with aliases/conditions or check that the source is unchanged.",
  [L + "ParseFieldImpl.cpp", L + "ParseMessageImpl.cpp", L + "ParseInterfaceImpl.cpp", L + "ParseBundleFieldImpl.cpp"],
  [("state copy", L + "ParseFieldImpl.cpp parseReuse"), ("field copies", L + "ParseMessageImpl.cpp parseCopyFieldsFrom..."), ("replace", L + "ParseMessageImpl.cpp parseReplaceFields")],
  ["projections of source and derived element"])

p("P12", "Aliases denote existing, uniquely named members",
  "Every alias of an accepted message, interface or bundle names a member (possibly nested) that exists in that element, and no two aliases, and no alias and member, of one element have names which collide when used as accessors. A definition with any other alias is rejected, and every accepted alias is reported with the path that was declared.",
  ["inputs"], "every list of aliases over nested members, inherited members and copied aliases",
  "Tests declare a few good and bad aliases but not nested paths with inheritance or copies.",
  [L + "ParseAliasImpl.cpp", L + "ParseMessageImpl.cpp", L + "ParseInterfaceImpl.cpp", L + "ParseBundleFieldImpl.cpp"],
  [("verification", L + "ParseAliasImpl.cpp parseVerifyAlias")],
  ["aliases projections, accept/reject"])

p("P13", "Conditions only compare what can be compared",
  "A condition of an optional field, bundle, message read, construction or validity check is accepted exactly when each operand names an existing earlier sibling, nested member or interface field usable in that role and both sides are comparable: equal kinds, a literal that fits the other side, a bit of a set, a size of a sized field, or the existence of an optional one. And/or lists are accepted iff all members are, and the accepted tree is reported as written.",
  ["inputs"], "every operator, operand form, operand kind and nesting of and/or lists, for every place a condition may appear",
  "Tests sample some operator/kind pairs; the matrix operator x operand kind x place is far larger.",
  [L + "ParseOptCondImpl.cpp", L + "ParseOptionalFieldImpl.cpp", L + "ParseMessageImpl.cpp", L + "ParseBundleFieldImpl.cpp"],
  [("expression parsing and verification", L + "ParseOptCondImpl.cpp"), ("comparability", L + "Parse*FieldImpl.cpp parseIsComparableTo...")],
  ["condition projections, accept/reject"])

p("P14", "Accepted transport frames have a well-formed layer structure",
  "Every accepted frame has exactly one payload layer, at most one id and one size layer, uniquely named layers in declaration order, and every layer which refers to others (checksums, values, delimiters) refers to layers on the allowed side of itself and of the payload. Layers have the fields their kind requires (none for payload), and any other arrangement is rejected.",
  ["inputs"], "every sequence of layers with every kind of cross reference",
  "Tests contain a dozen fixed frames out of the space of all layer orders and references.",
  [L + "ParseFrameImpl.cpp", L + "ParseLayerImpl.cpp", L + "ParseSyncLayerImpl.cpp", L + "ParseChecksumLayerImpl.cpp", L + "ParseValueLayerImpl.cpp", L + "ParseCustomLayerImpl.cpp"],
  [("layer verification", L + "Parse*LayerImpl.cpp parseVerifyImpl"), ("frame verification", L + "ParseFrameImpl.cpp parseUpdateLayers")],
  ["layers projection, accept/reject"])

p("P15", "Message platform and sender sets resolve exactly as declared",
  "The set of platforms a message supports is exactly the declared list, or the schema's list with the added and removed ones applied; unknown platforms or malformed lists are rejected, and a message without a declaration is for every platform. The sender of a message is the declared one, inherited on reuse, and both by default.",
  ["inputs"], "every platform list expression against every schema platform list, with message reuse",
  "Tests use one or two lists.",
  [L + "ParseMessageImpl.cpp", L + "ParseProtocolImpl.cpp"],
  [("platform list evaluation", L + "ParseMessageImpl.cpp parseUpdatePlatforms"), ("schema platforms", L + "ParseProtocolImpl.cpp parseValidatePlatforms")],
  ["parsePlatforms/parseSender projections"])

p("P16", "Rejection and error reports coincide, and no input crashes",
  "For every input, the parser terminates without crashing and rejects it if and only if it has reported at least one error; every report names the file it is about. A generator run exits with status zero if and only if no error was reported, and when warnings are treated as errors, a run which reported a warning about the schema, before it starts to write, has a non-zero status too.",
  ["inputs", "configurations"], "every schema file content, well formed or not, with every log related option",
  "Tests check the boolean result of fixed inputs, never the coincidence with the reports, and few malformed inputs.",
  [L + "ParseProtocolImpl.cpp", L + "ParseXmlWrap.cpp", G + "GenGenerator.cpp", G + "GenLogger.cpp"],
  [("error report callback", L + "ParseProtocolImpl.cpp"), ("exit status", G + "GenGenerator.cpp genExec"), ("warnings as errors", G + "GenLogger.cpp")],
  ["report callback, exit status, stderr"])

p("P17", "Composite fields contain exactly their members, in wire order",
  "Every accepted bundle, bitfield, variant, list and optional field has exactly the declared members in the declared order; a bitfield's members are of bit-capable kinds and their bit lengths fill whole bytes up to 64 bits; a variant's default member and an optional's default mode are the declared ones. A composite without members, with members of unsupported kind or with an impossible default is rejected.",
  ["inputs"], "every nesting of composite fields, member kinds, bit lengths, and default selections by name or index",
  "Tests cover each composite kind once or twice with fixed members.",
  [L + "ParseBundleFieldImpl.cpp", L + "ParseBitfieldFieldImpl.cpp", L + "ParseVariantFieldImpl.cpp", L + "ParseOptionalFieldImpl.cpp", L + "ParseListFieldImpl.cpp"],
  [("members", L + "Parse{Bundle,Bitfield,Variant}FieldImpl.cpp parseUpdateMembers"), ("default member", L + "ParseVariantFieldImpl.cpp parseUpdateDefaultIdx")],
  ["members projections, accept/reject"])

p("P18", "Floating point fields describe exactly the values their schema declares",
  "For every accepted floating point field, the default, special values and valid ranges are exactly the declared ones - including infinities, NaN, negative and single precision limits - inside the range of the declared type; finite ranges with the same versions which overlap are merged and the union of all ranges is the declared one. Everything else is rejected.",
  ["inputs"], "every type, default, special value and list of ranges",
  "Tests use a few round decimal values.",
  [L + "ParseFloatFieldImpl.cpp"],
  [("ranges, specials, default", L + "ParseFloatFieldImpl.cpp")],
  ["ParseFloatField projections, accept/reject"])

p("P19", "Generated message bundles contain exactly the right messages, in id order",
  "Every generated list of input messages (all, client, server, per platform, extra bundles) contains exactly the messages which belong to it - by sender, platform, and listing - each once, in ascending order of id and then order value, together with the includes it needs. The generated message id enumeration has exactly the ids of the schema.",
  ["inputs", "configurations"], "every set of messages with ids, orders, senders, platforms, namespaces and bundle options",
  "Tests only check that generation succeeds; the generated content is not compared with anything.",
  [A + "CommsInputMessages.cpp", A + "CommsNamespace.cpp", A + "CommsMsgId.cpp", G + "GenGenerator.cpp"],
  [("bundle predicates", A + "CommsInputMessages.cpp"), ("sorting", G + "GenGenerator.cpp genSortMessages"), ("ids", A + "CommsMsgId.cpp")],
  ["generated include/*/input/*.h and MsgId.h"])

p("P20", "Generation is a function of its inputs",
  "Running a generator again on the same schema files and options produces byte-identical output, independent of the output directory, of whether files are listed in a file (with or without path prefix) or as arguments, of verbosity, and of what an earlier run left in the output directory.",
  ["histories", "configurations"], "every schema and every equivalent way of invoking every generator",
  "Tests run each generator once per schema and never compare two outputs.",
  [G + "GenGenerator.cpp", G + "GenProgramOptions.cpp", A + "CommsGenerator.cpp"],
  [("input list handling", G + "GenProgramOptions.cpp genGetInputFiles"), ("write", G + "GenGenerator.cpp genWrite")],
  ["generated file trees"])

p("P21", "Generated code tracks the selected and the remote versions",
  "For every choice of schema version and minimal remote version, the generated code lists exactly the enumerators and special values which exist in it; for every version in which a field is used, its code takes exactly the values declared valid for that version and treats a bit of a set as reserved exactly when no bit declared for that version occupies it (when versions are to be checked); and in version dependent protocols exactly those members are wrapped in version conditions which may be absent for some supported remote version, with exactly the declared version interval. Selecting a version beyond the schema's is refused.",
  ["inputs", "configurations"], "every assignment of versions to elements, and every selected and minimal remote version",
  "Tests generate for one version combination and never inspect the result.",
  [G + "GenSchema.cpp", G + "comms.cpp", A + "CommsField.cpp", A + "CommsEnumField.cpp", A + "CommsIntField.cpp", A + "CommsSetField.cpp"],
  [("existence and optionality", G + "GenSchema.cpp genDoesElementExist/genIsElementOptional"), ("optional wrapping", A + "CommsField.cpp"), ("version checks", G + "comms.cpp genIsVersionOptionalField")],
  ["generated field headers"])

p("P22", "A failed generation reports failure and generates nothing",
  "Whenever the schema is rejected, the requested selection of messages, platform, interface or version does not exist, or the schema caused a warning and warnings are treated as errors, the generator exits with a non-zero status and leaves the output directory as it was; so does a run which only informs or has no input. Whenever it exits with zero, the output is complete, whatever the output directory held before. When an output file cannot be written, the exit status is non-zero.",
  ["inputs", "configurations", "fault_sequences"], "every failing input and option, and every output file that cannot be created",
  "Tests check only successful generation runs.",
  [G + "GenGenerator.cpp", "app/*/src/*.cpp"],
  [("phases: options, parse, prepare, write", G + "GenGenerator.cpp genExec")],
  ["exit status and output directory"])

p("P23", "Injected code appears exactly where requested, once",
  "For every set of code snippet files, each snippet for an element appears exactly once in the file generated for that element and in its documented role, a replacement file replaces the generated file completely, an appended one is at its end, an extended class keeps the original under its suffixed name, and ordinary files are copied unmodified to the same relative place. Snippets for other elements and absent snippets change nothing, and code copied from another element is that element's code.",
  ["inputs", "configurations"], "every subset of snippet kinds over every generated element",
  "Tests with snippets check that generation succeeds, not where the code went.",
  [G + "GenGenerator.cpp", A + "CommsMessage.cpp", A + "CommsField.cpp", A + "CommsInterface.cpp", G + "util.cpp"],
  [("snippet lookup", G + "GenGenerator.cpp genReadCodeInjectCode"), ("copy of extra files", G + "GenGenerator.cpp genCopyExtraSourceFiles"), ("custom code of elements", A + "CommsField.cpp/CommsMessage.cpp")],
  ["generated files"])

p("P24", "The generated file set is exactly the selected elements and what they need",
  "The files generated are exactly those for the selected messages, interfaces, all frames, and the global fields reachable from them (or forced), in their namespaces; every include of a generated header names a file which was generated. Selecting a subset by message list, platform or interface never changes what is generated for the elements which remain selected.",
  ["inputs", "configurations"], "every reference graph between fields, messages, interfaces and frames and every selection",
  "Tests generate full protocols and build some of them; they do not vary selections or check the file set.",
  [G + "GenGenerator.cpp", G + "GenNamespace.cpp", G + "GenField.cpp", G + "GenMessage.cpp", A + "CommsNamespace.cpp"],
  [("reference marking", G + "GenField.cpp genSetReferenced"), ("selection", G + "GenGenerator.cpp genReferenceRequestedMessagesInternal")],
  ["generated file tree and include directives"])

p("P25", "Generated names follow the requested namespaces and stay inside the output",
  "Every file a generator writes is below the requested output directory, at the path given by the main namespace (the schema name or its override) and the element's namespaces; with overrides, no part of the output uses the original namespace, and the definitions are otherwise unchanged. In multi-schema protocols each override applies to exactly the schema it names.",
  ["inputs", "configurations"], "every schema name, namespace override list and namespace nesting",
  "Tests use the default namespace nearly always.",
  [G + "GenGenerator.cpp", G + "comms.cpp", A + "CommsSchema.cpp"],
  [("override parsing", G + "GenGenerator.cpp genSetNamespaceOverride"), ("scopes and paths", G + "comms.cpp")],
  ["generated file tree"])

p("P26", "Generated field definitions carry the schema's wire format",
  "For every field of every message, the generated definition states exactly the schema's wire format: the storage type, fixed or variable length, endianness, serialization offset, bit length, scaling, size prefixes and counts, default value, member order and valid values. Equal schema fields have equal generated definitions wherever they appear.",
  ["inputs"], "every field definition",
  "The tests never look into the generated definitions (the library needed to compile them is not part of the build).",
  [A + "CommsIntField.cpp", A + "CommsEnumField.cpp", A + "CommsSetField.cpp", A + "CommsFloatField.cpp", A + "CommsStringField.cpp", A + "CommsDataField.cpp", A + "CommsListField.cpp", A + "CommsBundleField.cpp", A + "CommsBitfieldField.cpp", A + "CommsVariantField.cpp", A + "CommsOptionalField.cpp"],
  [("option lists", A + "Comms*Field.cpp commsDefFieldOptsInternal")],
  ["generated headers of fields and messages"])

p("P27", "All generators agree on the protocol they describe",
  "For one schema and the same selections, every generator (C++ definitions, C wrapper, bindings, test tools, documentation) covers the same messages with the same numeric ids, the same enumerators, bits and special values with the same numbers, and the same members in the same order, of the same kinds and lengths. What the bindings offer for a member is for that member of the C++ class, and every function the C headers declare is defined with the same signature.",
  ["inputs", "configurations"], "every schema and every pair of generators",
  "Tests run each generator separately and compare nothing.",
  ["app/commsdsl2comms/src", "app/commsdsl2c/src", "app/commsdsl2swig/src", "app/commsdsl2emscripten/src", "app/commsdsl2latex/src", "app/commsdsl2test/src", "app/commsdsl2tools_qt/src"],
  [("common element model", G + "GenGenerator.cpp"), ("per generator writers", "app/*/src")],
  ["generated file trees of all generators"])

p("P28", "Generated code evaluates the declared conditions",
  "In the generated C++ code an optional field is marked as existing exactly when its declared condition holds, a composite or a message is valid exactly when its base is and its declared validity condition holds, a message whose read condition does not hold is refused, and a message is constructed with exactly the values its construct condition states. Compared values are those of the fields the condition names (a field on the way which may be missing has to exist), cast to the type of the left side, and compared to the number the schema gives. Members which depend on others (conditions, detached prefixes) are prepared after the members before them have been read and are kept up to date on refresh, in the order in which they are declared.",
  ["inputs", "configurations"], "every condition tree over siblings, nested members, references and interface fields, and every order of members",
  "The tests never compile or look into the generated code; no sample of conditions covers and/or nesting, optional fields on the way, and references.",
  [A + "CommsOptionalField.cpp", A + "CommsMessage.cpp", A + "CommsBundleField.cpp", A + "CommsBitfieldField.cpp", A + "CommsField.cpp", A + "CommsRefField.cpp"],
  [("condition text", A + "CommsOptionalField.cpp commsDslCondToString"), ("construct", A + "CommsMessage.cpp commsUpdateConstructCodeInternal"), ("order of reading", A + "CommsMessage.cpp/CommsBundleField.cpp read functions")],
  ["generated headers of fields and messages"])

p("P29", "Options of the generated code: what can be customized and what the variants set",
  "In the generated C++ code exactly the fields, messages and layers selected by the customization level (full, limited, none) and by the elements' own customizable property take extra options, each from its own place in the options structure; DefaultOptions declares every such place, empty. Every other variant (client, server, data view, bare metal, message factories of every bundle) sets for each place exactly what its purpose calls for (no read or write for the side which does not need it, views on original data, fixed size storage according to the field's length, in place allocation, message factory of the nearest namespace) and keeps what the options it is based on have at the same place.",
  ["inputs", "configurations"], "every schema, customization level and option which changes the structure (several schemas, forced main namespace, extra bundles)",
  "The tests never compile or look into the generated code; a variant which loses one option of one nested member compiles and merely behaves differently on a device nobody tests.",
  [A + "CommsDefaultOptions.cpp", A + "CommsField.cpp", A + "CommsLayer.cpp", A + "CommsMessage.cpp", A + "CommsNamespace.cpp", A + "CommsFrame.cpp"],
  [("customization level", A + "CommsField.cpp commsIsFieldCustomizable"), ("places", A + "CommsField.cpp commsCustomizationOptionsInternal"), ("variants", A + "CommsDefaultOptions.cpp")],
  ["include/<ns>/options/*.h, template parameters of classes in generated headers"])

p("P30", "Names used by the generated code are declared, visible and used as what they are",
  "Whatever class, alias, enumerator or function of the protocol a generated C++ header names is declared by the generated code - in the same header before it is used, or in a header which is included directly or through others - or comes from a header the user is to provide; class templates get as many arguments as they take and nothing else gets any; template parameters are used only where they are in scope, and packs are expanded; nothing is declared twice in one scope.",
  ["inputs", "configurations"], "every schema and every combination of options",
  "The tests run the generators but never compile the result (the COMMS library is absent), and no sample of schemas covers every way elements refer to each other.",
  [A + "CommsField.cpp", A + "CommsMessage.cpp", A + "CommsFrame.cpp", A + "CommsLayer.cpp", A + "CommsListField.cpp", A + "CommsVariantField.cpp", "lib/src/gen/comms.cpp"],
  [("scopes", "lib/src/gen/comms.cpp genScopeFor"), ("template parameters", A + "CommsField.cpp commsDefTemplParams"), ("includes", A + "Comms*Field.cpp commsDefIncludesImpl")],
  ["all generated headers"])

W = "app/"
p("P31", "Bindings, plugins and test code wrap only what is generated, and build all of it",
  "Run with the same schemas and options as commsdsl2comms, the code of the other generators (swig, emscripten, C, CommsChampion tools plugin, tests) names only classes, aliases, macros and headers which either commsdsl2comms or the same run has generated and which are visible where they are used, with as many template arguments as they take; the CMakeLists.txt of each lists every generated source and no other, and only plugins and defaults which are defined.",
  ["inputs", "configurations"], "every schema, sequence of schemas, forced version, minimal remote version and renamed namespace; five generators",
  "Every generator decides on its own which namespaces get handlers, factories and bundles, and each has to agree with commsdsl2comms and with its own CMakeLists.txt; the tests never compile what was generated, and use flat schemas only.",
  [W + "commsdsl2swig", W + "commsdsl2emscripten", W + "commsdsl2c", W + "commsdsl2tools_qt", W + "commsdsl2test"],
  [("handlers and input messages", W + "commsdsl2emscripten/src/EmscriptenMsgHandler.cpp"), ("sources", W + "commsdsl2c/src/CNamespace.cpp cAddSourceFiles"), ("factory", W + "commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp")],
  ["generated .h, .cpp, .i and CMakeLists.txt of five generators"])

p("P32", "Generated classes describe themselves as the schema does",
  "In the code generated by commsdsl2comms every field and message reports the display name given in the schema (its name where none is given, no text for \"_\"), also where the report is forwarded to another class; the map of names of an enum holds each of the values existing in the selected version exactly once, in rising order, with the text of an enumerator of that value (one not deprecated where there is one); the map of special values each existing one once, sorted by value; every existing bit of a set and every member of a variant has its text at its index; units and decimals to display are those of the schema.",
  ["inputs", "configurations"], "every schema, forced version and minimal remote version; every field, message, enumerator, special value, bit and variant member",
  "Texts are reached through chains of forwarding classes shared between fields of equal names, and maps of names are written in one of three forms depending on the values; the tests read none of them. A map out of order makes the generated binary search miss values.",
  [W + "commsdsl2comms"],
  [("names of values", W + "commsdsl2comms/src/CommsEnumField.cpp"), ("names of bits", W + "commsdsl2comms/src/CommsSetField.cpp commsCommonBitNameFuncCodeInternal"), ("display names", W + "commsdsl2comms/src/CommsField.cpp commsCommonNameFuncCode, CommsRefField.cpp"), ("units", "lib/src/gen/comms.cpp genParseUnitsToOpt")],
  ["generated *Common.h and class headers"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
