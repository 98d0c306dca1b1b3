prop("C01", "The tag-value writer emits every field under its tag",
 "For every document of every supported SPDX version, writing tag-value puts each field that carries a value on a line with the tag the specification gives it, in the section of the element it belongs to, and emits nothing for what is absent. Fields whose value may span lines are wrapped so that they can be read back. No element and no field is silently left out.",
 ["inputs"], "all documents of all versions (2.1, 2.2, 2.3), each field present or absent, in every containing element",
 "The writer tests render a few hand-built documents; the combinations of field, presence, containing element and version are not enumerated.",
 ["tagvalue/writer.go", "spdx/v2/v2_1/tagvalue/writer", "spdx/v2/v2_2/tagvalue/writer", "spdx/v2/v2_3/tagvalue/writer"],
 [("tagvalue.Write", "tagvalue/writer.go"), ("RenderDocument", "spdx/v2/*/tagvalue/writer/save_document.go")],
 AI + "field-coverage and tag table",
 "Every field of every version's model is driven through the exported writer in each presence state; line shapes must match the specification's table. Covers one element of a list at a time plus the list-of-several shape; the text inside a value is opaque.")

prop("C02", "The tag-value reader puts every value where its tag says, or fails",
 "For every supported SPDX version, a well-formed line of any section puts its value, unchanged, into the field of the element the line belongs to, with the documented constants and defaults, and into nothing else; lines for relationships and annotations are accepted in every section; any order of fields within a section gives the same document. A line with a malformed structured value, or a tag the format does not have, makes the reader fail: no value is dropped silently.",
 ["inputs"], "all tags in all sections of all versions (2.1, 2.2, 2.3), all one-line values, all section changes, up to three entries of a list",
 "The reader tests feed single pairs into unexported parsing functions with chosen values, never every tag in every section with arbitrary values, and rarely look at the whole document.",
 ["tagvalue/reader.go", "tagvalue/reader", "spdx/v2/v2_1/tagvalue/reader", "spdx/v2/v2_2/tagvalue/reader", "spdx/v2/v2_3/tagvalue/reader"],
 [("tagvalue.ReadInto", "tagvalue/reader.go"), ("ParseTagValues", "spdx/v2/*/tagvalue/reader/parser.go")],
 AI + "value-flow from every tag to the document against the specification's table",
 "Texts whose values are opaque labels are driven through the exported reader; the whole resulting document must equal what the table gives. Value classes (word, one-line text, integer) are stated per value; three known findings (FilesAnalyzed with neither true nor false).")

prop("C16", "A failed write is never reported as success by a writer",
 "Whatever write to the output fails, at whatever point of the document, each writer (tag-value, JSON, YAML, license count report) returns a non-nil error to its caller.",
 ["fault_sequences", "inputs"], "every single write of every document, and every run of later writes, failing",
 "Tests write to in-memory buffers that never fail.",
 ["tagvalue/writer.go", "json/writer.go", "yaml/writer.go", "reporter/reporter.go", "spdx/v2/v2_3/tagvalue/writer/util.go"],
 [("errWriter keeps the first error", "spdx/v2/*/tagvalue/writer/util.go"), ("Generate", "reporter/reporter.go")],
 AI + "error-typestate of the output stream",
 "Every stream write in every writer forks into success and failure; after a failure every exit must return a non-nil error.")

prop("C17", "Writing, converting and reporting leave the caller's document alone",
 "Writing a document in any format, converting it, computing described elements, validating it or producing a report does not modify the caller's document: no field, list element, list order or map entry reachable from it changes.",
 ["inputs"], "all documents of all versions and all read-only entry points",
 "Tests rarely compare the input after the call, and never for aliasing or order changes.",
 ["tagvalue/writer.go", "json/writer.go", "yaml/writer.go", "convert", "spdxlib", "reporter", "licensediff"],
 [("sorted copies", "spdx/v2/*/tagvalue/writer/save_document.go")],
 AI + "effect analysis of writes to caller-owned memory",
 "Each read-only exported function is analysed on documents of fully labelled caller-owned memory; any store, map update, in-place sort or append into shared capacity that reaches it is reported. Four known findings (2.3 tag-value writer).")

prop("C18", "Equal inputs give equal output",
 "Output depends only on the input: no reader, writer, builder, searcher or report has results that depend on map iteration order, time, randomness, environment, addresses or goroutine scheduling.",
 ["schedules", "inputs"], "all runs over the same input, all map iteration orders",
 "A test run sees one map order per run and passes by luck; most maps in the tests hold one element.",
 ["spdx/v2", "builder", "idsearcher", "reporter", "spdxlib", "licensediff", "utils"],
 [("sorted keys before use", "every range over a map")],
 "SSA order-sensitivity analysis of map iterations plus who-may-call rules",
 "Every map iteration of the library is proved order-insensitive (collected then totally sorted, commutative updates, keyed stores) or reported; nondeterministic sources are forbidden by a who-may-call rule. Sort totality is decided by evaluating the comparator abstractly.")

prop("C03", "Reading tag-value never panics",
 "Whatever text is read, in whatever order its lines come and whatever their values are, the tag-value reader returns a document or an error: it never dereferences a nil section, indexes past a split value, writes to a nil map or panics, and its state always fits the section it is in.",
 ["inputs"], "all line sequences of any length, all pair sequences of any length, all versions (2.1, 2.2, 2.3)",
 "The parser is a state machine with eleven section pointers; a crash needs a particular order of sections and tags, and the tests feed single pairs into chosen states.",
 ["tagvalue/reader", "spdx/v2/v2_1/tagvalue/reader", "spdx/v2/v2_2/tagvalue/reader", "spdx/v2/v2_3/tagvalue/reader"],
 [("parser states", "spdx/v2/*/tagvalue/reader/parser.go"), ("value splitting", "spdx/v2/*/tagvalue/reader/util.go"), ("tokenizer", "tagvalue/reader/reader.go")],
 AI + "typestate fixpoint over the parser state, nil and bounds obligations",
 "The loop over pairs (lines) is run to a fixpoint over all parser states, from arbitrary pairs; all states are covered, whatever the length of the input. Bounds of split values are proved by dominating length tests. Covers the readers, not the conversion after them.")

prop("C04", "Tag-value elements: identifiers required, none lost or doubled",
 "A tag-value text in which a package or file has no SPDXID line is refused, wherever the element stands and whatever follows it; a text that is accepted gives a document holding every package, file, snippet, license and review the text opens exactly once and under its owner; element sequences in the order of the format, each with its identifier, are accepted.",
 ["inputs"], "all sequences of up to three (thorough: four) elements, with and without names and identifiers, of all versions",
 "Tests cover one missing identifier at a time; whether it is noticed depends on which section follows, and on what came before.",
 ["spdx/v2/v2_1/tagvalue/reader", "spdx/v2/v2_2/tagvalue/reader", "spdx/v2/v2_3/tagvalue/reader"],
 [("identifier checks at section changes", "spdx/v2/*/tagvalue/reader/parse_*.go"), ("final checks", "spdx/v2/*/tagvalue/reader/parser.go")],
 AI + "exhaustive section sequences against a reference section automaton",
 "Every sequence is driven through the exported reader; all its abstract outcomes must be refusals or hold exactly the elements described. Bounded by the length of the sequence; known finding: a package line with neither name nor identifier is merged with the next package.")

prop("C05", "Tag-value text written from a document reads back as that document",
 "For every document, reading the tag-value text the writer gives for it is accepted and gives a document with every value the format carries where it was: in the same element, in the same list position, unchanged, including texts of several lines, every form of relationship reference, every kind of agent and every checksum algorithm.",
 ["inputs"], "documents of all versions, each field present, empty, of several lines, each list absent and of one to three elements",
 "Tests compare the writer with one text and the reader with another; nobody reads what the writer wrote, and the two parties can agree with their own tests and not with each other.",
 ["tagvalue/writer.go", "tagvalue/reader.go", "tagvalue/reader", "spdx/v2/v2_1/tagvalue", "spdx/v2/v2_2/tagvalue", "spdx/v2/v2_3/tagvalue"],
 [("tagvalue.Write", "tagvalue/writer.go"), ("tagvalue.ReadInto", "tagvalue/reader.go")],
 AI + "label flow through writer and reader composed",
 "The ordered abstract output of the exported writer is the input of the exported reader; labels must come back to where they were. One field or list varies at a time over documents holding every field; identifiers differ per element. Six known findings (several excluded files of a verification code).")

prop("C07", "The JSON and YAML writers put every field under its key",
 "For every document of every supported version, writing JSON or YAML gives one object in which every field that carries a value appears under the key the specification gives it, in the object of the element it belongs to and in the form of the format (identifiers with their prefixes, agents as 'Type: name', relationship ends as references), list elements in their order; nothing else appears, and nothing is left out. Writer options change the layout only.",
 ["inputs"], "all documents of all versions, each field present or empty, each list nil, empty and of one to three elements, both formats",
 "Keys come from struct tags and hand-written MarshalJSON methods, one set per version; the tests compare one example document per version, which leaves most fields and all absent ones out.",
 ["json/writer.go", "yaml/writer.go", "json/marshal", "spdx/common", "spdx/v2/common", "spdx/v2/v2_1", "spdx/v2/v2_2", "spdx/v2/v2_3"],
 [("json.Write", "json/writer.go"), ("yaml.Write", "yaml/writer.go"), ("struct tags and MarshalJSON methods", "spdx/v2/*/*.go, spdx/v2/common/*.go")],
 AI + "a structural model of encoding/json, table of keys",
 "The tree the exported writer emits is computed from the struct tags and the MarshalJSON methods and compared with a hand-written table of keys. One field or list varies at a time over documents holding every field. Fields outside the JSON form (json:\"-\" in every version) are not judged.")

prop("C08", "The JSON and YAML readers put every key into its field, or fail",
 "For every supported version, reading a JSON or YAML object puts the value of every key the format has into the field of the element it belongs to, unchanged, and into nothing else; keys the format does not have are passed over; a value of the wrong kind, an identifier without its prefix, a malformed agent or reference makes the reader fail; underscore category names, missing filesAnalyzed and any spacing after an agent's type are understood.",
 ["inputs"], "all keys of all objects of all versions, all texts, values of every wrong JSON kind for every key, both formats",
 "Tests read one example per version and a few malformed values of a few types.",
 ["json/reader.go", "yaml/reader.go", "spdx/common", "spdx/v2/common", "spdx/v2/v2_1", "spdx/v2/v2_2", "spdx/v2/v2_3"],
 [("json.ReadInto", "json/reader.go"), ("yaml.ReadInto", "yaml/reader.go"), ("struct tags and UnmarshalJSON methods", "spdx/v2/*/*.go, spdx/v2/common/*.go")],
 AI + "a structural model of encoding/json, table of keys",
 "Trees built from the table are fed to the exported reader; every abstract outcome must hold exactly the values, or be a refusal for malformed ones. Texts are labels that need no JSON escape (escapes are C09).")

prop("C09", "A document written as JSON or YAML reads back as that document",
 "For every document whose fields hold arbitrary text (quotes, backslashes, control characters, colons included), what the JSON or YAML writer gives is accepted by the reader of the format and gives a document with every value where it was, unchanged, in every list in its order.",
 ["inputs"], "documents of all versions with arbitrary texts, each field present or empty, each list nil, empty and of one to three elements, both formats",
 "Tests round-trip one example document whose texts need no escape.",
 ["json", "yaml", "json/marshal", "spdx/v2/common", "spdx/v2/v2_1", "spdx/v2/v2_2", "spdx/v2/v2_3"],
 [("json.Write", "json/writer.go"), ("json.ReadInto", "json/reader.go"), ("UnmarshalJSON and MarshalJSON", "spdx/v2/*/*.go, spdx/v2/common/*.go")],
 AI + "label flow through writer and reader composed, escapes modelled as operators",
 "Each text is an arbitrary label; escaped forms are operators that only decoding removes, so code that handles escaped text by hand does not give the label back. Agent names are assumed not to start or end in blanks.")

prop("C10", "JSON relationship shortcuts become relationships, once",
 "Reading JSON or YAML of versions 2.2 and 2.3 turns every element of documentDescribes into a DESCRIBES relationship of the document and every file in a package's hasFiles into a CONTAINS relationship of the package, each exactly once and only when no explicit relationship states it already, in either direction (DESCRIBED_BY, CONTAINED_BY); explicit relationships are kept as given and in order, null ones dropped; 2.1 has no shortcuts.",
 ["inputs"], "all combinations of up to two (thorough: three) explicit relationships from a universe of twelve, six forms of documentDescribes and six of packages with hasFiles",
 "Duplicate suppression depends on combinations of explicit and derived relationships, null entries among them; tests hold one document with a few of them.",
 ["spdx/v2/v2_2/document.go", "spdx/v2/v2_3/document.go", "spdx/v2/v2_2/package.go", "spdx/v2/v2_3/package.go", "json/reader.go", "yaml/reader.go"],
 [("Document.UnmarshalJSON", "spdx/v2/v2_2/document.go, spdx/v2/v2_3/document.go"), ("Package.UnmarshalJSON", "spdx/v2/v2_2/package.go, spdx/v2/v2_3/package.go")],
 AI + "exhaustive bounded combinations against a reference function",
 "Bounded by the universe of relationships: identifiers are constants, the code treats them as opaque.")

prop("C11", "Conversion between versions keeps everything the target can hold",
 "Converting a document to another version, directly or by reading a text of one version into a document of another or into the current model, gives a document of that version in which every value the target version can hold stands where it stood, nothing appears that was not there, and SPDXVersion names the target version; converting to the own version gives the document as it is; pointers to documents, and pointers to those, are accepted as sources.",
 ["inputs"], "documents of all versions with every field present or empty, each list nil, empty and of one to three elements, all nine pairs of versions",
 "Conversion is by field name through reflection: a field that is renamed or changes its type in one version is silently lost; tests convert a handful of hand-made documents.",
 ["convert", "spdx/v2/v2_2/document.go", "spdx/v2/v2_3/document.go", "json/reader.go", "yaml/reader.go", "tagvalue/reader.go"],
 [("convert.Document", "convert/chain.go"), ("From_ and To_ functions", "spdx/v2/v2_2/document.go, spdx/v2/v2_3/document.go")],
 AI + "a type-driven model of the conversion library",
 "The conversion library is modelled over the types and conversion functions of the current source; reflection is not executed. Six known findings (list elements that hold nothing become nil pointers).")

prop("C12", "Readers refuse what they cannot read and leave the target alone",
 "A text that is not one of the format, is no object, has no version, a version no reader exists for, or a version that is not a text, and a read that fails at any point each make the tag-value, JSON and YAML readers return an error, as does a target that is not a pointer; whenever an error is returned, the target document is as it was.",
 ["inputs", "fault_sequences"], "all failing reads; all version strings other than the three; texts of every other JSON kind; malformed texts of each section",
 "Tests read good documents; what is left in the target after a failure is never looked at.",
 ["json/reader.go", "yaml/reader.go", "tagvalue/reader.go", "tagvalue/reader/reader.go", "convert"],
 [("json.ReadInto", "json/reader.go"), ("yaml.ReadInto", "yaml/reader.go"), ("tagvalue.ReadInto", "tagvalue/reader.go")],
 AI + "failing reads as states, write effects on the target",
 "Every abstract outcome of the exported reader must be an error and must not have written the target or anything reachable from it.")

prop("C06", "Tag-value lines are split into tags and values as the format says",
 "Whatever lines a tag-value text has, splitting it gives the tag and value of every line in order: blank lines and comments are passed over, tag and value part at the first colon and are trimmed, a value between text marks is kept exactly, over however many lines it takes and whatever those lines look like (comments, colons, blanks, opening marks), and nothing else is altered; a line without a colon outside such a value and a value that is never closed make the reader fail.",
 ["inputs"], "all sequences of up to three (thorough: four) lines of twenty-five forms, with arbitrary texts",
 "Tests feed single lines to the tokenizer; its state between lines is what goes wrong.",
 ["tagvalue/reader/reader.go"],
 [("ReadTagValues", "tagvalue/reader/reader.go"), ("readNextLineFromReady and readNextLineFromMidtext", "tagvalue/reader/reader.go")],
 AI + "exhaustive bounded line sequences against a reference tokenizer",
 "Texts are arbitrary labels, so each sequence stands for all texts of its form. Bounded by the number of lines; what follows a closing mark on its line is not judged.")

prop("C21", "File hashes are of the whole file, under the right algorithm",
 "The SHA1, SHA256 and MD5 given for a file are each the hash of the file's whole content under the algorithm of that name, whatever its length, for the file that was asked for; a file that cannot be opened or fails while being read gives an error and no hashes; the file's section in a built document carries them under the matching algorithm, with the name and identifier asked for, and the file is closed on every path.",
 ["inputs", "fault_sequences"], "all files of any content, each operation on the file failing",
 "Tests hash a few small fixed files that never fail; which hash ends up under which name and what happens after a short read is not looked at.",
 ["utils/filesystem.go", "builder/build_file.go"],
 [("GetHashesForFilePath", "utils/filesystem.go"), ("BuildFileSection", "builder/build_file.go")],
 AI + "term-exact results over a model of files and hashes",
 "The content of a file is an opaque term; a hash is an operator over the terms written to it, so a hash of a part, of another file or under another name differs. Every operation on the file forks into success and failure.")

prop("C22", "The package verification code is the SHA1 over the sorted SHA1s",
 "For any list of files, the package verification code is the hex SHA1 of the concatenated SHA1 values of the files that are not excluded, sorted by value, each exactly once per file; only the file with exactly the excluded name is left out, and its name is reported as excluded; a nil file is an error; the order of the files, their other checksums and their names do not matter.",
 ["inputs"], "all orders of up to three (thorough: four) files, SHA1s in every order of magnitude, equal ones included, each file excluded or none",
 "Tests take one list of five files in one order.",
 ["utils/verification.go"],
 [("GetVerificationCode", "utils/verification.go")],
 AI + "symbolic ranks: every order type of the hashes against a reference",
 "Hash values are labels with ranks, so each case stands for all values in that order. Bounded by the number of files; files with an empty name are not judged when nothing is excluded.")

prop("C23", "The directory walk lists every regular file that is not ignored",
 "Listing a directory gives every regular file below it, at any depth, exactly once, as a path that begins with a slash and is relative to the directory, leaving out directories, links and other irregular entries and the paths that match an ignore pattern, and nothing else; a pattern names one file, the files directly in a directory, a directory anywhere (**/dir/**), a directory tree from the root or a file name anywhere; a directory that cannot be walked gives an error.",
 ["inputs"], "all trees of a universe of entries of every kind and depth, spelt with and without a trailing slash, with every pattern form",
 "Tests list one small tree with a few patterns.",
 ["utils/filesystem.go"],
 [("GetAllFilePaths and ShouldIgnore", "utils/filesystem.go")],
 AI + "bounded trees and pattern forms against a reference",
 "Path segments are labels, so each case stands for all names; the reference follows the documentation of the ignore patterns.")

prop("C24", "A built document describes the directory it was built from",
 "Building a document from a directory gives a document of the current version with the configured creators and creation date, one package with the given name, the verification code of the files that are not ignored, and exactly those files, each with its hashes and its own identifier, relative to the directory; DOCUMENT DESCRIBES the package, the namespace begins with the configured prefix; whatever fails on the way gives an error.",
 ["inputs", "fault_sequences"], "bounded trees with arbitrary names and contents, all configurations of the creator, the date, ignored paths and test values, every file operation failing",
 "Tests build one document from one small directory.",
 ["builder/build.go", "builder/build_package.go", "builder/build_file.go", "builder/build_creation_info.go", "builder/build_relationship.go", "utils"],
 [("Build", "builder/build.go"), ("BuildPackageSection", "builder/build_package.go")],
 AI + "term-exact documents over a model of the file system",
 "The document is compared leaf by leaf with what the tree and the configuration give. One known finding (the namespace holds the Go form of the verification code).")

prop("C25", "The license diff sorts every file of two packages into its class",
 "Comparing two packages gives one pair of concluded licenses for every file name of either, the first package's and the second's, empty where a package has no such file; the structured result puts every pair into exactly one class - same in both, different in both, first only, second only - with its licenses, and nothing else, whatever the order of files and of map iteration.",
 ["inputs", "schedules"], "all pairs of packages of up to two (thorough: three) files, names shared or not, licenses equal, different or missing",
 "Tests compare one pair of packages.",
 ["licensediff/licensediff.go"],
 [("MakePairs and MakeResults", "licensediff/licensediff.go")],
 AI + "exhaustive bounded combinations against a reference",
 "Names and licenses are labels, so each case stands for all of its form; map iterations run in both orders.")

prop("C26", "The license report counts every file and lists counts in order",
 "The report of an analysed package gives the number of files with and without a concluded license (NOASSERTION and nothing are none), their sum, one line for every license with its number of files, largest number first and equal numbers by name, and the number found; a package that is not analysed is refused and nothing is written.",
 ["inputs", "schedules"], "all lists of up to four (thorough: five) files over three licenses, NOASSERTION and none, in every order of the names, both map orders",
 "Tests report on one package and compare one table.",
 ["reporter/reporter.go"],
 [("Generate", "reporter/reporter.go")],
 AI + "exhaustive bounded combinations against a reference",
 "The written text must equal the reference up to the width of columns.")

prop("C27", "A document is valid when its relationships name its elements",
 "ValidateDocument returns no error exactly when both ends of every relationship are DOCUMENT, a package of the document or one of its unpackaged files.",
 ["inputs"], "documents of up to two packages, one file and two (thorough: three) relationships with every combination of known and unknown ends",
 "Tests validate one good and one bad document.",
 ["spdxlib/documents.go"],
 [("ValidateDocument", "spdxlib/documents.go")],
 AI + "exhaustive bounded combinations against a reference",
 "An end in an external document that has the identifier of an element of this one, and files of packages as ends, are not judged.")

prop("C28", "The described packages are those the document describes",
 "For a document with one package, that package is described; of several, those that DOCUMENT DESCRIBES or that are DESCRIBED_BY DOCUMENT, each once, sorted by identifier, and no element that is not a package of the document; without packages or descriptions there is an error. Filtering relationships gives what the filter gives, in order; sorting identifiers keeps each.",
 ["inputs"], "up to two packages in both orders, all combinations of up to two (thorough: three) relationships of a universe of sixteen, nil lists",
 "Tests use one document with four relationships.",
 ["spdxlib/described_elements.go", "spdxlib/relationships.go", "spdxlib/element_ids.go"],
 [("GetDescribedPackageIDs", "spdxlib/described_elements.go"), ("FilterRelationships", "spdxlib/relationships.go"), ("SortElementIDs", "spdxlib/element_ids.go")],
 AI + "exhaustive bounded combinations against a reference",
 "Identifiers are labels with ranks, so each case stands for all identifiers in that order.")

prop("C29", "The identifier search gives each file the licenses it names",
 "For a directory, the searcher's document gives each file, sorted and once, the licenses its SPDX-License-Identifier lines name, a concluded license that joins the distinct identifiers by AND (those with operators in brackets), or NOASSERTION; files the searcher ignores have NOASSERTION, files the builder ignores are left out; the package holds the licenses of all searched files; comment ends, quotes and blanks are no part of an identifier, empty identifiers and lines with more than five characters before the tag name none; everything else is as the builder gives it, and its failures are errors.",
 ["inputs", "fault_sequences", "schedules"], "files of up to two (thorough: three) lines of seventeen forms with arbitrary license names in every order, trees of three files with every form of ignore pattern, both map orders",
 "Tests search one small directory of fixed files.",
 ["idsearcher/idsearcher.go", "builder", "utils"],
 [("BuildIDsDocument", "idsearcher/idsearcher.go")],
 AI + "exhaustive bounded line sequences against a reference",
 "License names are labels of word characters with ranks. Files that fail while they are searched are not judged (FIXME in the source).")

prop("C13", "The RDF readers put every attribute of a document into its field",
 "Whatever elements an RDF document has, each attribute that SPDX gives a document, package, file, snippet, extracted licence, annotation, relationship, review, checksum, external reference or external document reference arrives in its field of the document model, unchanged; a licence arrives as the expression with the same meaning; and every element is in the document once, wherever the text defines it, however it is referred to and whatever order the attributes stand in, with lists in the order of the text.",
 ["inputs"], "every attribute of every element of SPDX 2.2 and 2.3, alone, with all others and (thorough) with each other one, in both orders; twenty-nine forms of licence; some twenty-five arrangements of elements",
 "The RDF tests parse a few fragments with unexported functions and compare one or two fields; most attributes, arrangements of elements and orders are never read.",
 ["rdf/reader.go", "spdx/v2/v2_2/rdf/reader", "spdx/v2/v2_3/rdf/reader"],
 [("rdf.ReadInto", "rdf/reader.go"), ("LoadFromGoRDFParser", "spdx/v2/*/rdf/reader/parser.go"), ("getLicenseFromTriples", "spdx/v2/*/rdf/reader/parse_license.go")],
 AI + "value flow from every RDF statement to the document against the table of SPDX terms",
 "Graphs of labelled statements, as the RDF parser would give them, are driven through the exported reader; the whole resulting document must equal what the table gives. The RDF/XML parser (gordf, a dependency) is not analysed. Ten known findings (or-later operator; relationships to NONE and NOASSERTION).")

prop("C14", "The RDF readers refuse what they cannot read, and never panic",
 "An RDF document with an attribute its element cannot have, a value its attribute cannot have, an element with missing or contradictory statements, no version or a version without a reader, and a read that fails, each make the RDF reader return an error and leave the target document as it was; whatever the statements are about (texts, undefined nodes, elements of other kinds, an element itself or a circle of elements), the reader neither panics nor recurses without end.",
 ["inputs", "fault_sequences"], "every attribute of every element of SPDX 2.2 and 2.3 with every wrong shape of object, unknown attributes of every element, bad values of each attribute, failing reads",
 "Tests look at some single refusals in unexported functions; circles, nodes used as two kinds of elements and the state of the target after a failure are never tried.",
 ["rdf/reader.go", "spdx/v2/v2_2/rdf/reader", "spdx/v2/v2_3/rdf/reader", "convert"],
 [("rdf.ReadInto", "rdf/reader.go"), ("cache of parsed nodes", "spdx/v2/*/rdf/reader/parser.go")],
 AI + "error outcomes, nil, bounds and type-assertion obligations, recursion bound",
 "Every abstract outcome of the exported reader on a wrong graph must be an error; on every graph, every panic obligation on the way must be discharged. Covers the readers, not the RDF/XML parser (gordf).")

prop("C19", "The library keeps no state between calls",
 "No call of the library leaves anything behind that another call can see: nothing the program shares is changed once it has started, no result shares memory with the library or with the result of another call, and the state of the process (environment, working directory, default logger, random source) stays as it was. Calls on different documents can therefore run at the same time.",
 ["histories", "schedules", "inputs"], "every function of the library and everything reachable from a package variable, so every sequence and interleaving of calls",
 "A test makes one call at a time and looks at its result; state left behind shows only in some later or concurrent call.",
 ["."],
 [("package variables", "all packages"), ("Copy of the examples", "spdx/v2/*/example/example.go")],
 "effect and escape analysis: forward flow of everything reachable from a package variable to writes, exported results and foreign calls, over go/ssa",
 "Flow-insensitive inside a function; calls of function values are resolved by type. Initialisation and functions run by sync.Once may write.")

prop("C20", "The library touches nothing but what it is given",
 "Reading, writing, converting, comparing, validating or reporting on a document uses only the document, reader and writer it is given; building a document from a directory only reads files. No call creates, changes or removes a file, prints, logs, starts a program or uses the network.",
 ["inputs", "histories"], "every exported function and every function its calls can reach, dependencies included",
 "A test cannot show that a file, socket or stream was not touched on some other input.",
 ["."],
 [("GetHashesForFilePath", "utils/filesystem.go"), ("searchFileIDs", "idsearcher/idsearcher.go"), ("readers and writers", "json, yaml, tagvalue, rdf")],
 "effect analysis over the call graph from every exported function, to a table of effects of the standard library",
 "Calls of interface methods and function values are resolved by name and type inside the library and its dependencies; what a reader or writer given by the caller does is the caller's.")

prop("C30", "The names of the library stand for the terms of SPDX",
 "Every exported constant for a checksum algorithm, an external reference category or type, a relationship type, an annotation or element kind has the value the SPDX specification gives that term; each document version names itself and its data licence correctly, and the names of the current version are those of the latest model.",
 ["programs"], "every exported constant and alias of the model packages, for every program that uses them",
 "The tests use some of the constants on both sides of a comparison, where a wrong value cancels out.",
 ["spdx/v2/common", "spdx/model.go", "spdx/v2/v2_1", "spdx/v2/v2_2", "spdx/v2/v2_3"],
 [("constants", "spdx/v2/common/external.go, checksum.go"), ("aliases", "spdx/model.go")],
 "lint over the type-checked constants and aliases against a table of the specification's terms",
 "The table is written from the SPDX 2.3 specification.")

prop("C31", "No document makes the library panic",
 "Writing a document in any format, comparing packages, reporting, asking the document queries, converting and describing a document never panic, whatever the document lacks (absent sections, absent parts of an element, nil elements of lists and maps, empty lists) and whatever its texts are; nor do the JSON and YAML readers panic, whatever stands for any value of the text.",
 ["inputs"], "documents with any one pointer absent, with all absent, with all lists absent, with any texts; JSON and YAML texts with a null, an empty or short text, an empty object or list, a list of null, a number or a boolean at any one place",
 "The tests give the library whole documents; what is missing in a document read from elsewhere is up to its author.",
 ["tagvalue", "json", "yaml", "spdxlib", "licensediff", "reporter", "convert", "utils", "spdx/v2/common"],
 [("writers", "tagvalue/writer.go, json/writer.go, yaml/writer.go, spdx/v2/*/tagvalue/writer"), ("queries", "spdxlib/*.go, licensediff/licensediff.go, reporter/reporter.go"), ("readers", "json/reader.go, yaml/reader.go, spdx/v2/common/*.go")],
 AI + "each operation is run over documents in which each pointer in turn is nil; an alarm is any nil dereference, index or slice out of range, failed assertion or panic() left possible",
 "The document itself is given, and so are the reader and writer; the standard library, the YAML library and the struct converter are trusted not to panic.")

prop("N01", "Reading and writing take time and memory in proportion to the text",
 "Reading a text of any format, converting a document and writing it take time and memory in proportion to the size of the input, and end for every input.",
 ["inputs"], "all texts and documents, of all sizes",
 "Tests use small documents.",
 ["tagvalue", "json", "yaml", "rdf", "convert"],
 [("readers and writers", "tagvalue, json, yaml, rdf")],
 "", "", na="Time and memory are runtime quantities; most of them is spent in the JSON, YAML and RDF libraries. No sound static argument in reach bounds them. (That the loops of the tag-value and RDF readers end is part of C03 and C14.)")

prop("N02", "RDF/XML texts become the graph that RDF says",
 "For every RDF/XML text the triples the RDF reader works on are those the RDF/XML specification gives: abbreviated, nested and referenced forms, XML escapes, namespaces and encodings alike.",
 ["inputs"], "all RDF/XML texts",
 "The tests parse a few files.",
 ["rdf/reader.go"],
 [("parser.LoadFromReaderObject", "rdf/reader.go")],
 "", "", na="The parsing is gordf's, a dependency outside the repository; C13 and C14 begin at the triples it gives, which they take as arbitrary.")

prop("N03", "JSON and YAML texts are split into members and scalars as their standards say",
 "For every JSON or YAML text the members, numbers, escapes and scalars that the document types are filled from are those the standard of the format gives.",
 ["inputs"], "all JSON and YAML texts",
 "The tests parse a few files.",
 ["json/reader.go", "yaml/reader.go"],
 [("json.Unmarshal, yaml.Unmarshal", "json/reader.go, yaml/reader.go")],
 "", "", na="The parsing is done by encoding/json and sigs.k8s.io/yaml, outside the repository; C07 to C12 begin at the tree of values these libraries give.")

prop("N04", "Building a document is atomic with respect to changes of the directory",
 "A document built from a directory that changes meanwhile describes the directory as it was at one moment: the files listed, the hashes and the verification code belong together.",
 ["schedules"], "all changes of the directory during a build",
 "Tests build from directories that do not change.",
 ["builder", "utils", "idsearcher"],
 [("Build", "builder/build.go"), ("BuildIDsDocument", "idsearcher/idsearcher.go")],
 "", "", na="No portable file system gives such a snapshot and the library does not promise one: what is read depends on the scheduler and the file system at run time, which no analysis of the source can bound. C21 and C29 hold for directories that do not change.")
