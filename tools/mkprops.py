#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json
P=[]
MECH={"C02":"manual PartialEq against Hash and Ord","C03":"array_member/optional_member/hash_member accessor macros and hand-written accessors",
"C06":"Model::merge and ModelAssembler merging parts in discovery order","C08":"JsonWriter visitor and JsonReader value mapping","C09":"JSON AST keys and sections",
"C10":"pest grammars and the unwraps of the tree builders","C11":"pest grammar, tree builder and name resolution","C12":"SmithyWriter text production",
"C13":"grammar end-of-input anchors, required sections, version parsing","C14":"writer/reader pairs","C15":"make_line_oriented_form","C16":"walk_model",
"C17":"CorrectTypeReferences and NoUnresolvedReferences","C18":"NamingConventions and UnwelcomeTerms","C19":"run_validation_actions and run_linter_actions",
"C20":"selector grammar, tree builder and Display","C21":"shape type matching","C22":"search path expansion, file type registry, merge",
"C23":"model visitor emitting statements; shape_to_iri/iri_to_shape","C24":"node and edge emission","C25":"package, class and note emission",
"C26":"section emission per shape kind","C27":"error propagation from streams, file helpers","C28":"sub-command dispatch, error reporting","C29":"unwraps and recursion in writers, actions and queries",
"C30":"ErrorKind payloads given where a fault is detected","C31":"absence of state shared between calls, readers, writers and threads"}
def p(id,title,statement,over,qtext,why,files,mech=None,observe=None):
    a={"files":files}
    mech=mech or [(MECH[id],files[0])]
    a["mechanism"]=[{"name":n,"where":w} for n,w in mech]
    if observe: a["observe_at"]=[observe]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

p("C01","Identifiers accept exactly the Smithy shape-ID grammar and round-trip",
 "For every string, parsing it (or asking whether it is valid) as an identifier, a namespace or an absolute shape ID succeeds exactly when the string matches the Smithy 1.0 shape-ID grammar. A parsed ID prints back as exactly the text it was parsed from, and its namespace, shape name and member name are exactly the corresponding pieces of that text. IDs derived from another ID (a shape or member made in a namespace, dropping the member, replacing the shape or member name) equal the ID obtained by parsing the corresponding text.",
 ["inputs"],"all strings, in particular near-miss IDs with misplaced separators, underscores, digits, whitespace, newlines and non-ASCII letters",
 "The unit tests list a few dozen good and bad IDs; the accepted language is infinite.",
 ["atelier-core/src/model/identity.rs","atelier-core/src/builder/id.rs"],
 [("grammar","atelier-core/src/model/identity.rs RE_IDENTIFIER, RE_SHAPE_ID")],"FromStr / is_valid / Display of Identifier, NamespaceID, ShapeID")

p("C02","Identifier equality, hashing and ordering agree with each other",
 "Identifiers, namespaces and shape IDs compare equal exactly when they are equal ignoring letter case. Equal IDs always hash alike and are ordered as equal, the order is a total order consistent with equality, and so hash maps and sorted maps keyed by IDs treat two spellings of an ID that differ only in case as one key.",
 ["inputs"],"all pairs and triples of valid IDs, including pairs differing only in case, in one component, or at component boundaries",
 "The tests compare a couple of literal pairs; the contract between equality, hash and order is over all pairs.",
 ["atelier-core/src/model/identity.rs"],None,"==, Hash, Ord and membership in HashMap/BTreeMap")

p("C03","Models and shapes behave as the plain collections they represent",
 "After any sequence of additions, replacements and removals on a model (metadata, shapes), on a shape (its applied traits) or on the body of a shape (members, identifiers, operations, resources, errors, renames, optional lifecycle operations), every query - presence test, lookup, iteration, name listing, namespace listing, completeness - answers exactly what a plain map/list/optional holding the same contents would answer. A presence test is true exactly when the corresponding lookup finds something.",
 ["histories","inputs"],"all sequences of public mutators and queries over a small universe of keys",
 "Tests call a few accessors in one fixed order; the agreement between mutators and queries is over all histories.",
 ["atelier-core/src/model/mod.rs","atelier-core/src/model/shapes/aggregate.rs","atelier-core/src/model/shapes/service.rs","atelier-core/src/model/shapes/mod.rs","atelier-core/src/macros.rs"],
 None,"public accessors of Model, TopLevelShape, MemberShape, StructureOrUnion, Service, Operation, Resource")

p("C04","Merging models reconciles shapes exactly by the Smithy conflict rules",
 "Adding a shape to a model, or merging another model into it, gives a model holding every shape of both; a shape defined on both sides is accepted only if both definitions have the same type and the same members or properties with the same targets ignoring traits, and then carries the traits of both sides on the shape and on each member. An unresolved reference (forward reference) is replaced by a definition in either order while traits applied to it are kept. Anything else, including different model versions, is reported as a conflict error and never as a crash or a silently dropped or overwritten definition.",
 ["inputs","histories"],"all pairs of models with overlapping shapes that agree, differ in one detail (kind, member name, count, target, version, property, trait), or are forward references",
 "Tests merge a few hand-written pairs; conflicts depend on every combination of shape kind and difference.",
 ["atelier-core/src/model/mod.rs","atelier-core/src/model/shapes/mod.rs"],
 [("shape conflict resolution","Model::add_shape, Model::merge, equal_without_traits, copy_traits")],"result and contents of the merged model")

p("C05","Duplicate metadata and trait values combine only as the spec allows",
 "Giving a metadata key or applying a trait that is already present concatenates the two values in order when both are arrays, leaves the value unchanged when both are exactly equal, and in every other case is reported as a conflict error that leaves the stored value as it was. This holds the same way for metadata entries, for traits on shapes and for traits on members, whether applied one by one, in bulk or through merging, and a trait can never be identified by a member ID.",
 ["inputs","histories"],"all sequences of metadata and trait applications over all value kinds (absent, null, boolean, integer, float, string, array, object, nested)",
 "Tests use one or two value kinds per rule; the rules range over all pairs of values and longer histories.",
 ["atelier-core/src/model/mod.rs","atelier-core/src/model/shapes/mod.rs"],
 [("trait conflict resolution","merge_traits, HasTraits::apply_with_value"),("metadata conflict resolution","Model::add_metadata")],"values stored after each operation")

p("C06","Merging is independent of order and grouping",
 "For any set of compatible model parts, merging them in any order and with any grouping succeeds and yields the same shapes, members, targets and traits, and the same metadata, except that concatenated array values keep the order in which parts were merged. If the parts conflict, every order and grouping reports an error; merging an empty model changes nothing.",
 ["histories","schedules"],"all permutations and groupings of generated partitions of a model, including parts with forward references and parts that share definitions",
 "A test fixes one order; the property quantifies over every order and grouping of the parts.",
 ["atelier-core/src/model/mod.rs","atelier-assembler/src/lib.rs"],None,"final model of each merge order")

p("C07","Model builders produce the model they describe, resolving names correctly",
 "A model built with the builder interface contains exactly the shapes, members, targets, traits, values and metadata that were given to the builders, as if assembled through the core model interface. A defined shape gets the name it was given. Each relative name referring to a shape or trait resolves to the imported ('use') shape of that name, else to the shape defined in the model's own namespace, else to the prelude shape (or trait) of that name, else to an unresolved forward reference in the model's own namespace; absolute names are kept as given. Traits applied by name reach the named shape or member wherever it is defined. Ambiguous names (two imports, or an import and a definition), member IDs used as shapes, unknown members, repeated members, and definitions or values that conflict are reported as errors rather than silently altered, and never as a crash.",
 ["programs","inputs"],"all builder programs over simple, aggregate and service shapes, members and traits, with relative, imported, prelude, shadowed, absolute, unknown and ambiguous names",
 "Tests build three fixed example models; resolution depends on the interaction of local definitions, imports and prelude names.",
 ["atelier-core/src/builder/mod.rs","atelier-core/src/builder/shapes.rs","atelier-core/src/builder/traits.rs","atelier-core/src/builder/values.rs","atelier-core/src/prelude.rs"],
 [("name resolution","atelier-core/src/builder/mod.rs")],"Model produced by TryFrom<&mut ModelBuilder>")

p("C08","Writing a model as JSON AST and reading it back loses nothing",
 "For every model, writing it in the JSON AST form produces well-formed JSON that the JSON reader accepts, and the model read back has the same version, metadata, shapes, members, targets, properties, traits and values. A trait without a value and a trait with an empty object value are the same thing in JSON; nothing else may change. A model with a number that JSON cannot express (infinite or not a number) is refused with an error.",
 ["inputs"],"all models over every shape kind, with arbitrary Unicode strings, nested values, extreme numbers, traits on shapes and members, renames and unresolved references",
 "Tests compare two example models; loss shows up only with particular combinations of shape kind, trait position and value.",
 ["atelier-json/src/writer.rs","atelier-json/src/reader.rs"],None,"JsonWriter then JsonReader")

p("C09","The JSON AST reader and writer follow the Smithy JSON AST layout",
 "For every model laid out as a Smithy JSON AST document by the specification, in any key order and whitespace, the JSON reader returns exactly that model: each shape with its type, member names and targets, properties, traits and values. Conversely the JSON writer lays every model out as the specification says: absolute shape IDs as keys, the type name, members or member/key/value objects with targets, service, operation and resource properties as target references, traits as an object keyed by absolute ID, 'apply' for unresolved shapes. Documents with repeated object keys are not part of this.",
 ["inputs"],"all documents of the JSON AST grammar for the supported shape kinds, in all key orders, spacings and string escapings",
 "The fixtures show one layout of a few shapes; a reader/writer pair that makes the same mistake still round-trips.",
 ["atelier-json/src/reader.rs","atelier-json/src/writer.rs","atelier-json/src/syntax.rs"],None,"model read from independently emitted text; parsed JSON of the writer's output")

p("C10","Reading untrusted text never crashes, hangs or pollutes output",
 "For every byte string given as Smithy IDL, JSON AST or selector text, reading it, or showing its parse tree, returns either a model or selector or an error; it never panics, aborts the process or runs without bound, and prints nothing to standard output. Reading the same bytes again, with the same or another reader and however few bytes arrive at a time, gives the same outcome, and what was read before does not affect what is read next.",
 ["inputs","fault_sequences"],"all byte strings: random bytes, token soups, and mutations, truncations and splices of valid documents, including invalid UTF-8, huge numbers and nested values",
 "Tests feed well-formed files and a handful of bad ones.",
 ["atelier-smithy/src/parser/smithy.rs","atelier-smithy/src/parser/selector.rs","atelier-json/src/reader.rs","atelier-smithy/src/parser/mod.rs"],None,"outcome of SmithyReader, JsonReader and parse_selector in a child process")

p("C11","Parsing Smithy IDL yields exactly the model the text describes",
 "For every model written as Smithy 1.0 IDL text in any allowed layout - comments, optional commas and whitespace, documentation comments, imported, relative or absolute names, quoted keys and strings with escapes, text blocks, apply statements, traits on shapes and on members of every aggregate - parsing gives exactly the described model: every shape, member, target, property, metadata entry, trait and value. Relative names resolve to imports first, then local definitions, then the prelude, then forward references in the current namespace.",
 ["inputs","programs"],"all IDL documents of the supported grammar, for models over every shape kind and value kind",
 "Tests parse a dozen fixed files; the mapping ranges over the whole grammar and all its layouts.",
 ["atelier-smithy/src/parser/smithy.rs","atelier-smithy/src/parser/smithy.pest","atelier-core/src/builder/mod.rs"],None,"model read from independently emitted IDL")

p("C12","Writing a model as Smithy IDL and parsing it back loses nothing",
 "For every model, writing one of its namespaces as Smithy IDL gives text that the IDL parser accepts, and the model parsed back has the same metadata and, for that namespace, the same shapes, members, targets, properties, traits and values. A trait without a value and a trait with an empty object value count as the same; references to shapes of other namespaces keep their full identity. Not part of this are numbers that are not finite (refused with an error), unresolved placeholders of members or of clashing names, and, where the model defines shapes in other namespaces too, unresolved placeholders of those namespaces.",
 ["inputs"],"all models with one or more namespaces, over every shape kind, trait position and value kind, with arbitrary Unicode strings",
 "Tests compare the text of one example model; loss depends on the combination of shape kind, value kind and namespaces.",
 ["atelier-smithy/src/writer.rs","atelier-smithy/src/parser/smithy.rs"],None,"SmithyWriter then SmithyReader")

p("C13","Malformed documents are rejected, not partially accepted",
 "A document that breaks the syntax or structure of its format - Smithy IDL with a missing delimiter, separator, name or keyword, unterminated string or misplaced statement, unknown version; JSON AST that is not valid JSON, lacks or mistypes a required part, names an unknown shape type or an invalid ID - is reported as an error. It is never accepted as a model with the damaged part dropped or guessed. Names that differ only in case and traits applied to members of undefined shapes are not part of this.",
 ["inputs","fault_sequences"],"all single structural damages (deletion, replacement, retyping of one element; truncation at any point) of generated valid documents",
 "Tests contain a few invalid files; the damage can be at any element of any document.",
 ["atelier-smithy/src/parser/smithy.pest","atelier-smithy/src/parser/smithy.rs","atelier-json/src/reader.rs","atelier-core/src/lib.rs"],None,"Ok/Err of the readers")

p("C14","Converting a model between formats preserves its meaning",
 "For every single-namespace model, any chain of conversions between Smithy IDL and JSON AST (write in one form, read back, write in the other, and so on) ends with the model it started from, and its line-oriented form is unchanged at every step.",
 ["inputs","histories"],"all models and all conversion chains between the readable formats",
 "Tests convert one example file in one direction.",
 ["atelier-smithy/src/writer.rs","atelier-json/src/writer.rs","atelier-json/src/reader.rs","atelier-smithy/src/parser/smithy.rs","atelier-core/src/io/lines.rs"],None,"line form and structure after each hop")

p("C15","The line-oriented form is a canonical, faithful rendering of a model",
 "The line-oriented form of a model is sorted, depends only on the model's contents and not on construction order, and contains exactly the lines its format description prescribes for every shape, member, property, identifier, rename, trait, value and metadata entry, one line per fact with string values and keys kept on one line. Two models with different contents (apart from the order of unordered things) never have the same line-oriented form, and the writer emits exactly these lines.",
 ["inputs"],"all models and all pairs of models that differ in one fact, with arbitrary Unicode strings and nested values",
 "Tests compare two fixtures; injectivity and order independence are statements about all models.",
 ["atelier-core/src/io/lines.rs"],None,"make_line_oriented_form, LineOrientedWriter")

p("C16","Visitors see every element of a model exactly once",
 "Walking a model calls the visitor exactly once for each metadata entry and once for each shape, through the method for its kind with its own ID, traits and body, each followed directly by exactly one member call per member or operation/resource/error/input/output reference it has (identifiers and renames have none), with the right parent, name, target and traits. If any visitor call returns an error the walk stops at that call and returns that error.",
 ["inputs","fault_sequences"],"all models, and an error injected at any one visitor call",
 "The test walks one example with a printing visitor.",
 ["atelier-core/src/model/visitor.rs"],None,"sequence of visitor callbacks")

p("C17","Validators report exactly the violations present in a model",
 "For every model, the type-reference validator reports an error for each reference whose target has the wrong kind (a member, input, output, error or identifier that targets a service, operation or resource; an operation or resource reference that targets something else), a warning for each reference outside the prelude that no shape in the model satisfies (an unresolved placeholder satisfies it), an informational note for each simple shape without traits, and nothing else. The unresolved-reference validator reports exactly one error for each unresolved shape of the model.",
 ["inputs"],"all models with every combination of referring property and target kind, including missing, unresolved and prelude targets",
 "Tests check one small model per validator.",
 ["atelier-core/src/action/validate/mod.rs"],None,"issues (reporter, level, locus, message subject)")

p("C18","Linters report exactly the naming problems present in a model",
 "The naming linter reports exactly the names of defined shapes, of traits applied to shapes, and of the members of structures and unions with their targets and traits that break the naming style, each against the right element; the terms linter reports the unwelcome words of each distinct name in a model once. What a linter reports for a model does not depend on what the same linter checked before.",
 ["inputs","histories"],"all models with names in many case styles and with unwelcome words, and all sequences of models checked by one linter",
 "Tests lint one or two small models with a fresh linter.",
 ["atelier-core/src/action/lint/mod.rs","atelier-core/src/action/lint/terms.rs"],None,"issues reported per model")

p("C19","Running several actions keeps order, loses no issue and stops when told to",
 "Running a list of validators or linters returns all issues they report, in the order the actions ran and in the order each reported them, none lost or duplicated. With fail-fast set, no action runs after the first one that reported an error-level issue (warnings and notes do not stop the run), everything reported so far is still returned, and an action that itself fails ends the run with its error.",
 ["histories","fault_sequences"],"all lists of actions with arbitrary scripted issues of every level and scripted failures, with and without fail-fast",
 "Tests run the two real validators on a model; the interplay of order, levels and failures is never sampled.",
 ["atelier-core/src/action/validate/mod.rs","atelier-core/src/action/lint/mod.rs","atelier-core/src/action/mod.rs"],None,"issues returned and actions invoked")

p("C20","Selector text and selector structure correspond one to one",
 "For every selector, printing it gives text that parses back to the same selector, and for every selector text of the Smithy 1.0 selector grammar, in any spacing, parsing gives the selector structure that the text denotes: shape types, attribute tests with their path, comparator, values and case-insensitivity, scoped attributes, neighbours with direction and relationship names, functions and variables. The selector builders give the structure that their calls describe.",
 ["inputs","programs"],"all selector expressions up to a nesting bound, in all spacings",
 "Tests parse about a hundred literal selectors.",
 ["atelier-smithy/src/parser/selector.rs","atelier-smithy/src/parser/selector.pest","atelier-core/src/model/selector/mod.rs","atelier-core/src/builder/selector.rs"],None,"parse_selector and Display")

p("C21","Querying a model by shape type selects exactly the matching shapes",
 "For every model and every selector that is a chain of shape types other than member, the query returns, each once, exactly the shapes of the model that the Smithy selector specification says every type of the chain matches: each concrete type matches its own kind, number matches all numeric types, simpleType all simple types, collection lists and sets, '*' every defined shape.",
 ["inputs"],"all models crossed with all shape-type selectors",
 "Only a few fixed queries are tested.",
 ["atelier-query/src/evaluate.rs","atelier-query/src/lib.rs"],None,"result of the query")

p("C22","Assembling files gives the merge of what each file contains",
 "For any tree of files and search paths, the assembler returns the model obtained by reading every file with a registered extension, compared without regard to case, exactly once (however many paths or links lead to it) with the reader for its type and merging the results; other files are ignored, directories are searched recursively, and the result does not depend on the order in which paths are given. Missing paths that were given explicitly, unreadable, malformed or conflicting inputs are reported as errors, never a crash or a partial model; elements of a search path need not exist.",
 ["inputs","configurations","fault_sequences"],"all file trees over supported and unsupported file types, search-path settings and damaged or missing files",
 "Tests assemble one fixed directory.",
 ["atelier-assembler/src/lib.rs"],None,"TryFrom<ModelAssembler> / TryInto<Model>")

p("C23","The RDF graph states exactly the facts of the model",
 "For every model, the RDF written for it states each shape with its type, each member with its name and target, each service, operation and resource property, each applied trait with its value, and metadata, using the documented vocabulary and mapping (values in order, objects and renames as bags of pairs), and states nothing that is not in the model; unresolved shapes only have their traits stated. The mapping between shape IDs and URNs is one-to-one and reversible, and no other IRI is taken for a shape.",
 ["inputs"],"all models over every shape kind and value kind; all shape IDs",
 "Tests only check that writing an example does not fail.",
 ["atelier-rdf/src/writer.rs","atelier-rdf/src/urn.rs","atelier-rdf/src/vocabulary.rs"],None,"triples of the produced graph")

p("C24","GraphML output is well-formed XML showing every shape and reference",
 "For every model, the GraphML written for it is well-formed XML with unique node and edge identifiers in which every defined shape of the model appears as exactly one node with its type and, for a service, its version, and every applied shape trait, member and property reference appears as exactly one edge from the node of its shape to the identifier of its target, labelled with its role. There are no other nodes or edges, except that unresolved placeholders may appear as nodes.",
 ["inputs"],"all models over every shape kind, with arbitrary strings, unresolved and external references",
 "Tests only write one example.",
 ["atelier-describe/src/graphml/writer.rs"],None,"parsed XML of the output")

p("C25","PlantUML output shows every shape once, with its members and relations",
 "For every model, the PlantUML text written for it is produced without crashing, is bracketed as a diagram, declares each service, resource, structure, union, simple and collection shape exactly once within the package of its own namespace, with all its members, identifiers and traits. Operations are drawn as operations of the services and resources which have them, under their lifecycle role if any, with their input and output. Members of lists, sets and maps and resources of services and resources are drawn as relations to the right target, and documentation as a note. Unresolved placeholders need not be drawn.",
 ["inputs"],"all models with one or several namespaces, including references to missing or unresolved shapes",
 "Tests only write one example.",
 ["atelier-describe/src/plant_uml/writer.rs"],None,"parsed lines of the output")

p("C26","Generated documentation covers every shape of the model and never fails",
 "For every model, generating its documentation succeeds and describes every defined shape under its namespace in one section headed with its name and kind, with each of its members and properties and their targets, its applied traits with their values, and any documentation text and links given for it or its members. Identifiers of resources are not part of this. References to shapes of the same namespace link to the section of that shape.",
 ["inputs"],"all models over every shape kind with documentation traits of any value",
 "Tests describe one example model.",
 ["atelier-describe/src/document/writer.rs"],None,"generated document")

p("C27","I/O failures surface as errors and partial I/O does not change results",
 "For every model and every writer, if the output stream fails at any byte the write returns an error, and if it accepts only part of each request or is interrupted the bytes written are the same as without, which also holds for the view of the parse tree; for every reader, an input stream that fails at any byte makes reading return an error, and short or interrupted reads give the same model. Writing to or reading from a file path has the same result as writing to or reading from memory, whether or not the output file existed.",
 ["fault_sequences","crash_points"],"every byte position of every writer's output and reader's input as a failure point; all patterns of short and interrupted I/O",
 "Tests use in-memory buffers that never fail.",
 ["atelier-core/src/io/mod.rs","atelier-core/src/io/lines.rs","atelier-json/src/writer.rs","atelier-json/src/reader.rs","atelier-smithy/src/writer.rs","atelier-smithy/src/parser/mod.rs","atelier-rdf/src/writer.rs","atelier-describe/src/graphml/writer.rs","atelier-describe/src/plant_uml/writer.rs"],None,"instrumented Read/Write streams and scratch files")

p("C28","The command-line tool does what it is told and reports failure",
 "For every input, 'cargo atelier' convert writes to the output file, or to standard output when none is given, the requested format of the assembled input and nothing else; validate and lint report all issues the library reports; document writes the documentation. The exit status of validate and lint when there are issues, and giving both kinds of search path at once, are not part of this. When the input cannot be read or parsed or the output cannot be written, the tool prints an error and exits with a failure status without crashing.",
 ["configurations","inputs","fault_sequences"],"all sub-commands and options over generated model files, missing files and unwritable outputs",
 "No test runs the tool.",
 ["cargo-atelier/src/bin/main.rs","cargo-atelier/src/actions.rs","cargo-atelier/src/report.rs","cargo-atelier/src/command_line.rs"],None,"exit status, stdout, stderr and files of the spawned tool")
p("C29","Whatever can be read can be processed",
 "For every model that a reader returns, whatever the text it came from (traits with values of any type, references of any kind and in circles, values nested as deep as readers accept), every writer, the documentation, the standard validators and linters, a walk, queries and merging return a result or an error: they never panic, exhaust the stack, run without bound or print to standard output, and merging the model into an empty one and into itself succeeds.",
 ["inputs"],"all texts that are accepted as models: valid documents of both forms, damaged documents that are still accepted, known traits with values of any type, nesting up to the limits of the readers, long chains and circles of references",
 "Tests process a few well-formed models.",
 ["atelier-describe/src/document/writer.rs","atelier-describe/src/plant_uml/writer.rs","atelier-rdf/src/writer.rs","atelier-core/src/action/validate.rs","atelier-core/src/model/mod.rs"],None,"outcome of every operation in a child process")
p("C30","Errors say what is at fault",
 "When something is refused because of a single fault, the error is of the kind that belongs to the fault and names what is at fault, in its payload and in its message: the refused text of an ID, identifier, namespace, version, simple type, selector type or comparator; the key of conflicting metadata; the trait whose values conflict; the shape whose definitions conflict; the name given twice to members, traits or resource identifiers; the member that is not there; the name that is ambiguous; the member ID used where a shape ID is needed. This holds alike for parsing IDs, merging, adding shapes, applying traits, building and reading JSON or Smithy. For text that is no Smithy or JSON because of one stray character on a line, the error or one of its causes gives the number of that line.",
 ["inputs"],"all inputs with exactly one fault of these kinds, at any place of an otherwise valid text, model or program",
 "Tests check that some calls fail, hardly ever with what; the place and name of the fault vary over all inputs.",
 ["atelier-core/src/error.rs","atelier-core/src/model/mod.rs","atelier-core/src/model/shapes/mod.rs","atelier-core/src/builder/mod.rs","atelier-json/src/reader.rs","atelier-smithy/src/parser/smithy.rs","atelier-core/src/model/identity.rs"],None,"ErrorKind, payload, message and causes of returned errors")
p("C31","Results do not depend on other calls, earlier calls or other threads",
 "Every operation - reading and writing any format, building, merging, assembling, validating, linting, querying and comparing - gives the same result for the same input whether it is the first thing a process does, comes after any other operations on other inputs, or runs while other threads perform operations on the same or other models. Shared models may be read by any number of threads at once. Orders that come from hash maps, labels of blank nodes and the choice among several errors are not part of the result.",
 ["histories","schedules"],"all sequences and interleavings of operations of several threads on shared and separate inputs",
 "Tests call each operation once, in one thread, on unrelated inputs.",
 ["atelier-core/src/model/mod.rs","atelier-core/src/model/identity.rs","atelier-core/src/prelude.rs","atelier-core/src/action/lint.rs","atelier-core/src/action/validate.rs","atelier-smithy/src/parser/mod.rs","atelier-smithy/src/writer.rs","atelier-json/src/reader.rs","atelier-json/src/writer.rs","atelier-assembler/src/lib.rs"],None,"results of tasks run alone, in threads and in fresh processes")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
