T.update({
"C07":("runtime monitor: builder programs against a reference elaborator (name resolution, apply, conflicts) and every convenience method","Seeded programs in random statement orders; documented panics of the builders (malformed names) are not generated."),
})
T.update({
"C08":("runtime monitor: JSON write/read round trips compared with the generated model","Seeded models covering all shape and value kinds; floats with many digits are a recorded finding (last binary digit) and general workloads use shorter ones."),
"C09":("runtime monitor: independent JSON AST emitter/parser and layout, both directions","Seeded models; duplicate JSON keys are not judged."),
})
T.update({
"C11":("runtime monitor: IDL documents from an independent emitter, read by the library and by a reference parser and elaborator","Seeded documents with hostile layout; constructs whose meaning is not settled by the specification (glued keywords, control characters in strings, ...) are not judged; four recorded findings are recognised exactly."),
"C12":("runtime monitor: written IDL judged by a reference parser, and read back by the library","Seeded models, every namespace written; recorded reader findings are recognised exactly."),
"C13":("runtime monitor: fault injection into valid documents, verdict from the reference parser or the kind of damage","Seeded single damages of tokens, characters, pieces and JSON layout elements; texts without a definite verdict are not judged."),
"C14":("runtime monitor: random conversion chains, model and line form compared after each step","Seeded models, chains of 2 to 6 steps; recorded reader findings are recognised exactly."),
})
T.update({
"C15":("runtime monitor: line form against an independent rendering of the documented format, construction orders, pairs differing in one fact","Seeded models; quotation marks may be rendered raw or escaped; text with line breaks is a recorded finding."),
"C16":("runtime monitor: online checker of the visitor protocol with an error injected at every call","Seeded models; every call of walks up to 40 calls fails once, 40 sampled ones of longer walks.","fault_enumeration"),
})
T.update({
"C17":("runtime monitor: validator issues matched one to one with an oracle over every reference","Seeded models with every referring property pointed at every kind of target; unresolved placeholders satisfy references."),
"C18":("runtime monitor: linter issues against an independent word splitter, histories of models with one linter","Seeded names in many case styles; the shape reported for an unwelcome term is not judged."),
"C19":("runtime monitor: scripted actions with issues of every level and failures, against a direct specification of the run","Seeded scripts, run once or twice; the state of actions after a failing run is not judged."),
})
T.update({
"C20":("runtime monitor: an independent selector structure emitted as text in any spacing, as library values and through the builders, read back through accessors","Seeded selectors nested to 3, every pair of expressions, every comparator with every pair of value forms, nesting to 100."),
"C21":("runtime monitor: query results against the shape type table of the specification","Seeded models crossed with every shape type and chains of up to 4; every pair of types on a model with every kind. 'member' and other expressions are not implemented by the evaluator and not judged."),
})
T.update({
"C22":("runtime monitor: generated file trees (nesting, links, case of extensions, other files, damage) assembled with counting readers, result against a reference merge","Seeded trees of 1 to 7 model files, each assembled twice with paths in different orders; runs as root, so unreadable files are stood for by dangling and circular links."),
})
T.update({
"C23":("runtime monitor: triples of the graph in canonical form against the documented mapping of the generated model; URN mapping with near misses","Seeded models over every shape and value kind; the Turtle text comes from an external library and is only checked for the names."),
})
T.update({
"C24":("runtime monitor: independent XML reader over the written document, nodes and edges as a multiset against the generated model","Seeded models over every shape kind, hostile service versions."),
"C25":("runtime monitor: independent line reader of the diagram into packages, classes, relations and notes, against the documented mapping","Seeded models of up to 3 namespaces, with and without the Smithy API package; the text is not run through PlantUML itself."),
"C26":("runtime monitor: generated document flattened to lines per section, against the lines derived from the generated model","Seeded models over every shape kind with documentation of any value; identifiers of resources have no section (pinned); text rendering is an external library's and only checked for headings."),
})
T.update({
"C27":("fault injection: streams failing at every byte, once or for good, accepting or giving parts, interrupted; files, unusable paths and a file size limit standing for a full disk","Every byte of outputs up to 160 and inputs up to 200 bytes, a spread of positions for others, for every writer and reader; flush is not asked for.","fault_enumeration"),
})
T.update({
"C28":("runtime monitor: the built tool run as a process over generated file trees, its exit status, streams and files against what the library gives for the same files; failing inputs, outputs, pipes and a file size limit","Seeded file trees and command lines; whitespace and order of output are not judged."),
})
T.update({
"C10":("fault injection on input texts read in a child process: survival, silence, and agreement of repeated, partial and later readings","Seeded damage of valid documents, words and noise; bracket nesting of 36 kinds to 200000; 46 kinds of long texts; pairs of words at 8 places; no answer within 40 s counts as a hang."),
"C29":("stress of every operation on models read from damaged and hostile texts, in a child process","Seeded texts accepted as models; nesting to the readers' limits, circles and chains of 600 shapes."),
})
T.update({
"C30":("fault injection: one fault planted in a generated valid text, model or builder program; kind, payload, message and causes of the error against the planted fault","Seeded settings, 52 kinds of faults; IDs compared ignoring case; errors about the structure of JSON and other Smithy syntax only have to exist."),
"C31":("concurrency stress: the same tasks by one thread, by 2-5 threads from a common start in random orders, and alone in fresh processes; results compared","Seeded tasks on resembling models and texts; observed schedules only; no ThreadSanitizer: the code has no unsafe blocks and std cannot be instrumented offline."),
})
