# The claims; read by meta.py.
EM = "src/libyaml/emitter.rs"; SER = "src/ser.rs"; DE = "src/de.rs"; LO = "src/loader.rs"; PA = "src/libyaml/parser.rs"; ERR = "src/error.rs"

props.append(P("C01", "Fragmented and interrupted writes never change the output",
 "Whatever sizes a writer accepts per call and however often it is interrupted (EINTR), a sequence of documents reaches it as exactly the bytes that a writer accepting everything at once receives, and no error surfaces. The output reads back as the documents that were written, in order.",
 ["schedules", "fault_sequences", "inputs"],
 "for every sequence of documents, every way of calling the writing API, and every pattern of short writes and interruptions",
 "the tests serialize into a String or Vec, which accepts everything in one call: no short write or interruption ever happens",
 [EM, SER], [("the emitter's write callback hands the whole buffer over and keeps the first error", EM+": write_handler"), ("document framing", SER+": emit, flush, into_inner")],
 ["io::Write::write calls of the caller's writer", "results of Serializer and to_writer calls"],
 note="Compares against the in-memory output of the same calls and against an independent model of the documents (read back through the library)."))

props.append(P("C02", "A failing writer is always reported, by the call it failed in",
 "If the writer fails at any byte or at any flush, the very call during which it failed returns an error carrying the writer's own message and cause (a writer that accepts nothing is such a failure), and no call fails otherwise. What the writer had accepted until then is a prefix of the fault-free output, and the writer is dropped or handed back exactly once.",
 ["fault_sequences", "crash_points", "inputs"],
 "for every byte offset and flush at which any kind of I/O error can strike, in every sequence of serialize, flush and into_inner calls",
 "no test uses a writer that fails",
 [EM, SER, ERR], [("first write error is kept and preferred over the emitter's own", EM+": Emitter::error, write_handler"), ("error wrapping", ERR+": ErrorImpl::Io, source"), ("writer ownership", EM+": into_inner, EmitterPinned")],
 ["results of to_writer, serialize, flush, into_inner", "bytes accepted by the writer", "drops of the writer"],
 note="Every error kind, OS errors, custom errors with a cause, zero-length writes; once or for good; four writer layouts."))

props.append(P("C03", "Acknowledged documents survive a crash",
 "A document whose serialization and flush returned Ok has been handed to the writer completely and the writer itself has been flushed, so that after a crash at any later point it is read back unchanged from what the storage kept. A torn or lost tail never changes or hides documents acknowledged and separated before it, and appending after recovery keeps working.",
 ["crash_points", "histories", "fault_sequences"],
 "for every history of appends, flushes and restarts, and every crash point (inside a write, inside a flush, between operations) with any part of the unflushed tail surviving",
 "no test crashes, restarts, or looks at what has been flushed when a call returns",
 [SER, EM, DE, LO], [("flush pushes the emitter's buffer and flushes the writer", SER+": Serializer::flush; "+EM+": Emitter::flush"), ("documents are loaded one by one", LO+": next_document")],
 ["bytes made durable (flushed) in the simulated disk when a call returned Ok", "documents read by the recovery"],
 note="The simulated disk loses or tears unflushed bytes; recovery runs through the library's own streaming reader."))

props.append(P("C04", "Fragmented and interrupted reads never change the result",
 "However a reader cuts its bytes into pieces and however often it is interrupted (EINTR), every document and every error (message and location) of the stream is the same as when the whole input is given in memory. The reader is not polled endlessly and is dropped exactly once. Text that stands verbatim in an input given in memory can be borrowed from it as &str, wherever it stands and however large the input is.",
 ["schedules", "fault_sequences", "inputs"],
 "for every byte stream, good or damaged, every fragmentation and interruption pattern, every target type",
 "the tests read from strings, never from a reader that returns short counts or EINTR",
 [DE, LO, PA], [("reader input is collected before parsing", LO+": Loader::new"), ("chunk decoding across boundaries", PA)],
 ["documents and errors obtained through from_reader and the document iterator", "io::Read::read calls"],
 note="21 target types; inputs include UTF-16, damaged bytes and inputs larger than every internal buffer."))

props.append(P("C05", "A failing reader never turns into data",
 "If the reader fails at any byte, with any kind of error other than an interruption, the first result obtained from it is an error that carries the reader's own message and cause and claims no position in the document. Nothing obtained from that reader afterwards is data either, and it is not read again.",
 ["fault_sequences", "crash_points", "inputs"],
 "for every byte offset (including the very end) and every kind of read error, under any fragmentation, through every reading entry point",
 "no test uses a failing reader except one for a single error at the start",
 [DE, LO, ERR], [("read errors become the stream's error", LO+": Loader::new, "+DE+": Progress"), ("failed iterators keep failing", DE+": Progress::Fail")],
 ["results of from_reader and of every document of the iterator", "io::Read::read calls after the error"],
 note="Also covers UnexpectedEof and WouldBlock, which a careless reader loop would take for the end of the input."))

props.append(P("C06", "Documents of a stream are independent of each other and of the caller's pace",
 "Each document of a stream gives the result it would give alone at the same position, whatever its neighbours contain (anchors of the same name, unknown aliases, excessive nesting or expansion, values of the wrong type) and in whatever order documents are pulled, read, abandoned or dropped; an alias means the most recent node given that name within its own document. No document is lost, invented or reordered; after a syntax error nothing more is data.",
 ["histories", "inputs", "fault_sequences"],
 "for every stream of good and bad documents and every history of pulling, reading (whole, selectively, failing, stopping short), abandoning and dropping, on one or several streams at once",
 "the tests read a handful of streams strictly in order with good documents only",
 [DE, LO, PA], [("events of one document are collected before the next is touched", LO+": next_document"), ("anchors and aliases per document", LO+": anchors, aliases"), ("iterator state", DE+": Iterator for Deserializer, Progress")],
 ["results of each document pulled from the iterator"],
 note="Reference: the same document alone, at the same position behind comments of the same shape, plus the generator's own model for good documents."))

props.append(P("C07", "Failures and panics of the caller's code are contained",
 "If the caller's own visitor, serialization, formatting, reader or writer code returns an error or panics at any point, exactly that error message or panic arrives at the caller and nothing is reported as success. No memory is leaked, freed twice or touched after it was freed, documents and values not being processed are unharmed, and the library keeps working.",
 ["fault_sequences", "crash_points", "histories"],
 "for every callback of the caller's code at which an error or panic can strike, in every reading and writing operation, including streams and writers of any size and alignment",
 "the tests contain no panicking caller code and cannot see memory errors",
 [DE, SER, EM, PA, "src/libyaml/util.rs", "src/value/de.rs", "src/value/ser.rs"], [("ownership of pinned parser and emitter across unwinding", "src/libyaml/util.rs: Owned"), ("shared documents between iterator items", DE+": Progress::Document, Rc"), ("error passthrough", ERR+": Error::custom")],
 ["panic payloads and errors reaching the caller", "allocator accounting (red zones, poison, quarantine, live blocks)"],
 note="A checking allocator watches every block; a canary operation follows each failure."))

props.append(P("C08", "Sessions are isolated from each other, across threads and when nested",
 "A reading, writing or converting session gives the same results, bytes and errors when it runs alone as when it is interleaved in any order with sessions on other threads that share values with it, or when another session is started inside one of its reader, writer, visitor or serializer callbacks.",
 ["schedules", "programs", "inputs"],
 "for every set of concurrent sessions, every interleaving at their I/O and callback seams, and every nesting of one session in another's callback",
 "the tests run one session at a time and never re-enter the library from a callback",
 [DE, SER, LO, EM, "src/with.rs", "src/value/mod.rs"], [("no global or thread-local state outlives a call", "src/value/tagged.rs, "+SER+", src/with.rs"), ("values are plain shared data", "src/value/mod.rs")],
 ["results of each session compared with the same session alone"],
 note="Real threads of which exactly one runs; hand-over at every seam is decided by the seed. Preemption inside the library between two seams is not explored."))

props.append(P("C09", "A Mapping behaves as one ordered map through every history",
 "Under every history of insertions, lookups, entry operations, removals, retains, extensions, iterations and serialization, including callbacks that panic half way, a Mapping holds exactly the entries an insertion-ordered map would, in that order, whatever the hash seeds. Lookup by string, by reference and by Value find the same entry; equality, hashing and ordering agree with one another, for nested mappings too; what is serialized reads back equal.",
 ["histories", "fault_sequences", "configurations"],
 "for every history of operations on mappings with keys of every kind, every callback at which the caller panics, and every pair of hash seeds",
 "tests call a few methods on mappings of two or three entries, with one hash seed per process and no panics",
 ["src/mapping.rs", "src/value/index.rs", "src/value/mod.rs", "src/value/from.rs", "src/value/partial_eq.rs", SER],
 [("index-based ordered map", "src/mapping.rs: Mapping"), ("order-independent comparison and hashing", "src/mapping.rs: PartialOrd, Hash, PartialEq"), ("lookups by anything that indexes", "src/value/index.rs; src/mapping.rs: Index")],
 ["results of every Mapping and Entry call, iteration order and content after each"],
 note="Operation histories against an association list as the reference; hash seeds come from a simulated getrandom."))

props.append(P("C10", "Damaged or hostile bytes end in data or a located error",
 "For any bytes at all, reading ends without a panic, crash or hang, in work and memory bounded by the size of the input (alias bombs, self-references and deep nesting are refused, ordinary use of them is not). Slices, strings and readers, and generic, typed and Value consumers agree on documents and errors; errors of syntax are located, locations are true positions, and borrowed strings lie, in the input. Documents that end before the damage are unaffected (bytes that cannot be decoded may be reported up to 16 KiB early); what was read as a Value can be written and reads back the same.",
 ["inputs", "fault_sequences", "schedules"],
 "for every way storage or an adversary can alter a stream (torn, flipped, lost, duplicated, reordered blocks, bombs, recursion, oversized tokens, token soup), under every fragmentation",
 "tests hold a few dozen invalid inputs and one bomb, and compare neither entry points, work nor memory",
 [DE, LO, PA, ERR, "src/libyaml/error.rs", "src/value/de.rs"],
 [("recursion limit", DE+": recursion_check"), ("repetition limit", DE+": jump"), ("error positions", ERR+": fix_mark, Location; src/libyaml/error.rs: Mark"), ("selective reading without descending", DE+": ignore_any")],
 ["results and callbacks of each consumer", "live bytes while reading", "error messages and locations"],
 note="Work is counted in visitor callbacks, memory in live bytes of a counting allocator."))

props.append(P("C11", "Documents pass along a pipeline exactly once, in order, unchanged",
 "Documents written by one process, passed on by others and read by a last one arrive exactly once, in order and equal to the originals, in whatever form each process holds them: typed data (structs, all enum representations, options, tuples, maps with any keys, flattened fields, singleton_map), a Value, from_value/to_value, or streamed from deserializer to serializer. When a process dies, the others receive exactly the documents it had finished, see an error or end of stream, and all come to an end. A map that names no variant, or more than one, is not taken for an enum.",
 ["schedules", "crash_points", "histories", "inputs"],
 "for every chain of processes and forms, every interleaving over bounded pipes, every crash between or inside documents and every lost reader",
 "the tests convert one value at a time in memory, never through more than one process, a pipe or a crash",
 [SER, DE, LO, "src/value/de.rs", "src/value/ser.rs", "src/value/tagged.rs", "src/with.rs", "src/mapping.rs", "src/number.rs"],
 [("Value to and from typed data", "src/value/ser.rs: Serializer; src/value/de.rs: Deserializer for Value and &Value"), ("enums and tags in each form", "src/value/tagged.rs; src/with.rs"), ("multi-document streams", LO+": next_document; "+SER+": emit")],
 ["what every process read and how it ended", "bytes through the pipes"],
 note="Relays: Value, typed, from_value/to_value, streaming transcoder. Faults: EINTR, short transfers, backpressure, crashes, lost readers. Records use derived code over the whole serde data model."))

props.append(P("C12", "Editing a document tree in place: every edit, refusal and save is exact",
 "Loading a configuration, editing and querying its Value tree in place (indexing by key, position or Value, get_mut, mapping and sequence methods, conversions, tags, typed sections, merge keys) and saving it again gives, after any history, exactly the tree an ordered reference tree predicts. Edits that do not fit (wrong kind, out of bounds, bad merge sources) are refused at the step that does not fit and change nothing else. Merging resolves merge keys completely, own entries before merged ones and earlier sources before later ones; failed or crashed saves change neither the tree nor what is loaded next.",
 ["histories", "crash_points", "fault_sequences"],
 "for every history of loads, queries, edits, refused edits, merges and saves, every failing or dying save, and every tree",
 "tests make single edits on fixed trees and never save, fail or crash in between",
 ["src/value/index.rs", "src/value/mod.rs", "src/value/from.rs", "src/value/partial_eq.rs", "src/value/tagged.rs", "src/mapping.rs", SER, DE],
 [("index or insert", "src/value/index.rs: index_or_insert"), ("merge keys", "src/value/mod.rs: apply_merge"), ("tag-transparent access", "src/value/tagged.rs: untag_ref, untag_mut")],
 ["the tree after every operation", "panics of refused edits", "the file found by the next load"],
 note="Reference: an ordered tree with its own merge semantics. Order of entries after merging is not prescribed."))

props.append(P("C13", "An error names the node that caused it",
 "When exactly one node of a stream is at fault (the consumer refuses it at any callback or converting it afterwards, its type is not the one asked for, a key is unknown, doubled or missing, an alias has no anchor), the error carries exactly that node's byte index, line, column and path, and the consumer's own message. This holds in any notation, through aliases (position of the anchored node, path of its use), for wide characters and any line breaks, behind other documents, and however the bytes arrive.",
 ["fault_sequences", "inputs", "schedules"],
 "for every node of every document as the one at fault, every kind of fault, notation and fragmentation",
 "tests assert a handful of messages on inputs of a few lines",
 [DE, ERR, "src/path.rs", "src/libyaml/error.rs", PA, LO],
 [("first mark wins", ERR+": fix_mark"), ("paths", "src/path.rs; "+DE+": next_element_seed, next_value_seed"), ("aliases", DE+": jump")],
 ["location and message of the error"],
 note="The renderer of the documents records where each node starts; paths come from the drawn tree. A refusal around the root node, outside any visitor, may carry no position (an existing test pins that)."))

NA = "A pure function of one in-memory argument: no I/O, schedule, clock, crash or second party can influence it, so there is nothing for a simulator to inject. "

props.append(P("C20", "Plain scalars resolve by the documented grammar, quoted ones are strings",
 "A plain untagged scalar reads as null, boolean, integer (decimal, 0x, 0o, 0b, signed, up to 128 bits), float (including .inf and .nan) or string exactly as the YAML 1.2 core rules the library documents say, and a quoted or block scalar always reads as a string. Explicit core tags force their type or are refused.",
 ["inputs"], "for every scalar text, style and tag", "tests try a few dozen spellings",
 [DE], [("scalar resolution", DE+": visit_untagged_scalar, parse_unsigned_int, parse_f64, digits_but_not_number")],
 ["values read from a scalar"], claim=False, reason=NA+"That strings and numbers survive being written and read is covered end to end by C01, C03, C11 and C12."))

props.append(P("C21", "Numbers keep their value and compare, hash and print consistently",
 "A Number holds any u64, i64 or f64 exactly; its accessors, ordering, equality, hashing, parsing and printing agree with each other, with NaN equal to itself and floats distinct from integers.",
 ["inputs"], "for every pair of numbers", "tests compare a few pairs",
 ["src/number.rs"], [("number representation", "src/number.rs: N")],
 ["results of Number's methods"], claim=False, reason=NA+"Numbers as mapping keys and in documents are exercised by C09, C11 and C12."))

props.append(P("C22", "Emitted style is the documented one",
 "Enums are written as tags, or as single-entry maps under singleton_map and singleton_map_recursive, multi-line strings as block scalars, and ambiguous strings quoted; the exact text of a value never changes between versions without notice.",
 ["inputs"], "for every value", "tests pin a few dozen outputs",
 [SER, "src/with.rs"], [("scalar style", SER+": serialize_str"), ("singleton maps", "src/with.rs")],
 ["text of a serialized value"], claim=False, reason=NA+"A reference for the exact text would be a second emitter; that the text reads back is covered by C01 and C11."))

props.append(P("C23", "Running out of memory is never reported as success",
 "Whatever allocations fail, at any point of reading, writing or converting, every result, error and byte handed out until then is the one handed out with enough memory; what cannot be completed ends in an error saying that memory ran out (the buffer of a reader) or in the abort of the process, never in truncated or altered data, corrupted memory or a hang. After such an error nothing has leaked, the stream it belongs to delivers no more data, and the same operation succeeds once there is memory again.",
 ["fault_sequences", "inputs"], "for every allocation that fails, alone, with those after it, by size or by total, in every operation",
 "tests never fail an allocation",
 [LO, PA, EM, SER, DE, "src/value/mod.rs", "src/mapping.rs"],
 [("the reader's buffer", LO+": Progress::Read"), ("writing through the emitter", EM+": write_handler"), ("to_string", SER+": to_string")],
 ["results, bytes written, exit of the process"],
 note="The operation runs in a forked process whose allocator fails on request; it reports through a pipe, and the judge compares word for word with a run that had enough memory."))