#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script only so that the file stays consistently formatted).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
S="core/src/"
p("C01","A parsed log is re-emitted byte for byte, through any reader and writer",
 "Parsing a well-formed ULog file with header, timestamps and padding included and re-encoding every yielded message, in order, reproduces the input file byte for byte. This holds for every message kind (tagged and untagged log strings, subscriptions being removed, sync marks and message types unknown to the library included) and for every field type, nesting and array size. It does not depend on how the reader splits, delays or interrupts the bytes it hands over, nor on how the writer splits or interrupts the bytes it accepts.",
 ["inputs","schedules","fault_sequences"],"every well-formed log in canonical text form, times every way the reader's and writer's calls can be split, delayed or interrupted",
 "test_roundtrip re-emits four sample logs, which contain no tagged strings, no removed subscriptions and few nested formats, through an ordinary file that is never short or interrupted.",
 [S+"encode.rs",S+"parser.rs",S+"datastream.rs",S+"model.rs",S+"formats.rs",S+"display.rs"],
 [("Encode impls mirror the parse functions",S+"encode.rs"),("frame = size, type, content",S+"encode.rs: Encode for UlogMessage"),("type names rendered as in the log",S+"display.rs: BaseType")],
 ["bytes accepted by the writer passed to Encode::encode"])
p("C02","Every message is decoded to its logged value however its bytes are delivered",
 "Every message of a well-formed log is yielded exactly once, in file order, as its own kind, with exactly the keys, names, types, numbers, text and timestamps that were logged, including nested and array fields and padding fields of any shape. The result is a function of the bytes alone: it is the same whether the reader hands over one byte at a time, arbitrary pieces or everything at once, with or without interrupted calls, and the same on every run.",
 ["inputs","schedules","fault_sequences"],"every well-formed log, every split of it into read calls and every placement of interrupted calls",
 "The tests decode a handful of fields from sample logs read through BufReader; they never vary how the bytes arrive and never compare whole messages with what was logged.",
 [S+"parser.rs",S+"formats.rs",S+"tokenizer.rs",S+"field_helpers.rs",S+"message_buf.rs",S+"datastream.rs"],
 [("frame reader",S+"parser.rs: next_sub, read_message_header, read_message"),("typed field decoding",S+"parser.rs: parse_data_message_sub, parse_field_value, parse_array_field"),("format text parser",S+"formats.rs, tokenizer.rs")],
 ["items of the ULogParser iterator"],
 [dict(name="parser section",meaning="header, definitions, data, end",where=S+"parser.rs: State"),dict(name="formats",meaning="definitions seen so far",where=S+"parser.rs: ULogParser.formats")])
p("C03","A log cut off at any byte yields exactly its complete messages",
 "When a log ends at an arbitrary byte (the logger crashed or lost power), the parser yields exactly the messages that are completely present, unchanged and in order, and then ends or reports an error. It never yields a message, or a file header, any part of which was not in the file; in particular missing bytes are never replaced by zeros. A cut inside a message's content or inside the file header is reported as an error, not as a normal end of log.",
 ["crash_points","inputs","schedules"],"every log, every cut position, every delivery of the surviving bytes, both the low-level parser and derived streams",
 "No test reads a truncated log; every sample file ends on a message boundary.",
 [S+"parser.rs",S+"datastream.rs"],
 [("end of input tracking",S+"datastream.rs: eof flag, read_exact"),("message body read",S+"parser.rs: read_message"),("file header read",S+"parser.rs: read_file_header")],
 ["items of the ULogParser iterator","items of a derived stream"])
p("C04","A failing read is reported, and retrying resumes without loss or repeats",
 "When the caller's reader fails with an I/O error at any byte, the parser reports that I/O error to the caller (not a normal end of log, not a different error, and not a message). If the reader recovers and the caller asks again, parsing continues exactly where it stopped: over the whole session every message of the log is yielded exactly once, in order, with its correct content, however many failures occurred and wherever they fell, inside the file header and message headers included. An interrupted call is retried silently.",
 ["fault_sequences","schedules","inputs"],"every placement, kind and number of read failures, in every log, for the low-level parser and derived streams",
 "No test has a reader that fails; sample files are read from disk without errors.",
 [S+"datastream.rs",S+"parser.rs",S+"errors.rs","macros/src/lib.rs"],
 [("read errors mapped to the library's I/O error",S+"datastream.rs: read_exact"),("parser state across an error",S+"parser.rs: next_sub")],
 ["items of the ULogParser iterator","items of a derived stream"])
p("C05","Encoding never claims success for bytes the writer did not take",
 "When encoding a message, or one of its parts, returns success, the writer has accepted exactly that message's complete and correctly framed bytes, nothing else, even if it accepted them in small pieces or with interruptions. When the writer fails (device error, disk full, or a write that accepts nothing) encoding returns an error and what was accepted is a prefix of the correct bytes. A message too large for the format's length fields is refused with an error instead of being written with a wrong length.",
 ["fault_sequences","schedules","inputs"],"every message, every way of splitting, interrupting and failing the write calls",
 "The tests encode only into a Vec or a healthy file, which accept every write completely and never fail.",
 [S+"encode.rs"],
 [("write_all for every piece, errors propagated",S+"encode.rs"),("length prefixes",S+"encode.rs: Encode for UlogMessage, Info, MultiInfo, Parameter, DefaultParameter")],
 ["result of Encode::encode and bytes accepted by the writer"])
p("C06","Damage inside one message's content affects only that message",
 "If the content of one data, log-string, info, parameter, dropout, sync or unknown message is damaged in storage while its length and type are intact, every other message of the log is still yielded unchanged and in order; only the damaged message's own position may show an error or altered content. The same holds for derived streams, and an error reported for the damaged message does not end the iteration.",
 ["fault_sequences","inputs","histories"],"every log, every choice of damaged message and every damage to its content",
 "No test reads a damaged log or continues iterating after an error.",
 [S+"parser.rs",S+"message_buf.rs","macros/src/lib.rs"],
 [("whole message content read before it is interpreted",S+"parser.rs: next_sub, read_message"),("state changed only by definitions and subscriptions",S+"parser.rs: next_sub")],
 ["items of the ULogParser iterator","items of a derived stream"])
p("C07","No damaged log can panic, abort, hang or exhaust the reading process",
 "For any byte stream whatever, in particular a valid log with flipped, lost, duplicated, zeroed or overwritten bytes, the low-level parser and derived streams only ever yield messages or errors. They never panic, overflow the stack or abort, every call to obtain the next item returns after bounded work, and memory use stays in proportion to the bytes read, whatever array sizes, nesting or self-references the damaged definitions claim.",
 ["fault_sequences","inputs"],"every sequence of storage faults applied to every log",
 "The tests only feed intact sample files; a panic needs specific damage (an array size, a type name, a length) that no sample contains.",
 [S+"parser.rs",S+"tokenizer.rs",S+"formats.rs",S+"field_helpers.rs",S+"message_buf.rs","macros/src/lib.rs",S+"macro_utils.rs"],
 [("bounds-checked content buffer",S+"message_buf.rs: advance"),("errors instead of panics",S+"errors.rs"),("array and nesting decoding",S+"field_helpers.rs, parser.rs")],
 ["outcome of each next() call: item, error, panic, process death, allocation volume"])
p("C08","Memory stays flat over arbitrarily long logs and is fully released",
 "While a log of any length is read and its messages are dropped as they are consumed, memory held by the parser depends only on the definitions and subscriptions seen, not on the number of messages read, and the memory needed to produce one message is bounded in proportion to that message's size. When the parser and all messages have been dropped, at whatever point reading stopped, everything has been released. The same holds for derived streams.",
 ["inputs","histories"],"every log length, message mix and point at which reading is abandoned",
 "No test measures memory, and the sample logs are too short for growth to matter.",
 [S+"parser.rs",S+"datastream.rs","macros/src/lib.rs"],
 [("one message buffer at a time",S+"parser.rs: read_message"),("shared definitions",S+"model.rs: Shared")],
 ["live heap bytes after each item, peak during each next(), live bytes after drop"])
p("C09","A message is yielded as soon as its last byte has arrived",
 "When a log arrives over a live connection, each message is yielded by the next request made once its last byte is available, without waiting for any later byte; the same holds for a requested file header and for every message a derived stream passes on. While bytes are missing the parser asks the reader for them instead of yielding anything.",
 ["schedules","inputs"],"every log and every arrival schedule of its bytes",
 "Tests read complete files, where looking ahead costs nothing and goes unnoticed.",
 [S+"parser.rs",S+"datastream.rs","macros/src/lib.rs"],
 [("exact-size reads",S+"datastream.rs: read_exact"),("one frame per item",S+"parser.rs: next_sub")],
 ["simulated arrival time of bytes against simulated time of the yielded item"])
p("C10","Nothing at or past the appended-data offset is parsed as log content",
 "When the flag message marks appended data (such as a crash dump), the parser yields every message that ends at or before the first non-zero appended-data offset and then ends normally. It never yields a message that contains a byte at or past that offset, even if a message cut short by the crash claims to extend past it or the appended bytes look like valid messages, and even when the offset lies beyond 4 GiB; offsets are ignored when the flag is not set.",
 ["crash_points","inputs","configurations"],"every log, every point at which the logger stopped, every appended content and every flag/offset combination",
 "No sample log has appended data.",
 [S+"parser.rs",S+"datastream.rs",S+"model.rs"],
 [("read limit taken from the flag message",S+"parser.rs: parse_definition, max_bytes_to_read"),("byte position",S+"datastream.rs: num_bytes_read")],
 ["items of the ULogParser iterator","bytes taken from the reader"])
p("C11","Logged data is decoded under the subscription in force when it was logged",
 "For every interleaving of subscriptions being added, removed, re-added or redirected with data messages, each data message is decoded with the format and message name of the subscription that was in force for its id at that point, and its multi-instance index is reported exactly when some instance other than 0 of that message has been subscribed so far. Data for an id with no subscription in force is reported as an error and nothing else is affected. Looking up a subscription or format through the parser agrees with this history at every step.",
 ["histories","inputs"],"every history of add, remove, re-add and data operations over any number of ids and instances",
 "The samples subscribe everything once and never remove or reuse an id; tests look at two or three topics.",
 [S+"parser.rs"],
 [("subscription table keyed by id",S+"parser.rs: subscriptions, next_sub, parse_data"),("multi-instance names",S+"parser.rs: message_name_with_multi_id")],
 ["items of the ULogParser iterator","ULogParser::get_subscription","ULogParser::get_format"],
 [dict(name="subscriptions",meaning="id to subscription in force",where=S+"parser.rs")])
p("C12","Filters and include options hide exactly what they name and nothing else",
 "With an allow list, from the moment it is set, every data message whose current subscription name is on the list is yielded exactly as without a list, every other data message appears in its place as an ignored message, and all other messages are unchanged. The include options only add or remove the file header, the top-level timestamp field and padding fields; every remaining field, value, timestamp and message is the same under every combination of options. This holds for every log, wherever subscriptions, removals and redirections fall.",
 ["configurations","histories","inputs"],"every combination of allow list and include options over every log and subscription history",
 "One test checks one allow list on one file and does not compare contents; no test varies the include options.",
 [S+"builder.rs",S+"parser.rs"],
 [("names resolved to ids at subscription time",S+"parser.rs: SubscriptionFilter"),("field filtering",S+"parser.rs: filter_fields, parse_padding")],
 ["items of the ULogParser iterator"])
p("C13","A derived stream yields exactly the mapped messages with their logged values",
 "A derived stream yields, in log order, one typed value for each data message whose message name and instance are mapped, each field taken from the logged field of that name whatever its position, an optional field being absent only if the log's format lacks it; all other messages go to the forwarding variant if there is one and are otherwise skipped, with data of message names neither mapped nor requested appearing there only as ignored. A missing required field or a field of another type is reported as an error, never as an invented or neighbouring value. Extra subscriptions and forwarded subscription messages requested through the builder appear exactly as the low-level parser yields them.",
 ["inputs","configurations","histories","schedules"],"every log, field order, format evolution, instance mix, builder configuration and delivery schedule",
 "The derive tests read three messages from one sample file in which the field order and instances are fixed.",
 ["macros/src/lib.rs","macros/src/utils.rs",S+"macro_utils.rs",S+"parser.rs"],
 [("name and instance dispatch",  "macros/src/lib.rs: add_subscription_arms"),("accessor indices by name","macros/src/lib.rs: accessor_struct"),("typed conversion",S+"macro_utils.rs: FromField")],
 ["items of a derived stream compared with the low-level items of the same bytes"],
 [dict(name="accessors by id",meaning="which mapped type reads which id",where="macros/src/lib.rs: subs")])
p("C14","Parsers working side by side never affect one another",
 "Any number of parsers, derived streams and encoders working on different inputs in one process, on one thread or several, each give exactly the results they would give alone, however their steps interleave, down to the individual read and write calls. Reusing the same names, ids and definitions in different logs makes no difference, and neither does abandoning one of them half way.",
 ["schedules","inputs"],"every interleaving of any number of concurrent parsers and encoders over any logs",
 "Tests run one parser at a time on one thread and never interleave two.",
 [S+"parser.rs",S+"tokenizer.rs",S+"encode.rs",S+"model.rs"],
 [("all state owned by the parser value",S+"parser.rs: ULogParser"),("process-wide tokenizer regex",S+"tokenizer.rs: TOKEN_REGEXP")],
 ["items and bytes of each parser against the same parser run alone"])
p("C15","Messages handed to other threads stay intact under every interleaving",
 "In the thread-safe build, messages passed to other threads, cloned between them, read, encoded and dropped there keep exactly the content they had when they were yielded, however those threads interleave with each other and with the parser that goes on reading, reports errors, or is dropped. Encoding such a message on any thread at any time gives the bytes that were logged.",
 ["schedules","inputs"],"every interleaving of a parsing thread with any number of consuming threads over every log",
 "The only test checks at compile time that the types are Send and Sync; no test runs two threads.",
 [S+"model.rs",S+"parser.rs",S+"encode.rs"],
 [("atomically shared definitions",S+"model.rs: Shared under the thread_safe feature")],
 ["content and encoding of messages on consumer threads"])
p("C16","Reading or writing a log has no output other than through caller's arguments",
 "Parsing and encoding write nothing to the process's standard output or standard error, whatever the log contains, well-formed or damaged; they touch only the reader or writer they were given (diagnostics go to the caller's logger, if one is installed). A full or closed standard output or error stream therefore never changes the result and never causes a panic.",
 ["inputs","fault_sequences"],"every log, with the process's standard streams healthy, full or closed",
 "Tests do not look at the process's output, and none runs with a failing standard output.",
 [S+"parser.rs",S+"formats.rs",S+"encode.rs","macros/src/lib.rs"],
 [("diagnostics through the log facade only","core/src")],
 ["bytes arriving at file descriptors 1 and 2, results with those descriptors failing"])
p("C17","Re-emitting a log can be interrupted by a crash anywhere and resumed exactly",
 "If a program that re-emits a log crashes at any point, the part of its output that survived parses to exactly the first messages of the original log, at most the last one missing or cut. Dropping the cut remainder and continuing from the first message not completely present, after any number of crashes, produces a file identical to the original.",
 ["crash_points","fault_sequences","inputs"],"every log, every sequence of crash points of the writing process and every amount of unflushed output lost",
 "No test crashes while writing or parses a partly written file.",
 [S+"encode.rs",S+"parser.rs"],
 [("self-delimiting frames written in order",S+"encode.rs: Encode for UlogMessage"),("torn tail recognised",S+"parser.rs")],
 ["surviving output bytes, items parsed from them, final output"])
p("C18","Low-level byte source: typed reads and skips are exact at every position",
 "Over any sequence of typed reads, exact reads, string reads and skips that stay inside the input, the byte source returns the little-endian values of the bytes at the current position and advances by exactly their size, however the underlying reader splits or interrupts its calls. A skip that reaches past the end stops at the end and reports how many bytes were actually skipped.",
 ["schedules","histories","inputs"],"every sequence of operations over every input and every split of the underlying reads",
 "Two tests read each type once from an ordinary file.",
 [S+"datastream.rs"],
 [("exact reads",S+"datastream.rs: read_exact"),("skip loop",S+"datastream.rs: skip")],
 ["return values of the byte source's operations"])
p("C19","Iteration over any finite input ends, and once ended stays ended",
 "For every finite input and any finite number of read failures, repeatedly asking for the next message reaches the end within a number of steps bounded by the input's length plus the number of failures, even if every error is ignored. Once the end was reported it is reported for ever, even if the reader later supplies more bytes. An input that does not begin with a valid ULog file header yields only errors and then the end, never a message.",
 ["inputs","fault_sequences","schedules"],"every finite input (well-formed, damaged, or not a log at all), every pattern of read failures, data appearing after the end",
 "Tests stop at the first end or error and never ask again.",
 [S+"parser.rs",S+"datastream.rs","macros/src/lib.rs"],
 [("terminal state",S+"parser.rs: State::EOF, State::ERROR"),("end flag",S+"datastream.rs: eof")],
 ["sequence of next() results"])
p("C20","The derive macros reject unsupported types at compile time",
 "Deriving on enums, tuple structs, generic types, multi-field variants or with more than one forwarding variant is refused by the compiler with an explanatory message, and everything the documentation allows compiles.",
 ["programs"],"every Rust program using the derive macros",
 "The compile tests sample nine programs.",
 ["macros/src/lib.rs","macros/src/utils.rs"],[("explicit compile errors","macros/src/lib.rs")],["compiler output"])
p("C21","Text rendering of a message shows the message's own values",
 "The printed form of every message and field value shows that value and no other, independent of the platform.",
 ["inputs"],"every message value",
 "No test looks at printed forms.",
 [S+"display.rs"],[("Display impls",S+"display.rs")],["output of Display"])
p("C22","The in-memory content buffer returns the values at its position or an error",
 "Taking typed values from an in-memory buffer returns the little-endian values at the current position, advances by their size, and reports an error without advancing when too few bytes remain.",
 ["inputs"],"every buffer and sequence of operations",
 "One doc test takes three values.",
 [S+"message_buf.rs"],[("bounds check",S+"message_buf.rs: advance")],["return values"])
p("C23","Damage to a definition affects only the messages that depend on it",
 "When stored bytes inside a format definition (after its name) or inside a subscription (its name or instance number) have changed, with all message frames intact and the data section still beginning at the same subscription, every message that does not depend on the damaged definition is yielded exactly as without the damage, in order. Depending means: for a format, the subscriptions and data of that format and of formats that contain it; for a subscription, the data under its id until that id is subscribed again, and the data of the two names it had and got. The damaged message and each message that depends on it give exactly one answer, an item or an error.",
 ["fault_sequences","inputs","schedules"],"every log, every damage to the text of formats and subscriptions, every delivery of the bytes, under any reading options",
 "No test reads a damaged log; a definition's damage shows in messages that come much later.",
 [S+"parser.rs",S+"formats.rs",S+"tokenizer.rs"],
 [("definitions by name",S+"parser.rs: formats, get_format"),("subscription table",S+"parser.rs: subscriptions"),("format text parser",S+"formats.rs, tokenizer.rs")],
 ["items of the ULogParser iterator"])
p("C24","A parser or stream handed from thread to thread keeps its place",
 "In the thread-safe build a parser, or a derived stream, may be passed between threads at any moment between two answers, while other threads use other parsers. The answers it gives, in the order they were asked for, are those it gives on one thread: no message is lost, repeated or altered, whichever thread asks, however often it changes hands, whether earlier threads have ended, and on whichever thread it is dropped.",
 ["schedules","fault_sequences","histories"],"every interleaving of threads that take turns with several parsers and streams, every log, with read failures, damage and abandonment",
 "The tests are single-threaded.",
 [S+"parser.rs",S+"model.rs",S+"datastream.rs","macros/src/lib.rs"],
 [("shared definitions",S+"model.rs: Shared under thread_safe"),("parser state",S+"parser.rs: ULogParser"),("accessor table of a stream","macros/src/lib.rs")],
 ["answers of next() on every thread"])
p("C25","A yielded message stays what it was, whatever happens afterwards",
 "A message that has been yielded, and every copy of it, keeps its values, its printed form and its encoding for as long as it is kept: while the parser reads on through further definitions, subscriptions that are replaced or removed, damaged messages and read failures, while other messages are encoded to writers that fail, and after the parser and all other messages have been dropped, in any order.",
 ["histories","fault_sequences","inputs"],"every log and fault, every choice and order of messages kept, copied, looked at again and dropped",
 "The tests look at a message only once, as soon as it is yielded.",
 [S+"parser.rs",S+"model.rs",S+"encode.rs",S+"display.rs"],
 [("owned values, shared immutable definitions",S+"model.rs: inst::Format, Shared")],
 ["field values, Display and Debug output and encoded bytes of kept messages"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
