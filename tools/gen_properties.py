#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mechanism],
                  "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Safe callers can never cause undefined behaviour",
  "Whatever a program does with the safe public API of the deser crates (driving serialization and deserialization with well-formed, malformed, truncated or continued-after-an-error event streams, with built-in, derived or user written types whose callbacks fail, panic or touch their data when they are dropped, or parsing arbitrary bytes as JSON) no undefined behaviour is executed: no use of freed, moved-out, uninitialised or aliased memory, and no str that is not valid UTF-8. Dropping a driver at any point of a stream is equally safe, and a sink or emitter is never used or dropped after the parent it borrows from.",
  ["inputs", "histories", "fault_sequences", "programs"],
  "Every sequence of safe API calls, including the streams cut short, mismatched, resumed after an error or a caught panic, and every byte string given to the JSON reader.",
  "The test suite drives about 60 well-formed streams to their end on ordinary hardware without any sanitizer; lifetime errors in the unsafe driver code stay silent there.",
  ["deser/src/de/driver.rs", "deser/src/ser/driver.rs", "deser/src/de/owned.rs", "deser/src/de/impls.rs", "deser/src/macros.rs", "deser-derive/src/ser.rs", "deser-derive/src/de.rs", "deser-json/src/de.rs"],
  [("extend_lifetime!: lifetimes erased, the stacks keep parents alive longer than children", "deser/src/macros.rs"),
   ("ManuallyDrop stacks with an explicit drop order", "deser/src/de/driver.rs, deser/src/ser/driver.rs"),
   ("NonuniqueBox slot bundled with its sink", "deser/src/de/owned.rs"),
   ("MaybeUninit element buffer with an initialised prefix", "deser/src/de/impls.rs")],
  state=[("sink stack / current sink", "parents of the sink that gets the next event", "deser/src/de/driver.rs"),
         ("emitter stack / serializable stack", "suspended containers", "deser/src/ser/driver.rs")],
  observe=["Miri (Stacked and Tree Borrows)", "AddressSanitizer with poisoned-on-drop parents"])

p("C02", "Every value is dropped exactly once and nothing leaks",
  "Every value, sink, emitter and handle that enters or is created by serialization or deserialization is dropped exactly once by the time the driver and the output slot are gone, whether the stream completed, failed, panicked in user code or was abandoned at any event. In particular elements already collected by a container whose deserialization fails (too many, too few or bad elements, missing fields, replaced duplicates) are neither leaked nor dropped twice, and once everything is dropped the heap is back to its previous size.",
  ["inputs", "histories", "crash_points", "fault_sequences"],
  "Every type, every event stream, and every event position at which the stream is cut, fails or panics.",
  "No existing test counts drops or heap blocks; error paths of arrays, maps and flattened structs are barely reached.",
  ["deser/src/de/impls.rs", "deser/src/de/owned.rs", "deser/src/de/driver.rs", "deser/src/ser/driver.rs"],
  [("array buffer drops its initialised prefix", "deser/src/de/impls.rs"),
   ("OwnedSink drops the sink and then its storage", "deser/src/de/owned.rs"),
   ("driver Drop implementations drain their stacks", "deser/src/de/driver.rs, deser/src/ser/driver.rs")],
  observe=["a ledger of live tracked values keyed by unique ids", "a counting global allocator"])

p("C03", "Serializing then deserializing the events gives the value back",
  "For every supported type and value, feeding the event stream produced by serializing the value into deserialization of the same type succeeds and yields an equal value; this includes all primitive types at their limits, strings, chars, bytes, options, tuples, arrays, boxes, all maps and sets, nested combinations, and derived structs, newtypes and enums under any combination of attributes whose meaning is invertible. The only accepted losses are those of the data model itself: an absent optional layer around null, and unequal NaN payloads.",
  ["inputs", "programs"],
  "Every value of every type built from the supported primitives, containers and derives.",
  "Tests serialize some types and deserialize others on fixed examples; no test connects the two directions through events.",
  ["deser/src/ser/impls.rs", "deser/src/de/impls.rs", "deser/src/ser/driver.rs", "deser/src/de/driver.rs", "deser-derive/src/ser.rs", "deser-derive/src/de.rs"],
  [("matching Serialize and Sink implementations per type", "deser/src/ser/impls.rs, deser/src/de/impls.rs"),
   ("derive macros", "deser-derive/src")],
  observe=["value equality after the trip", "event trace of the trip"])

p("C04", "Writing JSON and reading it back gives the value back",
  "For every value without non-finite floats that the JSON writer accepts, the JSON reader accepts the written text for the same type and returns an equal value, both with and without the optional number formatting speedups; the only accepted loss is an absent optional layer around null. Strings, chars, integers and finite floats come back exactly (up to the sign of a zero), and non-finite floats are written as null.",
  ["inputs", "configurations", "programs"],
  "Every value of every JSON-representable type built from primitives, containers and derives, in both feature configurations.",
  "Tests write and read four literals; no test writes and reads the same value, or any string or number near a boundary.",
  ["deser-json/src/ser.rs", "deser-json/src/de.rs", "deser/src/de/impls.rs", "deser/src/ser/impls.rs"],
  [("escape table and number formatting", "deser-json/src/ser.rs"), ("string unescaping and number parsing", "deser-json/src/de.rs")],
  observe=["value equality after the trip, floats by bits"])

p("C05", "The JSON reader accepts exactly well-formed JSON and never crashes",
  "For every byte string the JSON reader returns (it never panics, hangs or reads past the end), and it succeeds for a type that accepts any document exactly when the bytes are one RFC 8259 document in valid UTF-8, surrounded by optional whitespace, whose numbers fit a finite double. Anything else is reported as an error: invalid UTF-8, truncation, trailing text, misplaced or missing commas, colons, keys and brackets, bad literals, control characters or bad escapes and lone surrogates in strings, and malformed numbers.",
  ["inputs"],
  "Every byte string.",
  "Tests parse a handful of valid documents and no malformed one; the grammar has unboundedly many near misses.",
  ["deser-json/src/de.rs"],
  [("token loop with container stack", "deser-json/src/de.rs"), ("string and number scanners", "deser-json/src/de.rs")],
  state=[("container state", "first element / key position flags", "deser-json/src/de.rs")],
  observe=["accept/reject verdict against an independent RFC 8259 recogniser", "a per-case CPU watchdog", "panic capture"])

p("C06", "The JSON reader delivers the values the text denotes",
  "For every well-formed JSON document the reader delivers, in document order, exactly the values written there: strings and keys with all escapes and surrogate pairs decoded, booleans and nulls, integers in the 64-bit range exactly and with the right sign, and all other numbers as the double nearest to the decimal text. Insignificant whitespace, the spelling of escapes, and the position within the document never change what is delivered.",
  ["inputs"],
  "Every well-formed JSON document, every spelling of it.",
  "Tests check one small array and one map; escape sequences, surrogates, long numbers, exponents and 64-bit limits are not tested.",
  ["deser-json/src/de.rs"],
  [("string unescaping into a scratch buffer", "deser-json/src/de.rs"), ("integer overflow switch to float and power-of-ten scaling", "deser-json/src/de.rs")],
  state=[("scratch buffer", "decoded prefix of the current string", "deser-json/src/de.rs")],
  observe=["the events received by a recording sink, compared with an independent parse"])

p("C07", "The JSON writer emits valid JSON that means the value, or an error",
  "For every value the JSON writer either returns one well-formed RFC 8259 document that denotes exactly that value (same structure and order, same strings and keys, integers in full, floats that read back to the same double), or an error of the unsupported-type kind. The unsupported cases are exactly raw bytes and map keys that are neither strings nor chars; a char is written as the string holding that character; and the optional speedups change neither the verdict nor the meaning of the output.",
  ["inputs", "configurations", "programs"],
  "Every serializable value, both feature configurations.",
  "Tests compare two or three small outputs; no test parses the output independently or covers escapes, chars, floats or unsupported positions.",
  ["deser-json/src/ser.rs"],
  [("container state machine for commas, colons and keys", "deser-json/src/ser.rs"), ("escape table", "deser-json/src/ser.rs")],
  observe=["the written text, parsed by an independent strict parser and compared with a model of the value"])

p("C08", "Integers never change value silently",
  "An integer offered to any integer type, as a signed or unsigned event or as JSON text, at top level or inside any container, is stored with exactly its mathematical value when the type can represent it, and is otherwise rejected with an out-of-range error (an unexpected-type error for JSON integers outside the 64-bit range). Serializing any integer always produces its exact mathematical value.",
  ["inputs"],
  "Every (source event kind, 64-bit value, target type) combination and every container position.",
  "Two tests try one or two out-of-range literals; wrap-around at the signed/unsigned boundary and in other widths is untested.",
  ["deser/src/de/impls.rs", "deser/src/ser/impls.rs", "deser-json/src/de.rs"],
  [("range-checked conversion in the integer sinks", "deser/src/de/impls.rs"), ("overflow detection in the number scanner", "deser-json/src/de.rs")],
  observe=["stored value or error kind, compared with 128-bit arithmetic"])

p("C09", "Call stack use does not grow with the nesting depth of the data",
  "Serializing, deserializing, skipping, path-tracking and converting to or from JSON data nested to any depth uses an amount of call stack that does not depend on the depth, as all suspended work is kept on the heap; abandoning such a stream half way is also independent of the depth. Hence data nested hundreds of thousands of levels deep is processed completely and correctly on a small fixed stack.",
  ["inputs", "histories"],
  "Every nesting depth and every shape of nesting (sequences, maps, structs, mixtures, unknown fields), complete or abandoned.",
  "No test nests deeper than three levels, and stack overflow only shows at depths no unit test uses.",
  ["deser/src/de/driver.rs", "deser/src/ser/driver.rs", "deser-json/src/de.rs", "deser-json/src/ser.rs", "deser-path/src/de.rs", "deser-path/src/ser.rs"],
  [("explicit sink and emitter stacks instead of recursion", "deser/src/de/driver.rs, deser/src/ser/driver.rs"), ("explicit container stack", "deser-json/src")],
  observe=["stack addresses seen inside callbacks at every level", "completion on threads with small stacks"])

p("C10", "Serialization yields one well-formed event stream with true metadata",
  "Serializing any value yields exactly one well-formed event tree: starts and ends match by kind, every map alternates keys and values, and the content equals the value in the order its containers are iterated; afterwards no more events come. With every event the driver reports the descriptor of the value it belongs to (for an end event the one of its start), and the state seen by the consumer and by all callbacks has the depth and the innermost container that the events so far imply.",
  ["inputs", "programs", "histories"],
  "Every value of every type, every point of the stream.",
  "Tests compare event lists for two nested values and one descriptor; depth and descriptors within streams are unchecked.",
  ["deser/src/ser/driver.rs", "deser/src/ser/impls.rs", "deser/src/ser/mod.rs", "deser/src/descriptors.rs"],
  [("state machine over suspended emitters", "deser/src/ser/driver.rs"), ("descriptor stack", "deser/src/ser/mod.rs")],
  state=[("descriptor stack", "descriptors of the open containers", "deser/src/ser/mod.rs")],
  observe=["an online trace checker at the consumer", "probe values that record the state in their callbacks"])

p("C11", "Serialize and finish callbacks pair up exactly once, innermost first",
  "During a serialization that runs to its end, every value visited is asked to serialize exactly once and is told to finish exactly once, after the last event of its content and before anything that follows it, so that the calls nest like the data; emitters are only advanced while none of the values they handed out is unfinished. This also holds through options, references, boxes, newtypes, flattening and path tracking, and when the run is abandoned nothing is finished that was not serialized, nothing is finished twice, and once a value's callback has returned an error no value is called any more.",
  ["inputs", "histories", "fault_sequences", "programs"],
  "Every value tree, every wrapper nesting, every error or abandon point.",
  "One test counts finish calls of a flattened struct; ordering and pairing elsewhere is unobserved.",
  ["deser/src/ser/driver.rs", "deser/src/ser/impls.rs", "deser-derive/src/ser.rs", "deser-path/src/ser.rs"],
  [("FinishSerialize state queued for each value", "deser/src/ser/driver.rs"), ("forwarding implementations of wrappers", "deser/src/ser/impls.rs, deser-derive/src/ser.rs, deser-path/src/ser.rs")],
  observe=["a recorded log of serialize/finish/advance calls with unique value ids, checked offline"])

p("C12", "Sinks are driven by a fixed protocol",
  "For every well-formed event stream each sink handed out receives exactly one of atom, map or seq, then for containers strictly alternating key and value requests (maps) or value requests (sequences), one per child, and then exactly one finish, after all of its children have finished; the atom delivered is the event emitted. A parent is asked for its next child only after the previous child is finished and dropped, nothing is called on a sink after it finished, sinks wrapped by options, boxes, newtypes, flattening and path tracking see the same protocol, once a callback has returned an error no sink is called any more for that event, and while children are processed the state reports the true depth and innermost container descriptor.",
  ["inputs", "histories", "fault_sequences", "programs"],
  "Every well-formed event stream, every sink tree, every point of failure.",
  "Tests only look at the final value; the calls in between, on which user-written sinks rely, are unobserved.",
  ["deser/src/de/driver.rs", "deser/src/de/mod.rs", "deser/src/de/impls.rs", "deser/src/de/owned.rs", "deser-path/src/de.rs", "deser-derive/src/de.rs"],
  [("event dispatch with a layer stack", "deser/src/de/driver.rs"), ("forwarding sinks", "deser/src/de/impls.rs, deser-path/src/de.rs, deser-derive/src/de.rs")],
  state=[("layer", "next child is a key or a value", "deser/src/de/driver.rs")],
  observe=["a recorded log of all sink callbacks with unique sink ids, checked against the emitted stream"])

p("C13", "Built-in types accept exactly the events they stand for",
  "For every well-formed event stream and every type built from the built-in primitives and containers, deserialization succeeds with the value the stream denotes when the stream fits the type, and otherwise fails with the documented error kind of the first mismatch: unexpected for wrong kinds, out-of-range for numbers, wrong-length for tuples, arrays and byte arrays. Vectors keep order and length, later duplicates of map keys win, sets drop duplicates, options map null to none and delegate everything else unchanged, integers widen to floats, one-character strings are chars, and bytes fill byte vectors and byte arrays.",
  ["inputs", "programs"],
  "Every pair of event stream and type.",
  "Tests cover a dozen (stream, type) pairs, nearly all accepting; mismatches at depth, lengths and wrapper combinations are not covered.",
  ["deser/src/de/impls.rs", "deser/src/de/mod.rs", "deser/src/error.rs"],
  [("sink implementations", "deser/src/de/impls.rs")],
  observe=["result value or error kind, compared with a reference deserializer over the same stream"])

p("C14", "Derived deserialization follows its declared attributes",
  "For every derivable struct, newtype or enum and every event stream, derived deserialization yields what the declaration says: each key (in any order) goes to the field with that effective name or alias after rename and rename_all, flattened structs receive the keys they declare (a key that several could take goes to the struct's own field, then to the first flattened struct that takes it), unknown keys are skipped whole, later duplicates win, and enum strings select the variant of that name or alias. A missing field takes its own default, else the container default's value, else none for options, and else fails as a missing field; fields that are present never take a default and defaults are only computed when needed.",
  ["inputs", "programs", "configurations"],
  "Every declaration over the supported attributes, every event stream.",
  "Tests check about fifteen declarations with one or two inputs each; attribute combinations, key orders and malformed inputs are not explored.",
  ["deser-derive/src/de.rs", "deser-derive/src/attr.rs", "deser-derive/src/bound.rs", "deser/src/derive.rs"],
  [("generated sinks with per-field slots", "deser-derive/src/de.rs"), ("name mangling", "deser-derive/src/attr.rs")],
  observe=["results for randomly generated declarations, compared with an interpreter of the declaration"])

p("C15", "Derived serialization follows its declared attributes",
  "For every derivable struct, newtype or enum and every value, derived serialization emits one map with the fields in declaration order under their effective names, flattened structs contributing their own fields in place, and leaves out exactly those fields that are skipped by their skip condition or, if the container asks for it, because they are currently an absent optional; enums emit their effective variant name and newtypes exactly what their content emits. The descriptor reports the container's declared or renamed name, and aliases and defaults have no influence.",
  ["inputs", "programs", "configurations"],
  "Every declaration over the supported attributes, every value.",
  "Tests check about ten declarations with a value or two each; combinations of flatten, skip and optionals are not explored.",
  ["deser-derive/src/ser.rs", "deser-derive/src/attr.rs", "deser/src/derive.rs"],
  [("generated struct emitters", "deser-derive/src/ser.rs"), ("name mangling", "deser-derive/src/attr.rs")],
  observe=["event streams of randomly generated declarations, compared with an interpreter of the declaration"])

p("C16", "Tracked paths always equal the true location",
  "While path tracking is active, the path visible to any value's serialization callbacks, to the consumer of the events, and to any sink's callbacks during deserialization is exactly the location in the data of the value being processed: one segment per enclosing container, with the field name or string key, the element index or unsigned integer key, and unknown for negative, boolean and composite keys (locations inside a composite key are unspecified). After a container ends the path is back at the enclosing location, and after the whole value it is empty, however deep, wide or mixed the data is.",
  ["inputs", "histories", "programs"],
  "Every value, every position, both directions.",
  "Two tests look at one path each in a two-level value; siblings after nested containers and other key types are not tested.",
  ["deser-path/src/de.rs", "deser-path/src/ser.rs", "deser-path/src/lib.rs"],
  [("segments pushed and popped around each value", "deser-path/src/ser.rs"), ("segment replaced by each child and shared key capture", "deser-path/src/de.rs")],
  state=[("path segments", "extension value in the driver state", "deser-path/src/lib.rs")],
  observe=["the path read inside every callback, compared with the location implied by the trace"])

p("C17", "Transparent wrappers change nothing",
  "References, mutable references, boxes, options holding a value, newtypes, handles and the path tracking wrappers are transparent in both directions: the events, values, errors and skipping behaviour are those of the wrapped type alone, and so is the state seen by callbacks apart from the tracked path. References, boxes, newtypes and path tracking also report the wrapped value's own descriptor, optionality and expectation text; an option reports itself when serializing.",
  ["inputs", "programs", "configurations"],
  "Every value and stream, every stacking of wrappers.",
  "Wrappers are tested with one scalar each; containers, descriptors, optionality and errors through wrappers are not compared.",
  ["deser/src/ser/impls.rs", "deser/src/de/impls.rs", "deser/src/ser/mod.rs", "deser/src/de/mod.rs", "deser-path/src/ser.rs", "deser-path/src/de.rs", "deser-derive/src/ser.rs", "deser-derive/src/de.rs"],
  [("forwarding implementations", "deser/src/ser/impls.rs, deser/src/de/impls.rs, deser-path/src")],
  observe=["two traces (wrapped and bare) of the same value or stream, compared event by event"])

p("C18", "Debug output shows the value faithfully and always terminates",
  "The debug rendering of any serializable value is the one its event stream denotes: containers in order with their type name in front (left out for vectors and slices), map entries as key and value, atoms as the standard library shows them and bytes as an escaped byte string literal, in compact and in pretty form alike, and flags of the format (precision, sign, hexadecimal) reach the numbers in it. Formatting the same object again gives the same text, and a failing output writer makes formatting fail instead of looping or panicking.",
  ["inputs", "fault_sequences"],
  "Every value, both formats, every position at which the writer fails.",
  "One test compares one compact string; escapes, pretty form, nesting and failing writers are not tested.",
  ["deser-debug/src/lib.rs"],
  [("recorded events replayed into the standard debug builders", "deser-debug/src/lib.rs")],
  observe=["the text, compared with an independent renderer of the model value", "a step budget on failing writers"])

p("C19", "Extension state belongs to one run and one type",
  "Extension values read or written, one access at a time, through the serializer or deserializer state behave like one independent variable per type: initialised once with its default, holding what was last written by any callback or the consumer, unaffected by values of other types, and living exactly as long as the driver. No two drivers ever observe each other's extension values or progress, however their use is interleaved, nested in callbacks, or spread over threads.",
  ["histories", "schedules", "inputs"],
  "Every sequence of reads and writes in callbacks, every interleaving of several drivers.",
  "No test uses more than one extension type or more than one live driver.",
  ["deser/src/extensions.rs", "deser/src/de/mod.rs", "deser/src/ser/mod.rs"],
  [("type-keyed map inside the driver state", "deser/src/extensions.rs")],
  state=[("extension map", "type to boxed value", "deser/src/extensions.rs")],
  observe=["the values read at each access, compared with a sequential model per driver"])

p("C20", "Errors are reported and never turned into partial results",
  "An error raised anywhere while serializing or deserializing (by a mismatch, a malformed document, or by a user's callback) reaches the caller as that same error, and no convenience function or outer value ever returns a result built from data that failed, was incomplete or was rejected. A stream that stops before its end leaves no completed non-optional value in the output slot, every strict prefix of a JSON object, array or string is rejected, an end event that does not match the innermost open container and events after the end of the root value are refused by a panic, and neither changes values already produced.",
  ["inputs", "crash_points", "fault_sequences"],
  "Every position at which the input stops, is malformed or a callback fails.",
  "Tests check three error messages; they do not inject failures at each position nor cut streams.",
  ["deser/src/de/driver.rs", "deser/src/ser/driver.rs", "deser/src/de/impls.rs", "deser-json/src/de.rs", "deser-json/src/ser.rs", "deser/src/error.rs"],
  [("results are only stored by finish", "deser/src/de/impls.rs, deser-derive/src/de.rs"), ("error propagation", "deser/src/de/driver.rs, deser/src/ser/driver.rs")],
  observe=["returned errors (kind and message), output slots and panics with a fault injected at each position"])

p("C21", "Events, atoms and errors say what they were made from",
  "Every way to make an event, chunk or atom from a value yields exactly that value, an event that is copied to keep it (to_static) equals its original, and a stream that was recorded through such copies drives a deserializer to the same outcome as the original stream. Errors keep the kind, message and source they were made with, in every way they are displayed, and a mismatch is reported by naming what was found (null, bool, string, bytes, char, unsigned integer, signed integer, float, sequence, map, or their ends) and what the sink expects, which defaults to the name of the type's descriptor. Operations a sink or type does not provide behave as documented: atoms and containers are refused, fields of a structure are unknown, a value is not optional, finishing does nothing.",
  ["inputs", "configurations"],
  "All atoms (all types, contents and lengths), borrowed and owned strings and bytes, all sinks with all subsets of their methods provided, all mismatching events.",
  "Three unit tests look at one error message each; conversions and copies are only used with short literals.",
  ["deser/src/event.rs", "deser/src/ser/chunk.rs", "deser/src/error.rs", "deser/src/de/mod.rs", "deser/src/ser/mod.rs", "deser/src/descriptors.rs", "deser/src/macros.rs", "deser-derive/src/de.rs"],
  [("From impls and to_static", "deser/src/event.rs, deser/src/ser/chunk.rs"),
   ("provided methods of Sink and Serialize", "deser/src/de/mod.rs, deser/src/ser/mod.rs"),
   ("unexpected_error, expecting", "deser/src/event.rs, deser/src/de/mod.rs, deser/src/macros.rs")],
  observe=["events, chunks, atoms and errors at the public API"])

p("C22", "Cost is proportional to the data, and passing data through takes no memory",
  "Serializing, deserializing into sinks that store nothing, skipping unknown data, tracking paths and reading or writing JSON take memory that depends on the nesting depth of the data and the length of its longest string, never on how many items were processed (the text written aside). In all operations of the crates memory, allocations and time grow no faster than proportionally to the size of the data and its depth, no matter how it is arranged (wide, deep, many keys, many fields, many aliases or many unknown keys, long strings with and without escapes), and once an operation is over and its result dropped nothing it allocated stays behind.",
  ["inputs"],
  "All sizes and shapes of data in either direction, well-formed or not.",
  "Tests use values of a few items; a leak per item or a quadratic pass is invisible there.",
  ["deser/src/ser/driver.rs", "deser/src/de/driver.rs", "deser/src/de/ignore.rs", "deser/src/de/impls.rs", "deser/src/ser/impls.rs", "deser-path/src/de.rs", "deser-path/src/ser.rs", "deser-json/src/de.rs", "deser-json/src/ser.rs", "deser-debug/src/lib.rs"],
  [("explicit stacks that shrink when a container ends", "deser/src/ser/driver.rs, deser/src/de/driver.rs"),
   ("values are moved, not copied, into their slots", "deser/src/de/impls.rs"),
   ("one path per stream, shared with the extensions", "deser-path/src/ser.rs, deser-path/src/de.rs"),
   ("single pass over the input with a reused buffer", "deser-json/src/de.rs")],
  observe=["allocator: bytes in use, peak, number of allocations; CPU time"])

p("C23", "A declaration means what it says, or is refused when it is compiled",
  "The derive macros never ignore what they are told: a deser attribute on a type, field or variant that is unknown there, malformed, repeated, of the wrong kind (a path where a string is needed and the like), empty of meaning (an unknown rename_all style, a function that is no path), or in conflict with another one (flatten and default) is refused with an error that names a reason, and so are the types that are not supported (unit and other tuple structs, unions, enums with data or generics) and, when deriving Deserialize, names and aliases that are used twice. Every declaration that uses only the documented features is accepted, however it is written (attributes split, combined, in any order, behind cfg_attr or made by a macro; raw or non-ASCII identifiers; generics), whatever the type, its fields and the items around it are called, even like those of the standard prelude or of deser, and it then does what it declares.",
  ["programs"],
  "All declarations that may be given to the derive macros, and all surroundings of them.",
  "Tests only contain some 40 accepted declarations, in ordinary surroundings; no test shows that anything is refused.",
  ["deser-derive/src/attr.rs", "deser-derive/src/de.rs", "deser-derive/src/ser.rs", "deser-derive/src/bound.rs", "deser-derive/src/lib.rs", "deser/src/lib.rs"],
  [("attribute parsing", "deser-derive/src/attr.rs"),
   ("duplicate names, supported kinds", "deser-derive/src/de.rs, deser-derive/src/ser.rs"),
   ("fully qualified generated code", "deser-derive/src/de.rs, deser-derive/src/ser.rs, deser/src/lib.rs (__derive)")],
  observe=["compiler diagnostics per declaration; JSON, values and descriptor names of accepted declarations"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
