#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as the source of the property list."""
import json, os
P = []
CODEC = ["protospec-build/src/coder", "protospec-build/src/compiler/decoder.rs",
         "protospec-build/src/compiler/encoder.rs", "protospec-build/src/compiler/mod.rs"]
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": hook}})

prop("P01", "Messages round-trip back to back over any stream",
 "For every valid specification and every sequence of values its types can represent, encoding the values one after the other onto one stream and decoding the same types from the other end yields exactly those values (computed fields carrying their computed result), in order. "
 "Each decode consumes exactly the bytes its own encode produced, so that nothing of the next message is eaten or left over, however the stream happens to be cut into pieces on the way.",
 ["inputs", "programs", "schedules"],
 "all specifications over the supported type constructors x all values x all message sequences x all ways the transport splits the bytes into reads and writes",
 "The compiler tests round-trip a few hand-written values of a few dozen fixed types, one message at a time, through a Vec and an in-memory slice: no second message, no split read, no boundary values, no composed types.",
 CODEC + ["protospec-build/src/prelude"],
 [("encode instruction lists mirror decode instruction lists", "protospec-build/src/coder/encode, protospec-build/src/coder/decode"),
  ("generated encode_sync/decode_sync", "protospec-build/src/compiler/encoder.rs, decoder.rs")],
 ["generated encode_sync / decode_sync: returned value, bytes consumed from the reader"])

prop("P02", "Encoded bytes are exactly the layout the specification prescribes",
 "The bytes an encoder puts on a stream for a value are exactly those the specification prescribes: fields in declaration order, each in its declared width, signedness and byte order, with the declared padding, repeat counts, terminators, presence conditions, tags, enumeration and flag values, type arguments and constants, with expressions having their documented precedence and meaning. "
 "This holds for every value and for every way the sink accepts the bytes (short writes, interruptions), and the same layout is what the decoder reads.",
 ["inputs", "programs", "fault_sequences"],
 "all specifications over the supported constructors and expressions x all values x all short-write/interruption patterns of the sink",
 "The tests compare an encoder with its own decoder, so a mistake made on both sides (byte order, a wrong enumeration value, swapped fields, a mis-parsed expression) passes; only two tests look at bytes, for one value each.",
 CODEC + ["protospec-build/src/compiler/expr.rs", "protospec-build/src/parser", "protospec-build/src/semantics", "protospec-build/src/asg", "protospec-build/src/prelude"],
 [("lowering of types to encode instructions", "protospec-build/src/coder/encode"),
  ("expression lowering", "protospec-build/src/compiler/expr.rs"),
  ("foreign types of the prelude", "protospec-build/src/prelude")],
 ["bytes accepted by the writer given to generated encode_sync"])

prop("P03", "Decoding does not depend on how the stream is fragmented",
 "Decoding a given sequence of bytes gives the same result (the same value and the same number of bytes consumed, or a failure) no matter how the stream hands the bytes out: in one piece, one byte at a time, in any other chunk sizes, with interrupted reads in between. "
 "Every such decode finishes after a number of reads bounded by the number of bytes on the stream.",
 ["schedules", "inputs", "fault_sequences"],
 "all byte strings, valid or not x all partitions of the stream into chunks x all placements of interrupted reads",
 "Tests decode from an in-memory slice, which always offers all remaining bytes at once and is never interrupted.",
 ["protospec-build/src/compiler/decoder.rs", "protospec-build/src/prelude"],
 [("read_exact/read_to_end use, terminator look-ahead on the buffered reader", "protospec-build/src/compiler/decoder.rs (Loop)"),
  ("string decoding", "protospec-build/src/prelude/utf8.rs, utf16.rs, var.rs")],
 ["generated decode_sync on a reader with scheduled chunking: result, consumed position, number of read calls"])

prop("P04", "A message cut short is an error, never a shorter value",
 "If the stream ends before the last byte of a message (the peer crashed or the connection dropped), decoding that message fails, and all messages completely delivered before it decode to their exact values. "
 "The only exceptions are elements the format itself ends at end of stream (an open-ended or terminator-ended array or string not enclosed in a declared length), and then the value holds exactly the elements delivered; a partially delivered element or a region with a declared length that is not completely there is always an error.",
 ["crash_points", "inputs"],
 "all values x every byte position at which the sender may stop x all fragmentations",
 "No test truncates a stream; a decoder that returns a value for a torn message passes all of them.",
 ["protospec-build/src/compiler/decoder.rs", "protospec-build/src/coder/decode", "protospec-build/src/prelude"],
 [("exact reads of primitives and arrays", "protospec-build/src/compiler/decoder.rs"),
  ("length-constrained sub-streams", "protospec-build/src/coder/decode/container.rs (Constrict)")],
 ["generated decode_sync result at every truncation point"])

prop("P05", "Read errors are reported and never turned into data",
 "If the stream reports an I/O error at the point where a decoder needs more data, the decode fails with that error: it neither returns a value, nor retries for ever, nor panics, and it consumes nothing past the failure. "
 "A decode whose bytes all arrive before the error succeeds with the exact value, and an interrupted read is never visible in the result.",
 ["fault_sequences", "inputs"],
 "all values x every byte position x error kinds (connection reset, timeout, other, interruption) x all fragmentations",
 "No test uses a reader that can fail.",
 ["protospec-build/src/compiler/decoder.rs", "protospec-build/src/prelude"],
 [("? propagation after each read in generated code", "protospec-build/src/compiler/decoder.rs")],
 ["generated decode_sync result, error kind in the error chain, reader position"])

prop("P06", "An encode that reports success delivered every byte; a failed sink fails it",
 "Whenever the sink refuses data (full disk, broken connection, a zero-length write) at any byte of a message, including while a transformed or length-delimited part is being flushed, the encode returns an error and the bytes the sink did take are a prefix of the correct encoding. "
 "It returns success only when every byte of the correct encoding has been accepted, whatever short writes and interruptions happened on the way, and it never panics.",
 ["fault_sequences", "crash_points", "inputs"],
 "all values x every byte position x error kinds (error, zero-length write, interruption, flush failure) x all short-write patterns",
 "Tests only encode into a Vec, which accepts everything.",
 ["protospec-build/src/compiler/encoder.rs", "protospec-build/src/coder/encode", "protospec-build/src/prelude/gzip.rs", "protospec-build/src/prelude/base64.rs", "protospec-build/src/ffi/transform.rs"],
 [("? propagation after each write, finishing of transform streams", "protospec-build/src/compiler/encoder.rs (EndStream, EmitBuf)")],
 ["generated encode_sync result, bytes accepted by the sink"])

prop("P07", "Corrupted input is rejected or decoded exactly as specified, never a crash",
 "For any bytes at all, including valid messages with flipped, lost, duplicated or inserted bytes, decoding terminates without panicking and accepts exactly the inputs the specification allows, with the value the specification assigns to them. "
 "Values outside an enumeration without default, flag words with undeclared bits, invalid text, and tags without a matching alternative are always rejected.",
 ["inputs", "fault_sequences", "programs"],
 "all byte strings (random, and valid messages under random corruption) x all specifications over the supported constructors",
 "The tests never decode invalid bytes, apart from a couple of single bit-field values.",
 CODEC + ["protospec-build/src/prelude"],
 [("representation checks of enums and bit fields", "protospec-build/src/compiler/mod.rs (from_repr)"),
  ("string validation", "protospec-build/src/prelude/utf8.rs, utf16.rs"),
  ("no-alternative error", "protospec-build/src/coder/decode/container.rs")],
 ["generated decode_sync result on arbitrary bytes"])

prop("P08", "A decoder's memory use is bounded by the data that actually arrived",
 "While decoding, the memory allocated stays within a fixed multiple of the bytes the stream has actually delivered plus a constant, whatever lengths and counts the input claims, and an absurd length ends in an ordinary error once the stream ends. "
 "No input makes a decode abort the process, run for ever, or expose memory that was never written.",
 ["inputs", "fault_sequences"],
 "all byte strings, in particular length and count fields set to any value x all fragmentations x types whose repeated elements occupy at least one byte",
 "No test has a length field that disagrees with the data behind it, and none looks at memory.",
 ["protospec-build/src/compiler/decoder.rs", "protospec-build/src/prelude/utf8.rs", "protospec-build/src/prelude/utf16.rs"],
 [("buffer sizing for counted arrays, strings, padding", "protospec-build/src/compiler/decoder.rs (DecodePrimitiveArray, DecodeReprArray, Loop, Skip)")],
 ["peak live bytes of a tracking allocator during decode against bytes delivered"])

prop("P09", "Asynchronous codecs agree with the synchronous ones under every schedule",
 "For every specification, value and byte stream, the asynchronous encoder and decoder give the same bytes, values, consumed length and success or failure as the synchronous ones. "
 "This holds under every interleaving of the tasks involved, every pattern of not-ready results, wake-ups, partial transfers and delays, any buffer size between the two ends, and with any number of unrelated transfers running at the same time.",
 ["schedules", "inputs", "programs", "fault_sequences"],
 "all task interleavings x all readiness/partial-transfer patterns x all pipe capacities x values, truncations and injected errors",
 "The asynchronous generators are not executed by any test.",
 ["protospec-build/src/compiler/encoder.rs", "protospec-build/src/compiler/decoder.rs", "protospec-build/src/compiler/mod.rs", "protospec-build/src/prelude"],
 [("shared lowering with await points inserted", "protospec-build/src/prelude/mod.rs (map_async), compiler/encoder.rs, compiler/decoder.rs")],
 ["generated encode_async / decode_async on a simulated executor and transport"])

prop("P10", "Async transfers make progress, and cancelling one leaves a clean prefix",
 "Once the transport stops failing and both ends are polled, every asynchronous transfer completes within a bounded number of steps: no wake-up is lost, no task spins without waiting for I/O, and back-pressure never deadlocks. "
 "Dropping an encode or decode half way never panics; the bytes already sent are a prefix of the correct encoding, and the peer sees an ordinary truncated message while other transfers are unaffected.",
 ["schedules", "crash_points", "histories"],
 "all interleavings x every poll at which a task may be cancelled x all pipe capacities and stall patterns",
 "No test runs an asynchronous codec, let alone cancels one or bounds its progress.",
 ["protospec-build/src/compiler/encoder.rs", "protospec-build/src/compiler/decoder.rs"],
 [("every wait goes through the supplied reader or writer", "protospec-build/src/compiler/encoder.rs, decoder.rs")],
 ["simulated executor: steps to completion, run queue emptiness, transport contents after cancellation"])

prop("P11", "Computed fields on the wire always describe the data actually sent",
 "In every successfully encoded message each computed field holds the value of its expression over the data actually transmitted: element counts, byte lengths of following regions, sums, padding amounts and combinations, at any nesting depth and inside optional regions. "
 "What the caller left in that field of the in-memory value has no influence on the bytes.",
 ["inputs", "programs"],
 "all specifications with computed fields x all values (including arbitrary junk in the computed fields) x all sink behaviours",
 "Two tests encode one value each, and both start from junk 0.",
 ["protospec-build/src/coder/encode/container.rs", "protospec-build/src/prelude/len.rs", "protospec-build/src/prelude/blen.rs", "protospec-build/src/prelude/sum.rs", "protospec-build/src/prelude/pad.rs", "protospec-build/src/prelude/bits.rs"],
 [("buffering of a region until its byte length is known", "protospec-build/src/coder/encode/container.rs (auto targets, pending/resolved autos)")],
 ["bytes accepted by the writer", "value decoded by the peer"])

prop("P12", "A value that does not fit its specification is refused, not mis-sent",
 "Encoding a value that the specification cannot express (an array whose length differs from its declared count, a missing value for a field whose condition holds, an alternative that its tag does not select or a tag that selects none, content that does not fill its declared length) fails with an ordinary error. "
 "It never panics and never reports success, so a peer never receives a complete-looking message that decodes to something else.",
 ["inputs", "programs", "histories"],
 "all specifications with dependent lengths, conditions and tagged alternatives x all inconsistent values x position of the bad message in a sequence",
 "The two tests that should cover it have the assertions commented out; everything else encodes consistent values only.",
 ["protospec-build/src/compiler/encoder.rs", "protospec-build/src/coder/encode"],
 [("null checks and discriminant checks", "protospec-build/src/compiler/encoder.rs (NullCheck, UnwrapEnum, UnwrapEnumStruct)"),
  ("length check of counted arrays", "protospec-build/src/compiler/encoder.rs (EncodePrimitiveArray), coder/encode/array.rs")],
 ["generated encode_sync / encode_async result, bytes at the sink, peer decode"])

prop("P13", "Transforms compose in the documented order and survive faulty streams",
 "A field sent through any chain of transforms, each with its own arguments and optional condition, appears on the stream as if the transforms had been applied left to right, and decoding undoes them right to left to the original value. "
 "This holds for streaming, buffering, expanding and compressing transforms, for any fragmentation of the stream, and a failing or truncated stream underneath a transform surfaces as an error.",
 ["inputs", "programs", "fault_sequences", "schedules"],
 "all chains of transforms x arguments x condition outcomes x values x fragmentations x stream faults at every byte",
 "Tests use one commuting transform at a time over Vec and slice.",
 ["protospec-build/src/coder/encode/field.rs", "protospec-build/src/coder/decode/field.rs", "protospec-build/src/compiler/encoder.rs", "protospec-build/src/compiler/decoder.rs", "protospec-build/src/prelude/gzip.rs", "protospec-build/src/prelude/base64.rs"],
 [("wrapping and finishing of transform streams", "protospec-build/src/coder/encode/field.rs, protospec-build/src/coder/decode/field.rs")],
 ["bytes under the transform", "value decoded by the peer", "result under injected faults"])

prop("P14", "Compiling a specification is deterministic",
 "Compiling the same specification files with the same options yields byte-identical generated code in every process, whatever the hash seeds, environment, number of earlier compilations or concurrent compilations in the same process, and whatever order other work runs in.",
 ["schedules", "configurations", "programs"],
 "all specifications x all hash seeds x all interleavings of concurrent compilations x all option combinations",
 "Every test compiles once and none compares two compilations; a dependence on hash order shows only for some seeds.",
 ["protospec-build/src/compiler", "protospec-build/src/coder", "protospec-build/src/semantics", "protospec-build/src/lib.rs"],
 [("ordered maps in the semantic graph", "protospec-build/src/asg"),
  ("register allocation per type", "protospec-build/src/coder")],
 ["text of the generated module"], hook=None)

prop("P15", "Import failures fail the compilation cleanly and never change its result",
 "If any request the compiler makes to its import resolver fails, finds nothing, returns a damaged file, or leads back to a file that is still being imported, the compilation returns an error: it does not crash, recurse for ever, or succeed with parts missing. "
 "If every request succeeds, each imported item means the same as if it had been declared by the importing file, however often and in whatever order files import each other.",
 ["fault_sequences", "programs", "histories"],
 "all import graphs x failure of any n-th resolver request x missing, damaged or cyclic files",
 "The import tests cover one import level and three fixed failures.",
 ["protospec-build/src/semantics/convert/program", "protospec-build/src/import.rs", "protospec-build/src/prelude/resolver.rs"],
 [("recursive import loading with a cache", "protospec-build/src/semantics/convert/program/resolve.rs"),
  ("item resolution", "protospec-build/src/semantics/convert/program/import.rs")],
 ["result of building the program from the parsed file with a simulated resolver", "generated code"])

prop("P16", "The build step never reports success without the complete output file",
 "Compiling a specification to its output file reports success only if the file then holds the complete generated code; if the formatter is missing, crashes, stalls on input or prints only part of its output, or if creating, writing or closing the file fails or is cut short, the step fails visibly or falls back to complete unformatted code. "
 "The outcome never is success with an empty, truncated or stale file.",
 ["fault_sequences", "crash_points", "inputs"],
 "all formatter behaviours (exit status, partial output, early close, not installed) x failure of any n-th file-system call x short writes x specification sizes",
 "No test calls this entry point.",
 ["protospec-build/src/lib.rs"],
 [("formatter pipe and file write", "protospec-build/src/lib.rs (rustfmt, compile_spec)")],
 ["result of the build step, content of the output file"])

prop("P17", "A damaged specification file is a reported error, never a crash or hang",
 "For any text, in particular a valid specification torn at any byte or with corrupted, duplicated or lost parts, reading it into the compiler terminates, without panicking, hanging or exhausting the stack, with either a syntax tree or an error.",
 ["inputs", "fault_sequences", "crash_points"],
 "all texts obtained from valid specifications by truncation at every byte and by random corruption, and all nesting depths of a bounded file size",
 "The parse-failure tests are some thirty fixed strings.",
 ["protospec-build/src/tokenizer.rs", "protospec-build/src/parser"],
 [("tokenizer and recursive-descent parser returning errors", "protospec-build/src/tokenizer.rs, protospec-build/src/parser")],
 ["result of parsing"])

prop("P18", "Independent uses of a codec never influence each other",
 "Encoding and decoding on any number of independent streams, in any interleaving and after any history of earlier successes, failures, cancellations and panics caught by the caller, gives for each stream exactly the result it would give alone in a fresh process. "
 "A failed operation changes nothing but its own stream and never modifies the value being encoded.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of operations on several streams x histories containing failed, cancelled and refused operations",
 "Tests run one operation per process.",
 ["protospec-build/src/compiler"],
 [("generated code keeps all state in locals", "protospec-build/src/compiler/encoder.rs, decoder.rs")],
 ["results of each operation compared with its isolated run"])

prop("P21", "The compiler answers every specification with code or with an error",
 "For any specification text that parses, however wrong its meaning (unknown, repeated or reserved names, wrong types, constants out of range or divided by zero, computed fields that depend on themselves, empty declarations, deep nesting), analysis and code generation terminate in reasonable time and memory with an error or with generated code that is syntactically valid Rust; the compiler never panics, hangs or exhausts the stack. "
 "Exceptions: base64 in asynchronous code, which is documented as not implemented, names that are Rust keywords, and constants that repeatedly double one another.",
 ["inputs", "programs", "fault_sequences"],
 "all texts obtained from generated and valid specifications by any sequence of token-level mutations (renaming, retyping, lost, repeated and moved parts, replaced operators, numbers and expressions, nesting) and by storage damage",
 "The rejection tests are a few dozen fixed specifications with one error each.",
 ["protospec-build/src/semantics", "protospec-build/src/coder", "protospec-build/src/compiler", "protospec-build/src/prelude"],
 [("conversion of the syntax tree into the program, errors returned", "protospec-build/src/semantics/convert"),
  ("constant evaluation", "protospec-build/src/semantics/const_int.rs, protospec-build/src/semantics/expr.rs"),
  ("code generation from the program", "protospec-build/src/compiler, protospec-build/src/coder")],
 ["result of compile_program, generated code"])

prop("P19", "Expression precedence and grammar follow the documentation",
 "Every expression parses into the tree its documented precedence and associativity prescribe.",
 ["programs"], "all expressions",
 "Tests list a few dozen expressions.",
 ["protospec-build/src/parser/expression"], [("recursive descent", "protospec-build/src/parser/expression")],
 ["syntax tree"])
prop("P20", "Ill-typed specifications are rejected with a located error",
 "Every specification that violates the type rules (unknown names, wrong operand types, duplicate definitions, impossible casts) is rejected with an error that names the offending place.",
 ["programs"], "all ill-typed specifications",
 "Tests list a few dozen ill-typed specifications.",
 ["protospec-build/src/semantics"], [("type checking in conversion", "protospec-build/src/semantics/convert")],
 ["error returned"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
