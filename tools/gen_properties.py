#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
ALL_DEC = ["src/utf8.rs", "src/utf16_be.rs", "src/utf16_le.rs", "src/utf32_be.rs", "src/utf32_le.rs",
           "src/big5_whatwg.rs", "src/shiftjis_whatwg.rs", "src/single_byte.rs"]
TESTS = ("The unit tests call each function once or twice on hand-picked inputs with a handful of buffer sizes; the proptest "
         "round trips keep the whole remaining input in every call, use one 32-byte buffer and cover 7 of 38 encodings. ")
P = []
def p(id, title, statement, over, text, why, files=ALL_DEC, symbols=None, state=None, mech=None, observe=None):
    a = {"files": files,
         "symbols": symbols or ["decode_to_str", "encode_from_str"],
         "mechanism": mech or [], "observe_at": observe or ["return value of the call", "contents of the caller's output buffer"],
         "hook_needed": None}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Decoding does not depend on how the bytes are delivered",
  "For every supported encoding, however a byte stream is cut into chunks (at any byte, unconsumed bytes being put in front of the next chunk) and however small or varied the output buffers are, decoding it to the end delivers exactly the text that the encoding's published table assigns to the whole stream, and reports the same invalid bytes at the same positions of the stream. Only for UTF-8 may one unbroken run of invalid bytes be reported in one piece or in several.",
  ["schedules", "inputs", "fault_sequences"],
  "every byte stream (valid, invalid, mixed), every chunking, every sequence of output buffer sizes including 0 to 4 bytes, every moment at which the end of input is learnt, spurious retries and short reads",
  TESTS + "No test splits a stream across calls while bytes are still arriving, so no test fixes what happens at a chunk boundary inside a character in combination with a full buffer.",
  mech=[{"name": "unconsumed-bytes count", "where": "second return value of decode_to_str in every module"},
        {"name": "is_end handling", "where": "decode_to_str in utf8, utf16_*, utf32_*, big5_whatwg, shiftjis_whatwg"}])
p("P02", "Encoding does not depend on how the text is delivered",
  "For every supported encoding, however a text is cut into chunks (unconsumed text being put in front of the next chunk) and however small or varied the output buffers are, encoding it to the end produces exactly the bytes, and reports exactly the same unrepresentable characters at the same positions, as encoding the whole text in one call: the code that the crate's published tables assign to each character (or to a base letter with its combining mark where Big5 has a single code for the pair).",
  ["schedules", "inputs", "fault_sequences"],
  "every text, every chunking at character boundaries, every sequence of output buffer sizes, both values of the end-of-input flag at every point where they are legal",
  TESTS + "Only two tests look at the Big5 end-of-input flag, and none streams a base letter and its combining mark apart.",
  mech=[{"name": "consumed-input rounding to a character boundary", "where": "tail of every encode_from_str"},
        {"name": "look-ahead for combining marks", "where": "src/big5_whatwg.rs encode_from_str/map_grapheme"}])
p("P03", "Text survives every chain of encode, transport and decode unchanged",
  "Text that is encoded, carried over a reliable byte stream with arbitrary segmentation, back-pressure, stalls and relay restarts, decoded and possibly re-encoded into a further encoding arrives character for character as it was sent, apart from the characters that an encoder on the way explicitly reported as unrepresentable. No character is silently changed, added, dropped or reordered, and no decoder on the way reports an error.",
  ["schedules", "inputs", "crash_points", "configurations"],
  "every text, every chain of one or two of the 38 encodings, every segmentation of each hop, every sequence of window sizes, relay crash and restart between any two calls",
  TESTS + "Round trips of Big5, Shift JIS and 29 of the 31 single-byte encodings are not tested on streams at all.",
  mech=[{"name": "encode tables being inverse to decode tables", "where": "src/generated/**"}])
p("P04", "Every call leaves only complete, valid text inside the caller's buffer",
  "Whatever bytes or text arrive, however damaged or cut short, and whatever the buffer's size and previous contents, a call returns or reports an error without panicking; the output it returns or reports as written is the start of the caller's buffer and is complete valid text by itself (valid UTF-8 from a decoder, whole valid characters of the target encoding from an encoder). Consumed counts and error ranges lie inside the given input, counts of consumed text fall on character boundaries, and no memory outside the buffer is read into the result or written.",
  ["inputs", "schedules", "fault_sequences"],
  "every input of every call of every schedule, including bytes flipped, lost, duplicated or inserted in transit, buffers of every size from 0 and with arbitrary stale contents",
  TESTS + "The random-bytes properties use one zeroed 4096-byte buffer and only check that nothing panics; str values are built with unchecked conversions, so invalid output would be undefined behaviour no test observes.",
  mech=[{"name": "from_utf8_unchecked / from_u32_unchecked preconditions", "where": "tail of every decode_to_str; src/utf16_*.rs"}])
p("P05", "Streaming always makes progress and finishes",
  "When the buffer can hold the largest character, a call with pending input consumes some of it or reports an error, unless all that is pending is the incomplete beginning of one character (or, for an encoder that looks ahead, one character whose successor is still unknown) and the end has not been signalled. Once the end of input is signalled, a number of calls no larger than the number of pending bytes plus one finishes the stream, with every byte converted or reported; every call returns.",
  ["schedules", "inputs", "fault_sequences"],
  "every pending input at every call of every schedule, with stalls, short reads, damaged bytes and an end signalled at any byte; bounded liveness once faults stop",
  TESTS + "A stall or an endless loop needs a particular held-back tail together with a particular buffer and end flag.",
  mech=[{"name": "truncation test", "where": "src/utf8.rs decode_to_str is_truncated; chunk-length tests in utf16_*, utf32_*"}])
p("P06", "A stream cut at any byte loses exactly the incomplete character, and says so",
  "If a valid stream is cut at an arbitrary byte, every character completely received is delivered; as long as the end has not been signalled the incomplete tail is neither reported nor delivered; once it is signalled, the tail is reported, by the first call that delivers all the rest and still has room for any character, as one error covering exactly the left-over bytes, and a cut between characters gives no error.",
  ["crash_points", "schedules", "inputs"],
  "every cut position in every valid stream of every encoding, after every delivery schedule and window sequence that led there",
  TESTS + "Truncation is tested on one string per encoding with a single call.",
  mech=[{"name": "is_end handling", "where": "decode_to_str in utf8, utf16_*, utf32_*, big5_whatwg, shiftjis_whatwg"}])
p("P07", "Damage in transit is contained",
  "If bytes of a stream are altered, lost, duplicated, reordered or inserted in transit, all characters completely received before the damage are delivered unchanged, sequences the encoding does not define are reported as invalid data and never delivered as text, and a reported range never takes in any byte of a valid character that follows. A receiver that skips each reported range gets every later character again: from the next undamaged character on in UTF-8 and single-byte encodings, in UTF-16 and UTF-32 when the damage keeps the code units aligned, and from the next byte below 0x40 on in Big5 and Shift JIS.",
  ["fault_sequences", "schedules", "inputs"],
  "every damage event (bit flips, byte loss, duplication, insertion, swapped segments) at every position, in combination with every chunking and window sequence, with skip-and-continue recovery",
  TESTS + "Errors are tested one at a time in one call; no test resumes after an error.",
  mech=[{"name": "error range rules", "where": "DecodeError construction in every decode_to_str"}])
p("P08", "Restart from a saved position is exactly-once",
  "At every point of a conversion the input consumed so far and the output produced so far correspond exactly: a process that crashes after any call and restarts from any earlier saved pair of input position and output length, with other chunk and buffer sizes, ends with the same output and the same reported errors as an uninterrupted run, nothing lost or repeated. Output that is produced again after a restart is identical to the output lost.",
  ["crash_points", "histories", "schedules", "inputs"],
  "every crash point between any two calls, any earlier checkpoint, torn writes of the output beyond the checkpoint, repeated crashes, for encoders and decoders of all encodings",
  TESTS + "No test compares consumed counts with output beyond one call per encoding.",
  mech=[{"name": "consumed-input count and bytes-written count", "where": "return values of every function"}])
p("P09", "Conversions are isolated from one another and repeatable",
  "The result of a call depends only on its arguments' values and the length of the output buffer: not on other conversions interleaved with it or running in other threads, on earlier calls, on how often the call is repeated, or on what the buffer contained. Any number of streams in any encodings can therefore share threads and scratch buffers in any interleaving without affecting one another.",
  ["schedules", "histories", "configurations"],
  "every interleaving of calls of several streams sharing scratch buffers, retries at any later time, buffers scribbled over in between, and preemption of threads inside calls",
  TESTS + "Every test is a lone conversion with a freshly zeroed buffer and no second stream.",
  mech=[{"name": "absence of hidden state", "where": "whole crate: free functions over caller-provided slices"}])
p("P10", "Unrepresentable characters are reported so that the stream can go on",
  "When a text contains characters the target encoding cannot represent, the encoder reports each of them exactly once, with the right character, its exact byte range in the given input and a count of written bytes that is exactly the encoding of everything before it. Skipping or substituting each reported character and resuming after its range, under any chunking, buffer sizes and restarts, yields exactly the encoding of the text with those characters removed or substituted.",
  ["schedules", "inputs", "fault_sequences", "crash_points"],
  "every mix and position of unrepresentable characters, every chunking and window sequence, skip, substitute and stop policies, crash between the report and the resumption",
  TESTS + "Tests check one error per call at three fixed positions and never resume.",
  mech=[{"name": "EncodeError construction", "where": "src/single_byte.rs, src/big5_whatwg.rs, src/shiftjis_whatwg.rs"}])
p("P11", "Every received byte is accounted for exactly once",
  "For a decoder fed any byte stream, damaged or not, under any schedule, every byte up to the current position is either part of a character that was delivered or of exactly one reported invalid range, in stream order and without gap or overlap. In particular the text a call delivers is exactly the text of the bytes it says it consumed, and when it reports an error, the text it wrote is exactly that of the bytes before the reported range.",
  ["inputs", "schedules", "fault_sequences"],
  "every call of every schedule over every damaged or undamaged stream",
  TESTS + "The consumed count is compared with the delivered text in a few single calls; after an error the written prefix is compared in about ten fixed cases.",
  mech=[{"name": "input and output counters kept in step", "where": "loop bodies of every decode_to_str"}])
p("P12", "Back-pressure never tears a character nor wastes room",
  "Under any sequence of output buffer sizes a call converts exactly the longest run of whole characters that the pending input and the buffer allow: it never writes part of a character, never stops while the next complete character would still fit, and reports an invalid or unrepresentable next character whenever the remaining room could hold any character. A call whose buffer is too small for the next character consumes nothing further and loses nothing, and succeeds when repeated with a larger buffer.",
  ["schedules", "inputs"],
  "every pending input and every buffer size (exact fit, one byte short, one byte over, 0 to 8 bytes, large) at every call of every schedule",
  TESTS + "Each encoding is tried with about three buffer sizes on one string.",
  mech=[{"name": "room checks before each write", "where": "loop bodies of every function; copy_len in src/utf8.rs"}])
p("P14", "Conversions work when memory has run out",
  "A call gives the same result, with the same bytes written, when no heap memory can be had as when there is plenty, whatever encoding, input, buffer and moment of exhaustion; and it needs no more stack for a long input than for a short one (a few hundred kilobytes suffice for any input), so that streams can be converted in memory-starved processes, in small threads and without an allocator.",
  ["fault_sequences", "inputs", "schedules"],
  "every call of every schedule, with every allocation refused from the first, second or third on, inputs up to hundreds of kilobytes on a small stack",
  TESTS + "All tests run with memory to spare and short inputs on the default stack; the no_std attribute does not keep code from using an allocator.",
  mech=[{"name": "allocation-free, iterative loops over caller-provided slices", "where": "src/lib.rs #![no_std]; every decode_to_str and encode_from_str"}])
p("P16", "A gateway that decodes and re-encodes passes the stream on faithfully",
  "A valid stream that relays decode and encode again in the same encoding arrives byte for byte as it was sent for UTF-8, UTF-16, UTF-32 and every single-byte encoding, byte order marks and control characters included; in Big5 and Shift JIS every character arrives under the one code that encoding it alone gives, and passing it through further such relays changes nothing more. Between two different encodings the relay passes on each character's code in the target encoding, or reports it as unrepresentable, in stream order. This holds under any segmentation of any hop, back-pressure, stalls and restarts of relays.",
  ["schedules", "inputs", "crash_points", "configurations"],
  "every valid stream of every encoding, every pair of encodings, chains of up to four conversions, every segmentation and window sequence of each hop, restarts between any two calls",
  TESTS + "No test starts from encoded bytes and goes through both directions; texts tested the other way round cannot show a character that comes back under another of its codes, or a byte order mark that is swallowed.",
  mech=[{"name": "encode tables choosing one code per character", "where": "src/generated/**, map_code_point in src/shiftjis_whatwg.rs, src/big5_whatwg.rs"}])
# ---- not addressed by simulation ----
p("P13", "Each code maps to the character the published table names, in isolation",
  "Taken alone and in a single call with ample room, every byte sequence of every supported encoding decodes to the character the encoding's published table assigns (or is rejected as undefined), every character encodes to the code that table assigns, and the big- and little-endian forms of UTF-16 and UTF-32 are byte-swapped images of each other.",
  ["inputs"], "every code of every encoding, one call each",
  "The WHATWG test data covers Big5 and Shift JIS; tables of the single-byte encodings other than Latin-1 and ISO 8859-7 are not tested. It is a finite pure function, so a test could settle it, but none does.",
  files=["src/generated/single_byte", "src/generated/whatwg", "src/single_byte.rs", "src/utf16_be.rs", "src/utf16_le.rs", "src/utf32_be.rs", "src/utf32_le.rs"])
p("P17", "Conversion cost is linear in the input",
  "The time of a call grows at most linearly with the input and the buffer given to it.",
  ["inputs"], "every input length and buffer size", "No test measures cost.")
p("P15", "The generated tables are what the generators produce from the published tables",
  "Running the table generators on the published tables in the repository reproduces the committed generated tables.",
  ["configurations"], "every published table in the repository", "The generators are not run by the build or by any test.",
  files=["encoding_tables/single_byte/generate_ascii_ext_tables.py", "encoding_tables/whatwg/generate_big5.py", "encoding_tables/whatwg/generate_shiftjis.py", "src/generated"], symbols=[])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in sorted(P, key=lambda x: x["id"]): f.write(json.dumps(x, ensure_ascii=False) + "\n")
