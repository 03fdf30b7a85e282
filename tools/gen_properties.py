#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to review and edit)."""
import json, os
R = "runtime/src/zserio/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[R + f for f in files],
                     mechanism=[dict(name=n, where=R + w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("P01", "Reading bits returns exactly the requested bits of the buffer",
  "Reading n bits at bit position p of a buffer returns the big-endian number formed by bits p..p+n-1 (two's complement for signed reads), whatever was read or repositioned before, and moves the position to p+n. Moving the position makes the next read start exactly there, and asking for 0 or more bits than the result type holds is rejected without moving.",
  ["inputs", "histories"], "every buffer content and length, every position, width and type of read, every earlier sequence of reads and repositionings",
  "Tests read a few patterns from short buffers mostly front to back; the word cache makes the result depend on the earlier reads, on the distance to the end of the buffer and on the width, a product no test enumerates.",
  ["BitStreamReader.cpp", "BitStreamReader.h"],
  [("word cache refill near and away from the end", "BitStreamReader.cpp:loadCacheNext"), ("split of a read over two cache words", "BitStreamReader.cpp:readUnsignedBitsImpl"), ("sign extension", "BitStreamReader.cpp:readSignedBitsImpl"), ("cache invalidation", "BitStreamReader.cpp:setBitPosition")])
p("P02", "Reads never leave the buffer and a failed read does no harm",
  "No read, whatever its width or kind, touches memory outside the buffer it was given, and one that needs bits beyond the declared bit size throws instead of returning a value. After such a failure the reader is still usable: a later read that succeeds again returns the true bits at the position the reader reports, and positions past the end are refused.",
  ["inputs", "histories", "fault_sequences"], "every buffer size down to single bits, every position, every failing and succeeding sequence of reads",
  "Tests provoke end-of-buffer on a couple of sizes and never go on reading afterwards; a one-byte over-read is invisible without checking every size and offset.",
  ["BitStreamReader.cpp", "BitStreamReader.h"],
  [("end check while refilling", "BitStreamReader.cpp:loadCacheNext"), ("constructor size checks", "BitStreamReader.cpp:BitStreamReader"), ("length checks of byte-like reads", "BitStreamReader.h:readBytes")])
p("P03", "Writing bits stores exactly those bits and nothing else",
  "Writing an n-bit value at bit position p makes bits p..p+n-1 of the buffer its big-endian (two's complement) representation, leaves every other bit of the buffer as it was and moves the position to p+n. A value that does not fit n bits, or an unsupported n, is rejected with an exception and changes nothing.",
  ["inputs", "histories"], "every value, width and position, every previous buffer content",
  "Tests compare whole zero-initialised buffers for selected values; preservation of neighbouring bits and rejection at each width boundary are 64 x 8 x 2^64 cases.",
  ["BitStreamWriter.cpp", "BitStreamWriter.h"],
  [("masked partial-byte stores", "BitStreamWriter.cpp:writeUnsignedBits32Impl"), ("range tables", "BitStreamWriter.cpp:MAX_U64_VALUES"), ("64-bit split", "BitStreamWriter.cpp:writeUnsignedBits64Impl")])
p("P04", "Writes never exceed the capacity of the target",
  "Nothing is ever stored outside the buffer handed to the writer or beyond its declared bit size; a write or repositioning that would need more room throws the insufficient-capacity error. Without a buffer the same calls only count, and reach exactly the position they would reach with a big enough buffer.",
  ["inputs", "histories"], "every capacity in bits, every position, every kind of write and every data length",
  "Overflow by part of a byte or on one kind of write needs one exact combination of capacity, position and data; tests use a few fixed capacities.",
  ["BitStreamWriter.cpp", "BitStreamWriter.h"],
  [("capacity check", "BitStreamWriter.cpp:checkCapacity"), ("bulk copies of aligned data", "BitStreamWriter.cpp:writeBytes"), ("bulk copy of bit buffers", "BitStreamWriter.h:writeBitBuffer")])
p("P05", "Variable-length integers survive a round trip in their minimal form",
  "Every value of each variable-length integer type (signed and unsigned 16, 32, 64 bit, maximum range, and size) is written as a sequence of bytes that reads back to the same value and the same end position at any bit offset. The form is the documented one: as short as possible, most significant part first, and its length is what the size calculation announces. Values outside the range of the type are rejected.",
  ["inputs"], "all values of each of the nine types, any bit offset",
  "Tests use the boundary values of each length; the value space is up to 2^64 and encoder, size tables and decoder are three separate pieces of code that must agree everywhere.",
  ["BitStreamWriter.cpp", "BitStreamReader.cpp", "Types.cpp"],
  [("encoder", "BitStreamWriter.cpp:writeVarNum"), ("decoders", "BitStreamReader.cpp:readVarInt"), ("length tables", "Types.cpp:bitSizeOfVarIntImpl")])
p("P06", "Bytes, strings and bit buffers survive a round trip at any bit offset",
  "A byte sequence, string or bit buffer written at any bit position reads back equal, with its exact length in bits, and leaves reader and writer at the same position. Bits around the written range are not changed, and the bytes of the value occupy consecutive stream bits after its length.",
  ["inputs"], "every content, every length, every bit offset",
  "There are separate code paths for aligned and unaligned positions and for trailing bits; tests exercise a few short values.",
  ["BitStreamWriter.cpp", "BitStreamWriter.h", "BitStreamReader.h", "BitBuffer.h"],
  [("aligned bulk copy and unaligned byte loop", "BitStreamWriter.cpp:writeBytes"), ("", "BitStreamReader.h:readBitBuffer")])
p("P07", "Announced sizes equal the bits actually written",
  "For every serialisable built-in type the size calculation returns exactly the number of bits its writing advances the stream by from the same position, for every value, and offset initialisation reports the same number.",
  ["inputs"], "every value and start position of fixed, dynamic, variable, boolean, floating, byte, string and bit-buffer types",
  "Buffers are allocated from the announced size, so one wrong length anywhere truncates or rejects valid data; tests check sampled values of each type.",
  ["Types.h", "Types.cpp", "BitBuffer.h", "Bytes.cpp", "String.cpp", "BitStreamWriter.h"],
  [("size functions", "Types.cpp:bitSizeOf"), ("write functions", "BitStreamWriter.h:write")])
p("P08", "Alignment moves to the nearest multiple and pads with zeros",
  "Aligning a stream or a computed position to a positive alignment moves to the smallest multiple not below the current position, never backwards and never further. The writer fills the skipped bits with zeros and touches no other bit; reader, writer and size computation always agree on the result.",
  ["inputs"], "every position and alignment, including alignments above 64 bits",
  "Tests align to a few small values at positions 0..10; padding of several words and large alignments are never run.",
  ["BitStreamReader.cpp", "BitStreamWriter.cpp", "BitPositionUtil.h"],
  [("reader", "BitStreamReader.cpp:alignTo"), ("writer", "BitStreamWriter.cpp:alignTo"), ("computation", "BitPositionUtil.h:alignTo")])
p("P09", "Range checks accept exactly the values of the schema type",
  "A checked conversion or validation of an integer accepts a value if and only if the schema type of that bit width and signedness (or variable-length kind) can represent it, and then returns it unchanged; otherwise it throws. The published minimum and maximum of every type, and the bounds of bit fields of a given length, are the mathematical ones, and invalid lengths are refused.",
  ["inputs"], "every value and every width of every integer type",
  "128 fixed types, dynamic widths 1..64 and nine variable types each have two exact boundaries; tests probe some of them.",
  ["Types.h", "BitFieldUtil.cpp", "BuiltInOperators.cpp", "SizeConvertUtil.cpp"],
  [("limits", "Types.h:NumericLimits"), ("check", "Types.h:RangeChecker"), ("bounds", "BitFieldUtil.cpp:getBitFieldLowerBound"), ("", "BuiltInOperators.cpp:numBits")])
p("P10", "Half, single and double floats keep their value",
  "Every 16-bit pattern read as a float has its IEEE 754 half-precision value and writing that float gives the same pattern back. Any finite single-precision number is written as the nearest half-precision number (of two equally near ones the one further from zero), one too large for that as infinity and one smaller than the smallest half as zero, with the sign kept, and not-a-number stays not-a-number. 32- and 64-bit floats are transferred bit for bit.",
  ["inputs"], "all 2^16 half patterns, all 2^32 single patterns, all 2^64 double patterns",
  "Tests check a table of selected values; boundary behaviour around overflow, underflow and rounding of 2^32 inputs is not covered.",
  ["FloatUtil.cpp", "BitStreamReader.cpp", "BitStreamWriter.cpp"],
  [("half to single", "FloatUtil.cpp:convertUInt16ToFloat"), ("single to half", "FloatUtil.cpp:convertFloatToUInt16")])
p("P11", "Packed arrays survive a round trip in the announced size",
  "An array of integers, enumeration values or bit masks written in packed form reads back equal, and the number of bits written equals the announced packed size. Packing never makes the array bigger than writing its elements unpacked plus the one-bit marker.",
  ["inputs"], "every element type, every element sequence (also with extreme jumps), every alignment mode and bit offset",
  "Whether deltas are used depends on all elements together; wrap-around of 64-bit differences and size ties occur only for special sequences.",
  ["DeltaContext.h", "ArrayView.h", "ArrayTraits.h"],
  [("delta width and decision", "DeltaContext.h:finishInit"), ("delta coding", "DeltaContext.h:write"), ("array loops", "ArrayView.h:writePacked")])
p("P12", "Arrays survive a round trip with correct length, alignment and size",
  "A plain, length-prefixed, byte-aligned or implicit array reads back equal to what was written, every element of an aligned array starts on a byte boundary, the offsets reported for its elements are where they are stored, and the announced size equals the bits written. A length different from the schema's fixed length is rejected by validation and an out-of-range index is rejected on access.",
  ["inputs"], "every array kind, element type, length, contents and start position",
  "Tests use a handful of small arrays at position 0 or 1.",
  ["ArrayView.h", "ArrayTraits.h"],
  [("read and write loops", "ArrayView.h:write"), ("offset setting", "ArrayView.h:initializeOffsets"), ("index check", "ArrayView.h:at")])
p("P13", "Hostile input cannot cause memory errors or oversized allocations",
  "Deserialising arbitrary bytes either succeeds or throws: it never reads or writes outside its buffers and never performs an undefined operation. Memory requested up front for arrays, strings, bytes and bit buffers is bounded by the size of the input or the configured preallocation limit, whatever lengths the input claims.",
  ["inputs"], "all byte strings as input, all schema-provided lengths, all preallocation limits",
  "Tests feed well-formed data and a few truncated samples; the claim is about every malformed input.",
  ["BitStreamReader.h", "BitStreamReader.cpp", "ArrayView.h", "DeltaContext.h"],
  [("length checks", "BitStreamReader.h:readString"), ("preallocation limit", "ArrayView.h:read")])
p("P14", "Bit buffer comparison, hashing and copying ignore padding bits",
  "Two bit buffers are equal exactly when they have the same bit size and the same bits; unused bits of the last byte never influence equality, ordering or the hash code. Equal bit buffers have equal hash codes, and ordering is a strict total order consistent with equality.",
  ["inputs"], "every pair and triple of bit buffers of any size and any padding content",
  "Tests compare a few buffers; order laws quantify over triples, and padding bits take all values.",
  ["BitBuffer.h", "HashCodeUtil.h"],
  [("comparison", "BitBuffer.h:operator=="), ("ordering", "BitBuffer.h:operator<"), ("hash", "BitBuffer.h:hashCode")])
p("P15", "Equality, ordering and hashing of containers are lawful",
  "Optionals, extended fields, variants and array views compare equal exactly when they hold the same state and equal contents; ordering is a strict order in which exactly one of less, equal, greater holds, and all six operators agree. Equal values always have equal hash codes.",
  ["inputs"], "every pair and triple of values over totally ordered contents, present or absent, every alternative",
  "Laws over pairs and triples of states; tests check sampled comparisons.",
  ["Optional.h", "Extended.h", "Variant.h", "ArrayView.h", "HashCodeUtil.h", "Types.h"],
  [("", "Optional.h:operator<"), ("", "Variant.h:operator<"), ("", "Extended.h:operator<"), ("", "HashCodeUtil.h:calcHashCode")])
p("P16", "Owning containers construct and destroy every value exactly once",
  "Whatever sequence of construction, copying, moving, assignment, emplacement, reset and swapping is performed on optionals (inline and heap), type-erased values and variants, every contained object is destroyed exactly once, no memory is leaked or freed twice, and the contents afterwards are those the operations describe. This also holds when a contained object's constructor throws.",
  ["histories", "fault_sequences"], "every sequence of operations, every throwing point, values stored in place and on the heap",
  "Tests run fixed scenarios; a leak or double destruction shows up only in particular combinations of states on both sides and of failing constructors.",
  ["Optional.h", "Any.h", "Variant.h", "UniquePtr.h", "AllocatorHolder.h"],
  [("", "Optional.h:operator="), ("", "Any.h:copy"), ("", "Variant.h:operator="), ("", "UniquePtr.h:allocate_unique")])
p("P17", "Numbers are converted to text exactly",
  "Every integer of every width converts to its unique decimal representation, with a minus sign only for negative values and no superfluous leading zero, without ever writing outside the conversion buffer. Reading the text back gives the number.",
  ["inputs"], "all values of all 8, 16, 32 and 64-bit integer types",
  "2^64 values per type; tests check a few including the extremes.",
  ["StringConvertUtil.h"], [("digit pairs", "StringConvertUtil.h:convertIntToString")])
p("P18", "Exception messages never overflow and are always terminated",
  "Building an exception message from any sequence of texts and numbers of any length never writes outside the message storage; the message is always terminated and is the longest prefix of the full concatenation that fits. Appending a number, a floating point number of any value included, performs no undefined operation.",
  ["inputs", "histories"], "every sequence of appended texts, lengths and numbers",
  "Tests append a few long texts; the boundary is one exact total length reached through any split.",
  ["CppRuntimeException.cpp", "CppRuntimeException.h"], [("truncation", "CppRuntimeException.cpp:append")])
p("P19", "JSON literals decode to the value they denote",
  "Decoding a JSON string literal yields exactly the characters it denotes and decoding a number yields its exact integer value or an overflow error; encoding any string and decoding it again yields the original. The tokens of a text (kind, value, line and column) do not depend on the pieces in which the stream delivers it. Decoding never looks at memory outside the text it was given and never loops forever, and malformed literals are reported as failures.",
  ["inputs"], "every byte sequence as JSON text, every string as value",
  "Tests decode selected literals that always end in a zero byte; over-reads and escape handling at the end of the input are input-dependent.",
  ["JsonDecoder.h", "JsonEncoder.cpp", "JsonTokenizer.h"],
  [("", "JsonDecoder.h:decodeString"), ("", "JsonDecoder.h:decodeNumber"), ("", "JsonEncoder.cpp:encodeString")])
p("P20", "Generated code of any valid schema round-trips its data",
  "For every valid schema the generated code serialises every valid object to bytes that deserialise to an equal object, and calculates sizes and offsets that match what is written.",
  ["programs", "inputs"], "every schema accepted by the compiler and every object of its types",
  "Needs all schemas; the tests compile a fixed set.",
  ["SerializeUtil.h", "View.h"], [("entry points", "SerializeUtil.h:serialize")])
p("P21", "Tree walking visits each element once and respects its filters",
  "Walking an object reports every present field, array element and compound exactly once and in schema order with matching begin and end notifications, and a filter that refuses an element suppresses it and everything below, nothing else.",
  ["inputs", "programs"], "every object tree and every filter",
  "Tests walk one small object with a few filters.",
  ["Walker.h", "WalkerConst.h"], [("", "Walker.h:walk")])
p("P22", "JSON text written for an object reads back to an equal object",
  "Writing any object as JSON text and reading this text back creates an equal object.",
  ["inputs", "programs"], "every object of every type, every value of every field",
  "Tests do this for one object; numbers and text have very large value spaces.",
  ["JsonWriter.h", "JsonReader.h", "ZserioTreeCreator.h", "JsonParser.h"], [("", "JsonWriter.h:JsonWriter"), ("", "JsonReader.h:BasicJsonReader")])
p("P23", "Files written are read back unchanged and failures are reported",
  "A buffer or object written to a file is read back with the same bits, and any failure to open, write or read the file is reported as an error.",
  ["inputs", "fault_sequences"], "every buffer size and every failing file operation",
  "Tests write one small file.",
  ["FileUtil.cpp", "FileUtil.h"], [("", "FileUtil.cpp:readBufferFromFile")])
p("P24", "Database helpers prepare, bind, and release statements correctly",
  "SQL helper objects release every connection and statement exactly once and report each database error.",
  ["histories", "fault_sequences"], "every sequence of operations and database failures",
  "Tests use one in-memory database without failures.",
  ["SqliteConnection.h", "SqliteUtil.h", "ValidationSqliteUtil.h"], [("", "SqliteConnection.h:reset")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        for m in x["anchors"]["mechanism"]:
            if not m["name"]: m["name"] = m["where"].split(":")[-1]
        f.write(json.dumps(x) + "\n")
print(len(P))
