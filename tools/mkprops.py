#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate that file)."""
import json, os
P = []
def p(id, title, stmt, over, qtext, why, files, mech=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=stmt,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/archon/" + f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech])))
I = ["inputs"]; H = ["histories", "inputs"]

p("C01", "Mixed-type integer comparison and casting is mathematically exact",
  "Comparing two integers of any two built-in integer types gives the answer of the mathematical comparison, whatever their signedness and width. A checked cast succeeds exactly when the target type can represent the value and then preserves it, and otherwise leaves the target untouched or throws an overflow error; a clamping cast yields the value nearest to the source within the given limits.",
  I, "every pair of types among bool, 8/16/32/64-bit signed and unsigned and char types, every value",
  "The tests try values near the limits of each type; a wrong verdict for one interior range of one type pair stays unseen.",
  ["core/integer.hpp", "core/integer_traits.hpp"], [("int_less/int_equal/can_int_cast/int_cast_clamp", "src/archon/core/integer.hpp")])
p("C02", "Overflow-checked integer arithmetic is exact or refused without effect",
  "Checked addition, subtraction, multiplication, exponentiation and left shift on integers of arbitrary (also different) built-in types succeed exactly when the mathematical result is representable in the type of the left operand, and then produce that result. Otherwise they report failure (or throw an overflow error) and leave the left operand unchanged.",
  I, "every type pair (quick: 8/16/32/64-bit signed/unsigned combinations), all operand values",
  "Tests sample boundary values; correctness depends on a case split over sign and width for each operand pair.",
  ["core/integer.hpp"], [("try_int_add/sub/mul/pow/arith_shift_left", "src/archon/core/integer.hpp")])
p("C03", "Two's complement conversions preserve the represented value",
  "Converting an integer to, from, or between two's complement representations held in unsigned types succeeds exactly when the represented (possibly negative) value fits in the target, and a successful conversion preserves that value. Sign extension from a given width yields the full-width representation of the same value, and the unchecked variants agree with the checked ones whenever those succeed.",
  I, "8/16/32/64-bit type pairs, all values, all source widths",
  "The tests cover limits of selected type pairs only.",
  ["core/integer.hpp"], [("cast_to/from_twos_compl, twos_compl_cast, twos_compl_sign_extend", "src/archon/core/integer.hpp")])
p("C04", "Integer helper functions compute their mathematical definitions",
  "Division rounding up or half-down, periodic modulo, integer square root, bit masks, shifts by any number of bits, power-of-two test, highest set bit position, digit counts, parity and sign tests return the mathematically defined result for every argument in their documented domain, for mixed argument types, without overflow or undefined behaviour.",
  I, "all values of 8/16/32/64-bit types within the documented domains (division-heavy kernels at the widths stated in the evidence)",
  "Tests sample a few values per type; rounding and overflow corner cases lie in between.",
  ["core/integer.hpp", "core/math.hpp"], [("int_div_round_up, int_periodic_mod, int_sqrt, int_mask, int_find_msb_pos", "src/archon/core/integer.hpp")])
p("C05", "Multi-precision integers behave as two's complement integers of their width",
  "Addition, subtraction, multiplication, division, remainder, bitwise operations, shifts, comparisons, negation, and conversions to and from built-in integers on multi-precision integers agree with fixed-width two's complement (or modular unsigned) arithmetic of the same total width, for signed and unsigned variants and any part type.",
  I, "all operand values for part/width combinations up to 64 bits (multiplication/division up to 16 or 24 bits)",
  "Tests run fixed samples per operator; carry and normalisation paths of long division are hit by rare operands.",
  ["core/mul_prec_int.hpp", "core/super_int.hpp", "core/integer.hpp"], [("MulPrecInt operators", "src/archon/core/mul_prec_int.hpp")])
p("C06", "Integer formatting and parsing round-trip in every radix",
  "Formatting an integer yields its positional representation in the requested base, padded to the requested minimum number of digits, and parsing that text gives the integer back. Parsing accepts a text exactly when it is an optional permitted sign followed by one or more digits of the radix whose value is representable in the target, and otherwise leaves the target unchanged.",
  I, "8/16/32-bit values, radix 2, 8, 10, 16 (and others), digit strings up to a stated length over all characters",
  "Tests parse a list of literals; near-overflow digit strings in non-decimal bases are a vanishing fraction.",
  ["core/integer_formatter.hpp", "core/integer_parser.hpp", "core/as_int.hpp", "core/char_mapper.hpp"],
  [("BasicIntegerFormatter/BasicIntegerParser", "src/archon/core/integer_parser.hpp")])
p("C07", "Float to integer conversion never leaves the representable range",
  "Comparisons of a floating-point value with an integer give the mathematically exact answer (false for NaN). Converting a floating-point value to an integer with the checked conversion succeeds exactly when the value lies between the smallest and largest value of the target type, inclusive, and then gives the truncated value; otherwise the target is unchanged. The clamping conversion gives the truncated value, or the nearest bound of the integer type (zero for NaN). No floating-point input, including values adjacent to the type limits, triggers undefined behaviour.",
  I, "all float and double bit patterns other than NaN, targets of 8 to 64 bits signed and unsigned",
  "The boundary cases sit at single bit patterns next to 2^31, 2^32, 2^63, 2^64.",
  ["core/float.hpp", "core/float_traits.hpp"], [("clamped_float_to_int/try_float_to_int", "src/archon/core/float.hpp")])
p("C08", "Base64 encoding is exact, sized exactly and invertible",
  "Encoding any byte string yields its RFC 4648 encoding in the selected alphabet, with the requested padding and line breaking, using exactly the advertised output size. Decoding that text gives the original bytes back.",
  I, "all byte strings up to the stated length, all combinations of alphabet, padding and line size",
  "Tests encode a handful of strings; the padding and line-break interplay has many combinations.",
  ["core/base64.cpp", "core/base64.hpp"], [("encode/decode/IncrementalEncoder", "src/archon/core/base64.cpp")])
p("C09", "Base64 decoding of arbitrary text accepts exactly well-formed input",
  "Decoding arbitrary text succeeds exactly when the text is a well-formed encoding under the selected alphabet, padding rule and whitespace rule, yields exactly the bytes it denotes, and never reads or writes outside the given buffers. Failure for lack of output space is reported as such and only then, and incremental processing in arbitrary pieces gives the same result as processing in one piece.",
  I, "all character strings up to the stated length, all configurations, all output capacities and split points",
  "Malformed tails, misplaced padding and short buffers combine into far more cases than the test tables hold.",
  ["core/base64.cpp", "core/base64.hpp"], [("decode/IncrementalDecoder", "src/archon/core/base64.cpp")])
p("C10", "UTF-8 coding accepts exactly valid sequences and round-trips",
  "Encoding a valid code point gives its unique shortest UTF-8 sequence and decoding that sequence gives the code point back. Decoding arbitrary bytes stops with an error exactly at the first byte sequence that is not a valid UTF-8 sequence of a valid code point (overlong forms, surrogates, the two noncharacters U+FFFE and U+FFFF, out of range values, truncated or stray bytes), and never reads or writes outside the buffers.",
  I, "all byte strings up to 4-5 bytes; all 32-bit code point values",
  "The validity predicate has hundreds of boundary sequences; tests sample some.",
  ["core/unicode.hpp"], [("encode_utf8_incr/decode_utf8_incr", "src/archon/core/unicode.hpp")])
p("C11", "UTF-16 coding and UTF-8/UTF-16 transcoding are exact",
  "Encoding a valid code point as UTF-16 and decoding it gives the code point back, and decoding accepts exactly valid sequences of code units. Transcoding between UTF-8 and UTF-16 gives the same result as decoding and re-encoding, stops at the same error positions, and never accesses memory outside the buffers.",
  I, "all code unit strings up to the stated length",
  "Surrogate handling at buffer ends is exercised on a few strings only.",
  ["core/unicode.hpp"], [("encode_utf16_incr/decode_utf16_incr/utf8_to_utf16_incr/utf16_to_utf8_incr", "src/archon/core/unicode.hpp")])
p("C12", "Incremental Unicode coding is independent of chunking and buffer space",
  "Feeding the input to an incremental Unicode coder in arbitrary pieces and giving it output space in arbitrary pieces produces the same output, the same consumed input and the same error position as one call with everything available, and each call makes all progress that its input and output space permit. Resynchronization and the lenient variants skip invalid input as documented, replacing each invalid stretch by replacement characters, and always terminate.",
  H, "all inputs up to the stated length and all two-way splits / output capacities",
  "Splits inside a multi-unit sequence combined with a nearly full output buffer are combinatorial.",
  ["core/unicode.hpp"], [("*_incr functions, resync_utf8", "src/archon/core/unicode.hpp")])
p("C13", "Newline translation is lossless and independent of chunking",
  "Encoding text with carriage-return newlines and decoding it again restores the original text, and decoding replaces exactly each carriage return plus line feed pair by one line feed. The outcome does not depend on how data and buffer space are divided into pieces, and simulated decoding consumes exactly the input that real decoding would consume.",
  H, "all texts up to the stated length and all splits and buffer sizes",
  "A CR at a piece boundary together with a full buffer is hit by few sampled tests.",
  ["core/newline_codec.cpp"], [("newline_codec::decode/encode/simul_decode", "src/archon/core/newline_codec.cpp")])
p("C14", "Character-level text decoding and encoding track positions exactly",
  "For any data, decoding characters from bytes and encoding characters to bytes in a single-byte or multi-byte locale consumes and produces exactly what the locale codec dictates, reports errors at the offending position, and simulated decoding reproduces the byte position of any character position.",
  H, "inputs up to a stated length",
  "Buffer-edge behaviour is exercised at a few sizes only.",
  ["core/impl/char_codec.hpp", "core/char_codec.hpp", "core/text_codec.hpp", "core/impl/text_codec_impl.hpp"],
  [("CharCodec / TextCodec", "src/archon/core/impl/char_codec.hpp")])
p("C15", "Flat map and flat set behave as ordered unique-key containers",
  "After any sequence of insertions, emplacements, assignments, lookups and erasures, a flat map or flat set holds exactly the keys (and values) that a mathematical map or set would hold, iterates them in ascending order without duplicates, and every operation's result (found position, inserted flag, erased count, bounds) agrees with it.",
  H, "all operation sequences up to the stated length over arbitrary integer keys",
  "Tests run one scripted sequence per operation.",
  ["core/flat_map.hpp", "core/flat_set.hpp", "core/impl/flat_map_impl.hpp"], [("FlatMap/FlatSet", "src/archon/core/impl/flat_map_impl.hpp")])
p("C16", "Flat multimap and multiset keep all duplicates, ordered and stable",
  "After any sequence of insertions and erasures, a flat multimap or multiset holds exactly the inserted and not erased elements, in ascending key order with equal keys in insertion order, and counts, equal ranges and erasures by key affect and report all elements with that key and no others.",
  H, "all operation sequences up to the stated length over arbitrary integer keys",
  "Tests run one scripted sequence per operation.",
  ["core/flat_multimap.hpp", "core/flat_multiset.hpp", "core/impl/flat_map_impl.hpp"], [("FlatMultimap/FlatMultiset", "src/archon/core/impl/flat_map_impl.hpp")])
p("C17", "Deque behaves as a double-ended sequence under any history",
  "After any sequence of pushes, pops, insertions, removals, resizes, reservations, assignments, copies, moves and swaps, a deque contains exactly the elements of the corresponding abstract sequence in order, and each element object is constructed and destroyed exactly once, provided that arguments do not refer to elements of the deque itself. No operation accesses memory outside the storage it owns.",
  H, "all operation sequences up to the stated length from arbitrary wrapped-around states",
  "Wrap-around of the ring buffer in combination with reallocation depends on the history.",
  ["core/deque.hpp"], [("Deque", "src/archon/core/deque.hpp")])
p("C18", "Vector behaves as a growable sequence under any history",
  "After any sequence of appends, pops, insertions, removals, resizes, reservations, assignments, copies, moves and swaps, a vector with in-object storage contains exactly the elements of the corresponding abstract sequence in order, across transitions between internal and heap storage, and each element object is constructed and destroyed exactly once, provided that arguments do not refer to elements of the vector itself.",
  H, "all operation sequences up to the stated length, sizes around the internal capacity",
  "The transition between internal and heap storage in each operation depends on the history.",
  ["core/vector.hpp", "core/impl/vector_impl.hpp"], [("Vector", "src/archon/core/vector.hpp")])
p("C19", "Growing buffers preserve contents and never overflow sizes",
  "Appending to, reserving in, resizing and extracting from the library's growable buffers preserves existing contents, provides at least the requested space, and the suggested new size is never below the requested minimum or above the maximum. A request that exceeds the maximum possible size is refused by an exception and leaves the contents intact.",
  H, "all sizes (64-bit) for the growth policy; operation sequences up to a stated length for buffers",
  "Size computations near the limits cannot be reached by allocating tests.",
  ["core/memory.hpp", "core/buffer.hpp", "core/buffer_contents.hpp", "core/string_buffer_contents.hpp", "core/array_seeded_buffer.hpp"],
  [("suggest_new_buffer_size, Buffer::reserve*/append*, Slab", "src/archon/core/buffer.hpp")])
p("C20", "In-memory streams respect capacity and seek semantics",
  "Any sequence of writes and seeks on a fixed-memory output stream leaves the memory as an array with a write position would, never writes beyond the given memory, reports failure exactly when space is insufficient or the position is invalid, and its size is the larger of its initial size and the highest position reached so far, where memory skipped by a seek beyond the size reads as zeros. A memory input stream returns exactly the bytes at its position after any sequence of reads and seeks, and the growable output stream holds everything written to it in order.",
  H, "all sequences of writes/seeks up to a stated length with arbitrary offsets",
  "Tests perform one scripted sequence.",
  ["core/memory_output_stream.hpp", "core/memory_input_stream.hpp", "core/seed_memory_output_stream.hpp"],
  [("streambuf seekoff/seekpos/overflow/xsputn", "src/archon/core/memory_output_stream.hpp")])
p("C21", "File I/O transfers every byte in order despite short transfers and errors",
  "Writing a byte string to a file through the library delivers exactly those bytes in order even when the operating system accepts only part of each request or interrupts it, and on an error reports how many bytes were delivered. Reading returns exactly the bytes delivered by the operating system, in order, up to the requested amount or end of file, and loading and saving whole files obey the same rule.",
  ["fault_sequences", "inputs"], "all schedules of short transfers, interruptions and errors up to a stated number of system calls",
  "Real files never produce short writes, EINTR or mid-transfer errors in tests.",
  ["core/file.hpp", "core/file.cpp"], [("File::try_read/try_write/try_read_some/try_write_some", "src/archon/core/file.cpp")])
p("C22", "Buffered sinks and rewindable sources neither lose nor duplicate bytes",
  "Bytes written to a buffered sink reach the destination in order exactly once after a flush, whatever the buffer size, write sizes and failures of intermediate writes, and a failed flush can be retried without loss. A rewindable source delivers the same bytes again after rewinding and continues seamlessly with the rest of the underlying source.",
  ["fault_sequences", "histories"], "all write/read/rewind sequences up to a stated length with short transfers and errors",
  "Needs failing or short underlying transfers, which tests do not inject.",
  ["core/file_sink.cpp", "core/file_sink.hpp", "core/sink.hpp", "core/source.cpp", "core/source.hpp", "core/rewindable_source.cpp", "core/file_source.cpp"],
  [("BufferedFileSink, RewindableSource, Source::try_read", "src/archon/core/file_sink.cpp")])
p("C23", "Text files translate and position text consistently",
  "Text written through a text file and read back is identical, in unbuffered and buffered mode and with or without newline translation, and seeking to a position previously told continues reading or writing at exactly that character.",
  H, "operation histories up to a stated length",
  "Histories mixing reads, writes and seeks are combinatorial.",
  ["core/text_file.hpp", "core/impl/text_file_impl.hpp", "core/impl/buffered_text_file_impl.hpp", "core/impl/prim_text_file_impl.hpp"],
  [("TextFileImpl", "src/archon/core/impl/text_file_impl.hpp")])
p("C24", "Wildcard matching agrees with wildcard semantics",
  "A matcher built from one or several wildcard patterns matches a string exactly when some pattern matches it under ordinary wildcard semantics, where an asterisk stands for any number of arbitrary characters and every other character for itself. The reported pattern identifier is that of a matching pattern, the earliest added one when ambiguity is allowed, and ambiguity is rejected exactly when two patterns match a common string.",
  I, "all patterns and strings up to the stated lengths",
  "Tests use a table of patterns and subject strings.",
  ["core/string_matcher.hpp", "core/frozen_sets.hpp"], [("BasicStringMatcher::Builder, match", "src/archon/core/string_matcher.hpp")])
p("C25", "Word wrapping respects line widths and minimizes raggedness",
  "Breakpoints produced by the word wrappers are strictly increasing word positions such that each line fits its line width unless it holds a single word, with the greedy wrapper filling each line as far as possible. The optimal wrapper finds a set of breakpoints whose total badness is minimal among all feasible ones and equals the badness it reports.",
  I, "all word and space sizes for up to the stated number of words and geometries",
  "Tests compare with an alternative implementation on random cases.",
  ["core/word_wrap.cpp", "core/word_wrap.hpp"], [("greedy, KnuthWrapper::wrap", "src/archon/core/word_wrap.cpp")])
p("C26", "Range map assigns exactly the given key ranges",
  "After any sequence of assignments, updates and defragmentations over key ranges, looking up any key in a range map's entries gives the value last assigned to it (or the result of the updates applied to it), no entry for keys never assigned, and the entries are disjoint, ascending and, after defragmentation, maximal.",
  H, "all sequences of up to the stated number of operations with arbitrary ranges, including ranges touching the limits of the key type",
  "There is no test for the range map at all.",
  ["core/range_map.hpp"], [("RangeMap::assign/update/defrag", "src/archon/core/range_map.hpp")])
p("C27", "Quoting, escaping and hex dumps are faithful and bounded",
  "Quoting a string escapes it so that the quoted form is unambiguous and, if a maximum size is given, limited to that size; smart quoting chooses the quote form that needs least escaping. A hex dump shows each element as its exact fixed-width hexadecimal value, limited to the given maximum size.",
  I, "all strings up to a stated length and all maximum sizes",
  "Truncation points inside escape sequences depend on content and limit together.",
  ["core/quote.hpp", "core/hex_dump.hpp", "core/string_codec.hpp"], [("quoted/smart_quoted/hex_dump", "src/archon/core/quote.hpp")])
p("C28", "List formatting and parsing round-trip",
  "A sequence formatted as a list and parsed back with the same configuration gives the same sequence, and parsing accepts exactly the texts that the list syntax allows, without exceeding the size of the target.",
  I, "all short texts and configurations",
  "Separator, bracket and space rules combine.",
  ["core/as_list.hpp", "core/text_parser.hpp", "core/value_parser.hpp"], [("as_list", "src/archon/core/as_list.hpp")])
p("C29", "Name lookup tables and hashing map every key to its own entry",
  "A literal hash map finds a key exactly when it was among the given associations and returns the associated value, for every set of keys including those whose hashes collide. Enumeration names parse to exactly the value they name, optionally ignoring case, and the FNV hash equals its published definition on any byte sequence.",
  I, "all key sets up to a stated size, all texts up to a stated length",
  "Bucket collisions depend on the key set; tests use fixed enumerations.",
  ["core/literal_hash_map.hpp", "core/enum.hpp", "core/hash_fnv.hpp"], [("LiteralHashMap::init/find, Enum::parse", "src/archon/core/literal_hash_map.hpp")])
p("C30", "String templates parse safely and expand exactly",
  "Parsing a string template accepts exactly the texts whose parameter references are well-formed and known, never reads outside the text, and expansion replaces every reference by the value of that parameter and leaves all other text unchanged.",
  I, "all template texts up to the stated length",
  "Truncated or nested reference syntax at the end of the text is rarely tested.",
  ["core/string_template.hpp"], [("BasicStringTemplate::Parser", "src/archon/core/string_template.hpp")])
p("C31", "Command lines dispatch to the one pattern they match, with exact arguments",
  "For any argument list, the command-line processor invokes exactly the one pattern function whose pattern matches the positional arguments, passing it exactly the matched values, sets each option exactly as given, and otherwise reports an error without invoking any pattern function. No argument list makes it crash or read outside the arguments.",
  I, "all argument lists up to a stated number and length for a set of specifications",
  "Tests give a table of command lines.",
  ["cli/processor.hpp", "cli/impl/pattern_matcher.hpp", "cli/impl/nfa_builder.hpp", "cli/impl/processor.hpp", "cli/command_line.hpp"],
  [("Processor, NfaBuilder, PatternMatcher", "src/archon/cli/impl/processor.hpp")])
p("C32", "Log messages pass exactly when their level is within the limit",
  "A log message is emitted exactly once when its level is at or above the importance limit in force for its channel, and otherwise not at all and without evaluating its formatting; prefixes of nested prefix loggers appear once each in nesting order.",
  H, "all limits and levels, all nestings up to a stated depth",
  "Tests use few combinations of limits and channels.",
  ["log/logger.hpp", "log/limit_logger.hpp", "log/channel.hpp", "log/prefix_logger.hpp", "log/log_level.hpp"],
  [("BasicLogger::will_log, BasicLimitLogger", "src/archon/log/limit_logger.hpp")])
p("C33", "The test framework's verdicts are right",
  "A comparison check of the testing framework passes exactly when the mathematical relation between its arguments holds, also between integers of different signedness and width, and evaluates each argument exactly once. Test selection filters include exactly the tests that the filter's include and exclude wildcard patterns select.",
  I, "all pairs of values of differing integer types; all filters and names up to a stated length",
  "The framework's own tests check a few value pairs and filters.",
  ["check/check_macros.hpp", "check/test_context.hpp", "check/wildcard_filter.cpp"], [("check comparison helpers, WildcardFilter", "src/archon/check/test_context.hpp")])
p("C34", "Unit-fraction conversions preserve and round component values",
  "Converting an integer colour component to a fraction and back gives the same integer, a fraction maps to the nearest integer level, values outside [0;1] are clamped, and changing bit width maps zero to zero and maximum to maximum, is monotone, is exact when widening and narrowing back, and equals replication of the bit pattern when widening.",
  I, "all component values for widths 1 to 16 (integer) and all finite floats (for clamping)",
  "Tests cover all values for a few width pairs only.",
  ["util/unit_frac.hpp", "image/bit_medium.hpp"], [("unit_frac::change_bit_width/int_to_flt/flt_to_int", "src/archon/util/unit_frac.hpp")])
p("C35", "Pixel formats store and retrieve every pixel without disturbing others",
  "Writing a block of pixels into an image buffer and reading it back gives the stored colour values for every pixel format (integer, packed, subword, indexed), word size, bit order and byte order; all other pixels keep their value, and nothing outside the buffer of the advertised size is accessed. Filling an area sets exactly the pixels of that area.",
  I, "all component values and all block positions within small images, for a set of format instances",
  "Tests use random images for some formats; sub-word positions and padding bits at block edges are combinatorial.",
  ["image/integer_pixel_format.hpp", "image/packed_pixel_format.hpp", "image/subword_pixel_format.hpp", "image/indexed_pixel_format.hpp", "image/bit_field.hpp", "image/bit_medium.hpp"],
  [("*PixelFormat::read/write/fill", "src/archon/image/subword_pixel_format.hpp")])
p("C36", "Images are read and written within bounds, with exact falloff",
  "Reading a block that lies partly or wholly outside an image yields the image's pixels inside and the pixels dictated by the selected falloff mode outside, for any position; writing or filling a block affects exactly its intersection with the image. No position or size makes the reader or writer access memory outside the image.",
  I, "all positions and sizes (32-bit) for small images, all falloff modes",
  "Positions near the limits of the coordinate type and partially overlapping blocks are sampled sparsely.",
  ["image/reader.hpp", "image/reader.cpp", "image/writer.hpp", "image/writer.cpp", "image/tray.hpp", "image/iter.hpp"],
  [("Reader::get_block falloff, Writer::put_block", "src/archon/image/reader.cpp")])
p("C37", "Buffer format descriptions are validated and recast faithfully",
  "A description of an image buffer is accepted as valid exactly when its documented consistency requirements are met. When recasting a valid description to an integer or subword description with a given word type succeeds, the result is valid, has that word type, and denotes the same memory location and width for every bit of every channel of every pixel; it always succeeds when neither kind nor word type changes, and leaves the result object unchanged when it fails. Word types are mapped only when they have a corresponding description, and computing buffer sizes never overflows silently.",
  I, "all parameter values within the stated ranges",
  "There is no test of format recasting.",
  ["image/buffer_format.cpp", "image/buffer_format.hpp", "image/bit_field.hpp"], [("BufferFormat::try_cast_to/is_valid", "src/archon/image/buffer_format.cpp")])
p("C38", "Pixel box operations agree with point-set semantics",
  "For pixel boxes of any position and size, including those touching the limits of the coordinate type, containment, intersection tests, clipping and splicing give the same answers as the corresponding operations on sets of pixel positions, and arithmetic on sizes and positions is component-wise exact.",
  I, "all 32-bit coordinates and sizes",
  "Two tests check a few boxes; overflow of position plus size occurs only at extreme coordinates.",
  ["util/pixel_box.hpp", "util/pixel_pos.hpp", "util/pixel_size.hpp"], [("pixel::Box::contains/intersects/clip, splice", "src/archon/util/pixel_box.hpp")])
p("C39", "Rectangle packing yields disjoint rectangles inside the bins",
  "When packing succeeds, every rectangle lies inside its bin with the requested margin, any two rectangles in the same bin are separated by at least the requested spacing, the number of bins does not exceed the limit, and the reported utilized sizes cover all rectangles. When packing reports failure no guarantee is given except that no memory error or overflow occurs, and a rectangle that fits in an empty bin never makes packing fail if bins are unlimited.",
  I, "all sizes for up to the stated number of rectangles",
  "One randomized test with moderate sizes.",
  ["util/rectangle_packer.hpp"], [("RectanglePacker::pack", "src/archon/util/rectangle_packer.hpp")])
p("C40", "Kd-tree search finds a nearest point",
  "Searching a point set arranged as a kd-tree finds a point exactly when one exists within the maximum distance, and the point found is at minimal distance from the query among all points.",
  I, "all coordinates for up to the stated number of points and dimensions",
  "Randomized test with generic points; ties and degenerate sets are rare in random data.",
  ["util/kdtree.hpp"], [("kdtree_sort/kdtree_find", "src/archon/util/kdtree.hpp")])
p("C41", "CSS colours parse exactly and format to text that parses back",
  "Parsing arbitrary text as a CSS colour accepts exactly hexadecimal notations and colour names (and functional notations) of the selected CSS level without reading outside the text, and a hexadecimal colour formatted to text parses back to the same colour. Packing and unpacking of colours into integers is lossless.",
  I, "all texts up to a stated length, all 32-bit colours",
  "Tests format a few colours; parsing has no test.",
  ["util/css_color.cpp", "util/css_color.hpp", "util/color.hpp", "util/as_css_color.hpp"], [("CssColor::parse/format", "src/archon/util/css_color.cpp")])
p("C42", "Wrapped timestamps unwrap to consistent monotone time",
  "Unwrapping a stream of truncated millisecond timestamps yields, for every timestamp, the value congruent to it that is nearest to the expected time, so that differences between events are exact as long as they are within half the wrap period of the clock.",
  H, "all timestamp sequences up to the stated length, all widths in the test's type set",
  "Tests replay a few scripted sequences.",
  ["display/noinst/timestamp_unwrapper.hpp"], [("TimestampUnwrapper", "src/archon/display/noinst/timestamp_unwrapper.hpp")])
p("C43", "Monitor identification data is parsed safely",
  "Parsing arbitrary bytes as extended display identification data never reads outside the data, accepts exactly data with valid header, checksum and supported version, and extracts the monitor name from the matching descriptor.",
  I, "all 128-byte blocks (selected bytes symbolic) and all shorter lengths",
  "There is no test for it.",
  ["display/noinst/edid.cpp", "display/noinst/edid.hpp"], [("EdidParser::parse", "src/archon/display/noinst/edid.cpp")])
p("C44", "Key bindings pair every press with its release",
  "For any sequence of key presses, releases, modifier changes and loss of focus, each handler bound to a key with a given modifier mode and press multiplicity is called for press exactly when that combination occurs and is called for release exactly once after each press call.",
  H, "all event sequences up to a stated length",
  "The render library has no tests.",
  ["render/impl/key_bindings.cpp", "render/impl/key_bindings.hpp"], [("KeyBindings::on_key/on_blur", "src/archon/render/impl/key_bindings.cpp")])
p("C45", "Finite history buffers keep the most recent entries in order",
  "A finite sequence memory holds exactly the most recent entries up to its capacity, in order, after any sequence of additions and clears; a finite curve memory interpolates only between retained samples and gives the end values outside them.",
  H, "all sequences of additions and clears up to a stated length, all capacities up to a stated bound",
  "The render library has no tests.",
  ["render/impl/finite_sequence_memory.hpp", "render/impl/finite_curve_memory.hpp"], [("FiniteSequenceMemory/FiniteCurveMemory", "src/archon/render/impl/finite_sequence_memory.hpp")])
p("C46", "Vector and matrix arithmetic is component-wise exact",
  "Construction, component access, addition, subtraction, scaling, products, transposition, sub-row/column access, comparison and type conversion of vectors and matrices produce, component by component, the defining expression over the components, and linear solving, inversion and determinants satisfy their defining equations.",
  I, "all component values (integer component type) for sizes up to 4",
  "Tests use fixed matrices.",
  ["math/vector.hpp", "math/matrix.hpp", "math/vector_base.hpp", "math/matrix_base.hpp"], [("Vector/Matrix operators", "src/archon/math/matrix.hpp")])
p("C47", "PNG images survive saving and loading",
  "Saving an image as PNG and loading it gives the same pixels, and loading arbitrary bytes as PNG either yields an image or reports an error without memory errors.",
  I, "all images and byte streams",
  "Depends on inputs no test reaches.",
  ["image/file_format_png.cpp"])
p("C48", "Concurrent use of loggers and file locks is race free",
  "Loggers documented as usable from several threads never lose, duplicate or interleave messages, and an exclusive file lock is held by at most one holder at any time.",
  ["schedules"], "all interleavings of threads and processes",
  "Schedules are not controlled by the tests.",
  ["log/stream_logger.hpp", "core/file.cpp", "core/thread.hpp"])
p("C49", "Colour space conversion and perspective geometry are numerically accurate",
  "Conversions between colour spaces, rotation representations and perspective projections are inverse to each other up to rounding error for all inputs in range.",
  I, "all floating-point inputs in range",
  "Tests check sample values.",
  ["util/color_space.hpp", "util/perspect_proj.hpp", "math/rotation.hpp", "math/quaternion.hpp"])
p("C50", "Layout of formatted text respects width and markup",
  "The text formatter never produces a line longer than the configured width unless a single word exceeds it, and emits every character of the input text exactly once in order.",
  I, "all texts and widths",
  "Tests cover one feature.",
  ["core/text_formatter.hpp"])
p("C51", "Histograms and statistics count every value in its bin",
  "Adding values to a histogram increments exactly the bin whose interval contains the value, the under- and overflow bins take all others, and nothing outside the bin array is accessed.",
  I, "all values",
  "Tests use a few values.",
  ["core/histogram.hpp"], [("Histogram::add", "src/archon/core/histogram.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        for fn in x["anchors"]["files"]:
            if not os.path.exists("/repo/" + fn): print("missing", x["id"], fn)
        f.write(json.dumps(x) + "\n")
print(len(P))
