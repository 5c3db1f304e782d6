"""The properties: text for properties.jsonl and MANIFEST.json (written by checks/gen.py)."""
META = {}
IN, HIST, CONF, PROG = "inputs", "histories", "configurations", "programs"
ALG = "include/bitlib/bit-algorithms/"; ITR = "include/bitlib/bit-iterator/"; VEC = "include/bitlib/bit-containers/bit_vector.hpp"
POS = "Buffers of exactly 2-4 words with arbitrary contents (memory outside them may not be touched), every pair or triple of bit positions inside them, word types uint8/16/32/64_t"
TESTS = "The tests compare randomly filled containers at a handful of random or fixed offsets"
def meta(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), bounds="", note=""):
    META[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe, bounds=bounds, note=note)

meta("A01", "copy transfers exactly the range", "Copying a bit range to a disjoint destination makes the destination range equal to the source range bit for bit, leaves the source and every bit outside the destination range unchanged, and returns the end of the destination range. No memory outside the words that hold the two ranges is accessed.",
     [IN], "every content, every source range and destination offset, aligned or not, empty to multi-word, every word width", TESTS + "; the number of combinations of source offset, destination offset, length and contents is out of their reach, and writes past the range into the same word go unnoticed.",
     [ALG + "copy.hpp", ITR + "bit_details.hpp"], [("bit::copy", ALG + "copy.hpp"), ("write_word/get_word", ALG + "bit_algorithm_details.hpp")],
     bounds="source and destination of 3 words each (thorough: 4); all positions; case split on the word a position falls in, offsets symbolic")
meta("A02", "move transfers exactly the range", "Moving a bit range to a disjoint destination makes the destination range equal to the original source range, changes no bit outside the destination range, and returns its end. No memory outside the words that hold the two ranges is accessed.",
     [IN], "every content, source range and destination offset, every word width", TESTS + ".", [ALG + "move.hpp", ALG + "copy.hpp"], [("bit::move", ALG + "move.hpp")],
     bounds="3 words each; all positions")
meta("A03", "copy_backward transfers exactly the range", "Copying backward makes the bits that end at the given destination position equal to the source range, leaves the source and every other bit unchanged, and returns the beginning of the destination range. No memory outside the words that hold the two ranges is accessed.",
     [IN], "every content, source range and destination end, every word width", TESTS + ".", [ALG + "copy_backward.hpp"], [("bit::copy_backward", ALG + "copy_backward.hpp")],
     bounds="3 words each; all positions for 8/16/32-bit words; for 64-bit words the destination's offset is one of 0, 5, 63, source positions arbitrary")
meta("A04", "copies between overlapping ranges behave as if via a buffer", "copy and move to a destination that begins at or before the source, and copy_backward to a destination that ends at or after it, give the destination the original source bits even when the two ranges share bits or words. All other bits keep their value.",
     [IN], "every content and every admissible pair of overlapping or adjacent ranges in one buffer", "The tests copy between two containers; overlap occurs only inside insert and erase at sampled positions.", [ALG + "copy.hpp", ALG + "move.hpp", ALG + "copy_backward.hpp"], [("bit::copy", ALG + "copy.hpp"), ("bit::copy_backward", ALG + "copy_backward.hpp")],
     bounds="one buffer of 3 words (copy_backward with 64-bit words: 2); all positions")
meta("A05", "fill sets exactly the range", "Filling a bit range with a value makes every bit of the range equal to the value and changes no other bit. No memory outside the words that hold the range is accessed.",
     [IN], "every content, range and value, every word width", TESTS + ".", [ALG + "fill.hpp"], [("bit::fill", ALG + "fill.hpp")], bounds="4 words; all positions")
meta("A06", "equal compares exactly the two ranges", "equal returns true if and only if every bit of the first range agrees with the corresponding bit of the second; bits outside the two ranges never influence the result, and nothing is modified.",
     [IN], "every content of both ranges and their surroundings, every pair of offsets", TESTS + "; bits just outside the range or in the last partial word rarely decide a sampled comparison.", [ALG + "equal.hpp"], [("bit::equal", ALG + "equal.hpp")], bounds="2 and 3 words; all positions")
meta("A07", "find returns the first matching bit", "find returns the position of the first bit of the range that has the given value, or the end of the range when there is none. Bits outside the range never influence the result.",
     [IN], "every content, range and value", TESTS + "; a match just outside the range, or exactly at a word boundary, needs particular contents.", [ALG + "find.hpp"], [("bit::find", ALG + "find.hpp")], bounds="3 words; all positions")
meta("A08", "count counts exactly the range", "count returns the number of bits of the range that have the given value, for empty, sub-word and multi-word ranges; bits outside the range are neither counted nor accessed beyond the words that hold the range.",
     [IN], "every content, range and value, every word width", TESTS + ".", [ALG + "count.hpp", ALG + "libpopcnt.h"], [("bit::count", ALG + "count.hpp")],
     bounds="3 words of 8 bits, 2 words otherwise; every pair of positions enumerated as paths, contents symbolic; the 64-bit population count is replaced by its specification, which property A16's lemma proves")
meta("A09", "reverse reverses exactly the range", "Reversing a bit range makes its k-th bit from the front the original k-th bit from the back and changes no bit outside the range.",
     [IN], "every content and range, every word width", TESTS + ".", [ALG + "reverse.hpp"], [("bit::reverse", ALG + "reverse.hpp")],
     bounds="3 words, all positions, for 8/16-bit words; for 32/64-bit words 2 words (thorough: 3) with one end arbitrary and the other at offset 0, 5 or digits-1, and 4 words with both ends at seven selected offsets")
meta("A10", "rotate rotates exactly the range", "Rotating a bit range around a middle position makes the bit at the middle the first one, keeps the cyclic order of all bits of the range, changes nothing outside it, and returns the new position of the original first bit. Degenerate middles (either end) leave the range as it was.",
     [IN], "every content, every triple first <= middle <= last", TESTS + ".", [ALG + "rotate.hpp"], [("bit::rotate", ALG + "rotate.hpp")],
     bounds="8-bit words: 3 words, every triple of positions; 16/32/64-bit: 3 words with seven selected offsets per position or one arbitrary position and two at offsets 0, 5, digits-1; 4 words (thorough: 6) with offsets 0, 5, digits-1")
meta("A11", "shift_left moves the surviving bits", "Shifting a bit range left by n moves the bit at offset k+n of the range to offset k for every surviving bit, changes no bit outside the range, and returns the end of the survivors. A count of zero or less changes nothing and returns the end; a count of at least the length returns the beginning.",
     [IN], "every content, range and count, including counts far beyond the length and negative ones", TESTS + "; bits outside the range in the boundary words are hardly observed.", [ALG + "shift.hpp"], [("bit::shift_left", ALG + "shift.hpp")], bounds="3 words, all positions and counts; counts outside (0, length): |n| < 2^40")
meta("A12", "shift_right moves the surviving bits", "Shifting a bit range right by n moves the bit at offset k of the range to offset k+n for every surviving bit, changes no bit outside the range, and returns the beginning of the survivors. A count of zero or less changes nothing and returns the beginning; a count of at least the length returns the end.",
     [IN], "every content, range and count, including counts far beyond the length and negative ones", TESTS + ".", [ALG + "shift.hpp"], [("bit::shift_right", ALG + "shift.hpp")],
     bounds="3 words; 8/16-bit: all positions and counts; 32/64-bit: one position arbitrary, the others at selected offsets; 4 words at seven selected offsets; counts outside (0, length): |n| < 2^40")
meta("A13", "swap_ranges exchanges exactly the two ranges", "swap_ranges exchanges the bits of two disjoint ranges, possibly adjacent and sharing a word of one buffer, changes nothing else, and returns the end of the second range.",
     [IN], "every content and every pair of disjoint ranges", TESTS + "; two ranges that share a word are not tested.", [ALG + "swap_ranges.hpp"], [("bit::swap_ranges", ALG + "swap_ranges.hpp")],
     bounds="3 words each; all positions for 8/16/32-bit words; 64-bit: the first position at offset 0, 5 or 63; words of two different widths: up to 6 bits around a word boundary of either range")
meta("A14", "unary transform applies the operation to exactly the range", "Transforming a bit range with a bitwise word operation gives every destination bit the operation's result for the corresponding source bit, in place or to another buffer, changes nothing else, and returns the destination's end.",
     [IN], "every content, source range and destination offset; operations: complement and identity", TESTS + ".", [ALG + "transform.hpp"], [("bit::transform", ALG + "transform.hpp")], bounds="3 words; all positions (64-bit words: source begins at offset 0, 5 or 63)")
meta("A15", "binary transform combines exactly the two ranges", "Transforming two bit ranges with a bitwise word operation gives every destination bit the operation's result for the corresponding pair of source bits, in place or to another buffer, leaves everything else unchanged, and returns the destination's end.",
     [IN], "every content and every triple of ranges; operations: and, or, exclusive or", TESTS + ".", [ALG + "transform.hpp"], [("bit::transform", ALG + "transform.hpp")], bounds="2 words with all positions (64-bit: one at offset 0, 5, 63), 3 words with selected offsets (8-bit: all)")
meta("A16", "bulk population count is exact on every CPU", "The population count of a long run of words equals the number of its one bits whichever of the scalar, AVX2 or AVX-512 code paths the processor selects.",
     [IN, CONF], "every content; every CPU feature level the code dispatches on; lengths that take the vector loops and their remainders", "The tests run on one machine and reach one of the dispatch paths, with random contents that seldom saturate a carry-save adder.", [ALG + "libpopcnt.h", ALG + "count.hpp"], [("popcnt / popcnt_avx2 / popcnt_avx512", ALG + "libpopcnt.h")],
     bounds="lemmas: scalar 64-bit, AVX2 256-bit and AVX-512 512-bit lane counts for every content; composition: ranges of 66 and 79 words of 64 bits and 531 words of 8 bits (AVX2 kernel: one full block, vectors left over, words and bytes left over), 130, 143 and 1099 (AVX-512 kernel), 93 words of 8 bits on the scalar paths, starting at bit 0, 1 or 2 and ending up to 3 bits before the last word's end, contents symbolic")
meta("A17", "the SIMD build computes the same results", "With the SIMD configuration enabled, filling, finding, complementing, shifting, rotating and reversing bit ranges give exactly the results the portable configuration gives, whatever the alignment of the words in memory and however the range splits into a scalar prologue, full vectors and a remainder. No vector access is misaligned or outside the words that hold the range.",
     [IN, CONF], "every content; ranges long enough for the vector loops; several alignments of the words; every word width", "The tests of the SIMD configuration use containers whose alignment the allocator chooses and ranges that end at the container's end, so the boundary between prologue, vector loop and remainder is met at a few places only.",
     [ALG + "fill.hpp", ALG + "find.hpp", ALG + "shift.hpp", ALG + "transform.hpp"], [("BITLIB_HWY branches of fill, find, shift_left, shift_right, transform", ALG + "shift.hpp")],
     bounds="16-byte vectors (the target the project's build selects); 20/24/28/40 words of 64/32/16/8 bits (find: 5/8/12/19, thorough 7/11/19/35) whose first, or last full, vector begins 0, 1 or 2 words off a 64-byte boundary; positions in words near either end or the middle at offsets 0, 5, digits-1; plus short ranges at all or selected positions")
meta("B01", "bit counting primitives are exact", "For every word of every width, the population count, leading-zero count and trailing-zero count equal their mathematical definitions (a zero word has as many leading and trailing zeros as digits), and the portable and the intrinsic implementations agree.",
     [IN, CONF], "every word value of 8, 16, 32 and 64 bits, portable and intrinsic variants", "The tests sample random words and use the variant the platform selects.", [ITR + "bit_details.hpp"], [("_popcnt, _lzcnt, _tzcnt", ITR + "bit_details.hpp")], bounds="none on the value: all words (loops fully unrolled)")
meta("B02", "bit and byte reversal primitives are exact", "Reversing the bits of a word maps bit i to bit digits-1-i and is an involution; reversing its bytes maps byte i to byte bytes-1-i, in the portable and in the intrinsic implementation.",
     [IN, CONF], "every word value of 8, 16, 32 and 64 bits", "The tests sample random words.", [ITR + "bit_details.hpp"], [("_bitswap, _byteswap", ITR + "bit_details.hpp")], bounds="none on the value: all words")
meta("B03", "field primitives select exactly the field", "Extracting, blending, exchanging and comparing bit fields of words touch exactly the bits named by the mask or by the start and length, for every admissible start and length including empty and whole-word fields; the portable and intrinsic extraction agree.",
     [IN, CONF], "every operand, mask, start and length", "The tests sample words, starts and lengths; fields of full width and starts at the word's edge are where shifts overflow.", [ITR + "bit_details.hpp"], [("_bextr, _bitblend, _bitexch, _bitcmp", ITR + "bit_details.hpp")], bounds="all words; start and length any 8-bit value inside the documented domain")
meta("B04", "deposit and extract follow the mask", "Depositing puts the low bits of a word, in order, at the positions of the mask's ones and zero elsewhere; extracting gathers the bits at the mask's ones, in order, at the low end and zero above.",
     [IN, CONF], "every source word; masks within the bounds; the variants the target provides", "The tests sample masks.", [ITR + "bit_details.hpp"], [("_pdep, _pext", ITR + "bit_details.hpp")],
     bounds="source arbitrary; masks: all 256 for 8-bit words; for wider words all masks of 6 free bits at the top of the word and all masks made of 6 blocks")
meta("B05", "multiword arithmetic primitives are exact", "Double-precision shifts, addition with carry, subtraction with borrow and the double-width product return exactly the low word and the carry, borrow or high word of the mathematical result, and portable and intrinsic variants agree.",
     [IN, CONF], "every operand and carry; every shift count; portable and intrinsic variants", "The tests sample operands; carries at the extremes and shifts by zero or a whole word are rare.", [ITR + "bit_details.hpp"], [("_shld, _shrd, _addcarry, _subborrow, _mulx", ITR + "bit_details.hpp")],
     bounds="all operands (shift counts below 256); portable product: one operand arbitrary, the other x<<s or its complement with x of 3 bits (8-bit words), x<<s with x of 2 bits (16/32-bit) or a power of two (64-bit)")
meta("B06", "unaligned word reads and writes touch exactly their bits", "Reading len bits at any bit position yields exactly those bits in the low end of the result and accesses only words that hold them; writing len bits changes exactly those bits; a padded read replaces the bits of the word outside the range by the padding.",
     [IN], "every content, position and length; words read or written narrower, wider than or as wide as the words of the sequence", "These helpers have no tests of their own; algorithms reach them with a few offsets.", [ALG + "bit_algorithm_details.hpp"], [("get_word, write_word, _padded_read", ALG + "bit_algorithm_details.hpp")], bounds="3 words (words of 64 bits written to narrower ones: 10 of 8, 6 of 16, 4 of 32 bits); all positions; every length from 1 to the word width")
meta("B07", "distances and whole-word shifts are exact", "The distance between two bit positions is the number of bits between them, next and advance by it reach the second, bounded-distance tests agree with it, and whole-word shifts move exactly the surviving words of the range.",
     [IN], "every pair of positions; every word range and shift count", "The tests use a few pairs.", [ALG + "bit_algorithm_details.hpp", ITR + "bit_iterator.hpp"], [("distance, is_within, word_shift_left/right", ALG + "bit_algorithm_details.hpp")], bounds="distance: 4 words, all positions, and any two word addresses in [2^44, 2^46), any offsets; word shifts: 6 words, every range, counts -1 to 7")
meta("B08", "iterator arithmetic is integer arithmetic on bit positions", "Adding n to a bit iterator, for any positive or negative n, designates the bit n further on; subtraction and difference are its inverses, compound and single-step forms agree with it, and the position inside a word always stays below the word's digits.",
     [IN], "every position and every step of either sign across word boundaries", TESTS + "; negative unaligned steps need floor rather than truncating division.", [ITR + "bit_iterator.hpp"], [("operator+, operator-, operator++, operator--, difference", ITR + "bit_iterator.hpp")],
     bounds="word address any in [2^44, 2^46) words, |n| < 2^40; every offset for 8/16-bit words, offsets 0, 5, digits-1 for 32/64-bit in the quick tier (thorough: all)")
meta("B09", "iterator order, conversion and indexing agree with positions", "Comparisons and differences of bit iterators are those of the bit positions they designate, also between iterators to constant and to mutable bits; indexing, dereferencing, arrow and address-of designate the same bit, and writing through them changes exactly that bit.",
     [IN], "every pair of positions; every content", TESTS + ".", [ITR + "bit_iterator.hpp", ITR + "bit_reference.hpp"], [("comparison operators, operator[], operator->", ITR + "bit_iterator.hpp")], bounds="any two word addresses in [2^44, 2^46), any offsets; access: 3 words")
meta("B10", "bit pointers step, compare and convert like pointers", "Arithmetic, differences and comparisons of bit pointers are those of the bit positions they designate; null pointers, assignment and conversions to pointers to constant bits keep their meaning.",
     [IN], "every pair of positions, every step of either sign", "The tests use few pointers.", [ITR + "bit_pointer.hpp"], [("bit_pointer operators", ITR + "bit_pointer.hpp")], bounds="word address any in [2^44, 2^46) words, |n| < 2^40; offsets 0, 5, digits-1 for arithmetic in the quick tier (thorough: all), any offset for steps and comparisons")
meta("B11", "bit references and values act on exactly one bit", "Every assignment, logical, set, reset, flip and swap operation on a bit reference changes exactly the designated bit to the right value, also when two references share a word or a bit; bit values obey Boolean algebra and order.",
     [IN], "every word content, every position, every operation", "The tests cover sampled words and positions.", [ITR + "bit_reference.hpp", ITR + "bit_value.hpp"], [("bit_reference mutators, swap", ITR + "bit_reference.hpp")], bounds="none on words and positions; 17 mutators, one step")
meta("C01", "constructed vectors hold exactly the requested bits", "A bit vector built from a count and a value, a range of bits, of words or of bools, or a list has exactly the requested length and bits; the source is unchanged.",
     [IN], "every length and content within the bounds, every constructor", "The tests sample contents and lengths that are mostly multiples of the word.", [VEC], [("bit_vector constructors", VEC)], bounds="up to 4 words (counts), 3 words (bits, words), 9 bools (thorough: 11); 8-bit words all lengths and offsets, 32/64-bit selected ones")
meta("C02", "bit strings are parsed and printed faithfully", "Building a bit vector from a character string keeps the digits 0 and 1 in order and skips every other character; printing writes every bit once, in order, with separators only at byte and word boundaries, and reading a printed vector back gives the same bits.",
     [IN], "every character string and every vector content within the bounds", "The tests use fixed strings.", [VEC], [("string constructor, debug_string", VEC)], bounds="strings of up to 4 arbitrary characters (thorough: 6), also following digits-1 digits; printing: up to 2 words plus 3 bits")
meta("C03", "element access is exact and at() checks bounds", "Indexing, at, front and back read and write exactly the designated element; at throws an out-of-range exception for every index that is not below the size and for no other.",
     [IN], "every content, every length within the bounds, every 64-bit index", "The tests try an index or two.", [VEC], [("operator[], at, front, back", VEC)], state=[("words beyond the size", "may hold arbitrary bits", VEC)], bounds="up to 2 words; index any 64-bit value")
meta("C04", "push_back, pop_back, resize and clear keep the prefix", "Growing and shrinking at the end keep the common prefix, make the new bits exactly the given value (zero when none is given), and report the new size, whatever bits or capacity the storage held before.",
     [IN, HIST], "every content, length, unused-bit pattern and capacity state", "The tests start from freshly built vectors whose unused bits are zero.", [VEC], [("push_back, pop_back, resize, clear", VEC)], state=[("unused bits of the last word", "arbitrary after shrinking", VEC)], bounds="up to 3 words before; three representations (exact, with spare words, with spare capacity), unused bits arbitrary; 8-bit words all lengths, 32/64-bit offsets 0, 1, 5, digits-1")
meta("C05", "insert places the new bits and moves the rest", "Inserting a bit, copies of a bit or a range of another vector at any position gives the vector the old bits before it, the new bits, and the old bits after it, in order; it returns the position of the first new bit.",
     [IN, HIST], "every content, position, count and unused-bit pattern", "The tests sample positions and counts.", [VEC, ALG + "shift.hpp", ALG + "copy.hpp", ALG + "fill.hpp"], [("bit_vector::insert", VEC)], bounds="up to 2 words before (ranges: 1), counts 0, 1, 5, digits-1, digits, digits+3, 2*digits; three representations")
meta("C06", "erase removes the bits and closes the gap", "Erasing a bit or a range leaves exactly the other bits in order, reduces the size by the number removed and returns the position after the removed bits.",
     [IN, HIST], "every content, range and unused-bit pattern", "The tests sample positions.", [VEC, ALG + "shift.hpp"], [("bit_vector::erase", VEC)], bounds="up to 3 words before; 8-bit words all ranges, 32/64-bit selected ones; three representations")
meta("C07", "capacity requests are honoured at every size", "After reserving n bits the capacity is at least n, up to the largest sizes a size can express or an exception; growing within the reserved capacity does not move the bits, and no capacity operation changes size or contents.",
     [IN, HIST], "every 64-bit request; every content within the bounds", "Allocating more than 2^32 bits is beyond a unit test.", [VEC], [("word_count, reserve, capacity, shrink_to_fit", VEC)], bounds="requests: any 64-bit value, with an allocator that records the request; contents: up to 2 words growing to 3")
meta("C08", "copies are independent and moves transfer the contents", "A copy of a bit vector holds the same bits and changing either leaves the other as it was; a move transfers the bits to the target and leaves the source empty and usable.",
     [IN, HIST], "every content, length and representation", "The tests copy a few vectors.", [VEC], [("copy/move constructors and assignment", VEC)], bounds="up to 2 words; three representations")
meta("C10", "a bit vector survives running out of memory", "When memory runs out in an operation that grows, copies or constructs a bit vector, or when more bits are asked for than memory can hold, the operation reports it by an exception and every vector involved keeps its size and bits and stays usable; moving a vector that uses the standard allocator needs no memory.",
     ["fault_sequences", IN], "every operation that requests memory, failing at the first or second request; every 64-bit number of bits asked for; every content and representation", "The tests never fail an allocation.", [VEC], [("insert, push_back, resize, reserve, copy and move", VEC)], bounds="up to 2 words, three representations, counts 1, digits, 2*digits+3; growth by any 64-bit number of bits with an allocator that has 8 words")
meta("C11", "a bit vector uses the allocator it is given", "A bit vector constructed with an allocator takes all its memory from that allocator and returns all of it there, whatever operations follow, and holds the same bits as with any other allocator; copies and moves between vectors with unequal allocators transfer the bits and mix no memory.",
     [IN, HIST], "every content; every constructor that takes an allocator, followed by every operation", "The tests use the standard allocator only.", [VEC], [("constructors, assignment, modifiers", VEC)], bounds="up to 2 words; one operation after construction; allocators with identity, compared by it, not propagated by assignment")
meta("C09", "every history of operations yields the modelled bits", "After any sequence of modifying operations a bit vector has the size and bits that the same operations give an ordinary sequence of Booleans.",
     [HIST, IN], "every sequence of operations within the bounds from every representation, all values symbolic", "The tests run single operations on fresh vectors.", [VEC], [("all modifiers", VEC)], state=[("word vector and length", "words * digits >= length; bits beyond the length are arbitrary", VEC)], bounds="2 operations (thorough: 3) out of 9 kinds from an arbitrary representation of 0, 1, digits-1, digits or digits+1 bits; as the starting representation is arbitrary each step is also an inductive step")
meta("B12", "streamed bit values and references round-trip", "Writing a bit value or a referenced bit to a stream writes exactly the stream's digit 0 or 1, and reading one accepts exactly these digits, reports failure on anything else without changing the target or any other bit, leaves a character that is no digit unread where the buffer allows, and reports end of file and buffer errors.",
     [IN, HIST], "every character, every stream state, every encoding of the digits, end of input and buffer exceptions", "No test streams a bit value.", [ITR + "bit_value.hpp", ITR + "bit_reference.hpp"], [("operator<<, operator>>", ITR + "bit_value.hpp"), ("operator<<, operator>>", ITR + "bit_reference.hpp")],
     bounds="input of at most 2 characters; the stream is a stand-in (basic_istream and basic_ostream specialised for the harness's traits) whose answers are arbitrary", note="stand-in")
# properties stated but not decided by this family
NA = {}
