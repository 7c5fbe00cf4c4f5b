#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
BV = "src/bit_vec/bit_vector.rs"; VB = "src/internal/vector_base.rs"; TR = "src/bit_vec/traits.rs"
SL = "src/bit_vec/bit_slice.rs"; PR = "src/bit_vec/prim.rs"; IV = "src/int_vec/int_vector.rs"
ST = "src/storage.rs"; BB = "src/stream/bit_buffer.rs"; SR = "src/stream/traits.rs"

prop("B01", "Out-of-range accesses panic, in every build mode",
 "Reading or writing a bit, a span of bits, a block or an element that is not wholly inside a bit vector, integer vector, word, word array or bit slice panics, with and without overflow checks and debug assertions, for every index and count including those whose sum exceeds the index type. An in-range access never panics.",
 ["inputs", "configurations"], "every vector length, block type, index and count up to the limits of u64/usize; debug and release arithmetic",
 "Tests try a few indices on a few short vectors, in the debug profile only; overflow-wrapping index sums near 2^64 and the release profile are never reached.",
 [VB, TR, SL, PR, ST, IV], [("asserts in get_*/set_*", "VectorBase, BitVec default methods, BlockType, primitive impls"), ("checked address computation", "Address::new, IntVector::compute_address")],
 ["BitVec::get_bit/get_bits/get_block", "BitVecMut::set_*", "IntVec::get", "IntVecMut::set", "BlockType::get_bit(s)/with_bit(s)"])
prop("B02", "Bit reads and writes address exactly the requested bits",
 "Writing a bit, a span of bits or a block makes exactly those positions read back the written bits and leaves every other position and the length unchanged; reading a span or a block returns exactly the bits at those positions, least significant first, with zeros above. This holds for words, word arrays, bit vectors and the provided (default) trait methods, whatever offset and length the span has and however many blocks it straddles.",
 ["inputs"], "every block type, vector length, content, start offset, count and value",
 "The tests sample a few spans and values; straddling spans at every offset with every content, and the frame (all other bits untouched), are quantified over all inputs.",
 [TR, VB, ST, PR, BV], [("masking and shifting", "BlockType::get_bits/with_bits/low_mask"), ("two-block split", "BitVec::get_bits, BitVecMut::set_bits")],
 ["get_bit", "get_bits", "get_block", "set_bit", "set_bits", "set_block"])
prop("B03", "Bit vectors grow and shrink as plain sequences of bits",
 "Pushing appends exactly the given bit or block, popping removes and returns exactly the last one (nothing on an empty vector), and truncating, resizing, filling and clearing yield exactly the requested length; every bit that is kept is unchanged and every bit that is added has the fill value. Reserving, shrinking the allocation and pre-allocating never change length or contents, and afterwards the promised capacity is available.",
 ["inputs", "histories"], "every prior state reachable through the API, every block type, every size and fill value; hence every history of these operations",
 "Tests run a handful of short histories; the guarantee is an invariant over every state and every operation argument.",
 [BV, VB, TR], [("length/block-count bookkeeping", "VectorBase::push_*/pop_*/truncate/resize/block_*"), ("block-aligned fill", "BitVector::resize")],
 ["push_bit", "pop_bit", "push_block", "truncate", "resize", "with_fill", "block_with_fill", "block_resize", "block_truncate", "clear", "reserve*"])
prop("B04", "Equal contents compare, order and hash equal: storage is canonical",
 "After every operation, a bit vector or integer vector stores exactly the number of blocks its length needs and every stored bit beyond its last element is zero, so that equality, ordering and hashing depend only on the contents and never on the history that produced them or on spare capacity.",
 ["histories", "inputs"], "every sequence of constructor and mutator calls with every argument",
 "Equality of two vectors reached by different histories is tested for single examples; the invariant must hold after every operation in every state.",
 [VB, BV, IV], [("clear_extra_bits and block-count maintenance", "VectorBase"), ("derived Eq/Ord/Hash", "VectorBase, BitVector, IntVector")],
 ["PartialEq/Ord/Hash", "get_block(last)", "block_len"])
prop("B05", "Oversized requests are rejected, never wrapped or truncated",
 "A construction, resize or reserve request whose size in bits or blocks does not fit the machine's index types panics instead of producing a smaller object, in every build mode; an element value that does not fit an integer vector's element width is rejected, never silently truncated.",
 ["inputs", "configurations"], "every requested length/capacity/element width up to u64::MAX; debug and release arithmetic",
 "Requests near 2^64 in the release profile are not exercised (and cannot be executed for real); tests use small sizes.",
 [VB, ST, BV, IV], [("checked_mul / checked_ceil_div_nbits", "len_to_block_len, additional_blocks, BitVector::with_fill/resize"), ("check_value", "IntVector")],
 ["with_capacity", "with_fill", "resize", "reserve", "reserve_exact", "push", "set"])
prop("B06", "Integer vectors are exact sequences of fixed-width integers",
 "Every element of an integer vector reads back exactly the value last stored at its index; storing, pushing, popping, truncating and resizing affect exactly the named elements and the length, for every element width from one bit to the block width.",
 ["inputs", "histories"], "every element width 1..=block width, block type, index, length and value",
 "Tests fix a few widths; straddling elements of every width at every index with arbitrary neighbours are not sampled.",
 [IV, VB, TR], [("element address computation", "IntVector::compute_address*"), ("push_bits/pop_bits", "VectorBase")],
 ["get", "set", "push", "pop", "get_random", "set_random", "truncate"])
prop("B07", "Bit slices are exact windows onto their base",
 "A slice (or slice of a slice) exposes exactly the requested range: its length is the range's length, its i-th bit, span or block is that of the base at start+i, writing through a mutable slice changes exactly those base bits, and constructing a slice whose range leaves the base or accessing outside the slice panics. Blocks of a slice follow the block contract of bit vectors, including a last, partial block.",
 ["inputs"], "every base, range form, nesting, position, count and value",
 "Slice tests cover few small ranges; partial last blocks, nesting at every offset, and overflowing ranges are not sampled.",
 [SL], [("offset addition and range assertion", "BitSlice::new/slice, BitSliceMut::*")],
 ["BitSlice::*", "BitSliceMut::*"])
prop("B08", "Iterators yield each element exactly once, from either end, and stay exhausted",
 "Iterating a bit vector or integer vector forwards, backwards or mixed with skips yields each element exactly once in order; the reported remaining length is exact at every step, including after skipping past the end, and an exhausted iterator stays exhausted.",
 ["inputs", "histories"], "every vector and every interleaving of next, next_back, nth, count, last, len",
 "Tests iterate small vectors forwards; interleavings and skips beyond the end are unbounded.",
 [VB, BV, IV], [("start/limit cursor", "vector_base::Iter")],
 ["Iterator", "DoubleEndedIterator", "ExactSizeIterator"])
prop("R01", "Rank structures count exactly",
 "For every bit vector and every in-range position, the rank-one answer of each rank structure is the number of one bits at positions up to and including it.",
 ["inputs"], "every bit vector content and length, every position, every rank structure",
 "Property tests sample short random vectors; superblock boundaries, level counters near their capacity and partial last blocks at every length are not covered.",
 ["src/rank/rank9.rs", "src/rank/jacobson.rs", "src/rank/prim.rs"], [("two-level counters", "Rank9::new, JacobsonRank::new"), ("query assembly", "rank1")],
 ["rank1"])
prop("R02", "Rank queries agree with each other and reject positions past the end",
 "For every rank structure, rank(p, true) = rank1(p), rank(p, false) = rank0(p), rank0(p) + rank1(p) = p + 1, the limit is the number of bits of the underlying store, and a query at or beyond the limit panics in every build mode.",
 ["inputs", "configurations"], "every structure, store, position; debug and release",
 "Tests query in-range positions of a few vectors in debug mode only.",
 ["src/rank/rank9.rs", "src/rank/jacobson.rs", "src/rank/prim.rs", "src/rank/traits.rs", "src/broadword.rs"], [("bounds assertions", "rank1 implementations"), ("rank0 default", "BitRankSupport")],
 ["rank", "rank0", "rank1", "limit"])
prop("R03", "An index can never go stale: indexed bits are immutable",
 "Once a rank or select structure has been built over a store, no public operation changes the store or the index while the structure exists: the API hands out only shared references or gives the store back by consuming the structure, and queries mutate nothing.",
 ["programs", "histories"], "every program using the public API",
 "No test can enumerate all client programs; this is a fact about the API surface.",
 ["src/rank/rank9.rs", "src/rank/jacobson.rs", "src/select/bin_search.rs"], [("private fields, shared-reference accessors, no mutable trait impls", "Rank9, JacobsonRank, BinSearchSelect")],
 ["public API"])
prop("S01", "Select is the exact inverse of rank",
 "select1(k), select0(k) and select(k, v) return the position of the k-th (from zero) one, zero or v, and None exactly when there is none: the result is the least position whose rank exceeds k; only positions inside the structure are ever queried and the search terminates, for every k including the largest.",
 ["inputs", "configurations"], "every monotone rank function, limit and index k up to u64::MAX; debug and release",
 "Tests use a few fixed vectors and indices; extreme k, empty structures and every limit are not sampled.",
 ["src/select/bin_search.rs", "src/internal/search.rs"], [("binary search over rank", "binary_search_function"), ("index + 1 target", "select1/select0/select")],
 ["select1", "select0", "select"])
prop("C01", "Decoding arbitrary streams is total: no panic, no wrapped result",
 "Decoding any bit stream, well-formed, truncated or hostile, with any of the universal codes or integer readers returns a value, end-of-stream, or an error; it never panics, never performs overflowing arithmetic or shifts and never returns a value that does not fit, in any build mode.",
 ["inputs", "configurations"], "every bit stream and every code parameter that the encoder accepts",
 "Round-trip tests only decode well-formed streams produced by the encoders.",
 ["src/coding", SR], [("width guards and checked arithmetic", "decode implementations")],
 ["UniversalCode::decode", "BitRead::read_int", "BitRead::read_int_be"])
prop("C02", "Clean end-of-stream is reported only at a code-word boundary",
 "A decoder or integer reader answers end-of-stream only if the stream ended before the first bit of the code word; if the stream ends after at least one bit of an unfinished code word was consumed, it answers an error, never end-of-stream and never a value.",
 ["inputs"], "every stream and every truncation point",
 "No test truncates a stream inside a code word for each code.",
 ["src/coding", SR], [("consumed flags", "decode implementations, read_int, read_int_be")],
 ["UniversalCode::decode", "BitRead::read_int"])
prop("C03", "I/O errors always reach the caller",
 "If the underlying source or sink fails on any bit or byte, the operation in progress returns that failure, issues no further reads or writes, and never reports success or end-of-stream.",
 ["fault_sequences"], "every fault position in every encoder, decoder, integer reader/writer and block reader/writer",
 "Tests use infallible in-memory streams; no fault is ever injected.",
 ["src/coding", "src/stream", ST], [("try! propagation", "all stream operations")],
 ["UniversalCode", "BitRead", "BitWrite", "BlockType::read_block/write_block"])
prop("C04", "What a code encodes, it decodes",
 "For every value a universal code accepts, decoding the emitted bits yields exactly that value and consumes exactly the emitted bits.",
 ["inputs"], "every 64-bit value, every code, every code parameter",
 "QuickCheck samples small values; the largest values and all parameter settings are unsampled.",
 ["src/coding", SR], [("encode/decode pairs", "coding")],
 ["encode", "decode"])
prop("C05", "Encoders reject values they cannot represent instead of emitting garbage",
 "An encoder given a value its code cannot represent (zero for the Elias and Fibonacci codes, a value too large) panics or returns an error before emitting anything, in every build mode; it never emits the code word of another value.",
 ["inputs", "configurations"], "every 64-bit value and every code; debug and release",
 "Tests only encode representable values.",
 ["src/coding"], [("value assertions", "encode implementations"), ("checked_add", "Lift0::encode")],
 ["encode"])
prop("T01", "Integer readers and writers transfer exactly the named bits in the named order",
 "Writing n bits of an integer emits exactly its n low bits, least-significant (or, big-endian, most-significant) first; reading n bits consumes exactly n bits and returns the integer they spell in that order; so reading back what was written returns the n low bits.",
 ["inputs"], "every integer type, width from 0 to the type's width, value and stream content",
 "Tests check a few widths below 6 bits.",
 [SR], [("mask/shift loops", "BitRead::read_int*, BitWrite::write_int*")],
 ["read_int", "read_int_be", "write_int", "write_int_be"])
prop("T02", "A bit buffer reads and writes exactly at its position",
 "A bit buffer's read returns the bit at the current position and advances by one, or reports end-of-stream without moving exactly when the position is at the end; a write sets exactly the bit at the position (growing the vector by one bit when at the end) and advances by one; seeking succeeds exactly for positions within the vector, and a failed seek or a read changes nothing else.",
 ["histories", "inputs"], "every interleaving of reads, writes and seeks, every content and position",
 "Two short tests; interleavings of seek, overwrite and append are not covered.",
 [BB], [("position bookkeeping", "BitBuffer")],
 ["read_bit", "write_bit", "seek", "position", "append", "from"])
prop("W01", "Broadword population count and select are exact",
 "The broadword population count of every 64-bit word is its number of one bits; broadword select of r in x is the position of the r-th one of x, or None when x has at most r ones, for every r.",
 ["inputs"], "all 2^64 words and all r",
 "QuickCheck samples hashed words and r <= 64; 2^64 words cannot be enumerated.",
 ["src/broadword.rs"], [("SWAR arithmetic", "count_ones, select1_raw")],
 ["count_ones", "select1", "Broadword"])
prop("W02", "Bytewise parallel comparisons never leak between lanes",
 "Each byte lane of the parallel comparison and non-zero operations depends only on the same lane of the operands and equals 0x80 exactly when the comparison holds for that lane (0 otherwise).",
 ["inputs"], "all pairs of 64-bit words, all lanes",
 "QuickCheck samples; lane-to-lane borrow on specific operand pairs can be missed.",
 ["src/broadword.rs"], [("u_le8, le8, u_nz8", "broadword")],
 ["u_le8", "le8", "u_nz8"])
prop("W03", "Block-size arithmetic is exact over the whole index range",
 "Splitting a bit index into block index and offset and recombining it is lossless, division and remainder by the block size, rounding up, masks and base-two logarithms are mathematically exact for every argument of the documented domain, and the checked variants report overflow as None instead of wrapping, in every build mode.",
 ["inputs", "configurations"], "every block type and every u64/usize argument",
 "Tests check a few dozen small values per function.",
 [ST], [("shift/mask arithmetic", "BlockType helpers, Address")],
 ["div_nbits", "ceil_div_nbits", "mod_nbits", "mul_nbits", "last_block_bits", "low_mask", "ceil_lg", "floor_lg", "ceil_div", "Address"])
prop("D01", "Wrappers and adapters forward faithfully",
 "A structure that wraps another and exposes its bit-vector, rank or select interface answers every query exactly as the wrapped structure does, with the same arguments and without reordering or losing any of them.",
 ["inputs"], "every wrapped store and every query",
 "Tests check a few queries through one wrapper chain.",
 ["src/macros.rs", "src/rank", "src/select", BB, TR], [("adapter macros and impls", "impl_*_adapter!, BitBuffer, Vec/slice/reference impls")],
 ["BitVec via Rank9/JacobsonRank/BinSearchSelect/BitBuffer", "RankSupport via BinSearchSelect"])
prop("I01", "Block I/O reads and writes symmetric, fixed-width encodings",
 "Writing a block emits exactly its in-memory width in bytes in the requested byte order, and reading consumes exactly as many bytes and reconstructs the same value; the platform-sized word uses the platform's width.",
 ["inputs"], "every block type, byte order and value",
 "Not tested at all in this crate.",
 [ST], [("byteorder calls", "BlockType::read_block/write_block")],
 ["read_block", "write_block"])
prop("U01", "The crate contains no unsafe operations",
 "No code of the crate, including code generated by its macros, performs an unsafe operation; hence no use of its API by safe clients causes undefined behaviour.",
 ["programs"], "every client program",
 "Tests cannot show absence of undefined behaviour over all programs.",
 ["src"], [("safe Rust only", "whole crate")], ["whole crate"])
prop("U02", "Queries are pure and structures can be shared between threads",
 "No query through a shared reference writes memory, uses interior mutability or global state; every structure over thread-safe parts is itself sendable and shareable between threads, so concurrent queries give the same answers as sequential ones.",
 ["schedules", "programs"], "every schedule of concurrent readers",
 "Tests are single threaded; schedules cannot be enumerated.",
 ["src"], [("no Cell/atomic/static mut; auto traits", "all public types")], ["Send/Sync of public types"])
prop("P01", "Space accounting covers all owned memory exactly once",
 "The reported total size of an object is its own size plus the heap bytes of every owned component, each counted once, using allocated capacity; a type that declares itself stack-only reports zero heap bytes, and a container of components is stack-only only if all components are.",
 ["inputs"], "every object of every type with space accounting",
 "Tests check three or four types with hand-computed numbers.",
 ["src/space_usage.rs", "src/macros.rs", "src/rank", "src/select", VB], [("SpaceUsage impls", "all types")], ["SpaceUsage"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
