"""Per-property configuration: which harnesses, bounds, rules, levels."""
import re
WIDE = {"u8_": 1, "u16_": 4, "u32_": 16, "u64_": 64, "usize_": 64}
TECHNIQUE = "abstract interpretation of rustc MIR (trace-partitioned; polyhedra and boolean-function domains)"
NOT_APPLICABLE = {}
QUICK = ("u8_", "u16_", "u64_")
SMALL = ("u8_", "u16_")
# "heavy": harness-name patterns that quick runs only at the two small block widths
PROPS = {
 "B01": {"rule": "For every accessor and every argument: when the addressed bits are not wholly inside the object, the point after the call must be unreachable (panic) in debug and release MIR; when they are inside, no panic edge may be reachable.",
   "heavy": r"intvector_bits.*set_bit|h_int_|bit_slice.*block"},
 "B02": {"rule": "MIR of every bit/span/block accessor is abstractly interpreted from an arbitrary canonical state; each require() of the harness must hold in every partition.",
   "heavy": r"(bitvector|mut_slice|by_block|intvector_bits).*h_set_bits|intvector_bits|h_iv_block", "heavier": r"by_bit|intvector_bits"},
 "B03": {"rule": "Every growing, shrinking, filling and reserving operation is abstractly interpreted from an arbitrary canonical vector; the length, every kept bit, every new bit and the promised capacity must be as specified in every partition.",
   "heavy": r"h_resize|h_align|h_by_bit_push"},
 "B04": {"rule": "Every constructor and mutator of bit and integer vectors is abstractly interpreted from an arbitrary canonical state; the resulting storage must be canonical in every partition. Equality, order and hash of two arbitrary vectors must agree with equality of contents.",
   "heavy": r"h_bv_resize|h_bv_align|h_bv_set_bits|h_iv_|_rel"},
 "B05": {"rule": "Every constructing, resizing and reserving operation is abstractly interpreted for every request size: a path that returns must have the whole requested size (mathematical integers). Values wider than the element and impossible element widths must not return at all.",
   "bounds": "integer-vector with_fill/resize with a representable size: at most 3 added elements (bit vectors and block operations: none)",
   "heavy": r"h_iv_"},
 "B06": {"rule": "Every integer-vector operation is abstractly interpreted from an arbitrary canonical vector, for every element width: an arbitrary block after the call must equal the block before it with exactly the element's bits replaced.",
   "bounds": "with_fill and growing resize: at most 3 and 2 added elements from an arbitrary vector, 4 to 19 (thorough: 40) from one of 0 or 5 elements; all else none",
   "heavy": r"h_", "heavier": r"_random|fill_many"},
 "B07": {"rule": "Slices of an arbitrary bit vector over an arbitrary range (all four range forms, slices of slices, shared and mutable) are abstractly interpreted: every bit, span and block read must be that of the base at start + i, every write must change exactly those base bits, and ranges or accesses which leave the base or slice must not return.",
   "heavy": r"h_(mut_range|indirect|nested|mut_slice|write)", "heavier": r"h_write_|h_nested_forms|h_indirect"},
 "B08": {"rule": "The iterators of an arbitrary bit or integer vector are abstractly interpreted from an iterator state reached by an arbitrary skip and up to two steps from the back: every further step must yield exactly the next element of its end, and the reported length must be exact.",
   "bounds": "at most three elements taken from the back, at most three remaining ones folded; skips are unbounded",
   "heavy": r"h_bits_", "heavier": r"h_ints|h_into|_deep"},
 "R01": {"rule": "Construction and query of every rank structure are abstractly interpreted over a store of unknown bits, unknown length and unknown query position: the answer, as a linear form over the store's bits, must equal the reference sum in every partition.",
   "level": "other",
   "bounds": "store length: quick up to 10 blocks of 64 bits (Rank9), 9 and 16-17 blocks of 8 bits, 3 of 16 and 64 bits (JacobsonRank); thorough up to 33 blocks (Rank9), 65/9/4/5 blocks of 8/16/32/64 bits (JacobsonRank); words and Broadword: none. Contents and positions are unbounded"},
 "R02": {"rule": "For every rank structure the four rank queries are abstractly interpreted at one unknown position and must agree; with a position at or past the limit (and arbitrary private state) no path may return.",
   "level": "other",
   "bounds": "agreement for Rank9 and JacobsonRank: stores of up to 3 and 9 (thorough: 17) blocks, respectively 5 (thorough: 10) blocks; words, Broadword, default methods and rejection: none"},
 "S01": {"rule": "Every select operation of the binary-search structure is abstractly interpreted over a rank structure written in the harness: one of arbitrary bits, and one known only by where its rank passes the target. The answer must be the least position whose rank exceeds the index, and every query must be inside the structure.",
   "level": "other",
   "bounds": "arbitrary-bits structures: up to 5 positions (thorough: 11). Threshold structures: 7, 16 and 33 positions (thorough: every size up to 24, 64, 100 and 511), and sizes 2^63, 3*2^62, 2^64-3 and 2^64-1 with the answer in a window at the start, middle or end. The index is unbounded"},
 "C01": {"rule": "Every decoder is abstractly interpreted over a tape of unknown bits: no panic edge may be reachable, and where a value is answered it and the number of bits consumed must equal those of a reference decoder (mathematical integers) as forms over the tape's bits. Integer readers: no panic for any width up to the type's.",
   "level": "other",
   "bounds": "bits looked at per code word: 72-200 (quick; long enough for every value of unary up to 299 and every 64-bit value of gamma, delta, omega, fibonacci and each comma width used), 18-24 for Lift0(Fibonacci), Lift0(Comma) and Elias(Comma); thorough 100-400. Contents of the tape: none"},
 "C02": {"rule": "Every decoder and integer reader is abstractly interpreted over a tape of unknown bits which ends at an unknown position: end-of-stream may be answered only when the tape ended before its first bit, and must not be an error there; a value only when the tape did not end inside it.",
   "level": "other",
   "bounds": "tape length: 14-140 bits per code (thorough up to 300); the position of the end and the contents: none"},
 "C03": {"rule": "Every encoder, decoder, integer reader and writer is abstractly interpreted against a source or sink which fails at an unknown position with a recognisable error: exactly then that error is answered, and no further bit is asked for or written.",
   "level": "other",
   "bounds": "decoders: tapes of 16-60 bits (thorough 100-130); encoders: gamma, delta, omega all 64-bit values; unary, fibonacci, comma values up to 10-300; the position of the failure: none"},
 "C04": {"rule": "Encoder and decoder are abstractly interpreted one after the other: the bits the encoder emitted, followed by an unknown bit, are what the decoder reads; it must answer the value encoded, having consumed exactly those bits.",
   "level": "other", "opts_for": {"_fib$": {"joinlin": True}},
   "bounds": "gamma, delta, omega and their Lift0: all 64-bit values; comma: all 64-bit values for digit sizes 33, 62 and 63 (thorough also 6, 8, 16, 22), up to 100/200/600 for 2, 3 and 8 bits (thorough up to 20000..20000000) and windows at the top of the range; fibonacci: up to 6000 (thorough 5000000) and a window around the largest codable value; unary: up to 40 (thorough 300)"},
 "C05": {"rule": "Every encoder is abstractly interpreted with the values its code cannot represent and a sink which may not be written to: no path may return success and no path may write. The same encoders must accept what they can represent.",
   "level": "other",
   "bounds": "refusals: none (zero; the largest value under Lift0; every value too large for the Fibonacci numbers of the word; every invalid digit size). Acceptance: all 64-bit values for gamma, delta, omega; small ranges otherwise"},
 "T01": {"rule": "The integer readers and writers are abstractly interpreted for every integer type, every number of bits up to the type's and unknown values: the bits emitted, the bits consumed, the integer read and the round trip through a queue must be the named bits in the named order."},
 "T02": {"rule": "Every operation of a bit buffer is abstractly interpreted from an arbitrary vector and an arbitrary position within it: the bit read or written, every other bit, the length and the position after the call must be as specified in every partition (one step from every reachable state; histories follow by induction).",
   "heavy": r"h_write|h_read|h_make"},
 "W01": {"rule": "The broadword functions are abstractly interpreted on a word of 64 unknown bits: in every partition the result must be the number of ones, respectively the position whose bit is set and which has exactly r ones below it, or None only when at most r bits are set. The rank is enumerated (0..64 and all larger at once)."},
 "W02": {"rule": "The parallel comparisons are abstractly interpreted on words of 64 unknown bits each; for every lane the result lane must be 0x80 or 0 as that lane's own comparison says."},
 "W03": {"rule": "MIR of every block-arithmetic helper is abstractly interpreted over its whole argument range; results must equal the exact mathematical value in every partition and no overflow assertion may be reachable."},
 "R03": {"rule": "Over the typed items of the crate: every field of an index type is private, nothing inside it has interior mutability, and no exported function (inherent, trait or through any chain of private helpers) assigns or mutably borrows a field of an existing index, or hands back an index put together from parts of another.",
   "structural": ["immutable_index"], "harness": False, "technique": "effect analysis over typed HIR and MIR: field-mutation summaries propagated through the call graph, checked against exported signatures"},
 "U01": {"rule": "Every expression of every body is classified by the type checker's result: none may be a call of an unsafe function, a raw-pointer dereference, a use of static mut or foreign statics, a union field access or inline assembly; no unsafe impl, extern block, symbol attribute, and no unsafe token in an exported macro.",
   "structural": ["no_unsafe"], "harness": False, "technique": "census of unsafe operations over the type-checked program (THIR-level facts from HIR and typeck results)",
   "bounds": "code excluded by cfg on this platform (32-bit branches) is not compiled and therefore not examined, except macro bodies"},
 "U02": {"rule": "Over the typed items of the crate: no static that can change, no UnsafeCell reachable by value, box, vector or reference from a field of a public type, no call into process-global or thread-local state, and Send and Sync hold (trait selection) for every public type instantiated with thread-safe parameters.",
   "structural": ["pure"], "harness": False, "technique": "type-structure and effect analysis: interior-mutability reachability, trait selection for Send/Sync, callee census"},
 "D01": {"rule": "Every query of every wrapper is abstractly interpreted over an arbitrary wrapped structure next to the wrapped structure's own answer: the two must be equal in every partition; out-of-range queries must not return; writes through a bit buffer must change exactly the wrapped bits.",
   "heavy": r"_bits$|buffer_(set|bitvector|select)|h_slice_mut_set|h_vec_set", "bounds": "construction of Rank9 (up to 3 blocks) and JacobsonRank (up to 4 blocks): the store is handed through; queries: none"},
 "I01": {"rule": "Block readers and writers are abstractly interpreted over a source of unknown bytes and unknown length and a sink with unknown room, both of which may transfer fewer bytes than asked for: byte order, byte count, round trip and errors must be as specified for every value.",
   "quick_types": ("u8_", "u16_", "u32_", "u64_", "usize_")},
 "P01": {"rule": "Space accounting is abstractly interpreted on arbitrary values and compared with the heap bytes found by walking the value's type and abstract state (capacity of every vector, contents of every box, each once).",
   "bounds": "vectors whose elements own heap themselves: up to 4 elements (thorough 12); all else none"},
}
def width(root):
    for k, w in WIDE.items():
        if f"::{k}::" in root: return w
    return 1
def plan(pid, P, root, profile, tier):
    """job for a harness, or None"""
    if not root.startswith(f"spec::{pid.lower()}::"): return None
    w = width(root)
    name = root.split("::")[-1]
    mods = root.split("::")[2:-1]
    if tier == "quick":
        if name.startswith("h_t_"): return None
        t = [m for m in mods if m in WIDE]
        if t:
            types = P.get("quick_types", QUICK)
            flat = re.sub(r"::u(8|16|32|64|size)_::", "::", root)
            if P.get("heavy") and re.search(P["heavy"], flat): types = P.get("heavy_types", SMALL)
            if P.get("heavier") and re.search(P["heavier"], flat): types = ("u8_",)
            if t[0] not in types: return None
    cost = w * P.get("weight", {}).get(name, 1) * (2 if profile == "debug" else 1)
    if P.get("heavy") and re.search(P["heavy"], re.sub(r"::u(8|16|32|64|size)_::", "::", root)): cost *= w
    opts = dict(P.get("opts") or {})
    for pat, o in P.get("opts_for", {}).items():
        if re.search(pat, root): opts.update(o)
    return {"cost": cost, "timeout": P.get("timeout", {}).get(tier, 1e9), "opts": opts}
