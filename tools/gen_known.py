"""Regenerate known_findings.txt: repaired defects (open ones would be `finding:` lines)."""
F = """73d23a0 W03 ceil_div_nbits / checked_ceil_div_nbits wrapped for bit counts near u64::MAX
73d23a0 B05 with_fill / with_capacity / resize of nearly 2^64 bits built an empty object because the block count wrapped
fb45260 W03 ceil_div overflowed when self + divisor - 1 exceeds the type
211e03c B01 span bounds checks wrapped in release builds (start + count overflow): get_bits / with_bits / set_bits of words, slices, vectors
cfb5539 B01 default get_bits / set_bits of an empty span at the end panicked
cfb5539 B02 default get_bits / set_bits with count > block width returned garbage
2b81028 B01 default set_block at a huge position wrote block 0 in release builds
043254c B07 BitSlice::get_block / set_block: last, partial block rejected or read past the slice; wrapped for huge positions
deee46c B07 slicing with a start past the base's end was accepted
a21b21b B03 reserve(n) promised room for n elements but computed from capacity instead of length
e601afc B08 Iter::nth past the end resumed / overflowed instead of staying exhausted
3dfb5dd B05 IntVector::with_fill / resize silently truncated values too wide for the element
3b2a696 R02 Rank9 / word / Broadword rank1 answered positions past the end
45f50eb R01 JacobsonRank::new panicked on stores of 0 or 1 bits
0140a0c R01 JacobsonRank counted stray bits past the end of the store
93583e3 S01 select with index u64::MAX wrapped to 0 and returned position 0
0999a84 W01 broadword select returned garbage for r >= 128
dac7877 C05 Omega::encode(0) emitted the code word of 1
be115de C01 Omega::decode shifted by more than 63 bits on hostile streams
631e2d8 C01 Lift0::decode underflowed when the inner code decodes 0
00a0306 C01 Comma::decode overflowed on long digit strings
2513064 C05 Comma(0), Comma(1) and Comma(>= 64) looped forever or overflowed
2513064 C01 Comma digit sizes outside 2..=63 overflowed a shift
aa79093 C01 Fibonacci::decode overflowed on long streams
b04b40a C02 Fibonacci::decode reported end-of-stream after consuming leading zeros
68a46d4 T01 write_int_be(0, _) overflowed a shift
4f9f942 T01 write_int_be of a signed integer at its full width repeated the sign bit
ef926d5 W02 le8 was wrong for lanes of different sign whose difference overflows"""
print("# Findings. `finding: property=<id> root=<harness> obligation=<text> construct=<place> :: <what fails>` lists an open defect;")
print("# `fixed: property=<id> <commit> <what failed>` a repaired one (it suppresses nothing).")
for l in F.splitlines():
    h, p, t = l.split(" ", 2)
    print(f"fixed: property={p} {h} {t}")
