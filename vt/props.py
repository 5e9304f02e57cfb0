"""Which functions under contract each property rests on.

own:  functions whose contracts state the property (a failed obligation there is a violation of this property)
deps: functions whose contracts the own functions call on (verified in the same run; a failed obligation there is reported
      as a violation of this property only together with a failing input of this property - its own check reports it anyway)
Patterns are fnmatch globs over "<file>::<function>" of the weave report.
"""
# representation, construction, sign handling: every operator rests on these
INFRA = ["buffer.rs::*", "ubig.rs::*", "ibig.rs::*", "sign.rs::*", "convert.rs::*", "primitive.rs::*", "math.rs::*", "arch/*/add.rs::*"]
PANIC = "documented panics are functions that do not return (`ensures false`); where they may be called is part of the contract of the caller (may_panic)"
PROPS = {
    "C01": dict(level="proof", note="Proved for all inputs (Verus): word-level add/subtract with carry (add.rs, arch add), every ownership form and sign case of + - += -= on UBig and IBig returns the exact sum/difference in canonical form, and UBig subtraction panics exactly when the result would be negative. Trusted: see evidence trusted_base.",
                own=["add.rs::*", "add_ops.rs::*", "arch/*/add.rs::*"], deps=INFRA, assumptions=[PANIC]),
    "C06": dict(level="proof", note="Proved for all inputs (Verus): Ord/PartialOrd of UBig and IBig, word comparison, signum, abs, unsigned_abs, negation. Bounded (driver): min/max/clamp (default methods of core over cmp).",
                own=["cmp.rs::*", "sign.rs::*"], deps=INFRA),
    "C07": dict(level="proof", note="Proved for all inputs (Verus): word shifts (shift.rs) and every << >> <<= >>= form on UBig and IBig is multiplication / floor division by 2^n, for every n.",
                own=["shift.rs::*", "shift_ops.rs::*", "bits.rs::UBig::are_low_bits_nonzero"], deps=INFRA + ["add.rs::*", "add_ops.rs::*"], assumptions=[PANIC]),
    "C05": dict(level="proof", note="Proved for all inputs (Verus): Buffer operations keep their invariants, every constructor of UBig/IBig in the verified set returns the canonical form (single words inline, no leading zero words, no negative zero, spare capacity within the documented bound), equality and clone/clone_from are exact. Bounded (driver): Hash, and canonicity of results of operators not under contract.",
                own=["buffer.rs::*", "ubig.rs::*", "ibig.rs::*"], deps=["sign.rs::*", "convert.rs::*", "primitive.rs::*", "math.rs::*", "add_ops.rs::*", "shift_ops.rs::*"]),
    "C08": dict(level="proof", note="Proved for all inputs (Verus): & | ^ and_not ! in every ownership form and sign case of UBig and IBig act on every position of the infinite two's complement. Bounded (driver): the mixed signed/unsigned and primitive forms.",
                own=["bits.rs::*bitand*", "bits.rs::*bitor*", "bits.rs::*bitxor*", "bits.rs::*and_not*", "bits.rs::*::not"], deps=INFRA + ["add.rs::*", "add_ops.rs::*"]),
    "C09": dict(level="proof", note="Proved for all inputs (Verus): bit, set_bit, clear_bit, bit_len, trailing_zeros, is_power_of_two, next_power_of_two on UBig and the ones on IBig.",
                own=["bits.rs::*::bit", "bits.rs::*set_bit", "bits.rs::*with_bit_*", "bits.rs::*clear_bit", "bits.rs::*without_bit_*", "bits.rs::*trailing_zeros*", "bits.rs::*bit_len", "bits.rs::*power_of_two*"], deps=INFRA + ["add.rs::*", "add_ops.rs::*", "bits.rs::*"], assumptions=[PANIC]),
    "C02": dict(level="proof", note="Proved for all inputs (Verus): word-level multiplication, schoolbook, Karatsuba, the chunk splitting and the dispatch by length, scratch-memory bounds, and every ownership form and sign case of * and *= on UBig and IBig. Trusted (bounded: driver): Toom-3 and the pointer arithmetic of memory.rs; mixed primitive forms are C19.",
                own=["mul/*::*", "mul_ops.rs::*"], deps=INFRA + ["add.rs::*", "memory.rs::*"], assumptions=["scratch memory (memory.rs) hands out disjoint slices of the requested length; capacity is counted in words"]),
    "C03": dict(level="proof", note="Proved for all inputs (Verus): reciprocal word/double-word division (fast_divide.rs), division by a word, normalisation, schoolbook division (Knuth D), recursive divide-and-conquer division, scratch-memory bounds, and every ownership form of / % /= %= div_rem div_euclid rem_euclid div_rem_euclid on UBig return the exact quotient and remainder; they return only for a nonzero divisor. Mixed primitive forms are C19. Trusted: see evidence trusted_base.",
                own=["div/*::*", "div_ops.rs::UBig::*", "div_ops.rs::* for UBig::*", "div_ops.rs::* for & UBig::*", "fast_divide.rs::*", "math.rs::*"], deps=INFRA + ["add.rs::*", "shift.rs::*", "cmp.rs::*", "mul/*::*", "memory.rs::*"], assumptions=[PANIC]),
    "C04": dict(level="proof", note="Proved for all inputs (Verus): every ownership form of / % /= %= div_rem (truncating) and div_euclid rem_euclid div_rem_euclid (Euclidean) on IBig returns the exact quotient and remainder with the documented signs; they return only for a nonzero divisor. Mixed primitive forms are C19.",
                own=["div_ops.rs::* for IBig::*", "div_ops.rs::* for & IBig::*"], deps=INFRA + ["div_ops.rs::*", "div/*::*", "fast_divide.rs::*", "add_ops.rs::*", "add.rs::*"], assumptions=[PANIC]),
    "C10": dict(level="proof", note="Proved for all inputs (Verus): From / TryFrom between UBig, IBig, bool and every primitive integer type (by value and by reference), between UBig and IBig, with the exact success condition and value. The generic helpers are verified once per primitive type.",
                own=["convert.rs::From*", "convert.rs::TryFrom*", "convert.rs::*from_unsigned*", "convert.rs::*from_signed*", "convert.rs::*try_to_*", "convert.rs::unsigned_from_words*", "convert.rs::*from_ibig*", "convert.rs::Default*", "primitive.rs::*sign_magnitude"], deps=INFRA),
    "C11": dict(level="proof", note="Proved for all inputs (Verus): from_le_bytes, from_be_bytes give the number the bytes denote, for any count and any leading zeros; to_le_bytes, to_be_bytes give bytes denoting the number without a leading zero byte.",
                own=["convert.rs::UBig::*bytes*", "convert.rs::trim_*", "primitive.rs::word_from_*"], deps=INFRA),
    "C15": dict(level="proof", note="Proved for all inputs (Verus): gcd and extended_gcd of UBig and IBig return the greatest common divisor, the Bezout identity and the documented cofactor bounds, and return only when not both arguments are zero.",
                own=["gcd.rs::*"], deps=INFRA + ["add_ops.rs::*", "shift_ops.rs::*", "shift.rs::*", "cmp.rs::*", "bits.rs::*"], assumptions=[PANIC]),
    "C16": dict(level="proof", note="Proved for all inputs (Verus): UBig::pow and IBig::pow return exactly the power, with 0^0 = 1 and the sign of the exact power, whenever they return.",
                own=["pow.rs::*"], deps=INFRA + ["mul/*::*", "mul_ops.rs::*", "shift_ops.rs::*", "bits.rs::*"], assumptions=[PANIC]),
    "C17": dict(level="proof", note="Proved for all inputs (Verus): ring construction and normalisation, conversion of every integer into a ring (from_word, from_ubig, IntoModulo for UBig/IBig), residue / modulus / == / negation / + - * in every ownership and assigning form, for single-word and multi-word moduli: the residue is the exact result modulo n. Bounded (driver): that elements of different rings panic and elements of the same ring never do (operators are proved for elements of one ring; mixing is the documented panic).",
                own=["modular/add.rs::*", "modular/mul.rs::*", "modular/cmp.rs::*", "modular/convert.rs::*", "modular/modulo.rs::*", "modular/modulo_ring.rs::*"],
                deps=INFRA + ["add.rs::*", "cmp.rs::*", "shift.rs::*", "div/*::*", "div_ops.rs::*", "mul/*::*", "fast_divide.rs::*", "memory.rs::*"],
                assumptions=[PANIC, "two references to the same ring (ptr::eq) denote the same ring", "closures that capture &mut scratch memory (square_in_place, mul_normalized_in_place) are expanded at their single call site before verification"]),
    "C18": dict(level="proof", note="Proved for all inputs (Verus): inverse returns the inverse exactly when the value is coprime to the modulus and None otherwise; / and /= in every form give the x with x * divisor == dividend and return only for an invertible divisor; pow (binary for single-word moduli, sliding odd window with precomputed table for multi-word moduli) is the exact power modulo n with 0^0 = 1 mod n; pow_signed of a negative exponent is the inverse of the positive power and returns only for an invertible base.",
                own=["modular/pow.rs::*", "modular/div.rs::*"],
                deps=INFRA + ["modular/*::*", "gcd.rs::*", "div_ops.rs::*", "cmp.rs::*", "bits.rs::UBig::bit_len", "memory.rs::*", "mul/*::*", "div/*::*", "fast_divide.rs::*"],
                assumptions=[PANIC, "two references to the same ring (ptr::eq) denote the same ring", "closures that capture &mut scratch memory (square_in_place, mul_normalized_in_place) are expanded at their single call site before verification"]),
    "C19": dict(level="proof", note="Proved for all inputs (Verus): every operator impl between UBig/IBig and each of the twelve primitive integer types (+ - * / % div_rem div_euclid rem_euclid div_rem_euclid & | ^ and_not and the assigning forms; by value and by reference, both operand orders: 2160 impls and their generic helpers, each verified per type) gives the value and the documented result type of the exact operation, and returns only if the divisor is not zero and the result is representable.",
                own=[f"{f}::*{t}*" for f in ("add_ops.rs", "mul_ops.rs", "div_ops.rs", "bits.rs") for t in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")], deps=INFRA + ["add_ops.rs::*", "mul_ops.rs::*", "div_ops.rs::*", "bits.rs::*"], assumptions=[PANIC, "generic helpers (fn f<T: PrimitiveUnsigned>) are verified as one monomorphic copy of the same body per primitive type"],
                quick_widths=["x86_64"]),
    "C12": dict(level="proof", note="Proved for all inputs (Verus): to_f32 and to_f64 of UBig and IBig return the bit pattern nearest to the number, ties to the even pattern, infinity from the overflow threshold on, sign of the number (the definition compares with every float pattern).",
                own=["convert.rs::*to_f32*", "convert.rs::*to_f64*", "convert.rs::round_to_even_adjustment"], deps=INFRA + ["convert.rs::*", "bits.rs::UBig::bit_len", "bits.rs::UBig::are_low_bits_nonzero", "shift_ops.rs::*"],
                assumptions=[PANIC, "`as f32` / `as f64` of a primitive rounds to nearest even (the Rust reference); from_bits, INFINITY and unary minus of floats act on the bit pattern as IEEE 754 documents"]),
    "C13": dict(level="proof", note="Proved for all inputs (Verus): from_str_radix, from_str and from_str_with_radix_prefix of UBig and IBig return the number the digits denote exactly when the string is an optional sign (plus; minus for IBig), the documented optional prefix and one or more digits valid in the radix, and the documented error otherwise; a radix outside 2 to 36 panics and nothing else does.",
                own=["parse/*::*", "radix.rs::*"], deps=INFRA + ["mul.rs::mul_word_in_place_with_carry", "mul_ops.rs::*", "pow.rs::*", "add_ops.rs::*"],
                assumptions=[PANIC, "str::strip_prefix, slice::rchunks, slice::split_last behave as documented", "no slice is longer than isize::MAX bytes (guaranteed by Rust)", "the digit tables are evaluated by rustc; the verifier proves the const functions that compute them"]),
    "C14": dict(level="proof", note="Proved for all inputs (Verus): Display, Debug, Binary, Octal, LowerHex and UpperHex of UBig and IBig and in_radix write exactly the sign, the prefix and the shortest digits of the number, padded as the standard library documents for the width, fill, alignment, zero and sign flags (precision has no effect), in every radix from 2 to 36 and for numbers of any length; a radix outside panics and nothing else does; lemma_parse_back: the digits parse back to the number. Writing fails only when the sink does. Bounded (driver): the same through the real core::fmt machinery.",
                own=["fmt/*::*", "arch/generic/digits.rs::*", "math.rs::*"], deps=INFRA + ["radix.rs::*", "div.rs::*", "div_ops.rs::*", "pow.rs::*", "mul_ops.rs::*", "fast_divide.rs::*", "cmp.rs::*"],
                assumptions=[PANIC, "core::fmt::Formatter is replaced by a stand-in that records the characters written and carries the options; the dyn PreparedForFormatting and dyn Write parameters are made generic / the formatter itself", "trait impl methods are verified as free functions with the same body", "Word::from_ne_bytes / to_ne_bytes: lane k of the word is byte k (little-endian target)", "from_utf8_unchecked of bytes below 128 gives the string of these characters"]),
    "C20": dict(level="proof", note="Proved for all inputs (Verus, a second contract set over the first): every number a contracted function returns is within the maximum size and exact, so beyond it nothing is returned; the size panic (panic_number_too_large and the buffer allocation limit) needs the ghost permission toobig(), which each operation obtains only from its documented condition - its exact result is not below B^MAX_LEN - so a result that fits is never refused, in + - * / % shifts, bit operations, powers, gcd, conversions, parsing, formatting and modular arithmetic; all other panics, overflows and out-of-bounds accesses are excluded by the same run. Text that is not a number may be refused as too large only if it has more digits than the largest number. Bounded (driver, 16-bit words, numbers at the real limit): the same on the compiled crate.",
                own=["*"], deps=[], own_filter=r"toobig|buffer\.rs:|vp_std\.rs:|arithmetic", own_any=["buffer.rs::*", "ubig.rs::*"],
                drv_widths=["16"], drv_seconds=40,
                assumptions=[PANIC, "a refusal is permitted (ghost predicate toobig) only under the condition stated for the operation", "running out of memory is not covered: allocation of a permitted size succeeds", "the primitive/big mixed operators (C19), rand and serde (their own limits) are outside this contract set"]),
    "C21": dict(level="proof", note="Proved for all inputs (Verus): Uniform sampling over UBig and IBig ranges (gen_range / Uniform::new / new_inclusive / UniformSampler::sample) returns only values inside the requested range whatever the generator delivers, panics for an empty range and only then. Bounded (driver): that every value of a small range occurs, and termination of the rejection loop (which is probabilistic).",
                own=["rand.rs::*"], deps=INFRA + ["add_ops.rs::*", "cmp.rs::*", "ubig.rs::*"],
                assumptions=[PANIC, "the rand crate's generator is replaced by a stand-in that may deliver any value rand documents (fill: any words; gen_range(0..=n): any value of the range)", "generics over Borrow<UBig>/Borrow<IBig> are verified for UBig/IBig arguments"]),
    "C22": dict(level="proof", note="Proved for all inputs (Verus): UBig serialises to the base 2^64 digits of its value without leading zeros (a form that is unique for each number, so independent of the word size: lemma_doc_unique), with the announced length exact; deserialising a sequence of 64-bit elements, with or without a length hint, gives the number the elements denote; IBig does so with its sign. Hence the round trip, also between word sizes. Bounded (driver): the same through serde_json-like and length-prefixed formats on the real serde traits.",
                own=["serde.rs::*"], deps=INFRA + ["convert.rs::*"],
                assumptions=[PANIC, "a serde data format delivers the elements it was given, in order, with no size hint or an exact one; its stand-in records elements and may fail with an error of its own", "serde's pair implementation and the derived implementation for Sign are trusted", "slice::chunks is trusted (documented behaviour)"]),
    "C23": dict(level="proof", note="Proved for all inputs (Verus): the num_traits implementations Zero, One, Pow and Signed / Unsigned of UBig and IBig give the value of the inherent operation they stand for, and Num::from_str_radix parses exactly as the inherent parser does.",
                own=["num_traits.rs::*"], deps=INFRA + ["pow.rs::*", "cmp.rs::*", "add_ops.rs::*", "sign.rs::*"],
                assumptions=[PANIC, "trait impl methods are verified as free functions with the same body (the trait itself belongs to the num_traits crate)"]),
}
for _i in range(1, 24):
    PROPS.setdefault("C%02d" % _i, dict(own=[], deps=[]))
