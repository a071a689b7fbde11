"""which contract files and harness decide each property"""
PLAN = {
 "C01": dict(files=[("wide", "build", {})], level="proof"),
 "C02": dict(files=[("barrett", "build", {})], level="proof"),
 "C03": dict(files=[("modops", "build", {})], level="proof"),
 "C04": dict(files=[("modops", "build_mul", {})], level="proof"),
 "C05": dict(files=[("expdot", "split", {})], level="proof"),
 "C06": dict(files=[("gcd", "split", {})], level="proof"),
 "C07": dict(files=[("pow2mod", "build", {})], level="proof"),
 "C08": dict(files=[("babybear", "baby", {})], level="proof", lean=["babybear"], note="exponent zero is excluded from the contract of exp_reduce (known finding)"),
 "C09": dict(files=[("babybear", "gold", {})], level="proof", lean=["goldilocks"], trusted=["contract of the x86-64 inline assembly in add_no_canonicalize_trashing_input (x + y, minus P if the sum reaches 2^64)"]),
 "C10": dict(files=[("derived", "build", {})], level="proof", lean=["field_u32", "qks", "v8", "v32", "v64"], note="shipped fields DefaultFieldU32 and DefaultQks, and instances of the same macro at 8, 16, 32 and 64 bits (tools/vfields)"),
 "C11": dict(files=[("decomp", "build", {})], level="proof", assume=["std contracts of leading_zeros, count_ones and vec![e; n]", "the field modulus is an arbitrary constant mv with 2 <= mv < 2^BITS"]),
 "C12": dict(files=[("ntt", "build", {})], level="proof", assume=["field operations of an arbitrary prime field with p <= 2^BITS / 4 (the contracts C10 proves of every derived field, the bound from the Barrett constructor's assertion)", "the modulus literal in the derived code is read as p", "std contracts of reverse_bits, chunks_exact_mut, split_at_mut, slice cursors, fill, vec![e; n], is_power_of_two, word conversion", "get_unchecked is read as a checked index (the bound is proved)", "Uniform::new_inclusive(2, p - 1) samples in range", "derived Clone copies"], note="every size 2^k with k < 61 whose double fits the word; every field: DefaultFieldU32, DefaultQks and instances of the macro at 8, 16, 32 and 64 bits; the facts the other properties assume of transforms are proved here word for word (theorems over the same specification functions)"),
 "C13": dict(files=[("poly", "build", {})], level="proof", assume=["field operators of an arbitrary prime field (the contracts C10 proves of every derived field)", "shared transform table: forward then pointwise then inverse is the negacyclic product (proved under C12)", "std contracts of fill, copy_from_slice, to_vec, vec![e; n], is_power_of_two, trailing_zeros", "derived Clone copies"]),
 "C15": dict(files=[("rlwe", "build", {})], level="proof", assume=["field operators of an arbitrary prime field (the contracts C10 proves of every derived field)", "shared transform table (proved under C12)", "std contracts of copy_from_slice, reverse of a tail, fill, to_vec, vec![e; n], is_power_of_two, trailing_zeros", "derived Clone copies", "ring dimension below 2^62"]),
 "C16": dict(files=[("gadget", "build", {}), ("rows", "build", {})], level="proof", assume=["field operators of an arbitrary prime field (the contracts C10 proves of every derived field)", "shared transform table: transforms are linear and forward then pointwise then inverse is the negacyclic product (proved under C12)", "digit contract of Fe::decompose_lsb_bits_at (proved under C11)", "std contracts of copy_from_slice, fill, vec![e; n], is_power_of_two, trailing_zeros", "derived Clone copies", "the random source is arbitrary: uniform sampling yields any canonical residues, the error distribution any residues of its support (samplers decided under C23)", "the product of two representation values below the modulus fits when the product is at most the modulus"]),
 "C17": dict(files=[("plain", "build", {})], level="proof", assume=["std contracts of is_power_of_two, trailing_zeros", "num conversion AsInto is `as` (anchored impls)"], note="t < q (equal moduli leave no room for an error; decode then shifts by -1)"),
 "C18": dict(files=[("secret", "build", {})], level="proof", assume=["the random source is arbitrary: uniform sampling yields any residues, the error distribution any element of its support reduced modulo q (samplers decided under C23)", "message type: an abstract type with the conversion contracts C17 proves of every shipped one", "std contracts of is_power_of_two, trailing_zeros, PrimInt::min on a word", "num conversion AsInto is `as` (anchored impls)"], note="t < q; the two ring keys of the pack are dropped from the extracted struct (they are not read here)"),
 "C19": dict(files=[("modswitch", "build", {})], level="proof", assume=["IEEE-754 binary64 semantics of the f64 operations used (conversion of integers below 2^53 exact, product of integers below 2^53 exact, quotient with relative error at most 2^-53 and exact for power-of-two divisors, round half away from zero, cast of an in-range integer exact)", "the field modulus is odd", "Field::value is the canonical representative (C10)"], note="target times source modulus at most 2^52 (all shipped parameter sets); the between-moduli variant for power-of-two sources"),
 "C14": dict(files=[("lwe", "build", {})], level="proof", assume=["element operations of an arbitrary field or modulus (the contracts C03, C04, C07-C10 prove)", "derived Clone copies"]),
 "C22": dict(files=[("rows", "kbuild", {})], level="proof", assume=["field operators of an arbitrary prime field (the contracts C10 proves of every derived field)", "shared transform table: transforms are linear, forward then pointwise then inverse is the negacyclic product, transform_coeff_neg_one_monomial is the transform of -X^d (proved under C12)", "digit contract of Fe::decompose_lsb_bits_at (proved under C11)", "std contract of slice rotate_right, trailing_zeros", "num conversion AsInto is `as` (anchored impls)", "derived Clone copies"], bounded="the whole pipeline (parameters, secret keys, key generation with a distribution that rounds to zero, rotation) on the compiled code, in addition", note="key generation (binary, ternary and the dispatch) is proved to yield rows of the prescribed messages with errors of the distribution, for every random source; the rotation is proved for every key whose errors are zero, and the composition of the two is proved as one contract"),
 "C21": dict(files=[("gates", "build", {})], level="proof", assume=["contracts of the gates' callees, decided elsewhere: modulus switching C19, blind rotation C22, extraction C15, key switching and key generation C20 and C22 (uninterpreted functions of their arguments here)", "rayon::join(a, b) returns the pair of its closures' results", "std contracts of word conversions", "Boolean &, |, ^ on bool read as &&, ||, !=", "derived Clone copies"], bounded="the whole pipeline (parameters, keys, every gate on every input, errors up to the segment boundary, all steps, q below, at and above 2N) with noiseless keys", note="look-up tables, table step, gate wiring (linear combination, table, bootstrap), bootstrap's order and operands, and the segment theorems are proved; the noise of an honest bootstrap is not part of the statement"),
    "C20": dict(files=[("kslwe", "build", {}), ("ksrlwe", "build", {})], level="proof", assume=["ring key: field operations, transforms and the gadget product by their contracts (proved under C10, C12, C16); std contracts of chunks_exact(_mut), reversal of a tail, next_power_of_two; the next power of two is at least the dimension and a size of the field with a transform", "the ring secret and its transform agree, Basis::new (C11), resize", "the random source is arbitrary: uniform sampling yields any residues, the error distribution any element of its support reduced modulo q (samplers decided under C23)", "the ring key's field elements only through is_zero / is_one", "std contracts of vec![e; n], checked conversion of a word to usize", "derived Clone copies"], bounded="phases compared row by row with the real code, all chunk shapes up to N = 64, both key kinds", note="ring key: generate fills every chunk with rows that encrypt the chunk of the ring secret times B^j under the lifted and padded LWE secret, errors of the key switching distribution; key_switch_for_rlwe and key_switch_for_lwe give a ciphertext whose phase under the destination secret is the phase under the source secret plus the digits times the row errors, for every key that encrypts chunk by chunk and every input; proved for the scalar-row key (KeySwitchingLWEKey): generate yields rows that encrypt v B^j z_i with errors of the distribution, switching subtracts exactly the selected rows' errors, an error-free key preserves the phase, a noisy one shifts it by at most one row error per digit"),
 "C23": dict(files=[("sample", "build", {})], level="proof", assume=["the random source is arbitrary (any words, any bytes, any f64 out of rand_distr::Normal); termination of the rejection loops is not claimed", "f64 read as the extended real it denotes: IEEE-754 contracts of comparison, subtraction (correctly rounded, so it never crosses a binary64 number), abs, round, negation, multiplication by 6 (uninterpreted) and the cast of an integral value in range", "rand_distr::Normal::new refuses exactly the deviations that are not finite; mean and std_dev return what it was given", "Field::new is the residue of its argument (C08 to C10)", "std contracts of vec![e; n], chunks_exact_mut and into_remainder, u8::count_ones; rand: sample_iter(rng).take(n).collect() is n samples in order", "derived Clone copies"], bounded="the same functions with scripted and pseudo-random sources, exact bits compared, extreme draws, means and deviations"),
 "C25": dict(files=[("params", "build", {})], level="proof", assume=["std contracts of is_power_of_two, word and field-value conversions", "Basis::new refuses more bits than the modulus has (C11)", "the samplers' supports (C23), the transform (C12)", "derived Clone, PartialEq", "the noise distributions are functions of their parameters"], bounded="the real Parameters::new on admissible and inadmissible settings, accessor by accessor; key generation for every step and key kind"),
 "C24": dict(files=[("primality", "build", {})], level="proof", lean=["vprime_fermat", "vprime_sqrt1"], assume=["the random source is arbitrary: Uniform over 3..=n-1 yields any value of the range, a function of the source's state at that draw", "std contract of trailing_zeros"]),
 "C26": dict(files=[("cache", "build", {})], level="proof", lean=["odd_roots"], miri="miri26", assume=["rely/guarantee reading of std's locks: a thread holding the RwLock's guard sees a map that satisfies the lock invariant and contains everything it saw before; while it holds the mutex nobody else inserts; std contracts of HashMap get, contains_key, insert and of Arc", "the caches are reached only through get_ntt_table and init_ntt_table (the statics are private to the expansion of the derive)", "no data race in code without unsafe (Rust's guarantee): the front end rejects unsafe code here", "the random draws of the root search are arbitrary"], bounded="threads with first uses of random sizes, in fresh processes, and the same under Miri with several schedules (race detection, weak memory)", note="sizes for which the word holds 2N; a size without a table is an error on every call; termination and absence of deadlock are only tested"),
 "C27": dict(files=[("prg", "build", {})], level="proof", assume=["Intel's documented semantics of aesenc, aesenclast, aeskeygenassist (in terms of FIPS-197's S-box, ShiftRows, MixColumns, RotWord), shuffles, xor and casts", "bytemuck casts are little-endian reinterpretations", "rand_core::block::BlockRng hands out the words of successive generate calls in order; rand's u128 is two next_u64, low half first; gen::<Block>() samples Standard", "std contracts of copy_from_slice on subslices, array map, passing an array by value", "x86-64 build (the aarch64 variant is not compiled here)"], bounded="the compiled code against an AES-128 written from FIPS-197, with random histories of reads, from_seed and from_rng", note="reads that are no multiple of four bytes consume whole words (rand_core)"),
}
NA = {
 "C28": "a probability bound over noise distributions is not a postcondition over one call; no installed deductive verifier reasons about distributions",
}
