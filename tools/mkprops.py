import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
B="algebra/src/"
p("C01","Wide-word integer primitives are exact",
 "For every unsigned word width (8, 16, 32, 64 bits), widening and carrying multiplication return the exact double-width result split into (low, high) words, and carry-in addition and borrow-in subtraction return the wrapped word together with the exact carry/borrow-out. Reversing the lowest n bits of a word (n below the width) places bit i at position n-1-i and clears all other bits.",
 ["inputs"],"all operand values, every width, every carry/borrow-in, every n in 1..BITS",
 "No unit test covers these primitives directly; they are only exercised through a few random modular products, which cannot hit the rare double-carry and full-word corner cases.",
 [B+"primitive/widening/widening_mul.rs",B+"primitive/widening/carrying_mul.rs",B+"primitive/widening/carrying_add.rs",B+"primitive/widening/borrowing_sub.rs",B+"utils/reverse.rs"],
 [("WideningMul / CarryingMul",B+"primitive/widening/"),("CarryingAdd / BorrowingSub",B+"primitive/widening/"),("ReverseLsbs",B+"utils/reverse.rs")])
p("C02","Barrett reduction equals the true residue, for every modulus and operand",
 "A Barrett modulus built from any value m with 2 <= m < 2^(BITS-2) precomputes floor(2^(2*BITS)/m) exactly and refuses every other value. Reducing any one-word, two-word (array or tuple) or multi-word little-endian integer with it returns exactly that integer mod m; the lazy variants return a value below 2m congruent to it.",
 ["inputs","configurations"],"all moduli m in range, all operands, at 8/16/32/64-bit words, any slice length",
 "Tests draw a few random moduli and operands; the quotient estimate is off by one only on thin sets of (operand, modulus) pairs.",
 [B+"modulus/barrett/internal_macros.rs",B+"modulus/barrett/mod.rs"],
 [("BarrettModulus::new",B+"modulus/barrett/internal_macros.rs"),("LazyReduce/Reduce for word, [word;2], (word,word), &[word]",B+"modulus/barrett/internal_macros.rs")])
p("C03","Modular add, subtract and negate stay canonical and exact",
 "For every modulus whose sums fit in a word and every pair of reduced operands, modular addition, subtraction and negation (plain-integer and Barrett moduli, by value and in place) return the canonical residue of the exact integer result. The in-place form always leaves the same value the by-value form returns.",
 ["inputs","configurations"],"all reduced operands a,b < m; all moduli m with 2m <= 2^BITS; 8/16/32/64-bit words",
 "Tests sample random operands of one modulus; the boundaries a+b=m, a=b, a=0 have negligible probability.",
 [B+"reduce/macros.rs",B+"reduce/mod.rs",B+"modulus/barrett/ops.rs"],
 [("reduce_macros! primitive impls",B+"reduce/macros.rs"),("Barrett delegations",B+"modulus/barrett/ops.rs")])
p("C04","Modular multiplication and precomputed-factor multiplication are exact",
 "For every admissible Barrett modulus m, modular multiplication of any two words returns their exact product mod m and the lazy form a congruent value below 2m. Multiplying any word by a precomputed (Shoup) factor returns the exact product mod m, and its lazy form a congruent value below 2m.",
 ["inputs","configurations"],"all operand words, all moduli admissible for the respective type, 8/16/32/64-bit words",
 "Random operands practically never reach the operands where the estimated quotient is off by one.",
 [B+"modulus/barrett/ops.rs",B+"modulus/shoup/internal_macros.rs",B+"modulus/shoup/mod.rs"],
 [("MulReduce/LazyMulReduce<BarrettModulus>",B+"modulus/barrett/ops.rs"),("ShoupFactor",B+"modulus/shoup/internal_macros.rs")])
p("C05","Modular exponentiation and dot products equal their definitions",
 "Modular exponentiation by any exponent, and by any power of two, returns base^exp mod m for every reduced base and admissible modulus. The modular dot product of two equally long vectors of reduced entries, of any length, equals the sum of elementwise products mod m.",
 ["inputs","configurations"],"all bases, exponents (every exponent width) and moduli; all vectors of every length",
 "Tests use a few random exponents and one fixed vector length; loop-bound and chunk-remainder cases need specific exponents and lengths.",
 [B+"modulus/barrett/ops.rs",B+"reduce/ops.rs",B+"modulus/barrett/internal_macros.rs",B+"reduce/macros.rs"],
 [("ExpReduce / ExpPowOf2Reduce",B+"modulus/barrett/ops.rs"),("DotProductReduce",B+"modulus/barrett/internal_macros.rs")])
p("C06","gcd, extended gcd, modular inverse and division are correct",
 "For all operands, gcd returns the greatest common divisor (the other operand when one is zero), the coprimality tests say whether it is at most one, and for nonzero operands below a quarter of the word range extended gcd returns it too with cofactors satisfying Bezout's identity. Modular inversion (moduli below a quarter of the word range) returns the value whose product with the operand is 1 mod m, the fallible form fails exactly when the operand is not coprime to m, and modular division by b undoes multiplication by b.",
 ["inputs","configurations"],"all nonzero operand pairs (moduli below a quarter of the word range), every width, coprime or not",
 "Tests check one random pair per width; sign handling and quotient edge cases depend on the quotient sequence.",
 [B+"utils/gcd.rs",B+"reduce/macros.rs",B+"modulus/barrett/ops.rs"],
 [("extended_gcd / gcd",B+"utils/gcd.rs"),("InvReduce / TryInvReduce / DivReduce",B+"reduce/macros.rs")])
p("C07","Power-of-two modulus arithmetic is the ring Z/2^k",
 "For every power-of-two modulus and every word width up to 128 bits, add, subtract, negate, multiply, exponentiate and dot product (by value and in place) return the exact integer result mod 2^k whenever operands are reduced. Constructing such a modulus accepts exactly the powers of two and stores the value minus one as its mask.",
 ["inputs","configurations"],"all reduced operands, all powers of two in the word, widths 8..128, all exponents and vector lengths",
 "Only the default parameter set's modulus is ever used by examples; no test covers this type.",
 [B+"modulus/powof2/internal_macros.rs",B+"modulus/powof2/mod.rs"],
 [("PowOf2Modulus ops",B+"modulus/powof2/internal_macros.rs")])
p("C08","BabyBear field arithmetic is exact on Montgomery representatives",
 "Conversion to and from the internal representation round-trips every value below the BabyBear prime, and add, subtract, negate, multiply, exponentiate, invert, divide and dot product (by value and in place) commute with it: the result represents the exact field result and is canonical. Converting any 32-bit word, reduced or not, yields its canonical residue, and inversion fails exactly for zero.",
 ["inputs"],"all canonical representatives, all exponents, all raw inputs",
 "Tests sample random operands and a handful of constants.",
 [B+"modulus/baby_bear/mod.rs",B+"modulus/baby_bear/ops.rs"],
 [("from_monty/to_monty/monty_reduce",B+"modulus/baby_bear/mod.rs"),("BabyBearModulus ops",B+"modulus/baby_bear/ops.rs")])
p("C09","Goldilocks field arithmetic is exact for every 64-bit representative",
 "For operands given by any 64-bit representative, Goldilocks add, subtract, negate, multiply, exponentiate, invert, divide and dot product (by value and in place) return a representative of the exact field result, inversion fails exactly for zero, and canonical reduction returns the unique residue below the prime. Reducing any 128-bit product is exact.",
 ["inputs"],"all 64-bit words (canonical or not) and all 128-bit products, all exponents",
 "Tests sample random operands; the representatives between the prime and 2^64 have probability 2^-32.",
 [B+"modulus/goldilocks/mod.rs",B+"modulus/goldilocks/ops.rs"],
 [("reduce128",B+"modulus/goldilocks/mod.rs"),("GoldilocksModulus ops",B+"modulus/goldilocks/ops.rs")])
p("C10","Derived prime fields implement the field with canonical values",
 "For a prime field type generated by the library's derive, every operator (by value, by reference, in place, doubling, squaring, power, inversion, division, multiply-add) returns the canonical value of the exact result mod p, and zero/one/minus-one/max constants and integer conversions are canonical. The lazy operations used inside transforms return values congruent to the exact result within their documented range (below 2p, or below 4p for the unreduced add/sub).",
 ["inputs","configurations"],"all canonical operands (lazy operands in their documented range), all exponents, every derived field the library ships",
 "The derive tests check random operands of one field and compare with the same reduction primitives.",
 ["algebra_derive/src/basic.rs","algebra_derive/src/ops.rs","algebra_derive/src/field.rs","algebra_derive/src/fhe_field.rs","algebra_derive/src/ntt.rs","fhe_core/src/parameter.rs"],
 [("derived operator impls","algebra_derive/src/ops.rs"),("derived Field impl","algebra_derive/src/field.rs"),("derived NTT lazy helpers","algebra_derive/src/ntt.rs")])
p("C11","Gadget decomposition recomposes to the original with small digits",
 "For every field element and every base 2^bits up to the modulus width, the decomposition has ceil(log2(p)/bits) digits, each below the base, and the base-weighted sum of the digits is the element; all decomposition forms (returning, writing into any buffer, digit at a time, whole vector or polynomial in place) produce the same digits whatever the buffer held before.",
 ["inputs","configurations"],"all elements, all base widths, arbitrary prior destination contents, all vector lengths",
 "Tests use one base and zero-initialised destinations.",
 ["algebra_derive/src/decomposable_field.rs","algebra/src/decompose_basis.rs","lattice/src/utils/decompose_basis.rs",B+"polynomial/native_polynomial.rs"],
 [("decompose / decompose_at / decompose_lsb_bits","algebra_derive/src/decomposable_field.rs"),("Basis::new","algebra/src/decompose_basis.rs"),("decompose_lsb_bits_inplace","lattice/src/utils/decompose_basis.rs")])
p("C12","The number theoretic transform is exact and invertible",
 "For every transform size the field supports and every coefficient vector, the forward transform yields the polynomial's values at all odd powers of the table's primitive 2n-th root in bit-reversed order with canonical outputs, and the inverse transform restores the original coefficients exactly. Transforming a monomial directly equals transforming its coefficient vector.",
 ["inputs","configurations"],"all supported sizes n, all coefficient vectors, all monomial degrees and coefficients",
 "Tests compare with schoolbook multiplication on random vectors of one size; lazy-range overflows need extremal coefficient patterns.",
 [B+"transformation/ntt_table.rs","algebra_derive/src/ntt.rs",B+"transformation/mod.rs"],
 [("NTTTable::new",B+"transformation/ntt_table.rs"),("transform_slice / inverse_transform_slice",B+"transformation/ntt_table.rs"),("generate_ntt_table","algebra_derive/src/ntt.rs")],
 state=[("root_powers","powers of the primitive 2n-th root in bit-reversed order",B+"transformation/ntt_table.rs")])
p("C13","Polynomial arithmetic is the negacyclic ring, coefficient by coefficient",
 "Polynomial and transformed-polynomial addition, subtraction, negation, scalar multiplication and multiply-accumulate act coefficientwise with exact field results in every by-value, by-reference and in-place form. Multiplying polynomials returns the product modulo X^n+1, and evaluation at a point equals the sum of coefficients times powers.",
 ["inputs","configurations"],"all coefficient vectors, scalars and evaluation points, every length",
 "Tests compare a few random polynomials of one length.",
 [B+"polynomial/native_polynomial.rs",B+"polynomial/ntt_polynomial.rs",B+"polynomial/mod.rs"],
 [("Polynomial ops",B+"polynomial/native_polynomial.rs"),("NTTPolynomial ops",B+"polynomial/ntt_polynomial.rs")])
p("C14","LWE ciphertext arithmetic is linear in the phase",
 "Adding, subtracting, negating and scaling LWE ciphertexts (field or modular coefficients, by value or in place, including no-op-length and component-wise forms) acts on every mask entry and on the body, so the phase under any secret key is the same combination of the operands' phases.",
 ["inputs","configurations"],"all ciphertexts, secrets, scalars and dimensions, every modulus type",
 "Tests check one random instance of two operations.",
 ["lattice/src/lwe.rs"],
 [("LWE component-wise ops","lattice/src/lwe.rs")])
p("C15","Ring-LWE rotation and sample extraction commute with decryption",
 "Multiplying a ring ciphertext by X^r, or by X^r - 1, multiplies both components by that monomial in the negacyclic ring for every r below 2n, and adding or subtracting ring ciphertexts is componentwise. Extracting the k-th coefficient (any variant) gives an LWE ciphertext whose phase under the coefficient vector of the ring secret equals that coefficient of the ring phase.",
 ["inputs","configurations"],"all ring ciphertexts, all rotation amounts r in 0..2n, all coefficient indexes, all dimensions",
 "Tests fix one dimension and random r; the wrap-around indexes and sign flips are hit only for particular r.",
 ["lattice/src/rlwe.rs"],
 [("mul_monic_monomial_*","lattice/src/rlwe.rs"),("extract_lwe*","lattice/src/rlwe.rs")])
p("C16","Gadget and external products multiply the encrypted value",
 "The gadget product of a polynomial with a gadget ciphertext, and the external product of a ring ciphertext with a ring GSW ciphertext, equal the sum over digits of (digit polynomial times gadget row), so with noiseless gadget rows of message m the resulting phase is exactly the operand times m. The coefficient-form, transformed and small-buffer variants agree exactly, and preallocated or dirty scratch space never changes the result.",
 ["inputs","configurations"],"all ring ciphertexts, gadget messages, bases and dimensions; arbitrary scratch contents",
 "Tests run one noisy random instance per operation and compare after rounding.",
 ["lattice/src/gadget/rlwe.rs","lattice/src/rgsw.rs","lattice/src/utils/space.rs","lattice/src/rlwe.rs"],
 [("mul_polynomial*","lattice/src/gadget/rlwe.rs"),("mul_small_ntt_rgsw* / external products","lattice/src/rgsw.rs")])
p("C17","Plaintext encoding tolerates all noise below half a step",
 "For all power-of-two moduli 2 <= t < q and every message below t, decoding the encoding plus any error e with -q/(2t) <= e < q/(2t) modulo q returns the message. Encoding a message outside the space, or decoding to a type that cannot hold it, is refused.",
 ["inputs","configurations"],"all messages, all (t,q) power-of-two pairs, all errors within half a step, all word types",
 "Only an example prints a few encodings; no test checks any.",
 ["fhe_core/src/plaintext.rs"],
 [("encode / decode","fhe_core/src/plaintext.rs")])
p("C18","Decryption inverts encryption for every key, mask and bounded noise",
 "For every secret key, mask, message and error whose magnitude is below half an encoding step, decrypting an LWE ciphertext built by encryption returns the message, and the reported noise equals the error's magnitude. Encryption of any message produces body minus mask-secret product equal to the encoding plus the sampled error.",
 ["inputs","configurations"],"all keys, masks, messages, errors within half a step, all dimensions and moduli",
 "No test covers the secret-key API; the example samples random noise far from the bound.",
 ["fhe_core/src/secret_key.rs","bool/src/encrypt.rs","bool/src/decrypt.rs"],
 [("SecretKeyPack::encrypt/decrypt/decrypt_with_noise","fhe_core/src/secret_key.rs")])
p("C19","Modulus switching rounds every coefficient to the nearest target residue",
 "Switching from modulus Q to q maps every coefficient v to the residue mod q of round(v*q/Q), for the mask and the body alike and identically in the returning, in-place and same-type variants, with results below q.",
 ["inputs","configurations"],"all coefficients, all modulus pairs of the supported parameter sets, all dimensions",
 "No test covers it; the wrap-around to 0 and exact half cases occur on thin sets of coefficients.",
 ["fhe_core/src/modulus_switch.rs"],
 [("lwe_modulus_switch*","fhe_core/src/modulus_switch.rs")])
p("C20","Key switching preserves the phase up to the key's own noise",
 "Key-switching an LWE or ring-extracted ciphertext yields a ciphertext whose phase under the new key equals the phase under the old key plus exactly the sum over digits of (digit times the key-switching key's row error). With an error-free key the phase is preserved exactly.",
 ["inputs","configurations"],"all ciphertexts, all key pairs, all bases, all dimensions",
 "No test covers key switching in isolation; end-to-end examples absorb errors into noise.",
 ["fhe_core/src/key_switch/lwe.rs","fhe_core/src/key_switch/rlwe.rs"],
 [("KeySwitchingKey::key_switch*","fhe_core/src/key_switch/")])
p("C21","Gate bootstrapping look-ups give the exact Boolean truth table",
 "For every gate (NOT, AND, NAND, OR, NOR, XOR, XNOR, majority, multiplexer) and all plaintext inputs, the gate's linear combination of encodings plus any total error below q/16 lands in a look-up segment whose test-vector entry carries the correct output bit, including the negacyclic sign beyond the half period. The plaintext reference functions equal their Boolean definitions.",
 ["inputs","configurations"],"all gates, all input bits, all admissible phase errors, all look-up resolutions (q vs 2N)",
 "The example runs random bits with honest noise, which stays far from the decision boundary.",
 ["bool/src/bfhe/evaluate.rs","fhe_core/src/utils.rs"],
 [("gate methods and LUT initialisation","bool/src/bfhe/evaluate.rs"),("plaintext gates","fhe_core/src/utils.rs")])
p("C22","Blind rotation rotates the look-up polynomial by the encrypted phase",
 "For every LWE ciphertext and every binary or ternary secret, blind rotation with a noiseless bootstrapping key multiplies the accumulator's phase by X^(-phase) exactly, where phase is the ciphertext's phase modulo 2N. The rotated look-up table's constant coefficient is the entry addressed by the phase, negated in the upper half.",
 ["inputs","configurations"],"all ciphertexts, all binary/ternary secrets, all look-up tables",
 "No test isolates blind rotation; end-to-end runs cover random phases only.",
 ["fhe_core/src/blind_rotation/binary.rs","fhe_core/src/blind_rotation/ternary.rs","fhe_core/src/blind_rotation/mod.rs"],
 [("BinaryBlindRotationKey / TernaryBlindRotationKey","fhe_core/src/blind_rotation/")])
p("C23","Samplers return canonical values whatever the random source yields",
 "Every binary, ternary, uniform, centred-binomial and discrete-Gaussian sampler (of words, of field elements, of vectors and of polynomials of exactly the requested length) returns only canonical elements of its declared support for every output sequence of the random generator: binary {0,1} and ternary {0,1,-1}, each entry decided by bits of its own of the words drawn; uniform: any residue below the modulus, draws that would favour some residues rejected, so that every residue has equally many accepted draws; centred binomial: within 21 either way (modulus above 21); discrete Gaussian: an integer within the maximum deviation plus 1/2 of the mean, as itself or as the modulus minus its magnitude, whenever that range fits the modulus. Constructors refuse negative and non-finite deviations, and a maximum not above the deviation.",
 ["inputs","histories"],"all outputs of the random source, all lengths, all supported moduli and deviations",
 "Tests draw a small sample from one generator.",
 [B+"random.rs",B+"utils/sample.rs","lattice/src/utils/sample.rs"],
 [("sample_binary / sample_ternary / sample_cbd","lattice/src/utils/sample.rs"),("FieldDiscreteGaussianSampler etc.",B+"random.rs")])
p("C24","Probabilistic primality never rejects a prime and honours every round",
 "The primality test answers true for every prime modulus whatever bases are drawn, answers false for every even or Barrett-representable modulus found composite by any drawn base, and every requested round contributes its own base.",
 ["inputs","histories"],"all moduli, all round counts, all random bases",
 "Tests check a few hard-coded primes.",
 [B+"utils/prime.rs"],
 [("Prime::probably_prime",B+"utils/prime.rs")])
p("C25","Parameter construction rejects inconsistent settings",
 "Building a parameter set succeeds exactly when the plaintext modulus t and ciphertext modulus q are powers of two with t <= q, the ring dimension N is a power of two, the ring modulus is the ring field's own modulus Q with 2N dividing Q-1, and the gadget basis has no more bits than Q. A ring setting that does not fit returns the error naming it (dimension, or modulus with dimension); the other refusals panic. An accepted set's accessors and noise distributions hold exactly the values given. Key generation then yields an LWE key and a ring key of the declared dimensions and kinds (with bootstrapping that ends in a modulus switch, the ring key is the LWE key lifted entry by entry), the transformed key is the ring key's transform, and it refuses a Gaussian ring key or different dimensions where the steps do not allow them.",
 ["configurations"],"all combinations of moduli, dimensions, bases, key types and steps",
 "Only the shipped default sets are ever constructed.",
 ["fhe_core/src/parameter.rs","fhe_core/src/secret_key.rs"],
 [("Parameters::new","fhe_core/src/parameter.rs"),("SecretKeyPack::new","fhe_core/src/secret_key.rs")])
p("C26","Shared transform tables are initialised once under concurrency",
 "For each transform size of a field one table is put into the shared cache and never replaced: every call of get_ntt_table, from any thread, in any interleaving with other first uses and with init_ntt_table, returns that same table, complete, and equal entry for entry to the one a sequential initialisation gives. After init_ntt_table succeeds, every listed size is in the cache. A size that has no table is refused with an error on every call and leaves the cache usable. No two threads race on the cache.",
 ["schedules","histories"],"all interleavings of first uses by any number of threads; all sizes the word can hold",
 "Tests never race the first initialisation.",
 ["algebra_derive/src/ntt.rs"],
 [("get_ntt_table, init_ntt_table","algebra_derive/src/ntt.rs"),("generate_ntt_table","algebra_derive/src/ntt.rs")])
p("C27","The seeded pseudo-random generator is AES in counter mode",
 "For every 128-bit seed, the generator's output is the key stream whose block i is AES-128 (FIPS-197), under the seed as key, of the counter i as a little-endian 128-bit block, and every read (words, bytes, blocks) takes the next whole 32-bit words of that stream, so the data do not depend on how reads are split into whole words. Encrypting a block, any number of blocks at once, or a block slice of any length in place gives the same block-by-block AES-128.",
 ["inputs","histories"],"all seeds, keys and blocks; all slice lengths; every history of reads (below 2^64 words)",
 "The only test checks that two random blocks differ; no test compares against AES or splits reads.",
 [B+"utils/aes.rs",B+"utils/prg.rs",B+"utils/block.rs"],
 [("Aes key schedule and encryption",B+"utils/aes.rs"),("PrgCore::generate, Prg",B+"utils/prg.rs"),("Block conversions",B+"utils/block.rs")])
p("C28","Bootstrapped circuits fail with negligible probability",
 "For the shipped parameter sets, evaluating any Boolean circuit gate by gate on fresh encryptions decrypts to the plaintext evaluation except with negligible probability over keys and noise.",
 ["programs","inputs"],"all circuits, all inputs, all keys",
 "The example evaluates one gate sequence.",
 ["bool/src/bfhe/evaluate.rs","fhe_core/src/parameter.rs"],
 [("Evaluator","bool/src/bfhe/evaluate.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80
