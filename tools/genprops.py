#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

p("C01","NTT is an exact ring isomorphism for every degree, modulus and level",
"For every supported ring degree, set of NTT-friendly prime moduli, ring type and level, the forward transform followed by the inverse transform returns the original polynomial modulo each modulus, and coefficient-wise multiplication between the transforms equals polynomial multiplication in Z_q[X]/(X^N+1) (respectively in its conjugate-invariant subring). The transform values are exactly the evaluations of the polynomial at the primitive 2N-th (4N-th, one per conjugate pair) roots of unity. The full, per-level, single-modulus and lazy variants agree with each other, lazy forward outputs lie in [0,8q) and lazy inverse outputs in [0,2q) (so that they never overflow), exact outputs in [0,q), and in-place use gives the same result as out-of-place use.",
["inputs","configurations"],"every polynomial (including values at the edges of the reduced range), every degree 2^4..2^17, every prime size up to 61 bits, both ring types, every level",
"The tests compare a handful of fixed vectors and random polynomials for a few parameter sets; overflow margins of the lazy butterflies depend on the modulus size and on extreme coefficient values.",
["ring/ring_ntt.go","ring/ring_ntt_interface.go","ring/ring.go"],
[("lazy Harvey butterflies, unrolled per layer size","ring/ring_ntt.go"),("root tables","ring/ring.go genNTTParams")],observe=["Ring.NTT","Ring.InvNTT","Ring.NTTLvl","Ring.NTTLazyLvl","Ring.NTTSingle"])

p("C02","Modular and coefficient-wise arithmetic is exact for every operand",
"Every scalar reduction (Montgomery, Barrett, conditional), every vector kernel and every coefficient-wise ring operation (add, subtract, negate, reduce, multiply, multiply-and-accumulate, scalar, big-integer scalar, power-of-two, Montgomery conversion) yields a result congruent to exact integer arithmetic modulo each modulus. Exact variants return canonical representatives (negations may represent zero by the modulus itself) and lazy variants stay in their documented range. Results are written to the destination operand only, only for the moduli up to the requested level, and are the same when the destination aliases an operand.",
["inputs","configurations"],"every modulus up to the supported size, every operand in the documented input range, every level and aliasing pattern",
"Tests use random operands for a few moduli; carry, borrow and last-subtraction cases occur at probability about 2^-64 for uniform operands, and out-of-place scalar variants are not exercised.",
["ring/modular_reduction.go","ring/ring_vector_ops.go","ring/ring_operations.go","ring/utils.go"],
[("128-bit Montgomery/Barrett arithmetic","ring/modular_reduction.go"),("8-way unrolled kernels","ring/ring_vector_ops.go")],observe=["MRed","BRed","Ring.*Lvl"])

p("C03","RNS basis extension, ModDown and gadget decomposition are exact or off by one",
"Extending a polynomial from one RNS basis to another yields, in every target modulus, the same integer in [0,Q) (a multiple of Q may be added or removed only for integers within the floating-point rounding distance of 0 or Q). Dividing by the auxiliary modulus on the way back returns an integer within one unit (plus that same floating-point distance) of the exact quotient, identically in the coefficient and NTT domains. Each digit of the gadget decomposition is the residue of the input modulo the product of that digit's moduli, for every level and digit size.",
["inputs","configurations"],"every pair of bases (1..16 moduli of 20..61 bits, up to 40 moduli of at most 60 bits), every level pair, every digit width and every coefficient value, including boundary values of the CRT correction term",
"Tests use one parameter chain and uniform inputs; partial last digits, lower levels, many-moduli accumulator growth and correction-term boundaries are not reached.",
["ring/ring_basis_extension.go","rlwe/keyswitch.go","rlwe/ring_qp.go"],
[("floating-point CRT correction and lazy 128-bit accumulation","ring/ring_basis_extension.go reconstructRNS, multSum"),("digit table selection","ring/ring_basis_extension.go DecomposeAndSplit")],observe=["BasisExtender","Decomposer","RingQP.ExtendBasisSmallNormAndCenter"])

p("C04","Division by trailing moduli and t/Q scaling compute the rounded quotient",
"Dividing a polynomial by its last modulus, or by several trailing moduli in sequence, yields exactly the floored (respectively nearest-integer) quotient of every coefficient in the remaining moduli, identically for the coefficient-domain and NTT-domain variants and for any level. Scaling by t/Q returns round(t*x/Q) reduced modulo t for every coefficient, with every available implementation agreeing.",
["inputs","configurations"],"every coefficient value including exact halves and multiples, every number of dropped moduli, every modulus-size mix (last modulus far larger or smaller than the others)",
"Tests use random coefficients on one chain; rounding boundaries and wrap-around at Q have negligible probability there.",
["ring/ring_scaling.go"],
[("centered division by the last modulus","ring/ring_scaling.go DivRoundByLastModulus*"),("RNS scaling by t/Q","ring/ring_scaling.go RNSScaler, SimpleScaler")],observe=["Ring.DivFloorByLastModulus*","Ring.DivRoundByLastModulus*","Scaler"])

p("C05","Automorphisms and monomial maps act exactly as their algebraic definition",
"Applying a Galois automorphism X->X^g in the coefficient domain (standard ring) and in the NTT domain (direct, by precomputed index, and accumulating variants) gives the same polynomial, equal to the algebraic definition, for every odd g (in the conjugate-invariant ring, every g = 1 mod 4) and level. Automorphisms compose and invert according to the group law, Galois elements derived from rotation amounts satisfy that law for positive, negative and oversized amounts, and multiplication by a monomial, cyclic shift and embedding into a larger degree match their definitions.",
["inputs","configurations"],"every odd Galois element, every rotation amount, every degree, level and both domains",
"Tests check one or two Galois elements at full level; index arithmetic errors are element- and degree-specific.",
["ring/ring_automorphism.go","ring/ring_operations.go","rlwe/params.go"],
[("bit-reversed index permutation","ring/ring_automorphism.go"),("Galois element derivation","rlwe/params.go")],observe=["Ring.Permute*","Ring.MultByMonomial","Ring.Shift","Parameters.GaloisElement*"])

p("C06","Samplers draw valid, consistent polynomials with the documented distribution",
"Every sampled polynomial represents, across all requested moduli, the same small integer polynomial (for ternary and Gaussian samplers) with coefficients within the documented support and bound, exact Hamming weight where one is requested, and empirical frequencies (of single coefficients and of pairs of coefficients, which are independent) matching the requested distribution; uniform samples cover [0,q) uniformly and independently per modulus. Moduli above the requested level are left untouched, accumulate variants add exactly one sample to the target, and the output is a deterministic function of the keyed generator.",
["inputs","configurations"],"every degree, modulus chain, level, density, Hamming weight, standard deviation and bound, and every generator key",
"Tests sample a few polynomials and check ranges; distribution shape, cross-modulus consistency at partial levels and density extremes are not examined.",
["ring/ring_sampler_uniform.go","ring/ring_sampler_ternary.go","ring/ring_sampler_gaussian.go","rlwe/ring_qp.go"],
[("rejection sampling","ring/ring_sampler_uniform.go"),("Knuth-Yao ternary sampling and sparse index selection","ring/ring_sampler_ternary.go"),("ziggurat","ring/ring_sampler_gaussian.go")],observe=["UniformSampler","TernarySampler","GaussianSampler","UniformSamplerQP"])

p("C07","Keyed random generator is a pure function of key and clock",
"Two generators with the same key produce identical output for the same sequence of requests, different keys give different output, and advancing the clock to n leaves the generator exactly as if it had been clocked one step at a time. Moving the clock backwards is refused without disturbing the generator, and the clock value always equals the number of steps performed. Generators created without a key are unpredictable to each other (distinct outputs).",
["inputs","histories"],"every key, request-size sequence and interleaving of clock, seek and read operations",
"The single test covers one key and one seek sequence.",
["utils/prng.go"],[("blake2b XOF with step counter","utils/prng.go")],observe=["KeyedPRNG"])

p("C08","Parameter sets are validated and derived consistently; primes are NTT-friendly",
"Prime generation returns the requested number of distinct primes, all congruent to 1 modulo the root order and closest to the requested size in the documented direction, and next/previous-prime searches return the nearest such prime or an error. Parameter construction accepts exactly the documented domain (degree, moduli count and size, primality, congruence, slot counts), rejects everything else with an error and without a usable result, and every derived quantity (products, bit sizes, digit counts, overflow margins, ring degrees, slot counts, standard-ring dual) matches its definition.",
["inputs","configurations"],"every literal: degree, explicit moduli or bit sizes, auxiliary moduli, Hamming weight, standard deviation, ring type and slot count, valid or invalid",
"Tests only construct a few hard-coded valid parameter sets.",
["ring/primes.go","ring/ring.go","rlwe/params.go","ckks/params.go","frlwe/params.go"],
[("prime search","ring/primes.go"),("literal validation and defaulting","rlwe/params.go, ckks/params.go")],observe=["GenerateNTTPrimes","NewParametersFromLiteral","NewRing"])

p("C09","Serialization round-trips every object, into fresh and reused receivers",
"Encoding then decoding any ring, polynomial, parameter set, plaintext-bearing ciphertext or key yields an object that is equal to and behaves like the original, in every offered format (binary, JSON, 32-bit, with or without metadata). The encoded length equals the announced length, decoding the same bytes into a receiver that already held another value gives the same result as into a fresh one, and re-encoding is byte-identical. Equality predicates are true exactly when the objects are equal.",
["inputs","configurations","histories"],"every degree, level, number of moduli, ring type, domain flags, ciphertext degree, key shape and receiver history",
"Tests round-trip one instance per type into an empty receiver.",
["ring/ring.go","ring/ring_poly.go","rlwe/marshaler.go","rlwe/params.go","rlwe/ring_qp.go","rlwe/keys.go","ckks/ciphertext.go","ckks/params.go","utils/buffer.go"],
[("length-prefixed big-endian encoding","ring/ring_poly.go, rlwe/marshaler.go"),("JSON literals","rlwe/params.go, ckks/params.go")],observe=["MarshalBinary","UnmarshalBinary","MarshalJSON","GetDataLen","Equals"])

p("C10","RLWE encryption then decryption recovers the plaintext within the noise bound",
"For every parameter set, key kind (secret, public), level of plaintext, ciphertext and output, domain (coefficient or NTT) and with or without auxiliary moduli, decrypting an encryption returns the plaintext plus an error no larger than the bound implied by the error distribution, at the minimum of the levels involved. Decryption evaluates the ciphertext polynomial at the secret key for any ciphertext degree, encryption from a common reference polynomial uses exactly that polynomial, and a wrong key does not decrypt.",
["inputs","configurations","histories"],"every plaintext, parameter set, key, level combination, domain, ciphertext degree and prior use of the encryptor or decryptor",
"Tests encrypt the zero plaintext at the maximum and one other level for a few parameter sets.",
["rlwe/encryptor.go","rlwe/decryptor.go","rlwe/elements.go"],
[("public/secret key encryption with and without ModDown","rlwe/encryptor.go"),("Horner evaluation with lazy reduction","rlwe/decryptor.go")],observe=["Encryptor","Decryptor"])

p("C11","Keys and ciphertexts are well-formed RLWE samples with fresh bounded noise",
"Every generated secret key has coefficients, density or Hamming weight as requested, identically modulo every modulus; every public, switching, relinearization and rotation key satisfies its defining relation with the secret key up to a non-zero error no larger than the configured bound, for each gadget digit and each modulus. Masks and errors are freshly drawn: two keys or two encryptions never share their uniform part or their noise.",
["inputs","configurations","histories"],"every parameter set, secret distribution, Galois element, gadget shape and sequence of generation calls",
"Tests only check that keys work for one parameter set; a missing or oversized error, a reused mask or a wrong gadget factor in one modulus can still decrypt in the sampled cases.",
["rlwe/keygen.go","rlwe/encryptor.go","frlwe/keygen.go"],
[("gadget key generation","rlwe/keygen.go genSwitchingKey"),("re-expression of gadget keys over the auxiliary ring T","frlwe/keygen.go")],observe=["KeyGenerator","Encryptor"])

p("C12","RLWE key switching preserves the plaintext for every level and gadget shape",
"Switching a ciphertext from one key to another (in place, hoisted, without final division, from either domain), relinearizing, and applying an automorphism with the matching Galois key all preserve the encrypted polynomial (respectively its image) up to the noise bound implied by the parameters, at every level and for every number of auxiliary moduli. Hoisted and non-hoisted evaluations agree, generated key sets contain exactly the requested Galois elements, and switching between ring degrees preserves the embedded polynomial.",
["inputs","configurations"],"every ciphertext, secret-key pair, level, number of auxiliary moduli (including levels that are not a multiple of the digit size), Galois element and ring degree pair",
"Tests use a few levels and zero plaintexts, so a wrong embedding or a wrong digit can cancel out.",
["rlwe/keyswitch.go","rlwe/keygen.go","rlwe/elements.go"],
[("gadget product with lazy accumulation","rlwe/keyswitch.go"),("degree switching","rlwe/elements.go")],observe=["KeySwitcher","SwitchCiphertextRingDegreeNTT"])

p("C13","Fast key switching agrees with RLWE key switching for every configuration",
"For every level, digit size, grouping factor and auxiliary-ring moduli satisfying the size requirement, the fast key switcher applied to a polynomial with a generated relinearization or rotation key returns a pair whose decryption equals the product of that polynomial with the switched key polynomial up to the standard key-switching noise bound. The result does not depend on earlier calls on the same key switcher, and every key-generation entry point terminates with a usable key.",
["inputs","configurations","histories"],"every polynomial, level from 0 to the maximum, number of auxiliary moduli, grouping factor (including ones that do not divide the limb count) and call history",
"The only test uses one configuration (two auxiliary moduli, grouping two, maximum level).",
["frlwe/keyswitch.go","frlwe/keygen.go","frlwe/keys.go","frlwe/params.go"],
[("external product over the auxiliary ring and conversion back","frlwe/keyswitch.go externalProduct"),("block conversion of gadget keys","frlwe/keygen.go polyQPToPolyTs")],observe=["frlwe.KeySwitcher.SwitchKey","frlwe.KeyGenerator"])

p("C14","CKKS encoding and decoding are mutually inverse within precision",
"Encoding values into slots or coefficients and decoding returns the values up to the rounding error determined by the scale and floating-point precision, for every slot count, level, scale, ring type and domain; the encoded polynomial is the canonical-embedding inverse of the values, identical whichever equivalent entry point is used. Encoding depends only on the values given, not on what the plaintext or encoder held before, and decoding with added decoding noise stays within the announced deviation.",
["inputs","configurations","histories"],"every value vector (including empty, partial, large, negative, tiny), sparse and full packing, single-precision-overflowing scales, every level and reuse history",
"The package has no tests; the dependent package's tests use one parameter set and full packing.",
["ckks/encoder.go","ckks/ckks_vector_ops.go","ckks/utils.go"],
[("special FFT with unrolled kernels","ckks/ckks_vector_ops.go"),("fixed-point scaling to RNS","ckks/utils.go")],observe=["Encoder"])

p("C15","CKKS evaluation is homomorphic over arbitrary operation sequences",
"After any valid sequence of evaluator operations (add, subtract, negate, constant and Gaussian-integer arithmetic, multiply by i, multiply, multiply-accumulate, relinearize, rotate, conjugate, key switch, hoisted rotation, scale-up, power-of-two) the decrypted and decoded ciphertext equals the same operations applied to the plaintext complex vectors, up to the noise of the operations and, for additions of operands of different scales, the rounding of the ratio of the scales to the nearest integer. This holds for any mix of levels, scales, ciphertext degrees, ciphertext or plaintext operands, fresh or reused output ciphertexts and output aliasing an input.",
["inputs","programs","histories","configurations"],"every operation sequence, operand level/scale/degree mix, constant type and value, rotation amount and output placement",
"The package has no tests of its own.",
["ckks/evaluator.go","ckks/ciphertext.go","ckks/encryptor.go","ckks/decryptor.go"],
[("scale matching and level alignment","ckks/evaluator.go evaluateInPlace"),("tensoring and relinearization","ckks/evaluator.go mulRelin, mulRelinAndAdd")],observe=["ckks.Evaluator"])

p("C16","Scale, level and degree metadata always describe the ciphertext truthfully",
"After every evaluator operation the recorded scale, level and degree equal the values implied by the operation, and the decoded value under the recorded scale is right. Rescaling divides by trailing moduli while the scale stays above the requested threshold and never below level zero, reporting an error when it cannot rescale; dropping levels, setting scales and reducing lazily-accumulated ciphertexts preserve the encrypted value, and invalid requests are refused rather than producing a corrupt ciphertext.",
["inputs","histories","configurations"],"every threshold, starting scale and level, sequence of scale-changing operations and output ciphertext shape",
"The package has no tests; the rescaling loop's boundary (bottom level, threshold just reached) needs specific scales.",
["ckks/evaluator.go","ckks/params.go"],
[("rescale loop","ckks/evaluator.go Rescale"),("scale bookkeeping","ckks/evaluator.go")],observe=["Evaluator.Rescale","Evaluator.SetScale","Evaluator.DropLevel","Ciphertext.Level"])

p("C17","fckks end to end: encrypted computation equals plaintext computation",
"For any sequence of message encryptions, additions, subtractions, multiplications with fast relinearization, rescalings, fast rotations by any amount, level drops and decryptions performed with shared long-lived objects, each decrypted message equals the same computation on the plain vectors within the noise bound. Results carry the right scale and level whichever output ciphertext is supplied, inputs are left unchanged, and the outcome of one call does not depend on which other calls the same object served before.",
["inputs","programs","histories","configurations"],"every operation sequence, rotation index (negative and oversized included), parameter set (digit size, grouping factor, slot count) and object reuse pattern",
"The package's tests run each operation once, at the top level, with one parameter set and fresh outputs.",
["fckks/evaluator.go","fckks/encryptor.go","fckks/decryptor.go","fckks/params.go","fckks/keygen.go"],
[("relinearization and rotation through the fast key switcher","fckks/evaluator.go"),("pooled plaintexts","fckks/encryptor.go, fckks/decryptor.go")],observe=["fckks.Evaluator","fckks.Encryptor","fckks.Decryptor"])

p("C18","Operations do not disturb their inputs or depend on earlier calls",
"An operation never modifies an input other than its declared output (plaintexts, ciphertexts, keys, polynomials and value slices stay bit-identical), returned objects share no memory with inputs or with the evaluator's internals, and computing into a reused, dirty or aliased output gives bit-identical results to computing into a fresh one, wherever the operation lets its output coincide with an operand (evaluator operations allow any such pattern; the low-level key switch writes to polynomials distinct from the one it switches). A long-used evaluator, encoder, key switcher or decryptor gives the same results as a newly created one.",
["inputs","histories"],"every operation of the evaluators, encoders, key switchers, encryptors, decryptors and key generators, any prior call history and any output aliasing pattern",
"Tests create fresh objects and never compare inputs after a call.",
["ckks/evaluator.go","ckks/encoder.go","rlwe/encryptor.go","rlwe/decryptor.go","rlwe/keyswitch.go","frlwe/keyswitch.go","frlwe/keygen.go"],
[("internal buffer pools","ckks/evaluator.go, rlwe/keyswitch.go, frlwe/keyswitch.go")],observe=["all evaluators"])

p("C19","Shallow copies are independent: concurrent use equals sequential use",
"A shallow copy (or a copy with another key) of an encoder, encryptor, decryptor, key switcher or basis extender behaves exactly like the original for the given key and shares no mutable state with it: interleaving or running operations on original and copies concurrently yields the same results as running each alone, without data races; encryptors and encoders draw randomness of their own. Objects created separately from the same parameters and keys (evaluators, key generators, key switchers, encryptors, decryptors, encoders, samplers) share only read-only data and are independent in the same sense.",
["schedules","histories","inputs"],"every interleaving of operations on an object and its shallow copies, or on objects created from the same parameters and keys",
"Tests do not run shallow copies concurrently or interleaved with the original.",
["ckks/encoder.go","ckks/encryptor.go","ckks/decryptor.go","rlwe/keyswitch.go","rlwe/encryptor.go","rlwe/decryptor.go","ring/ring_basis_extension.go"],
[("copy shares read-only tables and reallocates buffers","ShallowCopy methods")],observe=["ShallowCopy","WithKey"])

p("C20","Conjugate-invariant and standard rings are bridged consistently",
"Unfolding a conjugate-invariant polynomial into the standard ring of twice the degree and folding it back is consistent with the algebraic embedding (folding after unfolding returns twice the polynomial), ring and parameter conversions between the two types are inverse to each other, and arithmetic commutes with the embedding. With the bridge switching keys, a ciphertext over one ring decrypts over the other to the same values.",
["inputs","configurations"],"every polynomial, degree, modulus chain and level",
"Tests cover one degree at full level.",
["ring/conjugate_invariant.go","ring/ring.go","rlwe/keygen.go","ckks/keys.go"],
[("fold/unfold in the NTT domain","ring/conjugate_invariant.go"),("ring-swap switching keys","rlwe/keygen.go GenSwitchingKeysForRingSwap")],observe=["Ring.UnfoldConjugateInvariantToStandard","Ring.FoldStandardToConjugateInvariant"])

p("C21","Arbitrary-precision arithmetic and encoding reach the requested precision",
"Arbitrary-precision complex addition, subtraction, multiplication, division and cosine agree with exact arithmetic to the requested precision for any aliasing of operands. The arbitrary-precision encoder's forward and inverse transforms are mutually inverse and encode-then-decode returns the values to the precision permitted by scale and requested precision, agreeing with the double-precision encoder up to double precision.",
["inputs","configurations"],"every precision, value vector, slot count, level and scale",
"No test exercises these paths.",
["ring/complex128.go","ckks/encoder.go","ring/int.go"],
[("big.Float FFT","ckks/encoder.go encoderBigComplex"),("iterated half-angle cosine","ring/complex128.go")],observe=["NewEncoderBigComplex","ring.Complex","ring.Cos"])

p("C22","Importing and exporting integer coefficients is CRT-exact",
"Setting polynomial coefficients from signed, unsigned, decimal-string or arbitrary-size integers and reading them back as integers (plain, centered, strided, at any level) returns the same integers modulo the product of the active moduli, with the centered form in the symmetric range. Polynomial equality, copying and zeroing respect values and domain flags and agree with coefficient-wise comparison modulo each modulus.",
["inputs","configurations"],"every integer (negative, zero, beyond the modulus, near half the modulus), stride, level and modulus chain",
"Tests import small random values at full level only.",
["ring/ring.go","ring/ring_poly.go","ring/int.go"],
[("CRT reconstruction","ring/ring.go PolyToBigint*")],observe=["Ring.SetCoefficients*","Ring.PolyToBigint*","Poly.Copy*","Ring.Equal"])

p("C23","Utility slice, bit and buffer helpers match their definitions",
"The bit-reversal, Hamming-weight, min/max, membership, distinctness, equality and rotation helpers return exactly what their definition says for every input, including empty, unequal-length, negative and oversized arguments, without modifying their inputs; writing any sequence of values to a buffer and reading them back returns the same sequence in order. Random helpers return values inside the requested interval.",
["inputs","histories"],"every slice, index, rotation amount and write/read sequence",
"Tests cover a few constants.",
["utils/utils.go","utils/buffer.go"],[("helpers","utils/utils.go"),("byte buffer","utils/buffer.go")],observe=["utils.*"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    n=len(re.findall(r'[.](\s|$)',x["statement"]))
    if n>3: print(x["id"],n,"sentences")
