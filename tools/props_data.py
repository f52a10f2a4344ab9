def M(*xs): return [{"name":n,"where":w} for n,w in xs]

p("C01","Honest polynomial openings verify and give the true values",
"For every supported prime field, size target, batch size, list of polynomials no longer than the advertised rank (including empty, short, all-zero and extreme-coefficient ones) and evaluation point, committing and batch-opening yields exactly the mathematical evaluations of the committed polynomials, and a verifier built independently from the same parameters and reference string accepts them.",
["inputs","configurations"],
"all (field, size target, batch) configurations for which parameters exist, all coefficient vectors, all points, fresh randomness each time",
"The two existing tests open random full-length polynomials at one random point for one field and one size; short, empty or extreme polynomials, other sizes, batches, fields and points are never run.",
["jindo/prover.go","jindo/verifier.go","jindo/encoder.go","jindo/rns.go","jindo/utils.go","jindo/params.go"],
M(("matrix layout of coefficients, first/last row split","jindo/prover.go genFirstLastRow/commitColTo"),("left/right evaluation vectors","jindo/utils.go"),("balanced RNS reconstruction","jindo/rns.go"),("norm bounds with enough slack","jindo/params.go")))

p("C02","A false polynomial evaluation is never accepted",
"The commitment verifier accepts a claimed list of evaluations only if every entry is the value of the corresponding committed polynomial (which has at most as many coefficients as the advertised rank) at the point; this holds against a prover who knows all openings, chooses the claimed values after seeing every challenge, mixes openings of different polynomials, or makes up any prover message and recomputes all later ones.",
["inputs","histories"],
"all committed polynomials, points, batch positions, and all prover strategies that deviate in claimed values, openings, partial evaluations or responses",
"The tests only check that honest proofs are accepted; no test ever shows the verifier a false claim.",
["jindo/verifier.go","jindo/prover.go","jindo/utils.go"],
M(("outer/inner commitment equations","jindo/verifier.go verifyOuterCommitment/verifyInnerCommitment"),("partial-evaluation consistency","jindo/verifier.go verifyConsistency"),("evaluation equation and batching","jindo/verifier.go verifyEval"),("Fiat-Shamir order of batch challenges and claimed values","jindo/prover.go Evaluate, jindo/verifier.go Verify")))

p("C03","Opening proofs are valid only for the exact statement and message proved",
"An opening proof that verifies stops verifying when any commitment in the batch, the order of commitments, the evaluation point, a claimed value or the reference string is changed, and when any part of the proof that enters the verification equations is altered (other than within the rounding slack the scheme itself allows in the last lattice-randomness responses) or taken from another proof.",
["inputs","fault_sequences"],
"every component, index and coefficient of statement and proof; random, targeted, swap and splice alterations",
"No test alters a proof or statement; acceptance of honest proofs says nothing about rejection.",
["jindo/verifier.go","jindo/entities.go"],
M(("verification equations over all components","jindo/verifier.go"),("serialisation of commitments and key into the transcript","jindo/entities.go WriteRawTo")))

p("C04","Openings beyond the norm bounds are always rejected",
"Every opening proof the verifier accepts has its response vector and its decomposed inner commitment, including the rounding remainders, within the two-norm bounds advertised by the parameters; a proof that satisfies every linear equation but exceeds either bound is rejected, whatever component carries the excess.",
["inputs","fault_sequences"],
"all malicious openings whose linear relations hold but whose encodings, randomness or inner commitments are too large, in any row, column, coefficient, and by any factor above the bound",
"Honest proofs are always far below the bounds, so deleting or weakening a norm check changes no test result.",
["jindo/verifier.go","jindo/rns.go","jindo/params.go"],
M(("two-norm checks over integers","jindo/verifier.go verifyNorm"),("RNS reconstruction to balanced integers","jindo/rns.go reconstructTo"),("bounds","jindo/params.go ResTwoNm/InComDcmpTwoNm")))

p("C05","Commitments are freshly randomised with the declared noise and hide the data",
"Every commitment is made with fresh randomness: its opening encodes exactly the committed polynomial masked by uniformly random blinding values, every encoding and every lattice-randomness polynomial, masks included, follows a zero-centred Gaussian of the standard deviation the parameters advertise for its role, and two commitments to the same polynomial share no component.",
["inputs","configurations"],
"all polynomials, fields, sizes; distribution over the prover's randomness, per role (data row, blinding row, mask row, mask blinding row, lattice randomness, mask lattice randomness)",
"No test looks at the distribution of anything the prover samples; leaving noise out or using a wrong width still verifies.",
["jindo/prover.go","jindo/encoder.go","math/csprng/gaussian_cosac.go","math/csprng/gaussian_twin_cdt.go"],
M(("randomised encoding","jindo/encoder.go randEncodeTo"),("blinding row","jindo/prover.go genFirstLastRow"),("mask column","jindo/prover.go commitColTo"),("standard deviations","jindo/params.go")))

p("C06","Parameter selection always ends in a usable, consistent parameter set",
"For every supported field, requested size and batch count, parameter selection terminates and either refuses explicitly or returns parameters whose capacity is at least the requested size with the requested batch, whose moduli stay within the 240-bit security limit, whose ranks meet the binding (short-integer-solution) requirement for the norm bounds they advertise, whose noise widths meet the hiding requirements, whose challenge sets are large enough for soundness, and with which key generation, commitment, opening and verification run without failure.",
["configurations","inputs"],
"all (field, size target, batch) triples, including sizes that are not powers of two, size 1, large sizes and large batches",
"Tests use a single size and two batch counts for one field.",
["jindo/params.go","jindo/entities.go"],
M(("search over column counts and rank fixpoint","jindo/params.go NewParameters"),("security estimates","jindo/params.go findMSISRank, maxLogQ")))

p("C07","Commitment challenges depend on the whole preceding statement and transcript",
"Every Fiat-Shamir challenge used in an opening proof is a function of the reference string, all commitments in order, the point, the claimed evaluations and every prover message sent before it: changing any of them changes every later challenge, prover and verifier derive identical challenges, and each challenge stays within the advertised challenge bound and is drawn from the whole of the set that bound allows, which has nearly min(p, 2^120) elements.",
["inputs","histories"],
"every byte-carrying component of statement and messages, every batch size and configuration",
"A weak transcript is invisible to accept-only tests: prover and verifier agree on the wrong challenge just as well.",
["jindo/prover.go","jindo/verifier.go","jindo/entities.go","jindo/utils.go"],
M(("SHAKE transcript","jindo/prover.go Evaluate, jindo/verifier.go Verify"),("challenge encoding","jindo/utils.go encodeChallengeTo")))

p("C08","Independent instances and safe copies work concurrently without interference",
"Provers, safe copies of provers and samplers, polynomial evaluators, and provers and verifiers obtained from compilation may be used from different goroutines at the same time (one goroutine per instance, evaluators shared): there is no data race, and every result is as correct as in a sequential run.",
["schedules","histories"],
"all interleavings of goroutines each using its own instance or safe copy, evaluators shared between goroutines, and a prover and a verifier of one compilation used at the same time",
"The test suite is entirely sequential and is not run under the race detector.",
["jindo/prover.go","jindo/encoder.go","jindo/rns.go","math/bigpoly/base_op.go","math/csprng/gaussian_twin_cdt.go","buckler/compile.go","buckler/linear.go"],
M(("SafeCopy with private buffers","jindo/prover.go, jindo/encoder.go, jindo/rns.go"),("pooled buffers","math/bigpoly/base_op.go"),("per-compilation state","buckler/compile.go, buckler/context.go")))

p("C09","Every satisfiable circuit can be proved and verified",
"For every well-formed circuit (any nesting of witness fields in structs, arrays, slices, pointers and interfaces, any mix and number of arithmetic, sum, linear, infinity-norm, two-norm and approximate-norm constraints, any supported power-of-two rank and field) and every assignment that satisfies it, proving succeeds and a separately compiled verifier that is given only the public part accepts.",
["programs","inputs","configurations"],
"all circuit shapes and constraint mixes, all satisfying assignments including boundary values of norms, all supported ranks and fields",
"The single existing SNARK test proves one fixed circuit at one rank over one field.",
["buckler/compile.go","buckler/context.go","buckler/constraint.go","buckler/prover.go","buckler/verifier.go","buckler/utils.go","buckler/encoder.go"],
M(("reflection walk assigning witness ids","buckler/compile.go"),("rank and batch accounting","buckler/context.go commitRank/batch"),("derived witnesses","buckler/prover.go Prove")))

p("C10","A violated arithmetic constraint is always rejected",
"If the committed witness and the public inputs violate any arithmetic constraint of the circuit in any vector position by any nonzero amount, the verifier rejects the proof; violations in several constraints or positions never compensate one another, however they are chosen.",
["programs","inputs"],
"all circuits with arithmetic constraints, every constraint index and vector position, single, multiple and mutually cancelling violations",
"No test proves a false statement, and cancelling violations need several constraints.",
["buckler/prover.go","buckler/verifier.go","buckler/constraint.go"],
M(("random linear combination of constraints","buckler/verifier.go evalCircuit"),("vanishing-polynomial divisibility","buckler/verifier.go arithCheck")))

p("C11","A violated linear constraint is always rejected",
"If for any declared linear constraint the output witness differs from the transformed input witness in any position, for negacyclic transforms, automorphisms and user-supplied maps alike, the verifier rejects; violations in several linear constraints never compensate one another, and a prover who sends a remainder polynomial of excessive degree or a made-up mask sum is rejected.",
["programs","inputs"],
"all circuits with linear constraints over every checker kind, all positions, single and mutually cancelling violations, malicious quotient/remainder/mask messages",
"Only one accepting test with one transform exists; the degree check and batching are never exercised with a false statement.",
["buckler/linear.go","buckler/prover.go","buckler/verifier.go"],
M(("transposed check vector","buckler/linear.go TransposeTo"),("remainder degree check","buckler/verifier.go linCheck"),("batching over constraints","buckler/verifier.go linCheck")))

p("C12","Sum constraints are enforced with exactly the declared sum",
"For every sum constraint, a proof is accepted if and only if the sum of the constraint expression over all vector positions equals the declared value in the field, for zero and nonzero declared values and any number of sum constraints; deviations in several sum constraints never compensate one another, and excessive-degree remainders or made-up mask sums are rejected.",
["programs","inputs"],
"all sum-constraint circuits, all declared sums including field-sized ones, single and mutually cancelling deviations, malicious remainder and mask messages",
"No existing test declares a sum constraint at all.",
["buckler/context.go","buckler/prover.go","buckler/verifier.go"],
M(("declared sums","buckler/context.go AddSumCheckConstraintBig"),("sum-check identity","buckler/verifier.go sumCheck")))

p("C13","Infinity-norm constraints are exact",
"With an infinity-norm constraint of bound B, witnesses whose centred entries all lie in [-B, B], the boundary included, are provable, and if any entry lies outside, the verifier rejects, even when the prover chooses the auxiliary decomposition dishonestly.",
["inputs","programs"],
"all bounds (zero, one, powers of two and their neighbours, multi-word), all positions and values at and beyond the boundary, dishonest digit choices",
"The existing test uses one bound with interior values only.",
["buckler/context.go","buckler/utils.go","buckler/prover.go"],
M(("bound-exact digit base","buckler/utils.go decomposeBase"),("ternary digit and recomposition constraints","buckler/context.go AddInfNormConstraintBig")))

p("C14","Two-norm constraints are exact in the field",
"With a squared-two-norm constraint of bound B (of at most as many bits as the vector has entries), a witness is provable exactly when the sum of the squares of its entries, taken in the field, is at most B, for any number of such constraints in one circuit and even when the prover chooses the auxiliary decomposition dishonestly.",
["inputs","programs"],
"all bounds (zero, one, powers of two and neighbours), one or several constrained witnesses, norms at and just beyond the bound, dishonest digit choices",
"No existing test uses a two-norm constraint.",
["buckler/context.go","buckler/prover.go","buckler/verifier.go","buckler/utils.go"],
M(("binary masked digits and sum check","buckler/context.go AddSqNormConstraintBig"),("derived witness and public masks","buckler/prover.go, buckler/verifier.go")))

p("C15","Approximate norm constraints bound the witness up to the stated slack",
"With an approximate infinity-norm constraint of bound B at rank N (large enough to hold the 128 projected entries' digits), witnesses within B are provable, and a witness with an entry larger than 2*N*B in absolute value (with no wrap-around in the field) is rejected, even when the prover chooses the projected digits dishonestly; the projection is random and depends on the commitment to the witness.",
["inputs","programs"],
"all bounds and ranks that fit, any position of the large entry, honest and dishonest projections and digits, several constrained witnesses",
"No existing test uses an approximate norm constraint.",
["buckler/context.go","buckler/linear.go","buckler/prover.go","buckler/verifier.go"],
M(("random projection derived from first-round commitments","buckler/prover.go, buckler/verifier.go projConst"),("projection and recomposition maps","buckler/linear.go"),("digit range constraint","buckler/context.go AddApproxInfNormConstraintBig")))

p("C16","A SNARK proof is bound to its public inputs, circuit and reference string",
"A proof verifies only together with the public inputs it was generated for: changing any entry of any public vector, including changes computed after seeing the proof and all challenges, makes it fail, and so does verifying it with another reference string or with another circuit of the same shape, fixed in advance, whose constraints differ in meaning.",
["inputs","programs"],
"all circuits with public inputs, every public vector and position, adaptive changes, other constraints or constants, other reference strings",
"The existing test verifies with the right public inputs only.",
["buckler/prover.go","buckler/verifier.go"],
M(("public vectors evaluated at the challenge point","buckler/verifier.go pwEvals"),("transcript contents (strong Fiat-Shamir)","buckler/prover.go, buckler/verifier.go")))

p("C17","Every SNARK challenge depends on all earlier public data and messages",
"Each Fiat-Shamir challenge of the proof system is a function of the public inputs and of every prover message that precedes it (all commitments and mask sums of earlier rounds): changing any of those changes every later challenge, and prover and verifier derive identical challenges.",
["inputs","histories","programs"],
"every prover message and public vector, every circuit kind, every challenge",
"Accept-only tests cannot see which data a challenge depends on.",
["buckler/prover.go","buckler/verifier.go"],
M(("transcript bindings","buckler/prover.go Prove, buckler/verifier.go Verify")))

p("C18","Tampered or spliced SNARK proofs are rejected",
"Altering any commitment, mask sum, claimed evaluation or part of the evaluation proof of a valid SNARK proof, exchanging components within a proof, or splicing components from a proof of another statement or run makes verification fail.",
["inputs","fault_sequences"],
"every proof component and index, value changes, exchanges and splices, also when other components are adjusted to keep verification equations true",
"No test alters a proof.",
["buckler/verifier.go","jindo/verifier.go","buckler/entities.go"],
M(("verification of evaluations through the commitment scheme","buckler/verifier.go Verify"),("constraint equations on claimed evaluations","buckler/verifier.go")))

p("C19","Malformed circuits and assignments are reported, never silently accepted",
"Compilation reports an error for circuits whose witness fields cannot be set or that are not pointers, proving reports an error when the circuit type differs from the compiled one, when any witness or public vector at any nesting depth has the wrong length, or when their number differs from the compiled circuit, and verification returns false in the corresponding cases; none of them is silently ignored or turned into a valid-looking proof.",
["inputs","programs"],
"all nesting depths and field kinds, wrong lengths, missing or surplus vectors, wrong circuit types",
"No test passes a malformed circuit or assignment.",
["buckler/compile.go","buckler/prover.go","buckler/verifier.go"],
M(("error returns of the reflection walks","buckler/compile.go firstWalk/prvWalk/vrfWalk"),("type check","buckler/prover.go Prove, buckler/verifier.go Verify")))

p("C20","Proofs reveal nothing beyond blinded values: all openings are freshly masked",
"Everything a proof reveals about the secret witness is masked by fresh uniform randomness: for fixed witness and even fixed challenges, the revealed witness evaluations, mask evaluations, mask sums and remainder evaluations of repeated proofs are uniformly distributed, mutually unrelated between proofs, and independent of the witness values, and no commitment component repeats between proofs.",
["inputs","histories"],
"distribution over prover randomness for every revealed value of every circuit kind; comparison between different witnesses",
"Missing masks or reused randomness do not affect acceptance, the only thing tests look at.",
["buckler/encoder.go","buckler/prover.go","jindo/prover.go"],
M(("randomised witness encoding","buckler/encoder.go RandEncodeTo"),("sum-check and linear-check masks","buckler/prover.go sumCheckMask"),("opening masks","jindo/prover.go")))

p("C21","Instances are reusable and never disturb their inputs or each other",
"A compiled prover and verifier (and a commitment prover and verifier) can be used any number of times in any order, with different statements: every use behaves as if the instance were new, verification is deterministic and does not change the proof or the public inputs, and proving and opening change neither assignments, polynomials nor opening data passed in. What a caller does with its values after handing them over (coefficients, bounds, sums, factor lists, the reference string, copies of a constraint that are extended separately) does not change the circuit.",
["histories","inputs"],
"all sequences of prove/verify/commit/open calls with valid and invalid statements interleaved on shared instances; all values handed to the compiler and changed afterwards",
"Existing tests use each instance once or in one fixed sequence and do not look at the inputs afterwards.",
["buckler/prover.go","buckler/verifier.go","jindo/prover.go","jindo/verifier.go","math/bigpoly/base_op.go"],
M(("buffers and shared per-compilation state","buckler/context.go, buckler/linear.go, jindo/encoder.go")))

p("C22","Generated field arithmetic equals integer arithmetic modulo the prime",
"For every generated field, in the assembly and the portable build alike, every arithmetic, comparison, exponentiation, inversion, conversion and vector operation agrees with big-integer arithmetic modulo the field prime for all operands, also when operands alias; every encoding (bytes, integers, limbs, decimal text) round-trips to the same canonical element, and exponentiation works for every 64-bit exponent.",
["inputs","configurations"],
"all operand values with emphasis on carries and boundaries of limbs, all aliasing patterns, all generated fields, assembly and portable builds",
"Generated unit tests sample each operation one field at a time without cross-checking aliasing, limb export, interface methods added by this project, or the portable build.",
["buckler/internal/zp220/element.go","buckler/internal/zp110/element.go","buckler/internal/zp440/element.go","buckler/internal/zp880/element.go","jindo/internal/zp/element.go","examples/bfv/zp/element.go","examples/mult/zp/element.go","math/bignum/bignum.go"],
M(("Montgomery arithmetic","*/zp*/element*.go, *.s"),("New/Slice/Limb additions","*/zp*/element.go"),("square-and-multiply","math/bignum/bignum.go Exp")))

p("C23","Number-theoretic transforms equal polynomial evaluation, for every rank",
"For every supported power-of-two rank and field, the forward transforms produce the values of the polynomial at all roots of the cyclic (X^N-1) or negacyclic (X^N+1) modulus in one fixed bit-reversed order shared by encoder, evaluator and automorphism code, the inverse transforms undo them exactly, and both work in place and out of place without changing their input.",
["inputs","configurations"],
"all ranks from the smallest up, both transforms, all fields, all inputs, in-place and out-of-place",
"The transform code has no direct tests; end-to-end tests use one rank.",
["math/bigpoly/ntt.go","math/bigpoly/vec.go"],
M(("twiddle generation and butterflies","math/bigpoly/ntt.go"),("reference and unrolled paths","math/bigpoly/ntt.go nttInPlaceRef/nttInPlaceUnroll")))

p("C24","Polynomial ring operations match their mathematical definitions",
"For every rank and field, addition, subtraction, negation, scalar and ring multiplication (with accumulate forms), automorphisms in both representations, quotient and remainder by X^N-1, evaluation, modulus switching (correct rounding), copying and serialisation give the mathematically defined result with the right representation flag, also when output and input are the same object; operations on input operands of mismatched ranks or representations are refused.",
["inputs","configurations"],
"all ranks, fields, inputs, automorphism indices (negative and large included), aliasing patterns and representations",
"The polynomial package has no unit tests.",
["math/bigpoly/base_op.go","math/bigpoly/cyclic.go","math/bigpoly/cyclotomic.go","math/bigpoly/poly.go","math/bigpoly/vec.go"],
M(("vector kernels","math/bigpoly/vec.go"),("automorphisms and modulus switching","math/bigpoly/cyclotomic.go"),("vanishing division","math/bigpoly/cyclic.go")))

p("C25","No operation touches memory outside its operands",
"For every rank and vector length, power of two or not, small or large, no transform, vector operation, copy, sampler, commitment, proof or verification reads or writes memory outside the slices it was given or misuses unsafe pointers.",
["inputs","configurations"],
"all ranks and lengths reaching the unrolled unsafe kernels and assembly, including lengths below and not divisible by the unrolling width",
"Out-of-bounds accesses through unsafe pointers usually go unnoticed in an ordinary build, and tests use one large power-of-two rank.",
["math/bigpoly/vec.go","math/bigpoly/ntt.go","math/bigpoly/poly.go"],
M(("8-wide unsafe unrolling","math/bigpoly/*.go"),("limb export through unsafe","*/zp*/element.go Slice")))

p("C26","Linear maps and their transposes are consistent",
"For every built-in linear map (negacyclic transform, automorphism in either representation) and every vector pair, the inner product of the image of x with y equals that of x with the transposed image of y, the maps compute the transform they are named after, and neither changes its input.",
["inputs","configurations"],
"all ranks, fields, automorphism indices, both representations, all vectors",
"Only one transform at one rank is exercised, inside one end-to-end test.",
["buckler/linear.go","math/bigpoly/cyclotomic.go","math/bigpoly/ntt.go"],
M(("TransformTo/TransposeTo pairs","buckler/linear.go")))

p("C27","Seeded uniform sampling is deterministic, unbiased and in range",
"A uniform sampler is a function of its seed: equal seeds give equal outputs for equal call sequences whatever the previous contents of the caller's buffers, different seeds and unseeded instances (which draw at least 128 bits of system entropy) give unrelated streams that never repeat, bounded samples lie in range without bias, floating samples lie in [0,1), and bytes are uniform.",
["inputs","histories"],
"all seeds, call sequences mixing the sampling functions and buffer sizes, all bounds including powers of two, 1 and values near 2^64",
"The sampler package has no tests.",
["math/csprng/uniform.go"],
M(("AES-CTR stream and buffer refill","math/csprng/uniform.go"),("rejection sampling","math/csprng/uniform.go SampleN")))

p("C28","Gaussian samplers follow their target distribution",
"Every Gaussian sampler, for every centre and every supported standard deviation, returns samples whose distribution matches the rounded or discrete Gaussian with that centre and deviation up to statistically undetectable error: mean, variance, per-value probabilities near the centre, tails, and symmetry.",
["inputs"],
"all centres (integers, halves, values just below an integer, negative and large), standard deviations from the parameter sets and beyond; distribution over randomness",
"The sampler package has no tests; wrong distributions still give accepting proofs.",
["math/csprng/gaussian_rounded.go","math/csprng/gaussian_cosac.go","math/csprng/gaussian_twin_cdt.go"],
M(("ziggurat tables","math/csprng/gaussian_rounded.go"),("COSAC rejection","math/csprng/gaussian_cosac.go"),("twin CDT tables","math/csprng/gaussian_twin_cdt.go")))

p("C29","The modulus generator produces working, prover-friendly fields",
"For every requested bit length or range of bit lengths, the generator ends and either reports that no modulus exists, exactly when none exists within its documented limits, or writes a package for a prime base^exponent + 1 with a power-of-two exponent, of the requested bit length, with roots of unity of order at least 2^31; for an explicit base and exponent it writes a package for exactly that modulus if it is a prime of at least 32 bits. Every written package compiles, its arithmetic is correct, and the transforms, the commitment scheme and the proof system work with it (or parameter selection refuses explicitly); unusable requests are refused with a non-zero exit and without output.",
["inputs","configurations"],
"all bit lengths, ranges and base/exponent pairs; the generated package is compiled and run",
"The generator has no tests; only its earlier output is tested.",
["jindo-modulus/main.go","jindo/params.go"],
M(("modulus search","jindo-modulus/main.go findModulus"),("package generation","jindo-modulus/main.go main")))

p("C30","Malformed proofs are rejected and never crash the verifier",
"For every valid proof some part of which is missing, empty, nil, too short, too long, surplus or filled with arbitrary words (commitments, evaluations, mask sums, the evaluation proof and the polynomials inside them, one or several parts at once), verification returns false without crashing, and the verifier works on as before; the same holds for the openings of the commitment scheme.",
["inputs"],
"all parts of the proof structures x all ways to shorten, extend, empty, clear or overwrite them, and combinations of them",
"Existing tests verify well-formed proofs only.",
["buckler/verifier.go","jindo/verifier.go"],
M(("shape checks of the proof","buckler/verifier.go isWellFormed"),("shape checks of openings and commitments","jindo/verifier.go IsWellFormed")))
