"""The registered checks: build variants, evidence texts and manifest texts per property."""
PLAIN = [dict(variant="plain")]
STAT = "statistical tests with a false-positive probability of about 1e-9 each"
CHECKS = {}
def C(id, technique, rule, note, runs=PLAIN, assumptions=(), **kw):
    CHECKS[id] = dict(runs=runs, rule=rule, technique=technique, note=note, assumptions=list(assumptions), **kw)

C("C01", "runtime oracle: big.Int evaluation of every opened polynomial, acceptance by an independent verifier",
  "one evaluation per polynomial opened", "explores fields x sizes x batches x lengths x extreme coefficients; nothing is proved beyond the executions")
C("C02", "runtime monitoring of the verifier under false claims made by hostile provers (adaptive attacks use the recorded XOF)",
  "one evaluation per false claim shown to the verifier", "covers the listed strategies only; an unlisted attack may exist")
C("C03", "mutation workload: verifier decision observed on altered statements and proofs",
  "one evaluation per altered statement or proof shown to the verifier", "alterations inside the rounding slack of the lattice randomness are excluded (they are legal openings)")
C("C04", "runtime monitor: norms of every accepted opening recomputed over the integers, hostile oversized openings",
  "one evaluation per crafted opening whose norms were measured and compared with the verifier's decision", "crafted openings satisfy all linear equations; the measured norm decides")
C("C05", "statistical monitor over recorded openings (exact decoding, goodness of fit, reuse detection)",
  "one evaluation per commitment whose opening was decoded and whose noise was collected", "deviations below the detection limit of the sample sizes are invisible", assumptions=[STAT])
C("C06", "formula monitor over a parameter sweep plus end-to-end runs",
  "one evaluation per (field, size target, batch)", "security estimates are recomputed from the formulas of the code's documentation, not from first principles")
C("C07", "recorded-XOF trace monitor: sensitivity of every later block to every earlier component",
  "one evaluation per changed component: recorded XOF output compared block by block", "observes crypto/sha3 through a build overlay")
C("C28", "statistical monitor over recorded samples", "one evaluation per (sampler, centre, deviation); goodness-of-fit of the recorded samples",
  "deviations below the detection limit of the sample sizes are invisible", assumptions=[STAT])
C("C09", "runtime oracle: generated satisfiable circuits, checked by a big.Int evaluator, must verify under a separate compilation",
  "one evaluation per satisfiable statement proved and verified", "random and boundary circuits; two-norm bounds have at most as many bits as the vector has entries, approximate bounds at most rank/128 digits")
C("C10", "runtime monitoring of verifier decisions on false statements, with hostile provers built on hooks",
  "one evaluation per true or false statement proved and judged", "error patterns, predicted batch challenges and late quotients; other strategies are not tried")
C("C11", "runtime monitoring of verifier decisions on false statements, with hostile provers built on hooks",
  "one evaluation per true or false statement proved and judged", "error patterns over all checker kinds, predicted challenges, excessive remainders, late masks and quotients")
C("C12", "runtime monitoring of verifier decisions on false statements, with hostile provers built on hooks",
  "one evaluation per true or false statement proved and judged", "error patterns, wrong declared sums, predicted challenges, excessive remainders, late masks and quotients")
C("C13", "runtime monitoring of verifier decisions at and beyond the bounds, with provers whose digits are forged through hooks",
  "one evaluation per statement proved and judged", "digit layout is learned from honest runs; when it cannot be learned only honest digits are tried")
C("C14", "runtime monitoring of verifier decisions at and beyond the bounds, with provers whose digits are forged through hooks",
  "one evaluation per statement proved and judged", "bounds of at most as many bits as the vector has entries")
C("C15", "runtime monitoring of verifier decisions with forged digits and projections, statistics of observed projections",
  "one evaluation per statement proved and judged, or projection examined", "ranks 2048 and 4096 only (smaller ranks have no room for the digits); slack is not measured between B and 2NB", assumptions=[STAT])
C("C27", "runtime monitor: replayed call sequences, repetition detector and goodness-of-fit over recorded samples",
  "one evaluation per seed replayed, stream compared, or bound whose samples were tested", "biases below the detection limit of the sample sizes are invisible", assumptions=[STAT])
C("C22", "differential monitor against big.Int over boundary operands, in the assembly, reduced-assembly and portable builds",
  "one evaluation per operand pair, vector length or element encoded", "amd64 only: the arm64 assembly cannot run here; vectors have at least one element",
  runs=[dict(variant="plain"), dict(variant="purego"), dict(variant="noadx")])
C("C23", "runtime monitor: every transform compared with big.Int evaluation at the roots read off the transform of X",
  "one evaluation per vector transformed forward and back, or automorphism compared", "all power-of-two ranks up to 2^13 (quick) or 2^16; dense vectors above rank 128 are compared at sampled positions")
C("C24", "runtime monitor: every ring operation compared with its big.Int definition, with aliasing, operand and refusal monitors",
  "one evaluation per operation, representation and aliasing pattern", "all power-of-two ranks up to 2^11 (quick) or 2^13; the representation flag of an accumulator passed in is not examined")
C("C26", "runtime monitor: inner products of images and transposed images, definitions by big.Int",
  "one evaluation per map and vector pair", "all power-of-two ranks up to 2^11 (quick) or 2^13")
C("C25", "AddressSanitizer and checkptr builds, guard pages around vectors, nil and sentinel guards around polynomial coefficients",
  "one evaluation per operation on guarded operands, or operation of a borrowed workload run in a sanitizer build", "a violation is reported only by a sanitizer, a fault or a disturbed guard; amd64 only",
  runs=[dict(variant="plain"), dict(variant="asan"), dict(variant="checkptr")])
C("C08", "race detector over concurrent workloads with injected delays, result monitors against sequential results, repetition detector between copies",
  "one evaluation per concurrent run: its observed order of operations", "the race detector sees the executed schedules only; the evidence counts the overlapping operations",
  runs=[dict(variant="race", procs=4)])
C("C16", "runtime monitoring of verifier decisions on altered public inputs (also fitted to the recorded challenges), reference strings and circuits",
  "one evaluation per changed public input, reference string or circuit shown to the verifier", "other circuits are fixed in advance: a circuit chosen after the challenges is not bound by the scheme")
C("C17", "recorded Fiat-Shamir trace monitor: sensitivity of every later challenge to every earlier message",
  "one evaluation per changed message: recorded challenges compared one by one", "observes gnark-crypto's transcript through a build overlay")
C("C18", "mutation workload: verifier decision observed on altered, spliced and equation-preserving proofs",
  "one evaluation per altered proof shown to the verifier", "alterations inside the rounding slack of the lattice randomness are excluded (they are legal openings)")
C("C19", "runtime monitor of refusals: malformed circuits and assignments at every nesting position must be reported",
  "one evaluation per malformed circuit compiled or malformed assignment proved or verified", "vectors with nil elements are not tried")
C("C30", "runtime monitor of crashes and decisions on structurally malformed proofs",
  "one evaluation per malformed proof shown to the verifier", "a list of commitments or claimed values of the wrong length given to the commitment verifier directly is refused by a panic")
C("C20", "statistical monitor over repeated proofs under imposed challenges: goodness of fit, repetition and relation detectors on all revealed values",
  "one evaluation per proof whose revealed values were recorded", "deviations below the detection limit of the sample sizes are invisible; computational hiding of the commitments is the scheme's", assumptions=[STAT])
C("C21", "runtime monitor over random call histories: digests of all inputs and outputs, decisions compared with new instances",
  "one evaluation per history, or caller's value changed after use", "histories of up to 60 calls on instances used by one goroutine")
C("C29", "runtime monitor of the generator process (exit status, files, time) with an independent search as oracle; the generated packages are compiled into the harness and run under its oracles",
  "one evaluation per request to the generator, or workload run with a generated field", "bit lengths up to 600 (quick) or 1000, a range reaching 4000; a substitute for asmfmt, which is not installed, is put into the search path",
  script="c29")
