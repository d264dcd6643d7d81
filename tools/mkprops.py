import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
p("C01","Honest Groth16 proofs always verify",
 "For every circuit whose parameters can be generated, every satisfying assignment yields a proof that the verifier accepts for exactly the public inputs of that assignment. This holds for every shape of circuit: no constraints, no auxiliary variables, empty, duplicated, zero-coefficient or mutually cancelling terms, any number of public inputs, and circuits assembled from the library's gadgets.",
 ["programs","inputs"],"all R1CS circuits (any linear combinations), all satisfying witnesses, all toxic-waste values for which generation succeeds, both curve back ends",
 "The tests prove two fixed circuits (XOR demo, MiMC) on one engine; circuit shape (density patterns, term cancellation, domain-size boundaries, zero-aux/zero-constraint) is never varied.",
 ["groth16/src/generator.rs","groth16/src/prover.rs","groth16/src/verifier.rs","src/multiexp.rs","src/domain.rs"],
 [("CRS queries and prover density maps must agree on which variables appear","groth16/src/generator.rs (a/b filtering) and groth16/src/prover.rs (eval, DensityTracker)"),("quotient polynomial over a coset","groth16/src/prover.rs"),("input-consistency constraints added identically in generator and prover","both")],
 ["create_proof/create_random_proof result","verify_proof result"])
p("C02","verify_proof accepts exactly when the pairing equation holds",
 "A proof is accepted for a list of public inputs if and only if e(A,B) = e(alpha,beta) * e(sum of public-input bases, gamma) * e(C,delta), whatever the group elements, inputs and key are. If the number of public inputs does not match the key, the verifier reports a bad verifying key instead of accepting or panicking.",
 ["inputs"],"all proofs (including altered, re-randomised and adversarial group elements), public-input vectors of any length and verifying keys",
 "Tests check one valid proof and a few invalid ones; acceptance is an equivalence over all group elements and input vectors, including zero inputs, identity points and malleated proofs.",
 ["groth16/src/verifier.rs","groth16/src/lib.rs"],[("prepare_verifying_key negates gamma and delta","groth16/src/verifier.rs"),("accumulation of public inputs","groth16/src/verifier.rs"),("length check","groth16/src/verifier.rs")],["verify_proof Ok/Err variant"])
p("C03","Parameter generation realises the Groth16 setup of the circuit's QAP",
 "For every circuit and trapdoor the generated parameters are exactly the Groth16 common reference string of the circuit's QAP for that trapdoor, with zero A/B polynomials omitted and everything else present in order. A variable that takes no part in any constraint, a non-invertible gamma or delta, and a circuit larger than the field's evaluation domains are reported as errors, never as a usable-looking CRS.",
 ["programs","inputs"],"all circuits x all trapdoors (tau, alpha, beta, gamma, delta, generators), including degenerate trapdoors and sizes at domain limits",
 "One circuit over one dummy field is compared with hand-computed values; no test varies the circuit, the order of allocation, duplicated terms, or the error conditions.",
 ["groth16/src/generator.rs","src/domain.rs"],[("KeypairAssembly transposes constraints","groth16/src/generator.rs"),("powers of tau -> Lagrange by inverse FFT","groth16/src/generator.rs"),("unconstrained check on L","groth16/src/generator.rs")],["Parameters fields vk,h,l,a,b_g1,b_g2","Err variant"])
p("C04","Proofs equal the Groth16 prover formula in (r, s)",
 "For every circuit, satisfying assignment and randomisers r and s, the proof consists of exactly the three group elements the Groth16 prover formula defines from the CRS, so it is deterministic in (circuit, CRS, assignment, r, s) and independent of how the CRS is supplied. Randomised proving draws fresh uniform randomisers for each proof, and a CRS source is asked for the exact number of elements the circuit needs.",
 ["programs","inputs"],"all circuits, assignments, (r,s) including zero, all ParameterSource implementations returning the right elements",
 "Tests recompute one proof for one circuit with one pair (r,s); nothing varies densities, zero randomisers or streaming parameter sources.",
 ["groth16/src/prover.rs","groth16/src/lib.rs","src/multiexp.rs"],[("density-filtered multiexponentiations","groth16/src/prover.rs"),("ParameterSource contract","groth16/src/lib.rs")],["Proof.a, Proof.b, Proof.c","arguments passed to ParameterSource methods"])
p("C05","Proving fails cleanly and never yields an accepted false proof",
 "When an assignment is missing, the circuit's synthesis fails, or the parameters do not belong to the circuit (too short, containing identity elements, or with identity delta), proof creation returns an error rather than panicking, hanging or aborting the process. A proof built from an assignment that violates a constraint is never accepted by the verifier.",
 ["inputs","fault_sequences","programs"],"all circuits x all single/multiple faults: missing witness at any allocation, synthesis error at any point, truncated/altered parameter vectors, any unsatisfying assignment",
 "No test proves with faulty witnesses or mismatched parameters; early-return paths interact with tasks already running on the thread pool.",
 ["groth16/src/prover.rs","src/multicore.rs","src/multiexp.rs"],[("AssignmentMissing propagation","groth16/src/prover.rs"),("base source end-of-data and identity errors","src/multiexp.rs"),("delta identity check","groth16/src/prover.rs")],["create_proof result","process exit status","verify_proof on the result"])
p("C06","Batch verification accepts exactly when every proof is valid",
 "A batch is accepted if every queued proof verifies individually under the key, and rejected (up to the negligible soundness error of the random weights) if any does not, for every batch size, order and key; an empty batch is accepted. A wrong public-input count in any item is reported as a bad verifying key, weights are never zero, and the multi-threaded variant decides the same.",
 ["inputs","histories"],"all batches (size, order, duplicates, sets of invalid proofs crafted to cancel), all RNG streams, all keys",
 "The one batch test queues valid proofs of one circuit (and one invalid); cancellation across items, chunk boundaries, zero random weights and the multi-threaded verifier are untested (the latter is not even compiled by the crate's own features).",
 ["groth16/src/verifier/batch.rs"],[("per-item random non-zero weight","groth16/src/verifier/batch.rs"),("chunked parallel accumulation","groth16/src/verifier/batch.rs verify_multicore")],["Verifier::verify result","Verifier::verify_multicore result","Item::verify_single result"])
p("C07","Proof, key and parameter encodings round-trip exactly",
 "Writing any proof, verifying key or parameter set and reading it back gives an equal value, consumes exactly the bytes written, and re-writing gives the same bytes, for every vector length, through any reader or writer that transfers data in arbitrary pieces. Both checked and unchecked parameter reading return the same value for honestly written data. The encoding is the established one: compressed points a, b, c for proofs; uncompressed points in field order, vectors preceded by a 32-bit big-endian length, for keys and parameters.",
 ["inputs","configurations"],"all proofs, keys, parameters (any vector lengths incl. empty and > 255/65535), all chunkings of the reader/writer, concatenated streams",
 "Round-trip is exercised by tests for one MiMC parameter set and one proof.",
 ["groth16/src/lib.rs"],[("fixed field order and big-endian length prefixes","groth16/src/lib.rs write/read")],["bytes written","value read","reader position"])
p("C08","Decoders reject malformed data with an error",
 "Reading a proof, key or parameters from any byte string either returns a well-formed value whose every element is a valid non-identity group element, or an I/O error (unchecked parameter reading waives only the curve and subgroup checks of the elements outside the verifying key); it never panics, never accepts a truncated, non-canonical, off-curve or wrong-subgroup element, and never allocates memory out of proportion to the input. Errors from the underlying reader or writer are reported, not swallowed.",
 ["inputs","fault_sequences"],"all byte strings, in particular every truncation and targeted corruption of valid encodings, hostile length fields, and I/O faults at every byte offset",
 "Tests only read back data they wrote; no invalid encoding, hostile length or failing reader/writer is ever presented.",
 ["groth16/src/lib.rs"],[("from_bytes / from_uncompressed checks and identity checks","groth16/src/lib.rs"),("incremental vector growth","groth16/src/lib.rs")],["read result","io::ErrorKind","peak allocation"])
p("C09","Results do not depend on parallelism",
 "Parameters, proofs, multi-exponentiations and polynomial-domain results are the same for every number of worker threads, with the multi-threading feature enabled or disabled, and when several operations run concurrently in one process.",
 ["schedules","configurations","programs"],"all thread counts, multicore feature on/off, all concurrent mixes of operations, all circuits",
 "Tests run with the machine's default thread count and only with multicore enabled; the single-threaded implementation is compiled by nobody's tests.",
 ["src/multicore.rs","src/domain.rs","src/multiexp.rs","groth16/src/generator.rs","groth16/src/prover.rs"],[("chunking by thread count","src/multicore.rs Worker::scope, src/domain.rs parallel_fft"),("serial stand-ins without multicore","src/multicore.rs")],["digests of Parameters, Proof, multiexp and FFT outputs across processes and builds"])
p("C10","Multi-exponentiation equals the naive sum",
 "For every list of exponents, density map, base list and starting offset, the result is the sum of each dense exponent times its corresponding base, with bases consumed in order by dense positions only. If the source runs out of bases or an identity base would be added, the operation reports an error instead of a wrong sum.",
 ["inputs"],"all exponent vectors (0, 1, p-1, sparse, any length through the window-size thresholds), densities, offsets, groups",
 "One test multiplies 2^14 random scalars with full density; partial densities, special exponents, other window sizes, offsets and error paths are not covered.",
 ["src/multiexp.rs"],[("bucketed windows with size ln(n)","src/multiexp.rs multiexp_inner"),("density-driven skip/next","src/multiexp.rs")],["Waiter result value or error"])
p("C11","Evaluation domains compute exact polynomial arithmetic",
 "For every coefficient vector within the field's limits, the forward, inverse and coset transforms equal direct evaluation and interpolation over the domain, the inverse transforms undo the forward ones, and pointwise multiplication, subtraction, scaling by powers and division by the vanishing polynomial agree with polynomial arithmetic, for scalars and for curve points. Vectors that do not fit the field's largest supported domain are refused.",
 ["inputs","configurations"],"all coefficient vectors and lengths (non powers of two included), several fields with different 2-adicity, thread counts",
 "Tests check FFT composition for random vectors over one field and thread count, and never compare with direct evaluation, coset division or the size limit.",
 ["src/domain.rs"],[("serial and parallel radix-2 FFT","src/domain.rs"),("coset shift by the multiplicative generator","src/domain.rs")],["EvaluationDomain coefficients after each operation"])
p("C12","Boolean gadgets compute their function and force it",
 "For every combination of constant, allocated and negated bits, each Boolean gadget's output equals its truth function, honest synthesis satisfies all constraints, and no assignment of the auxiliary variables that satisfies the constraints can make the output differ or an allocated bit be anything but 0 or 1. Enforced equalities are satisfiable exactly when the bits are equal, with contradictory constants refused.",
 ["inputs","programs"],"all gadgets x operand kinds x values x compositions; all (adversarial) assignments of allocated variables, exhaustively over small fields",
 "Tests enumerate single gadgets' honest values but only flip single outputs to look for forgeries, and never compose gadgets or search all assignments.",
 ["src/gadgets/boolean.rs"],[("one constraint per allocated bit or gate","src/gadgets/boolean.rs")],["constraint satisfaction, gadget value, returned Err"])
p("C13","Field-element gadgets compute their function and force it",
 "Multiplication, squaring, inversion-style non-zero check, conditional reversal, linear-combination tracking, exposure as public input, and bit decomposition compute the field function of their inputs and accept no other auxiliary assignment; strict bit decomposition accepts only the canonical representation below the modulus. The non-zero check is satisfiable exactly for non-zero values, and division by zero is reported.",
 ["inputs","programs"],"all field values over several moduli (every bit pattern of the modulus matters), operand aliasing, all adversarial assignments exhaustively over small fields",
 "Strict decomposition is tested for random values over one modulus with bit flips; aliasing (all encodings value+p), other moduli and adversarial witnesses are not searched.",
 ["src/gadgets/num.rs","src/gadgets/boolean.rs"],[("run-length comparison against the modulus","src/gadgets/num.rs to_bits_le_strict"),("unpacking constraint","src/gadgets/num.rs to_bits_le")],["constraint satisfaction and values"])
p("C14","32-bit word gadgets implement 32-bit word arithmetic",
 "For every mix of constant and allocated bits, 32-bit word gadgets (packing in either bit order, rotation, shift, xor, choice, majority, modular addition of several words) give the bits and the value that 32-bit arithmetic gives, and their constraints admit no other output bits for the same input bits.",
 ["inputs","programs"],"all operand words, bit kinds, operand counts, rotation amounts, compositions, and adversarial output assignments",
 "Tests use random words with one bit-kind pattern at a time and check forgery by single bit flips.",
 ["src/gadgets/uint32.rs","src/gadgets/multieq.rs"],[("carry bits and packed equality in addmany","src/gadgets/uint32.rs")],["UInt32 bits/value and constraint satisfaction"])
p("C15","The SHA-256 gadget computes SHA-256",
 "For every bit string whose length is a multiple of eight and every mix of constant and allocated (or negated) input bits, the gadget's output bits are the SHA-256 digest of the corresponding bytes and the constraints are satisfied; the compression function matches for every block and chaining value. Constant inputs need no constraints.",
 ["inputs"],"all messages of all lengths (padding boundaries), bit kinds, chaining values",
 "Tests use a handful of lengths with random data and all-allocated inputs.",
 ["src/gadgets/sha256.rs","src/gadgets/uint32.rs"],[("padding to 512-bit blocks","src/gadgets/sha256.rs sha256"),("compression function","src/gadgets/sha256.rs")],["digest bits and satisfaction"])
p("C16","The BLAKE2s gadget computes personalised BLAKE2s-256",
 "For every bit string whose length is a multiple of eight, every 8-byte personalisation and every mix of constant and allocated input bits, the gadget's output bits are the BLAKE2s-256 digest of the bytes under that personalisation and the constraints are satisfied.",
 ["inputs"],"all messages of all lengths (empty, block boundaries, > 64 KiB), personalisations, bit kinds",
 "Tests use a few lengths, one personalisation pattern and all-allocated inputs.",
 ["src/gadgets/blake2s.rs","src/gadgets/uint32.rs"],[("block counter and final flag","src/gadgets/blake2s.rs"),("mixing function","src/gadgets/blake2s.rs")],["digest bits and satisfaction"])
p("C17","Gadget outputs are uniquely determined by their inputs",
 "In every circuit built from the library's word, hash, lookup and comparison gadgets, once the circuit's input bits are fixed the constraints leave no freedom in the auxiliary variables: no second satisfying assignment exists with the same inputs, so a prover cannot choose another output.",
 ["inputs","programs"],"all gadget programs and input values; all alternative assignments of the internal variables",
 "Tests flip individual output bits; an under-constrained carry, selector or packed equality that needs several coordinated changes is not found.",
 ["src/gadgets/uint32.rs","src/gadgets/sha256.rs","src/gadgets/blake2s.rs","src/gadgets/multieq.rs","src/gadgets/boolean.rs","src/gadgets/lookup.rs","src/gadgets/num.rs"],[("every allocated variable is tied by a constraint","gadgets")],["recorded R1CS: determined-variable propagation and explicit alternative witnesses"])
p("C18","Lookup gadgets select the indexed table entry",
 "For every table of constants and every selector bits (constant, allocated or negated), the window lookups return coordinates equal to the selected entry, with the sign handled as specified for the signed variant, and the constraints admit no other result.",
 ["inputs"],"all tables (with repeats, zero and equal entries), all selector kinds and values, small and large fields",
 "Tests use random tables with freshly allocated selectors and check honest values only.",
 ["src/gadgets/lookup.rs","src/gadgets/num.rs"],[("coefficient synthesis over the selector bits","src/gadgets/lookup.rs synth")],["returned coordinates and satisfaction"])
p("C19","Bit packing is faithful and injective",
 "Packing any sequence of bits exposes, as public inputs, the same field elements that the off-circuit helper computes for those bits, in order, with the helper's bit expansions being the exact little- or big-endian bits of the bytes, and no more bits per element than the field can hold without wrap-around. The constraints force the public inputs to equal the packed bits.",
 ["inputs"],"all bit strings of all lengths (element boundaries), fields of different capacity, bit kinds",
 "One random test over one field; boundary lengths, constants/negated bits and injectivity are not covered.",
 ["src/gadgets/multipack.rs","src/gadgets/num.rs"],[("chunks of CAPACITY bits","src/gadgets/multipack.rs")],["public inputs, helper outputs, satisfaction"])
p("C20","Batched equality constraints enforce every equality",
 "A set of bounded-width equalities collected and packed together is satisfied exactly when each individual equality holds, for any sequence and widths, whether or not packing overflows the field's capacity, and every pending equality is enforced once the collector is dropped.",
 ["histories","inputs"],"all sequences of equalities (widths up to capacity, order, interleaved pass-through operations), satisfied and violated, several field capacities",
 "The collector is only exercised indirectly through hash gadgets with honest values.",
 ["src/gadgets/multieq.rs"],[("accumulate with shift, flush on overflow and on drop","src/gadgets/multieq.rs")],["constraint satisfaction, number of constraints after drop"])
p("C21","Circuit shape does not depend on the witness",
 "For every gadget and program of gadgets, the sequence of allocations, constraints and public inputs is the same whatever the private values are and also when no values are known (as during setup). Constants may change the shape; assigned values may not.",
 ["programs","inputs"],"all gadget programs x pairs of witnesses (including the absent witness)",
 "No test compares two syntheses of the same circuit; a shape that depends on a rare value would only surface as an invalid proof.",
 ["src/gadgets/boolean.rs","src/gadgets/num.rs","src/gadgets/uint32.rs","src/gadgets/sha256.rs","src/gadgets/blake2s.rs","src/gadgets/lookup.rs","src/gadgets/multieq.rs","src/gadgets/multipack.rs"],[("constants folded, values ignored when emitting constraints","gadgets")],["recorded sequence of alloc/alloc_input/enforce"])
p("C22","Linear combinations form the free module they denote",
 "Adding and subtracting variables, scaled variables, other combinations and scaled combinations yields a combination whose coefficient for every variable is the field sum of what was added, so evaluating it under any assignment gives the corresponding arithmetic result.",
 ["histories","inputs"],"all sequences of operator applications, coefficients and variables, including repeated variables and zero coefficients",
 "There is no direct test of the operators, in particular of repeated variables and scaled subtraction.",
 ["src/lib.rs"],[("operator implementations","src/lib.rs LinearCombination")],["terms of the combination (order, coefficients), evaluation"])
p("C23","The test constraint system judges circuits correctly",
 "For every history of allocations, constraints, namespaces and assignment changes, the test constraint system reports a circuit satisfied exactly when every recorded constraint holds, names the first violated one by its full path, returns and accepts values by path, counts constraints and inputs correctly, and verifies a public input list exactly when it equals the allocated inputs. Its structural hash is the same for equal circuits and different when a constraint, coefficient or count differs.",
 ["histories","inputs"],"all operation histories against a reference model; pairs of equal and minimally different circuits for the hash",
 "One small test of names and satisfaction exists; hash, pretty printing, path bookkeeping and verify are hardly covered though all gadget tests rely on them.",
 ["src/gadgets/test/mod.rs"],[("path computation and named objects","src/gadgets/test/mod.rs"),("proc_lc and hash_lc normal form","src/gadgets/test/mod.rs")],["is_satisfied, which_is_unsatisfied, get, set, get_input, verify, hash, num_constraints"])
p("C24","The worker delivers every result exactly once and never blocks forever",
 "Every computation handed to the worker runs exactly once and its handle yields its result, for any number of outstanding computations, any order of waiting and any thread count; discarding a handle never affects the process or other computations. Handing out a computation does not wait for it as long as only a few computations per thread are outstanding, also after an earlier backlog is over; while all threads are busy the number of computations waiting to start stays bounded. Scoped work always gets a positive chunk size and all scoped tasks finish before the call returns.",
 ["schedules","histories","configurations"],"all histories of submit/wait/discard/scope operations from one or more threads, all thread counts, multicore on and off",
 "No test calls the worker directly; backlogs, discarded handles and small or zero element counts only arise in special uses.",
 ["src/multicore.rs"],[("bounded channel per computation and spawn counter","src/multicore.rs")],["results from wait, completion counters, process survival"])
p("C25","Constraint-system adaptors are transparent",
 "Synthesising through namespaces, references, or the equality collector issues exactly the same allocations, constraints, values and errors to the underlying system as direct synthesis, with balanced namespace entry and exit even when synthesis inside fails, and the constant-one wire is always the first public input.",
 ["programs","fault_sequences"],"all circuit programs, all nestings of namespaces and adaptors, errors at any point",
 "Adaptors are used throughout but never compared with direct synthesis, and error paths through them are not exercised.",
 ["src/lib.rs","src/gadgets/multieq.rs"],[("Namespace, &mut CS and MultiEq forwarders","src/lib.rs, src/gadgets/multieq.rs")],["trace of calls on the root constraint system"])
p("C26","Proofs reveal nothing beyond the public inputs",
 "For fixed parameters and public inputs, any two witnesses yield identically distributed proofs: for every proof produced from one witness there are randomisers giving exactly that proof from the other witness, and the first two elements are individually uniformly distributed through the randomisers.",
 ["inputs","programs"],"all circuits with more than one witness for the same public inputs, all witness pairs and randomisers",
 "Zero-knowledge is a relation between pairs of runs; no test compares proofs from different witnesses.",
 ["groth16/src/prover.rs"],[("r and s blinding terms in A, B and C","groth16/src/prover.rs")],["proof elements as a function of (witness, r, s)"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
