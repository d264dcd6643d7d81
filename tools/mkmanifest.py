#!/usr/bin/env python3
# Writes MANIFEST.json.  CLAIMED lists the properties with a check.
import json
T="property-based testing"
C={}
def c(id,tech,note): C[id]=(tech,note)
COMMON=" Exploration: sound on what it generated, no claim beyond. Failures shrink to a replay file (list of generator choices)."
c("C01",T+": random R1CS circuits, end-to-end setup/prove/verify against an independent R1CS satisfaction oracle",
  "Circuits of up to 24 random constraints (padded to 300 rows), every LC spelling (cancelling, duplicate and zero terms), over a mock pairing engine on two 64-bit fields and over BLS12-381, in processes with 1..16 rayon threads. Trusts the mock engine and the bls12_381 crate."+COMMON)
c("C02",T+": verifier verdict compared with the pairing equation evaluated on discrete logs",
  "Forged and honest triples with known exponents, malleations, wrong input counts; the oracle is field arithmetic on exponents. Trusts the mock engine, field code and bls12_381."+COMMON)
c("C03",T+": CRS compared element by element with a naive QAP evaluated by direct interpolation",
  "The reference evaluates Lagrange polynomials by definition (no FFT); error classes are generated on purpose."+COMMON)
c("C04",T+": proof compared with the Groth16 formula computed on exponents; recording parameter source and RNG",
  "Reference prover works on exponents by polynomial long division. The ParameterSource stand-in checks the requested sizes."+COMMON)
c("C05",T+" with fault injection: missing assignments, failing synthesis and sources, truncated or corrupted parameters, unsatisfied witnesses",
  "Panics, process aborts, deadlocks and non-termination count as violations; abnormal ends are detected from a parent process."+COMMON)
c("C06",T+": batch verdict compared with single verification, adversarial cancelling batches, scripted randomness",
  "verify_multicore is compiled through a mirror manifest over the same source (the repository's own manifest has no such feature)."+COMMON)
c("C07",T+": round trips and field order against an independent encoder, fragmented readers and writers",
  "Mock encodings (with tags for subgroup and identity) and BLS12-381 encodings."+COMMON)
c("C08",T+": structured mutation fuzzing of encodings against an independent decoder, I/O fault injection, counting allocator",
  "Decoder oracle re-implemented on bytes; memory judged by a counting allocator."+COMMON)
c("C09",T+": differential replication of every case over processes with 1..16 threads and a build without multicore",
  "Compares digests of results per case over worker processes; schedules are whatever the machine produces."+COMMON)
c("C10",T+": multiexp compared with the naive sum in an exponent group and BLS12-381",
  "Bases, densities, exponents, lengths and source offsets generated; error precedence included."+COMMON)
c("C11",T+": evaluation domain compared with naive DFT and polynomial arithmetic",
  "Fields of 2-adicity 4, 6, 9 and 32 so that the domain-size limits are reachable."+COMMON)
c("C12",T+": random boolean gadget programs against plain boolean evaluation, exhaustive over allocated bits for small programs",
  "Records the constraint system and checks satisfaction with an independent evaluator."+COMMON)
c("C13",T+": random field gadget programs against field arithmetic, tiny fields for exhaustive inputs",COMMON.strip())
c("C14",T+": random uint32 programs against u32 arithmetic",COMMON.strip())
c("C15",T+": differential testing of the SHA-256 gadget against the sha2 crate",COMMON.strip())
c("C16",T+": differential testing of the BLAKE2s gadget against blake2s_simd",COMMON.strip())
c("C17",T+": generated gadget programs judged by a constraint-propagation solver and by generated alternative witnesses",
  "A unique output is shown by unit/linear propagation or exhaustive search in tiny fields; a counterexample is a second satisfying assignment with another output."+COMMON)
c("C18",T+": lookup gadgets against table indexing, all positions",COMMON.strip())
c("C19",T+": multipack packing against an independent bit packer",COMMON.strip())
c("C20",T+": MultiEq against big-integer comparison, with satisfying and violating assignments",COMMON.strip())
c("C21",T+": differential recording of constraint systems over witness values and with missing witnesses",COMMON.strip())
c("C22",T+": random linear-combination expressions against a coefficient map",COMMON.strip())
c("C23",T+": stateful model-based testing of TestConstraintSystem against an independent model",COMMON.strip())
c("C24",T+": stateful testing of Worker and Waiter over schedules and pool sizes",COMMON.strip())
c("C25",T+": differential synthesis through the adaptors against direct synthesis",COMMON.strip())
c("C26",T+": metamorphic test, two witnesses of one statement related by an explicit randomiser bijection",
  "The proof for witness 1 with (r,s) must equal the proof for witness 2 with the predicted (r',s'), which is what perfect zero knowledge of Groth16 amounts to here."+COMMON)
CLAIMED=open("tools/claimed").read().split()
ids=[json.loads(l)["id"] for l in open("properties.jsonl")]
m=dict(version=1,setup_cmd="./check.sh build "+" ".join(CLAIMED),
 checks=[dict(property=i,quick_cmd="./check.sh "+i,thorough_cmd="VERIF_TIER=thorough ./check.sh "+i,evidence_file=f"evidence/{i}.json",technique=C[i][0],level="exploration",level_note=C[i][1]) for i in CLAIMED],
 not_applicable=[dict(property=i,reason="check not built yet") for i in ids if i not in CLAIMED],
 notes="No hooks: the checks use the public interface only. See DESIGN.md.")
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
