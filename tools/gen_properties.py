#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or [], "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

MC = "src/multicore.rs"
p("C01", "Submitted work runs exactly once and its own waiter gets the result",
  "Every closure handed to a worker runs exactly once, whatever the number of pool threads, the load and the thread schedule, and waiting on its handle returns exactly that closure's result and nothing submitted elsewhere. A scoped parallel section returns only after every task spawned in it has finished, always offers a chunk size of at least one element that does not exceed the work, and no combination of submitting, waiting and scoping from ordinary threads deadlocks. All of this holds for several caller threads sharing the process.",
  ["schedules", "configurations", "histories"],
  "all thread interleavings, pool sizes, submission histories of several caller threads, nested submissions and spurious wake-ups",
  "No test exercises the worker directly; the proving tests use whatever interleaving the OS picks on one machine with one pool size.",
  [MC], [("compute/scope dispatch", MC + ": Worker::compute, Worker::scope"), ("result channel", MC + ": Waiter")],
  [("pending counter", "submissions not yet finished", MC)], ["values returned by wait()", "per-task execution counts"])
p("C02", "The backlog of submitted work is bounded and recovers",
  "The number of submitted closures that have been accepted but not finished never exceeds four per pool thread plus a small constant (two) plus the callers currently blocked; beyond that a submission blocks its caller until its own closure has been executed. Below that limit a submission returns without waiting for other work. After the backlog drains, submissions become non-blocking again, however long the history and even if earlier closures failed by panicking.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "all interleavings of submitters and pool threads, pool sizes, stalled tasks, histories of bursts and failures",
  "No test submits more than a handful of tasks or stalls the pool, so neither the limit nor the recovery is ever reached.",
  [MC], [("spawn counter and threshold", MC + ": WORKER_SPAWN_COUNTER, WORKER_SPAWN_MAX_COUNT")],
  [("spawn counter", "outstanding submissions, process wide", MC)], ["outstanding submissions while tasks are stalled", "whether a submission returns while all earlier tasks are stalled"])
p("C03", "Abandoned results and failing computations never take the process down",
  "Dropping a result handle at any moment, before, while or after its computation runs, never aborts the process, never blocks, and never disturbs other computations. Waiting from inside the pool fails with a panic in the waiting task instead of deadlocking, and a closure that panics is reported to whoever waits for it rather than leaving them blocked forever or delivering a wrong value.",
  ["schedules", "fault_sequences", "crash_points"],
  "all points at which a handle is dropped or a closure fails relative to the pool's progress, all schedules",
  "Tests never drop a handle early or panic in a closure; whether the process survives depends on which thread gets there first.",
  [MC, "groth16/src/prover.rs"], [("one-shot channel per submission", MC + ": Worker::compute"), ("pool-thread guard in wait", MC + ": Waiter::wait")],
  None, ["process exit status", "progress of other computations"])
D = "src/domain.rs"
p("C04", "Parallel polynomial arithmetic equals its definition on any schedule",
  "For every vector length the field supports, every coefficient vector and every number of worker threads, the forward, inverse, coset and inverse-coset transforms, element-wise product and difference, powers distribution and division by the target polynomial produce exactly the values of their mathematical definitions over the padded power-of-two domain. The result is independent of how tasks interleave. Vectors beyond the field's largest supported domain are refused with the degree error, all smaller ones are accepted.",
  ["schedules", "configurations", "inputs"],
  "all interleavings of the parallel tasks, pool sizes below, at and above the domain size, all lengths including 0, 1 and non powers of two",
  "Existing tests compare serial with parallel transforms at a few power-of-two sizes under the machine's own thread count and schedule.",
  [D, MC], [("work splitting by chunks", D + ": parallel_fft, ifft, distribute_powers, mul_assign, sub_assign, divide_by_z_on_coset"), ("serial/parallel choice", D + ": best_fft")],
  None, ["coefficients after each operation"])
ME = "src/multiexp.rs"
p("C05", "Multi-exponentiation equals the sum of products on any schedule",
  "For every list of bases, exponents and selection of bases, of any length and on every pool size and interleaving, multi-exponentiation returns exactly the sum over the selected positions of base times exponent. Bases are consumed in order, one for each selected position, starting at the given offset; unselected positions consume none. The inputs handed in are left unchanged and may be shared by concurrent computations.",
  ["schedules", "configurations", "inputs"],
  "all interleavings, pool sizes, lengths (including 0, below and above the windowing threshold), densities and special exponents 0, 1, p-1",
  "The single test uses full density, 2^14 random exponents and the OS schedule.",
  [ME, MC], [("windowed bucket method", ME + ": multiexp_inner"), ("density-driven base consumption", ME + ": QueryDensity, Source::skip")],
  None, ["returned group element"])
p("C06", "Failures while reading bases surface as errors, never as results",
  "If a source of bases ends early, yields an identity element where a base is needed, or fails with an I/O error at any position and on any pass over the data, the multi-exponentiation returns an error of that kind; it never returns a value, never hangs, and never brings down other work. If no fault is hit by any pass, the value is returned. After a failed computation the same worker, sources and exponents can be used again with a correct result.",
  ["fault_sequences", "schedules", "inputs"],
  "all positions and kinds of source faults, transient and permanent, hit by any subset of the parallel passes, all schedules",
  "No test has a failing source; the passes run concurrently, so which failure is met first depends on the schedule.",
  [ME], [("Source error propagation", ME + ": Source::next, Source::skip, try_fold over parts")],
  None, ["Result of wait()"])
G = "groth16/src/generator.rs"
p("C07", "Parameter generation yields exactly the CRS of the circuit on any schedule",
  "For every circuit and toxic waste, parameter generation yields exactly the Groth16 reference string of that circuit: every element is the corresponding combination of the circuit's polynomials at the secret point, zero polynomials are omitted from the queries, and the verifying key carries one element per public input plus the constant. The result does not depend on pool size, interleaving or witness values, and assignment closures are never invoked. Circuits with an auxiliary variable that has no effect, and non-invertible gamma or delta, are refused with their documented errors.",
  ["schedules", "configurations", "inputs", "programs"],
  "all circuits, trapdoors, pool sizes and interleavings",
  "One fixed circuit is checked against hand-computed values; parallel splitting across pool sizes and circuit shapes is not varied.",
  [G, "groth16/src/lib.rs"], [("QAP evaluation in parallel chunks", G + ": eval, h query"), ("UnconstrainedVariable check", G)],
  None, ["every field of the returned parameters"])
PR = "groth16/src/prover.rs"
p("C08", "A proof is the exact function of its inputs and honest proofs verify",
  "For every circuit, satisfying assignment, matching parameters and pair of blinding values, proof creation returns exactly the Groth16 proof determined by them, on every pool size and thread schedule and for every conforming way of supplying the parameters. That proof is accepted by verification with the circuit's public inputs, alone and in a batch. The parameters are asked for exactly the query sizes the circuit induces.",
  ["schedules", "configurations", "inputs", "programs"],
  "all circuits, witnesses, blinding values, pool sizes and interleavings of the eight concurrent multi-exponentiations",
  "Two fixed circuits are proved under the OS schedule; only acceptance, not the exact proof, is checked for most of them.",
  [PR, "groth16/src/verifier.rs", ME, D], [("assignment evaluation and density tracking", PR + ": ProvingAssignment, eval"), ("concurrent multiexps and their assembly", PR + ": create_proof")],
  None, ["proof elements", "verification verdict"])
V = "groth16/src/verifier.rs"
p("C09", "Verification accepts exactly the proofs that satisfy the pairing equation",
  "Verification succeeds if and only if the number of public inputs matches the verifying key and the Groth16 pairing equation holds for exactly those inputs, that proof and that key. In particular a proof produced by a deviating prover from an assignment violating at least one constraint, a proof with any element altered, swapped, replaced by one from another proof or blinded with wrong public inputs, is rejected. A wrong number of inputs is reported as a malformed key, and never panics.",
  ["inputs", "fault_sequences", "programs"],
  "all proofs, keys and inputs, all ways a byzantine prover or corrupting channel can deviate",
  "Tests only ever verify honest proofs and one changed input on a fixed circuit.",
  [V, "groth16/src/lib.rs", PR], [("pairing check", V + ": verify_proof, prepare_verifying_key")],
  None, ["verdict of verify_proof"])
p("C10", "Proving over a failing parameter source returns that failure and recovers",
  "If the source of parameters fails at any request, runs out, yields an identity element or breaks mid-stream while a proof is being created, proof creation returns an error of that kind and never a proof, a hang, a panic or a dead process, on any schedule. A key whose delta element is the identity is always refused. Retrying with a healthy source in the same process gives the exact proof.",
  ["fault_sequences", "schedules", "crash_points"],
  "every request and position at which the source can fail, alone or combined, relative to the progress of the concurrent multi-exponentiations",
  "No test injects a failing source; whether an abandoned sibling computation kills the process depends on timing.",
  [PR, ME, MC, "groth16/src/lib.rs"], [("early return with computations in flight", PR + ": create_proof"), ("ParameterSource", "groth16/src/lib.rs")],
  None, ["Result of create_proof", "process exit status"])
p("C11", "A failing circuit synthesis is reported unchanged and leaves no damage",
  "If an assignment or a synthesis step of a circuit fails at any point, parameter generation, proving and every gadget return that very error (and generation, which needs no witness, is not affected by missing assignments); the error can be rendered as text, nothing panics and no wrong proof or parameters are produced. Namespaces entered before the failure are left again. The same circuit with its inputs restored then synthesizes, proves and verifies.",
  ["fault_sequences", "programs", "crash_points"],
  "every allocation at which a missing assignment or failure can occur in circuits built from any gadget",
  "Tests always provide complete witnesses; missing assignments and mid-synthesis failures are never injected.",
  ["src/lib.rs", "src/gadgets/boolean.rs", "src/gadgets/num.rs", "src/gadgets/uint32.rs", "src/gadgets/multipack.rs", "src/gadgets/lookup.rs", PR, G],
  [("AssignmentMissing propagation", "src/gadgets/*.rs: get_value / ok_or"), ("namespace guard", "src/lib.rs: Namespace::drop")],
  None, ["Result of synthesize/create_proof/generate_parameters", "namespace balance seen by the constraint system"])
L = "groth16/src/lib.rs"
IOQ = "all values, all splits of the stream into short reads and writes, interrupts, I/O errors, truncation points, bit flips and hostile encodings"
p("C12", "Proof encoding round-trips through any stream and rejects damage",
  "Writing a proof and reading it back through any reader or writer that delivers data in pieces, with interruptions, gives the same proof, consumes exactly the encoding's bytes and nothing after them. The encoding is the compressed points A, B, C one after the other. A stream that ends early, fails, or holds an invalid or identity element makes reading fail with an error of the matching kind; a failing writer makes writing fail. No input makes it panic, loop or use memory beyond a small bound.",
  ["fault_sequences", "inputs"], IOQ,
  "One round trip through an in-memory vector is all that is tested; no short or failing stream, no malformed encodings beyond a few fixed ones.",
  [L], [("Proof::read / Proof::write", L)], None, ["bytes written and consumed", "returned value or error"])
p("C13", "Verifying key encoding round-trips through any stream and rejects damage",
  "Writing a verifying key and reading it back through any piecewise, interrupted stream gives an equal key that verifies the same proofs, consuming exactly its own bytes (six uncompressed points, a 32-bit big-endian count and the input commitments). Truncation, I/O errors, invalid points and identity elements in the input commitments are reported as errors of the matching kind, on writing as on reading. Memory and work are bounded by the bytes actually supplied, whatever lengths the stream claims.",
  ["fault_sequences", "inputs"], IOQ,
  "Tests round-trip one key through a vector without any fault.",
  [L], [("VerifyingKey::read / write", L)], None, ["bytes written and consumed", "returned value or error", "peak memory"])
p("C14", "Parameters encoding round-trips through any stream and rejects damage",
  "Writing parameters and reading them back, checked or unchecked, through any piecewise, interrupted stream gives equal parameters that prove the same statements, consuming exactly their own bytes (the key, then five counted lists of uncompressed points). Truncation, I/O errors, identity elements and undecodable points are reported as errors of the matching kind, and checked reading refuses every encoding that is not a valid group element. Memory and work are bounded by the bytes actually supplied, whatever lengths the stream claims.",
  ["fault_sequences", "inputs"], IOQ,
  "Tests round-trip one parameter set through a vector without any fault.",
  [L], [("Parameters::read / write", L)], None, ["bytes written and consumed", "returned value or error", "peak memory"])
p("C15", "A deployment on unreliable disk and network never contradicts the truth",
  "In a deployment where an authority publishes parameters, provers load them from disk and send proofs, and verifiers load the key and check proofs, a verifier never accepts a message that is not a valid proof of its claimed public inputs and never rejects one that is, under message loss, duplication, delay, reordering and corruption and under torn or failing disk writes with restarts. A node never starts from stored parameters that differ from the published ones without an error unless the stored bytes are themselves a well-formed encoding. Once faults stop, every honest request is proved and accepted within bounded time.",
  ["fault_sequences", "crash_points", "histories", "schedules"],
  "all histories of faults on the messages, disks and nodes of the deployment, and all schedules of the provers' threads",
  "Tests run one prover and one verifier in one process with perfect in-memory transfer.",
  [L, PR, V, G, "groth16/src/verifier/batch.rs"], [("serialization, proving and verification end to end", "groth16/src")],
  None, ["verdict history against the set of true statements"])
B = "groth16/src/verifier/batch.rs"
p("C16", "Batch verification agrees with verifying every proof individually",
  "A batch is accepted if and only if each queued proof verifies individually with its inputs against the key (up to a probability negligible in the field size over the verifier's randomness), whatever the order, repetition and number of items, including none. Adversarial combinations whose errors would cancel are rejected, even when the random source returns zeros for a while. Wrong input counts in any item are reported as a malformed key, and cloning an item to verify it alone gives the single verdict.",
  ["inputs", "fault_sequences", "histories"],
  "all batches mixing valid and invalid proofs in any order, colluding byzantine provers, and random sources that return zeros for any finite number of draws",
  "Tests check one all-valid batch and one batch with a single bad proof.",
  [B], [("random linear combination with non-zero coefficients", B + ": Verifier::verify")],
  None, ["verdict of the batch against the single verdicts"])
p("C17", "Secrets come only from the caller's randomness and are drawn independently",
  "Randomised parameter generation and proving take all their randomness from the generator passed in, so the same stream gives the same result on every schedule and different streams give different trapdoors and blinding values, never anything from ambient sources. Every trapdoor and every blinding value is drawn anew and independently of the others, and each value used equals a field element obtained from fresh output of the stream. Failure of one operation never causes values to be reused by the next.",
  ["fault_sequences", "schedules", "inputs"],
  "all random streams, including degraded ones, all schedules, and sequences of operations on one stream",
  "Random streams are never recorded, replayed or degraded in tests; a reused or fixed blinding value is invisible to acceptance tests.",
  [PR, G], [("draws from the caller's RNG", PR + ": create_random_proof; " + G + ": generate_random_parameters")],
  None, ["recovered trapdoors and blinding values", "requests to the operating system's randomness"])
p("C18", "A circuit has one shape: setup, proving and testing see the same constraints",
  "Synthesizing any circuit made of the provided gadgets gives the same sequence of allocations and the same constraints, with the same coefficients, whether or not witness values are present and whatever they are. Therefore parameters generated without a witness match every later proof of the same circuit. This holds for every length and configuration of the gadgets.",
  ["programs", "inputs", "histories"],
  "all gadget compositions and pairs of witnesses (including absent ones)",
  "Tests synthesize each gadget with one constraint system and one witness; they never compare shapes between setup and proving.",
  ["src/gadgets/boolean.rs", "src/gadgets/num.rs", "src/gadgets/uint32.rs", "src/gadgets/lookup.rs", "src/gadgets/multieq.rs", "src/gadgets/sha256.rs", "src/gadgets/blake2s.rs", "src/gadgets/multipack.rs"],
  [("value-independent control flow of gadgets", "src/gadgets/*.rs")], None, ["recorded allocations and constraints per synthesis"])
SQ = "all inputs and all deviations of a byzantine prover from the honest witness: single and multiple altered variables, re-solved and spliced witnesses, non-canonical aliases"
SW = "Tests check selected inputs and at most flip a single output; a byzantine prover may change any set of witness values consistently."
def gad(id, title, statement, files, mech):
    p(id, title, statement, ["inputs", "fault_sequences", "programs"], SQ, SW, files, mech, None,
      ["constraint satisfaction and the values bound to the gadget's inputs and outputs"])
gad("C19", "Boolean gadgets compute their function and bind a byzantine prover to it",
    "For all inputs, in every combination of constants, variables and negations, the boolean gadgets (allocation, conditional allocation, and, and-not, nor, xor, choice, majority, equality enforcement, field and integer decompositions into bits) carry the value of their function and are satisfied by the honest witness. No assignment of a byzantine prover satisfies the constraints while an allocated bit is not 0 or 1, an output differs from the function of the inputs, or a strict decomposition differs from the canonical bits. Enforced equality of unequal values is never satisfiable.",
    ["src/gadgets/boolean.rs"], [("bit constraints", "src/gadgets/boolean.rs")])
gad("C20", "32-bit word gadgets compute word arithmetic and bind a byzantine prover to it",
    "For all 32-bit words, constant or variable in any mix, the word gadgets for rotation, shift, xor, choice, majority, bit import and export, and modular addition of two or more operands carry the exact 32-bit result and accept the honest witness. No assignment of a byzantine prover satisfies the constraints with any other result. Batched equality enforcement holds exactly when every equality enforced through it holds, no matter how many and how wide they are.",
    ["src/gadgets/uint32.rs", "src/gadgets/multieq.rs"], [("addmany carry decomposition", "src/gadgets/uint32.rs: addmany"), ("equality packing and flush", "src/gadgets/multieq.rs")])
gad("C21", "Field element gadgets compute their function and bind a byzantine prover to it",
    "For all field elements, the number gadgets (allocation, exposing as input, multiplication, squaring, conditional reversal, non-zero assertion, strict and loose bit decomposition, linear expressions) carry the value of their function and accept the honest witness, including the smallest and largest field elements. No assignment of a byzantine prover satisfies the constraints with another product, square, ordering, a zero passed as non-zero, or, for the strict decomposition, any bits but the canonical ones. Asserting a zero value to be non-zero reports division by zero.",
    ["src/gadgets/num.rs"], [("strict bit decomposition against the modulus", "src/gadgets/num.rs: to_bits_le_strict")])
gad("C22", "Lookup and packing gadgets select and pack exactly, against any prover",
    "For all tables, selector bits and bit strings, the table lookups return the selected coordinates (with the second negated exactly when the sign bit is set), and packing exposes exactly the public inputs that the verifier computes from the same bits, for every length including empty and exact capacity. No assignment of a byzantine prover satisfies the constraints with different looked-up values or different packed inputs.",
    ["src/gadgets/lookup.rs", "src/gadgets/multipack.rs"], [("window polynomials", "src/gadgets/lookup.rs"), ("chunked packing", "src/gadgets/multipack.rs")])
gad("C23", "The SHA-256 circuit computes SHA-256 and binds a byzantine prover to it",
    "For every message of whole bytes and of any length, with bits constant or variable in any mix, the SHA-256 gadget yields the SHA-256 digest and its constraints accept the honest witness; the compression step agrees with the standard for every block and chaining value. No assignment of a byzantine prover that leaves the message unchanged satisfies the constraints with another digest.",
    ["src/gadgets/sha256.rs", "src/gadgets/uint32.rs"], [("padding and compression", "src/gadgets/sha256.rs")])
gad("C24", "The BLAKE2s circuit computes BLAKE2s and binds a byzantine prover to it",
    "For every message of whole bytes and of any length, with bits constant or variable in any mix, and every 8-byte personalisation, the BLAKE2s gadget yields the 256-bit BLAKE2s digest and its constraints accept the honest witness. No assignment of a byzantine prover that leaves the message unchanged satisfies the constraints with another digest.",
    ["src/gadgets/blake2s.rs", "src/gadgets/uint32.rs"], [("compression and finalisation", "src/gadgets/blake2s.rs")])
p("C25", "The single-threaded build gives the same results as the parallel one",
  "With the multicore feature disabled, the library offers the same operations and, for the same inputs, faults and randomness, yields exactly the same parameters, proofs, transforms, multi-exponentiations, verdicts and errors as the parallel build under any schedule and pool size. No circuit or length that one build handles makes the other panic or hang.",
  ["configurations", "schedules", "inputs", "fault_sequences"],
  "all workloads, executed serially and under all parallel schedules and pool sizes",
  "The single-threaded build is only type-checked, never run, by the existing build and tests.",
  [MC, D, ME, G, PR], [("serial Worker, DummyScope and FakeParallelIterator", MC)], None, ["results of both builds side by side"])
p("C26", "Concurrent operations of independent callers do not affect each other",
  "When several threads of one process generate parameters, create proofs, verify and transform at the same time, each obtains exactly the result it would obtain alone, and all of them finish, on every schedule and pool size. This holds even while operations of other callers fail or are abandoned. Shared parameters and verifying keys are unchanged afterwards.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of several callers with mixed operations, some of them failing",
  "Tests run operations one after another; process-wide state in the worker is never shared by concurrent callers on purpose.",
  [MC, PR, G, V], [("process-wide pool and counter", MC), ("shared parameters", L)], None, ["result of each caller's operation against the solo result"])
T = "src/gadgets/test/mod.rs"
p("C27", "The testing constraint system judges satisfaction truthfully",
  "The constraint system provided for testing reports a system as satisfied exactly when every constraint holds under the current assignment, names the first violated constraint otherwise, and stays truthful after any sequence of overwriting variables. Reading back a named variable returns what was last assigned to it, the numbers of inputs, constraints and verification of the public inputs agree with what was synthesized, and name clashes and unknown names are reported. Its view of satisfaction agrees with what a real proof of the same circuit and assignment would verify to. Two systems have the same fingerprint exactly when they have the same shape, whatever their names and values.",
  ["histories", "inputs", "programs"],
  "all circuits and histories of synthesis, overwrites and queries",
  "It is the oracle of the other tests and has only one trivial test of its own.",
  [T], [("which_is_unsatisfied, set, get, verify", T)], None, ["which_is_unsatisfied against an independent evaluation"])
p("C28", "Multi-core batch verification agrees with verifying every proof individually",
  "The multi-core batch verifier (built with the multicore feature) accepts a batch if and only if each queued proof verifies individually, up to a negligible probability over the operating system's randomness: whatever the number and order of items, the pool size, the schedule and the number of concurrent callers, inside the pool or outside. Adversarial combinations whose errors would cancel within or across its internal groups are rejected, even when the operating system's randomness is interrupted, short or zero for a while, and wrong input counts are reported as a malformed key.",
  ["schedules", "inputs", "fault_sequences"],
  "all batches, colluding byzantine provers, schedules, pool sizes and failing randomness sources",
  "The function is compiled out of every build of the repository, so no test runs it.",
  [B], [("random linear combination per chunk, reduced over the pool", B + ": Verifier::verify_multicore")], None, ["verdict of the batch against the single verdicts"])
p("C29", "Finished, failed or abandoned operations leave nothing behind",
  "Once an operation has returned, whether it succeeded, failed, was abandoned or ended by a panic in code of the caller (circuit, source or closure), the background work it started ends within bounded time and everything handed to it is released exactly once: circuits, parameters, base sources, exponents, selections, closures and unclaimed results. Repeating operations, failing ones included, does not accumulate memory or pending work, and afterwards the pool accepts new work without blocking its caller.",
  ["schedules", "fault_sequences", "histories"],
  "all histories of concurrent operations with failing or panicking circuits, sources and closures and dropped handles, all points at which the caller gives up relative to the background work, all schedules and pool sizes",
  "Tests never look at what remains after an operation, and which task holds the last reference when a caller gives up depends on the schedule.",
  [MC, ME, PR, G, B], [("one-shot channels and owned closures", MC + ": Worker::compute, Waiter"), ("clones of sources, exponents and densities per pass", ME + ": multiexp_inner, multiexp"), ("work started before an error is returned", PR + ": create_proof")],
  [("outstanding submissions and their captures", "what background work still owns", MC + ", " + ME)], ["reference counts and drops of everything handed in", "heap level over repetitions", "whether later submissions block"])
NA = [
 ("N01", "Linear combinations obey the algebra of sums of scaled variables",
  "Adding, subtracting and scaling linear combinations gives a combination that evaluates to the same sum for every assignment.",
  "src/lib.rs", "LinearCombination Add/Sub impls"),
 ("N02", "Bit and packing helpers are exact for all inputs",
  "Converting bytes to bits in either bit order and packing bits into field elements outside a circuit is exact for every input length.",
  "src/gadgets/multipack.rs", "bytes_to_bits, bytes_to_bits_le, compute_multipacking"),
 ("N03", "Proving time does not depend on secret witness values",
  "Operations on secret values take time independent of those values.",
  "groth16/src/prover.rs", "vartime helpers used during proving"),
]
for i, t, s, f, m in NA:
    p(i, t, s, ["inputs"], "all inputs", "tests sample a few inputs", [f], [(m, f)])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
