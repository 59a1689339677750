"""Writes properties.jsonl and MANIFEST.json from one table (python3 tools/properties.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH, KR, CO, CI = ("PyQCodes/chan/channel.py", "PyQCodes/chan/_kraus.py",
                  "PyQCodes/chan/_coherent.py", "PyQCodes/chan/_choi.py")
PA, OP = "PyQCodes/chan/param.py", "PyQCodes/_optimize.py"
CD, FI, DE = "PyQCodes/codes.py", "PyQCodes/find_codes.py", "PyQCodes/device_adaptor.py"
AV = "PyQCodes/avgfid/avg_fidelity.py"

P = []


def prop(pid, title, statement, over, text, why, mech, observe, level="exploration", note=""):
    files = []
    for _, where in mech:
        f = where.split(":")[0]
        if f not in files:
            files.append(f)
    P.append(({"id": pid, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
               "anchors": {"files": files,
                           "mechanism": [{"name": a, "where": b} for a, b in mech],
                           "observe_at": observe, "hook_needed": None}}, note))


I, H, C, S, PR = "inputs", "histories", "configurations", "schedules", "programs"

prop("C01", "Channel evaluation is the Kraus sum on n uses",
     "For every quantum channel given by Kraus operators, dense or sparse, and every n, evaluating "
     "the channel on an n-particle density matrix gives sum_i K_i rho K_i^dagger over the Kraus "
     "operators of the n-fold tensor power, and the result is again a density matrix. A stack of "
     "matrices gives the stack of the single results. A channel given by its Choi matrix (one use) "
     "gives the same results as its Kraus operators.",
     [I, C], "all channels (any dimensions, number of particles and of Kraus operators), n, states "
     "of every rank, dense / sparse / stacked evaluation",
     "Tests evaluate a handful of qubit channels (dephrasure, amplitude damping, Pauli) at n <= 3; "
     "errors specific to non-square, multi-particle, complex or sparse operators never show.",
     [("channel evaluation", KR + ":DenseKraus.channel / SparseKraus.channel"),
      ("tensoring of Kraus operators", KR + ":update_kraus_operators"),
      ("entry point", CH + ":AnalyticQChan.channel")], ["AnalyticQChan.channel"],
     note="random channels against numpy Kraus sums")
prop("C02", "Answers for n uses do not depend on earlier queries",
     "Whatever was asked from a channel before (any queries with any number of uses, going up or "
     "down), every query for n uses answers for exactly n uses of the channel originally given. "
     "This holds for the channel, its adjoint, its complementary channel, coherent information, "
     "fidelity, Kraus operators and dimensions.",
     [H, I], "all sequences of queries with arbitrary n on one object",
     "Tests use n in increasing order or one n per object; a stale cache after lowering n needs a "
     "particular order of calls.",
     [("cached n-fold operators", KR + ":update_kraus_operators"),
      ("update on query", CH + ":_update_channel_tensored")],
     ["AnalyticQChan query results"], note="stateful histories against a stateless reference")
prop("C03", "Complementary channel gives the environment's state",
     "The complementary channel on n uses returns the matrix W_ij = tr(K_i rho K_j^dagger) of the "
     "n-fold Kraus operators, a density matrix. If the user declares groups of mutually orthogonal "
     "Kraus operators, the blocks returned together have the same spectrum, for every split and n.",
     [I, C], "all channels, n, states, and all valid declarations of orthogonal groups",
     "Tests compare two channels with one split of equal sizes at small n.",
     [("dense exchange matrix", KR + ":DenseKraus.entropy_exchange"),
      ("sparse exchange matrix", KR + ":SparseKraus.entropy_exchange")],
     ["AnalyticQChan.entropy_exchange"], note="random channels against the W matrix")
prop("C04", "Adjoints are the Heisenberg duals",
     "For all matrices X and Y, <Y, N(X)> = <N*(Y), X> for the channel and for the complementary "
     "channel on n uses, dense, sparse or from a Choi matrix. Adjoints map identity to identity.",
     [I, C], "all channels, representations, n, arbitrary complex matrices",
     "Tests check the adjoint on a few hermitian matrices, where a missing conjugate is invisible.",
     [("adjoint flag", CH + ":channel / entropy_exchange"),
      ("adjoint of the exchange", KR + ":entropy_exchange"),
      ("adjoint of Choi channels", CI + ":ChoiQutip.channel")],
     ["channel(..., adjoint=True)", "entropy_exchange(..., adjoint=True)"],
     note="duality relation over random X, Y")
prop("C05", "Serial concatenation is composition",
     "Adding two channels A + B gives the channel that applies B first and then A, whatever their "
     "dimensions, particle structure and dense or sparse representation, for any n, and its number "
     "of particles and dimensions are those of B's input and A's output. Channels whose dimensions "
     "do not match are rejected with a TypeError.",
     [I, C], "all pairs and triples of channels, all mixtures of representations",
     "Tests add channels of equal square dimension, where the wrong order or wrong dimensions "
     "cannot be told apart.",
     [("composition", CH + ":AnalyticQChan.__add__"),
      ("products of Kraus operators", KR + ":serial_concatenate")],
     ["(A + B).channel", "numb_qubits, dim_in, dim_out of A + B"],
     note="random pairs against composed maps")
prop("C06", "Parallel concatenation is the tensor product",
     "Multiplying two channels A * B gives the channel that acts as A on the first and as B on the "
     "second subsystem, also on correlated states, for dense and sparse operators and any n, with "
     "the particle numbers added.",
     [I, C], "all pairs of channels of equal one-particle dimensions, correlated states",
     "Tests use single-particle channels and product states.",
     [("tensor product", CH + ":AnalyticQChan.__mul__"),
      ("Kronecker products", KR + ":parallel_concatenate")], ["(A * B).channel"],
     note="random pairs against tensor products")
prop("C07", "Results depend on the map, not on its representation",
     "Two descriptions of the same channel (dense or sparse, list or array, Kraus operators "
     "reordered, rephased, mixed by an isometry or padded with zeros, Choi matrix) give the same "
     "channel, adjoint, environment spectrum, coherent information and fidelity.",
     [I, C], "all channels and all Kraus representations of each",
     "Tests compare dense to sparse for a few channels only.",
     [("dense", KR + ":DenseKraus"), ("sparse", KR + ":SparseKraus"), ("Choi", CI + ":ChoiQutip")],
     ["AnalyticQChan query results"], note="metamorphic relation between representations")
prop("C08", "Choi matrix and Kraus operators describe the same channel",
     "A channel built from a Choi matrix acts like the Kraus operators the matrix was made from, "
     "also when input and output differ in dimension or have several particles, and the Kraus "
     "operators recovered from it are trace preserving and give the same map. Coherent information "
     "and entanglement fidelity of ensembles agree, and the trace constraint used for optimisation "
     "selects the output system.",
     [I], "all Choi matrices of any rank and shape",
     "Tests convert a few square qubit channels.",
     [("Choi representation", CI + ":ChoiQutip"), ("Choi in channels", CH + ":AnalyticQChan")],
     ["AnalyticQChan(choi)", "Kraus operators of a Choi matrix"],
     note="round trips and differential against Kraus")
prop("C09", "Exactly the valid channel descriptions are accepted",
     "A set of Kraus operators or a Choi matrix is accepted if and only if it is a trace-preserving "
     "(and completely positive) map of the declared dimensions; everything else is rejected with an "
     "exception. Trivially different correct descriptions (array, list, real, sparse) are accepted.",
     [I], "all valid descriptions and all perturbations of one",
     "Tests try a few invalid inputs.",
     [("Kraus validation", KR + ":__init__ / is_trace_perserving"),
      ("Choi validation", CI + ":ChoiQutip.__init__"),
      ("dispatch", CH + ":AnalyticQChan.__init__")], ["construction succeeds or raises"],
     note="valid and minimally perturbed descriptions")
prop("C10", "Coherent information is S(output) - S(environment)",
     "The coherent information of n uses at a state is the von Neumann entropy (base 2) of the "
     "output minus that of the environment, divided by n when regularized, for states of every "
     "rank and every representation. It obeys |I_c| <= S(rho), additivity on products and the data "
     "processing inequality, and the entropy of a stack or list of blocks is that of the block "
     "matrix.",
     [I, C], "all channels, n, states, representations, block structures",
     "Tests check closed forms for erasure, dephasing and amplitude damping at one or two states.",
     [("coherent information", CH + ":coherent_information"), ("entropy", CH + ":entropy"),
      ("environment", KR + ":entropy_exchange")],
     ["AnalyticQChan.coherent_information", "AnalyticQChan.entropy"],
     note="against entropies computed from the Kraus operators")
prop("C11", "Fidelities follow their definitions",
     "The fidelity between a state and the channel's output is ||sqrt(rho) sqrt(N(rho))||_1, in "
     "[0,1], also for pure and singular states and n uses. The average entanglement fidelity of an "
     "ensemble is sum_j p_j sum_i |tr(K_i rho_j)|^2.",
     [I, C], "all channels with equal input and output, n, states of every rank, ensembles",
     "Tests check a few full-rank states.",
     [("fidelity", CH + ":fidelity_two_states"),
      ("entanglement fidelity", CI + ":average_entanglement_fidelity"),
      ("entanglement fidelity of Kraus operators", KR + ":average_entanglement_fidelity")],
     ["fidelity_two_states", "average_entanglement_fidelity"],
     note="against the trace-norm formula; Kraus entanglement fidelity is a known finding")
prop("C12", "Parameterisations cover the density matrices of given rank",
     "Every real vector of the announced length within the bounds is turned into a density matrix "
     "of at most the given rank, and every density matrix of that rank is recovered from the vector "
     "made from it. Bounds and random vectors have the announced length, and random vectors the "
     "documented distribution.",
     [I], "all sizes, ranks, vectors and density matrices",
     "Tests use a few small full-rank matrices.",
     [("over-parameterisation", PA + ":OverParam"), ("Cholesky", PA + ":CholeskyParam")],
     ["rho_from_vec", "vec_from_rho", "bounds", "random_vectors"],
     note="round trips over all sizes and ranks")
prop("C13", "Optimisers return the best state found and its true value",
     "Optimising coherent information or minimum fidelity returns a density matrix of the rank "
     "asked for and the objective's value at that matrix; the value is the best over all starting "
     "points, in whatever order and with or without worker processes, and reaches known optima. "
     "All options (parameterisation, user samples, Lipschitz samples, pool, iterations) are "
     "honoured. Unknown names "
     "of optimisers, parameterisations and objectives raise TypeError.",
     [I, C, S], "all channels, options, starting points and orders",
     "Tests optimise four channels with default options and compare the value only.",
     [("optimisation", OP + ":optimize_procedure"),
      ("objectives", CH + ":optimize_coherent / optimize_fidelity")],
     ["optimize_coherent", "optimize_fidelity"],
     note="self-consistency, differential over starts, known optima; optimiser quality by tolerance")
prop("C14", "Lipschitz sampler keeps exactly the admissible candidates",
     "When looking for starting points, the first candidate is kept and a later one exactly if the "
     "Lipschitz upper bound from the candidates kept so far does not rule out an improvement, until "
     "the number asked for is reached; returned samples and values belong together.",
     [H, I], "all sequences of candidates and objectives",
     "Tests never look at the candidates rejected.",
     [("sampler", OP + ":_lipschitz / lipschitz_uniform_initializer")],
     ["initial samples of the optimiser"], note="reference model over recorded candidate histories")
prop("C15", "Exactly the stabilizer codes are accepted",
     "A list of generators is accepted as an [n,k] code if and only if there are n-k of them, each "
     "on n qubits, and they commute pairwise; strings, arrays and nested lists are equivalent, and "
     "an accepted code reports the generators given.",
     [I], "all sets of Pauli generators, valid and invalid, in all forms",
     "Tests try three invalid codes.",
     [("validation", CD + ":StabilizerCode.__init__ / _is_stabilizer_code")],
     ["construction succeeds or raises", "stab_bin_rep", "pauli_stab"],
     note="valid codes and minimal perturbations")
prop("C16", "Pauli strings, binary vectors and matrices agree",
     "Converting Pauli strings to binary vectors and back is the identity, the matrix of a vector is "
     "the tensor product of its letters (with Y as XZ) dense or sparse, and the symplectic product "
     "of two vectors is zero exactly if their matrices commute. Unknown symbols and "
     "vectors that are not binary are rejected.",
     [I], "all Pauli strings of any length",
     "Tests convert a few strings.",
     [("conversions", CD + ":pauli_str_to_binary_representation / binary_rep_to_pauli_str / "
       "binary_rep_to_pauli_mat"), ("symplectic product", CD + ":inner_prod")],
     ["conversion functions", "inner_prod"], note="round trips and commutation")
prop("C17", "Standard form generates the same code",
     "The standard form of the generators has the block structure [I A1 A2 | B C1 C2; 0 0 0 | D I E] "
     "with the rank of the X part over GF(2), and generates the same stabilizer group up to one "
     "relabelling of the qubits, for every code. The generators given are left unchanged.",
     [I], "all stabilizer codes",
     "Tests compare the standard form of five textbook codes.",
     [("elimination", CD + ":_standard_normal_form / _gaussian_elimination_first_block / "
       "_gaussian_elimination_second_block")], ["normal_form", "rank"],
     note="group equality over random codes")
prop("C18", "Logical operators form k logical qubits",
     "Every code has k logical X and k logical Z operators that commute with the standard-form "
     "generators, are independent of them, and anticommute with each other exactly for equal index "
     "and different letter.",
     [I], "all stabilizer codes",
     "Tests compare logical operators of a few textbook codes.",
     [("logical operators", CD + ":logical_operators / _matrix_blocks_standard_form")],
     ["logical_x", "logical_z"], note="symplectic relations over random codes")
prop("C19", "Encoding operator is an isometry onto the code space",
     "The encoding operator of a code is a 2^n by 2^k isometry whose range is the joint +1 "
     "eigenspace of the generators, dense and sparse alike (for generators with an even number of "
     "Y, which the library represents as XZ).",
     [I, C], "all stabilizer codes whose generators are real matrices",
     "Tests look at a handful of codes.",
     [("joint eigenspace", CD + ":encode_krauss_operators")], ["encode_krauss_operators"],
     note="projector equality; odd-Y generators are a known finding")
prop("C20", "Encoding circuit maps basis states to code words",
     "On a simulator the encoding circuit takes the 2^k basis states to orthonormal states in the "
     "joint +1 eigenspace of the standard-form generators, on which the logical Z and X operators "
     "act as Z and X on the encoded bits, and it acts linearly on superpositions.",
     [PR, I], "all codes (real generators) and all logical basis states",
     "Tests run the circuit for a few textbook codes.",
     [("encoding circuit", CD + ":encoding_circuit")], ["simulator state after the circuit"],
     note="state-vector simulation; other qubit order is a known finding")
prop("C21", "Decoding undoes encoding",
     "Decoding an encoded state, also after stabilizers and logical operators were applied to it, "
     "returns the k logical qubits in the state encoded, acted on by the same logical Paulis, and "
     "leaves the code block in the encoded zero state, with ancilla qubits supplied or allocated.",
     [H, I, C], "all codes, superpositions, sequences of logical operations, options",
     "Tests decode basis states of four codes.",
     [("decoding circuit", CD + ":decoding_circuit")], ["simulator state after decoding"],
     note="state-vector simulation")
prop("C22", "Syndrome measurements report and project correctly",
     "Measuring a stabilizer returns 0 or 1 with the state projected accordingly, on a code word "
     "with a Pauli error exactly the symplectic product of error and stabilizer, and leaves the "
     "ancilla ready for the next measurement. Registers of another size are rejected.",
     [H, I], "all codes, errors and sequences of errors and measurements",
     "Tests measure single errors on single registers.",
     [("syndrome circuit", CD + ":single_syndrome_measurement")],
     ["measurement results", "simulator state"], note="state-vector model over histories")
prop("C23", "Pauli and logical circuits apply the operators named",
     "Applying a stabilizer circuit or a logical X, Y or Z circuit acts on any state as the tensor "
     "product of Paulis named, up to a global phase, for strings, arrays and user-supplied logical "
     "operators. Unknown names and indices are rejected.",
     [H, I], "all Paulis, codes, states and sequences",
     "Tests apply a few operators to basis states.",
     [("Pauli circuit", CD + ":apply_stabilizer_circuit"), ("logical circuit",
                                                            CD + ":logical_circuit")],
     ["simulator state"], note="state-vector simulation")
prop("C24", "Concatenated code consists of blocks and encoded generators",
     "Concatenating an [n,k] code with an [m,l] code, l dividing n, gives the [nm/l, k] code "
     "generated by the second code's generators on every block and the first code's generators with "
     "each X and Z replaced by the logical operators of the block's qubit. If l does not divide n a "
     "ValueError is raised, and the codes concatenated stay unchanged.",
     [I], "all pairs of codes, own and user-supplied logical operators",
     "Tests concatenate three fixed pairs.",
     [("concatenation", CD + ":concatenate_codes")], ["generators of the result"],
     note="independent construction; a second code whose standard form exchanges qubits is a known "
     "finding")
prop("C25", "Detected errors are merged with a stabilizer that detects them",
     "For every Pauli error, of any coefficient, dense or sparse, the error is returned itself if it "
     "commutes with all generators, and otherwise multiplied by a generator it anticommutes with; "
     "there is one operator per error, in order.",
     [I, C], "all codes and Pauli errors with any coefficient",
     "Tests check one code with three errors.",
     [("merging", CD + ":kraus_operators_correcting_errors")], ["operators returned"],
     note="symplectic oracle")
prop("C26", "Effective channel is noise after encoding",
     "The effective channel of a code under Pauli noise optimises the coherent information of the "
     "encoder followed by n/k uses of the noise: the value reported is that information at the "
     "reported logical state, not worse than at any start handed over, with all options honoured "
     "and dense and sparse input alike. Invalid arguments raise TypeError.",
     [I, C], "all codes with k dividing n, Pauli channels, options",
     "Tests look at repetition codes under depolarising noise.",
     [("effective channel", FI + ":effective_channel_with_stabilizers"),
      ("merging", CD + ":kraus_operators_correcting_errors")],
     ["effective_channel_with_stabilizers"],
     note="value recomputed independently; optimize='fidelity' is a known finding")
prop("C27", "Two-design circuits are inverted exactly and are random enough",
     "Undoing a random two-design circuit with the phases it returned restores any state exactly, "
     "for every register size and epsilon, and the circuits drawn have second moments (and frame potentials) as near to "
     "the Haar values as the documented circuit of that epsilon. Resetting the register gives the "
     "all-zero state.",
     [H, I, S], "all random draws, register sizes, epsilons, initial states",
     "Tests undo one circuit on one state and never look at the distribution.",
     [("two-design", DE + ":approximate_unitary_two_design"),
      ("inverse", DE + ":inverse_of_unitary_two_design"), ("reset", DE + ":set_register_to_zero")],
     ["simulator state", "second moments over draws"],
     note="exact inverse; moments by 6-sigma statistics against the exact average")
prop("C28", "Estimated average fidelity is that of the circuit",
     "The estimate is the fraction of trials that return to the all-zero state after two-design, "
     "channel and inverse, over exactly the number of trials asked for, and its expectation is the "
     "average fidelity of the channel; for a code, encoder, channel and decoder run in this order. "
     "The optimiser gives encoder and decoder their own parameters within the bounds and returns "
     "the parameters of the largest fidelity found.",
     [PR, H, S], "all circuits, registers, numbers of trials, parameters and bounds",
     "Tests estimate the identity and the bit flip channel.",
     [("estimator", DE + ":estimate_average_fidelity"),
      ("error code", FI + ":estimate_average_fidelity_error_code"),
      ("optimisation", FI + ":optimize_encoder_decoder_average_fidelity")],
     ["estimates", "calls of the circuits"],
     note="binomial test against recorded states (6 sigma)")
prop("C29", "Optimal recovery is a channel of maximal fidelity",
     "Optimising the decoder of a code under a channel returns a completely positive, trace "
     "preserving recovery whose entanglement fidelity is the value reported, and no recovery has a "
     "larger one, up to the tolerances set. Dense and sparse input and all forms of generators "
     "agree.",
     [I, C], "all small codes and channels on k qubits",
     "Tests look at the noiseless five-qubit code only.",
     [("semi-definite program", AV + ":_optimize_average_entang_fid"),
      ("code and channel", AV + ":optimize_decoder_stabilizers"),
      ("trace constraint", CI + ":constraint_partial_trace")], ["optimize_decoder_stabilizers"],
     note="lower bound by fixed-point iteration, upper bound by weak duality; 2-3 qubits")
prop("C30", "Undetectable errors are exactly N(S) - S",
     "The normalizer lists every Pauli that commutes with all generators and is not a product of "
     "generators exactly once and nothing else, and the undetectable errors are the same Paulis as "
     "strings.",
     [I], "all stabilizer codes",
     "No test calls these functions on a code.",
     [("normalizer", CD + ":normalizer"), ("strings", CD + ":undetectable_errors")],
     ["normalizer", "undetectable_errors"], note="linear-algebra construction, n <= 5")
prop("C31", "Objects and arguments stay independent",
     "No call changes its arguments, channels composed from others and the originals do not "
     "influence each other whatever is asked from them afterwards, and overwriting arrays handed "
     "over or returned by earlier evaluations does not change later answers. The same seed gives the same "
     "optimum.",
     [H, I], "all histories of queries, compositions and overwriting over a pool of channels; codes "
     "and optimisers with their arguments",
     "Tests never reuse arguments or originals after composing them.",
     [("copies of operators", KR + ":__init__"), ("composition", CH + ":__add__ / __mul__"),
      ("codes", CD + ":StabilizerCode.__init__")], ["later answers", "arguments after the call"],
     note="stateful model over a pool of channels")

prop("C32", "Real vectors and hermitian matrices correspond one to one",
     "Every real vector of length d^2 is the hermitian matrix with the vector's entries read row by "
     "row (diagonal entry, then real and imaginary part of each later entry of the row), and the "
     "vector of that matrix is the vector again, for every d and both ways round. Vectors of any "
     "other length are rejected.",
     [I], "all sizes, real vectors and hermitian matrices",
     "No test builds hermitian matrices of more than one size.",
     [("basis of hermitian matrices", PA + ":StandardBasis")],
     ["StandardBasis.rho_from_vec", "StandardBasis.vec_from_rho"],
     note="round trips and linearity against an explicit layout")
prop("C33", "Error-correction cycles keep the encoded state",
     "After encoding, any number of rounds of Pauli errors, syndrome measurements of all generators "
     "in any order, and a correction with the measured syndrome bring the state back to the code "
     "space, and decoding gives the state encoded, up to exactly the logical Paulis that errors "
     "and corrections multiply to.",
     [H, I, PR], "all codes, encoded superpositions, sequences of errors and corrections",
     "Tests do one round with one error on one code; the parts only fit together if encoder, "
     "syndromes, logical operators and decoder agree on conventions.",
     [("encoding", CD + ":encoding_circuit"), ("syndromes", CD + ":single_syndrome_measurement"),
      ("corrections", CD + ":apply_stabilizer_circuit"), ("decoding", CD + ":decoding_circuit"),
      ("logical operators", CD + ":logical_operators")],
     ["simulator state", "measurement results", "decoded qubits"],
     note="state-vector simulation of whole cycles")

EXTRA = os.path.join(HERE, "tools", "more_properties.py")
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))


def main():
    for d, _ in P:
        assert len(d["title"]) <= 80, d["id"]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _ in P:
            f.write(json.dumps(d) + "\n")
    checks = []
    for d, note in P:
        pid = d["id"]
        if not os.path.exists(os.path.join(HERE, "pbt", "checks", pid.lower() + ".py")):
            continue
        checks.append({
            "property": pid, "quick_cmd": "./check.sh %s --tier quick" % pid,
            "thorough_cmd": "./check.sh %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "property-based testing (hypothesis generators, shrinking) against an "
                         "explicit oracle: " + note,
            "level": "exploration",
            "level_note": "random search over generated inputs, nothing is proved; " + note})
    done = {c["property"] for c in checks}
    man = {"version": 1,
           "setup_cmd": "PYTHONPATH=. /opt/venv/bin/python -m pbt.deps",
           "checks": checks,
           "not_applicable": [{"property": d["id"], "reason": "check not written yet"}
                              for d, _ in P if d["id"] not in done]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
