"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": list(state),
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": list(observe), "hook_needed": None}})
G="deepquantum/gates/"; QC=G+"qcircuit.py"; QO=G+"qoperator.py"; TN=G+"qtensornetwork.py"; QM=G+"qmath.py"; QG=G+"qgate.py"
QL="deepquantum/layers/qlayers.py"; QE="deepquantum/embeddings/qembedding.py"; QV="deepquantum/nn/modules/quanv.py"

prop("C01","Every evaluation route computes the circuit's current unitary",
 "After any history of building, parameter updates, clearing, copying, saving and reloading, inverting and rejected calls, every way of evaluating a circuit (full unitary in either order, per-gate matrix, matrix-product-state evolution, single or batched tensor contraction, expectation value, the legacy circuit builder) gives the result of applying exactly the gates currently in the circuit, in order, on their qubits, with their current parameters. A route that does not support a gate says so with an error; it never returns a different answer.",
 ["histories","inputs","programs","configurations"],
 "every sequence of circuit operations, every gate/layer/encoding kind, qubit count, qubit order and distance, parameter value and container, input state and batch",
 "The shipped tests evaluate a few fixed circuits on one route each, mostly by printing; nothing compares the routes with each other after updates, copies or failed calls.",
 [QC,QO,QL,TN,QG,QE],
 [("one matrix definition per gate, used by all routes","qoperator.py / qlayers.py U_expand, TN_operation, TN_contract"),("ordered application of the gate list",QC+" Circuit.U/TN_evolution/TN_contract_evolution/cir_expectation"),("re-computation on update","params_update of every gate")],
 [{"name":"gate list","meaning":"the circuit, in order of application","where":QC},{"name":"matrix / params","meaning":"cached matrix of a parametrised gate and the parameters it was made from","where":QO}],
 ["values returned by the evaluation routes"])

prop("C02","Evaluating and inspecting never changes anything",
 "Evaluating, differentiating, inverting, inspecting or measuring leaves the circuit, its gates, every argument (except a matrix-product-state list handed to an evolution call, which is documented to be consumed) and the process-wide numeric settings and random streams unchanged. So any interleaving of such calls, repeated in any order, returns the same answers, and overwriting a returned result does not change later answers.",
 ["histories","inputs"],
 "every circuit, every sequence and repetition of read-only calls, every argument, with the caller overwriting results between calls",
 "Tests call each routine once on fresh objects; leftovers show up only on the next call or in an argument nobody re-reads.",
 [QC,QO,QL,TN,QM,QE,QV],
 [("private copy while shifting parameters",QC+" parameter_shift"),("fresh result tensors","U_expand / TN_contract / StateVec2MPS"),("arguments only read","MPS_expec, partial_trace, measure, expval")],
 [{"name":"global torch state","meaning":"default dtype, grad mode, RNG state, thread count","where":"torch"}],
 ["public attributes and evaluation results before and after each call","arguments after the call"])

prop("C03","Concurrent callers get the same answers as callers running alone",
 "When several threads use the library at once - sharing circuits, gates, states and modules that they only read (evaluate, differentiate, invert, measure), and building or updating circuits of their own - every call returns what it would have returned with no other thread running. No thread deadlocks or fails because of another, under any interleaving.",
 ["schedules","histories"],
 "every interleaving of two or more caller threads at source-line and tensor-operation granularity, every assignment of operations to threads",
 "No test starts a thread; an interleaving inside a call cannot be chosen from a unit test.",
 [QC,QO,QL,TN,QM,QV],
 [("no mutable module-level or class-level state","whole package"),("gradients work on a private copy",QC+" parameter_shift"),("evaluation reads gates only","U_expand/TN_*")],
 [{"name":"shared circuit","meaning":"gate list and parameters read by all threads","where":QC}],
 ["per-call results in each thread"])

prop("C04","A failed call leaves everything usable and unchanged",
 "If an evaluation, gradient or measurement fails or is interrupted at any point (allocation failure, failing decomposition, failing tensor operation, keyboard interrupt), the circuit, its parameters and its answers afterwards are exactly as before the call. If adding, updating, clearing or constructing fails or is rejected, the circuit is either entirely unchanged or entirely changed, with its unitary, parameters and parameter count agreeing; repeating the call without the fault succeeds with the fault-free answer.",
 ["fault_sequences","crash_points","histories"],
 "every operation, every point inside it at which a tensor operation or line can fail, every kind of failure, any number of failures in sequence",
 "Tests never make a tensor operation fail; the states that matter exist only between two lines of one call.",
 [QC,QO,QL,TN,QM],
 [("compute first, assign last","params_update of every gate and layer"),("validate before registering",QC+" Circuit.add"),("private copy while shifting parameters",QC+" parameter_shift")],
 [{"name":"params/matrix pair","meaning":"must move together","where":QO}],
 ["public state and answers after the failure","answer of the retried call"])

prop("C05","Gradients are the derivative at the current parameters",
 "For any circuit and any history of updates, the parameter-shift gradient, the stored-intermediate-state (adjoint) gradient and automatic differentiation through the dense and contraction routes all equal the true partial derivatives of the expectation value at the circuit's current parameters: one entry per parameter, in circuit order. A training loop that alternates gradients and updates therefore follows the exact trajectory.",
 ["histories","inputs","programs"],
 "every gate and layer with parameters, every mixture and order, every observable and state, every update history between gradient calls",
 "One test compares two gradient routines on one circuit of rotation layers; mixtures of gate kinds, positions and updates are not sampled.",
 [QC,QO,QL],
 [("shift rules per gate",QC+" parameter_shift.cal_params_grad"),("stored forward/backward states",QC+" save_mid_MPS/cal_params_grad2"),("differentiable matrices","qoperator.py / qlayers.py")],
 [{"name":"save_dict","meaning":"forward and backward intermediate states by gate index","where":QC}],
 ["gradient vectors"])

prop("C06","Matrix-product answers do not depend on the decomposition chosen",
 "A state (or density operator) converted to matrix-product form, evolved through any gates and converted back is the exact one up to rounding; nothing is truncated beyond rounding noise. This holds whichever valid decomposition the linear-algebra backend returns at each step: any phases, any basis of a degenerate subspace, any rounding-level perturbation of the singular values.",
 ["inputs","fault_sequences","configurations"],
 "every state including product, degenerate, rank-deficient and nearly rank-deficient ones, every gate sequence, and every valid backend answer at every decomposition",
 "A test sees the one decomposition its machine's LAPACK returns; another library version or device may return another valid one.",
 [TN,QO,QL],
 [("rank selection by singular-value threshold",TN+" StateVec2MPS / TensorDecompAfterTwoQbitGate / TensorDecompAfterThreeQbitGate"),("gauge-independent contraction",TN+" MPS2StateVec, MPS2Rho, MPS_inner_product")],
 [{"name":"bond dimension","meaning":"number of singular values kept","where":TN}],
 ["state vectors and density matrices rebuilt from matrix-product form"])

prop("C07","Running a circuit's inverse restores the state",
 "For every gate and layer that offers an inverse, applying it and then its inverse, on any route and at the current parameters, is the identity; inverting twice gives the original back. Undoing the last k operations of any history in reverse order restores the state as it was before them.",
 ["histories","inputs","programs"],
 "every invertible gate and layer, every compute/update/uncompute history, every route for each direction",
 "The one script on inverses prints matrices for a fixed circuit and asserts nothing.",
 [QO,QL,QC],
 [("operation_dagger per gate","qoperator.py / qlayers.py"),("self-inverse gates","qoperator.py")],
 [], ["states after compute and uncompute"])

prop("C08","Members of a batch never influence each other",
 "In batched contraction and in image convolution, each member's result is what it would be if processed alone, whatever the batch size, its order, how requests are grouped into batches, and whatever the other members contain - including corrupted (not-a-number or infinite) or unnormalised members. In an image, each output position depends only on the pixels of its own window.",
 ["schedules","inputs","fault_sequences"],
 "every grouping and order of requests into batches, every batch size including one, every set of corrupted members or pixels",
 "Tests run one batch and look at its loss; contamination needs a specific neighbour or grouping.",
 [QO,QL,QC,QV],
 [("batch axis carried through every permutation","TN_contract(batch_mod=True) of every gate and layer"),("per-window loop",QV+" QuanConv2D.forward")],
 [], ["per-member outputs"])

prop("C09","A saved circuit or model resumes exactly after a crash",
 "A circuit, gate, intermediate state or convolution module written out at any point of a history and loaded in another process has the same answers, parameters, gradients and parameter count, and continuing from it gives exactly the run that was never interrupted. A crash at any point after the save loses nothing that was saved and nothing saved depends on the dead process.",
 ["crash_points","histories"],
 "every save point and every crash point in a history of building, updating and training, every serialisation route the objects support",
 "No test saves or reloads anything.",
 [QC,QO,QL,QV],
 [("plain picklable objects with all state in public attributes","Circuit, gates, layers"),("registered parameters",QV+" QuanConv2D.weight")],
 [], ["answers, parameters and gradients after reload"])

prop("C10","Parameter bookkeeping always matches the circuit",
 "After any history, a circuit's reported parameter count and per-position parameters are those of the gates it currently contains, in order, at their current values; gradient vectors have exactly that length. A gate's information names its own qubits and current parameters. The tensor-network-support flag is true exactly when every gate in the circuit can be evolved and contracted as a tensor network.",
 ["histories"],
 "every history of adds, updates, clears, copies and rejected calls over every gate and layer kind",
 "Tests build circuits once and never clear, update or read the counters again.",
 [QC,QO,QL],
 [("count and dictionary kept by add/clear",QC+" Circuit"),("num_params per gate","qoperator.py / qlayers.py"),("supportTN flag",QC+" TN_check")],
 [{"name":"cir_params, cir_num_params","meaning":"bookkeeping","where":QC}], ["reported values"])

prop("C11","Observations agree across representations and when repeated",
 "Measuring, taking expectation values, tracing out qubits and taking inner products give the same physics whether the state is held as a vector, density matrix or matrix-product form, in any order of observation and of qubit indices, and repeated observation gives the same values. Tracing out in stages equals tracing out at once, and converting between representations in any sequence preserves every such value.",
 ["histories","inputs","fault_sequences"],
 "every state, subset and order of qubits, sequence of conversions, stages and observations, and valid backend decomposition",
 "The tests trace one fixed matrix and measure nothing twice or in two representations.",
 [QM,TN],
 [("expval/measure/partial_trace/ptrace",QM),("MPS_expec, MPS_inner_product, Rho2MPS, MPS2Rho",TN)],
 [], ["observed values"])

prop("C12","Quantum convolution is a function of weights and input only",
 "The convolution layer's output equals the reference circuit evaluated on every full window at the configured stride and kernel, for any image size, and depends only on the current weights and the input: not on earlier calls, failed calls, training or evaluation mode, or random state. The loss gradient reaches the weights and equals the true derivative, so that training by any optimiser moves them.",
 ["histories","inputs","fault_sequences"],
 "every kernel, stride, image size, weight history (training steps, reloads, in-place updates), call order and failed call",
 "The only test that trains the layer downloads a dataset and is excluded from the stable set.",
 [QV,QM,QC],
 [("window loop",QV+" forward"),("trainable weight",QV+" weight"),("measurement kept differentiable",QM+" measure")],
 [], ["layer outputs and weight gradients"])

prop("C13","Encoders and matrix checks are functions of their data alone",
 "An amplitude, Pauli or Gram encoder yields the normalised state, rotation or density matrix of the data it holds (state preparation: the vector or density matrix of the given amplitudes), and the unitary, Hermitian and normalised checks answer for the matrix at hand. This holds however often and in whatever order they are used, after rejected, failed or interrupted calls, in several threads, with other encoders alive, after saving and reloading, and whatever was done to earlier results. The data are never changed, and the encoded state is differentiable in the data.",
 ["histories","inputs","schedules","fault_sequences"],
 "every data vector (real, complex, short, sparse, negative, of any scale), every order of use, fault point and thread schedule",
 "No test encodes anything but one Pauli layer, and none uses an encoder twice.",
 [QE,"deepquantum/embeddings/qstate.py",QM],
 [("encoder objects holding data",QE+" AmplitudeEncoding, PauliEncoding, gram_encoding"),("state preparation","deepquantum/embeddings/qstate.py"),("predicates",QM+" IsUnitary, IsHermitian, IsNormalized")],
 [], ["encoded states, answers of the checks"])

na = []
def nap(id,title,st,q,why,files): prop(id,title,st,["inputs"],q,why,files,[]); na.append(id)
nap("N03","Constructors reject malformed arguments","Gates and layers built with the wrong number of qubits or parameters are rejected with an error.","every malformed argument list","not tested at all",[QO,QL])
nap("N04","Legacy functional layers","The legacy function-style layers build the documented circuits.","every argument","they cannot run: they call interfaces that no longer exist",["deepquantum/layers/qlayer.py"])
nap("N05","Tensor-network evolution is efficient","Memory and time of matrix-product evolution grow with entanglement, not exponentially with the number of qubits.","every circuit","performance, not behaviour",[TN])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
