#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list is easy to review and edit)."""
import json, os
I="include/qlmps/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],
        state=[dict(name=a,meaning=b,where=I+c) for a,b,c in state],
        mechanism=[dict(name=a,where=I+b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
M="one_dim_tn/mpo/mpogen/"
p("C01","A generated Hamiltonian is exactly the sum of the terms that were added",
 "For every list of product terms added to the finite-chain generator, the chain of symbolic matrices it produces, multiplied out, equals the sum of all added terms, each counted as often as it was added. This holds both without and with compression, and compression never enlarges a bond; for a uniform chain with k distinct nearest-neighbour operator pairs the compressed bond is at most k+2, whatever the length of the chain and the order of insertion. Sites not covered by a term carry that site's identity.",
 ["inputs","programs"],"every chain length, every list of terms (any support, any operators, any coefficients, repeated terms, any insertion order), with and without compression",
 "Unit tests compare a dozen hand-written lists of at most a few terms; faithfulness is a statement about all term lists, and sums of unrelated terms only collide in the shared matrix slots for particular combinations.",
 [M+"fsm.h",M+"symb_alg/coef_op_alg.h",M+"symb_alg/sparse_mat.h"],
 [("path insertion with ready/intermediate/final states",M+"fsm.h: FSM::AddPath"),("projection of the paths on matrices",M+"fsm.h: FSM::CastFSMPathToMatRepr_"),("row/column compression",M+"symb_alg/coef_op_alg.h: SparOpReprMatColCompresser, SparOpReprMatRowCompresser")],
 [("ready/final flags and intermediate state counters","which states exist before each site",M+"fsm.h")],["matrices returned by FSM::GenMatRepr / GenCompressedMatRepr"])
p("C02","Symbolic coefficients and operators form the algebra they stand for",
 "A symbolic coefficient denotes a sum of labelled numbers and a symbolic operator a coefficient-weighted sum of labelled basis operators: addition, equality, splitting off a common coefficient, evaluation with concrete numbers and printing all agree with that denotation. Equality ignores the order in which summands were added but not their multiplicity.",
 ["inputs","programs"],"all expressions built from labels, additions, copies, moves and assignments, and all label assignments",
 "Tests fix a few expressions with one or two labels; laws such as commutativity, multiplicity sensitivity and split-and-recombine range over all expressions.",
 [M+"symb_alg/coef_op_alg.h"],
 [("coefficient sums",M+"symb_alg/coef_op_alg.h: CoefRepr"),("operator sums",M+"symb_alg/coef_op_alg.h: OpRepr"),("common coefficient extraction",M+"symb_alg/coef_op_alg.h: SeparateCoefAndBase")])
p("C03","Symbolic matrix edits act like a dense matrix and compression keeps products",
 "Setting (to a non-empty element), reading, removing, swapping and permuting rows and columns of a symbolic sparse matrix act exactly as on a dense matrix, and sorting returns the permutation it applied, ordered by the number of non-empty entries. Compressing a matrix together with its neighbour never changes the product of the two when coefficients are attached as the generator attaches them, and never enlarges the bond between them.",
 ["programs","inputs"],"all sequences of edits on matrices of any shape, and all compressible matrix pairs",
 "The tests apply each edit once to one or two matrices of fixed shape; aliasing between the index table and the stored elements appears only after sequences of edits.",
 [M+"symb_alg/sparse_mat.h",M+"symb_alg/coef_op_alg.h"],
 [("offset table into element storage",M+"symb_alg/sparse_mat.h: SparMat"),("sort, split off coefficients, delinearise",M+"symb_alg/coef_op_alg.h: SparOpReprMat*Compresser")],
 [("indexes/data","table of offsets into the element store",M+"symb_alg/sparse_mat.h")])
p("C04","The tensor container owns each element exactly once and copies deeply",
 "In every history of constructing, copying, moving, assigning (also to itself), allocating, reading, writing, releasing and destroying tensor containers, each stored element belongs to exactly one container slot, is destroyed exactly once and is never used after that. A copy shows the same contents and occupancy as its source and is independent of it; a moved-from container keeps its length and is empty.",
 ["histories","programs"],"all sequences of container operations over any number of containers and slots",
 "Tests run one copy, one move and one release each; double frees, leaks and sharing need particular sequences such as assignment over an occupied container, self assignment, or allocation over an occupied slot.",
 ["one_dim_tn/framework/duovector.h"],
 [("owning raw pointers with explicit copy/move/alloc/dealloc","one_dim_tn/framework/duovector.h: DuoVector")],
 [("raw_data_","one owning pointer or null per slot","one_dim_tn/framework/duovector.h")])
p("C05","Parameter parsing never silently accepts a missing or ill-typed parameter",
 "For every JSON parameter file, key and requested type: strict parsing returns exactly the value of the file or, if the key is missing or its value does not have the requested type, prints a diagnostic and ends the process with code 1; the with-default form returns the default only when the key is missing and otherwise behaves as the strict form; the non-fatal form returns false in the failing cases, leaves its output untouched and never ends the process. All three forms agree on which values have the requested type, and an unopenable file or a file without the parameter object ends the process with code 1.",
 ["inputs","programs"],"all JSON documents, all keys (present, missing, present only elsewhere in the file), all requested types, all sequences of calls on one parser",
 "The tests use one good and one bad file and never run the exiting paths; agreement of the three forms ranges over all value kinds and values.",
 ["case_params_parser.h"],
 [("strict, with-default and try forms","case_params_parser.h: CaseParamsParserBasic")],[],["return values, standard error and exit status of a child process"])
p("C06","The periodic Hamiltonian automaton represents exactly the added terms",
 "For every list of distinct finite-range terms, each beginning and ending with an operator other than the identity, added to the infinite-chain automaton, the sum over all automaton runs from the ready to the final state across any window of unit cells equals the sum of all translates of the terms that fit the window, before and after compression. Adding a term never alters the contribution of earlier terms.",
 ["inputs","programs"],"all unit cell sizes, all lists of terms of two or more sites, all window lengths",
 "There is one test, of a generator that needs the tensor library and does not build here; prefix sharing makes the result depend on the order and overlap of the terms.",
 [M+"ifsm.h",M+"fsm.h"],
 [("prefix-sharing insertion of paths",M+"ifsm.h: iFSM::AddPath"),("projection on matrices",M+"ifsm.h: iFSM::CastToMatRepr_")],
 [("fsm_nn_links_set_","labelled transitions leaving each automaton site",M+"ifsm.h")])
p("C07","Run parameters mean what the caller wrote",
 "A parameter object for sweeps, eigen-solver or time evolution carries exactly the values passed and the documented defaults for those not passed, copies included; noise is active exactly when some given noise is non-zero. Memory figures reported by the monitor are consistent: used plus free equals total, in gigabytes, and querying has no side effect on the device reported.",
 ["inputs","configurations"],"all argument values and all overloads",
 "No test constructs these objects with more than one set of values or checks the noise rule.",
 ["algorithm/lanczos_params.h","algorithm/finite_vmps_sweep_params.h","algorithm/tdvp/tdvp_evolve_params.h","memory_monitor.h"],
 [("constructors","algorithm/finite_vmps_sweep_params.h: FiniteVMPSSweepParams"),("memory query","memory_monitor.h: MemoryMonitor::GetMemoryInfo")])
F="one_dim_tn/mps/finite_mps/"
p("C08","Canonical-form bookkeeping of a finite MPS is always true of its tensors",
 "Whenever a finite MPS reports a tensor as left- or right-normalised, that tensor satisfies the corresponding isometry condition; whenever it reports a centre, all tensors left of it are left-normalised and all right of it right-normalised. Moving the centre or normalising tensors never changes the represented state, and any write access to a tensor withdraws its claim.",
 ["programs","histories"],"all sequences of centralising, single-step canonicalising, writing, copying, moving, loading, dumping, truncating and adding on any MPS",
 "Tests centralise a few random states to a few centres; a stale flag is only visible after a particular write/load/copy followed by a centralisation that then skips work.",
 [F+"finite_mps.h",F+"finite_mps_ops.h","one_dim_tn/framework/ten_vec.h","one_dim_tn/framework/duovector.h"],
 [("per-tensor canonical type and centre","one_dim_tn/mps/finite_mps/finite_mps.h: FiniteMPS::tens_cano_type_, center_"),("flags withdrawn by the non-const accessors",F+"finite_mps.h: operator[] / operator()"),("QR based shifts",F+"finite_mps.h: LeftCanonicalizeTen/RightCanonicalizeTen")],
 [("tens_cano_type_/center_","claimed gauge",F+"finite_mps.h")])
p("C09","Dumping and loading a state or operator chain is lossless and file-exact",
 "Dumping a chain writes exactly one file per occupied site under the given directory and name, loading it restores equal tensors at the same sites, and the release option frees exactly the dumped sites and no other. A single-site dump or load touches only that site's file and slot.",
 ["histories","programs"],"all sequences of whole-chain and single-site dumps and loads with and without release, into any directory",
 "One round trip is tested; interleaved single-site loads, dumps and releases are what the sweeping algorithms do.",
 ["one_dim_tn/framework/ten_vec.h",F+"finite_mps.h","utilities.h"],
 [("one file per site","one_dim_tn/framework/ten_vec.h: TenVec"),("whole-chain wrappers",F+"finite_mps.h: FiniteMPS::Dump/Load")])
p("C10","Initial states and truncation deliver the state they promise",
 "Product-state initialisation yields the normalised product state of the given local states; combined initialisation yields the equal-weight sum; random initialisation yields a normalised state in the requested symmetry sector with bonds not above the requested dimension. Truncation keeps every bond within the given maximum (and the minimum where available), reports the discarded weight, and is exact when nothing has to be discarded.",
 ["inputs"],"all lattice lengths, all lists of local states, all symmetry sectors, all truncation limits",
 "Tests use a handful of states and one bond limit.",
 [F+"finite_mps_init.h",F+"finite_mps.h",F+"finite_mps_ops.h"],
 [("initialisers",F+"finite_mps_init.h"),("truncation sweep",F+"finite_mps.h: FiniteMPS::Truncate, TruncateMPS")])
p("C11","Every measurement equals the exact expectation value",
 "One-site, two-site and multi-site measurements of an MPS, in memory or from disk, with or without string operators, return the exact expectation value of the named operator product at exactly the named sites, in the order asked for; entanglement entropies are those of the state's Schmidt spectrum. Measuring does not change the state, and the disk form leaves the stored state as it was.",
 ["inputs","histories"],"all states, operators, site lists and both storage modes",
 "Tests measure a few operators on one ground state each; index mix-ups between nearby sites or missing strings vanish on symmetric states.",
 [F+"finite_mps_measu_memory.h",F+"finite_mps_measu_disk.h"],
 [("in-memory measurement",F+"finite_mps_measu_memory.h"),("disk measurement",F+"finite_mps_measu_disk.h")])
p("C12","Operator-chain arithmetic is exact arithmetic on the represented operators",
 "Adding, multiplying, squaring, scaling, normalising and canonicalising operator chains give chains that represent exactly the corresponding operator; applying an operator chain to a state and taking expectation values or overlaps agree with the dense operators.",
 ["inputs","programs"],"all operator chains and states, all sequences of operations",
 "Tests use a few fixed Hamiltonians.",
 ["one_dim_tn/mpo/finite_mpo/finite_mpo.h","one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h","one_dim_tn/mpo/mpo.h","one_dim_tn/mpo/mat_repr_mpo.h"],
 [("finite MPO",'one_dim_tn/mpo/finite_mpo/finite_mpo.h'),("utilities",'one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h')])
p("C13","Two-site sweeps use environment blocks of the current state only",
 "During a two-site variational sweep every local update uses left and right blocks computed from the current tensors of exactly the sites outside the pair; blocks are never read before they were written, and when a run ends the blocks on disk are exactly those a next run over the same range starts from, all current, and the state is completely on disk with its centre where reported.",
 ["histories","configurations"],"all chain lengths, boundaries, numbers of sweeps and bond limits, fresh and pre-existing runtime directories",
 "Tests look only at the final energy, which a stale block perturbs slightly or not at all; the file protocol is never inspected.",
 ["algorithm/vmps/two_site_update_finite_vmps_impl.h","algorithm/vmps/vmps_init.h"],
 [("initial right blocks","algorithm/vmps/vmps_init.h: InitEnvs"),("load/update/dump around each step","algorithm/vmps/two_site_update_finite_vmps_impl.h")],
 [("runtime directory","left and right blocks by length","consts.h")])
p("C14","Variational optimisation returns a true, never-below-exact energy",
 "The energy returned by a ground-state optimisation equals the expectation value of the Hamiltonian in the state it leaves behind up to the truncation of the last step, is not below the exact ground-state energy of the sector, and does not increase from sweep to sweep when nothing is truncated; the sites a sweep leaves alone never restrict the states it can reach; every bond stays within the requested limits and the quantum number of the state is preserved.",
 ["inputs","configurations"],"all Hamiltonians, initial states, sweep parameters and chain lengths",
 "Tests compare one final energy per model with a reference value.",
 ["algorithm/vmps/two_site_update_finite_vmps_impl.h","algorithm/vmps/lanczos_vmps_solver_impl.h","algorithm/dmrg/dmrg_impl.h"],
 [("local eigenproblem and truncation","algorithm/vmps/two_site_update_finite_vmps_impl.h: TwoSiteFiniteVMPSUpdate")])
p("C15","An optimisation can be continued from what it left on disk",
 "Running a further optimisation on the state and runtime directory a finished one left behind gives the same result as one longer run, whether the stored blocks are reused or regenerated, and repeated runs never corrupt the stored state.",
 ["histories","configurations"],"all splits of a number of sweeps over consecutive runs, with the runtime directory kept or removed in between",
 "No test continues a run.",
 ["algorithm/vmps/vmps_init.h","algorithm/dmrg/dmrg_init.h","algorithm/vmps/two_site_update_finite_vmps_impl.h"],
 [("reuse of stored blocks","algorithm/vmps/vmps_init.h: NeedGenerateRightEnvs"),("centre and boundary search","algorithm/vmps/vmps_init.h: CheckAndUpdateBoundaryMPSTensors")])
p("C16","Block-operator DMRG is the same optimisation as the MPO form",
 "The block-operator form of the optimisation represents the same effective Hamiltonian at every step as the operator-chain form: blocks used in an update are built from the current state and the Hamiltonian's matrices for exactly the sites outside the pair, files are written before they are read, and the result agrees with the operator-chain optimisation.",
 ["histories","inputs"],"all Hamiltonians, chain lengths and sweep numbers",
 "Tests compare one final energy.",
 ["algorithm/dmrg/dmrg_impl.h","algorithm/dmrg/dmrg_init.h","algorithm/dmrg/operator_io.h","algorithm/dmrg/lanczos_dmrg_solver_impl.h"],
 [("block operators","algorithm/dmrg/dmrg_impl.h: DMRGExecutor"),("initial blocks","algorithm/dmrg/dmrg_init.h")])
p("C17","Signals stop a DMRG run cleanly with a complete state on disk",
 "A graceful stop request lets the current sweep finish and then ends the run with the complete, normalised state on disk and its centre at the first site; an emergency stop request ends the run after the site update in progress with a complete state on disk that represents the state reached so far. A stop request affects only the run it was sent to.",
 ["fault_sequences","crash_points","schedules"],"all arrival points of one or several stop requests during a run, and all later runs in the same process",
 "No test sends a signal.",
 ["algorithm/dmrg/dmrg_impl.h","algorithm/dmrg/dmrg.h"],
 [("signal flags polled between steps","algorithm/dmrg/dmrg_impl.h")])
p("C18","Single-site and noisy optimisation keep the same guarantees",
 "Single-site and noise-assisted optimisation keep the represented state and its blocks consistent at every step, follow the noise schedule given (one value per sweep, the value reached at the end continuing after the last; zero noise meaning the plain algorithm), and return an energy that satisfies the variational bound.",
 ["histories","inputs","configurations"],"all noise schedules, chain lengths and sweep numbers",
 "Tests compare one final energy per model.",
 ["algorithm/vmps/single_site_update_finite_vmps_impl.h","algorithm/vmps/two_site_update_noise_finite_vmps_impl.h"],
 [("bond expansion with noise","algorithm/vmps/single_site_update_finite_vmps_impl.h"),("noisy two-site step","algorithm/vmps/two_site_update_noise_finite_vmps_impl.h")])
p("C19","Time evolution is unitary and measures exact dynamical correlations",
 "Real-time evolution by a Hermitian Hamiltonian preserves norm and energy up to the reported truncation, the evolved state approximates the exact evolution, correlations reported at each time are those of the evolved and the stored initial state, and the stored initial state is never modified.",
 ["inputs","histories"],"all Hamiltonians, initial states, time steps, step counts and measurement options",
 "One short evolution per model is tested.",
 ["algorithm/tdvp/two_site_update_finite_tdvp_impl.h","algorithm/tdvp/lanczos_expmv_solver_impl.h","algorithm/tdvp/tdvp_evolve_params.h"],
 [("forward two-site and backward one-site steps","algorithm/tdvp/two_site_update_finite_tdvp_impl.h")])
p("C20","Distributed runs do every task once, never hang, and match the serial run",
 "In every interleaving of messages between the master and any number of workers, a distributed optimisation or evolution terminates on all ranks with no message left over, every block task is executed exactly once and its result is used at its own place, and the outcome equals that of the serial algorithm.",
 ["schedules","configurations"],"all message interleavings, numbers of workers, and numbers of symmetry blocks (fewer, equal, or more than workers)",
 "MPI tests cannot run here and sample one schedule each.",
 ["algo_mpi/mps_algo_order.h","algo_mpi/env_ten_update_master.h","algo_mpi/env_ten_update_slave.h","algo_mpi/vmps/lanczos_solver_mpi_master.h","algo_mpi/vmps/lanczos_solver_mpi_slave.h","algo_mpi/dmrg/dmrg_mpi_impl_master.h","algo_mpi/dmrg/dmrg_mpi_impl_slave.h","algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h"],
 [("order broadcast and task hand-out by request","algo_mpi/vmps/lanczos_solver_mpi_master.h, algo_mpi/env_ten_update_master.h")])
p("C21","Local solvers return a true lowest eigenpair or exponential and free all memory",
 "For every Hermitian local problem and starting vector the eigen-solver returns a normalised vector and the energy that is its Rayleigh quotient, not above that of the start and not below the exact minimum, equal to the minimum on full convergence; the exponential solver returns the evolved vector with the norm of the input. Both stop within the iteration limit and consume their inputs exactly once.",
 ["inputs","configurations"],"all local problems, starting vectors, error limits and iteration limits, including early invariant subspaces and limits of one",
 "Tests use random problems of one size with generous limits.",
 ["algorithm/vmps/lanczos_vmps_solver_impl.h","algorithm/dmrg/lanczos_dmrg_solver_impl.h","algorithm/tdvp/lanczos_expmv_solver_impl.h"],
 [("Krylov recursion with memory hand-over",'algorithm/vmps/lanczos_vmps_solver_impl.h: LanczosSolver')])
p("C22","Model building blocks obey their operator algebra and documented signs",
 "The operators supplied for spin-1/2, t-J and Hubbard sites are the matrices of the named operators in the documented basis with the right commutation or anticommutation relations and quantum numbers, and the ready-made Heisenberg, t-J and Hubbard term builders add exactly the documented Hamiltonian for every pair of sites.",
 ["inputs","configurations"],"all supported symmetries, all site pairs in either order, all couplings",
 "No buildable test covers them; fermion signs depend on pair order and string placement.",
 ["model_relevant/operators/spin/spin_one_half_operators.h","model_relevant/operators/fermion/tJ_operators.h","model_relevant/operators/fermion/hubbard_operators.h","model_relevant/sites/spin/spin_one_half_sites.h","model_relevant/sites/fermion/tJ_sites.h","model_relevant/sites/fermion/hubbard_sites.h"],
 [("operator matrices","model_relevant/operators"),("site bases","model_relevant/sites")])
p("C23","The tensor form of a generated Hamiltonian carries the same operator",
 "For every list of numeric terms, with operators in any order, with sign-normalised or inserted string operators, the generated tensor chain and the generated matrix chain both represent exactly the sum of the terms, and every bond carries the quantum numbers required for a symmetric Hamiltonian.",
 ["inputs"],"all term lists, coefficients, operators, site sets and string placements, all symmetries",
 "The tests compare a few Hamiltonians and need the tensor library, so none runs here.",
 [M+"mpogen.h",M+"mpogen_impl.h",M+"fsm.h","site_vec.h"],
 [("term normalisation and labelling",M+"mpogen_impl.h: MPOGenerator::AddTerm"),("tensors from symbolic matrices",M+"mpogen_impl.h: MPOGenerator::Gen")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
