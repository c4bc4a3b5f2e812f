#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here, one place)."""
import json, os
P = []
ED = "impurityModel/ed/"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": [ED + f if "/" not in f else f for f in files],
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": None}})

p("C01", "Product states survive every change of representation",
  "A product state of n spin-orbitals can be written as the ordered tuple of occupied orbitals, an integer, a 0/1 string, a bit array or bytes, and converting it between any two of these forms gives the same state: same occupied orbitals, same number of orbitals, orbital 0 leftmost. "
  "Any chain of conversions returns to the starting value, and two different states never share a value in any form.",
  ["inputs"], "all n >= 1 (including n not divisible by 8 and n > 64) and all 2^n occupations, all ordered pairs and chains of the five forms",
  "The tests convert three or four hand-written states of at most 12 orbitals; padding, width and leading-zero errors depend on n and on the occupation.",
  ["product_state_representation.py"], [("pairwise conversion functions", "product_state_representation.py")],
  observe=["return values of the conversion functions"])
p("C02", "Adding and removing electrons obeys Fermi statistics in every representation",
  "Adding an electron to an empty orbital (removing one from an occupied orbital) changes exactly that orbital and carries the sign (-1)^(number of occupied orbitals before it); adding to an occupied orbital or removing from an empty one gives sign 0. "
  "All representations agree, so the canonical anticommutation relations hold on every state, and a failed step on an in-place representation leaves the state unchanged.",
  ["inputs", "histories"], "all numbers of orbitals (beyond 64 too), all states, all orbitals, all sequences of additions and removals, in the tuple, integer, string, bit-array and bytes forms and on superpositions",
  "The tests create electrons in a handful of states of up to 5 orbitals and have no test of removal signs at larger orbital indices or of sequences of steps.",
  ["create.py", "remove.py", "finite.py"], [("create/remove per representation", "create.py, remove.py"), ("a, c on superpositions", "finite.py")],
  observe=["return values and in-place changes of create/remove functions"])
p("C03", "Operator application is the exact second-quantized action",
  "Applying an operator to a many-body state gives the sum, over its terms and the product states in the state, of strength times amplitude times fermionic sign, the rightmost elementary step of a term acting first; the action is linear and changes neither the operator nor the state. "
  "With occupation restrictions, exactly the resulting product states that meet every restriction are kept, each with its full amplitude. Only results whose weight is below the requested cutoff are dropped.",
  ["inputs"], "all operators (terms of any length, repeated orbitals, real or complex strengths), all states, all sets of occupation restrictions, all cutoffs, with and without a memo",
  "The tests apply one- and two-step terms to single product states of 4-5 orbitals and one restriction; signs, ordering, interference of terms and overlapping restrictions need all operators and states.",
  ["finite.py"], [("applyOp, four code paths", "finite.py")], observe=["returned state"])
p("C04", "Reusing memoised operator results never changes an answer",
  "A sequence of applications of one operator under one set of restrictions that share a memo gives, call by call, the same states as the sequence without a memo, whatever calls came before, up to contributions below the weight cutoff. "
  "After every call the memo holds an entry for each product state it was asked about, equal to the operator acting on that product state alone, and entries are never changed later.",
  ["histories"], "all finite sequences of calls with overlapping and repeated product states, with and without restrictions, with interference (cancellations, repeated targets) inside a call, and with the caller editing returned states in between",
  "One test makes one cached call. Errors of a memo show only after particular histories: a state seen again inside another superposition, or a target reached from two states of one call.",
  ["finite.py", "spectra.py"], [("opResult branches of applyOp", "finite.py"), ("memo dictionaries of the spectra loops", "spectra.py")],
  state=[("memo", "product state -> operator result", "opResult / h_dict arguments")], observe=["returned states, contents of the memo"])
p("C05", "Spin-orbital numbering is a gap-free, order-preserving bijection",
  "Every impurity spin-orbital and every bath orbital of a system has exactly one index, the indices are 0..N-1, and translating label to index and index to label are inverse to each other. "
  "All impurity orbitals come before all bath orbitals; shells are in the given order, spin down before spin up, m ascending, bath numbers ascending; unknown labels and indices out of range are refused.",
  ["configurations"], "all ordered sets of shells with any number of bath orbitals, including shells that share baths",
  "No test covers the numbering, although Hamiltonians, restrictions, bases and observables are only consistent with each other through it.",
  ["finite.py"], [("c2i, i2c", "finite.py")], observe=["returned index / label"])
p("C06", "The starting basis holds exactly the allowed configurations",
  "The many-body basis built from occupation settings contains every configuration in which, for each shell, up to the allowed number of electrons left the valence baths and entered the conduction baths, the impurity takes up the difference, and the impurity deviates from nominal by at most the tolerance; it contains nothing else and no configuration twice. "
  "Every configuration has the same total number of electrons per shell, and impossible settings (more electrons than orbitals, more valence baths than baths) are refused rather than ignored.",
  ["configurations"], "all combinations of shells, bath counts, nominal occupations, tolerances and allowed transfers",
  "There is no test of the basis; a wrong bound or a dropped partition silently changes every result.",
  ["finite.py"], [("get_basis", "finite.py")], observe=["returned tuple of product states"])
p("C07", "Basis expansion finds exactly the reachable active space",
  "Growing a basis from seed product states returns the seeds first and in order, followed by every product state that repeated application of the Hamiltonian under the restrictions can reach, each exactly once, and nothing else. "
  "The result does not depend on what the column store held before, and afterwards the store has, for every basis state, the Hamiltonian acting on it.",
  ["inputs", "histories"], "all Hamiltonians, seeds, restrictions and all histories of earlier expansions sharing the column store",
  "No test calls the expansion; a missed frontier state or stale column shows only for particular graphs of product states and histories.",
  ["finite.py"], [("expand_basis serial", "finite.py"), ("expand_basis_and_hamiltonian", "finite.py")],
  state=[("column store", "product state -> H|product state>", "h_dict")], observe=["returned basis, h_dict, matrix"])
p("C08", "Distributed basis and Hamiltonian equal the serial ones",
  "When several processes expand a basis together, every process gets the same basis in the same order, it is the set the serial calculation gives, and each column of the Hamiltonian is stored by exactly one process. "
  "The process-local Hamiltonians add up to the serial Hamiltonian, and the assembled one is identical on every process, for any number of processes, any timing and any history of earlier expansions.",
  ["schedules", "configurations", "histories"], "all process counts (also more processes than product states), all interleavings, per-process hash orders, and all divisions of earlier known columns over the processes",
  "The tests run on one process only; ordering and ownership errors need at least two processes with different iteration orders and more than one expansion.",
  ["finite.py"], [("expand_basis H_build", "finite.py"), ("get_hamiltonian_matrix_from_h_dict H_build", "finite.py"), ("get_job_tasks", "finite.py")],
  state=[("column store", "columns owned by this process", "h_dict per rank")], observe=["basis, store and matrices on every rank"])
p("C09", "Work is divided so that every task is done exactly once",
  "For any list of tasks and any number of processes, the tasks given to the processes are disjoint and together are exactly the list, the numbers of tasks of any two processes differ by at most one, and the division depends only on the list, the process number and the process count.",
  ["configurations"], "all task lists (empty, fewer tasks than processes, not divisible, arbitrary labels) and all process counts",
  "No test covers the division, and with one process any division looks right.",
  ["finite.py"], [("get_job_tasks", "finite.py")], observe=["returned tuple per rank"])
p("C10", "The Hamiltonian matrix is the operator, in every assembly mode",
  "Element (i, j) of the Hamiltonian matrix is the amplitude of basis state i in the Hamiltonian acting on basis state j, with amplitudes outside the basis left out. "
  "Dense and sparse, serial and distributed assembly give the same matrix on every process, and it is Hermitian whenever the operator is.",
  ["inputs", "configurations", "schedules"], "all operators and bases (including bases not closed under the Hamiltonian and complex strengths), all modes, all process counts",
  "No test assembles a matrix; transposition, conjugation, index or duplicate-entry errors are invisible for real symmetric single-process cases.",
  ["finite.py"], [("get_hamiltonian_matrix", "finite.py"), ("get_hamiltonian_matrix_from_h_dict", "finite.py")], observe=["returned matrices"])
p("C11", "Parallel phases never deadlock and communication always matches",
  "In every parallel phase all processes take part in the same sequence of collective operations with the same root and compatible data, every message sent is received, and all processes finish, for any process count and any timing, also when messages are not buffered. "
  "This includes processes without work, empty states and states from which only a part of the basis is reachable.",
  ["schedules", "configurations", "inputs"], "all interleavings and buffering behaviours of all process counts, in matrix assembly, expansion, Krylov iterations, spectra and RIXS in every parallel mode",
  "The tests use one process, for which every communication trivially completes.",
  ["finite.py", "spectra.py", "mpi_comm.py"], [("send/recv + bcast in expand_basis", "finite.py"), ("Reduce/Bcast in get_tridiagonal_krylov_vectors", "finite.py"), ("bcast loops", "finite.py, spectra.py, mpi_comm.py")],
  observe=["communication calls of every rank"])
p("C12", "Gathering dictionaries delivers the union to every process",
  "When every process contributes its own dictionary, afterwards every process holds what it held before plus all contributed entries with unchanged values, whatever the sizes, including empty contributions and any chunk size. "
  "The transfer in chunks splits one process's dictionary into pieces of at most the chunk size that are disjoint and complete, all processes see the same number of pieces, and contributions are not altered. When gathering with a maximal chunk size no process ever sends a dictionary with more entries than that at once.",
  ["configurations", "schedules", "inputs"], "all process counts, dictionary sizes, chunk sizes (1, exact multiples, larger than the data) and pre-existing contents",
  "There is no test, and the routine could not even run with the installed numpy.",
  ["mpi_comm.py"], [("allgather_dict", "mpi_comm.py"), ("dict_chunks_from_one_MPI_rank", "mpi_comm.py")], observe=["dictionaries on every rank"])
p("C13", "The Green's function equals the exact resolvent",
  "For a normalised state and a Hermitian Hamiltonian the computed Green's function is <psi|((omega+i delta+e)1-H)^-1|psi> within the active space once the Krylov space is large enough, including when the state spans only a small invariant subspace; with fewer Krylov steps it equals the resolvent of the Hamiltonian projected on that Krylov space. "
  "All algorithms and the distributed calculation agree, and the result of the empty state is zero.",
  ["inputs", "configurations", "schedules"], "all Hamiltonians, states, energy meshes, broadenings of either sign, Krylov sizes (1, below, at and beyond exhaustion), algorithms and process counts",
  "No test computes a Green's function (the comparison test needs a missing file); errors in the recursion, the sign of the broadening or exhaustion need exact reference values.",
  ["spectra.py", "finite.py"], [("getGreen", "spectra.py"), ("get_tridiagonal_krylov_vectors", "finite.py")], observe=["returned array on the first rank"])
p("C14", "Each spectrum is independent of the batch, the mode and the process count",
  "The Green's function reported for one eigenstate and one transition operator is <psi|T^dagger ((omega+i delta+e)1-H)^-1 T|psi> and is the same whichever other eigenstates and operators are in the batch, in whichever order, in either parallel mode and for any number of processes. "
  "Operators that annihilate the state give zero.",
  ["histories", "configurations", "schedules"], "all lists of eigenstates and transition operators (repeated, annihilating, of different particle number), both parallel modes, all process counts, any restrictions",
  "No test runs it; leaking state from one entry to the next needs several operators and states in one batch with an exact reference for each entry.",
  ["spectra.py"], [("getSpectra", "spectra.py"), ("shared h and t_big dictionaries", "spectra.py")], state=[("operator memo", "T|product state>", "t_big"), ("column store", "H|product state>", "h")], observe=["returned array"])
p("C15", "Each RIXS entry follows the two-step formula, independent of the others",
  "Every element of a RIXS map equals <psi3|((wLoss+i delta2+e)1-H)^-1|psi3> with psi3 = Tout ((wIn+i delta1+e)1-H)^-1 Tin |psi> for its own eigenstate, incoming operator, outgoing operator and incoming energy, to solver accuracy. "
  "It does not depend on which other operators, energies or eigenstates are computed in the same call, on the parallel mode or on the number of processes.",
  ["histories", "configurations", "schedules"], "all lists of incoming and outgoing operators, eigenstates and energies, all parallel modes, all process counts",
  "No test runs it; with a single outgoing operator the memo shared between operators was invisible.",
  ["spectra.py"], [("getRIXSmap, both mode branches", "spectra.py")], state=[("operator memos", "T|product state> per operator", "tIn_big, tOut_big"), ("column stores", "H|product state>", "h_dict_excited, h_dict_ground")], observe=["returned array"])
p("C16", "Interaction and one-body model terms have the right form and symmetries",
  "The Coulomb operator is the Slater-Condon multipole expansion for any Slater integrals: Hermitian for exchange-symmetric shells, conserving particle number, total Lz and Sz, and commuting with all components of the shell's total L and S; the variant without spin has the same expansion over (l, m), and the printed table of coefficients shows their values. "
  "The spin-orbit operator is xi times L.S, so it commutes with the total angular momentum, and the magnetic-field operator is h.S for any field direction, for every angular momentum.",
  ["inputs"], "all shells (s, p, d, f and mixed p-d), all Slater integrals, spin-orbit strengths and field vectors",
  "No test evaluates an interaction coefficient; errors in one multipole rank, one sign or one field component break the symmetries only for some inputs.",
  ["finite.py"], [("gauntC, getU, getNoSpinUop, getUop, get2p3dSlaterCondonUop", "finite.py"), ("getSOCop, gethHfieldop", "finite.py")], observe=["returned operators"])
p("C17", "Operators and states form a consistent algebra",
  "The adjoint of an operator satisfies <a|O b> = conj(<b|O^dagger a>) for all states, is its own inverse and is antilinear; the sum of operators acts as the sum of their actions. "
  "Inner product, norm, addition and scaled in-place addition of states obey the axioms of a complex inner-product space and change nothing but their declared target, and the Hermiticity guard accepts exactly operators equal to their adjoint up to rounding.",
  ["inputs"], "all operators and states with complex amplitudes, overlapping and disjoint supports",
  "The tests contain no complex operator and no adjoint; conjugation on the wrong factor is invisible for real amplitudes.",
  ["finite.py"], [("daggerOp, addOps, assert_hermitian", "finite.py"), ("inner, add, addToFirst, norm2", "finite.py")], observe=["returned operators, states and numbers"])
p("C18", "Observables equal the expectation values of their operators",
  "For any state, the reported Lz, Sz, L^2, S^2, shell occupation, density matrix in spherical and cubic harmonics and eg/t2g occupations per spin are the expectation values of the corresponding operators, and the ladder operators act as those of angular momentum. "
  "The spherical-to-cubic transformation is unitary with the documented ordering, and traces and totals agree with each other.",
  ["inputs"], "all normalised states, also with complex amplitudes, several shells and bath electrons",
  "No test evaluates an observable; index order, conjugation and spin labels matter only for complex superpositions.",
  ["finite.py"], [("get*3d, getDensityMatrix*, getEgT2gOccupation", "finite.py"), ("apply*3d", "finite.py"), ("get_spherical_2_cubic_matrix", "finite.py")], observe=["returned values"])
p("C19", "Transition operators have the documented matrix elements",
  "The dipole operator for any polarization has matrix elements <l m|n.r/r|l' m'> conserving spin, and is linear in the polarization; its emission counterpart is the adjoint. The momentum-transfer operator is proportional to <i|exp(iq.r)|j> expanded from the requested lowest multipole, with the radial integral and the direction of q, for every non-zero q. "
  "Photoemission and inverse photoemission operators remove and add one electron in each spin-orbital of the shell once, in spin-then-m order.",
  ["inputs"], "all polarizations (complex too), all momentum transfers including along the axes, all shells, radial functions and multipole cut-offs",
  "No test builds a transition operator; direction errors vanish for the one momentum direction used by the default run.",
  ["spectra.py", "finite.py"], [("getDipoleOperator(s), getDaggeredDipoleOperators", "spectra.py"), ("getNIXSOperator(s)", "spectra.py"), ("get(Inverse)PhotoEmissionOperators", "spectra.py"), ("gauntC", "finite.py")], observe=["returned operators"])
p("C20", "Thermal averages are canonical Boltzmann averages",
  "The thermal average of any observable is sum_i exp(-E_i/kT) O_i / sum_i exp(-E_i/kT), independent of the zero of energy and of the order of the states, finite for any energies and any T > 0, for scalars and arrays. "
  "Energies and observables of different number are refused.",
  ["inputs"], "all energies (unsorted, negative, huge, degenerate), all temperatures and observable shapes",
  "No test covers it; overflow, shifts and unsorted energies need inputs beyond the default run.",
  ["average.py"], [("thermal_average", "average.py")], observe=["returned value"])
p("C21", "Reported eigenstates are the lowest eigenstates of the Hamiltonian",
  "The solver returns the requested number of energies in ascending order with one state each; every state is an eigenstate of the Hamiltonian in the basis with that energy up to the stated tolerance and weight cutoff, the states are orthonormal, and no eigenvalue below the highest returned one is missing, counting degeneracy. "
  "Both diagonalisation methods and all processes agree on the energies.",
  ["inputs", "configurations"], "all Hermitian Hamiltonians and bases, numbers of states up to the basis size (full) or two below it (Lanczos, the limit of the sparse solver), both methods, any process count",
  "No test diagonalises; missing or unsorted states and mismatched pairs need an independent count of eigenvalues.",
  ["finite.py"], [("eigensystem", "finite.py")], observe=["returned energies and states"])
p("C22", "The model Hamiltonian is the sum of its documented terms for any input",
  "The Hamiltonian built from the parameters and the non-interacting input is Coulomb interaction plus spin-orbit coupling of both shells plus magnetic field minus the double counting plus the input Hamiltonian, on the numbered orbitals; it is Hermitian and conserves the particle number. "
  "The crystal-field input has cubic symmetry with the given eg and t2g levels, bath energies and hoppings, includes conduction baths only when present, and describes the same physics in either bath basis.",
  ["configurations", "inputs"], "all Slater integrals, couplings, fields, nominal occupations, double-counting parameters, non-interacting inputs, crystal-field files with any subset of the parameters, with and without conduction baths, both bath bases",
  "The tests only load the input files; no test assembles a Hamiltonian and the default crystal-field run was rejected by its own check.",
  ["get_spectra.py", "get_spectra_using_CF.py", "finite.py"], [("get_hamiltonian_operator", "get_spectra.py"), ("get_hamiltonian_operator_using_CF, get_CF_hamiltonian, read_h0_CF_file", "get_spectra_using_CF.py"), ("dc_MLFT", "finite.py")], observe=["returned operator"])
p("C23", "The calculation driver hands on and stores exactly what was computed",
  "A run keeps exactly the eigenstates within the energy window above the ground state, computes every spectrum with the requested temperature, broadenings and occupation restrictions, and reports thermal expectation values at that temperature. It prints a table of the expectation values of every eigenstate, the heaviest product states of each with their weights, and the occupied cubic orbitals with their coherences. "
  "Every stored spectrum is minus the imaginary part of its Green's function, photoemission with the sign and energy convention that makes all spectra non-negative; thermal averages, sums, column order and the map file agree with it, and only the first process writes.",
  ["configurations", "histories"], "all run parameters (shells, baths, occupations, temperature, window, broadenings), all sets of eigenstates, any process count",
  "No test runs the driver; wrong restrictions, temperature, ordering or file layout change results silently.",
  ["get_spectra.py", "get_spectra_using_CF.py", "spectra.py", "finite.py", "average.py"], [("main", "get_spectra.py, get_spectra_using_CF.py"), ("simulate_spectra", "spectra.py"), ("printThermalExpValues", "finite.py")], observe=["spectra.h5, data.npz, *.dat, RIXS.bin, printed expectation values, arguments reaching the spectra stage"])
p("C24", "Command-line input reaches the calculation unchanged or is refused",
  "Every command-line option of the two run commands arrives in the calculation with the value given, or with its documented default, and inconsistent input (list lengths, valence baths exceeding baths, occupations outside the shell, wrong number of Slater integrals or field components) is refused before anything is computed. "
  "The documented run scripts and the plot commands can be used as documented.",
  ["configurations"], "all combinations of options of the two commands, the documented scripts, and the plot commands with and without arguments",
  "No test runs a command line.",
  ["get_spectra.py", "get_spectra_using_CF.py", "impurityModel/plotScripts/plotSpectra.py", "scripts/run_Ni_NiO_50p10bath.sh"], [("argument parsing and sanity checks", "get_spectra.py, get_spectra_using_CF.py"), ("plot commands", "impurityModel/plotScripts/")], observe=["arguments received by the calculation, exit status"])
p("C25", "A complete run gives the spectra of the model it was asked for",
  "For the parameters and the non-interacting input of a run, the stored energies are the lowest eigenvalues of the model Hamiltonian in the declared configurations, and every thermally averaged spectrum (valence and core photoemission, absorption, inelastic scattering with momentum transfer up to one common positive factor, resonant inelastic scattering) is the Boltzmann average, over the eigenstates inside the energy window, of the spectrum of the model inside the occupation limits, at every point of its mesh. "
  "It depends on nothing else: not on the number of processes, the choice of eigenvectors inside a degenerate level or the solver's starting point.",
  ["configurations", "inputs", "histories"], "all run parameters (shells, baths, occupations, interactions, fields, input Hamiltonians or crystal-field files, temperature, window, broadenings), any process count, within the documented truncations (component weight 1e-7, solver tolerance)",
  "Each stage can be right alone and wrong together (operators, basis, limits, window and averages that do not fit); no test runs a calculation, and the right spectra are unknown without an independent solution of the model.",
  ["get_spectra.py", "get_spectra_using_CF.py", "spectra.py", "finite.py", "average.py", "product_state_representation.py"], [("main", "get_spectra.py, get_spectra_using_CF.py"), ("simulate_spectra", "spectra.py"), ("eigensystem", "finite.py")], observe=["energies and thermally averaged spectra in data files"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
