TL = "TLA+/TLC model checking + replay of specification behaviours into the code"
TV = "TLA+/TLC model checking + validation of traces recorded from the code"
NOTE = ("Exhaustive TLC state graph of a bounded instance (every transition replayed into the real classes) plus seeded random "
        "behaviours of larger instances; sound up to the bounds and to the adapter that maps actions and observations.")

# ------------------------------------------------------------------ names and containers
prop("A01", "Names and aliases identify one object, for ever",
     "Every object gets a name that is unique among all objects and never changes afterwards; aliases can be added (singly or as lists, "
     "at construction or later) only if no other object already uses the string as name or alias, and a refused alias leaves everything as it was. "
     "Looking an object up by its name, by any of its aliases, or by itself, from any object, always finds that object, and an unknown string is "
     "refused with an error; the results container of an object is found under every name and alias of the object followed by 'Results'.",
     ["histories"], "every sequence of creations (with or without aliases, internal or external, of several classes), alias additions, alias lists and renaming attempts",
     "tests create a handful of objects and assert single names; uniqueness and lookup must survive every interleaving of creation and aliasing",
     [C + "base.py", C + "baseClasses.py"],
     [("named / aliasClass / qName uniqueness", C + "base.py"), ("computeBase.alias", C + "baseClasses.py")], tech=TL, note=NOTE)
prop("A02", "Name-keyed dictionaries treat all spellings of a key as one key",
     "In the dictionaries that hold named objects (sub-systems, terms, steps, results, bounds), an entry made under the name of an object is found, changed, deleted and counted under that name object, its text and every alias of the object "
     "(also an alias added after insertion): these are one key for reading, writing, deleting, membership, get, pop, update and setdefault, and there is never a second entry for the same object. Other keys "
     "keep the behaviour of an ordinary insertion-ordered dictionary, and copies are independent.",
     ["histories"], "every sequence of dictionary operations and alias additions over named and plain keys, in every spelling",
     "tests check a few operations on one dictionary; the equivalence must hold after any history and for aliases added later",
     [C + "base.py"], [("aliasDict", C + "base.py"), ("qName equality/hash", C + "base.py")], tech=TL, note=NOTE)
prop("A03", "Adding and removing contained objects keeps an ordered set of them",
     "An object's sub-systems are an insertion-ordered collection without repetition: objects can be added or removed by reference, name, alias, in lists or by class, adding again what is "
     "there changes nothing, assigning replaces the whole collection, resetting empties it; adding or removing something that does not exist (an unknown name, not an object) or removing what is not in the collection raises an error and changes nothing; what happens to one collection never changes another.",
     ["histories"], "every sequence of add/create/remove/reset/assign operations in every way of naming the objects",
     "unit tests exercise single calls on fresh objects",
     [C + "base.py"], [("qBase.addSubSys/createSubSys/removeSubSys/resetSubSys/subSys", C + "base.py"), ("addDecorator / _recurseIfList", C + "base.py")], tech=TL, note=NOTE)

# ------------------------------------------------------------------ composite systems, Hamiltonians, states
prop("B01", "Composite systems: dimensions and tensor placement follow the structure",
     "However systems are nested, re-dimensioned, coupled, uncoupled, removed, reset and added again, the dimension of a composite system is the product of the dimensions of its parts, and the Hamiltonian of "
     "every system of the structure is the sum of its own terms, its parts' Hamiltonians and its couplings, each placed in the tensor product in the order the structure lists the systems. Removing a system drops exactly the couplings "
     "that reached across the cut (couplings inside what is taken out stay with it) and leaves both sides usable; adding a system inside itself, to a single system, or coupling systems that are not inside is refused and changes nothing.",
     ["histories", "inputs"], "every sequence of add/remove/reset/dimension/couple/uncouple operations on trees of systems, in every order and nesting depth",
     "tests build a few fixed structures; dimension bookkeeping is incremental and must be right after every history of structural edits",
     [C + "QSystem.py", C + "QTerms.py"],
     [("_updateDimension / _dimsBefore / _dimsAfter", C + "QSystem.py"), ("addSubSys / _removeSubSysExc / resetSubSys", C + "QSystem.py"), ("QTerm._constructMatrices", C + "QTerms.py")],
     observe=["totalHamiltonian", "dimension", "subSys"], tech=TL, note=NOTE)
prop("B02", "A Hamiltonian always reflects the current terms and parameters",
     "At any moment the total Hamiltonian of a system equals the sum, over the terms it currently lists, of frequency times the operators raised to their orders at the systems they act on, plus those of its sub-systems, for the current parameter values, "
     "no matter which frequencies, operators, orders, coupled systems or dimensions were changed, terms added or removed, matrices deleted, or which of these values were read in between.",
     ["histories", "inputs"], "every interleaving of parameter changes, term additions/removals, dimension changes, matrix deletions and reads",
     "matrices are cached and invalidated by notification; tests read after single changes, so stale caches after multi-step histories are not reached",
     [C + "QSystem.py", C + "QTerms.py", C + "baseClasses.py"],
     [("_paramUpdated / _paramBound notification", C + "baseClasses.py"), ("QTerm.totalHamiltonian, setters", C + "QTerms.py"), ("QuantumSystem.totalHamiltonian, delMatrices", C + "QSystem.py")], tech=TL, note=NOTE)
prop("B04", "Initial states are the tensor product the inputs describe",
     "The initial state of a single system is, at every moment, the normalised superposition its latest input describes (a basis index, a list of indices with equal weights, a dictionary of populations or amplitudes) or the vector it is given. "
     "A list given to a composite system is the same as giving its elements to its parts, in structure order, and the state of a composite system is the tensor product of the states of its parts, also through nested composites, unless it was itself given a vector, which stays in effect. "
     "The state of the system, of its simulation and of its free evolution agree and follow every later change of inputs (of any part, however deep), dimensions and structure; a protocol that is given its own initial state keeps it and changes no other state. "
     "An index that does not fit the dimension gives None (until the dimension is large enough), and an invalid input raises an error and changes nothing.",
     ["histories", "inputs"], "all input forms on nested structures, interleaved with changes of inputs, dimensions and structure and with reads in between",
     "tests check fixed examples; the state is cached and recomputed lazily on input/dimension/structure changes, so that stale or mixed-up states need particular orders of changes and reads",
     [C + "QSimBase.py", C + "QSystem.py", C + "QPro.py", T + "states.py"],
     [("stateBase.initialState / _getMaxInput", C + "QSimBase.py"), ("QuantumSystem.initialState, _createInitialState, _resetInitialState", C + "QSystem.py"), ("genericProtocol.initialState", C + "QPro.py"), ("superPos", T + "states.py")], tech=TL, note=NOTE)

# ------------------------------------------------------------------ protocols
prop("C01", "Evolution operators always reflect the current system and parameters",
     "The unitary of a protocol (and of the default free evolution) equals, at every moment, the product its definition prescribes for the current Hamiltonian parameters, step size, sample count, frequencies, ratios, gate angles/phases and system dimension: "
     "changing any of them, in any order and with any reads in between, is always seen by the next read, including through nested and copied steps.",
     ["histories", "inputs"], "every interleaving of parameter changes (system, step, protocol, simulation), nested protocols, copies and reads",
     "unitaries are cached behind a dirty flag that many setters have to raise; tests check a few single changes",
     [C + "QPro.py", C + "QProtocol.py", C + "QGates.py", C + "QSimBase.py", C + "baseClasses.py"],
     [("genericProtocol.getUnitary / _paramUpdated", C + "QPro.py"), ("freeEvolution / copyStep", C + "QPro.py"), ("SpinRotation, xGate", C + "QGates.py")], tech=TL, note=NOTE)
prop("C02", "A protocol is the time-ordered product of its steps",
     "The unitary of a protocol is the product of the unitaries of its steps with the first step acting first, whatever mixture of gates, evolutions, nested protocols, repeated steps, Hermitian-conjugate copies, fixed steps and time ratios it consists of and however steps were added or removed; "
     "a conjugate step always contributes the Hermitian conjugate of the current unitary of the step it refers to, and a fixed step keeps the unitary it had when it was first used.",
     ["histories", "programs"], "every protocol tree built by adding, nesting, repeating, conjugating, removing steps",
     "tests compare a few fixed step lists",
     [C + "QPro.py", C + "QProtocol.py"], [("qProtocol unitary creation (matMulInputs order)", C + "QProtocol.py"), ("genericProtocol.hc / _hcUnitary / copyStep / Step.fixed", C + "QPro.py")], tech=TL, note=NOTE)
prop("C03", "Temporary parameter updates of a step never leak",
     "Updates attached to a step (setting a value, or the value of another object, before the step and resetting it after) are in force exactly while that step's unitary is calculated: during it the step sees the updated values, and after it every updated attribute has the value it had before, in every nesting and order of updates.",
     ["histories", "programs"], "every protocol with several updates on overlapping attributes, nested, repeated",
     "one test checks one update; restoration must hold for all sequences of updates",
     [C + "QPro.py"], [("Update.setup / setback", C + "QPro.py"), ("genericProtocol._runCreateUnitary", C + "QPro.py")], tech=TL, note=NOTE)

# ------------------------------------------------------------------ time and inheritance
prop("D01", "Total time, step size and step count stay consistent",
     "Whichever of total time T, step size dt and step count N are set, in any order and any number of times, the three stay consistent: setting T or dt keeps the other one and N follows from them as the number of whole steps in T plus one (T // dt + 1, both ends of the time grid), setting N keeps T and makes dt = T/N, and the values of T and dt set last are the ones read back; reads in between change nothing.",
     ["histories", "inputs"], "every sequence of assignments of T, dt, N with reads and bound objects in between",
     "tests set the three values in one or two orders",
     [C + "QSimBase.py", C + "QSim.py"], [("timeBase.totalTime/stepSize/stepCount setters", C + "QSimBase.py")], tech=TL, note=NOTE)
prop("D02", "Simulation parameters are inherited until they are overridden",
     "A protocol or step inherits total time, step size, step count, samples, initial state and state-deletion flag from the simulation it is added to, follows later changes there, and keeps its own value from the moment one is set on it (an evolution that becomes a step of a protocol follows that protocol from then on); setting a value on one object never changes the value of an object above it or of an unrelated one.",
     ["histories", "configurations"], "every tree of simulation/protocol/step with assignments and additions in every order",
     "tests cover single bindings",
     [C + "QSimBase.py", C + "QSim.py", C + "QPro.py"], [("_parameter bound chain", C + "QSimBase.py"), ("timeBase._bound", C + "QSimBase.py")], tech=TL, note=NOTE)

# ------------------------------------------------------------------ sweeps and runs
prop("E01", "A sweep visits every point of its grid exactly once, in order",
     "Running a simulation with sweeps evaluates every combination of the values of the combinatorial sweeps exactly once, the first created sweep varying slowest, while non-combinatorial (simultaneous) sweeps step together with the sweep they were created with; at every point all swept attributes (of objects, lists of objects or user functions) have exactly the values of that point, whether they are given as a list or as minimum, maximum and step. Sweeps can be added, edited (values, kind, further systems) and removed (one sweep, or all those of a system, which leaves sweeps of several systems to the others) between runs.",
     ["configurations", "inputs"], "all numbers, sizes, kinds and creation orders of sweeps, re-runs and edits between runs",
     "tests run one or two fixed sweeps; the index arithmetic has to be right for all shapes",
     [C + "QSweep.py", C + "modularSweep.py", C + "QSim.py"], [("Sweep.prepare / runSweep / _Sweep", C + "QSweep.py"), ("indices from linear index", C + "modularSweep.py")], tech=TV, note=NOTE)
prop("E02", "Results and states are returned in the shape of the sweep grid",
     "After a run, the saved results, averages and states of every object are nested lists whose shape is the grid of sweeps (first created sweep outermost, what was recorded during one evolution, in order of time, innermost; a single recorded value stands for itself when there is a grid), and the entry at every grid position is what was computed for that parameter combination and time, also when several results and protocols are involved, whether run serially or in parallel.",
     ["configurations"], "all sweep shapes, result counts, protocol counts",
     "tests check fixed shapes",
     [C + "QRes.py", C + "modularSweep.py", C + "QSim.py"], [("qResults._organiseResults / _unpack", C + "QRes.py")], tech=TV, note=NOTE)
prop("E03", "A trajectory is the repeated application of the protocol to the initial state",
     "For every protocol of a simulation, the k-th stored state is the k-fold application of the protocol's unitary (for samples > 1, sample by sample) to its initial state, the first one being the initial state itself; compute functions and currentState see exactly these states; with deletion of states switched on they are seen in the same way but not stored. Every grid point starts again from the initial state.",
     ["configurations", "inputs"], "all time grids, sample counts, protocol trees, numbers of protocols and initial states",
     "tests compare a few trajectories with closed forms",
     [C + "QSim.py", C + "modularSweep.py", T + "evolution.py"], [("timeEvolBase and its helpers", C + "modularSweep.py")], tech=TV, note=NOTE)
prop("E04", "User callbacks run at the prescribed moments, in order",
     "During a run the callbacks of simulation, protocols, systems and sweeps are called at prescribed moments for every sweep point: pre-functions once before the evolution, compute functions once at time zero and once after every step with the state(s) of that moment, post-functions once afterwards; at each moment the simulation's comes first, then those of its protocols in the order they were added, then those of the systems.",
     ["configurations"], "all combinations of callbacks set on the objects taking part, of sweeps, samples and protocols",
     "tests set one callback at a time",
     [C + "QSim.py", C + "modularSweep.py", C + "baseClasses.py"], [("Simulation.__compute / _computeBase__calculate", C + "QSim.py"), ("runSimulation / timeEvolBase", C + "modularSweep.py")], tech=TV, note=NOTE)
prop("E05", "Parallel runs give the same results as serial runs",
     "Running the same simulation over a process pool returns the same results and states, in the same positions, as running it serially, for every sweep shape and pool size, and leaves the parameters of the caller's objects as they were.",
     ["schedules", "configurations"], "all sweep shapes and pool sizes/chunkings",
     "tests run one parallel case, if any",
     [C + "modularSweep.py", C + "QSim.py"], [("parallelSequence / p.map", C + "modularSweep.py")], tech=TV, note=NOTE)
prop("E06", "Runs are independent of earlier runs",
     "Running a simulation again, with or without changes of parameters, sweeps, protocols or systems in between, gives exactly what a freshly built simulation with the same current settings gives; nothing of earlier runs (results, states, cached matrices, sweep positions) leaks into later ones.",
     ["histories"], "all histories of runs and changes",
     "tests run each simulation once",
     [C + "QSim.py", C + "QRes.py", C + "QSweep.py"], [("Simulation.run / _freeEvol reset", C + "QSim.py"), ("qResults reset", C + "QRes.py")], tech=TV, note=NOTE)
prop("F01", "Time-dependent parameters see the time of each step",
     "Time-dependent frequencies, time-dependent term functions and time-dependent sweeps of all terms and couplings at any depth are evaluated for every step at that step's time (k times the step size for step k = 1, 2, ...; the k-th value of a time-dependent sweep), in order and from the start in every run and at every grid point, and each step evolves under the Hamiltonian of its own time.",
     ["configurations", "histories"], "all grids, samples, nesting and re-runs",
     "tests check one driven example",
     [C + "QTerms.py", C + "QSim.py", C + "modularSweep.py", C + "QSweep.py"], [("_currentTime, timeDependency", C + "QSim.py")], tech=TV, note=NOTE)
prop("G01", "A simulation evolves exactly the protocols and systems added to it",
     "A simulation evolves an ordered collection of evolutions, each once and each with its system: adding a bare system adds its free evolution unless the system already has an evolution there, adding a protocol (for its own system or, if it has none yet, for the system given) adds it at the end and, if asked, "
     "takes another one out; removing a protocol or free evolution removes exactly that one, removing a system removes all its evolutions, each with the sweeps of what is gone, in whatever way they are named (object, name, alias, lists) and whether the simulation has been run before or not; "
     "refused calls and calls on another simulation change nothing. Runs evolve exactly the evolutions present at that moment, in that order, on the time grid of the simulation the system was last added to.",
     ["histories"], "every sequence of add/create/remove/reset of systems and protocols in every naming form",
     "tests call the methods once each",
     [C + "QSim.py"], [("Simulation.addProtocol/addQSystems/removeProtocol/removeQSystem/...", C + "QSim.py")], tech=TL, note=NOTE)
prop("H01", "Copies of systems are equal and independent",
     "Copying a quantum system (single or composite, at any depth, alone or as a part of a larger system) gives a new tree of systems of the same types, in the same order, with the same dimensions, terms (all of them, couplings between parts at any depth included, with their functions of time), Hamiltonian, free evolution and initial-state inputs, with names of its own and sharing no system or term with the original; from then on a change on either side is not seen by the other. "
     "Arithmetic builds composites with the right parts in the right order: a + b adds a single system to the end of a composite system, makes a new composite of two single or of two composite systems, and copies a system that is added to itself; k * a contains a and k - 1 copies of it; a - b removes b and the couplings it takes part in.",
     ["histories", "inputs"], "all structures built by arithmetic, copied, then changed on either side in any order",
     "tests copy one composite with one coupling and compare Hamiltonians once; that a copy loses nothing and shares nothing has to hold for every structure and every later change",
     [C + "QSystem.py", C + "QTerms.py", C + "base.py"], [("QuantumSystem.copy, _copyExc / __add__ / __sub__ / __rmul__", C + "QSystem.py"), ("QTerm", C + "QTerms.py")], tech=TL, note=NOTE)
prop("I01", "Open-system evolution follows the dissipators that are present",
     "The evolution matrix of a protocol (and of every step in it, at any depth, repeated steps included) is the exponential of the Liouvillian made of the current Hamiltonian and of exactly the dissipators attached to it or to the protocols that contain it - each once, with its current jump operator (also after the operator, or the dimension of the system, changes) and its current rate (its own, or the one its thermal bath, temperature and type give); without any it is the unitary. "
     "A protocol is open as soon as it or a protocol above it has a dissipator, whenever that was attached, and then all its matrices are super-operators; gates act on a density matrix as U rho U^+. States obtained by running are density matrices that follow these matrices.",
     ["histories", "inputs"], "every history of attaching dissipators and baths, changing rates, types, temperatures, jump operators, Hamiltonians, ratios, step sizes and dimensions, adding and removing steps, reading matrices and running",
     "tests attach one dissipator to one system and run once",
     [C + "QPro.py", C + "environment.py", C + "QSystem.py", T + "evolution.py"], [("genericProtocol dissipators, _rates", C + "QPro.py"), ("thermalBath, dissipatorObj", C + "environment.py")], tech=TL, note=NOTE)
prop("J01", "Saved data are read back unchanged",
     "Data written to a file (numbers of any type, real or complex; a list, a list of lists of any lengths, or arrays) and read back have the same values in the same rows and order, exactly, also when read as complex numbers or as their real parts; saving changes neither the data nor any other file, and saving under the same name replaces what was there. "
     "The results of a run are saved completely: for every object and key one file per combination of leading grid indices (all but the last two levels of the nesting), each of which reads back as that part of the results.",
     ["inputs", "histories"], "every history of saving data and results of any shape and type under the same and different names, running again with other grids, and reading",
     "the tests only read three files written long ago",
     [X + "saveReadCSV.py", X + "_helpers.py"], [("saveCSV/readCSV", X + "saveReadCSV.py")], tech=TL, note=NOTE)
prop("M01", "The tensor toolbox obeys the algebra of tensor products",
     "For matrices and kets over any list of factor dimensions, sparse or dense: tensorProd multiplies in the listed order; compositeOp and integer factors (Python or NumPy integers) place an operator between identities; products and powers multiply in the listed order; partialTrace keeps exactly the listed factors, in order, so it keeps the trace and inverts tensor products; hc, outer and inner products, norm, trace, expectation, purity, fidelityPure and weightedSum are the textbook functions; "
     "_preSO, _postSO, _prepostSO, dissipator and Liouvillian act on the vectorised matrix as left, right and two-sided products and as the Lindblad generator, mat2Vec and vec2Mat are inverse, and HeatCurrent is the rate of change of the energy. No function changes its inputs, and every result can be the input of every other function.",
     ["inputs", "histories"], "all sequences of these functions over small matrices (exhaustively), and random sequences over complex integer matrices with up to 18 rows and 4 factors",
     "tests sample a few inputs of each function alone",
     [T + "linearAlgebra.py", T + "evolution.py", T + "operators.py", T + "states.py", T + "functions.py", T + "thermodynamics.py"],
     [("tensorProd, partialTrace, _matMulInputs", T + "linearAlgebra.py"), ("_preSO, _postSO, _prepostSO, dissipator, Liouvillian", T + "evolution.py"), ("mat2Vec, vec2Mat, densityMatrix", T + "states.py")], tech=TL, note=NOTE)
prop("L01", "The standard operators, states and observables have their defining values",
     "For every dimension: ladder, number, parity and spin operators (all spins, given by spin or dimension), Pauli matrices, gates (CNOT, CPHASE, Hadamard), Bell states, rotations, displacement, squeezing and the qubit-cavity couplings have the matrix elements that define them, sparse and dense, and so do their powers. Basis states, superpositions (amplitudes or populations, normalised or not, in any order), composite states and mixtures have the stated amplitudes. "
     "Expectation value and standard deviation, entropy, purity, trace distance, fidelity, concurrence, inverse participation ratio, Husimi and Wigner functions, sorted eigenvalues, spectral norm, thermal occupation and polarisation take their exact values on states where those are known, in any basis and matrix form; evolveOpen gives total/step + 1 states that follow the known decay, the last vector of steadyState is the steady state, and UJC is the evolution of the Jaynes-Cummings Hamiltonian. No function changes its arguments.",
     ["inputs"], "every dimension up to 10 (40 thorough), all weights, all populations and amplitudes within the bounds",
     "tests compare a few dimensions and states",
     [T + "operators.py", T + "states.py", T + "functions.py", T + "basicGates.py", T + "spinRotations.py", T + "quasiProbabilities.py", T + "IPR.py", T + "thermodynamics.py", T + "Hamiltonians.py", T + "evolution.py"],
     [("Jp, Jm, Jx, Jy, Jz, Js, destroy, create", T + "operators.py"), ("superPos, compositeState", T + "states.py"), ("entropy, concurrence, traceDistance", T + "functions.py"), ("HusimiQ, Wigner", T + "quasiProbabilities.py")], tech=TL, note=NOTE)
prop("N01", "Level statistics: distributions and eigenvector components",
     "The distributions of random matrix theory (EigenVectorDist for beta 1, 2 and 4 in any dimension, the Wigner surmise for beta 0, 1, 2 and 4, Poissonian) are probability distributions: they integrate (add up) to one, have the means and moments of their "
     "classes and the level repulsion x^beta. The component statistics of a matrix, of a set of eigenvectors (columns) or of a ket in any basis are the squared moduli of exactly all components, in order, and for symplectic statistics the sums of each pair of neighbouring components.",
     ["inputs"], "all classes, dimensions up to 8 (10) and up to 1000 in steps, moments up to 2 (4), all kets with small integer components, all products of two rotations with small integer sides",
     "there are no tests for these functions, and a sample of values does not settle a distribution",
     [T + "rmtDistributions.py", T + "eigenVecVal.py"], [("EigenVectorDist, WignerDyson, Poissonian", T + "rmtDistributions.py"), ("_eigStat, _eigStatEig, eigVecStatKet", T + "eigenVecVal.py")], tech=TL, note=NOTE)
