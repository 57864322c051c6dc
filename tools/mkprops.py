"""Writes properties.jsonl and MANIFEST.json (single source of the property texts)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/tad_dftd4/"
P = []


def prop(id, title, statement, over, text, why, files, mech, level, technique, note, observe=(), state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     mechanism=[dict(name=n, where=S + w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None),
        _level=level, _technique=technique, _note=note))


prop("C01", "Atom-resolved energies equal the published D4 / D4S expression",
     "For every supported element (1-103), geometry, total charge, damping parameter set and both models (D4, D4S), the atom-resolved energy equals the published expression: rationally damped C6/C8 (and, when s10 is given, C10) pair terms from charge- and coordination-scaled reference polarizabilities, plus the zero-damped Axilrod-Teller-Muto triple term from charge-independent C6 with C9 = sqrt|C6 C6 C6|, each pair energy split equally over its two atoms and each triple energy equally over its three. Missing parameters take their documented defaults (s6 = s8 = s9 = 1, alp = 16), and user-supplied charges, r4r2 values, cutoffs, coordination number and counting functions and model instances (other ga, gc, wf, GFN2 reference charges) enter exactly as documented.",
     ["inputs", "configurations"], "all element pairs and triples, geometries, charges, parameter sets, models and overrides",
     "The tests compare a handful of molecules with stored numbers for one parameter set, mostly default options and few elements, and never a non-default alp, s10, ga/gc/wf or mixed overrides; 103 elements and their pairs are not covered.",
     ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "model/d4.py", "model/d4s.py", "model/base.py", "reference/d4/params.py", "data/r4r2.py", "data/wfpair.py"],
     [("two-body sum", "dispersion/twobody.py"), ("ATM sum", "dispersion/threebody.py"), ("reference weighting", "model/d4.py")],
     "exploration", "exhaustive bounded enumeration against a NumPy reference model",
     "Every point of a finite product of elements, geometries, parameter sets and call variants is executed and compared with an independent implementation of the formulas; trusts the out-of-tree CN and EEQ routines and the frozen golden data tables.", ["dftd4"])

prop("C02", "Batching and padding never change a system's results",
     "Evaluating systems together in one padded batch gives every system the same atomic energies, properties and gradients as evaluating it alone, for any batch size, batch order, number of batch dimensions, mixture of system sizes, elements and charges, amount and place of padding, and padding coordinates. Padding atoms contribute and receive exactly zero energy and zero gradient.",
     ["inputs", "configurations"], "all batches up to the stated size of systems from the alphabet, all padding layouts, both models and all calculators",
     "Tests batch two fixed molecules with trailing zero padding only; batch composition, layout, size one, several batch dimensions and padding coordinates are never varied.",
     ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "model/d4.py", "model/d4s.py"],
     [("padding masks", "dispersion/twobody.py"), ("padding masks", "dispersion/threebody.py"), ("charge shaping", "dispersion/base.py")],
     "exploration", "exhaustive enumeration of batch compositions and layouts, differential oracle",
     "All ordered batches from a system alphabet up to the bound, in every padding layout, are compared with the single-system runs of the same code.", ["dftd4", "get_properties"])

prop("C03", "Results are equivariant under any reordering of the atoms",
     "Permuting the atoms of a system (numbers, positions and any per-atom or per-pair overrides together) permutes atomic energies, charges, coordination numbers, polarizabilities and gradients and the rows and columns of the C6 matrix in the same way and changes nothing else. This holds for both models, every calculator and inside batches.",
     ["inputs"], "all permutations of all systems up to the bound",
     "Tests never permute a system; an order-dependent index error in a symmetric test molecule is invisible.",
     ["model/d4.py", "model/d4s.py", "dispersion/twobody.py", "dispersion/threebody.py"],
     [("einsum index pairing", "model/d4s.py"), ("triple sums", "dispersion/threebody.py")],
     "exploration", "exhaustive enumeration of the permutation group, metamorphic oracle",
     "All n! orders for n <= 5 and all transpositions for larger systems are executed on the real code.", ["dftd4", "get_properties"])

prop("C04", "Energies are invariant and forces covariant under rigid motions",
     "Translating, rotating or mirroring a system leaves atomic energies, charges, coordination numbers, C6 coefficients and polarizabilities unchanged and rotates the gradient with it. Net force and net torque of every isolated system vanish.",
     ["inputs"], "all systems, all 48 axis symmetries, general rotations, translations",
     "Tests use one orientation per molecule; dependence on the frame (axis, origin, sign of coordinates) never shows there.",
     ["dispersion/twobody.py", "dispersion/threebody.py"], [("distances only", "dispersion/twobody.py"), ("distances only", "dispersion/threebody.py")],
     "exploration", "exhaustive enumeration of a finite symmetry group, metamorphic oracle",
     "Complete octahedral group plus a finite set of exact rational rotations and translations on every system of the alphabet.", ["dftd4"])

prop("C05", "Cutoffs select exactly the pairs and triples within range",
     "A pair contributes to the two-body energy exactly when its distance is at most the two-body cutoff, and a triple contributes to the three-body energy exactly when all three of its sides are at most the three-body cutoff; the coordination-number cutoffs act the same way on the D4 coordination numbers and on the EEQ charges. Defaults are 60 (pairs), 40 (triples), 30 (coordination numbers) and 25 bohr (EEQ), and cutoffs may be given as int, float or tensor without changing the result.",
     ["inputs", "configurations"], "all order types of cutoffs against the pair distances of a system, including equality",
     "Tests run with cutoffs far larger than the molecules, so a wrong, missing, strict or swapped cutoff comparison changes nothing they see.",
     ["cutoff.py", "defaults.py", "dispersion/twobody.py", "dispersion/threebody.py", "dispersion/base.py", "disp.py"],
     [("pair cutoff mask", "dispersion/twobody.py"), ("triple cutoff mask", "dispersion/threebody.py"), ("Cutoff", "cutoff.py")],
     "exploration", "exhaustive enumeration of cutoff regions against a reference model",
     "For each system every cutoff region between and at the distance breakpoints is enumerated, as a product over the cutoffs; within one region the result is constant, so the enumeration is complete for that system.", ["dftd4", "Cutoff"])

prop("C06", "Gradients are the exact derivatives of the energy and always finite",
     "Automatic differentiation of the energy with respect to positions, every damping parameter, total charge, supplied charges, r4r2 values and van der Waals radii yields the true derivative, including all indirect dependences through coordination numbers and charges; second derivatives are correct and symmetric. No derivative is NaN or infinite for valid input, including single atoms, linear or widely separated systems, padding, vanishing parameters, extreme charges and coordination numbers.",
     ["inputs", "configurations"], "all systems, differentiated arguments and call variants of the enumeration",
     "Tests gradcheck a few molecules and parameters with default options; detached indirect paths, unusual arguments, special geometries and masked branches that only poison the backward pass are not reached.",
     ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "model/base.py", "model/d4.py", "model/d4s.py", "damping/functions.py"],
     [("masking before division", "model/d4.py"), ("safe operations", "dispersion/threebody.py")],
     "exploration", "exhaustive enumeration of systems x differentiated arguments, finite-difference oracle",
     "Each derivative is compared with a fourth-order finite difference of the same energy function over the whole enumerated product.", ["dftd4"])

prop("C07", "Results depend only on the arguments, never on earlier calls",
     "Every public call returns the same result whatever sequence of other calls (with other elements, sizes, models, precisions, parameters, failing calls, converted or reused objects) preceded it in the process. No call modifies its arguments, objects returned earlier, module data or global torch state, and modifying a returned object never influences later results.",
     ["histories"], "all sequences of calls from an alphabet up to the stated depth",
     "Each test makes one call in a mostly fresh state; interference through caches, shared default objects or in-place updates needs specific call sequences.",
     ["disp.py", "dispersion/base.py", "dispersion/d4.py", "damping/parameters/loader.py", "damping/functions.py", "model/base.py", "reference/d4/params.py"],
     [("no module state", "disp.py"), ("cached parameter file", "damping/parameters/loader.py"), ("class-level term lists", "dispersion/d4.py")],
     "model_checking", "exhaustive exploration of call sequences (prefix tree, fresh process per history)",
     "Every call history up to the bound is executed from a fresh process image and each result compared with the result of the same call executed first.", ["dftd4", "get_properties", "get_params", "D4Model", "Disp"],
     [("parameter cache", "parsed parameter file, one per method", "damping/parameters/loader.py"), ("TERMS", "default terms of a calculator class", "dispersion/d4.py")])

prop("C08", "A dispersion calculator evaluates exactly its registered terms",
     "The energy of a calculator is the sum of the energies of the terms registered in it at that moment, each counted as often as it was registered; removing a term removes one equal term (same kind, damping and charge dependence) and fails if there is none. Calculators are independent of each other and of their class defaults, conversion to another precision keeps the terms, and explicit atomic charges are rejected exactly when no registered term uses charges.",
     ["histories", "configurations"], "all sequences of register, deregister, convert and calculate operations over two calculators up to the stated depth",
     "Tests register one or two terms once; sequences mixing registration, removal of equal terms, several instances and recalculation are not explored.",
     ["dispersion/base.py", "dispersion/d4.py", "dispersion/twobody.py", "dispersion/threebody.py", "damping/functions.py"],
     [("register / deregister", "dispersion/base.py"), ("term equality", "dispersion/base.py"), ("damping equality", "damping/functions.py")],
     "model_checking", "explicit-state breadth-first search over operation sequences with a reference list model",
     "All reachable states of two calculators within the bound; every transition replays on the real objects and compares energies with the reference model.", ["Disp.register", "Disp.deregister", "Disp.calculate"],
     [("terms", "list of registered terms per calculator", "dispersion/base.py")])

prop("C09", "Functional parameter lookup is complete, exact and isolated",
     "Looking up damping parameters returns, for every method, functional (in any letter case) and variant in the parameter tables, exactly the tabulated values; without a variant the method's default variant is used, without a functional the method's default parameters, and the DOI is present exactly when requested and tabulated. Unknown functionals, variants and methods raise an error, and changing a returned parameter set never affects later lookups.",
     ["inputs", "histories"], "all methods x functionals x variants x spellings x options, and mutation histories",
     "Tests look up three functionals; several hundred entries, spellings and repeated lookups after mutation are unchecked.",
     ["damping/parameters/loader.py", "damping/parameters/base.py", "damping/parameters/d3.toml", "damping/parameters/d4.toml"],
     [("get_params", "damping/parameters/loader.py")],
     "exploration", "exhaustive enumeration of the complete finite table against a frozen copy",
     "The key space is finite and enumerated completely.", ["get_params"])

prop("C10", "Damping functions follow their formulas and demand their parameters",
     "Rational, zero, modified-zero and optimised-power damping return f_n(R)/R^n according to their documented formulas for every distance, radius, order and parameter value: undamped at long range, finite (rational, optimised power) or suppressed (zero) at short range, and zero damping can return the bare damping factor. A call fails with a TypeError exactly when a parameter required for that order is missing, unsupported orders are rejected, a term whose scaling parameters are explicitly None (or s10 omitted) evaluates to zero, and numbers and tensors are interchangeable as parameters.",
     ["inputs", "configurations"], "all damping functions x orders x distance/radius/parameter grids x all subsets of supplied parameters",
     "Tests call each damping function once inside an energy and check only dtype and shape; values, limits and the parameter requirements of each order are untested.",
     ["damping/functions.py", "defaults.py"], [("damping formulas", "damping/functions.py"), ("required parameter table", "damping/functions.py")],
     "exploration", "exhaustive enumeration of orders, parameter subsets and value grids against a reference model",
     "All subsets of parameters and a full value grid are executed.", ["damping"])

prop("C11", "Reference weights are normalised, finite and correctly differentiated",
     "For every element, coordination number and partial charge the weights of the reference systems are the normalised Gaussian weights times the charge scaling, for the per-atom (D4) and the pair-specific (D4S) model and any ga, gc, wf and reference-charge set; at zero charge scaling height they are non-negative and sum to one for every real atom, and they vanish for padding. They stay finite for arbitrarily large coordination numbers and charges, and the optional analytic derivatives (charge; coordination number with the sign convention of the tests) match automatic differentiation.",
     ["inputs", "configurations"], "all elements x coordination number grid x charge grid x model options",
     "Tests compare stored weights of a few molecules; most elements, extreme coordination numbers and charges and non-default options are not reached.",
     ["model/d4.py", "model/d4s.py", "model/base.py", "reference/d4/params.py", "reference/d4/charge_eeq.py", "reference/d4/charge_gfn2.py", "data/wfpair.py"],
     [("weight_references", "model/d4.py"), ("weight_references", "model/d4s.py"), ("charge scaling", "model/base.py")],
     "exploration", "exhaustive enumeration over elements and CN/charge grids against a reference model",
     "Every element and option combination over the stated grids.", ["D4Model.weight_references", "D4SModel.weight_references"])

prop("C12", "C6 coefficients and polarizabilities obey the Casimir-Polder relation",
     "For every pair of elements and any weights the C6 matrix is symmetric, non-negative and equals (3/pi) times the quadrature over imaginary frequency of the two weighted dynamic polarizabilities; the reference C6 matrix likewise for all pairs of reference systems. Weighted dynamic and static polarizabilities have one row per atom, are consistent with each other and with C6, and the integration helpers are linear in each polarizability with the documented quadrature weights.",
     ["inputs", "configurations"], "all element pairs, reference-system pairs, frequencies and both models",
     "Tests compare C6 sums for a few molecules; individual element and reference pairs, D4S polarizabilities and single frequencies are not resolved.",
     ["utils.py", "model/base.py", "model/d4.py", "model/d4s.py", "reference/d4/params.py"],
     [("quadrature", "utils.py"), ("reference polarizabilities", "model/base.py")],
     "exploration", "exhaustive enumeration of element pairs and basis polarizabilities against a reference model",
     "Bilinearity makes the enumeration of all unit vectors a complete decision for the integration helpers; all element pairs for the rest.", ["D4Model.get_atomic_c6", "get_weighted_pols", "get_polarizabilities", "utils.trapzd"])

prop("C13", "Precision follows the input and conversions preserve results",
     "Energies from the functional interface, from calculators used in their own precision and properties have the floating-point type of the positions, whatever torch's default type is and whatever mix of Python numbers and tensors is used for charge, parameters and cutoffs; single and double precision agree to single precision. Converting models, cutoffs and calculators to another precision yields objects that give the same results as ones built in that precision, leaves the original untouched, and rejects non-floating types.",
     ["configurations", "histories"], "all combinations of input type, default type, parameter kinds and conversion chains",
     "Tests run with one default type, tensors of one type, and check only the type attribute after conversion, never that a converted object still works.",
     ["disp.py", "dispersion/base.py", "model/base.py", "cutoff.py", "model/d4.py", "model/d4s.py"],
     [("dtype of positions", "disp.py"), ("tensor-like conversion", "model/base.py")],
     "exploration", "exhaustive enumeration of type configurations and conversion chains, differential oracle",
     "Full product of types and conversion sequences up to the bound.", ["dftd4", "D4Model.type", "Cutoff.type", "Disp.type"])

prop("C14", "Inconsistent input is rejected and default overrides change nothing",
     "An energy call whose positions (..., nat, 3), charges, covalent radii, r4r2 values or van der Waals radii do not have exactly the shape implied by the atomic numbers raises a ValueError instead of broadcasting, an unknown model or reference-charge name raises a ValueError, missing or unknown damping parameters raise a TypeError, and ignored model options produce a warning. Passing the documented default values explicitly gives the same energies as omitting them.",
     ["inputs", "configurations"], "all shapes up to rank 3 with small extents for every argument, all override subsets",
     "Tests try one wrong shape per argument.",
     ["dispersion/base.py", "disp.py", "model/base.py", "model/d4.py", "model/d4s.py", "dispersion/twobody.py"],
     [("shape checks", "dispersion/base.py"), ("model key check", "dispersion/base.py")],
     "exploration", "exhaustive enumeration of argument shapes and override subsets",
     "All shapes within the bound for every argument; all 2^k subsets of explicit default overrides.", ["dftd4", "Disp.calculate"])

prop("C15", "The property wrapper reports the quantities used by the energy",
     "For every system, batch and total charge the property wrapper returns the D4 coordination numbers, EEQ charges that sum to the total charge of each system, the symmetric C6 matrix and the static polarizabilities of the D4 model at those charges, with a missing charge meaning neutral. Using the returned charges as explicit input reproduces the energy, and the returned C6 matrix reproduces the two-body energy. All four are differentiable with respect to positions and charge.",
     ["inputs", "configurations"], "all systems, charges, batches and cutoffs of the enumeration",
     "Tests compare sums for neutral molecules; individual entries, polarizabilities, charges and cutoffs are not compared.",
     ["disp.py", "model/d4.py", "model/base.py"], [("get_properties", "disp.py")],
     "exploration", "exhaustive enumeration of systems and options against a reference model",
     "Full product of systems, charges and batch layouts compared entry by entry.", ["get_properties"])

prop("C16", "Concurrent calculations do not interfere",
     "Calculations running in different threads of one process (same or different elements, models, precisions, parameters, sharing calculator, model, damping, parameter or cutoff objects, including first-time use) each return what they return alone, for every interleaving. No interleaving raises, deadlocks or corrupts later calls.",
     ["schedules"], "all interleavings of two threads up to the preemption bound at source-line granularity",
     "Tests are single-threaded; even a threaded test samples a few schedules.",
     ["disp.py", "dispersion/base.py", "damping/functions.py", "damping/parameters/loader.py", "model/base.py", "model/d4.py"],
     [("no shared mutable state", "disp.py"), ("shared default damping objects", "damping/functions.py"), ("cached parameter file", "damping/parameters/loader.py")],
     "model_checking", "stateless model checking: controlled scheduler, all schedules up to the preemption bound",
     "A deterministic scheduler hands control between real threads at every executed source line of the package and enumerates every switch point; preemptions inside C code of torch are outside the model.", ["dftd4", "get_params", "Disp.calculate"])

prop("C17", "Equivalent ways of choosing the model give identical results",
     "Selecting a model by name in any letter case, by keyword options on a calculator, or by passing a prebuilt instance (also with precomputed reference C6, also reused for many geometries) gives the same energies; options reach the model unchanged. D4S with uniform weighting factor 6 equals D4, and D4 equals D4S for systems whose pair factors are all 6.",
     ["configurations", "inputs"], "all ways of selecting a model x options x systems",
     "Tests use the name or one default instance; options and equivalences between the ways are not compared.",
     ["dispersion/base.py", "disp.py", "model/base.py", "model/d4s.py", "model/d4.py"],
     [("get_model", "dispersion/base.py"), ("default weighting factor", "model/d4s.py")],
     "exploration", "exhaustive enumeration of selection routes, differential oracle",
     "Full product of routes and options on the system alphabet.", ["dftd4", "Disp"])

prop("C18", "Total charge enters identically in every accepted form",
     "The total charge may be an int, float, zero-dimensional, per-system or broadcastable tensor for a single system or any batch, and equal values give equal results; a charge assigned to one system of a batch never affects another. Explicit atomic charges replace the EEQ charges (making the total charge irrelevant), explicit EEQ charges reproduce the default, and only the two-body energy depends on charge.",
     ["inputs", "configurations"], "all charge forms x values x batch shapes x models",
     "Tests pass zero as tensor almost everywhere; charged systems, other forms and batches with different charges are hardly covered.",
     ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py"],
     [("charge conversion", "dispersion/base.py"), ("charge dependence per term", "dispersion/threebody.py")],
     "exploration", "exhaustive enumeration of charge forms and values against a reference model",
     "Full product of forms, values and batch shapes.", ["dftd4", "get_properties"])

prop("C19", "Energies are linear in the scaling parameters and size-consistent",
     "The energy is exactly linear in s6, s8, s9 and s10, so it decomposes into independent dipole-dipole, dipole-quadrupole, quadrupole-quadrupole and three-body parts; each two-body part is attractive for positive scaling, and setting a factor to zero equals removing the part. Fragments beyond all cutoffs contribute additively (their charges given), the pair energy approaches -s6 C6/R^6 at long range, and an isolated atom has zero energy.",
     ["inputs", "configurations"], "all subsets and multiples of scaling parameters x systems x models; all fragment pairs",
     "Tests use one parameter set per molecule and never combine fragments.",
     ["dispersion/twobody.py", "dispersion/threebody.py", "damping/functions.py"],
     [("term sums", "dispersion/twobody.py"), ("s9 scaling", "dispersion/threebody.py")],
     "exploration", "exhaustive enumeration of scaling subsets and fragment pairs, metamorphic oracle",
     "Linearity makes unit vectors and their combinations a complete basis; all pairs of fragments of the alphabet.", ["dftd4"])

prop("C20", "Stand-alone term functions agree with the assembled energy",
     "The stand-alone two-body function gives, as matrix, the symmetric pair interactions with zero diagonal whose half row sums are its atom-resolved result, and the stand-alone Axilrod-Teller-Muto function gives the same three-body energies as the calculators for any C9 coefficients and radii; their defaults (cutoff, s9, alp, damping) are the documented ones. Together they reproduce the full energy for every system, batch and damping function.",
     ["inputs", "configurations"], "all systems x parameter sets x options of the stand-alone functions",
     "The matrix form, arbitrary C9 and radii and non-default damping are not compared by tests.",
     ["dispersion/twobody.py", "dispersion/threebody.py"], [("dispersion2", "dispersion/twobody.py"), ("get_atm_dispersion", "dispersion/threebody.py")],
     "exploration", "exhaustive enumeration against a reference model",
     "Full product of systems, parameters and options.", ["dispersion2", "get_atm_dispersion"])

prop("C21", "Atomic data tables are complete, sane and never change",
     "For every element 1-103 (1-86 for GFN2 reference charges) the expectation values, weighting factors and reference-system data (coordination numbers, polarizabilities, charges, Gaussian counts, secondary data) have their published values in every precision; weighting factors are symmetric and positive, every element has at least one reference system, and the dummy element zero carries no interaction. Requests for elements beyond the tables (above 103, above 86 for GFN2 reference charges) fail instead of returning wrong numbers.",
     ["inputs"], "every entry of every table, in both precisions",
     "Tests touch the entries of the few elements in their molecules; the tables hold tens of thousands of numbers.",
     ["data/r4r2.py", "data/wfpair.py", "reference/d4/params.py", "reference/d4/charge_eeq.py", "reference/d4/charge_gfn2.py"],
     [("tables", "reference/d4/params.py"), ("tables", "data/wfpair.py")],
     "exploration", "exhaustive comparison of every table entry with a frozen copy",
     "The tables are finite; every entry is compared and every element is driven through the public API.", ["data.R4R2", "reference.d4"])

prop("C22", "All calculator classes and damping choices evaluate their documented method",
     "The standard D4 calculator equals the functional interface; the exact-C9 calculator replaces only C9 by the Casimir-Polder integral over three dynamic polarizabilities; the three-body term with van der Waals radii uses rs9 times the pair radii; and zero, modified-zero and optimised-power damping may replace rational damping in the pair term of any calculator. Charge dependence of each term is used exactly as configured, for D4 and D4S, single systems and batches.",
     ["configurations", "inputs"], "all combinations of model, terms, damping functions and charge dependence x systems",
     "Tests check only shape and type for most of these combinations.",
     ["dispersion/d4.py", "dispersion/d3.py", "dispersion/threebody.py", "dispersion/twobody.py", "damping/functions.py", "utils.py"],
     [("exact C9", "dispersion/threebody.py"), ("radii", "dispersion/threebody.py"), ("calculator classes", "dispersion/d4.py")],
     "exploration", "exhaustive enumeration of calculator configurations against a reference model",
     "Full product of model x two-body damping x three-body kind x charge dependence x systems.", ["DispD4", "DispD4Exact", "Disp"])

prop("C23", "Results do not depend on memory layout or autograd mode",
     "Energies, properties and gradients are the same for contiguous, strided, expanded and sliced inputs, for 32- and 64-bit atomic numbers, with and without gradient tracking, under no-grad and inference mode, and through torch.func transformations. Inputs that require gradients give the same values as inputs that do not.",
     ["configurations", "inputs"], "all combinations of layouts, integer types and autograd modes x systems x models",
     "Tests use freshly created contiguous tensors in one mode each.",
     ["disp.py", "dispersion/twobody.py", "dispersion/threebody.py", "model/d4.py", "model/d4s.py"],
     [("tensor operations without in-place updates of inputs", "dispersion/twobody.py")],
     "exploration", "exhaustive enumeration of layouts and modes, differential oracle",
     "Full product of layouts, integer types, modes, models and systems.", ["dftd4", "get_properties"])

prop("C24", "Copies and pickles of objects behave like the original and are independent",
     "A calculator, model, term, damping function, cutoff or parameter set that was copied (copy, deepcopy), pickled (protocol 2 and later) or stored with torch.save and loaded again, also in another process, gives exactly the results of the original, keeps its precision, options and registered terms, and equals it where equality is defined. Deep and loaded copies are independent: later changes of the original or the copy never affect the other.",
     ["histories", "configurations"], "all sequences of copy, pickle, save, convert, register, deregister and calculate operations up to the stated depth over calculators, models and small objects",
     "Tests never copy or pickle an object; whether every slot, option and registered term survives every chain of copies and conversions is a statement about histories.",
     ["dispersion/base.py", "model/base.py", "cutoff.py", "damping/functions.py", "damping/parameters/base.py"],
     [("slots of calculators and models", "dispersion/base.py"), ("conversion", "model/base.py")],
     "model_checking", "explicit-state exploration of copy / serialise / modify histories with a reference list model",
     "All operation sequences within the bound; every member of the resulting family of objects is evaluated on the real code.", ["Disp", "BaseModel", "Cutoff", "DispTerm", "Damping", "Param"],
     [("family", "objects derived from one original with their term lists", "dispersion/base.py")])

prop("C25", "Evaluations keep nothing alive",
     "Once a call has returned and the caller drops its results, neither the arguments, nor intermediate tensors, nor the autograd graph stay alive, whether the call succeeded, failed, was differentiated or not, and whether calculators, models or damping functions are shared or new. Repeating evaluations therefore does not accumulate tensors, so molecular dynamics and training loops run in constant memory.",
     ["histories"], "all call histories of length one and two over the operations and repetitions thereof",
     "A reference kept in a cache, attribute or default argument changes no result and fails no test.",
     ["disp.py", "dispersion/base.py", "model/base.py", "damping/functions.py", "utils.py"],
     [("no caches of tensors", "model/base.py"), ("calculator state", "dispersion/base.py")],
     "model_checking", "stateless exploration of call histories with weak references on all arguments, results and saved tensors",
     "Every history runs in its own process; liveness is observed after garbage collection.", ["dftd4", "get_properties", "Disp.calculate", "weight_references", "Damping.__call__"],
     [("live", "tensors alive after a call", "dispersion/base.py")])

prop("C26", "A calculation that fails at any point leaves everything usable",
     "When a calculation fails half-way, for lack of memory or because the user interrupts it, the failure reaches the caller and everything else stays as it was: the same calculators, models, damping functions, parameter sets and arguments, and all others, afterwards give the results they give in a fresh process. This holds at every point at which the failure can strike, on first use as well as later, and nothing of the failed calculation stays alive.",
     ["crash points", "histories"], "all points at which a call into torch can fail, in every operation, in fresh and used processes",
     "No test lets a calculation fail in the middle, and a half-filled cache or a setting not restored shows only in the calculation after.",
     ["disp.py", "dispersion/base.py", "model/base.py", "model/d4.py", "model/d4s.py", "damping/functions.py", "utils.py"],
     [("calculator state", "dispersion/base.py"), ("no partially filled tables", "model/base.py")],
     "model_checking", "exhaustive fault injection at all crash points of the operations of a call history, on the real code",
     "Crash points are all package lines that call torch, each time they run; every crash has its own process.", ["dftd4", "get_properties", "Disp.calculate", "D4Model", "Damping.__call__"],
     [("state", "calculators, models and module tables after a failure", "dispersion/base.py")])

prop("C27", "User-supplied functions and classes take part in a calculation",
     "Coordination-number functions, counting functions, damping functions, dispersion terms, models and tensor hooks supplied by the user are called with the documented arguments (undamaged, at the precision in use, attached to the autograd graph), and what they return is used. They may do anything themselves, in particular further calculations with the package, also on the very objects in use, and neither calculation influences the other. An error they raise reaches the caller unchanged and leaves all objects usable.",
     ["nested calls", "inputs"], "all kinds of callables, calculations, invocations of the callable and operations nested in it, to recursion depth three",
     "Tests supply the library's own functions, never ones that compute with the package or fail.",
     ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "dispersion/d4.py", "model/base.py", "damping/functions.py"],
     [("callables passed through", "dispersion/base.py"), ("damping function calls", "dispersion/twobody.py")],
     "model_checking", "stateless exploration of nested call histories: every inner operation at every invocation of a user callable",
     "Results are compared with those of fresh processes; arguments seen by callables with the independent reference.", ["dftd4", "Disp.calculate", "Disp.register", "Damping.__call__"],
     [("state", "calculators, models and damping functions in use", "dispersion/base.py")])

prop("C28", "Every system and batch size, from empty to large, gives the right result",
     "Systems with any number of atoms (none, one, up to hundreds) and batches with any number of systems, any number of batch dimensions and any extent of them (also zero or one) give results of the documented shapes, and every atom and every system has the value it has when evaluated separately or by the published expression. Nothing changes at particular sizes, and empty systems and batches give empty or zero results instead of errors.",
     ["inputs"], "all numbers of atoms, numbers of systems and batch shapes up to the bounds, for all calculators, models and precisions",
     "Tests use a dozen molecules of fixed sizes in batches of two; size thresholds, chunk boundaries, leftover parts and empty dimensions are never met.",
     ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "model/d4.py", "model/d4s.py"],
     [("pair sum over all atoms", "dispersion/twobody.py"), ("triple sum over all atoms", "dispersion/threebody.py")],
     "exploration", "exhaustive enumeration of system sizes, batch sizes and batch shapes against reference model and single evaluations",
     "Each size is evaluated and compared with the independent reference, each row of each batch with the system evaluated alone.", ["dftd4", "get_properties", "Disp.calculate"])

prop("C29", "Results do not depend on the environment the package runs in",
     "Every public call gives the same results whatever the interpreter options, hash seed, locale, warnings filter, working directory, environment variables, standard streams, number of threads, garbage-collector and recursion settings, default dtype and device, gradient or inference mode while importing, thread of import, and whichever module of the package is imported first. Nothing is read from the working directory or the environment.",
     ["configurations"], "all single configurations, all modules as first import in all import modes, and all pairs of the main settings",
     "Tests run in one interpreter configuration with one import order, never optimised, with another hash seed, in another directory or with another default dtype at import.",
     ["__init__.py", "damping/parameters/loader.py", "data/wfpair.py", "data/r4r2.py", "reference/d4/params.py", "model/base.py", "dispersion/base.py"],
     [("tables loaded at import", "reference/d4/params.py"), ("parameter files", "damping/parameters/loader.py")],
     "exploration", "exhaustive enumeration of configurations, one fresh interpreter each, against the plain configuration",
     "Each configuration runs all operations of the history checks in a fresh interpreter; import-time behaviour of the dependencies is excluded by importing them first.", ["dftd4", "get_params", "get_properties"])

if __name__ == "__main__":
    avail = {p["id"] for p in P if os.path.exists(os.path.join(ROOT, "mc", "checks", p["id"].lower() + ".py"))}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    man = dict(
        version=1, setup_cmd="true",
        checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check {p['id']} --tier thorough",
                     evidence_file=f"evidence/{p['id']}.json", technique=p["_technique"], level=p["_level"], level_note=p["_note"])
                for p in P if p["id"] in avail],
        not_applicable=[dict(property=p["id"], reason="check under construction") for p in P if p["id"] not in avail],
        notes="Pure Python: every check imports the package from /repo/src (nothing to build). No hooks in /repo.",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
