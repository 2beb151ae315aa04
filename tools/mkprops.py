import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe])))
M="mrmustard/"
p("P01","Connecting components pairs exactly the right wires in the standard order",
"Connecting two components joins each output of the left one to the matching input of the right one (same mode, same ket/bra side) and to nothing else; every other wire survives, the result is in the standard order, and the reported permutation takes the unsorted leftovers to that order. An ill-formed connection (a surviving wire would appear twice) is refused. Adjoint and dual are involutions that commute and move every wire to the mirrored slot, and index queries of any sub-selection agree with the position of those wires in the full set.",
["inputs","programs"],"all pairs and chains of wire sets over any modes, quantum or classical, all sub-selections",
"Tests pick a handful of layouts; the claim is over every combination of eight slots per mode, any mode labels and any chain.",
[M+"physics/wires.py"],[("Wires.__matmul__",M+"physics/wires.py"),("Wires.adjoint/dual/indices/overlap/contracted_labels/contracted_indices",M+"physics/wires.py")],"Wires values returned by the public methods")
p("P02","Contracting or tracing Bargmann functions is the exact Gaussian integral",
"Tracing index pairs of one Gaussian-times-polynomial function, or contracting chosen indices of two, yields the triple whose value at every point is the exact complex Gaussian integral of the (product) integrand over the chosen variables, whatever the number of variables, the index positions and order, the polynomial part and the batch. The remaining variables keep their relative order, and the order in which several integrations are carried out does not matter.",
["inputs"],"all triples (A, b, c), all admissible index tuples in any order, all batch shapes",
"Tests compare a few fixed triples and index choices; sign, ordering and conjugation errors show only for asymmetric triples and unusual index orders.",
[M+"physics/gaussian_integrals.py",M+"physics/ansatz/polyexp_ansatz.py"],[("complex_gaussian_integral_1/2, real_gaussian_integral, join_Abc, reorder_abc",M+"physics/gaussian_integrals.py"),("PolyExpAnsatz.contract/trace",M+"physics/ansatz/polyexp_ansatz.py")],"triples returned by the integral functions; ansatz values")
p("P03","Built-in Gaussian states are the documented states for every parameter",
"Every built-in Gaussian state (vacuum, coherent, squeezed, displaced squeezed, two-mode squeezed, thermal, generic Gaussian pure and mixed states) satisfies, for all parameter values and any batch of them, the linear relations in creation and annihilation operators that define it in the documentation, has norm (trace) one, and mixed ones are Hermitian. Number, quadrature and Bargmann eigenstates satisfy their defining eigenvalue equations and normalisation.",
["inputs","configurations"],"all real/complex parameter values, all batch shapes, all values of hbar",
"Tests compare a few parameter points with formulas copied from the code; wrong phases or signs cancel at the sampled points.",
[M+"physics/triples.py",M+"lab/states/"],[("*_state_Abc",M+"physics/triples.py"),("constructors","mrmustard/lab/states/*.py"),("fock_state, quadrature_basis",M+"physics/fock_utils.py")],"triples and components returned by the constructors")
p("P04","Every unitary gate is unitary and acts on quadratures as documented",
"For all parameter values each built-in unitary gate composed with its dual on either side is the identity, and conjugating the quadrature operators with it gives exactly the documented symplectic matrix and displacement. Its Bargmann description, its symplectic description and its number-basis matrix all describe this same operator, including the order of the modes, and gates of the same family compose as the documented one-parameter group.",
["inputs","configurations"],"all gates, all parameter values and batches, any ordered choice of modes, any hbar",
"Tests check a few angles and mostly symmetric or real parameters and ascending adjacent modes.",
[M+"physics/triples.py",M+"physics/symplectics.py",M+"lab/transformations/"],[("*_gate_Abc",M+"physics/triples.py"),("*_symplectic",M+"physics/symplectics.py"),("Unitary.from_symplectic, inverse",M+"lab/transformations/base.py")],"ansatz, symplectic and fock_array of the gate objects")
p("P05","Every channel is trace preserving, Hermitian and acts as documented",
"For all parameter values each built-in deterministic channel (attenuator, amplifier, Gaussian random noise, phase noise) preserves the trace of every input, maps Hermitian operators to Hermitian operators, and transforms first and second moments (or number-basis coherences) exactly as documented. Channels of one family compose as their documented parameters do, whichever representation the input is in, and the input object is left unchanged.",
["inputs","configurations"],"all parameter values and batches, all input states in either representation, any mode labels",
"Tests use single sample values and default mode labels.",
[M+"physics/triples.py",M+"lab/transformations/"],[("attenuator_Abc, amplifier_Abc, gaussian_random_noise_Abc, fock_damping_Abc",M+"physics/triples.py"),("PhaseNoise",M+"lab/transformations/phasenoise.py"),("Channel.is_CP/is_TP/XY",M+"lab/transformations/base.py")],"result of state >> channel, channel triples")
p("P06","Symplectic, phase-space and Bargmann descriptions convert without loss",
"Converting a Gaussian unitary, channel or state between its symplectic (or X, Y) matrices, its covariance matrix and means, and its Bargmann triple and back returns the original description, for any number of modes and any value of hbar. Each conversion agrees with the physical definition: the converted object has the same moments and the same action as the original.",
["inputs","configurations"],"all symplectic matrices, X/Y pairs, covariances and means, any mode number and hbar",
"Tests cover a few random one- and two-mode samples at the default hbar.",
[M+"physics/bargmann_utils.py",M+"physics/symplectics.py",M+"physics/triples.py",M+"physics/wigner.py"],[("symplectic2Au, au2Symplectic, XY_of_channel, wigner_to_bargmann_rho/psi, bargmann utilities",M+"physics/bargmann_utils.py"),("XY_to_channel_Abc",M+"physics/triples.py")],"return values of the conversion functions; phase_space, symplectic, XY of components")
p("P07","Quadrature, characteristic and phase-space transforms are exact",
"The maps from the Bargmann representation to the quadrature, phase-space and characteristic-function representations are the exact integral transforms of the documented convention for every angle, ordering parameter and hbar: quadrature wavefunctions have the correct norm and inner products, phase-space functions of every ordering have the correct total integral and marginals, and inverting a map undoes it. The discretised Wigner function computed by either of the available methods equals the exact one on every grid point.",
["inputs","configurations"],"all states, points, angles, ordering parameters, values of hbar",
"Tests evaluate a few states at a few points with default hbar.",
[M+"physics/triples.py",M+"physics/wigner.py",M+"physics/fock_utils.py",M+"lab/circuit_components_utils/"],[("bargmann_to_quadrature_Abc, bargmann_to_wigner_Abc, displacement_map_s_parametrized_Abc",M+"physics/triples.py"),("wigner_discretized",M+"physics/wigner.py"),("BtoQ, BtoPS, BtoChar",M+"lab/circuit_components_utils/")],"quadrature(), phase_space(), wigner of states; wigner_discretized")
p("P08","Number-basis amplitudes obey the Hermite recurrence for every shape",
"For every Bargmann triple and every requested shape, every general-purpose conversion strategy (plain, numerically stable, batched, weight-by-weight) returns the array whose entries are the Taylor coefficients of the Gaussian times square roots of factorials. All strategies agree entry by entry where their cutoffs overlap, no entry inside the requested shape is left unset, and a larger shape only adds entries.",
["inputs"],"all (A, b, c), all shapes with any number of indices including size-1 and unequal cutoffs, all global cutoffs",
"Tests fix a few square shapes; loop bounds and pivots go wrong for unequal, tiny or many-index shapes.",
[M+"math/lattice/"],[("vanilla, stable, vanilla_batch, binomial",M+"math/lattice/strategies/"),("vanilla_step, binomial_step",M+"math/lattice/steps.py"),("pivots, neighbors, paths",M+"math/lattice/")],"math.hermite_renormalized* results")
p("P09","Specialised gate kernels equal the general expansion for every cutoff",
"The dedicated number-basis kernels for displacement, squeezing, squeezed vacuum and beam splitter return, for every parameter value and every (also unequal) cutoff, the same matrix elements as the general expansion of the same gate, for every selectable method. No entry within the requested shape is missing and none is computed from outside the array.",
["inputs"],"all parameters, all cutoff tuples",
"Tests compare mostly equal cutoffs; the kernels fill the array through interlocking loop nests whose bounds depend on the cutoffs.",
[M+"math/lattice/strategies/"],[("displacement, laguerre, grad",M+"math/lattice/strategies/displacement.py"),("squeezer, squeezed",M+"math/lattice/strategies/squeezer.py"),("beamsplitter, stable_beamsplitter, beamsplitter_schwinger",M+"math/lattice/strategies/beamsplitter.py")],"math.displacement/squeezer/squeezed/beamsplitter results")
p("P10","Hand-written gradients are the true derivatives",
"Every hand-written vector-Jacobian product of a number-basis function (general expansion plain and batched, diagonal and single-leftover-mode expansions, beam splitter, squeezer, squeezed vacuum, displacement) equals the derivative of that function with respect to each argument, for every parameter value, upstream gradient and shape.",
["inputs"],"all parameters, cotangents and shapes",
"Tests check a couple of finite differences on fixed square shapes, or none.",
[M+"math/lattice/",M+"math/jax_vjps/"],[("vanilla_vjp, vanilla_batch_vjp",M+"math/lattice/strategies/vanilla/vjp.py"),("beamsplitter_vjp, squeezer_vjp, squeezed_vjp, jacobian_displacement",M+"math/lattice/strategies/"),("compactFock *_grad",M+"math/lattice/strategies/compactFock/")],"return values of the vjp functions")
p("P11","Diagonal and leftover-mode shortcuts equal the full computation",
"Computing only photon-number probabilities, or the density matrix of one unmeasured mode conditioned on photon counts of the others, gives exactly the corresponding entries of the full number-basis tensor, for every mixed Gaussian state, number of modes and (also unequal or minimal) cutoffs. The automatic shape chosen for a state is never larger than allowed and captures the requested probability in every mode whenever the allowed maximum does.",
["inputs"],"all (A, b, c) of states, any number of modes, all cutoff tuples",
"Tests use two or three cutoff tuples; the selective recursion writes different sub-arrays at boundaries.",
[M+"math/lattice/strategies/compactFock/",M+"math/lattice/strategies/fast_diagonal.py",M+"math/lattice/autoshape.py"],[("fock_representation_diagonal_amps, 1leftoverMode_amps",M+"math/lattice/strategies/compactFock/"),("fast_diagonal",M+"math/lattice/strategies/fast_diagonal.py"),("autoshape",M+"math/lattice/autoshape.py")],"math.hermite_renormalized_diagonal / _1leftoverMode, State.auto_shape")
p("P12","Bargmann-function algebra means pointwise algebra",
"Adding, subtracting, scaling, multiplying, tensoring, conjugating, reordering, simplifying and partially evaluating functions held as polynomial-times-exponential data gives data whose values are exactly the sum, difference, multiple, product, tensor product, conjugate, reordering and restriction of the original functions, with or without polynomial part, batch and linear superposition. No operand is modified, and equality holds exactly when the data describe the same batch of functions (up to broadcasting of the batch and the ordering of superposed terms).",
["inputs","programs"],"all triples with any numbers of core and derived variables and batch shapes, superposed or not, all composition sequences",
"Tests sample a few shapes; superposition axes, derived variables and batches interact combinatorially.",
[M+"physics/ansatz/polyexp_ansatz.py"],[("PolyExpAnsatz operators, eval, reorder, simplify, decompose_ansatz, _partial_eval",M+"physics/ansatz/polyexp_ansatz.py")],"ansatz(z) values")
p("P13","Number-basis array algebra means truncated tensor algebra",
"Adding, scaling, tensoring, conjugating, reordering, tracing, reducing and contracting number-basis arrays is the corresponding operation on the infinite tensors they represent with zeros beyond the stored cutoff, for every combination of shapes and batch dimensions. No operand is modified.",
["inputs","programs"],"all arrays, shapes, batch dimensions and index choices",
"Tests mainly use equal shapes and few axes.",
[M+"physics/ansatz/array_ansatz.py"],[("ArrayAnsatz operators, reduce, contract, trace, reorder",M+"physics/ansatz/array_ansatz.py")],"array of the returned ansatz")
p("P14","Chaining components is operator composition in every representation",
"Chaining components left to right gives the operator composition of what each represents, whatever their modes, ket/bra sides, batch and representation: it is associative, commutes with adjoint and with the dual (reversing the order), adds the missing adjoint exactly when needed, and converting operands to the number basis with sufficient cutoff before or after the contraction gives the same amplitudes. Tracing out or measuring modes in any order agrees, and no operand is modified.",
["inputs","programs"],"all circuits of built-in components on any modes, all bracketings, mixed representations",
"Tests fix small circuits with contiguous modes; the guarantee quantifies over all programs.",
[M+"lab/circuit_components.py",M+"lab/states/",M+"lab/transformations/base.py"],[("CircuitComponent.contract/__rshift__/dual/adjoint/to_fock/on",M+"lab/circuit_components.py"),("TraceOut",M+"lab/circuit_components_utils/trace_out.py")],"wires and values of resulting components")
p("P15","Contraction order never changes the result of a network",
"Evaluating a network of components or arrays by any pairwise contraction order, including the one found by the path optimiser and every subset of heuristics, gives the same component; the optimiser returns a valid complete order with the least cost it reports and never lowers cutoffs below what an exact contraction needs. An einsum over mixed Bargmann and number-basis operands equals the reference sum/integral for every labelling of its indices.",
["inputs","programs"],"all connected circuits, all contraction orders, all index labellings and output orders",
"Tests run a few circuits with one order each.",
[M+"physics/mm_einsum.py",M+"path/",M+"lab/circuits.py"],[("mm_einsum",M+"physics/mm_einsum.py"),("optimal_contraction, optimize_fock_shapes",M+"path/branch_and_bound.py"),("Circuit.contract",M+"lab/circuits.py")],"Circuit.contract(), mm_einsum results")
p("P16","Batched and superposed evaluation equals element-by-element evaluation",
"Applying any operation to batched components or functions gives, at every batch index, exactly the result of applying it to the individual elements, in zip, outer-product or custom pairing of the batches; a linear superposition gives the sum over its terms. Batch-pairing strings generated for any numbers of dimensions are well formed and mean the advertised pairing.",
["inputs","programs"],"all batch shapes (incl. several dimensions and size 1), pairing modes and operations",
"Tests cover one or two batch shapes per operation.",
[M+"physics/utils.py",M+"lab/circuit_components.py",M+"physics/ansatz/polyexp_ansatz.py"],[("zip_batch_strings, outer_product_batch_str, lin_sup_batch_str, verify_batch_triple",M+"physics/utils.py"),("CircuitComponent.contract",M+"lab/circuit_components.py")],"batched ansatz values vs elements")
p("P17","Physical figures of merit match their definitions",
"Probability, norm, purity, fidelity, expectation values, photon-number means, variances and covariances, entropies and symplectic eigenvalues of a state equal their textbook definitions for every state, representation, subset of modes and hbar, and do not depend on whether the state is held as ket or density matrix, or in the Bargmann or number basis.",
["inputs","configurations"],"all states (pure/mixed, normalised or not, batched), all mode subsets, all hbar",
"Tests compare special states where many wrong formulas coincide.",
[M+"physics/gaussian.py",M+"physics/fock_utils.py",M+"lab/states/"],[("purity, symplectic_eigenvals, von_neumann_entropy, fidelity, number_means, number_cov",M+"physics/gaussian.py"),("State.probability/purity/expectation/fidelity/fock_distribution/quadrature_distribution",M+"lab/states/")],"public properties of states")
p("P18","Optimisation steps keep parameters on their manifold",
"Starting from an orthogonal, unitary or symplectic parameter, one optimisation step with any gradient and learning rate returns a parameter that is again orthogonal, unitary or symplectic, moves downhill to first order, and leaves every constant parameter untouched; a zero gradient changes nothing. Randomly generated orthogonal, unitary and symplectic matrices are exactly of that kind for every size and parameter range.",
["inputs","histories"],"all manifold points, gradients, learning rates and sizes",
"Tests run a few optimisations and look at the final cost.",
[M+"training/parameter_update.py",M+"math/backend_manager.py"],[("update_orthogonal/unitary/symplectic",M+"training/parameter_update.py"),("euclidean_to_symplectic, euclidean_to_unitary, random_*",M+"math/backend_manager.py")],"updated parameter values")
p("P19","Settings changes and saved objects are restored exactly",
"Leaving a temporary-settings block restores every setting to its value on entry, for any nesting, overlap and exit by exception, and unknown settings are always refused. Saving and loading a component or circuit gives an equal object with the same parameters (values, trainability, bounds, update rule), modes, wires and contraction order, and leaves no file behind when asked to remove it; flattening and unflattening objects is lossless.",
["histories","inputs","configurations"],"all sequences of nested settings blocks, all components and circuits",
"Tests use single-level blocks and default-parameter components.",
[M+"utils/settings.py",M+"utils/serialize.py",M+"lab/circuit_components.py"],[("Settings.__call__/__enter__/__exit__",M+"utils/settings.py"),("save, load",M+"utils/serialize.py"),("CircuitComponent._serialize/_deserialize/_tree_flatten",M+"lab/circuit_components.py")],"settings attributes; loaded objects")
p("P20","Sampling follows the state's distribution and is reproducible",
"Measurement samples are drawn from exactly the outcome distribution of the state: each sampled multi-mode outcome is possible, successive modes are drawn from the correctly conditioned and normalised remaining state, probabilities listed for outcomes are those of the state, and the requested number of samples with one column per mode is returned. Given the same seed (any integer) and state, sampling returns the same samples.",
["inputs","histories"],"all states, mode numbers, cutoffs/grids, seeds and sample counts",
"Tests check one or two seeds and rough statistics on a single mode.",
[M+"lab/samplers.py"],[("Sampler.sample, sample_prob_dist, _get_povm",M+"lab/samplers.py"),("HomodyneSampler, PNRSampler",M+"lab/samplers.py")],"arrays returned by sample()")
p("P21","Stellar decompositions recompose to the original state",
"Every stellar decomposition of a state on any choice of core modes returns a core with the documented core property (finite support when the other modes are projected on vacuum) and a transformation of the documented physical kind, whose composition equals the original state, for displaced and undisplaced, batched and unbatched states.",
["inputs"],"all Gaussian kets/density matrices, all core-mode subsets, batches",
"Tests use undisplaced random states and one core-mode choice.",
[M+"lab/states/ket.py",M+"lab/states/dm.py"],[("formal/physical_stellar_decomposition(_mixed)",M+"lab/states/ket.py, dm.py")],"returned core and transformation")
p("P22","The NumPy and JAX backends compute the same values",
"Every backend operation and every public computation gives the same values, shapes and data types (up to rounding) with either backend.",
["inputs","configurations"],"all operations, all inputs, both backends",
"Tests run the same assertions on both but never compare the two on the same inputs.",
[M+"math/backend_numpy.py",M+"math/backend_jax.py"],[("BackendNumpy, BackendJax",M+"math/")],"return values of math.*")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,x['id']
print(len(P))
