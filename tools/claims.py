CLAIMED["P03"] = ("proof", PROOF, "every parameter value; batches of the listed shapes and 1-2 modes exactly, more modes by bounded native contracts")
CLAIMED["P04"] = ("proof", PROOF, "every parameter value; matrix gates exactly for 1-2 modes, 1-4 modes by bounded native contracts; number basis bounded")
CLAIMED["P05"] = ("proof", PROOF, "every parameter value of the single-mode channels exactly; many modes, number-basis inputs and phase noise by bounded native contracts")
CLAIMED["P06"] = ("proof", PROOF, "every parameter value and hbar for 1-2 modes exactly; more modes by bounded native contracts")
CLAIMED["P02"] = ("proof", PROOF, "every triple with up to 5 variables and the listed index choices exactly; more variables, batches and superpositions by bounded native contracts")
CLAIMED["P01"] = ("exploration", "contract-based verification: postconditions on the real Wires methods against a set-theoretic specification, bounded evaluation", "bounded: every wire set over the listed modes plus random larger ones")
CLAIMED["P12"] = ("proof", PROOF, "every A, b, c and evaluation point for the listed numbers of variables and polynomial shapes; batches, superpositions, simplification and equality by bounded native contracts")
CLAIMED["P13"] = ("proof", PROOF, "every array entry for the listed shapes and labels exactly; random shapes by bounded native contracts")
CLAIMED["P14"] = ("proof", PROOF, "every parameter value for the listed wire layouts exactly; random wires, modes, batches and number-basis components by bounded native contracts")
CLAIMED["P15"] = ("proof", PROOF, "every parameter value for the listed small circuits and einsum networks exactly; random circuits, path optimisation and cutoffs by bounded native contracts")
CLAIMED["P16"] = ("proof", PROOF, "every parameter value for the listed batch layouts exactly; random batches, superpositions and operations by bounded native contracts")
CLAIMED["P17"] = ("proof", PROOF, "every triple, array, covariance and hbar for 1-2 modes exactly; eigenvalue-based figures (entropy, fidelity of mixed states) and random states by bounded native contracts")
CLAIMED["P07"] = ("proof", PROOF, "every triple, angle, ordering parameter and hbar for 1-2 modes exactly, discretised Wigner function exactly for cutoffs 1-4; more modes, larger cutoffs, polynomial parts, batches by bounded native contracts")
CLAIMED["P18"] = ("proof", PROOF, "one optimisation step for every parameter, gradient and learning rate of 1-2 mode groups exactly; circuits, training runs and random matrices by bounded native contracts")
CLAIMED["P19"] = ("exploration", "contract-based verification: the contract of the temporary-settings block is discharged exactly; save/load, copies and pytree round trips are postconditions on the real methods evaluated natively", "settings contract discharged; the round trips are bounded: every built-in component with random parameters, generic components and circuits")
CLAIMED["P20"] = ("proof", PROOF, "number sampling: every state of the listed shapes exactly, with the random generator under an assumed contract (Generator.choice returns any outcome of positive probability); homodyne sampling and statistics by bounded native contracts")
CLAIMED["P21"] = ("proof", PROOF, "kets and the formal decomposition of density matrices exactly for 1-2 modes (eigh under an assumed contract); physical decomposition of density matrices and more modes by bounded native contracts")
