M = [("sum of two uniform", "C04"), ("without orders has 20", "C04"), ("concatenation and product", "C04"), ("cartesian truncated", "C04"),
     ("bounds of a model domain", "C04"), ("domain entries", "C04"), ("linear decision rules on several", "C05"), ("one exogenous point", "C05"),
     ("custom decision rules", "C06"), ("LogNormal were swapped", "C07"), ("Beta distributions", "C07"), ("Bernouilli draws", "C10"),
     ("discretization options were ignored", "C07"), ("np.Inf", "C07"), ("counted twice", "C07"), ("gauss_hermite_nodes dropped", "C07"),
     ("transposed cholesky", "C08"), ("UNormal.integrate", "C07"), ("constant process could not", "C07"), ("not a scalar was silently", "C08"),
     ("deterministic simulation and gdp", "C10"), ("simulated VAR1 processes start", "C10"), ("impulse responses failed", "C12"),
     ("deterministic simulation of iid", "C10"), ("read past the last", "C10"), ("simulate_markov_chain could not", "C10"),
     ("could not be replicated", "C10"), ("AR1 processes could neither", "C10"), ("gdp discretization of VAR1 ignored", "C08"),
     ("could not be drawn", "C10"), ("draws from a mixture", "C10"), ("spurious dimension", "C08"), ("single named markov", "C09"),
     ("reacted to the shocks", "C11"), ("seed given to simulate", "C11"), ("missing from simulations", "C11"), ("share the same values", "C11"),
     ("required an initial index", "C11"), ("default impulse", "C12"), ("tabulate_2d", "C13"), ("could not be perturbed", "C21"),
     ("leads and lags were swapped", "C14"), ("notation v[t]", "C14"), ("sin and cos were missing", "C14"), ("find_steady_state returned", "C15"),
     ("dropped the first value", "C16"), ("longer than the horizon", "C16"), ("did not start at the requested", "C16"), ("initial state as a dictionary", "C16"),
     ("ignored tol, maxit", "C16"), ("not accepted as an initial guess", "C16"), ("non constant bounds", "C16"), ("arguments of the lmmcp solver", "C16"),
     ("lmmcp returned points", "C24"), ("ncpsolve ignored the bounds", "C23"), ("ncpsolve produced nans", "C23"), ("solve_tensor was wrong", "C25"),
     ("sparse matrices made from a SparseTensor", "C25"), ("improved_time_iteration ignored the grid", "C18"),
     ("time_iteration reported convergence at the tolerance", "C17"), ("reported convergence when the inner solver was stuck", "C17"),
     ("time_iteration ignored the grid", "C17"), ("gmres inversion failed", "C18"), ("models without complementarity", "C18"),
     ("improved_time_iteration produced nans", "C18"), ("improved_time_iteration accepts", "C18"), ("egm failed when only", "C19"),
     ("egm did not accept", "C19"), ("looked for bounds", "C20"), ("evaluate_policy", "C20"),
     ("complex generalized eigenvalues", "C26"), ("perturb reported stable", "C21"), ("perturb ignored iid", "C21"), ("second_order_solver imported", "C26"),
     ("hp_filter ignored lam", "C27"), ("cached functions confused", "C28"), ("DiskDictionary", "C28"), ("cachedondisk failed", "C28"),
     ("set_calibration had no effect", "C01"),
     ("numdiff failed unless", "C03"), ("allocating_function differentiated", "C03"), ("numdiff2 failed", "C03"), ("serial_solve truncated", "C25"),
     ("plot_decision_rule", "C33"), ("plot_irfs", "C33"), ("http in their path", "C34"), ("multimethod.register", "C32"),
     ("file of an imported model", "C33"), ("printed its loop indices", "C33"), ("could not be tabulated without", "C13"),
     ("response printed", "C33"), ("ignored solve_steady_state", "C21")]
