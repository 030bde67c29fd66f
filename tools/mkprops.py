"""Writes properties.jsonl (kept as a script so the statements stay readable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'observe_at': list(observe)}})


prop('C01', 'Fock bases, index maps and sector arithmetic are exact bijections',
     'For every number of levels and particles the generated basis is the ascending list of all bit strings with that '
     'many set bits, and a lookup returns the position of a state that is in the list and -1 for one that is not. '
     'The (up,down) <-> vector index and (n_up,n_down) <-> sector number maps are bijections, and sector dimensions are '
     'the products of binomials. Neighbouring sectors differ by exactly one particle of the requested spin, and moves '
     'that leave the Hilbert space are refused.',
     ['inputs', 'configurations'], 'all level counts up to 10 (thorough 14) exhaustively, up to 32 for the basis; every state, every sector, every move',
     'The tests look at one or two bases; the maps have to be bijections for every size, including the 31/32-bit edge.',
     ['edpyt/lookup.py', 'edpyt/sector.py', 'edpyt/espace.py'],
     [('bit-permutation successor', 'edpyt/sector.py:permutations'), ('binary search', 'edpyt/lookup.py:binsearch'),
      ('ravel/unravel of sector numbers', 'edpyt/lookup.py:get_sector_index')],
     ['generate_states', 'binsearch', 'get_spin_indices', 'get_espace_dim', 'build_empty_sector'])

prop('C02', 'Creation and annihilation operators satisfy the fermionic algebra',
     'On every basis state, creating a particle in an empty mode or destroying one in a full mode yields the state with '
     'that bit flipped, and anything else is refused. The signs make the operators satisfy the canonical '
     'anticommutation relations for every pair of modes, and hop operators and number operators equal the products of '
     'these elementary operators.',
     ['inputs'], 'every state and every pair (quadruple for products) of modes, for all mode counts up to 8 (thorough 10), plus the states with bits next to position 31',
     'The tests apply a handful of operators to a handful of states; a sign error may show only for one parity between one pair of modes.',
     ['edpyt/operators.py'], [('sign = parity of the bits above the mode', 'edpyt/operators.py:fsgn'),
                              ('parity between two modes', 'edpyt/operators.py:get_parity')],
     ['cdg', 'c', 'cdgc', 'check_full', 'check_empty'])

prop('C03', 'Sector Hamiltonians with spin-number symmetry equal second quantisation',
     'For each (n_up,n_down) sector, the assembled operator is the matrix of the documented Hamiltonian: on-site '
     'energies plus chemical shift, hoppings of either spin, on-site and inter-site density interaction (with its '
     'half-filling form and reference charges), exchange and pair hopping. It is symmetric whenever the couplings are, '
     'it ignores no coupling above its cut-off, and the dense form and the product form agree.',
     ['inputs', 'configurations'], 'every sector for up to 4 levels; every choice of couplings from a finite alphabet per coupling kind, singly and in pairs, all option combinations',
     'The tests use uniform, spin-independent couplings at half filling; index transpositions, missing hermitian partners and wrong spin channels do not show there.',
     ['edpyt/build_mb_ham.py', 'edpyt/ham_local.py', 'edpyt/ham_hopping.py', 'edpyt/ham_non_local.py', 'edpyt/matvec_product.py', 'edpyt/shared.py'],
     [('diagonal assembly', 'edpyt/ham_local.py:_build_ham_local'), ('hopping CSR', 'edpyt/ham_hopping.py:add_hoppings'),
      ('exchange/pair hopping CSR', 'edpyt/ham_non_local.py:_build_ham_non_local')],
     ['build_mb_ham', 'todense', 'matvec_operator'])

prop('C04', 'Sector Hamiltonians with total-number symmetry equal second quantisation',
     'For each total particle number, the assembled operator is the matrix of the on-site, density interaction, '
     'exchange and pair-hopping terms in the basis of all 2n-mode states of that number (inter-level hoppings are '
     'documented as discarded, with a warning). For Hamiltonians without hopping its spectrum is the union of the '
     'spectra of the (n_up,n_down) sectors of the same total number.',
     ['inputs', 'configurations'], 'every particle number for up to 4 levels, every coupling pattern of a finite alphabet, both spins different',
     'The tests build one symmetric two-level model whose two spins are equal.',
     ['edpyt/build_mb_ham.py', 'edpyt/ham_local.py', 'edpyt/ham_non_local.py', 'edpyt/espace.py'],
     [('diagonal over 2n-bit states', 'edpyt/ham_local.py:_N_build_ham_local'),
      ('exchange over 2n-bit states', 'edpyt/ham_non_local.py:_N_build_ham_non_local')],
     ['build_mb_ham', 'build_espace'])

prop('C05', 'Sparse and matrix-free products equal dense products',
     'The compiled sparse kernels add A.x (and the Kronecker products of A with an identity on either side) to the '
     'output vector without touching their inputs, for every sparsity pattern including empty rows and columns. The Hamiltonian '
     'product assembled for a sector equals its dense matrix times the vector for every combination of couplings, whether '
     'or not an output vector is supplied.',
     ['inputs', 'configurations'], 'all sparsity patterns of matrices up to 3x3, all operator combinations, all unit vectors (linearity extends to all vectors)',
     'The tests multiply one random square matrix per kernel; empty rows, rectangular blocks and accumulation into non-zero output are not seen.',
     ['edpyt/cs_gaxpy.c', 'edpyt/psparse.pyx', 'edpyt/matvec_product.py', 'edpyt/ham_hopping.py', 'edpyt/ham_local.py'],
     [('row-parallel CSR product', 'edpyt/psparse.pyx'), ('gaxpy', 'edpyt/cs_gaxpy.c'), ('chained in-place accumulation', 'edpyt/matvec_product.py:_matvec_operator')],
     ['UPmultiply', 'DWmultiply', 'Multiply', 'matvec_operator', 'todense'])

prop('C06', 'Parallel loops give the serial result under every schedule',
     'The OpenMP kernels (sparse products, Hamiltonian spectral sums) and the parallel Hamiltonian assembly write '
     'disjoint results per iteration: for every assignment of iterations to threads and every interleaving of their '
     'memory accesses, the result equals the serial one.',
     ['schedules'], 'all interleavings of the threads\' shared-memory accesses for 2-3 threads on small matrices (up to partial-order equivalence), and all orders of the parallel-for iterations',
     'Each test run sees one schedule, usually a benign one; a race on a shared temporary shows up only under some interleavings.',
     ['edpyt/psparse.pyx', 'edpyt/cs_gaxpy.c', 'edpyt/continued_fraction.pyx', 'edpyt/ham_local.py'],
     [('prange over rows/columns', 'edpyt/psparse.pyx'), ('prange over down states', 'edpyt/ham_local.py:_build_ham_local'),
      ('prange over frequencies', 'edpyt/continued_fraction.pyx')],
     ['UPmultiply', 'DWmultiply', 'Multiply', 'continued_fraction', 'build_mb_ham'])

prop('C07', 'Continued fractions and spectral sums equal the resolvent of the matrix',
     'For every symmetric tridiagonal matrix and every complex frequency off its spectrum, the continued fraction equals '
     'the (1,1) element of the inverse of (z - T), and the spectral sum over its eigenpairs equals the same number. '
     'The kernel returns one value per frequency, for frequency arrays of every length.',
     ['inputs', 'configurations'], 'all tridiagonal matrices of size up to 4 (thorough 5) with entries from a finite alphabet incl. zero couplings, a grid of frequencies, all array lengths up to 4, both precisions of z',
     'The test compares one random matrix at one set of frequencies.',
     ['edpyt/continued_fraction.pyx', 'edpyt/gf_lanczos.py', 'edpyt/gf_exact.py'],
     [('bottom-up recursion', 'edpyt/continued_fraction.pyx')], ['continued_fraction', 'continued_fraction_Gf', 'spectral_Gf'])

prop('C08', 'Krylov tridiagonalisation, its solvers and the block variant are exact',
     'For every symmetric matrix and start vector, the tridiagonal coefficients equal those of exact arithmetic '
     'tridiagonalisation up to the breakdown step, where the recursion stops or decouples. The eigenpairs computed from the '
     'coefficients up to that step are orthonormal eigenpairs of the matrix in the Krylov space of the start vector, and its '
     'lowest energy is the ground-state energy when that space is complete. The band variant (several start vectors) returns a symmetric banded '
     'matrix with the spectrum of the original one.',
     ['inputs', 'configurations'], 'all symmetric 0/±1 patterns up to dimension 4 (thorough 5) times unit and combined start vectors; all step limits; degenerate and invariant-subspace cases',
     'The test runs one random matrix far from breakdown; breakdown at each possible step is not reached.',
     ['edpyt/lanczos.py', 'edpyt/tridiag.py'],
     [('three-term recursion', 'edpyt/lanczos.py:sl_step'), ('convergence / breakdown test', 'edpyt/lanczos.py:build_sl_tridiag'),
      ('band recursion', 'edpyt/lanczos.py:build_bd_tridiag')], ['build_sl_tridiag', 'sl_solve', 'eigh_tridiagonal', 'build_bd_tridiag'])

prop('C09', 'The eigen-solution of a system is exact and complete in every solver mode',
     'Solving a system returns, for every symmetry sector requested, eigenvalues and orthonormal eigenvectors of '
     'that sector\'s Hamiltonian in ascending order, as many as asked for; without truncation this is the whole '
     'spectrum, with it the lowest part (degenerate copies count in the dense solver). The reported ground-state energy is the minimum over all sectors kept.',
     ['inputs', 'configurations'], 'all models of a small alphabet up to 3-4 levels, all truncation sizes and cut-offs, both symmetries, both the dense and the iterative solver',
     'Two tests compare total spectra of one chain; the choice between solvers, truncation and sector lists are not exercised.',
     ['edpyt/espace.py', 'edpyt/eigh_arpack.py', 'edpyt/ham_local.py'],
     [('choice of dense or iterative solver', 'edpyt/espace.py'), ('reverse-communication ARPACK', 'edpyt/eigh_arpack.py'),
      ('ground-state minimum', 'edpyt/espace.py:build_espace')], ['build_espace', 'build_non_interacting_espace', 'eigh_arpack'])

prop('C10', 'Thermal screening keeps exactly the states above the cut-off',
     'Screening a solved system leaves exactly the eigenpairs whose Boltzmann weight relative to the ground state exceeds the '
     'cut-off, drops sectors with none, keeps the rest of each sector unchanged, and is idempotent and monotone in '
     'temperature and cut-off. The adaptation of the number of states per sector between solves follows its documented rule '
     'over every sequence of solves: sectors whose states were all kept get one more, the others one less, never below one nor above the sector size.',
     ['inputs', 'histories'], 'all spectra over a finite energy alphabet (with exact ties), all cut-off/temperature pairs, all sequences of screens up to length 3; all reachable states of the sector-size automaton',
     'One test checks one adjustment; ordering, ties at the cut-off and repeated screening are not covered.',
     ['edpyt/espace.py'], [('weight mask', 'edpyt/espace.py:screen_espace'), ('size rule', 'edpyt/espace.py:adjust_neigsector')],
     ['screen_espace', 'adjust_neigsector'], [('espace', 'sector -> eigenpairs kept', 'edpyt/espace.py'), ('neig', 'states per sector for the next solve', 'edpyt/espace.py')])

prop('C11', 'Occupations are thermal averages for every sector set and array layout',
     'Site occupations per spin equal the Boltzmann average of the number operators over the retained states, whatever the '
     'memory layout of the eigenvectors, and asking for them does not alter the solution. '
     'Their sum is the average particle number, and the per-vector form gives the expectation value in each combination.',
     ['inputs', 'configurations', 'histories'], 'all models of a small alphabet up to 3 levels, every retained-sector subset, all temperatures of a grid, C/Fortran/strided eigenvector layouts, repeated calls',
     'One test checks one system in one layout.',
     ['edpyt/observs.py'], [('weighted average', 'edpyt/observs.py:get_occupation'), ('reshape to (down,up)', 'edpyt/observs.py')],
     ['get_occupation', 'get_evecs_occupation'])

prop('C12', 'The exact Green function is the thermal Lehmann sum for every site and spin',
     'The Green function built from a full solution equals the Lehmann representation at every frequency, site and spin, '
     'for every temperature. Its spectral weight is one, its poles are many-body energy differences, and its imaginary part '
     'is negative above the real axis.',
     ['inputs', 'configurations'], 'all models of a small alphabet (spin-dependent, interacting) up to 3 levels, all sites and spins, a grid of temperatures and frequencies',
     'The tests check only site 0, spin up, for non-interacting or particle-hole symmetric cases, where the wrong spin sector gives the same result.',
     ['edpyt/gf_exact.py', 'edpyt/gf_lanczos.py'], [('Lehmann kernel', 'edpyt/gf_exact.py:project_exact'), ('sector pairing', 'edpyt/gf_exact.py:build_gf_exact')],
     ['build_gf_exact'])

prop('C13', 'The Krylov Green function equals the exact one in every representation',
     'Built from retained states, it equals the Lehmann sum over those initial states with all final states, for every site, '
     'spin, temperature, in both the continued-fraction and the pole representation, and with the electron and hole parts '
     'returned together or separately. Both representations agree with each other at every frequency.',
     ['inputs', 'configurations'], 'all models of a small alphabet up to 3 levels (thorough 4), all option combinations, screened and unscreened solutions, all retained-state subsets',
     'The existing tests compare one site of one free chain; options and screened solutions are not crossed.',
     ['edpyt/gf_lanczos.py', 'edpyt/lanczos.py', 'edpyt/tridiag.py', 'edpyt/continued_fraction.pyx'],
     [('ladder state and Krylov run', 'edpyt/gf_lanczos.py'), ('early-out for small sectors', 'edpyt/gf_lanczos.py:build_gf_lanczos')],
     ['build_gf_lanczos', 'spectral_Gf', 'continued_fraction_Gf'])

prop('C14', 'Results do not depend on which questions were asked before',
     'Computing a Green function, an occupation, a transition table or a display never changes the solved system, the '
     'Hamiltonian, the interaction or the global settings. Every sequence of such questions gives '
     'each of them the answer it has when asked first, and re-solving gives the same solution; screening is the only operation '
     'that changes a solution.',
     ['histories'], 'all sequences of operations from the alphabet of queries up to length 2 (thorough 3) on small systems, with a digest of the whole state compared after each step',
     'Every test asks one question of a fresh solution; the interference needs two or more in sequence.',
     ['edpyt/gf_lanczos.py', 'edpyt/gf_exact.py', 'edpyt/gf2_lanczos.py', 'edpyt/observs.py', 'edpyt/espace.py', 'edpyt/build_mb_ham.py', 'edpyt/sqtunneling.py', 'edpyt/cotunneling.py', 'edpyt/eshow.py'],
     [('missing sectors are solved on demand', 'edpyt/gf_lanczos.py:build_gf_lanczos'), ('read-only flag of H', 'edpyt/build_mb_ham.py')],
     ['build_gf_lanczos', 'build_gf_exact', 'get_occupation', 'screen_espace', 'build_mb_ham'],
     [('espace', 'solved sectors shared by all queries', 'edpyt/espace.py'), ('params', 'global model settings', 'edpyt/shared.py')])

prop('C15', 'The Green-function matrix is complete and consistent element by element',
     'Every element of the matrix Green function of one spin equals the off-diagonal Lehmann sum, by direct evaluation and '
     'by indexing; the matrix is symmetric for real symmetric models and its diagonal equals the single-site Green functions. '
     'For non-interacting systems its inverse is z minus the one-body Hamiltonian.',
     ['inputs', 'configurations'], 'all models of a small alphabet up to 3 levels incl. disconnected sites, all pairs, spins, temperatures and frequencies of a grid',
     'There is no test for it; zero off-diagonal elements (disconnected sites) take a different path.',
     ['edpyt/gf2_exact.py', 'edpyt/gf2_lanczos.py'], [('polarisation with combined ladder states', 'edpyt/gf2_lanczos.py:build_gf_offdiag'),
      ('residue product', 'edpyt/gf2_exact.py')], ['build_gf2_exact', 'build_gf2_lanczos'])

prop('C16', 'Sequential-tunnelling rates are golden-rule rates and conserve probability',
     'For every pair of many-body states differing by one particle, the transition elements are the squared ladder-operator '
     'matrix elements, and the rates are these times the lead occupation at the energy difference (in) or its complement (out). '
     'Columns of the generator sum to zero, off-diagonal rates are non-negative, and at one common chemical potential the '
     'rates obey detailed balance.',
     ['inputs', 'configurations'], 'all models of a small alphabet up to 2-3 levels, both symmetries, every particle-number window, several lead couplings, biases and temperatures',
     'The tests compare with a stored number for one molecule.',
     ['edpyt/sqtunneling.py', 'edpyt/sqtnl.py', 'edpyt/rates.py'],
     [('ladder matrix elements', 'edpyt/sqtunneling.py:build_transition_elements'), ('golden rule', 'edpyt/sqtunneling.py:build_rate_matrix')],
     ['build_transition_elements', 'build_rate_matrix', 'build_transition_matrix', 'build_rate_and_transition_matrices'])

prop('C17', 'Cotunnelling amplitudes and rates equal second-order perturbation theory',
     'For each pair of charge-conserving many-body transitions the amplitude equals the sum over all intermediate states of both '
     'particle orders of products of ladder elements over their energy denominators. The tabulated rates follow from these '
     'amplitudes and obey detailed balance, those in the leading-order approximation are non-negative, and vectorised and '
     'element-wise evaluation agree.',
     ['inputs', 'configurations'], 'all models of a small alphabet up to 2 levels, both symmetries, all initial/final pairs, sites and spins, a grid of energies',
     'One test compares one amplitude table with a stored analytic model.',
     ['edpyt/cotunneling.py', 'edpyt/cotnl.py', 'edpyt/cotools.py', 'edpyt/integrals.py'],
     [('intermediate-state sum', 'edpyt/cotunneling.py'), ('regularised integrals', 'edpyt/integrals.py')],
     ['build_transition_elements', 'build_rate_matrix', 'Gf2'])

prop('C18', 'Thermal tunnelling integrals are continuous and match their definition',
     'The Fermi and Bose factors and the regularised integrals used for cotunnelling equal their closed-form definition for '
     'every combination of energies, lead potentials and temperature, including coinciding poles and zero bias where the '
     'formulas need a limit. Exchanging the leads reverses the sign of the bias dependence as detailed balance demands.',
     ['inputs'], 'all combinations of a grid of pole energies, potentials and temperatures incl. exact and near coincidences, compared with high-precision evaluation',
     'Only evaluated through one integrated test away from the coincidences.',
     ['edpyt/integrals.py', 'edpyt/cotools.py'], [('digamma closed forms', 'edpyt/integrals.py')], ['I1', 'I2'])

prop('C19', 'The stationary distribution solves the rate equation',
     'For every generator with one recurrent class, the stationary solution is a probability vector annihilated by it; it is '
     'unique, non-negative and sums to one, independent of the unit of time and of the numbering of the states.',
     ['inputs', 'configurations'], 'all generators of up to 4 (thorough 5) states whose rates come from a finite alphabet with one recurrent class, all scalings of a list, all relabelings',
     'The tests reach it only through two physical examples.',
     ['edpyt/rates.py'], [('null vector selection', 'edpyt/rates.py:stationary_solution')], ['stationary_solution'])

prop('C20', 'Integrated occupations equal Fermi sums for every pole pattern',
     'For a Green function that is a sum of real poles with positive weights, both the contour integration and the '
     'Matsubara sum give the sum of weights times Fermi factors, to their stated accuracy, for every chemical potential and temperature. The result '
     'is bounded by the total weight and increases with the chemical potential.',
     ['inputs'], 'all pole patterns of up to 3 poles from a finite alphabet, all chemical potentials and temperatures of a grid, scalar- and matrix-valued functions',
     'One test integrates one pole.',
     ['edpyt/integrate_gf.py'], [('Ozaki poles and residues', 'edpyt/integrate_gf.py')], ['integrate_gf', 'matsum_gf'])

prop('C21', 'The compiled bath fit evaluates, descends and returns a consistent minimum',
     'The compiled hybridisation function and cost equal their formulas, and the gradient is the derivative of the cost, for every bath '
     'size and frequency count. A fit never returns a cost above that of its start, reproduces a bath that can be represented '
     'exactly when started next to it, depends only on its inputs, and never ends the calling process.',
     ['inputs', 'histories'], 'all bath sizes 1-6 and frequency counts, all parameter vectors of a grid, repeated calls in one process in all orders of a list of problems',
     'Three C programs print numbers and only their exit status counts.',
     ['edpyt_backend/bath.c', 'edpyt_backend/fit.c', 'edpyt_backend/frprmn.c', 'edpyt_backend/dbrent.c', 'edpyt_backend/dlinmin.c', 'edpyt_backend/mnbrak.c', 'edpyt_backend/fit_wrap.py'],
     [('conjugate gradient with derivative line search', 'edpyt_backend/frprmn.c'), ('bath initialisation', 'edpyt_backend/bath.c:init_bath')],
     ['fit_hybrid', 'get_chi2', 'get_grad', 'init_bath'])

prop('C22', 'The Python bath fit evaluates its model and both backends start alike',
     'The discretised hybridisation equals its pole formula for every parameter vector and frequency, and the fit\'s gradient is the '
     'derivative of its cost. Initial baths are symmetric, within the bandwidth and identical in both backends for every bath size.',
     ['inputs', 'configurations'], 'all bath sizes up to 8 (thorough 12), bandwidths and parameter grids, frequency arrays of every small shape',
     'Not tested from Python at all.',
     ['edpyt/fit_cg.py', 'edpyt/fit_cffi.py', 'edpyt_backend/bath.c'], [('pole sum', 'edpyt/fit_cg.py:_delta'), ('initial bath', 'edpyt/fit_cg.py:get_initial_bath')],
     ['fit_hybrid', 'get_initial_bath', 'Delta'])

prop('C23', 'Distributed runs equal serial runs for every rank count and interleaving',
     'With the Hilbert space divided among processes, the transposes are exact and mutually inverse, the distributed '
     'Hamiltonian product, the distributed recursion and the distributed occupations equal the serial ones. This holds for every admissible number of '
     'processes and every order in which they reach their collective operations, all of them issuing the same sequence of collectives.',
     ['schedules', 'configurations'], 'all rank counts dividing the sector size up to 6 (thorough 12), all orders in which ranks arrive at each collective for 2-3 ranks, all square sectors up to 4 levels',
     'The MPI tests need an mpirun launch, are run by hand and see one schedule each.',
     ['edpyt/vector_transpose.py', 'edpyt/matvec_product.py', 'edpyt/lanczos.py', 'edpyt/observs.py', 'edpyt/nano_dmft.py'],
     [('all-to-all transpose', 'edpyt/vector_transpose.py'), ('distributed product', 'edpyt/matvec_product.py:_matvec_operator_mpi')],
     ['collect_dw', 'collect_up', 'matvec_operator(comm=)', 'build_sl_tridiag(comm=)', 'get_evecs_occupation(comm=)'],
     [('down-spin slice', 'rows of the Hilbert vector owned by a rank', 'edpyt/vector_transpose.py')])

prop('C24', 'The self-consistency loop satisfies its defining equations at every step',
     'In every run, each iteration hands the impurity solver exactly the bath fitted to the current hybridisation; '
     'impurity and lattice Green functions and self-energy satisfy the Dyson equation; the new hybridisation is causal. '
     'The loop ends exactly when the distance falls below the tolerance or at the iteration limit, and the occupation goal is reached by the chosen '
     'chemical potential when one is set.',
     ['histories', 'inputs'], 'all histories of up to 4 iterations over scripted outcomes of solver/fit/distance, all option combinations; the equations on all models of a small alphabet',
     'No test exists.',
     ['edpyt/dmft.py'], [('fixed-point step', 'edpyt/dmft.py:DMFT'), ('impurity Green function', 'edpyt/dmft.py:Gfimp')],
     ['DMFT', 'Gfimp', 'Gfloc', 'adjust_mu'], [('mu, delta', 'quantities carried between iterations', 'edpyt/dmft.py')])

prop('C25', 'The nanostructure local Green function treats every site in its own place',
     'For every partition of sites into equivalent groups, the local Green function of each inequivalent site equals the '
     'corresponding element of the inverse of (z + mu - H - hybridisation - self-energy), with every site receiving the self-energy '
     'of its own representative. The result does not depend on the division over processes.',
     ['inputs', 'configurations'], 'all set partitions of up to 4 sites, both spin layouts, all rank counts up to 3, a small alphabet of Hamiltonians',
     'No test exists.',
     ['edpyt/nano_dmft.py'], [('representative/equivalent index maps', 'edpyt/nano_dmft.py')], ['Gfloc', 'Gfimp'])

prop('C26', 'Sampled bath discretisations stay in range and reproduce what they fit',
     'Samples drawn from a distribution always lie in its support and follow its cumulative weight for every random number, '
     'including those next to 0 and 1. A fitted discretisation reproduces the non-interacting Green function at its poles: '
     'positive residues, matching hybridisation, and the assembled impurity Hamiltonian has exactly that function as resolvent.',
     ['inputs'], 'all random-number grids incl. the ends, all distributions from a finite alphabet incl. zero bins, all pole sets up to 4 poles',
     'No test exists.',
     ['edpyt/dedlib.py', 'edpyt/ded.py', 'edpyt/dedlib_dev.py'], [('inverse cumulative lookup', 'edpyt/dedlib.py:RandomSampler'), ('pole/zero fit', 'edpyt/dedlib.py:Gfimp')],
     ['RandomSampler', 'Gfimp.fit', 'build_siam', 'build_moam'])

prop('C27', 'The distributional solver averages exactly over its accepted samples',
     'Each accepted sample contributes the impurity Green function of its own Hamiltonian and sector exactly once; samples whose ground state '
     'lies outside the requested particle sector are rejected and redrawn. The averaged function, self-energy, occupation and '
     'entropy equal the average over the accepted samples, and the outcome is a function of the random stream only.',
     ['histories', 'inputs'], 'all accept/reject histories of up to 4 draws over scripted samples, all option combinations, small systems',
     'One script runs it without any assertion.',
     ['edpyt/dedlib.py', 'edpyt/ded.py', 'edpyt/dedlib_dev.py'], [('sampling loop', 'edpyt/dedlib.py:siam_solve'), ('entropy', 'edpyt/dedlib.py:get_entropy')],
     ['siam_solve', 'moam_solve', 'get_entropy'])

prop('C28', 'State displays and representations round-trip',
     'Bit-array and string representations of a state show each level in its place, the inverse conversion returns the '
     'original state for every level count, and the printed lists of states, kets and energies name exactly the components the '
     'eigenvectors have, for both symmetries, without altering them. The charge spectrum draws one level per eigenstate at '
     'its energy and charge; the molecule drawings show every bond once and every orbital component or site occupation '
     '(of an eigenvector given as an array or a column) at its own atom.',
     ['inputs'], 'all states of up to 10 levels in both formats; all small solved systems of both symmetries; all bond graphs of up to 4 atoms',
     'One test converts one number.',
     ['edpyt/lookup.py', 'edpyt/eshow.py', 'edpyt/cotools.py'], [('reversal of the binary string', 'edpyt/lookup.py:binrep'), ('component listing', 'edpyt/eshow.py')],
     ['binrep', 'intrep', 'eprint', 'pdisplay', 'draw_skeleton', 'draw_spin_density'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
