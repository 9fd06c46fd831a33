"""writes properties.jsonl and MANIFEST.json (kept in step)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('bounded explicit-state exploration of the real code: exhaustive enumeration of operation histories / inputs from a '
        'finite alphabet, every step compared with a dense reference model')
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), note='', technique=None, level='model_checking'):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  state=state, observe=observe, note=note, technique=technique or TECH, level=level))


prop('C01', 'Gauge operations and queries never change the represented state',
     'Whatever sequence of canonicalisations (right, left, mixed; any option, as long as no truncation below the existing bond dimension is asked for), '
     'orthogonalisations (full or partial), zero-padding of the bonds, gauge matching, copying and read-only queries is performed on a finite MPS, the tensors always contract to the '
     'same physical state up to norm and global phase. This includes states with degenerate or vanishing Schmidt values, product states and over-complete bonds; site count, local dimension and bond consistency are kept.',
     ['histories', 'inputs'], 'all histories of gauge operations and queries, all finite MPS (bond structures, degenerate and rank deficient spectra)',
     'Tests canonicalise a few random full-rank fixtures once and look at the form, not the state; degeneracy, rank deficiency and chains of several operations are never met.',
     ['xmps/fMPS.py', 'xmps/tensor.py'], [('canonicalisation sweeps', 'fMPS.right_canonicalise/left_canonicalise/mixed_canonicalise'), ('QR sweeps', 'fMPS.*_orthogonalise'), ('diagonalise/rank/truncate', 'xmps/tensor.py'), ('pad and gauge match', 'fMPS.expand, match_gauge_to')],
     [('data', 'site tensors'), ('oc/canonical/orthogonal', 'which form the tensors are in')], ['dense contraction of the tensors'])
prop('C02', 'Canonical forms satisfy their isometry, norm and Schmidt-value conditions',
     'After a right (left) canonicalisation every site tensor is a right (left) isometry (on the support of the state), the state has norm 1, the recorded orthogonality centre and bond dimension are the actual ones, and the stored '
     'bond matrices are the diagonal squared Schmidt values of the state at every cut, equal to the opposite environments. After a mixed canonicalisation or orthogonalisation at a site, tensors left of it are left isometries, '
     'those right of it right isometries, and the centre has norm 1. The entanglement entropy reported for a bond is the von Neumann entropy of the Schmidt spectrum of that cut.',
     ['histories', 'inputs'], 'all finite MPS, all options of the canonicalising calls, all preceding gauge operations',
     'Tests check random fixtures of one kind, without preceding operations, option combinations or degenerate spectra, and mostly through self-checks of the library.',
     ['xmps/fMPS.py', 'xmps/tensor.py', 'xmps/tests.py'], [('sweeps and sweep back', 'fMPS.right_canonicalise/left_canonicalise/mixed_canonicalise'), ('entropy', 'fMPS.entanglement_entropy')],
     [('Ls', 'bond matrices'), ('oc', 'orthogonality centre')], ['site tensors, Ls, oc, D'])
prop('C03', 'Truncation respects the bond dimension and is as accurate as it should be',
     'Truncating a finite MPS to bond dimension D leaves no bond above D (nor above what it was), reports the true bond dimension, and gives a normalised state; when D is at least the existing bond dimension the state is unchanged. '
     'Truncating a state that is in the opposite canonical form has an error within the sum of the discarded squared Schmidt weights over all cuts, and is the best rank-D approximation when a single bond is cut.',
     ['inputs', 'configurations', 'histories'], 'all finite MPS, all D, all canonicalising calls, constructor and two-site splits taking D',
     'Tests truncate a handful of random states and assert only the shapes or a self-check flag.',
     ['xmps/fMPS.py', 'xmps/tensor.py'], [('truncating sweeps', 'fMPS.right_canonicalise(D)/left_canonicalise(D)/mixed_canonicalise(D), tensor.truncate_A/B'), ('constructor', 'fMPS.__init__(data, D=D)'), ('two-site split', 'separate_tensor_svd')],
     [('D', 'reported bond dimension')], ['bond dimensions, overlap with the original'])
prop('C04', 'Expectation values, density matrices and overlaps agree with the state vector',
     'At any point of any history of operations on a finite MPS, one-site, k-site and full-chain expectation values, reduced density matrices, overlaps, norms and energies equal the values computed from the full state vector the tensors represent '
     '(expectation values and density matrices for the normalised state, whatever the form, norm or orthogonality centre the tensors happen to be in). Asking again, or asking another question first, gives the same answer.',
     ['histories', 'inputs'], 'all histories of gauge, query and state-changing operations followed by every query on every site',
     'Tests query freshly canonicalised random states with real-symmetric operators; they do not interleave edits, gauge moves and queries, nor use operators that differ from their transpose.',
     ['xmps/fMPS.py'], [('one-site and k-site expectation values', 'fMPS.E/E_/Es/E_k/E_L'), ('density matrices', 'fMPS.rho/rho_proj'), ('overlaps', 'fMPS.overlap/full_overlap/local_overlap/approx_overlap'), ('energies', 'fMPS.energy')],
     [('oc', 'orthogonality centre the shortcuts rely on')], ['returned numbers'])
prop('C05', 'Building, converting and combining states matches vector algebra',
     'A finite MPS built from a state vector contracts back to that vector up to norm and phase; one built from product-state amplitudes contracts to their tensor product; addition, scalar multiplication, appending and concatenating chains and post-selecting a site '
     'on an outcome give exactly the corresponding sum, multiple, tensor product and projected vector. Random states have the requested length, local dimension, bond dimension and, where one is asked for, energy.',
     ['inputs', 'histories'], 'all states and all sequences of these operations',
     'Tests convert a few random vectors and never combine the operations or check the resulting amplitudes against linear algebra.',
     ['xmps/fMPS.py'], [('conversion', 'fMPS.left_from_state/right_from_state/recombine'), ('algebra', 'fMPS.add/mul/append/extend/post_select/from_product_state(s)'), ('random', 'fMPS.random/create_structure')],
     [('L, d, D', 'reported sizes')], ['amplitudes'])
prop('C06', 'Applying gates acts exactly as the operator on the chosen sites',
     'Applying a one-site operator, a two-site operator on any adjacent pair of sites, or (spin-1/2 chains) on any two sites i<j, changes the state vector exactly by that operator on those sites and the identity elsewhere, '
     'in any canonical form and without truncation unless one is asked for. The tensor left by an adjacent two-site gate on the chosen side is isometric, grouping then splitting two tensors gives back the same two-site block, and contracting two neighbouring tensors with an isometry is that isometry on the block.',
     ['inputs', 'histories', 'configurations'], 'all states, operators, site pairs, split sides and sequences of gates',
     'Tests apply a few unitaries on fixed sites and compare a couple of expectation values.',
     ['xmps/fMPS.py'], [('gates', 'fMPS.apply/apply_two_site/apply_two_site_isometry'), ('group and split', 'group_tensors, separate_tensor_svd/qr/rq, apply_unitary')],
     [('data', 'site tensors')], ['amplitudes'])
prop('C07', 'Serialising, storing and loading a state is lossless',
     'Turning a finite or infinite MPS into a flat vector (complex, or split in real and imaginary parts) and back, and storing it to a file and loading it, returns tensors equal to the originals, of the same shapes, for every bond structure the format admits. '
     'The loaded object is usable: it has the right length, local and bond dimension, and represents the same state.',
     ['inputs', 'histories'], 'all structures and states, after any history',
     'Tests round trip one random structure.',
     ['xmps/fMPS.py', 'xmps/iMPS.py'], [('flat vectors', 'serialize/deserialize'), ('files', 'store/load')], [('structure', 'shapes used to cut the vector')], ['tensors after the round trip'])
prop('C08', 'Copies and derived states are independent of the original',
     'After copying a finite or infinite MPS, or deriving a new one (applying a one-site gate, adding, scaling, appending, concatenating, deserialising), no operation on either object changes the state the other represents or the answers it gives.',
     ['histories'], 'all pairs of (derivation, subsequent history on either object)',
     'Tests never look at the original again after working on a copy.',
     ['xmps/fMPS.py', 'xmps/iMPS.py'], [('copies', 'fMPS.copy, iMPS.copy'), ('derivations', 'fMPS.apply/add/mul/append/extend/__add__/__mul__')], [('data', 'lists of tensors, possibly shared')], ['state vector of the other object'])
prop('C09', 'The TDVP derivative is the tangent-space projection of -iH|psi>',
     'For a canonical finite MPS of any length, local dimension, bond dimension and either canonical form, and any Hamiltonian given as nearest-neighbour terms or as a full matrix, the tangent vector returned for time evolution equals the orthogonal projection '
     'of -iH|psi> on the tangent space of the MPS manifold (up to motion along the state itself); it conserves norm and energy to first order and is exact when the bond dimension is unrestricted.',
     ['inputs', 'configurations'], 'all states, Hamiltonians, canonical forms and sites',
     'Tests compare with exact evolution for a few random states at full bond dimension, or compare two code paths of the library.',
     ['xmps/fMPS.py'], [('derivative', 'fMPS.dA_dt'), ('projectors and environments', 'left_null_projector, get_envs, left_transfer')], [('l, r', 'environments')], ['tangent vector as a state-space vector'])
prop('C10', 'Tangent-space coordinates, Jacobian and Christoffel data are consistent',
     'Tangent vectors survive a round trip between coordinates and tensors isometrically and are orthogonal to the state; the quantities <d_i psi|H|d_j psi>, <d_i d_j psi|H|psi> and <d_i d_j psi|d_k psi> equal their state-vector definitions for all pairs of sites, '
     'whatever order they are asked in and whatever was cached before; the Jacobian built from them is a Hamiltonian (symplectic-algebra) matrix.',
     ['inputs', 'histories'], 'all states, Hamiltonians, pairs (triples) of sites and query orders with shared caches',
     'Tests check self-consistency of two code paths on one or two chains and a single query order.',
     ['xmps/fMPS.py'], [('coordinates', 'fMPS.extract_tangent_vector/import_tangent_vector/tangent_space_dims/tangent_space_basis'), ('second derivatives', 'fMPS.F1/F2/christoffel/jac/ddA_dt')], [('memo tables', 'F1_tot_ij_mem, F2_tot_ij_mem, christ_tot_ij_mem, ...')], ['returned tensors'])
prop('C11', 'Finite trajectories follow the TDVP flow and report what they visited',
     'For a finite MPS whose Schmidt values at its bonds do not vanish, every available integrator of Trajectory (eulerint, rk4int, odeint, edint) records one normalised state per requested time, also on uneven time grids and for any local dimension or bond structure. '
     'The TDVP integrators keep the bond dimension and follow the TDVP flow with error of first order (euler) and fourth order (rk4) in the time step; edint, and every integrator when the bond dimension is unrestricted, follows exact Schroedinger evolution. '
     'Running a grid in two calls visits the same states as running it in one. Recorded states, current state and reported numbers agree: expectation values, energies, Schmidt values, von Neumann and Renyi entropies, Loschmidt echoes and OTOCs are those of the recorded states; queries change nothing, '
     'clear restores the initial state and forgets all records, copies are independent. Lyapunov exponents are the growth rates of the linearised flow: they sum to zero and vanish for unrestricted bond dimension. Asking for the leading exponent alone, dropping the first times, or growing the bond dimension first gives the same numbers as doing so by hand. A stopped run is resumed with the states, Hamiltonian and Lyapunov data it had.',
     ['histories', 'configurations', 'inputs'], 'all integrators, time grids, initial states and call sequences (run, clear, resume, save, query)',
     'Tests run a single integrator call for fixed times and mostly plot.',
     ['xmps/fTDVP.py', 'xmps/fMPS.py'], [('integrators', 'Trajectory.eulerint/rk4int/edint/odeint'), ('records', 'Trajectory.mps_list/mps_evs/schmidts/von_neumann/loschmidt/lyapunov'), ('bookkeeping', 'Trajectory.clear/save/stop/resume/copy'), ('gauge', 'fMPS.match_gauge_to/get_envs/dA_dt/jac')],
     [('history, T, Ds', 'recorded states, times, structures')], ['recorded states and reported numbers'])
prop('C12', 'Infinite MPS canonical forms keep the state and satisfy their conditions',
     'Canonicalising (left, right, symmetric, Vidal form, mixed gauge) an injective one-site infinite MPS in any gauge and normalisation keeps the physical state: all local reduced density matrices are unchanged. '
     'The resulting tensors are isometric with unit leading transfer eigenvalue, and the accompanying fixed points or bond matrices are diagonal, positive, of unit trace and satisfy their fixed-point equations; repeated canonicalisation changes nothing physical.',
     ['histories', 'inputs'], 'all histories of canonicalisations from all injective infinite MPS of the alphabet (bond dimension, local dimension, gauge, scale)',
     'Tests check the conditions on random one-site cells once, not the physical state, and not sequences of forms.',
     ['xmps/iMPS.py', 'xmps/tensor.py'], [('canonical forms', 'iMPS.canonicalise/left_canonicalise/right_canonicalise/mixed'), ('fixed points', 'TransferMatrix/Map.left_fixed_point, iMPS.eigs')], [('LCR', 'left/centre/right tensors')], ['reduced density matrices, fixed points'])
prop('C13', 'Infinite MPS observables agree with explicit transfer-matrix algebra',
     'One-site expectation values, energies per site of nearest-neighbour Hamiltonians, overlaps per site with states of the same bond dimension, transfer-matrix eigenvalues, fixed points and maps of an injective one-site infinite MPS equal the values obtained from explicitly built transfer matrices, '
     'whatever gauge and normalisation the tensors are in, independent of the order of queries; queries do not change the state.',
     ['inputs', 'histories'], 'all injective infinite MPS of the alphabet, all operators, all query orders and gauges',
     'Tests look at one or two known states or compare two code paths.',
     ['xmps/iMPS.py'], [('observables', 'iMPS.E/Es/energy/overlap'), ('maps', 'Map/TransferMatrix')], [('canonical flag', 'form of the tensors')], ['returned numbers'])
prop('C14', 'Infinite TDVP and ground-state search follow their variational equations',
     'The infinite TDVP derivative equals the projection of -iH on the uniform tangent space; evolving with it conserves energy and norm to the order of the integrator, imaginary-time evolution lowers the energy monotonically towards the optimum of its bond dimension.',
     ['inputs', 'configurations'], 'all infinite MPS of the alphabet, Hamiltonians, step sizes and integrators',
     'Tests evolve one state and plot.',
     ['xmps/iTDVP.py', 'xmps/iMPS.py', 'xmps/iOptimize.py'], [('derivative', 'iMPS.dA_dt'), ('integrators', 'iTDVP.Trajectory'), ('optimiser', 'iOptimize')], [('mps', 'current tensors')], ['energies, tangent vectors'])
prop('C15', 'Hamiltonian objects represent the operator that was written down',
     'A Hamiltonian given as sums of named one- and two-site spin operators with coefficients, or recovered from a matrix, converts to local matrices, full matrices and matrix product operators that all equal the explicitly embedded sum of Pauli strings, for every length (a one-letter term is that field on every site; a one-sided field such as XI acts as written on the outer sites and as the mean of both sides inside; '
     'matrix product operators exist for Heisenberg-type terms only, anything else is refused). Conversions do not modify their input, do not depend on what was converted before, and share nothing between objects.',
     ['inputs', 'histories'], 'all coefficient dictionaries over one- and two-site strings, lengths and call orders',
     'Tests compare two hand-picked Hamiltonians.',
     ['xmps/Hamiltonians.py'], [('conversions', 'Hamiltonian.to_matrix/to_matrices/to_full/to_mpo/from_matrix')], [('strings', 'coefficients'), ('cached matrices', '_matrices')], ['returned matrices'])
prop('C16', 'Spin operators and gates satisfy their algebra on every site and size',
     'Spin and ladder matrices of every spin satisfy the angular momentum commutators and Casimir identity; placing an operator (also one spanning several sites) on site i of n gives exactly that operator there and the identity elsewhere, and sites off the chain are refused; '
     'named gates and unitaries are what they are named for, swap (anti)symmetrisers are the corresponding projections, generators of su(N) are Hermitian, traceless, orthogonal with trace norm 2 and complete, components and logarithms invert them, embeddings of a rotation act on the qubits named; '
     'partial traces equal the sums over the traced indices, and the named model Hamiltonians sum to the documented operators.',
     ['inputs'], 'all spins, sites and lengths within bounds, all generators, gates and angles of a grid',
     'Tests check spin 1/2 only.',
     ['xmps/spin.py'], [('operators', 'spins, ladders, n_body, N_body_spins'), ('gates', 'U1, U2, U4, U4s, CNOT, CZ, swap, CRy'), ('algebra', 'su, lambdas, components, extractv, insu2N'), ('models', 'spinHamiltonians')], [('-', 'pure functions')], ['returned matrices'])
prop('C17', 'Tensor utilities satisfy their algebraic contracts on every shape',
     'Contracting a network gives the sum over all repeated indices in the order of the open ones, whatever the contraction order; grouping and ungrouping legs, splitting and merging tensors, completing isometries to unitaries, matrix exponentials and eigenmatrix solvers '
     'return results satisfying their defining equations for every shape in range, real or complex, square or rectangular.',
     ['inputs'], 'all small networks, leg partitions and shapes',
     'Tests use one shape each.',
     ['xmps/ncon.py', 'xmps/peps_tools.py', 'xmps/tensor.py', 'xmps/svd_robust.py'], [('contraction', 'ncon'), ('legs', 'group_legs/ungroup_legs'), ('linear algebra', 'tensor.py')], [('-', 'pure functions')], ['returned tensors'])
prop('C18', 'Two-dimensional states and operators contract to the vectors they represent',
     'A projected entangled-pair state on a rectangular lattice contracts, overlaps and reports expectation values in agreement with the explicitly contracted state vector, for every lattice size within bounds and every site; '
     'sums, flips, grouping of rows and columns, bond truncations and chains snaked onto the lattice are the states they describe; isometric form has norm one and its local expectation values at the orthogonality centre are those of the state; '
     'matrix product operators multiply and act on states as the operators they represent.',
     ['inputs', 'configurations', 'histories'], 'all lattice sizes, bond dimensions, sites, patches, cuts, centres, operators and operation sequences within bounds',
     'The tests inside the module take one random square lattice each.',
     ['xmps/fPEPS.py', 'xmps/peps_tools.py'], [('PEPS', 'fPEPS'), ('MPO', 'fMPO')], [('data', 'site tensors')], ['amplitudes, overlaps'])
prop('C19', 'A failing fast decomposition never changes results',
     'If the primary singular value routine fails to converge at any point of any operation, the fallback yields the same physical results: the same singular values, a valid decomposition, and the same states and observables from the operation it served; inputs that are not finite are reported and nothing is silently wrong.',
     ['fault_sequences', 'inputs'], 'every single failing call, every prefix of failing calls, and every pair, of the decompositions an operation makes',
     'LAPACK failures cannot be provoked by ordinary inputs; no test covers the fallback.',
     ['xmps/svd_robust.py', 'xmps/fMPS.py'], [('fallback', 'svd_robust.svd/svd_gesvd')], [('-', 'which LAPACK call fails')], ['results of operations under injected failures'],
     technique='exhaustive fault injection on the real code: every position at which the primary SVD can fail in every operation')
prop('C20', 'Thermofield doubles and Vidal forms represent the same physics',
     'A thermofield double built from a pure state reports for operators on either half the expectation values of that state, its overlaps are the corresponding fidelities, and it evolves under the Hamiltonian of either half; converting to Vidal form and back returns the same physical state.',
     ['inputs', 'histories'], 'all states of the alphabet, sites, halves and operators',
     'Tests look at symmetric operators on one random state.',
     ['xmps/fMPS.py', 'xmps/iMPS.py', 'xmps/projects/fTFD.py'], [('doubles', 'fMPS.fTFD, projects.fTFD'), ('Vidal', 'vfMPS, ivMPS')], [('data', 'doubled tensors')], ['expectation values, amplitudes'])
prop('C22', 'Growing the bond dimension keeps the state and gains accuracy',
     'Padding, dynamically expanding or growing an MPS to a larger bond dimension gives bonds bounded by the request and by the physical limit, leaves the state unchanged up to time steps of the evolution it belongs to, with the new directions holding the best part of what the evolution needs outside the tangent space; the reported projection error is dt^2 times the squared norm of the part of H|psi> outside the tangent space.',
     ['inputs', 'histories', 'configurations'], 'all states, target dimensions, time steps and thresholds of a grid',
     'Tests grow one product state and check the shape.',
     ['xmps/fMPS.py'], [('growth', 'fMPS.expand/dynamical_expand/grow/projection_error/should_expand')], [('D', 'bond dimension')], ['state before and after'])
prop('C23', 'Environments, transfers and null projectors equal their contractions',
     'The left and right environments of a finite MPS, operators transferred through any range of sites, the index lists for contracting the chain, and the left and right null-space projectors equal the explicitly contracted networks: null tensors are orthonormal, annihilated by the site tensor, and complete it to a full basis.',
     ['inputs'], 'all states, site ranges and operator ranks within bounds',
     'Tests check one chain and mostly shapes.',
     ['xmps/fMPS.py', 'xmps/iMPS.py', 'xmps/left_transfer.pyx'], [('environments', 'fMPS.get_envs'), ('transfer', 'fMPS.left_transfer/right_transfer'), ('projectors', 'fMPS.left_null_projector/right_null_projector')], [('l, r', 'environment functions')], ['returned tensors'])

prop('C21', 'Predicates certify a canonical form exactly when its conditions hold',
     'is_left_canonical and is_right_canonical answer yes exactly when every tensor is an isometry in that direction, is_left_env_canonical and is_right_env_canonical exactly when the bond matrices are the environments of the tensors, has_trace_1 and is_full_rank exactly when all traces are one and no diagonal entry vanishes, '
     'for whole chains, parts and every single disturbed tensor or bond matrix; the flags an MPS reports about itself are those answers for its current tensors, and asking changes nothing.',
     ['inputs', 'histories'], 'all states of the alphabet, forms and single disturbances (site or bond x kind) within bounds',
     'Tests use the predicates as the oracle; a predicate that certifies too much makes them all pass.',
     ['xmps/tests.py', 'xmps/fMPS.py'], [('predicates', 'tests.is_*_canonical/is_*_env_canonical/has_trace_1/is_full_rank'), ('report', 'fMPS.update_properties')], [('is_left_canonical, ...', 'flags of an MPS')], ['answers and flags'])
prop('C24', 'Named example states are the states they are named for',
     'The Bell states, the computational states of either basis, the infinite product states, the symmetric cat state, the AKLT state and product states built from site vectors are, up to a phase, normalised copies of the states named, families are orthonormal, every construction is independent of earlier ones, '
     'and they stay those states, with their textbook spin correlations, through every sequence of gauge changes, queries and copies; the AKLT state has correlations 4/3 (-1/3)^n, string order -4/9 and no spin-2 neighbours.',
     ['inputs', 'histories'], 'all named states and operation histories up to the stated depth',
     'Tests check single-site expectation values of most of them, once.',
     ['xmps/mps_examples.py', 'xmps/fMPS.py', 'xmps/iMPS.py'], [('examples', 'mps_examples'), ('products', 'fMPS.from_product_state(s)/product_state_overlap')], [('data', 'site tensors')], ['amplitudes up to a phase, correlators'])
prop('C25', 'Named chain Hamiltonians are one operator in every form',
     'The anisotropic Heisenberg chain and the Ising chain are the same Hermitian operator, for every length and all real couplings (and the same linear expression for complex ones), whether asked for as a full matrix, as the terms of neighbouring sites or as a matrix product operator; '
     'a spin operator placed on a site of a chain acts as the textbook spin matrix there and as the identity elsewhere; every construction is independent of earlier ones, and a state has the same energy by every route.',
     ['inputs', 'histories'], 'all lengths, sites and couplings within bounds, and all pairs of constructions',
     'No test imports this module.',
     ['xmps/qmb.py', 'xmps/fMPS.py'], [('placement', 'qmb.S_n_body, Sp, Sm, Sx, Sy, Sz'), ('chains', 'qmb.anisotropic_heisenberg*, local_anisotropic_heisenberg*, local_ising*')], [('terms', 'two-site matrices, MPO tensors')], ['matrices, energies'])
prop('C26', 'Stopped runs are kept apart and resumed as they were',
     'Stopping a run (Trajectory.stop) puts everything it wrote into one new folder named after the run with a number no run of that name had, and changes neither the run nor any run stopped before it, under whatever name and however often. '
     'Resuming a name in a fresh Trajectory gives back the most recent run of exactly that name, or the one with the number asked for: the current and initial states tensor by tensor, Hamiltonian, MPO, null spaces, and (unless declined) the Lyapunov exponents, basis and the flag that there are some; a resumed run that is stopped again loses nothing. '
     'A stop cut short by a crash at any point harms no other run, leaves later stops and their resumption working, and never makes resume answer with data of another run.',
     ['histories', 'crash_points'], 'all histories of stopping, resuming and crashing over an alphabet of run names and kinds of runs, all crash points and torn files of a stop',
     'Tests stop and resume one run once, in one folder; other names, many runs, resumed runs and crashes are never met.',
     ['xmps/fTDVP.py', 'xmps/fMPS.py'], [('stop and resume', 'Trajectory.stop/resume'), ('files of a state', 'fMPS.store/load')], [('run_dir', 'folder of the run')], ['files', 'attributes of the resumed run'],
     technique='bounded explicit-state exploration of the real code with fault injection: exhaustive enumeration of stop/resume histories and of every crash point and torn file, compared with a model of the directory')

exec(open(os.path.join(V, 'tools', 'claims.py')).read())     # NOTES = {id: level_note}, NA = {id: reason}

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                             state=[dict(name=a, meaning=b) for a, b in p['state']], observe_at=list(p['observe']), hook_needed=None)),
                ensure_ascii=False) + '\n')
M = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
for p in P:
    i = p['id']
    if i in NOTES:
        M['checks'].append(dict(property=i, quick_cmd='bash run.sh %s' % i, thorough_cmd='VERIF_TIER=thorough bash run.sh %s' % i,
                                technique=p['technique'], level=p['level'], level_note=NOTES[i]))
    else:
        M['not_applicable'].append(dict(property=i, reason=NA.get(i, 'the check for this property is not built yet')))
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
