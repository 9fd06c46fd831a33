NOTES = {
 'C01': 'exhaustive over the stated alphabet of states and operations up to the stated depth; other dimensions and depths are not covered',
 'C02': 'exhaustive over the stated alphabet of states, one (thorough: two) preceding operations and all option combinations',
 'C03': 'exhaustive over the stated alphabet of states, preparations, truncating calls with all options, and every D in range',
 'C04': 'exhaustive over the stated alphabet of states, histories up to the stated depth, and every query on every site (pair) of chains within bounds',
 'C05': 'exhaustive over the stated alphabet of states, constructions, combinations and post selections',
 'C06': 'exhaustive over the stated alphabet of states, preparations, operators, site pairs, split sides and gate pairs; non adjacent pairs for spin 1/2 only',
 'C07': 'exhaustive over the stated alphabet of states, preceding operations and formats',
 'C08': 'exhaustive over the stated alphabet of states, derivations and operations (pairs of operations on copies in the thorough tier)',
}
NOTES.update({
 'C09': 'exhaustive over the stated alphabet of states, Hamiltonians and every tangent direction',
 'C10': 'exhaustive over the stated alphabet of states, Hamiltonians and every index of the returned tensors',
 'C11': 'exhaustive over the stated alphabet of states, Hamiltonians, grids and call sequences up to the stated depth; integrators needing the absent xmps.tdvp package are not covered',
 'C12': 'exhaustive over the stated alphabet of one-site infinite states and histories up to the stated depth; the code supports no larger unit cells',
 'C13': 'exhaustive over the stated alphabet of one-site infinite states, query orders up to the stated depth and pairs of equal bond dimension',
 'C14': 'exhaustive over the stated alphabet of normalised infinite states, Hamiltonians, tangent directions, step sizes and steps; optimiser runs are of bounded length',
 'C15': 'exhaustive over sets of named terms up to the stated size with fixed coefficients, lengths and conversion sequences up to the stated depth',
 'C16': 'exhaustive over spins, sites, lengths, generators and angles of a grid within the stated bounds',
 'C23': 'exhaustive over the stated alphabet of states, forms, sites, site ranges and ranks of carried operators',
})
NOTES.update({
 'C17': 'exhaustive over networks, leg partitions, matrix shapes and kept subsets within the stated bounds, with fixed generic entries per shape',
 'C18': 'exhaustive over lattices up to 3x3 and chains of operators within the stated bounds, operations up to the stated depth; one-column lattices for row contractions and moses moves (stubbed upstream) are not covered',
 'C19': 'exhaustive over the stated sets of failing decompositions for the stated operations and states; compiled fallbacks for old scipy releases cannot be loaded here',
})
NOTES['C20'] = 'exhaustive over the stated alphabet of states, preparations, sites, halves, operators and histories up to the stated depth; the older copy in xmps/projects/fTFD.py is not covered'
NOTES['C22'] = 'exhaustive over the stated alphabet of states, forms, Hamiltonians, dimensions, time steps and thresholds; growth by more than two successive steps, or through states with vanishing Schmidt values, is numerically undefined and left out'
NOTES['C21'] = 'exhaustive over the stated alphabet of states, forms and single disturbances; deviations inside the tolerance band of the predicates are not judged'
NOTES['C24'] = 'exhaustive over the named states and operation histories up to the stated depth'
NA = {}
NOTES['C25'] = 'exhaustive over lengths, sites, a grid of couplings and pairs of constructions'
NOTES['C26'] = 'exhaustive over stop/resume histories to the stated depth over the stated names and kinds of runs, and over all crash points of a stop with three torn forms per file; concurrent stops by several processes are not explored'
