"""property id -> (module, function); technique and level note per property"""
CHECKS = {
    'C01': ('solvers', 'c01'),
    'C02': ('solvers', 'c02'),
    'C03': ('solvers', 'c03'),
    'C04': ('solvers', 'c04'),
    'C08': ('cov', 'c08'),
    'C09': ('cov', 'c09'),
    'C10': ('cov', 'c10'),
}
VN = 'gated value-flow analysis of the type-checked AST (loop-summarised value numbering), terms compared by random interpretation'
TECH = {
    'C01': (VN, 'Every result field of every solver entry point is traced to the Ceres summary of the solve that wrote the answer.'),
    'C02': (VN, 'Every transform/intrinsic of every result is shown to be the documented function of the solved parameter block.'),
    'C03': (VN, 'Registration loops are shown to add exactly one residual per correspondence with that correspondence\'s data, for all sizes.'),
    'C04': (VN, 'The residual functor instantiated for each registration equals predicted minus observed for all inputs, up to random-interpretation error (<2^-40 per comparison).'),
    'C08': (VN, 'Each label is evaluated (default initialisers included) and compared with the meaning of the parameter at its position, for all registered blocks.'),
    'C09': (VN, 'The returned covariance result is compared, as a term over the solver\'s covariance, with the specified selection and normalisation; random sizes, masks, zero variances.'),
    'C10': (VN, 'Throw conditions of the covariance functions are evaluated against the specified set of unanswerable requests.'),
}
CHECKS.update({'C05': ('funcs', 'c05'), 'C11': ('funcs', 'c11'), 'C31': ('funcs', 'c31')})
TECH.update({
    'C05': (VN, 'Every projection routine is compared with an independent camera model for all points and depths (random interpretation).'),
    'C11': (VN, 'Conversions are compared with independent exp/log maps for general, tiny and zero rotations; accessor slots are exact.'),
    'C31': (VN, 'Both residual forms, the registration loop, the seeds and the returned circle are compared with their definitions.'),
})
CHECKS.update({'C23': ('image', 'c23'), 'C24': ('image', 'c24')})
CHECKS.update({'C25': ('image', 'c25')})
CHECKS['C13'] = ('equality', 'c13')
TECH['C13'] = (VN, 'Each operator== term must be true on copies and false when any documented part of either operand differs.')
CHECKS.update({'C14': ('dh', 'c14'), 'C15': ('dh', 'c15')})
TECH.update({
    'C14': (VN, 'Joint transforms and forward kinematics are compared with an independent DH model; exceptions are part of the outcome.'),
    'C15': (VN, 'Tables, labels, constructors and random joint values are compared with the joints of the chain, for all chain lengths sampled.'),
})
CHECKS.update({'C18': ('validation', 'c18'), 'C19': ('validation', 'c19'), 'C20': ('validation', 'c20')})
TECH.update({
    'C18': (VN, 'The prior residual is compared entry by entry with its definition for tables of all small shapes.'),
    'C19': (VN, 'Homography errors are compared with the homography through the selected samples; selectors with their definition.'),
    'C20': (VN, 'Distances are compared with an independent ray/plane intersection for all observations and correspondences.'),
})
CHECKS.update({'C21': ('validation', 'c21'), 'C22': ('validation', 'c22')})
TECH.update({
    'C21': (VN, 'Statistics are compared with their definition over the converged solutions, a PnP solve being an arbitrary function of its problem.'),
    'C22': (VN, 'The two half solves, their relative pose and the aggregate over all views are compared with their definition.'),
})
TECH.update({
    'C23': (VN, 'The correspondence list is compared with the id-wise join of features and target points, for random id sets.'),
    'C24': (VN, 'Point tables and board factory arguments are compared with the documented layout, for all small grids.'),
})
TECH['C25'] = (VN, 'Feature maps are compared with the specified one for all outcomes the detectors may report, all small grids and orientations.')
CHECKS['C26'] = ('image', 'c26')
TECH['C26'] = (VN, 'Filter chain, threshold sweep, grouping and entry points are compared with their definition over arbitrary contours and parameters.')
CHECKS['C12'] = ('serial', 'c12')
TECH['C12'] = (VN, 'The node term built by encode is substituted into decode and every field compared with the original (compositional over nested types).')
CHECKS['C07'] = ('effects', 'c07')
TECH['C07'] = ('interprocedural side-effect and alias analysis of the type-checked AST (final abstract store against initial store, shared image pixels, static storage)',
               'Every function of both libraries is shown to write only its outputs and objects it created.')
CHECKS['C06'] = ('memory', 'c06')
TECH['C06'] = ('typestate and escape analysis (allocation, registration, growth, scope exit, delete) over the type-checked AST',
               'Parameter blocks are shown to outlive the problem at a fixed address, sizes to match the functor, cost objects to have one owner on every path.')

CHECKS['C30'] = ('printing', 'c30')
TECH['C30'] = (VN, 'The text each printing helper produces is compared, number by number with the words in front of it, with its documented content.')
CHECKS['C16'] = ('kinematic', 'c16')
TECH['C16'] = (VN, 'Residuals, priors, masks, labels and results of both kinematic problems are traced to the parameter block in their documented role, for all chains and masks.')
CHECKS['C17'] = ('kinematic', 'c17')
TECH['C17'] = (VN, 'The calls made on the problem (guards included) are compared with the specified ones for all block sizes and masks, wrap-around comparisons included.')
CHECKS['C35'] = ('bounds', 'c35')
TECH['C35'] = ('bounds analysis on gated value flow (index and container size as terms at each access, loops summarised), decided by random interpretation',
               'Every element access is shown to stay inside its container for all iterations and documented inputs.')
