"""Properties of qsymm: the single source of properties.jsonl and MANIFEST.json."""
NOTE = ('All inputs within the stated sizes are covered symbolically (bounded); floating point is modelled by exact '
        'arithmetic and closeness tests by equality, see DESIGN.md.')
PROPS = []
NA = []


def P(id, title, statement, all, why, mech, note=NOTE, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, all=all, why=why, mech=mech, note=note, **k))


def N(id, title, statement, all, why, mech, reason, **k):
    NA.append(dict(p=dict(id=id, title=title, statement=statement, all=all, why=why, mech=mech, **k), reason=reason))


P('G01', 'A group element acts on a Hamiltonian by its defining formula',
  'PointGroupElement.apply returns (+/-) U H(R^-1 k) U^dagger, or (+/-) U H(-R^-1 k)^* U^dagger if `conjugate` is set, '
  'with the minus sign exactly when `antisymmetry` is set; U = None acts as the identity. This holds for Model and '
  'BlochModel with polynomial, exponential and trigonometric momentum dependence, in 1 to 3 dimensions, and the '
  'argument and its momenta are left unchanged.',
  'every Hamiltonian coefficient matrix, every k, every unitary or arbitrary U, every rotation R (float, integer, exact) and both flags',
  'Tests apply a handful of fixed symmetries to fixed Hamiltonians; sign and conjugation errors can cancel there.',
  [('PointGroupElement.apply', 'groups.py:apply'), ('rotate_momenta', 'model.py:Model.rotate_momenta'),
   ('BlochModel rotation', 'model.py:BlochModel.rotate_momenta'), ('conj', 'model.py:conj')])
P('G02', 'Group elements compose, invert and exponentiate as operators',
  'The product of two PointGroupElements has R = R1 R2, xor-ed flags and U = U1 U2 (U1 U2^* if the first is '
  'antiunitary; None if either U is None), so acting with g1*g2 equals acting with g2 and then g1. g.inv() is a '
  'two-sided inverse for unitary U, g**n is the n-fold product (of the inverse for n < 0), identity() is neutral, and '
  'none of these change their operands.',
  'every pair of elements with orthogonal or unimodular R, unitary U or None, all flag combinations, integer, float and exact R, powers -3..3',
  'Composition must be right for every pair of antiunitary and unitary elements; tests check a few fixed groups.',
  [('__mul__', 'groups.py:PointGroupElement.__mul__'), ('inv', 'groups.py:PointGroupElement.inv'),
   ('__pow__', 'groups.py:PointGroupElement.__pow__'), ('cached multiplication', 'groups.py:_mul'),
   ('cached inverse', 'groups.py:_inv'), ('integer inverse', 'linalg.py:_inv_int')])
P('G03', 'Equality, hashing and ordering of group elements are consistent',
  'Two PointGroupElements are equal iff their flags and (numerically) their rotations agree, whatever the '
  'representation of R (integer array, float array, sympy matrix); if either has _strict_eq they must also both have no '
  'U or have U equal up to a phase, and their products and inverses are strict as well. Equality is symmetric and reflexive, equal elements hash alike and collapse in sets, '
  'and < is a strict order that sorts by flags first, then the identity, then the rest.',
  'every pair (triple for transitivity) of elements in the three representations, every unitary U',
  'Set-based group generation silently relies on eq/hash agreeing for all representations; tests use one representation at a time.',
  [('__eq__', 'groups.py:PointGroupElement.__eq__'), ('__hash__', 'groups.py:PointGroupElement.__hash__'),
   ('__lt__', 'groups.py:PointGroupElement.__lt__'), ('cached comparison', 'groups.py:_eq'),
   ('integer normalisation', 'groups.py:_make_int'), ('prop_to_id', 'linalg.py:prop_to_id')])
P('M01', 'Model and BlochModel arithmetic is arithmetic of the functions they represent',
  'A Model or BlochModel stands for the matrix function sum_i key_i(k, params) * value_i: negation, +, -, * and @ (with '
  'Models, numbers, sympy expressions and arrays on either side, sparse matrices and linear operators on the right '
  'or through __rmatmul__ and __radd__), / and in-place '
  'forms return the Model of the function obtained pointwise, for values of any supported format (scalar, dense array, '
  'csr matrix, LinearOperator). Operands are left unchanged (the target of an in-place operator is the only object '
  'that changes), and shape, format and momenta of the result are those of the operands.',
  'every coefficient value of the given shapes, every k and parameter value, every (also non-integer) hopping vector of a BlochModel',
  'Tests add and multiply a few random models of one format; every pair of formats and operand orders must agree.',
  [('__add__', 'model.py:Model.__add__'), ('__mul__', 'model.py:Model.__mul__'), ('__matmul__', 'model.py:Model.__matmul__'),
   ('__rmatmul__', 'model.py:Model.__rmatmul__'), ('__neg__', 'model.py:Model.__neg__'), ('BlochCoeff product', 'model.py:BlochCoeff.__mul__')])
P('M02', 'Model methods act pointwise on the represented matrix function',
  'conj, T, dagger, trace, reshape, around, value_list, toarray, tocsr, copy, tosympy, evalf, lambdify, subs and '
  'rotate_momenta of a Model or BlochModel return what the corresponding operation gives when applied to the matrix '
  'H(k, params) at every k and parameter value (for subs: H with the expressions substituted; rotate_momenta: H(R k); '
  'lambdify: a function of the parameters in order of name). '
  'Shape, format and momenta of the result are consistent with its values, and the Model itself is unchanged.',
  'every coefficient value of the given shapes in the four formats, every k and parameter value, every rotation and substituted value',
  'Tests compare a few fixed examples; a conjugated or transposed factor shows only for complex values, complex symbols or non-square shapes.',
  [('conj', 'model.py:Model.conj'), ('T', 'model.py:Model.T'), ('subs', 'model.py:Model.subs'), ('lambdify', 'model.py:Model.lambdify'),
   ('rotate_momenta', 'model.py:Model.rotate_momenta'), ('tosympy', 'model.py:Model.tosympy'), ('BlochModel', 'model.py:BlochModel')])
P('M03', 'Parsing, normalisation and look-up of Model terms keep the represented function',
  'A Model built from a dict (keys sympy expressions or strings, values of any format), a sympy matrix or expression, or a '
  'string, with or without `locals`, represents exactly that function; normalisation only regroups it into distinct '
  'monomials with unit numeric prefactor, and keys that normalise to the same monomial are summed. Look-up with any '
  'expression that normalises to a stored key returns its value (a zero value for absent keys), and assigning or '
  'iterating behaves as a dict over the normalised keys.',
  'every coefficient value, every k and parameter value, keys from a grammar of polynomials, powers, exponentials, trigonometric functions and user functions',
  'The regrouping must be right for every coefficient value and combination of equivalent keys; tests parse a few Hamiltonians.',
  [('Model.__init__', 'model.py:Model.__init__'), ('_symbol_normalizer', 'model.py:_symbol_normalizer'),
   ('sympify', 'kwant_continuum.py:sympify'), ('monomials', 'kwant_continuum.py:monomials'), ('__getitem__', 'model.py:Model.__getitem__')])
P('M04', 'Model and BlochModel convert into each other without changing the function',
  'BlochModel(model) represents the same matrix function of k as the Model for all keys made of exponentials, sines and '
  'cosines of momenta with numeric hoppings and momentum-independent prefactors, and rejects keys that are not of this form; '
  'tomodel() is the inverse conversion. BlochCoeff products, hashes and equality describe the function '
  'exp(i k.hop) * coeff, so that terms of equal hopping and coefficient are summed.',
  'every coefficient value, every k and parameter value, the listed key shapes with integer and irrational hoppings',
  'A sign or a dropped factor in the extraction of hoppings is visible only for particular combinations of keys.',
  [('_to_bloch_coeff', 'model.py:_to_bloch_coeff'), ('BlochModel.__init__', 'model.py:BlochModel.__init__'),
   ('tomodel', 'model.py:BlochModel.tomodel'), ('BlochCoeff', 'model.py:BlochCoeff')])
P('M05', 'Equality, closeness and clean-up of Models judge the represented function',
  'A == B and A.allclose(B) hold iff all coefficients agree within the tolerance (absent keys count as zero), in both '
  'orders and for all value formats, also against 0 and {}; A == A and A - A == 0 always. eliminate_zeros removes '
  'exactly the terms whose Frobenius norm is below max(atol, rtol * largest norm) and changes nothing else.',
  'every coefficient value, all relations between the key sets of both sides, the four formats',
  'Keys absent on one side, tiny values and non-dense formats take separate code paths that tests hit for single values.',
  [('__eq__', 'model.py:Model.__eq__'), ('allclose', 'model.py:Model.allclose'), ('eliminate_zeros', 'model.py:Model.eliminate_zeros'),
   ('linalg.allclose', 'linalg.py:allclose'), ('BlochCoeff.__eq__', 'model.py:BlochCoeff.__eq__')])

P('H01', 'constrain_family returns exactly the symmetric subspace of a family',
  'constrain_family(symmetries, family) returns a list of linearly independent real-linear combinations of the family '
  'members that is a basis of the subspace of span(family) left invariant by every symmetry: each returned member has all '
  'the symmetries and every combination of the family that has them is in the span of the result. It works the same for Model '
  'and BlochModel, for point group elements and continuous generators and any mixture, returns the family unchanged when '
  'there is no constraint, and leaves the input family unchanged.',
  'every unitary or arbitrary complex U, every flag, several rotations, every Hermitian generator, every real coefficient vector; families of up to 5 members',
  'Tests count the members of a few families; a lost or spurious member shows only for particular symmetries and momentum dependences.',
  [('constrain_family', 'hamiltonian_generator.py:constrain_family'), ('family_to_vectors', 'linalg.py:family_to_vectors'),
   ('nullspace', 'linalg.py:nullspace'), ('apply', 'groups.py:PointGroupElement.apply'),
   ('continuous apply', 'groups.py:ContinuousGroupGenerator.apply')])
P('G04', 'Symmetry factories build the operators they document',
  'identity, time_reversal, particle_hole, chiral, inversion, rotation, mirror, spin_matrices, L_matrices and spin_rotation '
  'return elements whose R, flags and U are those of the named operation: U is unitary, transforms the given spin '
  'matrices as the (pseudo)vector rotated by R (U = exp(-i pi s_y) for time reversal), and carries the full spinor phase. square, cubic, '
  'hexagonal and their full lists contain exactly the point group of the lattice (times the requested antiunitary '
  'symmetries, each once), and arguments that cannot be honoured are rejected.',
  'every angle, axis direction and length, spins 0 to 5/2 and any unitary conjugate of the spin matrices, all keyword combinations',
  'Tests construct a few named symmetries and never check the action on spin for general axes and angles.',
  [('rotation', 'groups.py:rotation'), ('mirror', 'groups.py:mirror'), ('time_reversal', 'groups.py:time_reversal'),
   ('spin_rotation', 'groups.py:spin_rotation'), ('spin_matrices', 'groups.py:spin_matrices'), ('L_matrices', 'groups.py:L_matrices'),
   ('hexagonal', 'groups.py:hexagonal'), ('cubic', 'groups.py:cubic'), ('square', 'groups.py:square')])
P('G05', 'Group generation yields exactly the generated group and its subgroups',
  'generate_group(gens) returns the smallest set closed under multiplication that contains the generators, without '
  'duplicates; set_multiply returns the set of all products. generate_subgroups returns every subgroup of a group exactly once, '
  'each with generators that generate it.',
  'all generator pairs (triples) of the point groups up to order 24, in every order, with arbitrary symbolic unitary U attached and integer, float and exact R',
  'Tests generate a few standard groups; a missed product shows only for particular generator sets and orders.',
  [('generate_group', 'groups.py:generate_group'), ('generate_subgroups', 'groups.py:generate_subgroups'),
   ('set_multiply', 'groups.py:set_multiply'), ('__hash__', 'groups.py:PointGroupElement.__hash__')])
P('G06', 'Site permutations give the matching symmetry operator',
  'symmetry_from_permutation(R, perm, norbs, onsite_action) returns a PointGroupElement whose U has, for every site a, '
  'the on-site action of a as the block from a to perm[a], and zeros elsewhere, in the site order of norbs, for sites with '
  'equal or different numbers of orbitals and every form of onsite_action (None, matrix, dict). R and the flags are passed '
  'through and the arguments are left unchanged.',
  'every on-site unitary matrix, all permutations compatible with the orbital numbers of up to 4 sites',
  'Tests use permutations of identical single-orbital sites, where the direction of the permutation and the offsets of the blocks cannot be told.',
  [('symmetry_from_permutation', 'groups.py:symmetry_from_permutation')])
P('G07', 'Continuous generators act as the derivative of the finite symmetry',
  'ContinuousGroupGenerator(R, U).apply(H) returns i times the commutator with U plus the momentum derivative along R, i.e. '
  'the derivative at zero angle of exp(-i phi U) H(exp(i phi R) k) exp(i phi U) up to the documented factor, for Model '
  'in any value format with polynomial and trigonometric momentum dependence; R = None or U = None drop their part. The '
  'constructor accepts exactly Hermitian U and Hermitian antisymmetric R of consistent shapes and apply leaves its arguments unchanged.',
  'every Hermitian U, every rotation generator R in 1 to 3 dimensions, every coefficient matrix, momentum and parameter value',
  'Tests only use generators inside larger symmetry searches where sign errors of the two parts can cancel.',
  [('apply', 'groups.py:ContinuousGroupGenerator.apply'), ('__init__', 'groups.py:ContinuousGroupGenerator.__init__'),
   ('reduce', 'model.py:Model')])
P('L02', 'matrix_basis spans exactly the documented space of matrices',
  'matrix_basis(dim, traceless, antihermitian, real, sparse) yields linearly independent matrices whose real linear '
  'combinations are exactly the (anti)Hermitian, optionally real, optionally traceless dim x dim matrices, in dense or sparse format.',
  'every element of the space, all flag combinations, dim 1 to 4 (5 in the thorough tier)',
  'The symmetry search is incomplete if a single basis element is missing, which tests of the search do not notice.',
  [('matrix_basis', 'linalg.py:matrix_basis')])
P('L03', 'solve_mat_eqn finds all solutions of X HL = HR X',
  'solve_mat_eqn(HL, HR, hermitian, traceless, conjugate, sparse, k_max) returns linearly independent X whose span (complex for '
  'general, real for Hermitian or conjugated equations) is exactly the set of matrices that satisfy X HL_i = HR_i X (X^* on '
  'the left for conjugated equations), are Hermitian and traceless as requested, for single and lists of equations; '
  'HR defaults to HL.',
  'every matrix HL, HR of the stated sizes (every rank of the linear system), every flag, dense and sparse',
  'Symmetries are missed or invented if the system is assembled with a wrong conjugation or order; random tests have full-rank systems.',
  [('solve_mat_eqn', 'linalg.py:solve_mat_eqn'), ('nullspace', 'linalg.py:nullspace'), ('matrix_basis', 'linalg.py:matrix_basis')])
P('L04', 'nullspace returns an orthonormal basis of the whole null space',
  'nullspace(A, atol, return_complement, sparse, k_max) returns rows that are orthonormal and span exactly the vectors with '
  'A v = 0 (and, with return_complement, rows that complete them to an orthonormal basis), for dense and sparse A and both '
  'algorithms, whatever the dimension of the null space; the sparse algorithm raises only if it cannot determine all of it.',
  'every matrix of the stated sizes, real and complex, every rank, every k_max',
  'Complex matrices with unequal left and right null spaces and null spaces larger than k_max are needed; tests use a few.',
  [('nullspace', 'linalg.py:nullspace')])
P('L05', 'rref and sparse_basis return the reduced row echelon form',
  'rref(M, rtol, return_S) returns the reduced row echelon form of M (without zero rows for sparse_basis), for real and complex M, and with '
  'return_S a matrix S with S @ M equal to it; sparse_basis(basis) returns the rows of the '
  'echelon form, which span the same space as the basis, up to the documented rounding.',
  'every matrix of the stated sizes, every pattern of vanishing pivots',
  'Every combination of vanishing pivots takes a different path; tests use random full-rank matrices.',
  [('rref', 'linalg.py:rref'), ('sparse_basis', 'linalg.py:sparse_basis')])
P('L06', 'Vector-space operations on families are exact',
  'family_to_vectors maps a family to vectors real-linearly and injectively (all_keys in the given order), make_basis_pretty '
  'keeps the number of independent members and the span, remove_duplicates returns an independent family of the same span, '
  'and subtract_family(f1, f2) returns an independent subfamily of span(f1) that together with f2 spans f1 + f2, raising '
  'only if f2 is not contained in the span of f1.',
  'every real and complex coefficient of families of up to 3 members, every rank and pattern of vanishing coefficients',
  'Linear dependence is a measure-zero event that only symbolic coefficients cover.',
  [('family_to_vectors', 'linalg.py:family_to_vectors'), ('make_basis_pretty', 'hamiltonian_generator.py:make_basis_pretty'),
   ('remove_duplicates', 'hamiltonian_generator.py:remove_duplicates'), ('subtract_family', 'hamiltonian_generator.py:subtract_family')])
P('H02', 'continuum_hamiltonian returns exactly the symmetric continuum Hamiltonians',
  'continuum_variables lists every monomial of the momenta with the given total power and allowed single powers exactly once. '
  'continuum_hamiltonian returns linearly independent Models of definite degree that are a basis of all Hermitian polynomial '
  'Hamiltonians of the allowed degrees with all the given discrete and continuous symmetries.',
  'every unitary U, every Hermitian conserved quantity, both flags, rotations R in 0 to 2 dimensions, every real coefficient of the polynomial; total powers up to 2 (4 for the monomials)',
  'Tests compare the number of members for a few physical symmetry groups.',
  [('continuum_hamiltonian', 'hamiltonian_generator.py:continuum_hamiltonian'), ('continuum_variables', 'hamiltonian_generator.py:continuum_variables'),
   ('constrain_family', 'hamiltonian_generator.py:constrain_family'), ('matrix_basis', 'linalg.py:matrix_basis')])
P('H03', 'continuum_pairing returns exactly the symmetric pairing Hamiltonians',
  'continuum_pairing(symmetries, dim, total_power, ...) returns linearly independent BdG Models [[0, D], [D^dagger, 0]] (with the '
  'normal block if requested) that are a basis of all particle-hole symmetric pairing terms of the allowed degrees which have the '
  'given symmetries, where the hole block of a symmetry with phase p is p* U* (no phase for continuous generators by default). '
  'Momenta of the result are the ones it was called with.',
  'every unitary U and phase, every Hermitian conserved quantity, both flags, 0 to 2 dimensions, both signs of ph_square, every coefficient of the pairing',
  'Tests compare the number of members for a few symmetries with real U.',
  [('continuum_pairing', 'hamiltonian_generator.py:continuum_pairing'), ('constrain_family', 'hamiltonian_generator.py:constrain_family')])
P('H04', 'bloch_family returns exactly the symmetric tight-binding Hamiltonians',
  'bloch_family(hopping_vectors, symmetries, norbs, onsites, ...) returns linearly independent Hermitian Models (BlochModels with '
  'bloch_model) that form a basis of all Hermitian tight-binding Hamiltonians on the given hoppings (and on-site terms) with all '
  'given symmetries; with symmetrize=True of the symmetrised combinations of these hoppings. A hopping (a, b, v) '
  'is the block from b to a times exp(i k v), and arguments are left unchanged.',
  'every unitary (diagonal, swapping or general as stated) U of two orbitals, any phases, both flags, 1 to 2 dimensions, every amplitude',
  'Tests compare member counts for a few lattices; phases, directions and duplicates of hoppings matter.',
  [('bloch_family', 'hamiltonian_generator.py:bloch_family'), ('hopping_to_sites', 'hamiltonian_generator.py:bloch_family'),
   ('symmetrize_monomial', 'hamiltonian_generator.py:symmetrize_monomial'), ('remove_duplicates', 'hamiltonian_generator.py:remove_duplicates')])
P('H05', 'Family utilities check, average and combine members exactly',
  'check_symmetry raises ValueError iff some member of the family violates some symmetry (PointGroupElement or '
  'ContinuousGroupGenerator, any iterables); symmetrize_monomial returns the average of the images of a term over the group; '
  'hamiltonian_from_family (and display_family) returns the linear combination with default c0, c1, ... or given coefficients as a '
  'sympy matrix or Model; the family itself is unchanged.',
  'every coefficient matrix of 1 to 3 members, every U and flags, every coefficient, Model and BlochModel',
  'check_symmetry must report every violation, including in late members and symmetries; tests only pass symmetric families.',
  [('check_symmetry', 'hamiltonian_generator.py:check_symmetry'), ('symmetrize_monomial', 'hamiltonian_generator.py:symmetrize_monomial'),
   ('hamiltonian_from_family', 'hamiltonian_generator.py:hamiltonian_from_family'), ('display_family', 'hamiltonian_generator.py:display_family')])
P('L07', 'simult_diag returns the joint eigenspaces of commuting matrices',
  'simult_diag(mats) of commuting normal matrices returns matrices P_i with orthonormal columns that together form a unitary, one for '
  'every joint eigenspace: every given matrix acts on each P_i as a number, and no two P_i have the same numbers. It raises '
  'ValueError for matrices that are not normal or do not commute, and leaves its argument unchanged.',
  'every common eigenbasis and every real or complex eigenvalue with every pattern of degeneracy, of 1 to 3 matrices of 1 to 3 dimensions',
  'Joint eigenspaces are split recursively; only degenerate and nested degenerate spectra in general bases show a wrong grouping.',
  [('simult_diag', 'linalg.py:simult_diag'), ('split_list', 'linalg.py:split_list'), ('commutator', 'linalg.py:commutator'), ('mtm', 'linalg.py:mtm')])
P('S02', 'On-site unitary symmetries of a family are found completely',
  '_reduce_hamiltonian(H) returns a symmetry adapted unitary basis of the family: the blocks are its irreducible subspaces, equivalent '
  'ones are grouped with identical matrices, and multiplicities and dimensions are those of the commutant. conserved_quantities '
  'of it are linearly independent traceless Hermitian matrices that commute with the family and span its whole traceless commutant.',
  'every family with the stated decomposition (all of 2x2; 3x3 and 4x4 as stated): every amplitude, every basis the factorisations may return',
  'Random tests have generic blocks; degenerate and equivalent blocks in arbitrary bases need the whole Lie-algebra machinery.',
  [('_reduce_hamiltonian', 'symmetry_finder.py:_reduce_hamiltonian'), ('conserved_quantities', 'symmetry_finder.py:conserved_quantities'),
   ('separate_lie_algebra', 'symmetry_finder.py:separate_lie_algebra'), ('symmetry_adapted_sun', 'symmetry_finder.py:symmetry_adapted_sun'),
   ('solve_mat_eqn', 'linalg.py:solve_mat_eqn'), ('simult_diag', 'linalg.py:simult_diag')])

P('S03', 'A point group symmetry of a family is found with its unitary, or rejected',
  'For a candidate point group element without U, the symmetry finder returns it with a U exactly when some unitary makes it a '
  'symmetry of the Hamiltonian family, and that U is unitary and maps the family onto itself at every momentum and parameter value. '
  'The k-space action returned is that of the candidate, which is not modified.',
  'every family with the stated structure: every amplitude, every unitary basis, every basis the factorisations may return',
  'Whether the blocks exchange, pair up or need a conjugated intertwiner depends on the amplitudes; tests sample a few random Hamiltonians.',
  [('_find_unitary', 'symmetry_finder.py:_find_unitary'), ('_find_unitary_blocks', 'symmetry_finder.py:_find_unitary_blocks'),
   ('_construct_unitary', 'symmetry_finder.py:_construct_unitary'), ('_nice_square', 'symmetry_finder.py:_nice_square'),
   ('solve_mat_eqn', 'linalg.py:solve_mat_eqn'), ('PointGroupElement.apply', 'groups.py:PointGroupElement')])

P('S01', 'symmetries() returns exactly the candidates that are symmetries',
  'For a closed set of candidates, discrete_symmetries and symmetries return exactly those candidates for which a unitary exists that '
  'makes them symmetries of the family, each once and with such a unitary; with generators=True the result generates exactly this group. '
  'Only the trivial conserved quantity is left out of the continuous symmetries.',
  'every amplitude of the stated families, candidate groups of up to 16 elements',
  'The search prunes candidates with the group structure (cosets of found and rejected elements), which is right only if it holds for every symmetry group a Hamiltonian may have.',
  [('symmetries', 'symmetry_finder.py:symmetries'), ('discrete_symmetries', 'symmetry_finder.py:discrete_symmetries'),
   ('_find_unitary', 'symmetry_finder.py:_find_unitary'), ('generate_group', 'groups.py:generate_group')])

P('S04', 'Continuous rotation symmetries of a family are found completely',
  'continuous_symmetries, and symmetries with continuous_rotations=True, return Hermitian antisymmetric k-space generators with Hermitian '
  'Hilbert space parts that leave the family invariant, whose rotations are linearly independent, exactly as many as the family has. '
  'The Hilbert space parts are not part of on-site symmetries, which are listed separately and first.',
  'every amplitude of the stated families: 1 to 3 orbitals in one, two or no blocks, in 2 and 3 dimensions',
  'Symmetric families are a measure-zero subset of amplitudes; equality patterns of amplitudes decide how many generators there are.',
  [('continuous_symmetries', 'symmetry_finder.py:continuous_symmetries'), ('_reduced_model', 'symmetry_finder.py:_reduced_model'),
   ('ContinuousGroupGenerator.apply', 'groups.py:ContinuousGroupGenerator'), ('family_to_vectors', 'linalg.py:family_to_vectors'), ('nullspace', 'linalg.py:nullspace'), ('sparse_basis', 'linalg.py:sparse_basis')])

P('S05', 'Bravais point groups are the complete symmetry groups of the lattice',
  'bravais_point_group(periods) returns the point group of the lattice: each element is an orthogonal matrix that maps the lattice onto itself, '
  'all of them occur exactly once (generators=True: a set that generates them), and tr and ph add time reversal and particle-hole. '
  'Planar and linear lattices in more dimensions are treated in the orthonormal axes along their first, second, ... period.',
  'every lattice parameter in boxes that cover all classes of lattices in 1, 2 and 3 dimensions (the 14 Bravais lattices, 33 cells), in two orientations',
  'Tests try a few lattices with fixed numbers; which branch identifies a lattice depends on its shape (15 patterns of equal Voronoi vectors).',
  [('bravais_point_group', 'symmetry_finder.py:bravais_point_group'), ('bravais_group_2d', 'symmetry_finder.py:bravais_group_2d'),
   ('bravais_group_3d', 'symmetry_finder.py:bravais_group_3d'), ('equals', 'symmetry_finder.py:equals'), ('threefold_axis', 'symmetry_finder.py:threefold_axis'),
   ('twofold_axis', 'symmetry_finder.py:twofold_axis'), ('check_bravais_symmetry', 'symmetry_finder.py:check_bravais_symmetry')])

P('M06', 'keep truncates Models exactly',
  'A Model or BlochModel made with `keep` (from dicts, strings or sympy expressions, with or without normalize) has exactly the terms '
  'of the untruncated one whose keys are in keep. Copies, linear combinations and products keep this truncation: a product of Models '
  'has exactly the terms of the full product that are in the union of both keeps, with the right shape even if nothing is left.',
  'every coefficient, every subset of the keys of the stated Models kept, dense, sparse and scalar values',
  'Tests never use keep; a dropped or extra order in a perturbative expansion shows only for certain combinations of subsets.',
  [('Model.__init__', 'model.py:Model'), ('Model.__mul__', 'model.py:Model'), ('Model.__matmul__', 'model.py:Model'), ('BlochModel.__init__', 'model.py:BlochModel')])

P('M07', 'Operands are left alone, and results are independent of them',
  'No operation on Models, symmetries, groups and families changes the value or attributes of its arguments. '
  'Changing the result of Model arithmetic, copy, conj, subs, rotate_momenta or of applying a symmetry in place leaves '
  'the operands as they were, for dense and sparse values.',
  'every coefficient of Models with two terms; two-orbital families, symmetry lists and groups for the functions',
  'Shared arrays are invisible until someone modifies one of them; no test modifies results in place.',
  [('Model.copy', 'model.py:Model'), ('Model.__add__', 'model.py:Model'), ('BlochModel', 'model.py:BlochModel'), ('PointGroupElement.apply', 'groups.py:PointGroupElement'),
   ('generate_group', 'groups.py:generate_group'), ('bloch_family', 'hamiltonian_generator.py:bloch_family'), ('symmetries', 'symmetry_finder.py:symmetries')])

P('R01', 'Gaussian random Hamiltonians have the symmetries and weight of their class',
  'gaussian(n, sym, v) is Hermitian and has the time reversal, particle-hole and chiral symmetries documented for its Altland-Zirnbauer '
  'class for every draw of the random numbers, and raises ValueError for impossible sizes and classes. It is linear in v and in the draws, and its '
  'distribution is isotropic in the space of all matrices with these symmetries: off-diagonal components have standard deviation v.',
  'every value of the random draws and of v, every matrix X in the covariance test, n up to 8 (4 for the distribution)',
  'Tests draw a few matrices; whether every allowed component is drawn with equal weight is a statement about all of them.',
  [('gaussian', 'kwant_rmt.py:gaussian'), ('t', 'kwant_rmt.py:t'), ('p', 'kwant_rmt.py:p'), ('c', 'kwant_rmt.py:c')])

P('R02', 'Circular random matrices have the symmetries and invariant of their class',
  'circular(n, sym, charge) is unitary and has the symmetries documented for its class for every draw of the random numbers; '
  'with charge given the topological invariant is charge: the determinant in D, the Pfaffian of i s in DIII, the number of negative eigenvalues '
  '(pairs in CII) in AIII, BDI, CII; impossible sizes, classes and charges raise ValueError. '
  'In A, C, D it is the unitary factor with positive diagonal of the draws (Haar measure).',
  'every value of the draws for n = 1, 2; draws with the stated unitary factors for n = 3, 4; every charge, every QR decomposition',
  'Tests sample random matrices for a few seeds and do not test the charge; measure and invariants depend on phases LAPACK may choose.',
  [('circular', 'kwant_rmt.py:circular'), ('ensure_rng', 'kwant_rmt.py:ensure_rng')])

P('P01', 'Printed names of symmetries describe the symmetry',
  'The text or LaTeX produced for a PointGroupElement and a ContinuousGroupGenerator, read by the documented rules '
  '(1, I, R(angle), R(angle, axis), M(normal), S(angle, axis) and T, P, C; U and the action on the Hamiltonian in the full form; '
  'axis and L of a generator), gives back the rotation within the rounding of the output (angle to a fraction of pi with '
  'denominator up to 100, axis to 2 digits or integers of 0, 1, -1, matrices to 2 or 3 digits), the flags and the matrices.',
  'rotations by every angle about integer axes and by listed angles about every axis, every 2D rotation and mirror, every U, every generator',
  'Tests do not look at the text; the names depend on branches (twofold rotations, signs, rounding) that only some elements reach.',
  [('pretty_print_pge', 'groups.py:pretty_print_pge'), ('pretty_print_cgg', 'groups.py:pretty_print_cgg'),
   ('rotation_to_angle', 'groups.py:rotation_to_angle'), ('_round_axis', 'groups.py:_round_axis'), ('_array_to_latex', 'groups.py:_array_to_latex')])

P('N01', 'Quantities are identified only within rounding errors',
  'Wherever the library decides whether numbers, matrices, rotations, hopping vectors, Models or eigenvalues are equal or zero (storing R as integers, '
  'equality of group elements and of their unitaries up to a phase, hopping vectors, equality and symmetry checks of Models, small generators, independence of '
  'members of a family, null spaces, joint eigenspaces, pivots), a difference of one percent of the largest element or more keeps them apart and a '
  'rounding error (1e-12) does not. around and round_family return the nearest multiple of the unit of the last digit.',
  'every difference d with |d| <= 1e-12 or 1e-2 <= |d| <= 0.9 (single operations up to 10), every rotation angle and eigenvector in 2 dimensions',
  'Tests compare objects that are equal up to rounding or clearly different; a tolerance that is too wide or too narrow shows only for inputs near it.',
  [('_make_int', 'groups.py:_make_int'), ('PointGroupElement.__eq__', 'groups.py:PointGroupElement'), ('prop_to_id', 'linalg.py:prop_to_id'), ('allclose', 'linalg.py:allclose'),
   ('BlochCoeff.__eq__', 'model.py:BlochCoeff'), ('Model.__eq__', 'model.py:Model'), ('nullspace', 'linalg.py:nullspace'), ('split_list', 'linalg.py:split_list'),
   ('rref', 'linalg.py:rref'), ('remove_duplicates', 'hamiltonian_generator.py:remove_duplicates'), ('round_family', 'hamiltonian_generator.py:round_family'),
   ('check_symmetry', 'hamiltonian_generator.py:check_symmetry')])

P('N02', 'Results do not depend on earlier calls',
  'The result of every function and method depends only on its arguments: not on calls made before with other arguments, also if these have the same '
  'keys, shapes, rotations and flags (so that they may count as equal), and methods of a Model follow changes made to its coefficients since they were last called.',
  'the inputs of the repeated harnesses of H01-H05, S01-S04, L07, G05 and G06, each call preceded by one with other coefficients and unitaries; every coefficient of Models with two terms',
  'Tests run each function in a fresh state or with the same inputs; a result remembered under an incomplete key needs two related calls in one process.',
  [('_inv', 'groups.py:_inv'), ('_eq', 'groups.py:_eq'), ('PointGroupElement.__hash__', 'groups.py:PointGroupElement'), ('Model.lambdify', 'model.py:Model'),
   ('substitute_exponents', 'model.py:substitute_exponents'), ('constrain_family', 'hamiltonian_generator.py:constrain_family'), ('symmetries', 'symmetry_finder.py:symmetries'),
   ('simult_diag', 'linalg.py:simult_diag')])
