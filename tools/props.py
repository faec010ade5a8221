"""Source of properties.jsonl and MANIFEST.json (run tools/mkmeta.py after editing)."""
T = 'generated-input search (Hypothesis, shrinking) against the real code, '

P = []


def p(id, title, statement, over, text, why, files, mech, observe, oracle, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, oracle=oracle, note=note, state=state))


p('C01', 'Virtual term substitution decides satisfiability over the reals',
  'Given any conjunction of one-variable polynomial conditions (<= 0, < 0, = 0, != 0) with rational coefficients, as coefficient lists '
  'or as symbolic expressions, the virtual term substitution procedure returns True exactly when some real number satisfies all of them. '
  'This includes empty conjunctions, constants, the zero polynomial, multiple, shared and irrational roots, and solution sets that are single points.',
  ['inputs'], 'every finite conjunction of univariate polynomial constraints with rational coefficients (up to the documented limit of 5 discriminating polynomials)',
  'test_vts.py tries 6 fixed systems through this procedure; soundness and completeness are claims about all polynomials and all root configurations.',
  ['vts/uni_vts.py', 'vts/isym.py'],
  [('internal_vts', 'vts/uni_vts.py'), ('vts', 'vts/isym.py'), ('evaluate_on_sign_assignment / e_close_evaluate_on_sign_assignment', 'vts/uni_vts.py'), ('sign_conditions_lookup', 'vts/uni_vts.py')],
  ['return value of uni_vts.internal_vts and isym.vts'],
  T + 'oracle: exact sign table by Sturm sequences over Q',
  'Exploration of thousands of systems built from shared factor pools; exact oracle. Inputs whose roots the third-party z3rcf library isolates wrongly are excluded and counted.')
p('C02', 'Term substitution decides satisfiability over the reals',
  'Given any conjunction of one-variable polynomial conditions (<= 0, < 0, = 0, != 0) with rational coefficients, as coefficient lists or '
  'symbolic expressions, the term substitution procedure returns True exactly when some real number satisfies all of them.',
  ['inputs'], 'every finite conjunction of univariate polynomial constraints with rational coefficients',
  'No test calls this procedure at all.',
  ['vts/uni_vts.py', 'vts/isym.py'],
  [('internal_ts', 'vts/uni_vts.py'), ('evaluate', 'vts/uni_vts.py'), ('ts', 'vts/isym.py')],
  ['return value of uni_vts.internal_ts and isym.ts'],
  T + 'oracle: exact sign table by Sturm sequences over Q',
  'As C01, with more roots per polynomial. It found the defect repaired by the first fix commit.')
p('C03', 'Verdicts stay right with infinitesimal coefficients',
  'When coefficients contain infinitesimals (as in the shipped examples), virtual term substitution returns True exactly when the system '
  'has a solution in the real closed field generated by them, i.e. when it has real solutions for all small enough values of the infinitesimals.',
  ['inputs'], 'every conjunction of polynomials whose roots are polynomials in two nested infinitesimals',
  'test_vts.py has three infinitesimal systems; examples.py prints some results without checking them.',
  ['vts/uni_vts.py', 'vts/examples.py'],
  [('internal_vts over RCF numbers', 'vts/uni_vts.py'), ('make_poly_hashabel', 'vts/uni_vts.py')],
  ['return value of uni_vts.internal_vts'],
  T + 'oracle: transfer to three exact rational values of the infinitesimals',
  'Exploration; the finite substitutes must agree with each other or the case is dropped.')
p('C04', 'Tarski queries count signs over the distinct real roots',
  'For every nonzero polynomial p and every polynomial q with integer coefficients, the Tarski query of (p, q) is the number of distinct real '
  'roots of p where q is positive minus the number where q is negative.',
  ['inputs'], 'all pairs of integer polynomials, p nonzero, with common and multiple roots',
  'test_vts.py has a handful of pairs with simple rational roots.',
  ['vts/uni_vts.py'],
  [('tarski_query', 'vts/uni_vts.py'), ('signed_remainder_cauchy_index', 'vts/uni_vts.py')],
  ['return value of uni_vts.tarski_query'],
  T + 'oracle: exact root isolation and signs', 'Exploration of thousands of pairs per run, exact oracle.')
p('C05', 'Signed remainder sequences and Cauchy indices are exact',
  'For all nonzero integer polynomials p and q in either degree order, the pseudo remainder is a positive multiple of the remainder of p by q, '
  'the signed remainder sequence is p, q followed by positive multiples of the negated remainders down to a greatest common divisor, '
  'and the Cauchy index computed from it is the number of jumps of q/p from minus to plus infinity minus the number of opposite jumps.',
  ['inputs'], 'all pairs of nonzero integer polynomials',
  'Tests fix a few sequences; sign errors show only for particular leading-coefficient signs and degree gaps.',
  ['vts/uni_vts.py'],
  [('signed_pseudo_remainder', 'vts/uni_vts.py'), ('signed_remainder_sequence', 'vts/uni_vts.py'), ('signed_remainder_cauchy_index', 'vts/uni_vts.py')],
  ['return values of these functions'],
  T + 'oracle: exact division over Q and exact multiplicities at the roots', 'Exploration, exact oracle.')
p('C06', 'Root encodings hold at one root each',
  'For every polynomial with real roots, the derivative-sign encodings computed for its roots are one per root; each holds at its own root and '
  'at no other root of the polynomial.',
  ['inputs'], 'all integer polynomials, up to 8 real roots generated',
  'Tests encode the roots of three fixed polynomials.',
  ['vts/uni_vts.py'],
  [('get_discri_der_signs', 'vts/uni_vts.py'), ('DiscDerSigns', 'vts/uni_vts.py')],
  ['sign lists of the returned encodings'],
  T + 'oracle: exact signs of the listed polynomials at every root', 'Exploration, exact oracle; z3rcf-wrong inputs excluded and counted.')
p('C07', 'Signs at an encoded root and just right of it are exact',
  'For every encoded real root of a polynomial and every goal polynomial, the sign determined at the root and the sign determined immediately '
  'to the right of the root are the true ones.',
  ['inputs'], 'all integer polynomials with up to 5 real roots and all goal polynomials (common factors, multiples, derivatives, constants)',
  'Tests sample a few goals at the roots of two fixed polynomials.',
  ['vts/uni_vts.py', 'vts/matrix_of_signs.py'],
  [('evaluate_single_on_sign_assignment', 'vts/uni_vts.py'), ('e_close_evaluate_single_on_sign_assignment', 'vts/uni_vts.py'), ('pick_sign_of_goal', 'vts/uni_vts.py')],
  ['return values of these functions'],
  T + 'oracle: exact signs at isolated roots', 'Exploration, exact oracle; z3rcf-wrong inputs excluded and counted.')
p('C08', 'Polynomial products, power-product lists, derivatives and values are exact',
  'For every list of integer polynomials, the product, derivative and value at a rational point are exact, and the list of power products '
  'contains every product of powers 0, 1, 2 of the given polynomials in lexicographic exponent order.',
  ['inputs'], 'all lists of integer polynomials (up to four generated, degree up to 14), constants and interior zeros included',
  'Tests try a few products of short lists.',
  ['vts/uni_vts.py'],
  [('multiply', 'vts/uni_vts.py'), ('make_product_list', 'vts/uni_vts.py'), ('derivative', 'vts/uni_vts.py'), ('evaluate_poly', 'vts/uni_vts.py')],
  ['return values of these functions'], T + 'oracle: exact polynomial arithmetic', 'Exploration, exact oracle.')
p('C09', 'Conversion between symbolic and coefficient form keeps every sign',
  'Every univariate symbolic polynomial with rational coefficients, in any variable and written in any form, converts to the integer '
  'coefficient list of a positive multiple of it, of length degree + 1 (the polynomial itself when its coefficients are integers, the empty list for zero). '
  'Converting an integer coefficient list to symbolic form and back gives it back.',
  ['inputs'], 'all univariate rational polynomials in all expression shapes',
  'test_isym.py converts seven expressions.',
  ['vts/isym.py'],
  [('convert', 'vts/isym.py'), ('convert_rationals_to_ints', 'vts/isym.py'), ('convert_back', 'vts/isym.py')],
  ['return values of isym.convert and isym.convert_back'], T + 'oracle: independent exact expansion of the expression', 'Exploration, exact oracle.')
p('C10', 'Sign matrices and their cache survive any history of runs and kills',
  'For any number of polynomials the sign matrix is the iterated tensor product of the 3x3 matrix of powers of signs, and the inverse returned for it is its exact '
  'inverse. This holds whatever requests and runs came before in the same cache directory, and also after runs that were killed at any point while writing the cache.',
  ['histories', 'crash_points'], 'every sequence of requests, restarts and kills over one cache directory',
  'Tests ask for fresh matrices once; none restarts over a warm cache or kills a run.',
  ['vts/matrix_of_signs.py'],
  [('new_get_matrix / new_get_matrix_inverse', 'vts/matrix_of_signs.py'), ('write_to_cache / cache_hit / read_cache', 'vts/matrix_of_signs.py')],
  ['returned matrices; whether the next run starts'],
  'generated histories with injected kills against a reference model (tensor products recomputed, inverse by multiplication)',
  'Exploration of histories; kills at generated byte offsets of the cache writes, some ending the process for real.',
  [dict(name='cache/*.pkl', meaning='pickled matrices and inverses shared by all runs in a directory', where='vts/matrix_of_signs.py')])
p('C11', 'GRF terms and relations mean what they say, whatever was parsed before',
  'Every well-formed prefix term or relation (+, -, *, /, unary minus; <=, <, =, !=, >=, >; integers, decimals, any identifier as a variable, any white space) parses to an '
  'expression with exactly the value or truth the text denotes at every rational point. This does not depend on what the same process parsed before, and text that is '
  'not well formed is rejected.',
  ['inputs', 'histories'], 'every text of the grammar and every sequence of parses in one process',
  'test_grf_parser.py parses fixed short strings, each once, with variables x, y.',
  ['vts/grf_parser.py'],
  [('term, rln grammars and their parse actions', 'vts/grf_parser.py'), ('doVariable, doInt, doReal', 'vts/grf_parser.py')],
  ['parsed objects, evaluated at points'], T + 'oracle: an independent evaluator of the abstract syntax the text was rendered from', 'Exploration; exact rational arithmetic.')
p('C12', 'Reading trace files finds every sequent, complete and in order',
  'Reading a directory of trace files returns, for every file, exactly the sequents it contains, in order, each with its name, all its antecedent and all its '
  'succedent formulas in order and with their meaning, whatever other text surrounds them.',
  ['inputs'], 'all files mixing sequents with other text',
  'One test parses a single fixed sequent; none reads a file.',
  ['vts/examples_parser.py', 'vts/grf_parser.py'],
  [('parse_files_from_dir', 'vts/examples_parser.py'), ('cmd grammar', 'vts/grf_parser.py')],
  ['returned map of file name to sequents'], T + 'oracle: the generated sequents themselves', 'Exploration over generated directories.')
p('C13', 'Reduction to one variable preserves the meaning of every relation',
  'Every list of relations is turned into as many relations, in order, over the single variable x and with zero on the right, each true at x = a exactly when the '
  'original is true with all its variables equal to a, wherever the original is defined; relations that are already decided keep their truth value.',
  ['inputs'], 'all lists of polynomial relations, and relations that divide by variables (compared away from the poles), in any variables',
  'Not tested.', ['vts/examples_parser.py'], [('make_univariate', 'vts/examples_parser.py')],
  ['returned relations'], T + 'oracle: exact evaluation of the original relations', 'Exploration.')
p('C14', 'Refutation clauses are equivalent to the negated implication',
  'For antecedents and succedents made of any of the six relations or decided ones, at every real x some produced clause holds exactly when all antecedents hold and some succedent fails. '
  'Negating a relation yields its complement, rewriting to "less" keeps its meaning without > or >=, and sorting a clause by relation type neither loses nor changes a condition.',
  ['inputs'], 'all implications between univariate polynomial relations',
  'Not tested.', ['vts/checker.py'],
  [('vts_preformat', 'vts/checker.py'), ('negate_relations, rewrite_to_less', 'vts/checker.py'), ('make_relation_map', 'vts/checker.py')],
  ['returned clauses and maps, evaluated at points'], T + 'oracle: exact evaluation of the implication, at points including all rational roots', 'Exploration.')
p('C15', 'Stored examples read back as they were parsed',
  'After trace files are parsed and written to the example store, both ways of reading the store return, for every file, the same examples with the same meaning as parsing the files directly: nothing is lost, added or changed.',
  ['inputs', 'histories'], 'all sets of trace files, including none and files without sequents, stored over earlier versions or not',
  'Not tested (and the readers looked in a directory that does not exist).', ['vts/examples_parser.py'],
  [('write_sympy_parseable_examples', 'vts/examples_parser.py'), ('unpickle_dirs, unpickle_dirs_gen', 'vts/examples_parser.py')],
  ['examples read back, evaluated at points'], T + 'oracle: round trip against the generated sequents', 'Exploration, in scratch trees.',
  [dict(name='Examples/*/*.pkl', meaning='pickled univariate examples', where='vts/examples_parser.py')])
p('C16', 'The checker reports the truth of every sequent',
  'For stored sequents, the checker reports a formula as true exactly when, for every real x (all variables identified), the antecedents imply all succedents, with '
  'either decision procedure, and it reports on every example it reads.',
  ['inputs'], 'all trace files of univariate-reducible sequents',
  'Not tested end to end.', ['vts/checker.py', 'vts/examples_parser.py', 'vts/isym.py', 'vts/uni_vts.py'],
  [('check_examples', 'vts/checker.py')], ['printed formula values'],
  T + 'oracle: exact sign tables of the generated sequents', 'Exploration of the whole pipeline from text to verdict.')

QA = 'exact root isolation of the input polynomials at parameter points that meet every cell of the parameter line'
p('C17', 'Complex elimination by Muchnik: some clause holds exactly when x exists',
  'For any equations and inequations over one variable to eliminate and any parameters, with rational coefficients, the clauses returned by the complex procedure '
  'are free of the eliminated variable, and at every parameter point some clause holds exactly when some complex x satisfies all the conditions. Leading coefficients may vanish.',
  ['inputs'], 'all finite sets of polynomials in x and parameters, all parameter points',
  'The quantifier elimination directory has no passing tests at all; equivalence is a claim about all parameter points.',
  ['highschool_qe/muchnik.py', 'highschool_qe/sympywrapper.py'],
  [('Muchniker.complex_full', 'highschool_qe/muchnik.py'), ('muchnik_sequence, complex_extend', 'highschool_qe/muchnik.py')],
  ['returned clauses, evaluated at parameter points'], T + 'oracle: gcd computations at every cell of the parameter line',
  'Exploration: degree up to 3, up to two parameters, one of them swept over all its cells; rational parameter values; runs with too many algebra operations are set aside.')
p('C18', 'Real elimination by Muchnik: some clause holds exactly when x exists',
  'For any conditions < 0, = 0, > 0 on polynomials in the variable to eliminate and parameters, the clauses returned by the real Muchnik procedure are free of the '
  'eliminated variable, and at every real parameter point some clause holds exactly when some real x satisfies all the conditions. Leading coefficients may vanish.',
  ['inputs'], 'all finite sets of polynomials in x and parameters, all real parameter points',
  'No passing tests; equivalence is a claim about all parameter points.',
  ['highschool_qe/muchnik.py', 'highschool_qe/sympywrapper.py'],
  [('Muchniker.real_full', 'highschool_qe/muchnik.py'), ('muchnik_sequence, real_extend', 'highschool_qe/muchnik.py')],
  ['returned clauses, evaluated at parameter points'], T + 'oracle: ' + QA,
  'Exploration: as C17, with the sizes the procedure finishes in seconds.')
p('C19', 'Real elimination by Cohen-Hormander: some clause holds exactly when x exists',
  'For any conditions < 0, = 0, > 0 on polynomials in the variable to eliminate and parameters, the clauses returned by the Cohen-Hormander procedure are free of the '
  'eliminated variable, and at every real parameter point some clause holds exactly when some real x satisfies all the conditions. This includes points where leading '
  'coefficients vanish, polynomials without x, the zero polynomial and no conditions at all.',
  ['inputs'], 'all finite sets of polynomials in x and parameters, all real parameter points',
  'cohenhormtest.py prints results for fixed inputs and needs a package that is not there.',
  ['highschool_qe/cohenhorm.py', 'highschool_qe/sympywrapper.py'],
  [('CohenHormander.real_full', 'highschool_qe/cohenhorm.py'), ('expand_context, extend_single_table, copy_table, table_map_back', 'highschool_qe/cohenhorm.py')],
  ['returned clauses, evaluated at parameter points'], T + 'oracle: ' + QA,
  'Exploration: degree up to 3, up to three polynomials, up to two parameters.')
p('C20', 'The algebra behind elimination is exact, cached or not, in any call order',
  'Leading term and coefficient, degree, tail, derivative, sign, division and pseudo-division of polynomials in x over parameters are exact (p times the power of the leading '
  'coefficient equals quotient times divisor plus a remainder of lower degree), and the caching wrapper gives the same answers whatever was asked before, of this object or of another that eliminates a different variable.',
  ['inputs', 'histories'], 'all polynomials with rational coefficients, all call sequences over two wrapper objects',
  'No tests.', ['highschool_qe/sympywrapper.py', 'highschool_qe/cachedsympywrapper.py'],
  [('SympyWrapper', 'highschool_qe/sympywrapper.py'), ('CachedSympyWrapper._c_compute', 'highschool_qe/cachedsympywrapper.py')],
  ['return values over call histories'], 'generated call histories on two objects against an independent exact polynomial model', 'Exploration of histories.')
p('C21', 'Real sign diagrams show the true signs',
  'Every sign diagram that a real procedure (Muchnik or Cohen-Hormander) shows for an answer lists, at each parameter point that matches its assignments, exactly the signs each polynomial takes '
  'from minus to plus infinity, in order: at each root and between roots. The partial procedure builds such a diagram for one assignment, given by a function or typed in (the default).',
  ['inputs'], 'all finite sets of polynomials and all matching parameter points',
  'No tests.', ['highschool_qe/muchnik.py', 'highschool_qe/cohenhorm.py'],
  [('real_extend', 'highschool_qe/muchnik.py'), ('extend_single_table', 'highschool_qe/cohenhorm.py')],
  ['diagrams given to pprint_diagram'], T + 'oracle: exact sign tables at parameter points', 'Exploration.')
p('C22', 'Complex root diagrams show the true roots',
  'Every diagram that the complex procedure shows for an answer has, at each parameter point that matches its assignments, exactly one column per distinct complex root of the '
  'polynomials it lists, and each column says which of them vanish there. The partial procedure shows such a diagram for one assignment, given by a function or typed in (the default).',
  ['inputs'], 'all finite sets of polynomials and all matching parameter points',
  'No tests.', ['highschool_qe/muchnik.py'],
  [('complex_extend', 'highschool_qe/muchnik.py')],
  ['diagrams given to pprint_diagram'], T + 'oracle: gcd-free bases at parameter points', 'Exploration.')

SG = ' Sage is replaced by an exact stand-in.'
p('C23', 'GRF reads a hiding problem as what its text denotes',
  'For any SMT2 formulas or sequents in the supported syntax (decimals, ~ negatives, +, -, *, / by constants, the six relations, any legal variable names), every atom that GRF parses '
  'is the relation that the text denotes, in the given order, with no variable confused with another, however many variables appear and whatever was parsed before in the process.',
  ['inputs', 'histories'], 'all problem texts, all histories of texts parsed in one process',
  'GRF has no tests.', ['GRF/smt2.py', 'GRF/grf.sage'],
  [('SMTContext', 'GRF/smt2.py'), ('ParseSMT.fmlsTokenList, processCommands', 'GRF/smt2.py')],
  ['parsed atoms, compared as relations over the names in the text'], 'generated texts printed from terms; oracle: the polynomial of the term, up to positive factors', 'Exploration.' + SG)
p('C24', 'Atoms, negation and goals keep their meaning, also after promotion and reduction',
  'An atom is true at a point exactly when its relation holds there and undecided when a variable of it is missing; negation negates and is its own inverse. After any sequence of promotions of '
  'hypotheses to the goal, with or without reduction by Groebner bases, the goal is true at a point exactly when the original promoted hypotheses fail or the conclusion holds; if it is called '
  'true at a partial point, it is true at every completion.',
  ['inputs', 'histories'], 'all atoms and points, all promotion sequences',
  'GRF has no tests; reduction interacts over several promotions.', ['GRF/grf.sage'],
  [('RCF_Atom.eval_on_dict, negate, quotient_ring_inject', 'GRF/grf.sage'), ('RCF_Goal.add_goal_hyp, eval_on_dict', 'GRF/grf.sage')],
  ['truth values at complete and partial points'], 'generated promotion histories; oracle: exact evaluation of the original hypotheses', 'Exploration over two to four variables.' + SG)
p('C25', 'Sample points of a line meet every cell of it',
  'For any finite set of univariate polynomials with rational coefficients, the sample points that GRF computes from their isolated roots include a point in every open interval between '
  'neighbouring real roots, one before the first and one after the last, and every rational root. This holds for multiple, shared, rational and irrational roots together.',
  ['inputs'], 'all finite sets of univariate rational polynomials', 'GRF has no tests.', ['GRF/grf.sage'],
  [('QE_Factory.iso_root_intvls, sector_sps', 'GRF/grf.sage')], ['the list of sample points'],
  'generated families of polynomials; oracle: exact root isolation', 'Exploration.' + SG)
p('C26', 'CAD sample points meet every open cell and miss no failure of a goal',
  'For any polynomials in several variables, every combination of strict signs that the polynomials take anywhere in space is taken at one of the full-dimensional CAD sample points; with a goal, '
  'a goal that fails at some point where no polynomial vanishes fails at a sample point. This holds with common and multiple factors, and each point assigns every variable.',
  ['inputs'], 'all finite sets of rational polynomials, all points', 'GRF has no tests; completeness quantifies over all of space.', ['GRF/grf.sage'],
  [('QE_Factory.bm_proj, projection_phase, base_phase, stack_over_cell, sample_pt_dicts', 'GRF/grf.sage')], ['the sample points'],
  'generated polynomials and probe points; oracle: exact signs at the probe points', 'Exploration: two variables, three in the thorough tier; degree up to 3.' + SG)
p('C27', 'Bad sets name what fails to exclude counterexamples; a lightest set is chosen',
  'Around a point where the goal fails, the reported bad sets generate exactly the hypothesis sets that leave some examined point with a failing goal uncovered; a point that satisfies all hypotheses '
  'is reported as a counterexample. The hypotheses chosen for bad sets are a lightest collection contained in none of them, and a hypothesis that shares a variable with the goal is lighter than one that does not.',
  ['inputs'], 'all hypotheses, goals, examined points and bad sets', 'GRF has no tests.', ['GRF/grf.sage'],
  [('RCF_GD_Decide.bad_subsets_on_dict', 'GRF/grf.sage'), ('good_hyps, weight_hyps', 'GRF/grf.sage')], ['bad sets and chosen indices'],
  'generated hypotheses and points; oracle: enumeration of all hypothesis sets', 'Exploration: up to six hypotheses.' + SG)
p('C28', 'Hiding formulas keeps a sequent provable, or gives a real counterexample',
  'For any problem file, a run that ends names only existing formulas, each once and never the whole succedent, with counts that agree with the result file; what is left still holds at every point where no '
  'polynomial vanishes. A reported counterexample satisfies the antecedent and no succedent. No problem breaks the run, whatever was run before in the process.',
  ['inputs', 'histories'], 'all hiding problems, all histories of runs', 'GRF has no tests; the guarantee is about all points of space.', ['GRF/grf.sage', 'GRF/smt2.py', 'GRF/local_search.py'],
  [('grf_on_file', 'GRF/smt2.py'), ('SMTContext.perform_grf', 'GRF/smt2.py'), ('RCF_GD_Decide.check, promote_right', 'GRF/grf.sage')], ['result files, return values, reported counterexamples'],
  'generated problem files run end to end; oracle: exact evaluation of what is left at generated points', 'Exploration: two or three variables, runs bounded in time.' + SG)
p('C29', 'The local search around a point returns points of the problem at hand',
  'For any sequence of problems in one process, the points returned by the search around a point assign exactly the variables of the problem at hand, include the point itself, and the '
  'points outside its neighbourhood are points where the goal fails.',
  ['inputs', 'histories'], 'all problems and search histories', 'GRF has no tests; state is kept between problems.', ['GRF/local_search.py', 'GRF/grf.sage'],
  [('sample_points', 'GRF/grf.sage'), ('VarOrder, local search', 'GRF/local_search.py')], ['returned points'],
  'generated search histories; oracle: exact evaluation of the goal', 'Exploration; goal values within 1e-9 of zero are not decided (floating point).' + SG)

NOT_APPLICABLE = []
