"""what decides each property: contract modules and native harnesses"""
from sem import SEM_ASSUME


def gen(mode, quick=40, thorough=300, **kw):
    d = dict(name='gen-' + mode, src='gen.cc', args=[mode], secs=(quick, thorough), procs=3,
             san=['-fsanitize=undefined', '-fno-sanitize-recover=all'], opt=['-O1'], hang_is_failure=True,
             what='random programs (mode %s) solved end to end with the real library and compared with an enumeration of all assignments' % mode)
    d.update(kw)
    return d


MATH64 = 'sums of up to 2^32 products of 31 bit values are treated as mathematical integers (C12 bounds them to 64 bits)'
PROPS = {
    'C01': dict(mods=['c01'], native=[gen('sum')], assumptions=SEM_ASSUME + [MATH64],
                not_covered=['Solver::get_literal/update_literal/order_lit_le/ge enter by contract (C08, C09)']),
    'C02': dict(mods=['c02'], native=[gen('sum', 25, 200), gen('minimize', 25, 200)], assumptions=[MATH64, 'the check of the other kinds of constraints: C05, C06, C07', 'creating a state for a constraint yields a new, unmarked, active state of it']),
    'C03': dict(mods=['c03'], native=[gen('sum')], assumptions=[MATH64]),
    'C04': dict(mods=['c04'], native=[gen('translate')],
                assumptions=SEM_ASSUME + [MATH64, 'constraints are propagated before they are translated: their bounds are exact unless they hold or their literal is false', 'during preprocessing only literals that hold in all solutions are assigned', 'weight constraints and clauses reach the solver faithfully (C21)', 'floor division: C13'],
                not_covered=['clause_estimate_ and literal_variable_ratio_ only choose between translations: any result is allowed for them', 'bookkeeping of Solver::translate (native harness)', 'translation of distinct constraints into linear ones (native harness)']),
    'C05': dict(mods=['c05'], native=[gen('distinct')],
                assumptions=SEM_ASSUME + ['terms have fewer than 2^31 summands', 'of two terms with the same value one is on the todo list when propagation starts (attach and update: proved; histories of changes and undos: native harness)', 'during preprocessing only literals that hold in all solutions are assigned'],
                not_covered=['translation to weight constraints (DistinctConstraintState::translate): native harness']),
    'C06': dict(mods=['c06'], native=[gen('disjoint')],
                assumptions=SEM_ASSUME + ['durations are positive (parse_disjoint, C14)', 'the clause creator fails on a clause all of whose literals are false', 'interval sets: C16', 'std::sort permutes its range and orders it by the given comparator'],
                not_covered=['skipping of intervals whose bounds did not change since the last call (detection is proved for the propagation after an undo and for new states; native harness otherwise)']),
    'C07': dict(mods=['c07'], native=[gen('nonlinear')],
                assumptions=SEM_ASSUME + ['128 bit wide-integer arithmetic is mathematical; its ranges are proved to fit']),
    'C08': dict(mods=['c08'], native=[gen('simple', 40, 300), gen('distinct', 15, 100)],
                assumptions=['the table of a variable behaves as a map (C09) and Level::update_lower/update_upper as verified for C10', 'clasp: what is assigned on level 0 is fixed, and what is fixed and true holds in all solutions; add_literal returns a new literal',
                             'variables have at most 2^30 values; literals are 31 bit', 'floor division: C13', 'on a conflict update_upper_/update_lower_ change the literal map only through get_literal'],
                not_covered=['Solver::update_domain_ after a conflict on level 0 (the search ends)', 'completeness of the chain of binary clauses (only their soundness; native harness otherwise)']),
    'C09': dict(mods=['c09'], native=[dict(name='c09', src='c09.cc', secs=(20, 120), procs=3, what='random histories of set/unset/add/copy/move/narrow on VarState against std::map, traversals in both directions included'), gen('sum', 15, 150)],
                assumptions=['std::map and std::vector behave as an ordered map and an array', 'literals are only recorded for values in the current range of the variable (C08)', 'bounds lie in the documented integer range'],
                not_covered=['the inc function of the traversals is inlined where it is used (C03, C08)']),
    'C10': dict(mods=['c10'], native=[gen('multi', 25, 200), gen('sum', 20, 150)],
                assumptions=['update/undo of a constraint state leaves the todo and activity marks alone (sums: proved in C03)', 'propagating a constraint state changes neither bounds nor the queue (new facts are listed and applied afterwards; only update_constraints_ queues)', 'pending changes exist only for variables updated on the current level',
                             'bounds are in range; all lists are shorter than 2^40'],
                not_covered=['undo of distinct and disjoint constraint states: C05, C06']),
    'C11': dict(mods=['c11', 'c11b'], native=[gen('syntax'), gen('nonlinear', 25, 200)], assumptions=['AbstractConstraintBuilder::add_literal returns a literal not used before', 'AbstractConstraintBuilder functions do what their contract says: proved in c11b for linear and nonlinear constraints down to the functions of Propagator (C08), which store a constraint (C01, C07)',
                'the operator of a theory atom is one of <=,<,>=,>,=,!= (guaranteed by the theory grammar)']),
    'C12': dict(mods=['c12'], native=[gen('syntax')], assumptions=['order of terms is abstracted; std::sort permutes its range', 'std::map / unordered_map behave as maps']),
    'C13': dict(mods=['c13'], native=[dict(name='c13', src='c13.cc', includes=['parsing'], secs=(20, 60), what='all helpers on boundary/random operand pairs against 128 bit arithmetic')],
                not_covered=['safe_pow: std::pow on doubles (native harness only)', 'floordiv/ceildiv at the 128 bit type: wide-integer library arithmetic is treated as mathematical']),
    'C14': dict(mods=['c14'], native=[gen('syntax'), gen('distinct', 15, 100), gen('disjoint', 15, 100)],
                assumptions=['accessors of Clingo::TheoryTerm, Symbol, TheoryAtom and TheoryElement are pure functions of the object', 'containers hold fewer than 2^60 elements',
                             'theory atoms have the shapes the theory grammar admits (operators, guards, arities)', 'AbstractConstraintBuilder functions do what their contract says (Propagator side: other properties)'],
                not_covered=['std::pow on doubles in safe_pow (C13 native harness)', 'unquote (string escapes): native only', 'parse_show: see C18']),
    'C15': dict(mods=['c15'], native=[gen('minimize')], assumptions=[MATH64, 'one thread at a time updates the atomic bound', 'simplify keeps the value (C12)', 'MinimizeConstraint::create stores the given terms and adjustment'],
                not_covered=['weight constraint translation of the objective is a boolean sum over order literals: C04, C21']),
    'C16': dict(mods=['c16'], native=[dict(name='c16', src='c16.cc', nosrc=True, secs=(10, 60), what='random histories of add/extend/clear against a set of values')]),
    'C17': dict(mods=['c17'], native=[dict(name='c17', src='c17.cc', includes=['clingcon'], secs=(20, 100), procs=3, san=['-fsanitize=undefined', '-fno-sanitize-recover=all'], opt=['-O1'], what='random histories of clingcon_configure and command lines through clingo_main against an independent reading of keys and values: acceptance and the whole configuration of 65 threads'), gen('config', 15, 150)],
                assumptions=['string and stream functions of the standard library behave as specified: the number a text denotes is uninterpreted (native: independent parser)', 'fewer than 2^32 threads'],
                not_covered=["clingo's own option parser (native only)", 'keys clingcon_configure does not know are ignored: no contract']),
    'C18': dict(mods=['c18'], native=[dict(name='c18', src='c18.cc', secs=(30, 200), procs=3, san=['-fsanitize=undefined', '-fno-sanitize-recover=all'], opt=['-O1'], hang_is_failure=True, what='random multi-shot programs with show statements and threads through the C interface: indices, lookups, iteration, values and shown symbols against an enumeration'), gen('show', 15, 150)],
                assumptions=['Clingo::Symbol and Signature are identified by a number; std::map, std::set and the unordered containers behave as maps and sets', 'fewer than 2^32 variables', 'a thread reads its own solver'],
                not_covered=['the bounds of a variable in a total assignment are equal: C02']),
    'C19': dict(mods=['c19'], native=[gen('rewrite')],
                assumptions=['the syntax tree of clingo behaves as documented: attributes are read and set, copy is shallow, transform_ast rebuilds exactly the parents of changed nodes and visits every child, visit_ast visits every descendant while its visitor returns true, unpool preserves meaning',
                             'theory atoms are named by functions and boolean constants are 0 or 1 (what the parser builds)', 'sets of names are ordered in some fixed way', 'an integrity constraint forbids its body'],
                not_covered=['recursion of transform_ast through a statement (library code, by contract)', 'grounding of the rewritten program (native harness)']),
    'C20': dict(mods=['c20'], native=[gen('multi', 40, 300)],
                assumptions=['the table of a variable behaves as a map (C09)', 'bounds lie in the documented range', 'Solver::check: C10 and the propagation properties', 'solvers of other threads are on level 0 when a solve step starts', 'new objects differ from existing ones',
                             'virtual functions of constraint states do what their contracts say (copy: proved here for all four kinds)'],
                not_covered=['unordered_multimap is treated as a collection of pairs', 'Solver::simplify, translate enter Propagator::init by contract']),
    'C21': dict(mods=['c21'], native=[dict(name='c21', src='c21.cc', nosrc=True, secs=(25, 120), procs=3, what='random clauses, weight constraints and objective literals through InitClauseCreator against an enumeration of all answers'), gen('translate', 25, 200)],
                assumptions=['clingo: add_weight_constraint enforces the requested direction, and both if the sum or the literal is decided', 'during preprocessing only literals that hold in all solutions are assigned', 'clauses contain no literal 0', MATH64],
                not_covered=['the order of calls in Propagator::init (native only)']),
}
NA = {
    'C22': 'equality of answer sets over configurations, schedules and thread counts is a statement about the search of clasp as a whole; no contract on a function of this repository expresses it (its components are C01 to C21; the end-to-end harness of those varies configurations)',
    'C23': 'termination of the interplay with the search of clasp and absence of data races are properties of concurrent histories; the contracts here are about sequential functions (progress of the splitting of domains is proved in C02)',
}
