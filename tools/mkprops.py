#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
S='libclingcon/src/'; H='libclingcon/clingcon/'
prop('C01','Linear constraint propagation never removes a solution',
 'Whatever bounds and partial assignment a linear constraint &sum{..}<=c (or the active optimisation bound) is propagated under, every clause it adds is implied by the constraint together with the meaning of the order literals, so no integer assignment satisfying the constraint is ever cut off. This holds with and without reason refinement and for every level, including bounds already fixed at top level.',
 ['inputs','histories','configurations'],'all coefficient/variable lists, bounds, partial assignments, order-literal tables, decision levels and reason-refinement settings',
 'Tests run a few puzzles and count answer sets; an over-strong clause shows only when one particular partial assignment, level and refinement setting meet a solution that it cuts off.',
 [S+'constraints.cc',S+'solver.cc'],
 [('SumConstraintStateImpl::propagate','constraints.cc'),('SumConstraintStateImpl::calculate_reason_','constraints.cc'),('check_valid_value','base.hh'),('floordiv','util.hh')],
 [('slack','rhs minus smallest possible sum','SumConstraintStateImpl::propagate')],['add_clause'])
prop('C02','Every reported assignment satisfies all active constraints',
 'When the propagator accepts a total assignment, each constraint whose literal is true evaluates to true on the reported values; an assignment violating one is rejected before it can be reported. With a strict condition the constraint literal is true in an answer exactly if the constraint holds.',
 ['inputs','programs'],'all total assignments, all constraints of every kind, all truth values of their literals',
 'The suite checks listed answers of small programs; a hole in the final test needs a violating assignment that slips past incomplete propagation, which samples rarely produce.',
 [S+'constraints.cc',S+'solver.cc',S+'propagator.cc'],
 [('Solver::check_full','solver.cc'),('SumConstraintStateImpl::check_full','constraints.cc'),('DistinctConstraintState::check_full','constraints.cc'),('DisjointConstraintState::check_full','constraints.cc'),('NonlinearConstraintState::check_full','constraints.cc'),('Propagator::check','propagator.cc')],observe=['on_model'])
prop('C03','Tracked bounds of a linear sum stay exact over any history',
 'At every moment the smallest and largest value a linear constraint believes its left-hand side can take equal the true extremes over the current variable bounds, after any sequence of bound changes, backtracks and removals. A constraint is dropped from propagation only if it is false-literal or already satisfied under current bounds, and only until the responsible decision is undone.',
 ['histories','inputs'],'all sequences of bound tightenings, propagations and backtracks over all coefficient signs',
 'Drift of an incremental sum needs a specific history of updates and undos; the tests do not assert the tracked values.',
 [S+'constraints.cc',S+'solver.cc'],
 [('SumConstraintStateImpl::attach/update/undo/check_state','constraints.cc'),('Solver::Level::update_constraints_','solver.cc'),('Solver::Level::undo','solver.cc')],
 [('lower_bound_/upper_bound_','extremes of the sum','SumConstraintStateImpl')])
prop('C04','Translating a linear constraint keeps its meaning',
 'When a linear constraint is replaced by clauses or by a weight constraint over order literals, an assignment satisfies the replacement exactly if it satisfies the constraint (given its literal), whatever the limits configured. A constraint is removed from the propagator only if its replacement is complete.',
 ['inputs','configurations'],'all coefficients, domains, right-hand sides, clause limits and weight ratios',
 'Equivalence is over every integer assignment and configuration; tests compare a handful of programs at default limits.',
 [S+'constraints.cc'],
 [('SumConstraintStateImpl::translate','constraints.cc'),('clause_translate_','constraints.cc'),('weight_translate_','constraints.cc'),('InitClauseCreator::add_weight_constraint','base.hh')],observe=['add_clause','add_weight_constraint'])
prop('C05','Distinct constraint is sound and detects every violation',
 'For &distinct over linear terms, propagation only adds clauses implied by pairwise difference of the term values, and two terms that become equal are always detected, also if both are fixed from the start or constant. Translating the constraint to pairwise inequalities keeps exactly its solutions.',
 ['inputs','histories','configurations'],'all term lists, partial assignments, propagation orders and translation limits',
 'Tests only use a few variables with default translation limit, so the propagating code path and equalities present from the start stay unsampled.',
 [S+'constraints.cc'],
 [('DistinctConstraintState::propagate','constraints.cc'),('DistinctConstraintState::translate','constraints.cc'),('DistinctElement::calculate/mark','constraints.cc')])
prop('C06','Disjoint constraint is sound and detects every overlap',
 'For &disjoint over intervals with start terms and durations, propagation only adds clauses implied by pairwise non-overlap, and total assignments with an overlap are always rejected. This includes extreme durations whose sum exceeds the range of a single value.',
 ['inputs','histories'],'all start bounds, durations and partial assignments',
 'Edge-finding style pruning is wrong only for particular combinations of windows; the tests cover a few tiny instances.',
 [S+'constraints.cc'],
 [('DisjointConstraintState::propagate','constraints.cc'),('DisjointConstraintState::check_full','constraints.cc')])
prop('C07','Nonlinear constraint propagation never removes a solution',
 'For a*x*y+b*z<=c the propagator only adds clauses implied by the constraint when its literal holds, for every sign combination of coefficients and bounds, and never derives anything from it if its literal is not true. Intermediate products never wrap around.',
 ['inputs','histories'],'all coefficients, bounds straddling zero or not, shared variables and partial assignments',
 'Rounding of quotients depends on the signs of four bounds and two coefficients; the tests use a few positive cases.',
 [S+'constraints.cc',H+'util.hh'],
 [('NonlinearConstraintState::propagate','constraints.cc'),('floordiv/ceildiv','util.hh'),('NonlinearConstraintState::check_full','constraints.cc')])
prop('C08','Order literals, domains and unit constraints mean what they say',
 'A literal handed out for "x<=v" is constant exactly when v lies outside the range of x and otherwise is the one recorded literal of that variable and value; consecutive order literals imply each other in the right direction. Restricting x by &dom allows exactly the values of the domain, and a one-variable constraint a*x<=c admits exactly the values with a*x<=c (equivalently in both directions if strict).',
 ['inputs','histories'],'all variables, bounds, values, domains (also empty), coefficients of both signs and truth values of the condition',
 'Off-by-one and rounding errors occur only for particular values, negative coefficients or truth values; samples do not reach all combinations.',
 [S+'solver.cc'],
 [('Solver::get_literal/update_literal','solver.cc'),('Solver::add_simple','solver.cc'),('Solver::add_dom','solver.cc'),('Solver::update_upper_/update_lower_/propagate_variables_','solver.cc')])
prop('C09','Order-literal table behaves as an ordered map in both encodings',
 'Looking up, adding, changing and removing order literals of a variable, and finding the next smaller or larger one, give the same answer whether the table is stored sparsely or densely, and switching between the two loses nothing. Copying or moving the table of a variable preserves its contents.',
 ['inputs','histories'],'all operation sequences, domain sizes, offsets and query values (also outside the stored range)',
 'The switch happens at a size ratio the tests hit only by chance and neighbour queries at the border need specific values.',
 [H+'solver.hh'],
 [('VarState::get_or_add_literal/set/unset/has_literal','solver.hh'),('VarState::with_lt/with_le/with_gt/with_ge','solver.hh'),('VarState::mogrify_','solver.hh'),('VarState copy/move','solver.hh')])
prop('C10','Backtracking restores bounds and propagation state exactly',
 'Undoing a decision level restores every variable bound, watched constraint and activity flag to what it was before the level was opened, and leaves nothing queued from the undone level. Top-level bounds are never undone.',
 ['histories'],'all interleavings of levels opened, bounds changed (several times per level), constraints deactivated and levels undone',
 'Needs specific multi-level histories; tests only look at answer sets.',
 [S+'solver.cc',H+'solver.hh'],
 [('Solver::Level::update_lower/update_upper','solver.cc'),('Solver::Level::undo','solver.cc'),('VarState::push/pop','solver.hh'),('Solver::undo','solver.cc')])
prop('C11','Normalising a relation keeps its meaning, also under strictness',
 'Rewriting a linear or nonlinear atom with <=,<,>=,>,=,!= into at-most constraints preserves its truth value for every assignment, in both directions if the atom is strict (occurs with defining semantics) and one direction otherwise. Overflow while negating or shifting bounds is reported as an error, never silently wrapped.',
 ['inputs'],'all relations, coefficients, right-hand sides, truth values of the atom and strictness',
 'Six relations times strictness times fixed/free literals times number of variables is far more than the listed examples, and most listed examples are non-strict.',
 [S+'parsing.cc',S+'propagator.cc'],
 [('normalize_constraint','parsing.cc'),('ConstraintBuilder::add_constraint','propagator.cc'),('ConstraintBuilder::add_nonlinear','propagator.cc'),('Propagator::add_constraint','propagator.cc')])
prop('C12','Simplifying a linear expression keeps its value',
 'Merging and dropping terms of a linear expression yields, for every assignment, the same value of sum minus right-hand side, with pairwise different variables and no zero coefficients. If a merged coefficient or bound cannot be represented an error is raised.',
 ['inputs'],'all term lists with repetitions, zero coefficients, constants and extreme values',
 'The tests check a few short lists; merging and overflow detection must hold for any list.',
 [S+'parsing.cc'],[('simplify','parsing.cc'),('safe_add/safe_mul','util.hh'),('check_valid_value','base.hh')])
prop('C13','Integer arithmetic is exact or raises, never wraps',
 'Checked addition, subtraction, multiplication, division, remainder, power, inversion and conversion return the mathematical result if it is representable and raise an overflow error otherwise. Division rounding down or up returns the floor or ceiling of the quotient for all sign combinations, and the midpoint of two values lies between them.',
 ['inputs'],'all pairs of 32 and 64 bit integers',
 'The suite samples border values; two 64-bit operands have 2^128 combinations.',
 [H+'util.hh',H+'base.hh'],[('safe_add/safe_sub/safe_mul/safe_div/safe_mod/safe_inv/safe_pow/safe_cast','util.hh'),('floordiv/ceildiv/midpoint','util.hh'),('check_valid_value','base.hh')])
prop('C14','Theory atoms are read as the linear constraint they denote',
 'A theory atom is turned into a constraint with exactly the value of its terms (sums, differences, products, constants, &diff, guards) for all assignments, or an error is raised if the term is ill-formed or a number is out of range. No term is dropped or counted twice, and at most one product of two variables is accepted per atom.',
 ['inputs','programs'],'all theory terms and elements of the theory grammar',
 'The parser tests list around a hundred terms; nesting and order of terms are unbounded.',
 [S+'parsing.cc'],[('parse_constraint_elem/parse_constraint_elems','parsing.cc'),('parse_nonlinear','parsing.cc'),('evaluate','parsing.cc'),('parse_dom/parse_distinct/parse_disjoint','parsing.cc')])
prop('C15','Reported cost and enforced optimisation bound are right',
 'The cost reported with a model equals the value of the minimize statement on that model (negated for maximize as documented), and once a bound is set only assignments with cost at most the bound are accepted, and none of these is lost. Adopting a new bound only ever tightens the search, for every thread.',
 ['inputs','histories','configurations'],'all objective terms, models, bound sequences and translation settings',
 'Tests check final optima of few programs; a wrong intermediate bound or cost needs a special order of models.',
 [S+'propagator.cc',S+'constraints.cc',S+'solver.cc'],
 [('Propagator::get_minimize_value','propagator.cc'),('Propagator::on_model/update_minimize','propagator.cc'),('MinimizeConstraintState::translate','constraints.cc'),('Solver::update_minimize','solver.cc')])
prop('C16','Interval sets represent exactly the union of added intervals',
 'After any sequence of additions a value is in the set exactly if it is in one of the added half-open intervals; membership, containment, overlap and enumeration agree with that set, and the stored intervals stay sorted and separated. Adding an empty interval changes nothing.',
 ['inputs','histories'],'all sequences of intervals',
 'Merging depends on how a new interval touches or covers several stored ones; the tests sample some.',
 [H+'util.hh'],[('IntervalSet::add/contains/intersects/enumerate/extend','util.hh')])
prop('C17','Options set exactly the documented configuration',
 'Every accepted option value sets the documented setting, for all threads or only the given one, to exactly the value written, and values out of range, empty or unknown are rejected with an error leaving no wrapped number behind. Later per-thread settings do not affect other threads.',
 ['inputs','configurations'],'all option names, value strings, thread ids and orders of setting',
 'The tests use fixed well-formed option values; parsing must be right for every string.',
 [S+'clingcon.cc',H+'base.hh'],[('clingcon_configure / parse functions','clingcon.cc'),('Config::solver_config','base.hh')])
prop('C18','Variable indices and values seen by users are consistent',
 'Each distinct symbol gets one index and looking up a symbol or index returns its partner; iterating over shown values visits each shown variable exactly once and reports the value it has in the current solution of that thread. Reported value symbols carry the same values.',
 ['inputs','histories'],'all symbols, multi-shot extensions, show statements and thread ids',
 'The iteration interface is tested on tiny programs; the bijection has to survive arbitrary histories.',
 [S+'propagator.cc',S+'clingcon.cc'],[('Propagator::add_variable/get_index/get_symbol/get_value','propagator.cc'),('Propagator::on_model/shown','propagator.cc'),('clingcon_assignment_*','clingcon.cc')])
prop('C19','Rewriting the input program keeps its meaning',
 'Rewriting integrity constraints by moving a theory atom to the head preserves the answer sets, and adding unique tuples to theory elements makes equal terms from different rule instances count separately while leaving everything else unchanged. Statements without theory atoms are passed on unmodified.',
 ['programs'],'all non-ground rules with theory atoms',
 'Program shapes are unbounded; tests list single rules.',
 [S+'parsing.cc'],[('transform','parsing.cc'),('shift_rule/tag_terms/rewrite_tuple','parsing.cc')])
prop('C20','Threads and solve steps start from the same consistent state',
 'Copying the master state gives every thread an equal, independent state whose constraints point to its own data, and starting a new solve step keeps exactly the bounds and literals that still hold. Bounds learned at top level by one thread are adopted by the master without losing solutions.',
 ['histories','configurations','schedules'],'all master states, thread counts and step histories',
 'Aliasing between thread states or stale literals only shows for particular histories; most tests run one thread and one shot.',
 [S+'solver.cc',S+'propagator.cc',S+'constraints.cc'],[('Solver::copy_state/Level::copy_state','solver.cc'),('Solver::update/update_bounds','solver.cc'),('Propagator::init','propagator.cc'),('AbstractConstraintState::copy','constraints.cc')])
prop('C21','Clauses and weight constraints are handed to the solver faithfully',
 'Every clause, weight constraint and objective literal produced during preprocessing reaches the solver exactly once, with the same literals and the same meaning, before the solver is asked to propagate or preprocessing ends. Once the solver reports a conflict the failure is passed on.',
 ['inputs','histories'],'all sequences of produced clauses and constraints, incl. already true/false literals',
 'Buffering errors need particular sequences and the encoding of weight constraints is only tested via complete programs.',
 [H+'base.hh'],[('InitClauseCreator::add_clause/commit/propagate/add_weight_constraint','base.hh'),('ControlClauseCreator::add_clause','base.hh')])
prop('C22','Answer sets do not depend on configuration',
 'For every program the set of answers with their integer assignments is the same for all settings of translation limits, reason refinement, heuristics, splitting, ordering and thread count, and equals the set of assignments within the integer range satisfying all constraints of each answer set.',
 ['programs','configurations','schedules'],'all programs times all configurations',
 'The product of programs and configurations is unbounded; tests enumerate a few configurations of few programs.',
 [S+'propagator.cc',S+'solver.cc',S+'constraints.cc'],[('Propagator::init/propagate/check/undo','propagator.cc')])
prop('C23','Search over finite domains terminates and threads do not race',
 'Solving any program over bounded integers terminates, and concurrent solver threads never access shared propagator state without synchronisation.',
 ['schedules','programs'],'all programs, schedules and thread counts',
 'Termination and absence of races are whole-history properties that finite test runs cannot establish.',
 [S+'propagator.cc',S+'solver.cc'],[('Propagator::check','propagator.cc'),('Solver::check_full','solver.cc')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,p['id']
        f.write(json.dumps(p)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,sch)
