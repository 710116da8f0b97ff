"""C01: propagation of linear constraints never removes a solution."""
import z3
from sem import *

TU_ = 'src/constraints.cc'
LBA, UBA = z3.Const('LBA', z3.ArraySort(INT, INT)), z3.Const('UBA', z3.ArraySort(INT, INT))


def bnd_lo(co, v):
    return z3.If(co > 0, co * z3.Select(LBA, v), co * z3.Select(UBA, v))


def bnd_up(co, v):
    return z3.If(co > 0, co * z3.Select(UBA, v), co * z3.Select(LBA, v))


LO = Fold('lo', pairp, bnd_lo, 'sum', [INT, INT])
UP = Fold('up', pairp, bnd_up, 'sum', [INT, INT])
KINDS = {'SumConstraintState': '0', 'MinimizeConstraintState': '-1'}


def impl(k):
    return 'SumConstraintStateImpl<%s,Clingcon::(anonymous namespace)::%s>' % (KINDS[k], k)


def con_shape(k):
    el = Vec(fresh('con.n'), Rec('pair', {'first': fresh('co', z3.ArraySort(INT, INT)), 'second': fresh('var', z3.ArraySort(INT, INT))}))
    f = {'size_': el.n, 'elements_': el}
    if k == 'SumConstraintState':
        f.update(lit_=fresh('clit'), rhs_=fresh('crhs'))
    else:
        f.update(adjust_=fresh('adjust'))
    return Rec('Clingcon::' + k[:-5], f)


def thisval(k):
    def f(e, st):
        return Rec(impl(k), {'constraint_': con_shape(k), 'lower_bound_': fresh('this.lo'), 'upper_bound_': fresh('this.up'), 'inactive_level_': fresh('this.il'), 'todo_': fresh('this.todo', BOOL)})
    return f


def solver_arg(e, st):
    S = solver_shape(e, 's')
    el = dict(S.f['var2vs_'].el.f)
    el['lower_bound_'], el['upper_bound_'] = LBA, UBA
    S.f['var2vs_'] = Vec(S.f['var2vs_'].n, Rec('Clingcon::VarState', el))
    return S


def setup(e, st, fd):
    put_ass(st)


j_, k_ = z3.Ints('j!c k!c')


def con(c):
    return c.old.f['constraint_']


def con_inv(C, S):
    """variables exist and are distinct, coefficients are not zero and in range"""
    el = C.f['elements_'].el
    n = C.f['elements_'].n
    co, v = lambda i: z3.Select(el.f['first'], i), lambda i: z3.Select(el.f['second'], i)
    r = [('size', z3.And(n >= 0, n < 2**31)),
         ('elements', z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < n), z3.And(co(j_) != 0, co(j_) >= MINV, co(j_) <= MAXV, 0 <= v(j_), v(j_) < S.f['var2vs_'].n)), patterns=[co(j_), v(j_)])),
         ('distinct variables', z3.ForAll([j_, k_], z3.Implies(z3.And(0 <= j_, j_ < n, 0 <= k_, k_ < n, j_ != k_), v(j_) != v(k_)), patterns=[z3.MultiPattern(v(j_), v(k_))]))]
    if 'lit_' in C.f:
        r.append(('literal', z3.And(C.f['lit_'] != 0, C.f['lit_'] > -2**31, C.f['lit_'] < 2**31, C.f['rhs_'] >= -2**31, C.f['rhs_'] < 2**31, TT(-C.f['lit_']) == z3.Not(TT(C.f['lit_'])))))
    return r


def exact(T, C):
    """the tracked bounds are exact"""
    return [('lower exact', T.f['lower_bound_'] == LO(C.f['elements_'])), ('upper exact', T.f['upper_bound_'] == UP(C.f['elements_']))]


def clit(C):
    return C.f['lit_'] if 'lit_' in C.f else I(1)


def rhs_of(C, S):
    return C.f['rhs_'] if 'rhs_' in C.f else S.f['minimize_bound_'].f['val']


def holds(C, S):
    """the constraint holds under the fixed assignment"""
    return z3.Implies(TT(clit(C)), LIN(C.f['elements_']) <= rhs_of(C, S))


# ------------------------------------------------------------------ calculate_reason_
def cr_req(c):
    S, vs, co, sl = c.o(0), c.o(3), c.o(4), c.o(2)
    v = vs.f['var_']
    return solver_inv(S) + [('slack negative', sl < 0), ('coefficient', z3.And(co != 0, co >= MINV, co <= MAXV)),
                            ('state of a variable', z3.And(0 <= v, v < S.f['var2vs_'].n))]


def cr_ens(c):
    S, vs, co = c.o(0), c.o(3), c.o(4)
    lit, ret = c.res.f['second'], c.res.f['first']
    A = c.glob(('glob', 'ass'))
    s0, s1 = c.o(2), c.a(2)
    v = vs.f['var_']
    b = z3.If(co > 0, co * vs.f['lower_bound_'], co * vs.f['upper_bound_'])
    return [('slack stays negative', s1 < 0), ('literal', z3.And(lit > -2**31, lit < 2**31)),
            ('reason literal is false', z3.Implies(ret, is_false(A, lit))),
            ('reason entails its contribution', z3.Implies(z3.Not(TT(lit)), co * SG(v) - b >= s0 - s1))]


CR = Contract(requires=cr_req, ensures=cr_ens, modifies=[(2,), (0, 'stats_'), ('glob', ('glob', 'ass'))], facts=lambda c: litfacts(c.glob(('glob', 'ass')), c.res.f['second']) + evolves(c))


# vs must be the state of a variable of the solver: alias into var2vs_
def vs_arg(e, st):
    i = fresh('vsi')
    S = st.store.get(('param', 0))
    st.add(z3.And(i >= 0, i < S.f['var2vs_'].n))
    return LV(('param', 0), (('f', 'var2vs_'), ('i', i)))


UNITS = []
for k in KINDS:
    S = std_contracts()
    UNITS.append(Unit('C01', TU_, impl(k) + '::calculate_reason_', CR, setup=setup, contracts=S, eng=PropExec, ovf={32}, folds=[CL],
                      name='C01/%s::calculate_reason_' % k, opts={'thisval': thisval(k), 'args': {0: solver_arg, 3: vs_arg}}))


# ------------------------------------------------------------------ check_state_
def cs_req(c):
    return solver_inv(c.o(0)) + con_inv(con(c), c.o(0))


def cs_inv(L):
    el = L.get(L.this).f['constraint_'].f['elements_']
    k = L.k
    return [('index', z3.And(0 <= k, k <= el.n)), ('lower', L['lower'] == LO(el, k)), ('upper', L['upper'] == UP(el, k)), ('ordered', L['lower'] <= L['upper'])]


CS = Contract(requires=cs_req, ensures=lambda c: exact(c.old, con(c)) + [('ordered', c.old.f['lower_bound_'] <= c.old.f['upper_bound_'])], throws=lambda c: z3.Not(z3.And(*[f for _, f in exact(c.old, con(c))])))


# ------------------------------------------------------------------ propagate
def pr_req(c):
    S, C, T = c.o(0), con(c), c.old
    A = c.oglob(('glob', 'ass'))
    r = solver_inv(S) + con_inv(C, S) + exact(T, C) + [('constraint holds', holds(C, S)), ('literal not false', z3.Not(is_false(A, clit(C))))]
    r += [('f%d' % i, f) for i, f in enumerate(litfacts(A, clit(C)))]
    return r


def pr_loop_facts(L):
    A = L.get(ASS)
    C = L.get(L.this).f['constraint_']
    return [('assignment', z3.And(*true_lit(A))), ('level', A.f['DL'] == L.old(ASS).f['DL']), ('clause literal', z3.And(*litfacts(A, clit(C))))]


def slack0(L):
    """slack at the loop entry"""
    return L.at_entry('slack')


def pr_inv0(L):
    # reason collected for a violated constraint
    C = L.get(L.this).f['constraint_']
    el, k = C.f['elements_'], L.k
    R = L.get(LV(('param', 0))).f['temp_reason_']
    return pr_loop_facts(L) + [('index', z3.And(0 <= k, k <= el.n)), ('slack', L['slack'] < 0),
                               ('reason', z3.Or(CL(R), LIN(el, k) - LO(el, k) >= slack0(L) - L['slack']))]


def pr_inv1(L):
    C = L.get(L.this).f['constraint_']
    return pr_loop_facts(L) + [('active', is_true(L.get(ASS), clit(C))), ('index', z3.And(0 <= L.k, L.k <= C.f['elements_'].n))]


def pr_inv2(L):
    # reason collected for a bound; the variable r of the outer loop is left out
    C = L.get(L.this).f['constraint_']
    el, k = C.f['elements_'], L.k
    R = L.get(LV(('param', 0))).f['temp_reason_']
    r = L.outer_k()
    own = z3.If(k > r, z3.Select(el.el.f['first'], r) * SG(z3.Select(el.el.f['second'], r)) - bnd_lo(z3.Select(el.el.f['first'], r), z3.Select(el.el.f['second'], r)), I(0))
    A = L.get(ASS)
    C = L.get(L.this).f['constraint_']
    return pr_loop_facts(L) + [('index', z3.And(0 <= k, k <= el.n)), ('active', is_true(A, clit(C))), ('slack', L['slack_r'] < 0),
                               ('reason', z3.Or(CL(R), z3.And(TT(clit(C)), LIN(el, k) - LO(el, k) - own >= L.at_entry('slack_r') - L['slack_r']))),
                               ('empty reason', z3.Implies(R.n == 0, z3.Not(CL(R))))]


PR = Contract(requires=pr_req, modifies=[(0, 'stats_'), (0, 'temp_reason_'), ('glob', ('glob', 'ass'))], throws=lambda c: pr_throws(c))

# what the minimize constraint derives depends on the current bound: clauses are
# volatile and bounds are no facts
def vol(C):
    a, u = C['Clingcon::AbstractClauseCreator::add_clause'], C['Clingcon::Solver::update_literal']
    a2 = Contract(requires=lambda c: a.requires(c) + [('deleted after the step', z3.Or(c.o(1) == 2, c.o(1) == 3))], modifies=a.modifies, facts=a.facts, ret='bool')
    u2 = Contract(requires=lambda c: [('no fact', c.o(3) == FREE)], ensures=u.ensures, modifies=u.modifies, facts=u.facts)
    C['Clingcon::AbstractClauseCreator::add_clause'], C['Clingcon::Solver::update_literal'] = a2, u2


def pr_throws(c):
    S, C = c.o(0), con(c)
    if 'lit_' in C.f:
        return None
    b = S.f['minimize_bound_']
    return z3.And(b.f['has'], z3.Or(b.f['val'] < MINV, b.f['val'] > MAXV))


for k in KINDS:
    S = std_contracts()
    if k == 'MinimizeConstraintState':
        vol(S)
    S['Clingcon::' + impl(k).replace('SumConstraintStateImpl', 'SumConstraintStateImpl') + '::calculate_reason_'] = CR
    S['Clingcon::' + impl(k) + '::check_state_'] = CS
    UNITS.append(Unit('C01', TU_, impl(k) + '::propagate', PR, setup=setup, contracts=S, eng=PropExec, ovf={32}, folds=[CL, LIN, LO, UP],
                      loops={('propagate', 0): LoopSpec(pr_inv0), ('propagate', 1): LoopSpec(pr_inv1), ('propagate', 2): LoopSpec(pr_inv2)},
                      name='C01/%s::propagate' % k, opts={'watch': lambda e, st: [clit(e.load(st, LV(('this',))).f['constraint_'])], 'thisval': thisval(k), 'args': {0: solver_arg}}))


for k in KINDS:
    UNITS.append(Unit('C01', TU_, impl(k) + '::check_state_', CS, setup=setup, contracts=std_contracts(), eng=PropExec, ovf={32}, folds=[LO, UP],
                      loops={('check_state_', 0): LoopSpec(cs_inv)}, name='C01/%s::check_state_' % k, opts={'thisval': thisval(k), 'args': {0: solver_arg}}))
