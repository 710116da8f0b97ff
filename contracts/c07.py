"""C07: propagation of nonlinear constraints never removes a solution."""
import z3
from sem import *
import c13

TU_ = 'src/constraints.cc'
NS = 'NonlinearConstraintState'
CF = ('lit_', 'rhs_', 'co_a_', 'var_x_', 'var_y_', 'co_b_', 'var_z_')


class Lemma:
    lemma = True

    def __init__(self, prop, name, gen):
        self.prop, self.name, self.gen, self.fn, self.tu, self.timeout = prop, name, gen, name, None, None


def between(c, l, x, u):
    """a linear function takes its extremes at the ends"""
    return z3.Implies(z3.And(l <= x, x <= u), z3.If(c >= 0, z3.And(c * l <= c * x, c * x <= c * u), z3.And(c * u <= c * x, c * x <= c * l)))


def thisval(e, st):
    return Rec(NS, {'constraint_': Rec('Clingcon::NonlinearConstraint', {k: fresh('c.' + k) for k in CF}), 'inactive_level_': fresh('il'), 'todo_': fresh('todo', BOOL)})


def solver_arg(e, st):
    return solver_shape(e, 's')


def setup(e, st, fd):
    put_ass(st)


def con(c):
    return c.old.f['constraint_']


def con_inv(C, S):
    n = S.f['var2vs_'].n
    inv = lambda v: z3.And(0 <= v, v < n)
    r = lambda x: z3.And(x >= -2**31, x < 2**31)
    l = C.f['lit_']
    return [('variables', z3.And(inv(C.f['var_x_']), inv(C.f['var_y_']), z3.Implies(C.f['co_b_'] != 0, inv(C.f['var_z_'])))),
            ('coefficients', z3.And(C.f['co_a_'] != 0, r(C.f['co_a_']), r(C.f['co_b_']), C.f['co_a_'] > -2**31, C.f['co_b_'] > -2**31, r(C.f['rhs_']))),
            ('literal', z3.And(l != 0, l > -2**31, l < 2**31, TT(-l) == z3.Not(TT(l))))]


def term(C):
    return C.f['co_a_'] * SG(C.f['var_x_']) * SG(C.f['var_y_'])


def lhs(C):
    return term(C) + z3.If(C.f['co_b_'] != 0, C.f['co_b_'] * SG(C.f['var_z_']), 0)


def holds(C):
    return z3.Implies(TT(C.f['lit_']), lhs(C) <= C.f['rhs_'])


def inb(S, v):
    return z3.And(lbv(S, v) <= SG(v), SG(v) <= ubv(S, v))


def within(C, S):
    """the assignment is within the current bounds"""
    return z3.And(inb(S, C.f['var_x_']), inb(S, C.f['var_y_']), z3.Implies(C.f['co_b_'] != 0, inb(S, C.f['var_z_'])))


# ------------------------------------------------------------ get_bound
def gb_req(c):
    out = []
    for k in (1, 2):
        v = c.o(k)
        lb, ub = v.f['lower_bound_'], v.f['upper_bound_']
        out.append(('bounds of %d' % k, z3.And(lb <= ub, lb >= MINV, ub <= MAXV)))
    return [('coefficient', z3.And(c.o(0) > -2**31, c.o(0) < 2**31))] + out


def gb_ens(c):
    a, x, y = c.o(0), c.o(1), c.o(2)
    lx, ux, ly, uy = x.f['lower_bound_'], x.f['upper_bound_'], y.f['lower_bound_'], y.f['upper_bound_']
    X, Y = SG(x.f['var_']), SG(y.f['var_'])
    r = [c.res.f[str(i)] for i in range(6)]
    p = a * X * Y
    return [('smallest value', z3.Implies(z3.And(lx <= X, X <= ux, ly <= Y, Y <= uy), r[4] <= p)),
            ('largest value', z3.Implies(z3.And(lx <= X, X <= ux, ly <= Y, Y <= uy), p <= r[5])),
            ('taken', z3.And(r[4] == a * r[0] * r[2], z3.Or(z3.And(r[0] == lx, r[1] == ux), z3.And(r[0] == ux, r[1] == lx)), z3.Or(z3.And(r[2] == ly, r[3] == uy), z3.And(r[2] == uy, r[3] == ly)))),
            ('range', z3.And(r[4] <= r[5], r[4] >= -2**92, r[5] <= 2**92))]


GB = Contract(requires=gb_req, ensures=gb_ens, ret='std::tuple<nsum_t, nsum_t, nsum_t, nsum_t, nsum_t, nsum_t>')
UNITS = [Unit('C07', TU_, NS + '::get_bound', GB, setup=setup, eng=PropExec, ovf={32, 64, 128}, name='C07/get_bound', opts={'args': {1: lambda e, st: vs_shape(e, 'x'), 2: lambda e, st: vs_shape(e, 'y')}})]


# ------------------------------------------------------------ propagate
def contracts():
    C = std_contracts()
    C['Clingcon::NonlinearConstraintState::get_bound'] = GB
    C['Clingcon::Solver::mark_inactive'] = Contract(requires=lambda c: [('satisfied under the current bounds', z3.Implies(within(c.o(0).f['constraint_'], c.old), lhs(c.o(0).f['constraint_']) <= c.o(0).f['constraint_'].f['rhs_']))])
    for w, t in ((128, 'nsum_t'),):
        for t in ('nsum_t', 'math::wide_integer::int128_t', 'math::wide_integer::uintwide_t<128U, uint32_t, void, true>', 'math::wide_integer::uintwide_t<128, unsigned int, void, true>'):
            C['Clingcon::floordiv<%s>' % t] = c13.floorc(w)
            C['Clingcon::ceildiv<%s>' % t] = c13.ceilc(w)
    return C


def pr_req(c):
    S, C = c.o(0), con(c)
    A = c.oglob(('glob', 'ass'))
    r = solver_inv(S) + con_inv(C, S) + [('constraint holds', holds(C))]
    return r + [('f%d' % i, f) for i, f in enumerate(litfacts(A, C.f['lit_']))]


PR = Contract(requires=pr_req, modifies=[('glob', ('glob', 'ass')), (0, 'temp_reason_')])
UNITS.append(Unit('C07', TU_, NS + '::propagate', PR, setup=setup, contracts=contracts(), eng=PropExec, ovf={32, 64, 128}, folds=[CL], name='C07/propagate', opts={'thisval': thisval, 'args': {0: solver_arg}}))


# ------------------------------------------------------------ check_full
def fixed(S, v):
    return lbv(S, v) == ubv(S, v)


def cf_val(c):
    S, C = c.o(0), con(c)
    return C.f['co_a_'] * lbv(S, C.f['var_x_']) * lbv(S, C.f['var_y_']) + z3.If(C.f['co_b_'] != 0, C.f['co_b_'] * lbv(S, C.f['var_z_']), 0)


CFU = Contract(requires=lambda c: solver_inv(c.o(0)) + con_inv(con(c), c.o(0)), ensures=lambda c: [('within bound', cf_val(c) <= con(c).f['rhs_'])], throws=lambda c: cf_val(c) > con(c).f['rhs_'])
UNITS.append(Unit('C07', TU_, NS + '::check_full', CFU, setup=setup, contracts=contracts(), eng=PropExec, ovf={32, 64, 128}, name='C07/check_full', opts={'thisval': thisval, 'args': {0: solver_arg}}))
