"""Shared semantics of the propagator contracts.

SG: a fixed integer assignment, TT: a fixed truth assignment of solver
literals.  The order-literal table is meaningful for them; a clause may be
added only if it is true under TT (precondition of add_clause)."""
import z3
from spec import Contract, Unit
from engine import *
from execu import Exec

SG = z3.Function('SG', INT, INT)
TT = z3.Function('TT', INT, BOOL)
MAXV = (1 << 30) - 1
MINV = -MAXV
ASS = LV(('glob', 'ass'))
FREE, TRUE, FALSE = 0, 1, 2          # Clingo::TruthValue



def _int(x):
    return isz(x) and (x.sort() == INT or isinstance(x.sort(), z3.ArraySortRef) and x.sort().range() == INT)


CL = Fold('cl', lambda el: [el] if _int(el) else None, lambda l: TT(l), 'or', [INT])


def pairp(el):
    return [el.f['first'], el.f['second']] if isinstance(el, Rec) and el.cls == 'pair' and _int(el.f['first']) and _int(el.f['second']) else None


LIN = Fold('lin', pairp, lambda co, v: co * SG(v), 'sum', [INT, INT])


def litfacts(A, l):
    """instances of the assignment invariants at a literal"""
    AT, FX = A.f['AT'], A.f['FX']
    t, f, x = z3.Select(AT, l), z3.Select(AT, -l), z3.Select(FX, l)
    return [TT(-l) == z3.Not(TT(l)), z3.Not(z3.And(t, f)), x == z3.Select(FX, -l), z3.Implies(x, z3.Or(t, f)),
            z3.Implies(z3.And(x, t), TT(l)), z3.Implies(z3.And(x, f), z3.Not(TT(l)))]


def true_lit(A):
    return [TT(I(1)), z3.Not(TT(I(-1))), z3.Select(A.f['AT'], I(1)), z3.Select(A.f['FX'], I(1)), z3.Select(A.f['FX'], I(-1)), z3.Not(z3.Select(A.f['AT'], I(-1)))]


def is_true(A, l):
    return z3.Select(A.f['AT'], l)


def is_false(A, l):
    return z3.Select(A.f['AT'], -l)


def is_fixed(A, l):
    return z3.Select(A.f['FX'], l)


class PropExec(Exec):
    """Clingo::Assignment as a view of the ghost assignment"""

    def lits(self, args, st, fr):
        return self.ev(args[0], st, fr) if args else [(st, None)]

    def _q(self, args, st, fr, f):
        out = []
        for s, l in self.ev(args[0], st, fr):
            A = self.load(s, ASS)
            s = s.copy()
            for x in litfacts(A, l):
                s.add(x)
            out.append((s, f(A, l)))
        return out

    def m_Assignment_is_true(self, l, v, args, n, st, fr):
        return self._q(args, st, fr, is_true)

    def m_Assignment_is_false(self, l, v, args, n, st, fr):
        return self._q(args, st, fr, is_false)

    def m_Assignment_is_fixed(self, l, v, args, n, st, fr):
        return self._q(args, st, fr, is_fixed)

    def m_Assignment_level(self, l, v, args, n, st, fr):
        out = []
        for s, x in self.ev(args[0], st, fr):
            A = self.load(s, ASS)
            r = z3.Select(A.f['LE'], x)
            out.append((s.assume(r >= 0, r <= A.f['DL']), r))
        return out

    def m_Assignment_truth_value(self, l, v, args, n, st, fr):
        return self._q(args, st, fr, lambda A, l: z3.If(is_true(A, l), I(TRUE), z3.If(is_false(A, l), I(FALSE), I(FREE))))

    def m_Assignment_decision_level(self, l, v, args, n, st, fr):
        return [(st, self.load(st, ASS).f['DL'])]

    def m_Assignment_size(self, l, v, args, n, st, fr):
        r = self.load(st, ASS).f['size']
        return [(st.assume(r >= 0, r < 2**32), r)]

    def m_Assignment_root_level(self, l, v, args, n, st, fr):
        return [(st, self.load(st, ASS).f['RL'])]

    def m_Assignment_is_total(self, l, v, args, n, st, fr):
        return [(st, self.load(st, ASS).f['total'])]

    def m_Assignment_has_conflict(self, l, v, args, n, st, fr):
        return [(st, self.load(st, ASS).f['conflict'])]

    def default_special(self, rt, n):
        return None


def assignment():
    return Rec('Ass', {'AT': fresh('AT', z3.ArraySort(INT, BOOL)), 'FX': fresh('FX', z3.ArraySort(INT, BOOL)), 'LE': fresh('LE', z3.ArraySort(INT, INT)),
                       'DL': fresh('DL'), 'RL': fresh('RL'), 'total': fresh('total', BOOL), 'size': fresh('size'), 'conflict': fresh('conflict', BOOL)})


def put_ass(st):
    A = assignment()
    st.store[('glob', 'ass')] = A
    st.add(A.f['DL'] >= 0)
    for f in true_lit(A):
        st.add(f)
    return A


def evolves(c):
    """the decision level does not change; instances of the invariants at watched literals"""
    A, B = c.oglob(('glob', 'ass')), c.glob(('glob', 'ass'))
    w = getattr(c.e, 'watch', None)
    out = [B.f['DL'] == A.f['DL']] + true_lit(B)
    for l in (w(c.e, c.pre) if w else []):
        out += litfacts(B, l) + [z3.Implies(is_fixed(A, l), is_fixed(B, l)), z3.Implies(is_true(A, l), is_true(B, l)), z3.Implies(is_false(A, l), is_false(B, l))]
    return out


# ------------------------------------------------------------ solver state
def vs_shape(e, name):
    def stack():
        return Vec(fresh(name + '.stk.n'), Rec('pair', {'first': fresh(name + '.stk1', z3.ArraySort(INT, INT)), 'second': fresh(name + '.stk2', z3.ArraySort(INT, INT))}))
    return Rec('Clingcon::VarState', {'var_': fresh(name + '.var'), 'lower_bound_': fresh(name + '.lb'), 'upper_bound_': fresh(name + '.ub'), 'offset_': fresh(name + '.off'),
                                      'lower_bound_stack_': stack(), 'upper_bound_stack_': stack()})


def vec_of(shape, name):
    return Vec(fresh(name + '.n'), map_leaves(shape, lambda x: fresh(name, z3.ArraySort(INT, x.sort()))))


def solver_shape(e, name, extra=None):
    f = {'var2vs_': vec_of(vs_shape(e, 'vs'), 'vs'), 'temp_reason_': vec_of(fresh('l'), 'reason'),
         'stats_': e.shape('Clingcon::SolverStatistics', 'stats'), 'config_': e.shape('Clingcon::SolverConfig', 'cfg'),
         'minimize_bound_': Rec('optional', {'has': fresh('mb.has', BOOL), 'val': fresh('mb')}), 'minimize_level_': fresh('ml')}
    f.update(extra or {})
    return Rec('Clingcon::Solver', f)


def VSF(solver, fld):
    return solver.f['var2vs_'].el.f[fld]


def lbv(S, v):
    return z3.Select(VSF(S, 'lower_bound_'), v)


def ubv(S, v):
    return z3.Select(VSF(S, 'upper_bound_'), v)


def minb(S, v):
    k = S.f['var2vs_'].el.f['lower_bound_stack_']
    return z3.If(z3.Select(k.n, v) == 0, lbv(S, v), z3.Select(z3.Select(k.el.f['second'], v), I(0)))


def maxb(S, v):
    k = S.f['var2vs_'].el.f['upper_bound_stack_']
    return z3.If(z3.Select(k.n, v) == 0, ubv(S, v), z3.Select(z3.Select(k.el.f['second'], v), I(0)))


_v = z3.Int('v!s')


def solver_inv(S):
    """variables are numbered; bounds are ordered and within the allowed range;
    the fixed assignment respects the bounds of level 0"""
    lb, ub = lbv(S, _v), ubv(S, _v)
    k1, k2 = S.f['var2vs_'].el.f['lower_bound_stack_'], S.f['var2vs_'].el.f['upper_bound_stack_']
    inr = z3.And(0 <= _v, _v < S.f['var2vs_'].n)
    return [('var numbering', z3.ForAll([_v], z3.Implies(inr, z3.Select(VSF(S, 'var_'), _v) == _v), patterns=[z3.Select(VSF(S, 'var_'), _v)])),
            ('bounds', z3.ForAll([_v], z3.Implies(inr, z3.And(lb <= ub, minb(S, _v) <= lb, ub <= maxb(S, _v), minb(S, _v) >= MINV, maxb(S, _v) <= MAXV,
                                                              minb(S, _v) <= SG(_v), SG(_v) <= maxb(S, _v))), patterns=[lb, ub, z3.Select(VSF(S, 'var_'), _v)])),
            ('stacks', z3.ForAll([_v], z3.And(z3.Select(k1.n, _v) >= 0, z3.Select(k2.n, _v) >= 0), patterns=[z3.Select(k1.n, _v), z3.Select(k2.n, _v)])),
            ('count', z3.And(S.f['var2vs_'].n >= 0, S.f['var2vs_'].n < 2**31))]


def bound_range(S, v):
    return z3.And(0 <= v, v < S.f['var2vs_'].n)


# ------------------------------------------------------------ callee contracts
def order_lit(l, v, x):
    """l is the literal of v <= x"""
    return TT(l) == (SG(v) <= x)


def litres(c, l):
    A = c.glob(('glob', 'ass'))
    return litfacts(A, l)


def get_literal_ens(c):
    vs, val, l = c.o(1), c.o(2), c.res
    A0, A = c.oglob(('glob', 'ass')), c.glob(('glob', 'ass'))
    v = vs.f['var_']
    return [('meaning', order_lit(l, v, val)), ('negation', TT(-l) == z3.Not(TT(l))),
            ('below the lower bound', z3.Implies(val < vs.f['lower_bound_'], is_false(A, l))),
            ('above the upper bound', z3.Implies(val >= vs.f['upper_bound_'], is_true(A, l))),
            ('nonzero', l != 0), ('range', z3.And(l > -2**31, l < 2**31))]


def std_contracts():
    """contracts of the functions the propagators call"""
    C = {}
    C['Clingcon::Solver::get_literal'] = Contract(ensures=get_literal_ens, modifies=[('glob', ('glob', 'ass'))], facts=lambda c: evolves(c) + litres(c, c.res))

    def upd_req(c):
        vs, val, t = c.o(1), c.o(2), c.o(3)
        v = vs.f['var_']
        return [('fact v<=x entailed', z3.Implies(t == TRUE, SG(v) <= val)), ('fact v>x entailed', z3.Implies(t == FALSE, SG(v) > val))]

    def upd_ens(c):
        vs, val, l = c.o(1), c.o(2), c.res
        return [('meaning', order_lit(l, vs.f['var_'], val)), ('negation', TT(-l) == z3.Not(TT(l))), ('nonzero', l != 0), ('range', z3.And(l > -2**31, l < 2**31))]
    C['Clingcon::Solver::update_literal'] = Contract(requires=upd_req, ensures=upd_ens, modifies=[('glob', ('glob', 'ass'))], facts=lambda c: evolves(c) + litres(c, c.res))
    C['Clingcon::VarState::has_literal'] = Contract(ret='bool')

    def ole(c):     # largest value <= arg with a literal
        r, vs = c.res, c.old
        return [('meaning', z3.Implies(r.f['has'], z3.And(order_lit(r.f['val'].f['first'], vs.f['var_'], r.f['val'].f['second']), r.f['val'].f['second'] <= c.o(0), r.f['val'].f['second'] >= MINV, r.f['val'].f['second'] <= MAXV)))]

    def oge(c):     # smallest value >= arg with a literal
        r, vs = c.res, c.old
        return [('meaning', z3.Implies(r.f['has'], z3.And(order_lit(r.f['val'].f['first'], vs.f['var_'], r.f['val'].f['second']), r.f['val'].f['second'] >= c.o(0), r.f['val'].f['second'] <= MAXV, r.f['val'].f['second'] >= MINV)))]
    olit = 'std::optional<std::pair<int, int>>'
    fl = lambda c: litres(c, c.res.f['val'].f['first']) + [z3.And(c.res.f['val'].f['first'] > -2**31, c.res.f['val'].f['first'] < 2**31, c.res.f['val'].f['first'] != 0)]
    C['Clingcon::VarState::order_lit_le'] = Contract(ensures=ole, ret=olit, facts=fl)
    C['Clingcon::VarState::order_lit_ge'] = Contract(ensures=oge, ret=olit, facts=fl)
    C['Clingcon::AbstractClauseCreator::assignment'] = Contract(res=lambda c, s: Opq('Assignment'))

    def ac_req(c):
        return [('clause holds', CL(c.o(0)) if c.o(0).el is not None else z3.BoolVal(False))]

    def ac_facts(c):
        A0, A = c.oglob(('glob', 'ass')), c.glob(('glob', 'ass'))
        out = evolves(c)
        v = c.o(0)
        if v.el is not None:
            a, b = z3.Select(v.el, I(0)), z3.Select(v.el, I(1))
            # a binary clause that is not conflicting is unit propagated
            for x, y in ((a, b), (b, a)):
                out.append(z3.Implies(z3.And(c.res, v.n == 2, is_false(A0, x), A0.f['DL'] > 0), is_true(A, y)))
            # assigned literals stay assigned
            for x in (a, b):
                for y in (x, -x):
                    out.append(z3.Implies(z3.Select(A0.f['AT'], y), z3.Select(A.f['AT'], y)))
        return out
    C['Clingcon::AbstractClauseCreator::add_clause'] = Contract(requires=ac_req, modifies=[('glob', ('glob', 'ass'))], facts=ac_facts, ret='bool')
    # virtual accessors of the constraint state: the overriders return/set the field
    C['Clingcon::AbstractConstraintState::inactive_level/0'] = Contract(res=lambda c, s: c.old.f['inactive_level_'])
    C['Clingcon::AbstractConstraintState::inactive_level/1'] = Contract(ensures=lambda c: [('set', c.this.f['inactive_level_'] == c.o(0))], modifies=[('this', 'inactive_level_')])
    C['Clingcon::Solver::minimize_bound'] = Contract(res=lambda c, s: c.old.f['minimize_bound_'])
    C['Clingcon::Solver::mark_inactive'] = Contract()
    C['Clingcon::Solver::add_var_watch'] = Contract()
    C['Clingcon::Solver::remove_var_watch'] = Contract()
    for w, t in ((64, 'long'), (32, 'int')):
        lo, hi = int_range(w, True)
        import c13
        C['Clingcon::floordiv<%s>' % t] = c13.floorc(w)
        C['Clingcon::ceildiv<%s>' % t] = c13.ceilc(w)
    return C


SEM_ASSUME = ['the order-literal table is meaningful for the fixed assignment (established by the contracts of C08)',
              'clasp: a binary clause with a false literal is unit propagated when add_clause returns true above level 0',
              'bounds and literals agree: literals of values below the lower bound are false, from the upper bound on true (Solver::propagate)']
