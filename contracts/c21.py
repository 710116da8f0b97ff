"""C21: clauses, weight constraints and objective literals reach the solver faithfully."""
import z3
from sem import *
from engine import NONE, Opq, Unsupported, Rec, Vec, Ref, LV, leaves, select
from execu import It, Exec

TU_ = 'src/propagator.cc'
i_, k_ = z3.Ints('i!21 k!21')
LOG, WLOG, MLOG, INIT = ('glob', 'log'), ('glob', 'wlog'), ('glob', 'mlog'), ('glob', 'init')
ARR = z3.ArraySort(INT, INT)


def wl(el):
    """weighted literals"""
    return [el.f['lit'], el.f['w']] if isinstance(el, Rec) and el.cls == 'WeightedLiteral' else None


WSUM = Fold('wsum', wl, lambda l, w: z3.If(TT(l), w, 0), 'sum', [INT, INT])


def wcp(el):
    if isinstance(el, Rec) and el.cls == 'tuple' and len(el.f) == 4 and isinstance(el.f['1'], Vec):
        v = el.f['1']
        return [el.f['0'], v.n, v.el.f['lit'], v.el.f['w'], el.f['2'], el.f['3']]
    return None


def atmost(l, s, b, t):
    """meaning of `l == (sum <= b)`: both directions, l -> sum <= b only (t > 0), or sum <= b -> l only (t < 0)"""
    return z3.And(z3.Implies(z3.And(t >= 0, TT(l)), s <= b), z3.Implies(z3.And(t <= 0, s <= b), TT(l)))


def atleast(l, s, b, t):
    """clingo: `l == (sum >= b)` with implication types"""
    return z3.And(z3.Implies(z3.And(t >= 0, TT(l)), s >= b), z3.Implies(z3.And(t <= 0, s >= b), TT(l)))


WCM = Fold('wcm', wcp, lambda l, n, la, wa, b, t: atmost(l, WSUM.fn(la, wa, n), b, t), 'and', [INT, INT, ARR, ARR, INT, INT])


def mp(el):
    return [el.f['0'], el.f['1'], el.f['2']] if isinstance(el, Rec) and el.cls == 'tuple' and len(el.f) == 3 and all(isz(x) for x in el.f.values()) else None


WM = z3.Function('WM', INT, INT, INT, INT)      # arbitrary weight of an objective literal: multisets
MS = Fold('ms21', mp, lambda l, w, p: WM(l, w, p), 'sum', [INT, INT, INT])


def wlit(nm):
    return Rec('WeightedLiteral', {'lit': fresh(nm + '.l', ARR), 'w': fresh(nm + '.w', ARR)})


class CExec(PropExec):
    def shape(self, t, name, depth=0):
        if t.split('::')[-1] == 'WeightedLiteral':
            return Rec('WeightedLiteral', {'lit': fresh(name + '.l'), 'w': fresh(name + '.w')})
        return super().shape(t, name, depth)

    def m_WeightedLiteral_literal(self, l, v, args, n, st, fr):
        return [(st, v.f['lit'])]

    def m_WeightedLiteral_weight(self, l, v, args, n, st, fr):
        return [(st.assume(v.f['w'] >= -2**31, v.f['w'] < 2**31), v.f['w'])]

    # -- the solver during initialisation
    def m_PropagateInit_assignment(self, l, v, args, n, st, fr):
        return [(st, Opq('Assignment'))]

    def m_PropagateInit_add_clause(self, l, v, args, n, st, fr):
        outs = []
        for s, vs in self.evlist(args[:1], st, fr):
            s = s.copy()
            c, g = vs[0], s.store[LOG]
            self.obl(s, z3.Not(g.f['failed']), 'no clause after a conflict', n, 'requires')
            el = fresh('log', ARR)
            s.add(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < g.f['n']), z3.Select(el, i_) == z3.Select(g.f['el'], i_)), patterns=[z3.Select(el, i_)]))
            s.add(z3.ForAll([i_], z3.Implies(z3.And(g.f['n'] <= i_, i_ < g.f['n'] + c.n), z3.Select(el, i_) == z3.Select(c.el, i_ - g.f['n'])), patterns=[z3.Select(el, i_)]))
            s.add(z3.Select(el, g.f['n'] + c.n) == 0)
            r = fresh('added', BOOL)
            s.store[LOG] = Rec('Log', {'n': g.f['n'] + c.n + 1, 'el': el, 'failed': z3.Not(r)})
            outs.append((s, r))
        return outs

    def m_PropagateInit_add_weight_constraint(self, l, v, args, n, st, fr):
        outs = []
        for s, (lit, ws, b, t, *rest) in self.evlist(args[:4], st, fr):
            s = s.copy()
            g, A = s.store[WLOG], s.store[ASS.root if hasattr(ASS, 'root') else ('glob', 'ass')]
            self.obl(s, z3.Not(z3.Or(g.f['failed'], s.store[LOG].f['failed'])), 'no constraint after a conflict', n, 'requires')
            mn, mx = RMIN(ws), RMAX(ws)
            # the solver enforces both directions of constraints that are decided or whose literal is assigned
            self.obl(s, z3.And(z3.Implies(t < 0, z3.And(mx >= b, z3.Not(is_true(A, lit)))), z3.Implies(t > 0, z3.And(mn < b, z3.Not(is_false(A, lit))))), 'no direction that was not asked for', n, 'requires')
            r = fresh('added', BOOL)
            for f in litfacts(A, lit):
                s.add(f)
            s.store[WLOG] = Rec('WLog', {'mean': z3.And(g.f['mean'], atleast(lit, WSUM(ws), b, t)), 'failed': z3.Not(r)})
            outs.append((s, r))
        return outs

    def m_PropagateInit_add_minimize(self, l, v, args, n, st, fr):
        outs = []
        for s, (lit, w, p) in self.evlist(args[:3], st, fr):
            s = s.copy()
            g = s.store[MLOG]
            s.store[MLOG] = Rec('MLog', {'sum': g.f['sum'] + WM(lit, w, p)})
            outs.append((s, NONE))
        return outs

    def m_PropagateInit_propagate(self, l, v, args, n, st, fr):
        s = st.copy()
        g = s.store[INIT]
        T = self.load(s, LV(('this',)))
        self.obl(s, z3.And(T.f['clauses_'].n == 0, T.f['weight_constraints_'].n == 0, T.f['minimize_'].n == 0, z3.Not(s.store[LOG].f['failed'])), 'everything pending was handed over', n, 'requires')
        s.store[INIT] = Rec('Init', {'lits': g.f['lits'], 'prop': g.f['prop'] + 1})
        return [(s, fresh('propagated', BOOL))]

    def m_PropagateInit_add_literal(self, l, v, args, n, st, fr):
        s = st.copy()
        g = s.store[INIT]
        r = fresh('newlit')
        s.add(z3.And(r > 0, r < 2**31))
        s.store[INIT] = Rec('Init', {'lits': r, 'prop': g.f['prop']})
        return [(s, r)]


_rmin, _rmax = z3.Function('RMIN', ARR, ARR, INT, INT), z3.Function('RMAX', ARR, ARR, INT, INT)


def RMIN(v):
    return _rmin(v.el.f['lit'], v.el.f['w'], v.n)


def RMAX(v):
    return _rmax(v.el.f['lit'], v.el.f['w'], v.n)


def this(e, st):
    cl = Vec(fresh('cl.n'), fresh('cl', ARR))
    wn = fresh('wc.n')
    AA = z3.ArraySort(INT, ARR)
    w = Vec(wn, Rec('tuple', {'0': fresh('wc.l', ARR), '1': Vec(fresh('wc.k', ARR), Rec('WeightedLiteral', {'lit': fresh('wc.ll', AA), 'w': fresh('wc.lw', AA)})), '2': fresh('wc.b', ARR), '3': fresh('wc.t', ARR)}))
    m = Vec(fresh('m.n'), Rec('tuple', {str(i): fresh('m%d' % i, ARR) for i in range(3)}))
    st.add(z3.And(cl.n >= 0, wn >= 0, m.n >= 0))
    return Rec('Clingcon::InitClauseCreator', {'clauses_': cl, 'weight_constraints_': w, 'minimize_': m, 'state_': fresh('state'), 'stats_': e.shape('Clingcon::Statistics', 'stats'), 'init_': Opq('PropagateInit')})


def setup(e, st, fd):
    A = put_ass(st)
    l = z3.Int('l!21')
    # while preprocessing only literals that hold in all solutions are assigned
    st.add(z3.ForAll([l], z3.Implies(z3.And(l != 0, z3.Select(A.f['AT'], l)), z3.And(TT(l), z3.Not(TT(-l)))), patterns=[z3.Select(A.f['AT'], l)]))
    st.add(z3.ForAll([l], z3.Implies(l != 0, TT(-l) == z3.Not(TT(l))), patterns=[TT(-l)]))
    st.store[LOG] = Rec('Log', {'n': I(0), 'el': fresh('log0', ARR), 'failed': z3.BoolVal(False)})
    st.store[WLOG] = Rec('WLog', {'mean': z3.BoolVal(True), 'failed': z3.BoolVal(False)})
    st.store[MLOG] = Rec('MLog', {'sum': I(0)})
    st.store[INIT] = Rec('Init', {'lits': I(0), 'prop': I(0)})


def wc_inv(T):
    """pending clauses are terminated; pending constraints are well-formed"""
    c, w = T.f['clauses_'], T.f['weight_constraints_']
    l = z3.Select(w.el.f['0'], k_)
    k, t, b = z3.Select(w.el.f['1'].n, k_), z3.Select(w.el.f['3'], k_), z3.Select(w.el.f['2'], k_)
    return [('terminated', z3.Or(c.n == 0, z3.Select(c.el, c.n - 1) == 0)),
            ('constraints', z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < w.n), z3.And(k >= 0, t >= -1, t <= 1, b >= -2**31, b < 2**31 - 1, l > -2**31, l < 2**31, l != 0)), patterns=[k, t, b, l]))]


# ------------------------------------------------------------ add_clause
def ac_ens(c):
    v, a, b = c.o(0), c.old.f['clauses_'], c.this.f['clauses_']
    q = z3.Int('q!ac')
    return [('terminated', z3.And(z3.Select(b.el, b.n - 1) == 0, b.n == a.n + v.n + 1)), ('accepted', c.res),
            ('earlier clauses stay', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < a.n), z3.Select(b.el, q) == z3.Select(a.el, q)), patterns=[z3.Select(b.el, q)])),
            ('the clause is recorded', z3.ForAll([q], z3.Implies(z3.And(a.n <= q, q < a.n + v.n), z3.Select(b.el, q) == z3.Select(v.el, q - a.n)), patterns=[z3.Select(b.el, q)]))]


def ac_inv(L):
    a, b, v = L.old(L.this).f['clauses_'], L.get(L.this).f['clauses_'], L.vec
    q = z3.Int('q!ac')
    return [('index', z3.And(0 <= L.k, L.k <= v.n, b.n == a.n + L.k)),
            ('earlier', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < a.n), z3.Select(b.el, q) == z3.Select(a.el, q)), patterns=[z3.Select(b.el, q)])),
            ('copied', z3.ForAll([q], z3.Implies(z3.And(a.n <= q, q < b.n), z3.Select(b.el, q) == z3.Select(v.el, q - a.n)), patterns=[z3.Select(b.el, q)]))]


def span(e, st):
    n = fresh('span.n')
    st.add(n >= 0)
    return Vec(n, fresh('span', ARR))


UNITS = []
UNITS.append(Unit('C21', TU_, 'InitClauseCreator::add_clause', Contract(ensures=ac_ens, modifies=[('this', 'clauses_'), ('this', 'stats_')]), eng=CExec, setup=setup, name='C21/InitClauseCreator::add_clause', loops={('add_clause', 0): LoopSpec(ac_inv)},
                  opts={'thisval': this, 'args': {0: span}}))


# ------------------------------------------------------------ commit
def pre(k, old):
    """the solver has received exactly the first k numbers of the pending clauses"""
    def f(g):
        q = z3.Int('q!cm')
        return [('handed over in order', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k), z3.Select(g.f['el'], q) == z3.Select(old.el, q)), patterns=[z3.Select(g.f['el'], q)])), ('length', g.f['n'] == k)]
    return f


def cm_ens(c):
    a = c.old
    g, w, m, T = c.glob(LOG), c.glob(WLOG), c.glob(MLOG), c.this
    ok = c.res
    out = [(x, z3.Implies(ok, f)) for x, f in pre(a.f['clauses_'].n, a.f['clauses_'])(g)]
    out += [('failure is passed on', ok == z3.Not(z3.Or(g.f['failed'], w.f['failed']))),
            ('constraints keep their meaning', z3.Implies(ok, w.f['mean'] == WCM(a.f['weight_constraints_']))),
            ('objective literals', z3.Implies(ok, m.f['sum'] == MS(a.f['minimize_']))),
            ('nothing is handed over twice', z3.Implies(ok, z3.And(T.f['clauses_'].n == 0, T.f['weight_constraints_'].n == 0, T.f['minimize_'].n == 0)))]
    return out


def cm_inv0(L):
    T, g = L.get(L.this), L.get(LV(LOG))
    c, k = T.f['clauses_'], L.it_
    return []


def cl_it(L, nm):
    return L[nm].i


def cm0(L):
    T, g = L.get(L.this), L.get(LV(LOG))
    c, k = T.f['clauses_'], cl_it(L, 'it')
    return [('position', z3.And(0 <= k, k <= c.n)), ('at a clause start', z3.Or(k == 0, z3.Select(c.el, k - 1) == 0)), ('no conflict', z3.Not(g.f['failed']))] + pre(k, c)(g)


def cm1(L):
    c, k, b = L.get(L.this).f['clauses_'], cl_it(L, 'it'), cl_it(L, 'ib')
    q = z3.Int('q!c1')
    return [('position', z3.And(b <= k, k < c.n)), ('inside the clause', z3.ForAll([q], z3.Implies(z3.And(b <= q, q < k), z3.Select(c.el, q) != 0), patterns=[z3.Select(c.el, q)]))]


def cm2(L):
    w = L.get(L.this).f['weight_constraints_']
    return [('index', z3.And(0 <= L.k, L.k <= w.n)), ('no conflict', z3.Not(z3.Or(L.get(LV(WLOG)).f['failed'], L.get(LV(LOG)).f['failed']))), ('meaning so far', L.get(LV(WLOG)).f['mean'] == WCM(w, L.k))]


def cm3(L):
    m = L.get(L.this).f['minimize_']
    return [('index', z3.And(0 <= L.k, L.k <= m.n)), ('literals so far', L.get(LV(MLOG)).f['sum'] == MS(m, L.k))]


def rg_res(c, s):
    return Rec('pair', {'first': RMIN(c.o(0)), 'second': RMAX(c.o(0))})


RG = Contract(res=rg_res, ensures=lambda c: [('bounds', z3.And(c.res.f['first'] <= WSUM(c.o(0)), WSUM(c.o(0)) <= c.res.f['second']))])
CMMOD = [('this', 'clauses_'), ('this', 'weight_constraints_'), ('this', 'minimize_'), ('glob', LOG), ('glob', WLOG), ('glob', MLOG)]
CM = Contract(requires=lambda c: wc_inv(c.old), ensures=cm_ens, modifies=CMMOD)
UNITS.append(Unit('C21', TU_, 'InitClauseCreator::commit', CM, eng=CExec, setup=setup, folds=[WSUM, WCM, MS], contracts={'Clingcon::InitClauseCreator::range_': RG}, name='C21/InitClauseCreator::commit',
                  loops={('commit', 0): LoopSpec(cm0), ('commit', 1): LoopSpec(cm1), ('commit', 2): LoopSpec(cm2), ('commit', 3): LoopSpec(cm3)}, opts={'thisval': this, 'foldall': True}, ovf={32}))


# ------------------------------------------------------------ propagate
def pg_ens(c):
    g = c.glob(INIT)
    ok = z3.Not(z3.Or(c.glob(LOG).f['failed'], c.glob(WLOG).f['failed']))
    return [('propagated once unless in conflict', g.f['prop'] == z3.If(ok, I(1), I(0))), ('failure is passed on', z3.Implies(z3.Not(ok), z3.Not(c.res)))]


UNITS.append(Unit('C21', TU_, 'InitClauseCreator::propagate', Contract(requires=lambda c: wc_inv(c.old), ensures=pg_ens, modifies=CMMOD + [('glob', INIT)]), eng=CExec, setup=setup, folds=[WSUM, WCM, MS], contracts={'Clingcon::InitClauseCreator::commit': CM},
                  name='C21/InitClauseCreator::propagate', opts={'thisval': this, 'foldall': True}))


# ------------------------------------------------------------ recording weight constraints and objective literals
def aw_ens(c):
    l, ws, b, t = c.o(0), c.o(1), c.o(2), c.o(3)
    a, n = c.old.f['weight_constraints_'], c.this.f['weight_constraints_']
    return [('accepted', c.res), ('the constraint is recorded with its meaning', WCM(n) == z3.And(WCM(a), atmost(l, WSUM(ws), b, t)))]


def wspan(e, st):
    n = fresh('ws.n')
    st.add(n >= 0)
    return Vec(n, wlit('ws'))


UNITS.append(Unit('C21', TU_, 'InitClauseCreator::add_weight_constraint', Contract(requires=lambda c: wc_inv(c.old) + [('implication type', z3.And(c.o(3) >= -1, c.o(3) <= 1)), ('bound', c.o(2) < 2**31 - 1), ('literal', z3.And(c.o(0) != 0, c.o(0) > -2**31))], ensures=lambda c: aw_ens(c) + wc_inv(c.this), modifies=[('this', 'weight_constraints_'), ('this', 'stats_')]), eng=CExec, setup=setup, folds=[WSUM, WCM],
                  name='C21/InitClauseCreator::add_weight_constraint', opts={'thisval': this, 'foldall': True, 'args': {1: wspan}}))
UNITS.append(Unit('C21', TU_, 'InitClauseCreator::add_minimize', Contract(ensures=lambda c: [('recorded', MS(c.this.f['minimize_']) == MS(c.old.f['minimize_']) + WM(c.o(0), c.o(1), c.o(2)))], modifies=[('this', 'minimize_')]), eng=CExec, setup=setup, folds=[MS],
                  name='C21/InitClauseCreator::add_minimize', opts={'thisval': this, 'foldall': True}))
UNITS.append(Unit('C21', TU_, 'InitClauseCreator::add_literal', Contract(ensures=lambda c: [('the new literal of the solver', c.res == c.glob(INIT).f['lits'])], modifies=[('this', 'stats_'), ('glob', INIT)]), eng=CExec, setup=setup,
                  name='C21/InitClauseCreator::add_literal', opts={'thisval': this}))


# ------------------------------------------------------------ range_: the sum lies between the computed bounds
def rg_ens(c):
    return [('bounds', z3.And(c.res.f['first'] <= WSUM(c.o(0)), WSUM(c.o(0)) <= c.res.f['second']))]


def rg0(L):
    v, k, r = L.p(0), L['it'].i, L['ret']
    return [('position', z3.And(0 <= k, k <= v.n, L['ie'].i == v.n)), ('bounds so far', z3.And(r.f['first'] <= WSUM(v, k), WSUM(v, k) <= r.f['second'])), ('same sum', WSUM(v) == WSUM(L.p0(0)))]


def rg1(L):
    v, k, r, x = L.p(0), L['it'].i, L['ret'], L['var']
    k0 = L.at_entry('it').i
    return [('position', z3.And(k0 <= k, k <= v.n)), ('group', WSUM(v, k) == WSUM(v, k0) + z3.If(TT(x), L['pos'], L['neg'])), ('variable', z3.And(x >= 0, x < 2**31))]


def rg_arg(e, st):
    v = wspan(e, st)
    l = z3.Select(v.el.f['lit'], k_)
    st.add(z3.ForAll([k_], z3.And(l > -2**31, l < 2**31, l != 0), patterns=[l]))
    return v


def rg_sort(a, b):
    l = z3.Select(b.el.f['lit'], k_)
    return [z3.ForAll([k_], z3.And(l > -2**31, l < 2**31, l != 0), patterns=[l])]


UNITS.append(Unit('C21', TU_, 'InitClauseCreator::range_', Contract(ensures=rg_ens), eng=CExec, setup=setup, folds=[WSUM], name='C21/InitClauseCreator::range_', ovf={32}, hooks={'sort': rg_sort},
                  loops={('range_', 0): LoopSpec(rg0), ('range_', 1): LoopSpec(rg1)}, opts={'thisval': this, 'args': {0: rg_arg}}, skip_frame=True))


# ------------------------------------------------------------ clauses added during search
class KExec(PropExec):
    def m_PropagateControl_add_clause(self, l, v, args, n, st, fr):
        outs = []
        for s, vs in self.evlist(args[:2], st, fr):
            s = s.copy()
            g = s.store[LOG]
            r = fresh('added', BOOL)
            s.store[LOG] = Rec('Log', {'n': g.f['n'] + 1, 'cl': vs[0], 'type': vs[1], 'ok': r, 'prop': g.f['prop'], 'pok': g.f['pok']})
            outs.append((s, r))
        return outs

    def m_PropagateControl_propagate(self, l, v, args, n, st, fr):
        s = st.copy()
        g = s.store[LOG]
        self.obl(s, g.f['ok'], 'no propagation after a conflict', n, 'requires')
        r = fresh('prop', BOOL)
        s.store[LOG] = Rec('Log', dict(g.f, prop=g.f['prop'] + 1, pok=r))
        return [(s, r)]


def ctl_setup(e, st, fd):
    st.store[LOG] = Rec('Log', {'n': I(0), 'cl': Vec(I(0), fresh('nocl', ARR)), 'type': fresh('ty'), 'ok': z3.BoolVal(True), 'prop': I(0), 'pok': z3.BoolVal(False)})


def kc_ens(c):
    g, v = c.glob(LOG), c.o(0)
    w = g.f['cl']
    return [('added once, as given', z3.And(g.f['n'] == 1, w.n == v.n, w.el == v.el, g.f['type'] == c.o(1))), ('propagated afterwards', g.f['prop'] == z3.If(g.f['ok'], I(1), I(0))),
            ('failure is passed on', c.res == z3.And(g.f['ok'], g.f['pok']))]


UNITS.append(Unit('C21', TU_, 'ControlClauseCreator::add_clause', Contract(ensures=kc_ens, modifies=[('glob', LOG)]), eng=KExec, setup=ctl_setup, name='C21/ControlClauseCreator::add_clause',
                  opts={'thisval': lambda e, st: Rec('Clingcon::ControlClauseCreator', {'control_': Opq('PropagateControl'), 'stats_': e.shape('Clingcon::SolverStatistics', 'stats')}), 'args': {0: span}}))
