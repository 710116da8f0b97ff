"""C20: threads and solve steps start from the same state."""
import z3
from sem import *
from engine import NONE, Unsupported, Opq, Rec, Vec, MapV, Ref, LV, It, MIt, select
from spec import LoopSpec, Contract, Unit
import c08
from c08 import (TAB, FRESH, MEAN, tab, inv, inv_fact, nvars, fixed0, C8d, ASMOD, ad_setup, kw2, near_axioms, solver_this, fa, added, defs, sel, A1, AA, x_, v_, u_, o_, absz)

TU_ = 'src/solver.cc'
UNITS = []


# ------------------------------------------------------------ bounds of other threads
def bounds_hold(S, n=None):
    return fa([u_], z3.Implies(z3.And(0 <= u_, u_ < (nvars(S) if n is None else n)), z3.And(lbv(S, u_) <= SG(u_), SG(u_) <= ubv(S, u_))), lbv(S, u_), ubv(S, u_), SG(u_))


HO, HS = z3.Bool('bounds_of_other_hold'), z3.Bool('own_bounds_hold')


def in_range(S):
    return fa([u_], z3.Implies(z3.And(0 <= u_, u_ < nvars(S)), z3.And(lbv(S, u_) >= MINV, lbv(S, u_) <= MAXV, ubv(S, u_) >= MINV, ubv(S, u_) <= MAXV)), lbv(S, u_), ubv(S, u_))


def ub_req(c):
    S, O, T, A = c.old, c.o(1), tab(c, True), c.oglob(('glob', 'ass'))
    return solver_inv(S) + inv(S, T, c.oglob(FRESH)) + inv_fact(S, T) + [('at level 0', A.f['DL'] == 0), fixed0(A), ('variables', z3.And(0 <= nvars(O), nvars(O) <= nvars(S), nvars(S) < 2**31)),
                                                                         ('bounds', z3.And(in_range(S), in_range(O)))]


def sound(L_added, L_defs, T):
    return z3.Implies(z3.And(HO, L_defs), z3.And(L_added, MEAN(T)))


def ub_inv(L):
    g = lambda r: L.st.store[r]
    S, O = L.get(L.this), L.p(1)
    T = g(TAB).f['T'].el.el
    A = g(('glob', 'ass'))
    its = [v for v in L.all(lambda v: isinstance(v, It)) if not v.rev]
    k = L.k
    out = inv(S, T, g(FRESH), mean=False) + inv_fact(S, T) + solver_inv(S)
    return out + [('index', z3.And(0 <= k, k <= nvars(O), L['it'].i == k)), ('at level 0', A.f['DL'] == 0), fixed0(A), ('true', z3.And(*true_lit(A))), ('fresh grows', g(FRESH) >= L.old(LV(FRESH))),
                  ('only bounds of the other', sound(g(('glob', 'added')), g(('glob', 'defs')), T)),
                  ('bounds so far', z3.Implies(z3.And(HS, g(('glob', 'added')), MEAN(T)), bounds_hold(O, k)))]


CB = dict(C8d)
CB['Clingcon::Solver::check/2'] = Contract(requires=lambda c: [('bounds of the other are adopted', z3.Implies(z3.And(HS, c.oglob(('glob', 'added')), MEAN(tab(c, True))), bounds_hold(OTHER[0])))], ret='bool')
OTHER = []


def other_arg(e, st):
    s = solver_shape(e, 'other', {})
    OTHER[:] = [s]
    return s


def ub_ens(c):
    return [('only bounds of the other', sound(added(c), defs(c), tab(c)))]


UNITS.append(Unit('C20', TU_, 'Clingcon::Solver::update_bounds', Contract(requires=lambda c: ub_req(c), ensures=ub_ens, modifies=ASMOD + [('glob', ('glob', 'defs'))]), name='C20/Solver::update_bounds',
                  contracts=CB, folds=[CL], opts={'thisval': solver_this, 'args': {1: other_arg}}, loops={('Solver::update_bounds', 0): LoopSpec(inv=ub_inv)},
                  **dict(kw2, assume=lambda c: near_axioms() + [z3.Implies(HO, bounds_hold(c.o(1))), z3.Implies(HS, bounds_hold(c.old))])))


# ------------------------------------------------------------ a new solve step
def up_this(e, st):
    s = solver_this(e, st)
    s.f.update(max_static_var_=fresh('maxstatic'), minimize_level_=fresh('ml'), minimize_bound_=Rec('optional', {'has': z3.Bool('mb.has'), 'val': fresh('mb')}))
    return s


def up_req(c):
    S = c.old
    return solver_inv(S) + inv(S, tab(c, True), c.oglob(FRESH)) + [('variables', nvars(S) < 2**31), ('largest literal', z3.And(S.f['max_static_var_'] >= 0, S.f['max_static_var_'] < 2**31))]


def dropped(T0, x, v, mx, k=None):
    t = sel(sel(T0, x), v)
    return z3.And(absz(t) > mx, absz(t) > 1) if k is None else z3.And(absz(t) > mx, absz(t) > 1, absz(t) <= k)


def kept(T0, T, mx, k=None):
    t = sel(sel(T, x_), v_)
    return fa([x_, v_], t == z3.If(dropped(T0, x_, v_, mx, k), 0, sel(sel(T0, x_), v_)), t)


def up_inv(L):
    g = lambda r: L.st.store[r]
    S = L.get(L.this)
    T, T0 = g(TAB).f['T'].el.el, L.old(LV(TAB)).f['T'].el.el
    k, mx = L.k, S.f['max_static_var_']
    prev = sel(c08.ent(S)['prev_'], o_)
    return inv(S, T, g(FRESH), mean=False) + [('index', z3.And(0 <= k, k <= S.f['litmap_'].n, L['offset'] == k, S.f['litmap_'].n == L.old(L.this).f['litmap_'].n)), ('literals of the step are gone', kept(T0, T, mx, k)),
                                              ('entries of the step are gone', fa([o_], z3.Implies(z3.And(0 <= o_, o_ < k, prev != 0), o_ + 1 <= mx), prev))]


def up_ens(c):
    S, S2, T, T2 = c.old, c.this, tab(c, True), tab(c)
    mx = S.f['max_static_var_']
    prev = sel(c08.ent(S2)['prev_'], o_)
    return inv(S2, T2, c.glob(FRESH), mean=False) + [
        ('no objective', z3.And(z3.Not(S2.f['minimize_bound_'].f['has']), S2.f['minimize_level_'] == 0)), ('exactly the literals of the step are gone', kept(T, T2, mx)), ('literals keep their meaning', MEAN(T2)),
        ('no entry refers to a literal of the step', fa([o_], z3.Implies(z3.And(0 <= o_, o_ < S2.f['litmap_'].n, prev != 0), o_ + 1 <= mx), prev))]


UNITS.append(Unit('C20', TU_, 'Clingcon::Solver::update', Contract(requires=up_req, ensures=up_ens, modifies=[('glob', TAB), ('this', 'litmap_'), ('this', 'minimize_bound_'), ('this', 'minimize_level_')]), nparams=0, name='C20/Solver::update',
                  contracts=c08.C8a, opts={'thisval': up_this}, loops={('Solver::update', 0): LoopSpec(inv=up_inv)}, **c08.kw))


# ------------------------------------------------------------ copying the state
import c10
A2 = c10.A2
CONS, LITC = z3.Function('CONS', INT, INT), z3.Function('LITC', INT, INT)      # constraint of a state, literal of a constraint
ALLOC = ('glob', 'alloc')                                                     # objects with smaller numbers exist already
LVLF = ('undo_lower_offset_', 'undo_upper_offset_', 'inactive_offset_', 'removed_var_watches_offset_')
p_ = z3.Int('p!20')


def copy_contracts():
    C = std_contracts()
    C['Clingcon::AbstractConstraintState::constraint'] = Contract(res=lambda c, s: Rec('Obj', {'id': CONS(c.old.f['id'])}))
    return C


def lsolver(nm):
    def mk(e, st):
        return solver_shape(e, nm, dict(c10.extra(), levels_=c10.levels(), c2cs_=cmap(nm), lit2cs_=mmap(nm), split_last_=fresh('sl'), trail_offset_=fresh('to'), minimize_level_=fresh('ml'),
                                        minimize_bound_=Rec('optional', {'has': fresh('mb.has', BOOL), 'val': fresh('mb')}), litmap_=c08.extra()['litmap_'], factmap_=c08.extra()['factmap_']))
    return mk


def cmap(nm):
    return MapV(fresh(nm + '.cdom', z3.ArraySort(INT, BOOL)), Rec('Ptr', {'id': fresh(nm + '.cst', A1)}), Opq('ptr'))


def mmap(nm):
    return Rec('MMap', {'v': Vec(fresh(nm + '.mn'), Rec('pair', {'first': fresh(nm + '.ml', A1), 'second': Rec('Ptr', {'id': fresh(nm + '.mc', A1)})}))})


def OWN(S, i):
    return sel(S.f['c2cs_'].val.f['id'], CONS(i))


def same_vec(a, b):
    x = a.el if isz(a.el) else None
    return z3.And(a.n == b.n, fa([p_], z3.Implies(z3.And(0 <= p_, p_ < b.n), sel(a.el, p_) == sel(b.el, p_)), sel(a.el, p_)))


def own(S, a, b, n=None):
    """pointers to the states of the copy for the same constraints"""
    return fa([p_], z3.Implies(z3.And(0 <= p_, p_ < (a.n if n is None else n)), sel(a.el.f['id'], p_) == OWN(S, sel(b.el.f['id'], p_))), sel(a.el.f['id'], p_))


def own_rem(S, a, b, n=None):
    f, g = a.el.f, b.el.f
    return fa([p_], z3.Implies(z3.And(0 <= p_, p_ < (a.n if n is None else n)), z3.And(sel(f['0'], p_) == sel(g['0'], p_), sel(f['1'], p_) == sel(g['1'], p_), sel(f['2'].f['id'], p_) == OWN(S, sel(g['2'].f['id'], p_)))), sel(f['2'].f['id'], p_))


def wsel(S, u, p):
    k = S.f['var_watches_'].el
    return sel(k.n, u), sel(sel(k.el.f['first'], u), p), sel(sel(k.el.f['second'].f['id'], u), p)


def own_watch(S, M, upto, to=None, row=None):
    """the rows below 'upto' are mapped"""
    n, f, s = wsel(S, u_, p_)
    nm, fm, sm = wsel(M, u_, p_)
    done = u_ < upto if row is None else z3.Or(u_ < upto, z3.And(u_ == upto, p_ < row))
    return [('watch lists', fa([u_], n == nm, n)), ('watched coefficients', z3.And(S.f['var_watches_'].n == M.f['var_watches_'].n, fa([u_, p_], f == fm, f))),
            ('watching states', fa([u_, p_], z3.Implies(z3.And(0 <= u_, u_ < M.f['var_watches_'].n, 0 <= p_, p_ < nm), s == z3.If(done, OWN(S, sm), sm)), s))]


def cs_ens_(S, M):
    a, b = [select(X.f['levels_'].el, I(0)) for X in (S, M)]
    out = [('offset ' + k, a.f[k] == b.f[k]) for k in LVLF]
    out += [('same ' + k, same_vec(S.f[k], M.f[k])) for k in ('undo_lower_', 'undo_upper_', 'ldiff_', 'udiff_', 'in_ldiff_', 'in_udiff_')]
    out += [('own ' + k, z3.And(S.f[k].n == M.f[k].n, own(S, S.f[k], M.f[k]))) for k in ('inactive_', 'todo_')]
    R, RM = S.f['removed_var_watches_'], M.f['removed_var_watches_']
    return out + [('own removed watches', z3.And(R.n == RM.n, own_rem(S, R, RM)))] + own_watch(S, M, M.f['var_watches_'].n)


def cl_inv(which):
    def inv(L):
        S, M, k = L.p(0), L.p(1), L.k
        if which in ('inactive_', 'todo_'):
            return [('index', z3.And(0 <= k, k <= M.f[which].n)), ('copied', z3.And(S.f[which].n == k, own(S, S.f[which], M.f[which])))]
        if which == 'removed':
            a, b = S.f['removed_var_watches_'], M.f['removed_var_watches_']
            return [('index', z3.And(0 <= k, k <= b.n)), ('copied', z3.And(a.n == k, own_rem(S, a, b)))]
        if which == 'rows':
            return [('index', z3.And(0 <= k, k <= M.f['var_watches_'].n))] + own_watch(S, M, k)
        o = L.outer_k()
        return [('index', z3.And(0 <= k, k <= sel(M.f['var_watches_'].el.n, o)))] + own_watch(S, M, o, row=k)
    return inv


def lv_req(S, M):
    return [('levels', z3.And(S.f['levels_'].n == 1, M.f['levels_'].n == 1)), ('sizes', z3.And(*[M.f[k].n >= 0 for k in ('undo_lower_', 'undo_upper_', 'ldiff_', 'udiff_', 'in_ldiff_', 'in_udiff_', 'inactive_', 'todo_', 'var_watches_', 'removed_var_watches_')])),
            ('watch lists', fa([u_], sel(M.f['var_watches_'].el.n, u_) >= 0, sel(M.f['var_watches_'].el.n, u_)))] + known(S, M)


def known(S, M):
    """the copy has a state for the constraints of all states the master refers to"""
    D = S.f['c2cs_'].dom
    out = []
    for k in ('inactive_', 'todo_'):
        x = sel(M.f[k].el.f['id'], p_)
        out.append(('states in ' + k, fa([p_], z3.Implies(z3.And(0 <= p_, p_ < M.f[k].n), sel(D, CONS(x))), x)))
    R = M.f['removed_var_watches_']
    x = sel(R.el.f['2'].f['id'], p_)
    out.append(('removed states', fa([p_], z3.Implies(z3.And(0 <= p_, p_ < R.n), sel(D, CONS(x))), x)))
    n, f, x = wsel(M, u_, p_)
    return out + [('watching states', fa([u_, p_], z3.Implies(z3.And(0 <= u_, u_ < M.f['var_watches_'].n, 0 <= p_, p_ < n), sel(D, CONS(x))), x))]


MODL = ['levels_', 'undo_lower_', 'undo_upper_', 'ldiff_', 'udiff_', 'in_ldiff_', 'in_udiff_', 'inactive_', 'todo_', 'var_watches_', 'removed_var_watches_']
LCS = Contract(requires=lambda c: lv_req(c.o(0), c.o(1)), ensures=lambda c: cs_ens_(c.a(0), c.o(1)) + [('one level', z3.And(c.a(0).f['levels_'].n == 1, select(c.a(0).f['levels_'].el, I(0)).f['level_'] == select(c.o(0).f['levels_'].el, I(0)).f['level_']))],
               modifies=[(0, k) for k in MODL])
UNITS.append(Unit('C20', TU_, 'Clingcon::Level::copy_state', LCS, name='C20/Level::copy_state', contracts=copy_contracts(), eng=PropExec, opts={'args': {0: lsolver('s'), 1: lsolver('m')}},
                  loops={('copy_state', 0): LoopSpec(cl_inv('inactive_')), ('copy_state', 1): LoopSpec(cl_inv('rows')), ('copy_state', 2): LoopSpec(cl_inv('cols')), ('copy_state', 3): LoopSpec(cl_inv('removed')), ('copy_state', 4): LoopSpec(cl_inv('todo_'))}))


# the whole state
POS = ('glob', 'pos')


def mm_emplace(x, l, v, args, n, st, fr):
    """the order of elements is of no interest; their places are recorded"""
    outs = []
    for s, vs in x.evlist(args, st, fr):
        w = x.load(s, l).f['v']
        i = vs[1].f['id']
        el = Rec('pair', {'first': z3.Store(w.el.f['first'], w.n, vs[0]), 'second': Rec('Ptr', {'id': z3.Store(w.el.f['second'].f['id'], w.n, i)})})
        s = x.save(s, l, Rec('MMap', {'v': Vec(w.n + 1, el)}))
        s.store[POS] = z3.Store(s.store[POS], i, w.n)
        outs.append((s, None))
    return outs


class CExec(PropExec):
    def m_MMap_clear(self, l, v, args, n, st, fr):
        return [(self.save(st, l, Rec('MMap', {'v': Vec(I(0), v.f['v'].el)})), None)]

    def m_MMap_emplace(self, *a):
        return mm_emplace(self, *a)

    def m_MMap_reserve(self, l, v, args, n, st, fr):
        return [(st, None)]


def whole_contracts():
    C = copy_contracts()

    def cp_facts(c):
        return [c.res.f['id'] == c.oglob(ALLOC), c.glob(ALLOC) == c.oglob(ALLOC) + 1, CONS(c.res.f['id']) == CONS(c.old.f['id'])]
    C['Clingcon::AbstractConstraintState::copy'] = Contract(res=lambda c, s: Rec('Ptr', {'id': fresh('newstate')}), modifies=[('glob', ALLOC)], facts=cp_facts)
    C['Clingcon::AbstractConstraint::literal'] = Contract(res=lambda c, s: LITC(c.old.f['id']))
    C['Clingcon::Level::copy_state'] = LCS
    return C


def c_setup(e, st, fd):
    st.store[ALLOC] = fresh('alloc')
    st.store[POS] = fresh('pos', A1)


k_ = z3.Int('k!20')


def registered(S, M, alloc0, pos, done=None):
    """states of the copy: one for every constraint of the master (visited so far), new, found under the literal of the constraint, once"""
    D, V = M.f['c2cs_'].dom, S.f['c2cs_'].val.f['id']
    d = sel(D, k_) if done is None else z3.And(sel(D, k_), done(k_))
    D2, L_ = S.f['c2cs_'].dom, S.f['lit2cs_'].f['v']
    x, l2, s2 = sel(V, k_), sel(L_.el.f['first'], p_), sel(L_.el.f['second'].f['id'], p_)
    P = sel(pos, x)
    return [('same constraints', fa([k_], sel(D2, k_) == d, sel(D2, k_))), ('new states of the constraints', fa([k_], z3.Implies(sel(D2, k_), z3.And(x >= alloc0, CONS(x) == k_)), x)),
            ('found by literal', fa([k_], z3.Implies(sel(D2, k_), z3.And(0 <= P, P < L_.n, sel(L_.el.f['first'], P) == LITC(k_), sel(L_.el.f['second'].f['id'], P) == x)), x)),
            ('only states of constraints', fa([p_], z3.Implies(z3.And(0 <= p_, p_ < L_.n), z3.And(sel(D2, CONS(s2)), sel(V, CONS(s2)) == s2, sel(pos, s2) == p_)), s2)), ('literals', L_.n >= 0)]


def sc_req(c):
    S, M = c.old, c.o(0)
    D, V = M.f['c2cs_'].dom, M.f['c2cs_'].val.f['id']
    X = Rec('X', dict(S.f, c2cs_=M.f['c2cs_']))
    x = sel(V, k_)
    return lv_req(X, M) + [('states of the master', fa([k_], z3.Implies(sel(D, k_), z3.And(x < c.oglob(ALLOC), CONS(x) == k_)), x))]


def veqs(a, b):
    from engine import veq
    return veq(a, b)


PLAIN = ['split_last_', 'trail_offset_', 'minimize_level_', 'minimize_bound_', 'var2vs_', 'factmap_', 'litmap_']


def sc_ens(c):
    S, M = c.this, c.o(0)
    return [('same ' + k, veqs(S.f[k], M.f[k])) for k in PLAIN] + registered(S, M, c.oglob(ALLOC), c.glob(POS)) + cs_ens_(S, M)


def sc_inv(L):
    S, M = L.get(L.this), L.p(0)
    it = L.mit()
    a0 = L.old(LV(ALLOC))
    done = lambda k: z3.Or(it.end, k < it.k)
    return registered(S, M, a0, L.st.store[POS], done) + [('iterator', z3.Or(it.end, sel(M.f['c2cs_'].dom, it.k))), ('new', z3.And(L.st.store[ALLOC] >= a0, fa([k_], z3.Implies(sel(S.f['c2cs_'].dom, k_), sel(S.f['c2cs_'].val.f['id'], k_) < L.st.store[ALLOC]), sel(S.f['c2cs_'].val.f['id'], k_))))]


UNITS.append(Unit('C20', TU_, 'Clingcon::Solver::copy_state', Contract(requires=sc_req, ensures=sc_ens, modifies=[('this', k) for k in MODL + PLAIN + ['c2cs_', 'lit2cs_']] + [('glob', ALLOC), ('glob', POS)]), name='C20/Solver::copy_state',
                  contracts=whole_contracts(), eng=CExec, setup=c_setup, opts={'thisval': lsolver('s'), 'args': {0: lsolver('m')}}, loops={('Solver::copy_state', 0): LoopSpec(sc_inv)}))


# ------------------------------------------------------------ copies of constraint states
TC = 'src/constraints.cc'


class NewExec(PropExec):
    def construct(self, t, b, ta, cs, n, st, fr):
        if b == 'unique_ptr' and len(cs) == 1:
            return [(s, Rec('unique_ptr', {'p': v, 'null': z3.BoolVal(False)}) if isinstance(v, Ref) else v) for s, v in self.ev(cs[0], st, fr)]
        return PropExec.construct(self, t, b, ta, cs, n, st, fr)


def same_fields(a, b):
    """every data member of the copy equals that of the original (the constraint is referenced)"""
    return [('same ' + k, veqs(a.f[k], b.f[k])) for k in b.f if k != 'constraint_']


def copy_unit(cls, shape, nm):
    UNITS.append(Unit('C20', TC, '%s::%s' % (cls, cls), Contract(ensures=lambda c: same_fields(c.this, c.o(0)), modifies=[('this',)]), nparams=1, sig=r'State const &|const .*State &', name='C20/copy constructor of ' + nm, eng=NewExec, opts={'thisval': shape, 'args': {0: shape}}))


def copied(c):
    r = c.res
    return same_fields(c.e.load(c.post, r.f['p'].lv), c.old) + [('a new object', z3.And(z3.Not(r.f['null']), z3.BoolVal(r.f['p'].lv.root[0] == 'new')))]


import c01, c05, c06
NS = 'NonlinearConstraintState'


def this_n(e, st):
    return Rec(NS, {'constraint_': Rec('Clingcon::NonlinearConstraint', {'lit_': fresh('clit')}), 'inactive_level_': fresh('il'), 'todo_': fresh('todo', BOOL)})


for _c, _s in (('SumConstraintState', c01.thisval('SumConstraintState')), ('MinimizeConstraintState', c01.thisval('MinimizeConstraintState')), (c05.DN, c05.this_d), (c06.DS, c06.this_j)):
    copy_unit(_c, _s, _c)
for _c, _s in ((c05.DN, c05.this_d), (c06.DS, c06.this_j), (NS, this_n)):
    UNITS.append(Unit('C20', TC, _c + '::copy', Contract(ensures=copied), name='C20/%s::copy' % _c, eng=NewExec, opts={'thisval': _s}))
for _k in c01.KINDS:
    UNITS.append(Unit('C20', TC, c01.impl(_k) + '::copy', Contract(ensures=copied), name='C20/%s::copy' % _k, eng=NewExec, opts={'thisval': c01.thisval(_k)}))


# ------------------------------------------------------------ starting a solve step
TP = 'src/propagator.cc'
G = ('glob', 'step')
NT = z3.Int('threads')


class IExec(PropExec):
    def construct(self, t, b, ta, cs, n, st, fr):
        if b in ('InitClauseCreator', 'ConstraintBuilder', 'Timer'):
            return [(st, Rec(b, {'k': I(0)}))]
        if b == 'unique_ptr' and len(cs) == 1:
            return self.ev(cs[0], st, fr)
        return None

    def m_Vec_emplace_back(self, l, v, args, n, st, fr):
        if not (isinstance(v.el, Rec) and v.el.cls == 'Clingcon::Solver'):
            return PropExec.m_Vec_emplace_back(self, l, v, args, n, st, fr)
        outs = []
        for s, vs in self.evlist(args, st, fr):
            v = self.load(s, l)
            # references to the master are kept while solvers are added
            self.obl(s, z3.Or(v.n == 0, v.n < s.store[G].f['cap']), 'solvers-do-not-move', n, 'bounds')
            s = s.copy()
            x = Rec('Clingcon::Solver', {'upd': z3.BoolVal(True), 'st': fresh('newst'), 'id': v.n, 'bd': z3.BoolVal(True), 'cfg': vs[0].f['i'], 'max_static_var_': I(0)})
            s = self.save(s, l, self.push(s, v, x))
            outs.append((s, Ref(l.sub(('i', v.n)))))
        return outs

    def m_PropagateInit_number_of_threads(self, l, v, args, n, st, fr):
        return [(st, NT)]

    def m_PropagateInit_set_check_mode(self, l, v, args, n, st, fr):
        return [(st, NONE)]

    def m_PropagateInit_theory_atoms(self, l, v, args, n, st, fr):
        return [(st, Rec('TheoryAtoms', {'k': I(0)}))]

    def m_Vec_reserve(self, l, v, args, n, st, fr):
        outs = []
        for s, vs in self.evlist(args, st, fr):
            s = s.copy()
            if isinstance(v.el, Rec) and v.el.cls == 'Clingcon::Solver':
                g = s.store[G]
                s.store[G] = Rec('G', dict(g.f, cap=z3.If(vs[0] > g.f['cap'], vs[0], g.f['cap'])))
            outs.append((s, NONE))
        return outs


def step_setup(e, st, fd):
    put_ass(st)
    st.store[G] = Rec('G', {'watched': z3.K(INT, z3.BoolVal(False)), 'committed': z3.BoolVal(False), 'cap': I(0), 'removed': z3.BoolVal(False)})


def svec():
    return Vec(fresh('sv.n'), Rec('Clingcon::Solver', {'upd': fresh('sv.upd', c10.AB), 'st': fresh('sv.st', A1), 'id': fresh('sv.id', A1), 'bd': fresh('sv.bd', c10.AB), 'cfg': fresh('sv.cfg', A1), 'max_static_var_': fresh('sv.max', A1)}))


def step_this(e, st):
    return Rec('Clingcon::Propagator', {'solvers_': svec(), 'constraints_': c10.ptrvec('cons'), 'config_': Rec('Clingcon::Config', {'check_state': fresh('chk', BOOL)}), 'stats_step_': Rec('Statistics', {'k': I(0)}),
                                        'minimize_': Rec('unique_ptr', {'p': Ref(LV(('glob', 'mincon'))), 'null': fresh('nomin', BOOL)})})


def each(V, f, frm=0, upto=None):
    return fa([u_], z3.Implies(z3.And(frm <= u_, u_ < (V.n if upto is None else upto)), f(lambda k: sel(V.el.f[k], u_))), sel(V.el.f['id'], u_), sel(V.el.f['st'], u_))


def numbered(V):
    return ('numbers', z3.And(V.n >= 0, V.n < 2**16, each(V, lambda g: z3.And(g('id') == u_, g('max_static_var_') < 2**31))))


def g_(c):
    return c.oglob(G).f


def sv(c, old=True):
    return (c.old if old else c.this).f['solvers_']


def only_master(keep):
    """the other solvers are left alone, and the master keeps everything but its state"""
    def ens(c):
        a, b = sv(c), sv(c, False)
        return [('solvers', z3.And(z3.Or(b.n == a.n, z3.And(a.n == 0, b.n == 1)) if not keep else b.n == a.n, fa([u_], z3.Implies(u_ >= 1, sel(b.el.f['st'], u_) == sel(a.el.f['st'], u_)), sel(b.el.f['st'], u_)),
                                  *[b.el.f[k] == a.el.f[k] for k in ('id', 'cfg', 'max_static_var_')])),
                ('updated', fa([u_], z3.Implies(z3.And(0 <= u_, u_ < b.n), z3.Implies(z3.Or(u_ >= a.n, sel(a.el.f['upd'], u_)), sel(b.el.f['upd'], u_))), sel(b.el.f['upd'], u_))), ('gathered', b.el.f['bd'] == a.el.f['bd']), numbered(b)]
    return ens


def step_contracts():
    C = std_contracts()
    P, S, K = 'Clingcon::Propagator::', 'Clingcon::Solver::', 'Clingcon::InitClauseCreator::'
    C[P + 'remove_minimize'] = Contract(res=lambda c, s: Rec('unique_ptr', {'p': Ref(LV(('glob', 'mincon'))), 'null': fresh('nomin', BOOL)}), modifies=[('glob', G, 'removed')], ensures=lambda c: [('removed', c.glob(G).f['removed'])])
    C[S + 'update/0'] = Contract(modifies=[('this', 'upd')], ensures=lambda c: [('updated', c.this.f['upd'])])

    def parse_eff(c, s):
        T = s.store[('this',)]
        a, b = T.f['solvers_'], svec()
        s.add(z3.Or(b.n == a.n, z3.And(a.n == 0, b.n == 1)))
        s.add(fa([u_], z3.Implies(z3.And(0 <= u_, u_ < b.n), z3.And(sel(b.el.f['id'], u_) == u_, sel(b.el.f['max_static_var_'], u_) < 2**31, sel(b.el.f['upd'], u_), *[z3.Implies(u_ < a.n, sel(b.el.f[k], u_) == sel(a.el.f[k], u_)) for k in ('bd', 'cfg')])), sel(b.el.f['id'], u_)))
        s.add(fa([u_], z3.Implies(u_ >= 1, sel(b.el.f['st'], u_) == sel(a.el.f['st'], u_)), sel(b.el.f['st'], u_)))
        n = fresh('ncons')
        s.add(n >= 0)
        s.store[('this',)] = Rec(T.cls, dict(T.f, solvers_=b, constraints_=Vec(n, Rec('Ptr', {'id': fresh('cons', A1)}))))

    def whole(c):
        return c.pre.store[('this',)]
    C['Clingcon::parse'] = C['parse'] = Contract(requires=lambda c: [('all solvers dropped the literals of the last step', each(whole(c).f['solvers_'], lambda g: g('upd'))), ('the objective of the last step is removed', c.oglob(G).f['removed'])], effect=parse_eff, ret='bool')
    C[S + 'update_bounds'] = Contract(requires=lambda c: [('into the master', c.old.f['id'] == 0)], modifies=[('this', 'st'), (1, 'bd')], ensures=lambda c: [('gathered', c.a(1).f['bd'])], ret='bool')
    C[P + 'simplify_'] = Contract(requires=lambda c: [('bounds of all solvers are gathered', each(sv(c), lambda g: g('bd'), frm=1)), ('there is a master', sv(c).n >= 1)], ensures=only_master(True), modifies=[('this', 'solvers_')], ret='bool')
    C[P + 'translate_'] = Contract(requires=lambda c: [('there is a master', sv(c).n >= 1)], ensures=lambda c: only_master(True)(c) + [('constraints', c.this.f['constraints_'].n >= 0)], modifies=[('this', 'solvers_'), ('this', 'constraints_'), ('this', 'minimize_')], ret='bool')
    C['ConstraintBuilder::prepare_minimize'] = C['Clingcon::ConstraintBuilder::prepare_minimize'] = Contract(res=lambda c, s: Rec('unique_ptr', {'p': Ref(LV(('glob', 'mincon'))), 'null': fresh('nomin', BOOL)}))
    C['Clingcon::AbstractConstraint::literal'] = Contract(res=lambda c, s: LITC(c.old.f['id']))
    C[K + 'add_watch'] = C['Clingcon::AbstractClauseCreator::add_watch'] = Contract(modifies=[('glob', G, 'watched')], ensures=lambda c: [('watched', c.glob(G).f['watched'] == z3.Store(c.oglob(G).f['watched'], c.o(0), True))])
    C[K + 'commit'] = C['Clingcon::AbstractClauseCreator::commit'] = Contract(ret='bool', modifies=[('glob', G, 'committed')], ensures=lambda c: [('ok', c.glob(G).f['committed'] == c.res)])
    C['Clingcon::Config::solver_config'] = Contract(res=lambda c, s: Rec('SolverConfig', {'i': c.o(0)}))
    C['Clingcon::Statistics::solver_stats'] = Contract(res=lambda c, s: Rec('SolverStatistics', {'i': c.o(0)}))
    C[K + 'assignment'] = Contract(res=lambda c, s: Rec('Assignment', {'x': I(0)}))
    C[S + 'shrink_to_fit'] = Contract()
    C[S + 'copy_state'] = Contract(requires=lambda c: [('from the master', c.o(0).f['id'] == 0), ('after the clauses are in', c.oglob(G).f['committed'])], modifies=[('this', 'st')], ensures=lambda c: [('same state', c.this.f['st'] == c.o(0).f['st'])])
    C[P + 'has_minimize'] = Contract(ret='bool')
    C[P + 'update_minimize'] = Contract()
    return C


def init_req(c):
    V = sv(c)
    return [numbered(V), ('threads', z3.And(NT >= 1, NT < 2**15)), ('solvers of other threads come with a master', V.n >= 0), ('constraints', c.old.f['constraints_'].n >= 0)]


def init_ens(c):
    V, g = sv(c, False), c.glob(G).f
    K = c.this.f['constraints_']
    st0 = sel(V.el.f['st'], 0)
    x = sel(K.el.f['id'], p_)
    A = c.glob(('glob', 'ass'))
    ok = g['committed']
    mx = sel(V.el.f['max_static_var_'], u_)
    return [('one solver per thread', z3.Implies(ok, V.n == NT)), ('all solvers have the state of the master', z3.Implies(ok, each(V, lambda h: h('st') == st0))),
            ('constraints are watched', z3.Implies(ok, fa([p_], z3.Implies(z3.And(0 <= p_, p_ < K.n), sel(g['watched'], LITC(x))), x))),
            ('literals from here on belong to the step', z3.Implies(ok, fa([u_], z3.Implies(z3.And(0 <= u_, u_ < V.n), mx == A.f['size']), mx)))]


def init_loops():
    T = lambda L: L.get(L.this)
    V = lambda L: T(L).f['solvers_']

    def upd(L):
        return [('index', z3.And(0 <= L.k, L.k <= V(L).n)), ('updated', fa([u_], z3.Implies(z3.And(0 <= u_, u_ < L.k), sel(V(L).el.f['upd'], u_)), sel(V(L).el.f['upd'], u_)))]

    def gat(L):
        k = L['it'].i
        return [('index', z3.And(1 <= k, k <= V(L).n)), ('gathered', fa([u_], z3.Implies(z3.And(1 <= u_, u_ < k), sel(V(L).el.f['bd'], u_)), sel(V(L).el.f['bd'], u_)))]

    def wat(L):
        K = T(L).f['constraints_']
        x = sel(K.el.f['id'], p_)
        return [('index', z3.And(0 <= L.k, L.k <= K.n)), ('watched', fa([p_], z3.Implies(z3.And(0 <= p_, p_ < L.k), sel(L.st.store[G].f['watched'], LITC(x))), x))]

    def new(L):
        n0 = L.old(L.this).f['solvers_'].n
        return [('index', z3.And(L['i'] == V(L).n, V(L).n >= n0, z3.Or(V(L).n <= NT, V(L).n == n0))), numbered(V(L))]

    def pop(L):
        n0 = L.old(L.this).f['solvers_'].n
        return [('index', z3.And(V(L).n <= n0, V(L).n >= NT)), numbered(V(L))]

    def cop(L):
        k = L['it'].i
        st = V(L).el.f['st']
        return [('index', z3.And(1 <= k, k <= V(L).n)), ('copied', fa([u_], z3.Implies(z3.And(0 <= u_, u_ < k), sel(st, u_) == sel(st, 0)), sel(st, u_)))]

    def mar(L):
        A, m = L.st.store[('glob', 'ass')], V(L).el.f['max_static_var_']
        return [('index', z3.And(0 <= L.k, L.k <= V(L).n)), ('marked', fa([u_], z3.Implies(z3.And(0 <= u_, u_ < L.k), sel(m, u_) == A.f['size']), sel(m, u_)))]
    return {('init', i): LoopSpec(f) for i, f in enumerate((upd, gat, wat, new, pop, cop, mar))}


UNITS.append(Unit('C20', TP, 'Clingcon::Propagator::init', Contract(requires=init_req, ensures=init_ens, modifies=[('this',), ('glob', G)]), name='C20/Propagator::init', contracts=step_contracts(), eng=IExec, setup=step_setup,
                  opts={'thisval': step_this, 'args': {0: lambda e, st: Rec('PropagateInit', {'k': I(0)})}}, loops=init_loops()))


# ------------------------------------------------------------ calls of a thread reach the state of that thread, and only it
import c15
TLOG = ('glob', 'tlog')
WHO = z3.Function('WHO20', INT, INT)


def thr_this(e, st):
    return Rec('Clingcon::Propagator', {'solvers_': Vec(fresh('sv.n'), Rec('TSolver', {'num': fresh('sv', A1)})), 'config_': Opq('config')})


def thr_setup(e, st, fd):
    put_ass(st)
    st.store[TLOG] = Rec('L', {'calls': I(0), 'who': I(-1), 'arg': I(-1), 'res': fresh('tr')})


def thr_log(arg=None):
    def f(c, s):
        s.store[TLOG] = Rec('L', dict(s.store[TLOG].f, calls=s.store[TLOG].f['calls'] + 1, who=c.old.f['num'], arg=c.o(arg) if arg is not None else I(-1)))
    return f


def thr_contracts():
    C = std_contracts()
    C['Clingcon::Solver::statistics'] = Contract(res=lambda c, s: Opq('stats'))
    C['Clingcon::Solver::propagate'] = Contract(ret='bool', effect=thr_log())
    C['Clingcon::Solver::undo'] = Contract(effect=thr_log())

    def dec(c, s):
        thr_log(1)(c, s)
        s.store[TLOG] = Rec('L', dict(s.store[TLOG].f, res=c.res))
    C['Clingcon::Solver::decide'] = Contract(ret='int', effect=dec)
    return C


def thr_req(tid):
    def f(c):
        S, t = c.old.f['solvers_'], tid(c)
        return [('thread', z3.And(0 <= t, t < S.n)), ('numbered', fa([u_], z3.Implies(z3.And(0 <= u_, u_ < S.n), sel(S.el.f['num'], u_) == u_), sel(S.el.f['num'], u_)))]
    return f


def thr_ens(tid, extra=lambda c, g: []):
    def f(c):
        g, S = c.glob(TLOG), c.this.f['solvers_']
        return [('once', g.f['calls'] == 1), ('the state of the calling thread', g.f['who'] == tid(c))] + extra(c, g)
    return f


own = lambda c: c15.TID
for fn, nm, tid, ex, n in (('Propagator::propagate', 'propagate', own, lambda c, g: [], 2), ('Propagator::undo', 'undo', own, lambda c, g: [], 2),
                           ('Propagator::decide', 'decide', lambda c: c.o(0), lambda c, g: [('the decision is the one of the solver, the fallback is passed on', z3.And(c.res == g.f['res'], g.f['arg'] == c.o(2)))], 3)):
    UNITS.append(Unit('C20', TP, 'Clingcon::' + fn, Contract(requires=thr_req(tid), ensures=thr_ens(tid, ex), modifies=[('glob', TLOG)]), nparams=n, name='C20/Propagator::' + nm, contracts=thr_contracts(), eng=c15.ChkExec, setup=thr_setup,
                      opts={'thisval': thr_this, 'args': {0: lambda e, st: Rec('PropagateControl', {'k': I(0)})} if n == 2 else {}}))
