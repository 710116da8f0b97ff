"""C02: every reported assignment satisfies all active constraints."""
from c01 import *
import c01
VAL = Fold('val', pairp, lambda co, v: co * z3.Select(LBA, v), 'sum', [INT, INT])


def assigned(el, n):
    v = z3.Select(el.el.f['second'], j_)
    return z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < n), z3.Select(LBA, v) == z3.Select(UBA, v)), patterns=[v])


def cf_req(c):
    S, C, T = c.o(0), con(c), c.old
    el = C.f['elements_']
    il = T.f['inactive_level_']
    return solver_inv(S) + con_inv(C, S) + [('active: exact', z3.Implies(il == 0, z3.And(*[f for _, f in exact(T, C)]))),
                                            ('inactive: upper bound', z3.Implies(il != 0, UP(el) <= T.f['upper_bound_']))]


def has_rhs(c):
    return z3.BoolVal(True) if 'lit_' in con(c).f else c.o(0).f['minimize_bound_'].f['has']


def cf_inv(L):
    el = L.get(L.this).f['constraint_'].f['elements_']
    return [('index', z3.And(0 <= L.k, L.k <= el.n)), ('assigned', assigned(el, L.k)), ('value', z3.And(L['lhs'] == VAL(el, L.k), VAL(el, L.k) == UP(el, L.k), VAL(el, L.k) == LO(el, L.k)))]


def bad(c):
    C = con(c)
    el = C.f['elements_']
    b = z3.And(has_rhs(c), z3.Or(z3.Not(assigned(el, el.n)), VAL(el) > rhs_of(C, c.o(0))))
    t = pr_throws_(c)
    return b if t is None else z3.Or(b, t)


def pr_throws_(c):
    b = c.o(0).f['minimize_bound_']
    return None if 'lit_' in con(c).f else z3.And(b.f['has'], z3.Or(b.f['val'] < MINV, b.f['val'] > MAXV))


CF = Contract(requires=cf_req, ensures=lambda c: [('all variables assigned', z3.Implies(has_rhs(c), assigned(con(c).f['elements_'], con(c).f['elements_'].n))),
                                                  ('sum within bound', z3.Implies(has_rhs(c), VAL(con(c).f['elements_']) <= rhs_of(con(c), c.o(0))))], throws=bad)
UNITS = []
for k in KINDS:
    UNITS.append(Unit('C02', TU_, impl(k) + '::check_full', CF, setup=setup, contracts=std_contracts(), eng=PropExec, ovf={32}, folds=[LO, UP, VAL], loops={('check_full', 0): LoopSpec(cf_inv)},
                      name='C02/%s::check_full' % k, opts={'thisval': thisval(k), 'args': {0: solver_arg}}))


# ------------------------------------------------------------ the check of total assignments
SPLIT, CHECKED = ('glob', 'split'), ('glob', 'checked')      # a literal was requested; states checked so far
u2 = z3.Int('u!2')
A1 = z3.ArraySort(INT, INT)


def full_this(e, st):
    S = solver_shape(e, 'S', {'split_last_': fresh('sl'), 'lit2cs_': Vec(fresh('mn'), Rec('pair', {'first': fresh('ml', A1), 'second': Rec('Ptr', {'id': fresh('mc', A1)})}))})
    return S


def full_setup(e, st, fd):
    put_ass(st)
    st.store[SPLIT] = z3.BoolVal(False)
    st.store[CHECKED] = z3.K(INT, z3.BoolVal(False))


def closed(S, i):
    return lbv(S, i) == ubv(S, i)


def closed_range(S, a, b):
    return z3.ForAll([u2], z3.Implies(z3.And(a <= u2, u2 < b), closed(S, u2)), patterns=[lbv(S, u2)])


def accepted(S, A, ch, n):
    l, s = z3.Select(S.f['lit2cs_'].el.f['first'], u2), z3.Select(S.f['lit2cs_'].el.f['second'].f['id'], u2)
    return z3.ForAll([u2], z3.Implies(z3.And(0 <= u2, u2 < n, z3.Select(A.f['AT'], l)), z3.Select(ch, s)), patterns=[l, s])


def full_req(c):
    S = c.old
    return [('bounds', z3.ForAll([u2], z3.Implies(z3.And(0 <= u2, u2 < S.f['var2vs_'].n), z3.And(lbv(S, u2) <= ubv(S, u2), lbv(S, u2) >= MINV, ubv(S, u2) <= MAXV)), patterns=[lbv(S, u2), ubv(S, u2)])),
            ('count', z3.And(S.f['var2vs_'].n >= 0, S.f['var2vs_'].n < 2**31, S.f['lit2cs_'].n >= 0)), ('last split variable', z3.And(0 <= S.f['split_last_'], S.f['split_last_'] <= S.f['var2vs_'].n))]


def full_ens(c):
    S, S2, n, sp = c.old, c.this, c.old.f['var2vs_'].n, c.glob(SPLIT)
    return [('the search only ends with values for all variables', z3.Or(sp, closed_range(S, 0, n))),
            ('and with all constraints with true literals satisfied', z3.Implies(c.o(1), z3.Or(sp, accepted(S, c.glob(('glob', 'ass')), c.glob(CHECKED), S.f['lit2cs_'].n)))),
            ('last split variable', z3.And(0 <= S2.f['split_last_'], S2.f['split_last_'] <= n))]


def split_req(c):
    vs, v = c.o(1), c.o(2)
    return [('both sides of the split are possible', z3.And(vs.f['lower_bound_'] <= v, v < vs.f['upper_bound_']))]


def full_contracts():
    C = std_contracts()
    C['Clingcon::Solver::get_literal'] = Contract(requires=split_req, ret='int', effect=lambda c, s: s.store.__setitem__(SPLIT, z3.BoolVal(True)))
    C['Clingcon::AbstractConstraintState::check_full'] = Contract(effect=lambda c, s: s.store.__setitem__(CHECKED, z3.Store(s.store[CHECKED], c.old.f['id'], z3.BoolVal(True))), throws=lambda c: None)
    return C


def same_solver(L):
    S, S0 = L.get(L.this), L.old(L.this)
    return S, S0


def inv_all(L):
    S, S0 = same_solver(L)
    return [('index', z3.And(0 <= L.k, L.k <= S.f['var2vs_'].n)), ('split so far', z3.Or(L.st.store[SPLIT], closed_range(S, 0, L.k))), ('result', L['res'] == L.st.store[SPLIT])]


def inv_first(L):
    S, S0 = same_solver(L)
    i = L['it'].i
    return [('index', z3.And(S0.f['split_last_'] <= i, i <= S.f['var2vs_'].n)), ('closed so far', closed_range(S, S0.f['split_last_'], i)), ('nothing split', z3.Not(L.st.store[SPLIT]))]


def inv_second(L):
    S, S0 = same_solver(L)
    i = L['it'].i
    return [('index', z3.And(0 <= i, i <= S0.f['split_last_'])), ('closed so far', closed_range(S, 0, i)), ('nothing split', z3.Not(L.st.store[SPLIT]))]


def inv_cons(L):
    S, S0 = same_solver(L)
    return [('index', z3.And(0 <= L.k, L.k <= S.f['lit2cs_'].n)), ('accepted so far', accepted(S, L.st.store[('glob', 'ass')], L.st.store[CHECKED], L.k))]


FULL = Contract(requires=full_req, ensures=full_ens, modifies=[('this', 'split_last_'), ('glob', SPLIT), ('glob', CHECKED)], throws=lambda c: None)
UNITS.append(Unit('C02', 'src/solver.cc', 'Solver::check_full', FULL, setup=full_setup, contracts=full_contracts(), eng=PropExec, name='C02/Solver::check_full', opts={'thisval': full_this},
                  loops={('check_full', 0): LoopSpec(inv_all), ('check_full', 1): LoopSpec(inv_first), ('check_full', 2): LoopSpec(inv_second), ('check_full', 3): LoopSpec(inv_cons)}))


# the entry point called by clasp: propagate, and check total assignments (see C15)
import copy
import c15
CHK = copy.copy(c15.CHK)
CHK.prop, CHK.name = 'C02', 'C02/Propagator::check'
UNITS.append(CHK)


# --------------------------------------------------------- registering a constraint: state created once, found under the literal, attached and queued
import c10
import c20
A1 = z3.ArraySort(INT, INT)
CID = z3.Int('CID2')
DONE = ('glob', 'done')

from engine import NULL, It
from c08 import fa


class RExec(c20.CExec):
    """objects by identity, unique pointers that may be null (identity 0)"""
    def construct(self, t, b, ta, cs, n, st, fr):
        if b == 'unique_ptr' and len(cs) == 1:
            return [(s, Rec('Ptr', {'id': I(0)}) if vs[0] is NULL else vs[0]) for s, vs in self.evlist(cs, st, fr)]
        return super().construct(t, b, ta, cs, n, st, fr)

    def null_test(self, p, s, n):
        if isinstance(p, Rec) and p.cls == 'Ptr':
            return p.f['id'] == 0
        return super().null_test(p, s, n)

    def ident(self, s, x):
        if isinstance(x, Ref):
            o = self.load(s, x.lv)
            if isinstance(o, Rec) and o.cls == 'Obj':
                return Rec('Ptr', {'id': o.f['id']})
        return x

    def evlist(self, args, st, fr):
        return [(s, [self.ident(s, x) for x in vs]) for s, vs in super().evlist(args, st, fr)]




def reg_setup(e, st, fd):
    c10.setup_q(('this',))(e, st, fd)
    st.store[c20.ALLOC] = fresh('alloc')
    st.store[c20.POS] = fresh('pos', A1)
    st.store[DONE] = Rec('D', {'created': I(0), 'attached': I(0), 'who': I(0)})


def reg_contracts():
    C = c10.queue_contracts(('this',))
    C['Clingcon::AbstractConstraint::literal'] = Contract(res=lambda c, s: c20.LITC(c.old.f['id']))

    def created(c, s):
        g = s.store[DONE]
        s.store[DONE] = Rec('D', dict(g.f, created=g.f['created'] + 1))
    C['Clingcon::AbstractConstraint::create_state'] = Contract(res=lambda c, s: Rec('Ptr', {'id': fresh('newstate')}), modifies=[('glob', c20.ALLOC)], effect=created,
                                                               facts=lambda c: [c.res.f['id'] == c.oglob(c20.ALLOC), c.res.f['id'] > 0, c.glob(c20.ALLOC) == c.oglob(c20.ALLOC) + 1, c20.CONS(c.res.f['id']) == c.old.f['id'],
                                                                                z3.Not(z3.Select(c.glob(('glob', 'cs')).f['todo'], c.res.f['id'])), z3.Select(c.glob(('glob', 'cs')).f['lvl'], c.res.f['id']) == 0])

    def attached(c, s):
        g = s.store[DONE]
        s.store[DONE] = Rec('D', dict(g.f, attached=g.f['attached'] + 1, who=c.old.f['id']))
    C['Clingcon::AbstractConstraintState::attach'] = Contract(modifies=[(0, 'var_watches_')], effect=attached)
    return C


def reg_this(e, st):
    return c20.lsolver('this')(e, st)


def reg_req(c):
    S = c.old
    D, V = S.f['c2cs_'].dom, S.f['c2cs_'].val.f['id']
    k = z3.Int('k!02')
    return c20.registered(S, S, I(0), c.oglob(c20.POS)) + [('numbered', z3.ForAll([k], z3.Implies(z3.Select(D, k), z3.And(z3.Select(V, k) > 0, z3.Select(V, k) < c.oglob(c20.ALLOC))), patterns=[z3.Select(V, k)]))] + c10.queue(S, c.oglob(('glob', 'cs')))


def reg_ens(c):
    S, S2, g = c.old, c.this, c.glob(DONE)
    D, D2, V, V2 = S.f['c2cs_'].dom, S2.f['c2cs_'].dom, S.f['c2cs_'].val.f['id'], S2.f['c2cs_'].val.f['id']
    k, G = z3.Int('k!02'), c.glob(('glob', 'cs'))
    new = z3.Not(z3.Select(D, CID))
    L, L2 = S.f['lit2cs_'].f['v'], S2.f['lit2cs_'].f['v']
    return [('one state per constraint', z3.And(g.f['created'] == z3.If(new, 1, 0), g.f['attached'] == g.f['created'])), ('the new state is attached', z3.Implies(new, g.f['who'] == z3.Select(V2, CID))),
            ('the new state is queued', z3.Implies(new, z3.Select(G.f['todo'], z3.Select(V2, CID)))), ('registered', z3.Select(D2, CID)), ('the state of the constraint is returned', c.res.f['id'] == z3.Select(V2, CID)),
            ('other constraints', z3.ForAll([k], z3.Implies(k != CID, z3.And(z3.Select(D2, k) == z3.Select(D, k), z3.Implies(z3.Select(D, k), z3.Select(V2, k) == z3.Select(V, k)))), patterns=[z3.Select(D2, k)]))] + \
        c20.registered(S2, S2, I(0), c.glob(c20.POS)) + c10.queue(S2, G)


UNITS.append(Unit('C02', 'src/solver.cc', 'Clingcon::Solver::add_constraint', Contract(requires=reg_req, ensures=reg_ens, modifies=[('this', k) for k in ('c2cs_', 'lit2cs_', 'todo_', 'var_watches_')] + [('glob', x) for x in (('glob', 'cs'), c20.ALLOC, c20.POS, DONE)]),
                  setup=reg_setup, contracts=reg_contracts(), eng=RExec, name='C02/Solver::add_constraint', opts={'thisval': reg_this, 'args': {0: lambda e, st: Rec('Obj', {'id': CID})}}))


# --------------------------------------------------------- literals that become true: every constraint registered under them is queued, and every new literal is handled
TRAIL, SEEN, CALLS = ('glob', 'trail'), ('glob', 'seen'), ('glob', 'calls')
AB = z3.ArraySort(INT, BOOL)
i_, k2 = z3.Ints('i!02 k!03')


class TExec(RExec):
    """the trail of the search as ghost list; equal keys of a multimap are adjacent and found at the first of them"""
    def m_Assignment_trail(self, l, v, args, n, st, fr):
        return [(st, Rec('Trail', {}))]

    def m_Trail_size(self, l, v, args, n, st, fr):
        return [(st, st.store[TRAIL].n)]

    def m_Trail_begin(self, l, v, args, n, st, fr):
        return [(st, It(LV(TRAIL), I(0)))]

    def m_Trail_end(self, l, v, args, n, st, fr):
        return [(st, It(LV(TRAIL), st.store[TRAIL].n))]

    def m_MMap_end(self, l, v, args, n, st, fr):
        return [(st, It(l.sub(('f', 'v')), v.f['v'].n))]

    def m_MMap_find(self, l, v, args, n, st, fr):
        outs = []
        for s, vs in self.evlist(args, st, fr):
            w = self.load(s, l).f['v']
            F = lambda x: z3.Select(w.el.f['first'], x)
            i = fresh('found')
            run = z3.And(i < w.n, F(i) == vs[0], z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < i), F(i_) != vs[0]), patterns=[F(i_)]),
                         z3.ForAll([i_, k2], z3.Implies(z3.And(i <= i_, i_ <= k2, k2 < w.n, F(k2) == vs[0]), F(i_) == vs[0]), patterns=[z3.MultiPattern(F(i_), F(k2))]))
            none = z3.And(i == w.n, z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < w.n), F(i_) != vs[0]), patterns=[F(i_)]))
            outs.append((s.assume(i >= 0, z3.Or(run, none)), It(l.sub(('f', 'v')), i)))
        return outs


def lit_setup(e, st, fd):
    c10.setup_q(('this',))(e, st, fd)
    st.store[CALLS] = Rec('C', {'dom': I(0), 'lit': fresh('cl'), 'res': fresh('cr', BOOL), 'level': fresh('clv')})
    st.store[TRAIL] = Vec(fresh('tr.n'), fresh('tr', A1))
    st.store[SEEN] = fresh('seen', AB)


def reg(S, n=None):
    L = S.f['lit2cs_'].f['v']
    return z3.Select(L.el.f['first'], i_), z3.Select(L.el.f['second'].f['id'], i_), L.n


def awake(S, G, lit, upto=None):
    l, s, n = reg(S)
    return fa([i_], z3.Implies(z3.And(0 <= i_, i_ < (n if upto is None else upto), l == lit), z3.Or(z3.Select(G.f['todo'], s), z3.Select(G.f['lvl'], s) > 0)), l)


def lit_contracts():
    C = c10.queue_contracts(('this',))

    def dom(c, s):
        g = s.store[CALLS]
        s.store[CALLS] = Rec('C', dict(g.f, dom=g.f['dom'] + 1, lit=c.o(1), res=c.res))
    C['Clingcon::Solver::update_domain_'] = Contract(ret='bool', effect=dom)
    return C


def lit_inv(L):
    S, G, G0, i = L.get(L.this), L.st.store[('glob', 'cs')], L.entry.store[('glob', 'cs')], L['it'].i
    return [('index', z3.And(0 <= i, L.at_entry('it').i <= i, i <= S.f['lit2cs_'].f['v'].n)), ('the constraints of the literal are queued', awake(S, G, L.p(1), i)), ('lists', S.f['lit2cs_'].f['v'].n >= 0), ('activity', G.f['lvl'] == G0.f['lvl'])] + c10.queue(S, G)


def lit_ens(c):
    S, S2, G, g = c.old, c.this, c.glob(('glob', 'cs')), c.glob(CALLS)
    return [('the constraints of the literal are queued', awake(S2, G, c.o(1))), ('the bounds of its variables are adjusted', z3.And(g.f['dom'] == 1, g.f['lit'] == c.o(1), c.res == g.f['res']))] + c10.queue(S2, G)


LITP = Contract(requires=lambda c: c10.queue(c.old, c.oglob(('glob', 'cs'))) + [('lists', c.old.f['lit2cs_'].f['v'].n >= 0)], ensures=lit_ens, modifies=[('this', 'todo_'), ('glob', ('glob', 'cs')), ('glob', CALLS)])
UNITS.append(Unit('C02', 'src/solver.cc', 'Clingcon::Solver::propagate_', LITP, nparams=2, setup=lit_setup, contracts=lit_contracts(), eng=TExec, name='C02/Solver::propagate_/literal', opts={'thisval': reg_this},
                  loops={('Solver::propagate_', 0): LoopSpec(lit_inv)}))


def seen(st_seen, T, a, b):
    x = z3.Select(T.el, i_)
    return fa([i_], z3.Implies(z3.And(a <= i_, i_ < b), z3.Select(st_seen, x)), x)


def tr_contracts():
    C = c10.queue_contracts(('this',))
    C['Clingcon::Solver::propagate_/2'] = Contract(ret='bool', modifies=[('glob', SEEN), ('this', 'todo_'), ('this', 'factmap_')], requires=lambda c: [('the level is open', c.oglob(CALLS).f['level'] == c.oglob(('glob', 'ass')).f['DL'])],
                                                   ensures=lambda c: [('seen', c.glob(SEEN) == z3.Store(c.oglob(SEEN), c.o(1), True))])

    def lvl(c, s):
        s.store[CALLS] = Rec('C', dict(s.store[CALLS].f, level=c.o(0)))
    C['Clingcon::Solver::push_level_'] = Contract(modifies=[('this', 'levels_')], effect=lvl)
    return C


def tr_req(c):
    a, b, T = c.o(1).i, c.o(2).i, c.oglob(TRAIL)
    return [('range', z3.And(0 <= a, a <= b, b <= T.n))]


def grown(S0, S1):
    x = z3.Select(S0, k2)
    return fa([k2], z3.Implies(x, z3.Select(S1, k2)), z3.Select(S1, k2), x)


def tr_ens(c):
    return [('every literal is handled', z3.Implies(c.res, seen(c.glob(SEEN), c.oglob(TRAIL), c.o(1).i, c.o(2).i))), ('handled before', grown(c.oglob(SEEN), c.glob(SEEN)))]


def tr_inv(L):
    i = L['it'].i
    return [('index', z3.And(L.p0(1).i <= i, i <= L.p0(2).i)), ('handled so far', seen(L.st.store[SEEN], L.st.store[TRAIL], L.p0(1).i, i)), ('level', L.st.store[CALLS].f['level'] == L.st.store[('glob', 'ass')].f['DL']),
            ('handled before', grown(L.entry.store[SEEN], L.st.store[SEEN]))]


TRP = Contract(requires=tr_req, ensures=tr_ens, ret='bool', modifies=[('glob', SEEN), ('this', 'todo_'), ('this', 'factmap_'), ('this', 'levels_'), ('this', 'stats_'), ('glob', CALLS)])
for t, nm in (('const int *', 'changes'), ('Clingo::IndexIterator<const Clingo::Trail, unsigned int, int>', 'trail')):
    UNITS.append(Unit('C02', 'src/solver.cc', 'Clingcon::Solver::propagate_', TRP, nparams=3, targs=[t], setup=lit_setup, contracts=tr_contracts(), eng=TExec, name='C02/Solver::propagate_/' + nm,
                      opts={'thisval': reg_this, 'args': {1: lambda e, st: It(LV(TRAIL), fresh('begin')), 2: lambda e, st: It(LV(TRAIL), fresh('end'))}}, loops={('Solver::propagate_', 0): LoopSpec(tr_inv)}))


# the top level: everything on the trail is handled and nothing is queued when it succeeds
def longer(c):
    T, T2 = c.oglob(TRAIL), c.glob(TRAIL)
    x = z3.Select(T2.el, i_)
    return [('trail grows', z3.And(T2.n >= T.n, T2.n < 2**31, fa([i_], z3.Implies(z3.And(0 <= i_, i_ < T.n), x == z3.Select(T.el, i_)), x)))]


def sim_contracts():
    C = std_contracts()
    C['Clingcon::AbstractClauseCreator::propagate'] = Contract(ret='bool', modifies=[('glob', TRAIL), ('glob', ('glob', 'ass'))], ensures=longer)
    for k in ('Clingcon::Solver::propagate_/3', 'Clingcon::Solver::propagate_<Clingo::IndexIterator<const Clingo::Trail, unsigned int, int>>'):
        C[k] = TRP
    C['Clingcon::Solver::check'] = Contract(ret='bool', modifies=[('glob', TRAIL), ('glob', ('glob', 'ass')), ('this', 'todo_'), ('this', 'factmap_'), ('this', 'var2vs_')], ensures=longer)
    return C


def sim_inv(L):
    S, S0, T, T0 = L.get(L.this), L.old(L.this), L.st.store[TRAIL], L.entry.store[TRAIL]
    o, o0 = S.f['trail_offset_'], S0.f['trail_offset_']
    return [('offset', z3.And(0 <= o0, o0 <= o, o <= T.n, T.n < 2**31)), ('handled so far', seen(L.st.store[SEEN], T, o0, o)), ('todo', S.f['todo_'].n >= 0)]


def sim_ens(c):
    S, S2, T = c.old, c.this, c.glob(TRAIL)
    return [('every new literal is handled', z3.Implies(c.res, z3.And(S2.f['trail_offset_'] == T.n, seen(c.glob(SEEN), T, S.f['trail_offset_'], T.n)))), ('nothing queued', z3.Implies(c.res, S2.f['todo_'].n == 0))]


UNITS.append(Unit('C02', 'src/solver.cc', 'Clingcon::Solver::simplify', Contract(requires=lambda c: [('offset', z3.And(0 <= c.old.f['trail_offset_'], c.old.f['trail_offset_'] <= c.oglob(TRAIL).n, c.oglob(TRAIL).n < 2**31)), ('todo', c.old.f['todo_'].n >= 0)],
                                                                                 ensures=sim_ens, modifies=[('this',), ('glob', SEEN), ('glob', TRAIL), ('glob', CALLS), ('glob', ('glob', 'ass'))]), setup=lit_setup, contracts=sim_contracts(), eng=TExec, name='C02/Solver::simplify',
                  opts={'thisval': reg_this}, loops={('Solver::simplify', 0): LoopSpec(sim_inv)}))
