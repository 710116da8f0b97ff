"""C10: backtracking restores bounds and propagation state exactly."""
import z3
from sem import *
from engine import NONE, Unsupported, Rec, Vec, Ref, LV, leaves, select
from execu import It
from spec import LoopSpec
from c08 import fa

TU_ = 'src/solver.cc'
A1, A2, AB = z3.ArraySort(INT, INT), z3.ArraySort(INT, z3.ArraySort(INT, INT)), z3.ArraySort(INT, BOOL)
CS = ('glob', 'cs')
u_, p_, q_ = z3.Ints('u!10 p!10 q!10')
# state when the level was opened (ghost) and the place of a variable in the undo lists
LB0, LN0, UB0, UN0 = [z3.Const(x, A1) for x in ('LB0', 'LN0', 'UB0', 'UN0')]
PL, PU = z3.Const('PL', A1), z3.Const('PU', A1)
V0 = z3.Int('V0')
WT = z3.Function('WT', INT, INT, INT)          # arbitrary weight of a watch (coefficient, constraint): multisets
WU = z3.Function('WU', INT, INT, INT)          # effect of a change on a constraint per unit of the change
DL_, DU_ = z3.Const('DL', A1), z3.Const('DU', A1)      # amounts to take back
SWL = z3.Const('SWL', A1)


def watch(el):
    return [el.f['first'], el.f['second'].f['id']] if isinstance(el, Rec) and el.cls == 'pair' and isinstance(el.f['second'], Rec) and el.f['second'].cls == 'Ptr' and isz(el.f['first']) and _i(el.f['first']) else None


def _i(x):
    return x.sort() == INT or (isinstance(x.sort(), z3.ArraySortRef) and x.sort().range() == INT)


def rem(el):
    return [el.f['0'], el.f['1'], el.f['2'].f['id']] if isinstance(el, Rec) and el.cls == 'tuple' and len(el.f) == 3 and isinstance(el.f['2'], Rec) else None


def ints(el):
    return [el] if isz(el) and (el.sort() == INT or el.sort() == A1) else None


def ptrs(el):
    return [el.f['id']] if isinstance(el, Rec) and el.cls == 'Ptr' and _i(el.f['id']) else None


SWT = Fold('swt', watch, lambda c, i: WT(c, i), 'sum', [INT, INT])
SWU = Fold('swu', watch, lambda c, i: WU(c, i), 'sum', [INT, INT])
SRM = Fold('srm', rem, lambda v, c, i: z3.If(v == V0, WT(c, i), 0), 'sum', [INT, INT, INT])
SLO = Fold('slo', ints, lambda v: z3.Select(DL_, v) * z3.Select(SWL, v), 'sum', [INT])
SUP = Fold('sup', ints, lambda v: z3.Select(DU_, v) * z3.Select(SWL, v), 'sum', [INT])
PC = Fold('pc10', ptrs, lambda i: WT(0, i), 'sum', [INT])


def ptrvec(nm):
    return Vec(fresh(nm + '.n'), Rec('Ptr', {'id': fresh(nm, A1)}))


def extra():
    iv = lambda nm: Vec(fresh(nm + '.n'), fresh(nm, A1))
    return {'var_watches_': Vec(fresh('vw.n'), Vec(fresh('vw.k', A1), Rec('pair', {'first': fresh('vw.co', A2), 'second': Rec('Ptr', {'id': fresh('vw.cs', A2)})}))),
            'ldiff_': iv('ldiff'), 'udiff_': iv('udiff'), 'in_ldiff_': iv('inl'), 'in_udiff_': iv('inu'), 'todo_': ptrvec('todo'),
            'undo_lower_': iv('unl'), 'undo_upper_': iv('unu'), 'inactive_': ptrvec('ina'),
            'removed_var_watches_': Vec(fresh('rv.n'), Rec('tuple', {'0': fresh('rv.v', A1), '1': fresh('rv.co', A1), '2': Rec('Ptr', {'id': fresh('rv.cs', A1)})}))}


def solver_arg(e, st):
    return solver_shape(e, 's', extra())


def setup(e, st, fd):
    put_ass(st)
    st.store[CS] = Rec('CS', {'todo': fresh('cs.todo', AB), 'lvl': fresh('cs.lvl', A1), 'upd': I(0), 'und': I(0)})
    st.store[('glob', 'V0')] = V0


def vs_arg(e, st):
    """a reference to the state of variable V0"""
    return LV(('param', 0)).sub(('f', 'var2vs_'), ('i', V0))


def level(e, st):
    return Rec('Clingcon::Level', {k: fresh(k) for k in ('level_', 'undo_lower_offset_', 'undo_upper_offset_', 'inactive_offset_', 'removed_var_watches_offset_')})


# --------------------------------------------------------- virtual functions of constraint states
def cs_contracts():
    C = std_contracts()
    g = lambda c: c.glob(CS)
    o = lambda c: c.oglob(CS)
    idof = lambda c: c.old.f['id']
    C['Clingcon::AbstractConstraintState::mark_todo/1'] = Contract(res=lambda c, s: z3.Select(o(c).f['todo'], idof(c)), modifies=[('glob', CS, 'todo')],
                                                                   ensures=lambda c: [('set', g(c).f['todo'] == z3.Store(o(c).f['todo'], idof(c), c.o(0)))])
    C['Clingcon::AbstractConstraintState::marked_todo/0'] = Contract(res=lambda c, s: z3.Select(o(c).f['todo'], idof(c)))
    C['Clingcon::AbstractConstraintState::inactive_level/0'] = Contract(res=lambda c, s: z3.Select(o(c).f['lvl'], idof(c)), facts=lambda c: [z3.Select(o(c).f['lvl'], idof(c)) >= 0])
    C['Clingcon::AbstractConstraintState::inactive_level/1'] = Contract(modifies=[('glob', CS, 'lvl')], ensures=lambda c: [('set', g(c).f['lvl'] == z3.Store(o(c).f['lvl'], idof(c), c.o(0)))])
    C['Clingcon::AbstractConstraintState::removable/0'] = Contract(ret='bool')
    C['Clingcon::AbstractConstraintState::update/2'] = Contract(ret='bool', modifies=[('glob', CS, 'upd')], ensures=lambda c: [('effect', g(c).f['upd'] == o(c).f['upd'] + WU(c.o(0), idof(c)) * c.o(1))])
    C['Clingcon::AbstractConstraintState::undo/2'] = Contract(modifies=[('glob', CS, 'und')], ensures=lambda c: [('effect', g(c).f['und'] == o(c).f['und'] + WU(c.o(0), idof(c)) * c.o(1))])
    return C


# --------------------------------------------------------- state invariants
def F(S, f):
    return S.f[f]


def stk(S, w, v, x=None):
    k = S.f['var2vs_'].el.f['lower_bound_stack_' if w == 'l' else 'upper_bound_stack_']
    n = z3.Select(k.n, v)
    return n if x is None else z3.Select(z3.Select(k.el.f[x], v), n - 1)


def bnd(S, w, v):
    return lbv(S, v) if w == 'l' else ubv(S, v)


def und(S, w):
    return S.f['undo_lower_' if w == 'l' else 'undo_upper_']


def diffs(S, w):
    return S.f['ldiff_' if w == 'l' else 'udiff_']


def off(T, w):
    return T.f['undo_lower_offset_' if w == 'l' else 'undo_upper_offset_']


def inun(S, T, w, v, pos=None):
    P = z3.Select(pos if pos is not None else (PL if w == 'l' else PU), v)
    return z3.And(off(T, w) <= P, P < und(S, w).n, z3.Select(und(S, w).el, P) == v)


def rel(S, T, w, upto=None, pos=None):
    """S relates to the state at the opening of the level: every variable in the undo list (from the offset) has its old bound
    on the stack, all others have their old bound"""
    P = pos if pos is not None else (PL if w == 'l' else PU)
    B0, N0 = (LB0, LN0) if w == 'l' else (UB0, UN0)
    U = und(S, w)
    nv = S.f['var2vs_'].n
    inr = z3.And(0 <= u_, u_ < nv)
    un = inun(S, T, w, u_, P)
    Ue = z3.Select(U.el, p_)
    return [('offset ' + w, z3.And(0 <= off(T, w), off(T, w) <= U.n)),
            ('undo list ' + w, z3.ForAll([p_], z3.Implies(z3.And(off(T, w) <= p_, p_ < U.n), z3.And(0 <= Ue, Ue < nv, z3.Select(P, Ue) == p_)), patterns=[Ue])),
            ('saved bounds ' + w, z3.ForAll([u_], z3.Implies(z3.And(inr, un), z3.And(stk(S, w, u_) == z3.Select(N0, u_) + 1, stk(S, w, u_, 'second') == z3.Select(B0, u_), stk(S, w, u_, 'first') == T.f['level_'])),
                                            patterns=[bnd(S, w, u_), stk(S, w, u_)])),
            ('other bounds ' + w, z3.ForAll([u_], z3.Implies(z3.And(inr, z3.Not(un)), z3.And(stk(S, w, u_) == z3.Select(N0, u_), bnd(S, w, u_) == z3.Select(B0, u_),
                                                                                             z3.Or(stk(S, w, u_) == 0, stk(S, w, u_, 'first') < T.f['level_']))), patterns=[bnd(S, w, u_), stk(S, w, u_)])),
            ('stacks ' + w, z3.ForAll([u_], z3.Implies(inr, z3.And(z3.Select(N0, u_) >= 0, stk(S, w, u_) >= 0)), patterns=[stk(S, w, u_)])),
            ('pending ' + w, z3.ForAll([u_], z3.Implies(z3.And(inr, z3.Not(un)), z3.Select(diffs(S, w).el, u_) == 0), patterns=[z3.Select(diffs(S, w).el, u_)]))]


def sizes(S):
    nv = S.f['var2vs_'].n
    return [('tables', z3.And(nv >= 0, nv < 2**31, S.f['ldiff_'].n == nv, S.f['udiff_'].n == nv, S.f['var_watches_'].n == nv)),
            ('numbering', z3.ForAll([u_], z3.Implies(z3.And(0 <= u_, u_ < nv), z3.Select(VSF(S, 'var_'), u_) == u_), patterns=[z3.Select(VSF(S, 'var_'), u_)])),
            ('lists', z3.And(*[z3.And(S.f[x].n >= 0, S.f[x].n < 2**40) for x in ('in_ldiff_', 'in_udiff_', 'todo_', 'undo_lower_', 'undo_upper_', 'inactive_', 'removed_var_watches_')])),
            ('watch lists', z3.ForAll([u_], z3.Select(S.f['var_watches_'].el.n, u_) >= 0, patterns=[z3.Select(S.f['var_watches_'].el.n, u_)]))]


# --------------------------------------------------------- update_lower / update_upper
def upd_contract(w):
    B = 'lower_bound_' if w == 'l' else 'upper_bound_'
    D, IN, U, SK = ('ldiff_', 'in_ldiff_', 'undo_lower_', 'lower_bound_stack_') if w == 'l' else ('udiff_', 'in_udiff_', 'undo_upper_', 'upper_bound_stack_')

    def req(c):
        S, T, x = c.o(0), c.old, c.o(2)
        new = x + 1 if w == 'l' else x
        return sizes(S) + [('variable', z3.And(0 <= V0, V0 < S.f['var2vs_'].n)), ('value', z3.And(x >= MINV - 1, x <= MAXV)), ('bounds in range', z3.And(bnd(S, w, V0) >= MINV, bnd(S, w, V0) <= MAXV)),
                           ('tightens', new > bnd(S, w, V0) if w == 'l' else new < bnd(S, w, V0)), ('level', T.f['level_'] >= 0),
                           ('diff in range', z3.And(z3.Select(S.f[D].el, V0) + new - bnd(S, w, V0) < 2**31, z3.Select(S.f[D].el, V0) + new - bnd(S, w, V0) >= -2**31)),
                           ('stack', stk(S, w, V0) >= 0)] + [(n, z3.Implies(T.f['level_'] > 0, f)) for n, f in rel(S, T, w)]

    def ens(c):
        S, S2, T, x = c.o(0), c.a(0), c.old, c.o(2)
        new = x + 1 if w == 'l' else x
        pushed = z3.And(stk(S, w, V0) > 0, stk(S, w, V0, 'first') == T.f['level_'])
        saves = z3.And(T.f['level_'] > 0, z3.Not(pushed))
        vs, vs2 = S.f['var2vs_'].el, S2.f['var2vs_'].el
        out = [('new bound', bnd(S2, w, V0) == new)]
        for f in ('lower_bound_', 'upper_bound_', 'var_'):
            out.append(('other variables: ' + f, z3.ForAll([u_], z3.Implies(u_ != V0 if f == B else z3.BoolVal(True), z3.Select(vs2.f[f], u_) == z3.Select(vs.f[f], u_)), patterns=[z3.Select(vs2.f[f], u_)])))
        for f in ('lower_bound_stack_', 'upper_bound_stack_'):
            a, b = vs.f[f], vs2.f[f]
            same = z3.And(z3.Select(b.n, u_) == z3.Select(a.n, u_), z3.Select(b.el.f['first'], u_) == z3.Select(a.el.f['first'], u_), z3.Select(b.el.f['second'], u_) == z3.Select(a.el.f['second'], u_))
            out.append(('other stacks: ' + f, z3.ForAll([u_], z3.Implies(z3.Or(u_ != V0, z3.Not(saves)) if f == SK else z3.BoolVal(True), same), patterns=[z3.Select(b.n, u_)])))
        a, b = vs.f[SK], vs2.f[SK]
        n = z3.Select(a.n, V0)
        out += [('old bound saved', z3.Implies(saves, z3.And(z3.Select(b.n, V0) == n + 1, z3.Select(z3.Select(b.el.f['first'], V0), n) == T.f['level_'], z3.Select(z3.Select(b.el.f['second'], V0), n) == bnd(S, w, V0)))),
                ('saved below', z3.Implies(saves, z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < n), z3.And(z3.Select(z3.Select(b.el.f['first'], V0), q_) == z3.Select(z3.Select(a.el.f['first'], V0), q_),
                                                                                                  z3.Select(z3.Select(b.el.f['second'], V0), q_) == z3.Select(z3.Select(a.el.f['second'], V0), q_))),
                                                            patterns=[z3.Select(z3.Select(b.el.f['second'], V0), q_)]))),
                ('undo list', z3.And(S2.f[U].n == z3.If(saves, S.f[U].n + 1, S.f[U].n), z3.Implies(saves, z3.Select(S2.f[U].el, S.f[U].n) == V0))),
                ('undo list prefix', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < S.f[U].n), z3.Select(S2.f[U].el, q_) == z3.Select(S.f[U].el, q_)), patterns=[z3.Select(S2.f[U].el, q_)])),
                ('pending change', z3.Select(S2.f[D].el, V0) == z3.Select(S.f[D].el, V0) + new - bnd(S, w, V0)),
                ('other pending changes', z3.ForAll([u_], z3.Implies(u_ != V0, z3.Select(S2.f[D].el, u_) == z3.Select(S.f[D].el, u_)), patterns=[z3.Select(S2.f[D].el, u_)])),
                ('tables keep size', z3.And(S2.f[D].n == S.f[D].n, S2.f['var2vs_'].n == S.f['var2vs_'].n)),
                ('queued once', z3.And(S2.f[IN].n == z3.If(z3.Select(S.f[D].el, V0) == 0, S.f[IN].n + 1, S.f[IN].n), z3.Implies(z3.Select(S.f[D].el, V0) == 0, z3.Select(S2.f[IN].el, S.f[IN].n) == V0))),
                ('queue prefix', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < S.f[IN].n), z3.Select(S2.f[IN].el, q_) == z3.Select(S.f[IN].el, q_)), patterns=[z3.Select(S2.f[IN].el, q_)]))]
        # the relation to the opening state is kept
        pos = z3.If(saves, z3.Store(PL if w == 'l' else PU, V0, S.f[U].n), PL if w == 'l' else PU)
        P2 = fresh('pos', A1)
        out += [('undoable: ' + n, z3.Implies(z3.And(T.f['level_'] > 0, P2 == pos), f)) for n, f in rel(S2, T, w, pos=P2)]
        return out
    return Contract(requires=req, ensures=ens, modifies=[(0, 'var2vs_'), (0, D), (0, IN), (0, U)])


kw = dict(setup=setup, contracts=cs_contracts(), eng=PropExec, folds=[SWT, SWU, SRM, SLO, SUP, PC])
UNITS = []
for w, f in (('l', 'update_lower'), ('u', 'update_upper')):
    UNITS.append(Unit('C10', TU_, 'Clingcon::Level::' + f, upd_contract(w), name='C10/Level::' + f, opts={'thisval': level, 'args': {0: solver_arg, 1: vs_arg}}, **kw))


# --------------------------------------------------------- opening a level
def ct_ens(c):
    S, T = c.o(0), c.this
    return [('level', T.f['level_'] == c.o(1)), ('offset lower', T.f['undo_lower_offset_'] == S.f['undo_lower_'].n), ('offset upper', T.f['undo_upper_offset_'] == S.f['undo_upper_'].n),
            ('offset inactive', T.f['inactive_offset_'] == S.f['inactive_'].n), ('offset watches', T.f['removed_var_watches_offset_'] == S.f['removed_var_watches_'].n)]


UNITS.append(Unit('C10', TU_, 'Clingcon::Level::Level', Contract(requires=lambda c: sizes(c.o(0)), ensures=ct_ens, modifies=[('this',)]), nparams=2, name='C10/Level::Level', opts={'thisval': level, 'args': {0: solver_arg}}, **kw))


# --------------------------------------------------------- marks
CID = z3.Int('CID')


def cs_arg(e, st):
    return Rec('Obj', {'id': CID})


def todo_inv(S, G):
    """exactly the queued constraints are marked, and they are active"""
    t = S.f['todo_']
    x = z3.Select(t.el.f['id'], p_)
    return [('marked if queued', z3.ForAll([p_], z3.Implies(z3.And(0 <= p_, p_ < t.n), z3.Select(G.f['todo'], x)), patterns=[x]))]


def mt_ens(c):
    S, S2, G, G2 = c.o(0), c.a(0), c.oglob(CS), c.glob(CS)
    add = z3.And(z3.Select(G.f['lvl'], CID) <= 0, z3.Not(z3.Select(G.f['todo'], CID)))
    a, b = S.f['todo_'], S2.f['todo_']
    return [('queued', z3.And(b.n == z3.If(add, a.n + 1, a.n), z3.Implies(add, z3.Select(b.el.f['id'], a.n) == CID))),
            ('queue prefix', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < a.n), z3.Select(b.el.f['id'], q_) == z3.Select(a.el.f['id'], q_)), patterns=[z3.Select(b.el.f['id'], q_)])),
            ('marks', G2.f['todo'] == z3.If(add, z3.Store(G.f['todo'], CID, True), G.f['todo']))]


UNITS.append(Unit('C10', TU_, 'Clingcon::Level::mark_todo', Contract(requires=lambda c: sizes(c.o(0)), ensures=mt_ens, modifies=[(0, 'todo_'), ('glob', CS, 'todo')]), name='C10/Level::mark_todo', opts={'thisval': level, 'args': {0: solver_arg, 1: cs_arg}}, **kw))


LV0 = z3.Const('LV0', A1)
PI_, PT_ = z3.Const('PI', A1), z3.Const('PT', A1)


def ina_rel(S, T, lvl, pos=None):
    """activity marks relate to the opening of the level"""
    P = PI_ if pos is None else pos
    I_ = S.f['inactive_']
    x = z3.Select(I_.el.f['id'], p_)
    off_ = T.f['inactive_offset_']
    inl = z3.And(off_ <= z3.Select(P, u_), z3.Select(P, u_) < I_.n, z3.Select(I_.el.f['id'], z3.Select(P, u_)) == u_)
    return [('inactive offset', z3.And(0 <= off_, off_ <= I_.n)),
            ('inactive list', z3.ForAll([p_], z3.Implies(z3.And(off_ <= p_, p_ < I_.n), z3.Select(P, x) == p_), patterns=[x])),
            ('marks', z3.ForAll([u_], z3.If(inl, z3.And(z3.Select(LV0, u_) == 0, z3.Select(lvl, u_) == T.f['level_'] + 1), z3.Select(lvl, u_) == z3.Select(LV0, u_)), patterns=[z3.Select(lvl, u_)]))]


def mi_ens(c):
    S, S2, G, G2, T = c.o(0), c.a(0), c.oglob(CS), c.glob(CS), c.old
    a, b = S.f['inactive_'], S2.f['inactive_']
    chg = b.n != a.n
    P2 = fresh('pos', A1)
    return [('undoable: ' + n, z3.Implies(P2 == z3.If(chg, z3.Store(PI_, CID, a.n), PI_), f)) for n, f in ina_rel(S2, T, G2.f['lvl'], P2)] + [('listed when marked', z3.And(z3.Implies(chg, z3.And(b.n == a.n + 1, z3.Select(b.el.f['id'], a.n) == CID, z3.Select(G.f['lvl'], CID) <= 0)),
                                          G2.f['lvl'] == z3.If(chg, z3.Store(G.f['lvl'], CID, T.f['level_'] + 1), G.f['lvl']))),
            ('list prefix', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < a.n), z3.Select(b.el.f['id'], q_) == z3.Select(a.el.f['id'], q_)), patterns=[z3.Select(b.el.f['id'], q_)]))]


UNITS.append(Unit('C10', TU_, 'Clingcon::Level::mark_inactive', Contract(requires=lambda c: sizes(c.o(0)) + [('level', z3.And(c.old.f['level_'] >= 0, c.old.f['level_'] < 2**31)), ('no negative level', z3.Select(c.oglob(CS).f['lvl'], CID) >= 0)] + ina_rel(c.o(0), c.old, c.oglob(CS).f['lvl']), ensures=mi_ens, modifies=[(0, 'inactive_'), ('glob', CS, 'lvl')]),
                  name='C10/Level::mark_inactive', opts={'thisval': level, 'args': {0: solver_arg, 1: cs_arg}}, **kw))


# --------------------------------------------------------- update_constraints_
def watches(S, v):
    return select(S.f['var_watches_'].el, v)


def rm_inv(L):
    """the first k watches have been handled"""
    k, kept = L.st.store[('rm', 'k')], L.st.store[('rm', 'kept')]
    S, S0 = L.p(0), L.p0(0)
    G, G0 = L.st.store[CS], L.entry.store[CS]
    W = watches(S0, V0)
    lvl = L.get(L.this).f['level_']
    removable = lambda i: z3.And(z3.Select(G0.f['lvl'], i) > 0, z3.Select(G0.f['lvl'], i) <= lvl)
    R, R0 = S.f['removed_var_watches_'], S0.f['removed_var_watches_']
    x = z3.Select(kept.el.f['second'].f['id'], p_)
    y = z3.Select(R.el.f['2'].f['id'], p_)
    return [('index', z3.And(0 <= k, k <= W.n, kept.n >= 0, kept.n <= k, R.n >= R0.n)),
            ('every watch is kept or saved', SWT(kept) + (SRM(R) - SRM(R0)) == SWT(W, k)),
            ('kept watches got the change', G.f['upd'] == G0.f['upd'] + SWU(kept) * L.p(2)),
            ('kept constraints are active', z3.ForAll([p_], z3.Implies(z3.And(0 <= p_, p_ < kept.n), z3.Not(removable(x))), patterns=[x])),
            ('only inactive constraints are dropped', z3.ForAll([p_], z3.Implies(z3.And(R0.n <= p_, p_ < R.n), z3.And(removable(y), z3.Select(R.el.f['0'], p_) == V0)), patterns=[y])),
            ('saved watches before', z3.ForAll([p_], z3.Implies(z3.And(0 <= p_, p_ < R0.n), z3.And(y == z3.Select(R0.el.f['2'].f['id'], p_), z3.Select(R.el.f['0'], p_) == z3.Select(R0.el.f['0'], p_), z3.Select(R.el.f['1'], p_) == z3.Select(R0.el.f['1'], p_))), patterns=[y]))]


def uc_ens(c):
    S, S2, G, G2, T = c.o(0), c.a(0), c.oglob(CS), c.glob(CS), c.old
    W, W2 = watches(S, V0), watches(S2, V0)
    R, R2 = S.f['removed_var_watches_'], S2.f['removed_var_watches_']
    a, b = S.f['var_watches_'].el, S2.f['var_watches_'].el
    removable = lambda i: z3.And(z3.Select(G.f['lvl'], i) > 0, z3.Select(G.f['lvl'], i) <= T.f['level_'])
    x = z3.Select(W2.el.f['second'].f['id'], p_)
    y = z3.Select(R2.el.f['2'].f['id'], p_)
    return [('every watch is kept or saved', SWT(W2) + (SRM(R2) - SRM(R)) == SWT(W)), ('kept watches got the change', G2.f['upd'] == G.f['upd'] + SWU(W2) * c.o(2)),
            ('kept constraints are active', z3.ForAll([p_], z3.Implies(z3.And(0 <= p_, p_ < W2.n), z3.Not(removable(x))), patterns=[x])),
            ('only inactive constraints are dropped', z3.ForAll([p_], z3.Implies(z3.And(R.n <= p_, p_ < R2.n), z3.And(removable(y), z3.Select(R2.el.f['0'], p_) == V0)), patterns=[y])),
            ('saved watches before', z3.ForAll([p_], z3.Implies(z3.And(0 <= p_, p_ < R.n), z3.And(y == z3.Select(R.el.f['2'].f['id'], p_), z3.Select(R2.el.f['0'], p_) == z3.Select(R.el.f['0'], p_), z3.Select(R2.el.f['1'], p_) == z3.Select(R.el.f['1'], p_))), patterns=[y])),
            ('watches of other variables', z3.ForAll([u_], z3.Implies(u_ != V0, z3.And(z3.Select(a.n, u_) == z3.Select(b.n, u_), z3.Select(a.el.f['first'], u_) == z3.Select(b.el.f['first'], u_),
                                                                                      z3.Select(a.el.f['second'].f['id'], u_) == z3.Select(b.el.f['second'].f['id'], u_))), patterns=[z3.Select(b.n, u_)])),
            ('size', S2.f['var_watches_'].n == S.f['var_watches_'].n)]


UC = Contract(requires=lambda c: sizes(c.o(0)) + [('variable', z3.And(c.o(1) == V0, 0 <= V0, V0 < c.o(0).f['var2vs_'].n))], ensures=uc_ens, modifies=[(0, 'var_watches_'), (0, 'removed_var_watches_'), (0, 'todo_'), ('glob', CS, 'todo'), ('glob', CS, 'upd')])
UNITS.append(Unit('C10', TU_, 'Clingcon::Level::update_constraints_', UC, name='C10/Level::update_constraints_', loops={('Level::update_constraints_', 'remove_if'): LoopSpec(rm_inv)},
                  opts={'thisval': level, 'args': {0: solver_arg}}, **kw))


# --------------------------------------------------------- undo
SW0 = z3.Int('SW0')


def todo_rel(S, todo, n=None):
    t = S.f['todo_']
    P = z3.Select(PT_, u_)
    return [('marked only if queued', z3.ForAll([u_], z3.Implies(z3.Select(todo, u_), z3.And(0 <= P, P < t.n, z3.Select(t.el.f['id'], P) == u_)), patterns=[z3.Select(todo, u_)])),
            ('queued once', z3.ForAll([p_], z3.Implies(z3.And(0 <= p_, p_ < t.n), z3.Select(PT_, z3.Select(t.el.f['id'], p_)) == p_), patterns=[z3.Select(t.el.f['id'], p_)]))]


def removed_rel(S, T):
    R = S.f['removed_var_watches_']
    return [('removed watches', z3.And(0 <= T.f['removed_var_watches_offset_'], T.f['removed_var_watches_offset_'] <= R.n)),
            ('removed watches of variables', z3.ForAll([p_], z3.Implies(z3.And(0 <= p_, p_ < R.n), z3.And(0 <= z3.Select(R.el.f['0'], p_), z3.Select(R.el.f['0'], p_) < S.f['var2vs_'].n)), patterns=[z3.Select(R.el.f['0'], p_)])),
            ('watches with the removed ones', SWT(watches(S, V0)) + (SRM(R) - SRM(R, T.f['removed_var_watches_offset_'])) == SW0)]


def un_req(c):
    S, T, G = c.o(0), c.old, c.oglob(CS)
    out = sizes(S) + [('level', z3.And(T.f['level_'] > 0, T.f['level_'] < 2**31)), ('variable', z3.And(0 <= V0, V0 < S.f['var2vs_'].n))]
    for w in 'lu':
        out += rel(S, T, w)
        a, D = bnd(S, w, u_), DL_ if w == 'l' else DU_
        out.append(('amount ' + w, z3.ForAll([u_], z3.Implies(z3.And(0 <= u_, u_ < S.f['var2vs_'].n), z3.Select(D, u_) == a - stk(S, w, u_, 'second') - z3.Select(diffs(S, w).el, u_)), patterns=[z3.Select(D, u_), a])))
        out.append(('amount in range ' + w, z3.ForAll([u_], z3.Implies(z3.And(0 <= u_, u_ < S.f['var2vs_'].n), z3.And(*[z3.And(x >= -2**31, x < 2**31) for x in (z3.Select(D, u_), a - stk(S, w, u_, 'second'))])), patterns=[z3.Select(D, u_), a])))
    out.append(('watch effects', z3.ForAll([u_], z3.Implies(z3.And(0 <= u_, u_ < S.f['var2vs_'].n), z3.Select(SWL, u_) == SWU(watches(S, u_))), patterns=[z3.Select(SWL, u_)])))
    return out + ina_rel(S, T, G.f['lvl']) + todo_rel(S, G.f['todo']) + removed_rel(S, T)


def undone(S, S2, T, w):
    """bounds and stacks as when the level was opened"""
    B0, N0 = (LB0, LN0) if w == 'l' else (UB0, UN0)
    nv = S.f['var2vs_'].n
    a, b = [X.f['var2vs_'].el.f['lower_bound_stack_' if w == 'l' else 'upper_bound_stack_'] for X in (S, S2)]
    inr = z3.And(0 <= u_, u_ < nv)
    U, U2 = und(S, w), und(S2, w)
    IN = 'in_ldiff_' if w == 'l' else 'in_udiff_'
    return [('bound restored ' + w, z3.ForAll([u_], z3.Implies(inr, bnd(S2, w, u_) == z3.Select(B0, u_)), patterns=[bnd(S2, w, u_)])),
            ('stack restored ' + w, z3.ForAll([u_], z3.Implies(inr, stk(S2, w, u_) == z3.Select(N0, u_)), patterns=[stk(S2, w, u_)])),
            ('stack contents ' + w, z3.And(a.el.f['first'] == b.el.f['first'], a.el.f['second'] == b.el.f['second'])),
            ('nothing pending ' + w, z3.And(S2.f[IN].n == 0, z3.ForAll([u_], z3.Implies(inr, z3.Select(diffs(S2, w).el, u_) == 0), patterns=[z3.Select(diffs(S2, w).el, u_)]))),
            ('undo list truncated ' + w, z3.And(U2.n == off(T, w), U2.el == U.el))]


def un_ens(c):
    S, S2, T, G, G2 = c.o(0), c.a(0), c.old, c.oglob(CS), c.glob(CS)
    out = []
    for w in 'lu':
        out += undone(S, S2, T, w)
    out += [('constraints take back the changes', G2.f['und'] == G.f['und'] + (SLO(und(S, 'l')) - SLO(und(S, 'l'), off(T, 'l'))) + (SUP(und(S, 'u')) - SUP(und(S, 'u'), off(T, 'u')))),
            ('activity marks restored', z3.ForAll([u_], z3.Select(G2.f['lvl'], u_) == z3.Select(LV0, u_), patterns=[z3.Select(G2.f['lvl'], u_)])),
            ('inactive list truncated', z3.And(S2.f['inactive_'].n == T.f['inactive_offset_'], S2.f['inactive_'].el.f['id'] == S.f['inactive_'].el.f['id'])),
            ('watches restored', SWT(watches(S2, V0)) == SW0),
            ('removed watches truncated', z3.And(S2.f['removed_var_watches_'].n == T.f['removed_var_watches_offset_'])),
            ('nothing queued', S2.f['todo_'].n == 0),
            ('nothing marked', z3.ForAll([u_], z3.Not(z3.Select(G2.f['todo'], u_)), patterns=[z3.Select(G2.f['todo'], u_)])),
            ('other tables', z3.And(S2.f['var2vs_'].n == S.f['var2vs_'].n, S2.f['var_watches_'].n == S.f['var_watches_'].n, S2.f['ldiff_'].n == S.f['ldiff_'].n, S2.f['udiff_'].n == S.f['udiff_'].n,
                                    VSF(S2, 'var_') == VSF(S, 'var_')))]
    return out


def ub_inv(w):
    B0, N0, P = (LB0, LN0, PL) if w == 'l' else (UB0, UN0, PU)
    S_ = SLO if w == 'l' else SUP
    SK = 'lower_bound_stack_' if w == 'l' else 'upper_bound_stack_'

    def inv(L):
        S, S0 = L.p(0), L.p0(0)
        T = L.get(L.this)
        k = L['it'].i
        U = und(S, w)
        nv = S.f['var2vs_'].n
        inr = z3.And(0 <= u_, u_ < nv)
        done = z3.And(inun(S, T, w, u_), z3.Select(P, u_) < k)
        d, d0 = z3.Select(diffs(S, w).el, u_), z3.Select(diffs(S0, w).el, u_)
        G, G0 = L.st.store[CS], L.entry.store[CS]
        return [('index', z3.And(off(T, w) <= k, k <= U.n)),
                ('done', z3.ForAll([u_], z3.Implies(z3.And(inr, done), z3.And(bnd(S, w, u_) == z3.Select(B0, u_), stk(S, w, u_) == z3.Select(N0, u_), d == 0)), patterns=[bnd(S, w, u_), stk(S, w, u_), d])),
                ('to do', z3.ForAll([u_], z3.Implies(z3.And(inr, z3.Not(done)), z3.And(bnd(S, w, u_) == bnd(S0, w, u_), stk(S, w, u_) == stk(S0, w, u_), d == d0)), patterns=[bnd(S, w, u_), stk(S, w, u_), d])),
                ('taken back', G.f['und'] == G0.f['und'] + (S_(U, k) - S_(U, off(T, w)))),
                ('stack contents', z3.And(*[S.f['var2vs_'].el.f[SK].el.f[x] == S0.f['var2vs_'].el.f[SK].el.f[x] for x in ('first', 'second')])), ('sizes', z3.And(diffs(S, w).n == diffs(S0, w).n))]
    return inv


def uw_inv(L):
    G, G0 = L.st.store[CS], L.entry.store[CS]
    W = watches(L.p(0), L['var'])
    return [('index', z3.And(0 <= L.k, L.k <= W.n)), ('taken back', G.f['und'] == G0.f['und'] + SWU(W, L.k) * L['diff'])]


def ia_inv(L):
    S, T = L.p(0), L.get(L.this)
    k = L['it'].i
    I_ = S.f['inactive_']
    G, G0 = L.st.store[CS], L.entry.store[CS]
    P = z3.Select(PI_, u_)
    inl = z3.And(T.f['inactive_offset_'] <= P, P < k, z3.Select(I_.el.f['id'], P) == u_)
    return [('index', z3.And(T.f['inactive_offset_'] <= k, k <= I_.n)),
            ('marks', z3.ForAll([u_], z3.Select(G.f['lvl'], u_) == z3.If(inl, 0, z3.Select(G0.f['lvl'], u_)), patterns=[z3.Select(G.f['lvl'], u_)]))]


def rw_inv(L):
    S, S0, T = L.p(0), L.p0(0), L.get(L.this)
    k = L['it'].i
    R = S.f['removed_var_watches_']
    o = T.f['removed_var_watches_offset_']
    return [('index', z3.And(o <= k, k <= R.n)), ('watches', SWT(watches(S, V0)) == SWT(watches(S0, V0)) + (SRM(R, k) - SRM(R, o))), ('size', S.f['var_watches_'].n == S0.f['var_watches_'].n),
            ('lists', z3.ForAll([u_], z3.Select(S.f['var_watches_'].el.n, u_) >= 0, patterns=[z3.Select(S.f['var_watches_'].el.n, u_)]))]


def td_inv(L):
    G, G0 = L.st.store[CS], L.entry.store[CS]
    t = z3.Select(G.f['todo'], u_)
    return [('index', z3.And(0 <= L.k, L.k <= L.p(0).f['todo_'].n)), ('marks', z3.ForAll([u_], z3.Implies(t, z3.And(z3.Select(G0.f['todo'], u_), z3.Select(PT_, u_) >= L.k)), patterns=[t]))]


UN = Contract(requires=un_req, ensures=un_ens, modifies=[(0,), ('glob', CS)])
UNITS.append(Unit('C10', TU_, 'Clingcon::Level::undo', UN, name='C10/Level::undo', loops={('undo', 0): LoopSpec(ub_inv('l')), ('undo', 1): LoopSpec(uw_inv), ('undo', 2): LoopSpec(ub_inv('u')), ('undo', 3): LoopSpec(uw_inv),
                                                                                   ('undo', 4): LoopSpec(ia_inv), ('undo', 5): LoopSpec(rw_inv), ('undo', 6): LoopSpec(td_inv)},
                  opts={'thisval': level, 'args': {0: solver_arg}}, **kw))


# --------------------------------------------------------- the stack of levels
def levels():
    return Vec(fresh('lv.n'), Rec('Clingcon::Level', {k: fresh(k, A1) for k in ('level_', 'undo_lower_offset_', 'undo_upper_offset_', 'inactive_offset_', 'removed_var_watches_offset_')}))


def this_solver(e, st):
    return solver_shape(e, 'this', dict(extra(), levels_=levels()))


UNDONE = ('glob', 'undone')


def setup2(e, st, fd):
    setup(e, st, fd)
    st.store[UNDONE] = Rec('U', {'calls': I(0), 'level': fresh('ul'), 'offs': fresh('uo')})


def lvl_sum(T):
    return T.f['undo_lower_offset_'] + 2 * T.f['undo_upper_offset_'] + 3 * T.f['inactive_offset_'] + 5 * T.f['removed_var_watches_offset_']


def undo_effect(c, s):
    g = s.store[UNDONE]
    s.store[UNDONE] = Rec('U', {'calls': g.f['calls'] + 1, 'level': c.old.f['level_'], 'offs': lvl_sum(c.old)})


C2 = cs_contracts()
C2['Clingcon::Level::undo'] = Contract(effect=undo_effect)


def last(L):
    return select(L.el, L.n - 1)


def su_ens(c):
    a, b, g = c.old.f['levels_'], c.this.f['levels_'], c.glob(UNDONE)
    return [('one level less', b.n == a.n - 1), ('the last level is undone once', z3.And(g.f['calls'] == 1, g.f['level'] == last(a).f['level_'], g.f['offs'] == lvl_sum(last(a)))),
            ('other levels', z3.And(*[a.el.f[k] == b.el.f[k] for k in a.el.f]))]


UNITS.append(Unit('C10', TU_, 'Clingcon::Solver::undo', Contract(requires=lambda c: sizes(c.old) + [('levels', c.old.f['levels_'].n >= 1)], ensures=su_ens, modifies=[('this', 'levels_'), ('this', 'stats_'), ('glob', UNDONE)]),
                  name='C10/Solver::undo', opts={'thisval': this_solver}, **dict(kw, setup=setup2, contracts=C2)))


def pl_ens(c):
    a, b, S = c.old.f['levels_'], c.this.f['levels_'], c.old
    op = last(a).f['level_'] < c.o(0)
    T = last(b)
    return [('opened if deeper', z3.And(b.n == z3.If(op, a.n + 1, a.n))),
            ('new level', z3.Implies(op, z3.And(T.f['level_'] == c.o(0), T.f['undo_lower_offset_'] == S.f['undo_lower_'].n, T.f['undo_upper_offset_'] == S.f['undo_upper_'].n,
                                                T.f['inactive_offset_'] == S.f['inactive_'].n, T.f['removed_var_watches_offset_'] == S.f['removed_var_watches_'].n))),
            ('other levels', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < a.n), z3.And(*[z3.Select(b.el.f[k], q_) == z3.Select(a.el.f[k], q_) for k in a.el.f])), patterns=[z3.Select(b.el.f['level_'], q_)]))]


UNITS.append(Unit('C10', TU_, 'Clingcon::Solver::push_level_', Contract(requires=lambda c: sizes(c.old) + [('levels', c.old.f['levels_'].n >= 1)], ensures=pl_ens, modifies=[('this', 'levels_')]),
                  name='C10/Solver::push_level_', opts={'thisval': this_solver}, **kw))


# --------------------------------------------------------- pending changes reach every watching constraint; the queue is exact
# ghost: pos = place in the queue of marked constraints, wants = the constraint reported (result of update) that it needs propagation
G2_ = ('glob', 'cs')


def setup_q(root):
    def f(e, st, fd):
        setup(e, st, fd)
        c = st.store[CS]
        st.store[CS] = Rec('CS', dict(c.f, pos=fresh('cs.pos', A1), wants=fresh('cs.wants', AB), need=fresh('cs.need', AB)))
        st.store[('glob', 'root')] = I(0)
    return f


def queue_contracts(root):
    C = dict(cs_contracts())

    def mark_effect(c, s):
        g = s.store[CS]
        i, old = c.old.f['id'], z3.Select(c.oglob(CS).f['todo'], c.old.f['id'])
        s.store[CS] = Rec('CS', dict(g.f, todo=z3.Store(g.f['todo'], i, c.o(0)), pos=z3.If(z3.And(c.o(0), z3.Not(old)), z3.Store(g.f['pos'], i, s.store[root].f['todo_'].n), g.f['pos'])))
    C['Clingcon::AbstractConstraintState::mark_todo/1'] = Contract(res=lambda c, s: z3.Select(c.oglob(CS).f['todo'], c.old.f['id']), effect=mark_effect)

    def upd_effect(c, s):
        g, i = s.store[CS], c.old.f['id']
        s.store[CS] = Rec('CS', dict(g.f, upd=g.f['upd'] + WU(c.o(0), i) * c.o(1), wants=z3.Store(g.f['wants'], i, z3.Or(z3.Select(g.f['wants'], i), c.res))))
    C['Clingcon::AbstractConstraintState::update/2'] = Contract(ret='bool', effect=upd_effect)
    return C


def queue(S, G):
    """the marked constraints are exactly the queued ones, each is queued once"""
    t = S.f['todo_']
    x = z3.Select(t.el.f['id'], p_)
    P = z3.Select(G.f['pos'], u_)
    return [('marked if queued', fa([p_], z3.Implies(z3.And(0 <= p_, p_ < t.n), z3.And(z3.Select(G.f['todo'], x), z3.Select(G.f['pos'], x) == p_)), x)),
            ('queued if marked', fa([u_], z3.Implies(z3.Select(G.f['todo'], u_), z3.And(0 <= P, P < t.n, z3.Select(t.el.f['id'], P) == u_)), z3.Select(G.f['todo'], u_))),
            ('length', t.n >= 0)]


def served(G):
    w = z3.Select(G.f['wants'], u_)
    return [('whoever needs propagation is queued', fa([u_], z3.Implies(w, z3.Or(z3.Select(G.f['todo'], u_), z3.Select(G.f['lvl'], u_) > 0)), w))]


def kept_marks(G, G0):
    m = z3.Select(G0.f['todo'], u_)
    w = z3.Select(G0.f['wants'], u_)
    return [('marks stay', fa([u_], z3.Implies(m, z3.Select(G.f['todo'], u_)), m)), ('wants stay', fa([u_], z3.Implies(w, z3.Select(G.f['wants'], u_)), w)), ('activity', G.f['lvl'] == G0.f['lvl'])]


def ucq_inv(L):
    G = L.st.store[CS]
    return rm_inv(L)[:1] + queue(L.p(0), G) + served(G) + kept_marks(G, L.entry.store[CS])


UCQ = Contract(requires=lambda c: sizes(c.o(0)) + [('variable', z3.And(c.o(1) == V0, 0 <= V0, V0 < c.o(0).f['var2vs_'].n))] + queue(c.o(0), c.oglob(CS)) + served(c.oglob(CS)),
               ensures=lambda c: queue(c.a(0), c.glob(CS)) + served(c.glob(CS)) + kept_marks(c.glob(CS), c.oglob(CS)),
               modifies=[(0, 'var_watches_'), (0, 'removed_var_watches_'), (0, 'todo_'), ('glob', CS)])
UNITS.append(Unit('C10', TU_, 'Clingcon::Level::update_constraints_', UCQ, name='C10/Level::update_constraints_/queue', loops={('Level::update_constraints_', 'remove_if'): LoopSpec(ucq_inv)},
                  opts={'thisval': level, 'args': {0: solver_arg}}, **dict(kw, setup=setup_q(('param', 0)), contracts=queue_contracts(('param', 0)))))


# --------------------------------------------------------- the propagation loop
GV = ('glob', 'gv')
LIT = z3.Function('LIT10', INT, INT)


def check_this(e, st):
    fm = Vec(fresh('fm.n'), Rec('tuple', {str(k): fresh('fm%d' % k, A1) for k in range(4)}))
    return solver_shape(e, 'this', dict(extra(), levels_=levels(), factmap_=fm))


def setup_c(e, st, fd):
    setup_q(('this',))(e, st, fd)
    st.store[GV] = Rec('GV', {'given': I(0), 'made': fresh('made'), 'pl': fresh('pl', A1), 'pu': fresh('pu', A1), 'conf': z3.BoolVal(False)})


def at(S, w, v):
    return z3.Select(diffs(S, w).el, v)


def waiting(S, g, w, k=None):
    """changed variables are listed (from place k on)"""
    lst = S.f['in_ldiff_' if w == 'l' else 'in_udiff_']
    P = z3.Select(g.f['p' + w], u_)
    x = z3.Select(lst.el, p_)
    nv = S.f['var2vs_'].n
    return [('changed variables are listed ' + w, z3.ForAll([u_], z3.Implies(z3.And(0 <= u_, u_ < nv, at(S, w, u_) != 0), z3.And((I(0) if k is None else k) <= P, P < lst.n, z3.Select(lst.el, P) == u_)), patterns=[at(S, w, u_)])),
            ('listed variables ' + w, z3.ForAll([p_], z3.Implies(z3.And(0 <= p_, p_ < lst.n), z3.And(0 <= x, x < nv)), patterns=[x]))]


def delivered(S, g):
    return [('the changes of a variable are delivered exactly once', g.f['made'] == g.f['given'] + at(S, 'l', V0) + at(S, 'u', V0))]


def needs(G):
    """ghost: every queued constraint has to be propagated"""
    n = z3.Select(G.f['need'], u_)
    return [('needed if marked', z3.ForAll([u_], z3.Implies(n, z3.Select(G.f['todo'], u_)), patterns=[n]))]


def domain_ok(c, s=None):
    S, S2 = c.old, c.this
    return S, S2


def inner(c):
    """receiver solver before and after, if the callee is a member of Solver"""
    return c.old, c.this


def udq_ens(c):
    S, S2, g, g2 = c.old, c.this, c.oglob(GV), c.glob(GV)
    out = sizes(S2) + waiting(S2, g2, 'l') + waiting(S2, g2, 'u')
    return out + [('made', z3.And(g2.f['made'] == g.f['made'] + at(S2, 'l', V0) + at(S2, 'u', V0) - at(S, 'l', V0) - at(S, 'u', V0), g2.f['given'] == g.f['given'], g2.f['conf'] == g.f['conf'])), ('variables', S2.f['var2vs_'].n == S.f['var2vs_'].n),
                  ('facts are applied', z3.Implies(c.res, S2.f['factmap_'].n == 0))]


def ucc_req(c):
    v = c.o(1)
    return [('variable', z3.And(0 <= v, v < c.o(0).f['var2vs_'].n))] + queue(c.o(0), c.oglob(CS)) + served(c.oglob(CS)) + [('change of the variable', z3.Or(c.o(2) == at(c.o(0), 'l', v), c.o(2) == at(c.o(0), 'u', v)))]


def ucc_ens(c):
    S, S2, G, G2, g, g2 = c.o(0), c.a(0), c.oglob(CS), c.glob(CS), c.oglob(GV), c.glob(GV)
    n, t = z3.Select(G2.f['need'], u_), z3.Select(G2.f['todo'], u_)
    return queue(S2, G2) + served(G2) + kept_marks(G2, G) + [
        ('sizes', z3.And(S2.f['var_watches_'].n == S.f['var_watches_'].n, S2.f['removed_var_watches_'].n < 2**40, S2.f['todo_'].n < 2**40)),
        ('given', z3.And(g2.f['given'] == g.f['given'] + z3.If(c.o(1) == V0, c.o(2), 0), g2.f['made'] == g.f['made'], g2.f['conf'] == g.f['conf'], g2.f['pl'] == g.f['pl'], g2.f['pu'] == g.f['pu'])),
        ('need', z3.ForAll([u_], n == z3.Or(z3.Select(G.f['need'], u_), z3.And(t, z3.Not(z3.Select(G.f['todo'], u_)))), patterns=[n, t]))]


def handled(c, s):
    g, i = s.store[CS], c.old.f['id']
    s.store[CS] = Rec('CS', dict(g.f, need=z3.Store(g.f['need'], i, False), wants=z3.Store(g.f['wants'], i, False)))


def prop_effect(c, s):
    handled(c, s)
    g = s.store[GV]
    s.store[GV] = Rec('GV', dict(g.f, conf=z3.Or(g.f['conf'], z3.Not(c.res))))


def off_effect(c, s):
    g, i = s.store[CS], c.o(1).f['id']
    s.store[CS] = Rec('CS', dict(g.f, need=z3.Store(g.f['need'], i, False), wants=z3.Store(g.f['wants'], i, False)))


def check_contracts():
    C = queue_contracts(('this',))
    C['Clingcon::Solver::update_domain_'] = Contract(ret='bool', requires=lambda c: [('facts', c.o(1) == 1)], ensures=udq_ens,
                                                     modifies=[('this', k) for k in ('var2vs_', 'factmap_', 'ldiff_', 'udiff_', 'in_ldiff_', 'in_udiff_', 'undo_lower_', 'undo_upper_', 'stats_')] + [('glob', GV)])
    C['Clingcon::Level::update_constraints_'] = Contract(requires=ucc_req, ensures=ucc_ens, modifies=[(0, 'var_watches_'), (0, 'removed_var_watches_'), (0, 'todo_'), ('glob', CS), ('glob', GV)])
    C['Clingcon::Level::mark_inactive'] = Contract(requires=lambda c: [('only if the literal is false', is_false(c.glob(('glob', 'ass')), LIT(c.o(1).f['id'])))], modifies=[(0, 'inactive_'), ('glob', CS, 'lvl')],
                                                   ensures=lambda c: [('list', c.a(0).f['inactive_'].n < 2**40), ('marks', z3.ForAll([u_], z3.Implies(z3.Select(c.oglob(CS).f['lvl'], u_) > 0, z3.Select(c.glob(CS).f['lvl'], u_) > 0), patterns=[z3.Select(c.glob(CS).f['lvl'], u_)]))],
                                                   effect=off_effect)
    C['Clingcon::AbstractConstraintState::propagate/3'] = Contract(ret='bool', modifies=[(0, 'factmap_')], effect=prop_effect)
    C['Clingcon::AbstractConstraintState::constraint/0'] = Contract(res=lambda c, s: Rec('Con', {'id': c.old.f['id']}))
    C['Clingcon::AbstractConstraint::literal/0'] = Contract(res=lambda c, s: LIT(c.old.f['id']))
    return C


def base_inv(L):
    S, G, g = L.get(L.this), L.st.store[CS], L.st.store[GV]
    return sizes(S) + [('levels', S.f['levels_'].n >= 1), ('variable', z3.And(0 <= V0, V0 < S.f['var2vs_'].n))] + delivered(S, g) + served(G)


def ck_outer(L):
    S, G, g = L.get(L.this), L.st.store[CS], L.st.store[GV]
    return base_inv(L) + waiting(S, g, 'l') + waiting(S, g, 'u') + queue(S, G) + needs(G) + [('variables', S.f['var2vs_'].n == L.old(L.this).f['var2vs_'].n), ('no conflict so far', z3.Not(g.f['conf']))]


def ck_diff(w):
    def inv(L):
        S, G, g = L.get(L.this), L.st.store[CS], L.st.store[GV]
        o = 'u' if w == 'l' else 'l'
        S0 = L.old(L.this)
        return base_inv(L) + queue(S, G) + needs(G) + waiting(S, g, w, L.k) + [('index', z3.And(0 <= L.k, L.k <= S.f['in_%sdiff_' % w].n)), ('same', z3.And(g.f['p' + o] == L.entry.store[GV].f['p' + o], g.f['p' + w] == L.entry.store[GV].f['p' + w])),
                                                                              ('no conflict so far', z3.Not(g.f['conf']))]
    return inv


def ck_todo(L):
    S, G, g = L.get(L.this), L.st.store[CS], L.st.store[GV]
    G0 = L.entry.store[CS]
    t, n, w = [z3.Select(G.f[x], u_) for x in ('todo', 'need', 'wants')]
    later = z3.And(z3.Select(G0.f['todo'], u_), z3.Select(G0.f['pos'], u_) >= L.k)
    return [('index', z3.And(0 <= L.k, L.k <= S.f['todo_'].n)), ('marks', z3.ForAll([u_], t == later, patterns=[t])),
            ('everything before was propagated or is inactive', z3.Implies(L['ret'], z3.ForAll([u_], z3.Implies(n, later), patterns=[n]))),
            ('conflict', g.f['conf'] == z3.Not(L['ret'])),
            ('no needs left behind', z3.Implies(L['ret'], z3.ForAll([u_], z3.Implies(w, z3.Or(later, z3.Select(G.f['lvl'], u_) > 0)), patterns=[w]))),
            ('list', S.f['inactive_'].n < 2**40), ('facts', S.f['factmap_'].n >= 0)]


def ck_req(c):
    S, G, g = c.old, c.oglob(CS), c.oglob(GV)
    return sizes(S) + [('levels', S.f['levels_'].n >= 1), ('facts', S.f['factmap_'].n >= 0), ('variable', z3.And(0 <= V0, V0 < S.f['var2vs_'].n)), ('no conflict so far', z3.Not(g.f['conf']))] + waiting(S, g, 'l') + waiting(S, g, 'u') + delivered(S, g) + queue(S, G) + needs(G) + served(G)


def ck_ens(c):
    S, S2, G, g, A = c.old, c.this, c.glob(CS), c.glob(GV), c.oglob(('glob', 'ass'))
    lv = last(S.f['levels_']).f['level_']
    early = z3.And(A.f['DL'] != lv, lv >= S.f['minimize_level_'])
    ok = z3.And(c.res, z3.Not(early))
    inr = z3.And(0 <= u_, u_ < S2.f['var2vs_'].n)
    return [('no pending changes', z3.Implies(ok, z3.ForAll([u_], z3.Implies(inr, z3.And(at(S2, 'l', u_) == 0, at(S2, 'u', u_) == 0)), patterns=[at(S2, 'l', u_), at(S2, 'u', u_)]))),
            ('all changes were delivered once', z3.Implies(ok, g.f['given'] == g.f['made'])),
            ('nothing queued', z3.Implies(ok, z3.And(S2.f['todo_'].n == 0, S2.f['in_ldiff_'].n == 0, S2.f['in_udiff_'].n == 0))),
            ('nothing marked', z3.Implies(ok, z3.ForAll([u_], z3.Not(z3.Select(G.f['todo'], u_)), patterns=[z3.Select(G.f['todo'], u_)]))),
            ('every queued constraint was propagated or its literal is false', z3.Implies(ok, z3.ForAll([u_], z3.Not(z3.Select(G.f['need'], u_)), patterns=[z3.Select(G.f['need'], u_)]))),
            ('no facts left', z3.Implies(ok, S2.f['factmap_'].n == 0)), ('a conflict is reported', z3.Implies(g.f['conf'], z3.Not(c.res)))] + queue(S2, G)


UNITS.append(Unit('C10', TU_, 'Clingcon::Solver::check', Contract(requires=ck_req, ensures=ck_ens, modifies=[('this',), ('glob', CS), ('glob', GV), ('glob', ('glob', 'ass'))]), name='C10/Solver::check',
                  loops={('Solver::check', 0): LoopSpec(ck_outer), ('Solver::check', 1): LoopSpec(ck_diff('u')), ('Solver::check', 2): LoopSpec(ck_diff('l')), ('Solver::check', 3): LoopSpec(ck_todo)},
                  opts={'thisval': check_this}, **dict(kw, setup=setup_c, contracts=check_contracts())))
