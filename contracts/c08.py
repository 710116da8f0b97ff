"""C08: order literals, domains and one-variable constraints mean what they say."""
import z3
from sem import *
from engine import NONE, Unsupported, Rec, Vec, MapV, Ref, LV, It, MIt, select
from spec import LoopSpec, Contract, Unit

TU_ = 'src/solver.cc'
A1 = z3.ArraySort(INT, INT)
AA = z3.ArraySort(INT, A1)
TAB = ('glob', 'tab')
STA = ('glob', 'static')
X0 = z3.Int('X0')
x_, v_, u_, o_ = z3.Ints('x!08 v!08 u!08 o!08')
r_ = z3.Const('r!08', A1)
sel = z3.Select

# nearest recorded literal below / above a value, and where it is (0: none)
LT, LTV = z3.Function('LT', A1, INT, INT), z3.Function('LTV', A1, INT, INT)
GT, GTV = z3.Function('GT', A1, INT, INT), z3.Function('GTV', A1, INT, INT)


def fa(vs, body, *pats):
    """forall with patterns, where they are admissible"""
    if all(_okpat(p) for p in pats):
        return z3.ForAll(vs, body, patterns=list(pats))
    return z3.ForAll(vs, body)


def fa2(vs, body, *pats):
    """the same with one pattern of several terms"""
    return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*pats)]) if all(_okpat(p) for p in pats) else z3.ForAll(vs, body)


def _okpat(t):
    k = t.decl().kind() if z3.is_app(t) else None
    if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        return False
    return all(_okpat(x) for x in t.children())


def near_axioms():
    out = []
    for F, FV, side, between in ((LT, LTV, lambda u, v: u < v, lambda w, u, v: z3.And(w < u, u < v)), (GT, GTV, lambda u, v: u > v, lambda w, u, v: z3.And(v < u, u < w))):
        l, w = F(r_, v_), FV(r_, v_)
        out.append(z3.ForAll([r_, v_], z3.Implies(l != 0, z3.And(side(w, v_), sel(r_, w) == l)), patterns=[l]))
        out.append(z3.ForAll([r_, v_, u_], z3.Implies(z3.And(l == 0, side(u_, v_)), sel(r_, u_) == 0), patterns=[z3.MultiPattern(l, sel(r_, u_))]))
        out.append(z3.ForAll([r_, v_, u_], z3.Implies(z3.And(l != 0, between(w, u_, v_)), sel(r_, u_) == 0), patterns=[z3.MultiPattern(l, sel(r_, u_))]))
    return out


l_, w_ = z3.Ints('l!08 w!08')


def row_update(r, v, l, w):
    """how the neighbours change with one cell of a row"""
    up, low = z3.And(GT(r, v) != 0, GTV(r, v) == w), z3.And(LT(r, v) != 0, LTV(r, v) == w)
    q = z3.Store(r, v, l)
    g = z3.Or(w == v, sel(r, w) != 0)
    return [z3.Implies(g, LT(q, w) == z3.If(up, z3.If(l != 0, l, LT(r, v)), LT(r, w))), z3.Implies(g, GT(q, w) == z3.If(low, z3.If(l != 0, l, GT(r, v)), GT(r, w)))]


def row_axioms():
    a, b = row_update(r_, v_, l_, w_)
    q = z3.Store(r_, v_, l_)
    return [z3.ForAll([r_, v_, l_, w_], a, patterns=[LT(q, w_)]), z3.ForAll([r_, v_, l_, w_], b, patterns=[GT(q, w_)])]


class Lemma:
    lemma = True

    def __init__(self, prop, name, gen):
        self.prop, self.name, self.gen, self.fn, self.tu, self.timeout = prop, name, gen, name, None, None


def row_lemmas():
    r, v, l, w = z3.Const('r0', A1), z3.Int('v0'), z3.Int('l0'), z3.Int('w0')
    q = z3.Store(r, v, l)
    # the terms at which the definitions are used
    ts = [F(s, x) for F in (LT, GT, LTV, GTV) for s in (r, q) for x in (v, w)]
    vs = [v, w] + [F(s, x) for F in (LTV, GTV) for s in (r, q) for x in (v, w)]
    inst = []
    for F, FV, side, between in ((LT, LTV, lambda u, v: u < v, lambda w, u, v: z3.And(w < u, u < v)), (GT, GTV, lambda u, v: u > v, lambda w, u, v: z3.And(v < u, u < w))):
        for s in (r, q):
            for x in (v, w):
                f, n = F(s, x), FV(s, x)
                inst.append(z3.Implies(f != 0, z3.And(side(n, x), sel(s, n) == f)))
                for u in vs:
                    inst += [z3.Implies(z3.And(f == 0, side(u, x)), sel(s, u) == 0), z3.Implies(z3.And(f != 0, between(n, u, x)), sel(s, u) == 0)]
    a, b = row_update(r, v, l, w)
    return [('below', inst, a), ('above', inst, b)]


def prv(row, v):
    return z3.If(LT(row, v) == 0, -1, LT(row, v))


def suc(row, v):
    return z3.If(GT(row, v) == 0, 1, GT(row, v))


def tab(c, old=False):
    return (c.oglob(TAB) if old else c.glob(TAB)).f['T'].el.el


def absz(l):
    return z3.If(l < 0, -l, l)


def ent(S):
    return S.f['litmap_'].el.f


def valid(S, l):
    o = absz(l) - 1
    return z3.And(0 <= o, o < S.f['litmap_'].n, sel(ent(S)['prev_'], o) != 0, (sel(ent(S)['sign_'], o) == 1) == (l > 0))


def elit(S, o):
    return z3.If(sel(ent(S)['sign_'], o) == 1, o + 1, -(o + 1))


def nvars(S):
    return S.f['var2vs_'].n


FRESH = ('glob', 'fresh')


def inv_lits(S, T, F):
    """the literals of the table are solver literals"""
    t = sel(sel(T, x_), v_)
    return ('table literals', z3.And(F >= 2, F <= 2**31, fa([x_, v_], z3.And(t > -F, t < F), t)))


MEAN = z3.Function('MEAN', AA, BOOL)
BADX, BADV = z3.Function('BADX', AA, INT), z3.Function('BADV', AA, INT)


def inv_mean(S, T):
    """the order literal of (x, v) says x <= v"""
    return ('meaning', MEAN(T))


def mean_axioms():
    T, U = z3.Const('T!08', AA), z3.Const('U!08', AA)
    w = sel(sel(U, BADX(T)), BADV(T))
    t, b = sel(sel(T, x_), v_), sel(sel(T, BADX(T)), BADV(T))
    return [z3.ForAll([T, x_, v_], z3.Implies(z3.And(MEAN(T), t != 0), TT(t) == (SG(x_) <= v_)), patterns=[z3.MultiPattern(MEAN(T), t)]),
            z3.ForAll([T], z3.Or(MEAN(T), z3.And(b != 0, TT(b) != (SG(BADX(T)) <= BADV(T)))), patterns=[MEAN(T)]),
            # instance of the first one at the witness of another table
            z3.ForAll([T, U], z3.Implies(z3.And(MEAN(U), w != 0), z3.Or(MEAN(T), TT(w) == (SG(BADX(T)) <= BADV(T)))), patterns=[z3.MultiPattern(MEAN(T), MEAN(U))])]


def inv_map(S, T):
    """every valid entry of the literal map describes an order literal and its neighbours"""
    e, o = ent(S), o_
    row, val = sel(T, sel(e['var_'], o)), sel(e['value_'], o)
    g = z3.And(0 <= o, o < S.f['litmap_'].n, sel(e['prev_'], o) != 0)
    ok = z3.And(o >= 1, sel(e['value_'], o) >= MINV, sel(e['value_'], o) <= MAXV, 0 <= sel(e['var_'], o), sel(e['var_'], o) < nvars(S))
    q = lambda f: fa([o], z3.Implies(g, f), sel(e['prev_'], o))
    return [('entries', q(ok)), ('literal map', q(sel(row, val) == elit(S, o))), ('preceding literals', q(sel(e['prev_'], o) == prv(row, val))), ('succeeding literals', q(sel(e['succ_'], o) == suc(row, val)))]


def inv_back(S, T):
    """every order literal that is not a constant has its entry"""
    t = sel(sel(T, x_), v_)
    o = absz(t) - 1
    return ('every literal is in the map', fa([x_, v_], z3.Implies(z3.And(t != 0, absz(t) != 1), z3.And(valid(S, t), sel(ent(S)['var_'], o) == x_, sel(ent(S)['value_'], o) == v_)), t))


def inv_misc(S):
    e = ent(S)
    r = lambda k, lo, hi: fa([o_], z3.And(sel(e[k], o_) > lo, sel(e[k], o_) < hi), sel(e[k], o_))
    return [('sizes', z3.And(S.f['litmap_'].n >= 0, S.f['litmap_'].n < 2**31, S.f['factmap_'].n >= 0)), ('signs', r('sign_', -1, 2)),
            ('range of preceding', r('prev_', -2**31, 2**31)), ('range of succeeding', r('succ_', -2**31, 2**31))]


def inv(S, T, F, mean=True):
    return [inv_lits(S, T, F)] + inv_map(S, T) + [inv_back(S, T)] + inv_misc(S) + ([inv_mean(S, T)] if mean else [])


def extra():
    return {'litmap_': Vec(fresh('lm.n'), Rec('Clingcon::LitmapEntry', {k: fresh('lm.' + k, A1) for k in ('var_', 'sign_', 'value_', 'prev_', 'succ_')})),
            'factmap_': Vec(fresh('fm.n'), Rec('tuple', {str(i): fresh('fm.%d' % i, A1) for i in range(4)}))}


def solver_this(e, st):
    return solver_shape(e, 's', extra())


def setup(e, st, fd):
    put_ass(st)
    st.store[TAB] = Rec('Tab', {'T': Vec(I(0), Vec(fresh('tabn', A1), fresh('TABLE', AA)))})
    st.store[STA] = Rec('Clingcon::LitmapEntry', {'var_': I(0), 'sign_': I(0), 'value_': I(0), 'prev_': I(0), 'succ_': I(0)})
    st.store[('glob', 'fresh')] = fresh('nextlit')
    st.store[('glob', 'added')] = z3.BoolVal(True)


def vs_ref(e, st):
    return LV(('this',)).sub(('f', 'var2vs_'), ('i', X0))


# ------------------------------------------------------------ the table of a variable (C09)
def table_contracts():
    C = std_contracts()
    for k in ('Clingcon::Solver::get_literal', 'Clingcon::Solver::update_literal'):
        del C[k]
    row = lambda c, old=True: sel(tab(c, old), c.old.f['var_'])
    V = 'Clingcon::VarState::'
    rng = lambda c: [('value in range or recorded', z3.Or(z3.And(minb1(c.old) <= c.o(0), c.o(0) < maxb1(c.old)), sel(row(c), c.o(0)) != 0))]
    C[V + 'has_literal'] = Contract(requires=rng, res=lambda c, s: sel(row(c), c.o(0)) != 0)
    C[V + 'get_literal'] = Contract(requires=rng, ret='std::optional<int>', ensures=lambda c: [('recorded', c.res.f['has'] == (sel(row(c), c.o(0)) != 0)), ('literal', z3.Implies(c.res.f['has'], c.res.f['val'] == sel(row(c), c.o(0))))])
    C[V + 'lit_lt'] = Contract(res=lambda c, s: LT(row(c), c.o(0)))
    C[V + 'lit_gt'] = Contract(res=lambda c, s: GT(row(c), c.o(0)))
    C[V + 'lit_prev'] = Contract(res=lambda c, s: prv(row(c), c.o(0)))
    C[V + 'lit_succ'] = Contract(res=lambda c, s: suc(row(c), c.o(0)))
    C[V + 'get_or_add_literal'] = Contract(requires=rng,
                                           res=lambda c, s: Ref(LV(TAB).sub(('f', 'T'), ('i', c.old.f['var_']), ('i', c.o(0)))))
    C[V + 'set_literal'] = Contract(requires=lambda c: rng(c) + [('literal', c.o(1) != 0)], modifies=[('glob', TAB)],
                                    ensures=lambda c: [('set', tab(c) == z3.Store(tab(c, True), c.old.f['var_'], z3.Store(row(c), c.o(0), c.o(1))))])
    C[V + 'unset_literal'] = Contract(requires=rng, modifies=[('glob', TAB)], ensures=lambda c: [('unset', tab(c) == z3.Store(tab(c, True), c.old.f['var_'], z3.Store(row(c), c.o(0), I(0))))])

    def al_facts(c):
        l = c.res
        return [l == c.oglob(FRESH), l < 2**31, c.glob(FRESH) > l, c.glob(FRESH) <= 2**31, TT(-l) == z3.Not(TT(l))] + litfacts(c.glob(('glob', 'ass')), l)
    C['Clingcon::AbstractClauseCreator::add_literal'] = Contract(ret='int', modifies=[('glob', FRESH)], facts=al_facts)
    C['Clingcon::AbstractClauseCreator::add_watch'] = Contract()
    return C


def minb1(v):
    s = v.f['lower_bound_stack_']
    return z3.If(s.n == 0, v.f['lower_bound_'], sel(s.el.f['second'], 0))


def maxb1(v):
    s = v.f['upper_bound_stack_']
    return z3.If(s.n == 0, v.f['upper_bound_'], sel(s.el.f['second'], 0))


# ------------------------------------------------------------ update_litmap_
def ul_ens(c):
    """the neighbours of the value get the literal (or each other) as neighbour"""
    S, S2, lit, val = c.old, c.this, c.o(1), c.o(2)
    vs = c.o(0)
    row = sel(tab(c, True), vs.f['var_'])
    p, s = LT(row, val), GT(row, val)
    e, e2 = ent(S), ent(S2)
    np, ns = z3.If(lit != 0, lit, prv(row, val)), z3.If(lit != 0, lit, suc(row, val))
    out = [('previous', c.res.f['first'] == prv(row, val)), ('next', c.res.f['second'] == suc(row, val)), ('size', S2.f['litmap_'].n == S.f['litmap_'].n),
           ('successor of the previous', fa([o_], sel(e2['succ_'], o_) == z3.If(z3.And(p != 0, o_ == absz(p) - 1, valid(S, p)), ns, sel(e['succ_'], o_)), sel(e2['succ_'], o_))),
           ('predecessor of the next', fa([o_], sel(e2['prev_'], o_) == z3.If(z3.And(s != 0, o_ == absz(s) - 1, valid(S, s)), np, sel(e['prev_'], o_)), sel(e2['prev_'], o_)))]
    out += [('entries keep ' + k, e2[k] == e[k]) for k in ('var_', 'sign_', 'value_')]
    return out


NUM = lambda c: solver_inv(c.old)


def ul_req(c):
    S, T = c.old, tab(c, True)
    return NUM(c) + [('variable', z3.And(0 <= X0, X0 < nvars(S)))] + [inv_lits(S, T, c.oglob(FRESH))] + inv_misc(S)


C8 = table_contracts()
UL = Contract(requires=lambda c: [inv_lits(c.old, tab(c, True), c.oglob(FRESH)), ('literal', z3.And(c.o(1) > -2**31, c.o(1) < 2**31))] + inv_misc(c.old), ensures=ul_ens, modifies=[('this', 'litmap_')],
              ret='std::pair<int, int>')
kw = dict(setup=setup, eng=PropExec, assume=lambda c: near_axioms() + row_axioms() + mean_axioms())
UNITS = [Lemma('C08', 'C08/lemma: how the neighbours change with one entry', row_lemmas), Unit('C08', TU_, 'Clingcon::Solver::update_litmap_', Contract(requires=lambda c: ul_req(c) + UL.requires(c), ensures=ul_ens, modifies=UL.modifies), name='C08/Solver::update_litmap_',
              contracts=C8, opts={'thisval': solver_this, 'args': {0: vs_ref}}, **kw)]


# ------------------------------------------------------------ litmap_add_
def la_ens(c):
    """the entry of the literal is written, its neighbours are told"""
    S, S2, val, lit = c.old, c.this, c.o(1), c.o(2)
    vs = c.o(0)
    row = sel(tab(c, True), vs.f['var_'])
    p, s = LT(row, val), GT(row, val)
    e, e2, n, n2 = ent(S), ent(S2), S.f['litmap_'].n, S2.f['litmap_'].n
    off = absz(lit) - 1
    here = z3.And(o_ == off)
    keep = z3.And(o_ != off, 0 <= o_, o_ < n)
    out = [('size', n2 == z3.If(n <= off, off + 1, n)),
           ('entry', z3.And(sel(e2['var_'], off) == vs.f['var_'], sel(e2['value_'], off) == val, sel(e2['sign_'], off) == z3.If(lit > 0, 1, 0), sel(e2['prev_'], off) == prv(row, val), sel(e2['succ_'], off) == suc(row, val))),
           ('new entries are unused', fa([o_], z3.Implies(z3.And(n <= o_, o_ < n2, o_ != off), z3.And(sel(e2['prev_'], o_) == 0, sel(e2['sign_'], o_) >= 0, sel(e2['sign_'], o_) <= 1, sel(e2['succ_'], o_) == 0)), sel(e2['prev_'], o_), sel(e2['sign_'], o_), sel(e2['succ_'], o_))),
           ('successor of the previous', fa([o_], z3.Implies(keep, sel(e2['succ_'], o_) == z3.If(z3.And(p != 0, o_ == absz(p) - 1, valid(S, p)), lit, sel(e['succ_'], o_))), sel(e2['succ_'], o_))),
           ('predecessor of the next', fa([o_], z3.Implies(keep, sel(e2['prev_'], o_) == z3.If(z3.And(s != 0, o_ == absz(s) - 1, valid(S, s)), lit, sel(e['prev_'], o_))), sel(e2['prev_'], o_)))]
    out += [('entries keep ' + k, fa([o_], z3.Implies(keep, sel(e2[k], o_) == sel(e[k], o_)), sel(e2[k], o_))) for k in ('var_', 'sign_', 'value_')]
    return out


def la_req(c):
    return [inv_lits(c.old, tab(c, True), c.oglob(FRESH)), ('literal', z3.And(c.o(2) > -2**31, c.o(2) < 2**31, c.o(2) != 0))] + inv_misc(c.old)


LA = Contract(requires=la_req, ensures=la_ens, modifies=[('this', 'litmap_')])
C8a = dict(C8)
C8a['Clingcon::Solver::update_litmap_'] = UL
UNITS.append(Unit('C08', TU_, 'Clingcon::Solver::litmap_add_', Contract(requires=lambda c: NUM(c) + [('variable', z3.And(0 <= X0, X0 < nvars(c.old)))] + la_req(c), ensures=la_ens, modifies=LA.modifies), name='C08/Solver::litmap_add_',
                  contracts=C8a, opts={'thisval': solver_this, 'args': {0: vs_ref}}, **kw))

# ------------------------------------------------------------ get_literal / update_literal
def VSR(c):
    """the argument is a variable of the solver"""
    vs = c.o(1)
    return [('argument', z3.And(0 <= vs.f['var_'], vs.f['var_'] < nvars(c.old)))]


def gl_req(c):
    return NUM(c) + VSR(c) + inv(c.old, tab(c, True), c.oglob(FRESH), mean=False) + [('value', z3.And(c.o(2) >= MINV - 1, c.o(2) <= MAXV + 1))]


def gl_ens(c):
    S, S2, val, l = c.old, c.this, c.o(2), c.res
    T, T2 = tab(c, True), tab(c)
    vs = c.o(1)
    below, above = val < minb1(vs), val >= maxb1(vs)
    v = vs.f['var_']
    was = sel(sel(T, v), val)
    now = sel(sel(T2, v), val)
    made = z3.And(z3.Not(below), z3.Not(above), was == 0)
    # the meaning of a literal made here is the one it is recorded with
    defn = z3.Implies(made, TT(now) == (SG(v) <= val))
    out = [('constant exactly if out of range', z3.And(z3.Implies(below, l == -1), z3.Implies(z3.And(z3.Not(below), above), l == 1), z3.Implies(z3.And(z3.Not(below), z3.Not(above), was == 0), absz(l) >= 2))),
           ('the recorded one', z3.Implies(z3.And(z3.Not(below), z3.Not(above)), z3.And(l == now, l != 0, z3.Implies(was != 0, l == was)))),
           ('other literals kept', fa([x_, v_], z3.Implies(z3.Not(z3.And(x_ == v, v_ == val, made)), sel(sel(T2, x_), v_) == sel(sel(T, x_), v_)), sel(sel(T2, x_), v_), sel(sel(T, x_), v_))),
           ('means x<=v', z3.Implies(z3.And(MEAN(T), defn), TT(l) == (SG(v) <= val))), ('meant x<=v', z3.Implies(MEAN(T2), z3.And(MEAN(T), TT(l) == (SG(v) <= val))))]
    out += [('fresh literals', z3.And(c.glob(FRESH) >= c.oglob(FRESH), z3.Implies(z3.And(made, absz(now) >= 2), absz(now) >= c.oglob(FRESH))))] + inv(S2, T2, c.glob(FRESH), mean=False) + [('meaning kept', z3.Implies(z3.And(MEAN(T), defn), MEAN(T2)))]
    return out


C8['Clingcon::Solver::update_litmap_'] = UL


def own(req):
    """instance of the numbering of variables at the argument"""
    return lambda c: req(c) + [('number', z3.And(c.o(1).f['var_'] == X0, 0 <= X0, X0 < nvars(c.old)))]


GLMOD = [('glob', FRESH), ('glob', TAB), ('glob', ('glob', 'ass')), ('this', 'litmap_')]
args = {1: vs_ref}
UNITS.append(Unit('C08', TU_, 'Clingcon::Solver::get_literal', Contract(requires=own(gl_req), ensures=gl_ens, modifies=GLMOD), name='C08/Solver::get_literal', contracts=C8, opts={'thisval': solver_this, 'args': args}, **kw))
GL = Contract(requires=gl_req, ensures=gl_ens, modifies=GLMOD, ret='int', facts=lambda c: evolves(c) + litfacts(c.glob(('glob', 'ass')), c.res) + [TT(-c.res) == z3.Not(TT(c.res)), c.res > -2**31, c.res < 2**31])


# facts: order literals that are constants; they are removed once they are propagated
def fm(S):
    return S.f['factmap_'].el.f


i_, j_ = z3.Ints('i!08 j!08')


def inv_fact(S, T, frm=0):
    F, n = fm(S), S.f['factmap_'].n
    l, x, v = sel(F['0'], i_), sel(F['1'], i_), sel(F['2'], i_)
    return [('facts', fa([i_], z3.Implies(z3.And(frm <= i_, i_ < n), z3.And(absz(l) == 1, 0 <= x, x < nvars(S), sel(sel(T, x), v) == l, v >= MINV, v <= MAXV)), l, x)),
            ('facts once', fa2([i_, j_], z3.Implies(z3.And(frm <= i_, i_ < j_, j_ < n), z3.Or(x != sel(F['1'], j_), v != sel(F['2'], j_))), x, sel(F['1'], j_)))]


def ulit_ens(c):
    S, S2, val, t, l = c.old, c.this, c.o(2), c.o(3), c.res
    T, T2 = tab(c, True), tab(c)
    vs = c.o(1)
    v = vs.f['var_']
    below, above = val < minb1(vs), val >= maxb1(vs)
    was = sel(sel(T, v), val)
    now = sel(sel(T2, v), val)
    made = z3.And(z3.Not(below), z3.Not(above), was == 0)
    defn = z3.Implies(made, TT(now) == (SG(v) <= val))
    dl0 = c.oglob(('glob', 'ass')).f['DL'] == 0
    fact = z3.And(dl0, t != FREE)
    out = [('constant if out of range', z3.And(z3.Implies(below, l == -1), z3.Implies(z3.And(z3.Not(below), above), l == 1))),
           ('the recorded one', z3.Implies(z3.And(z3.Not(below), z3.Not(above)), z3.And(l == now, l != 0, z3.Implies(was != 0, l == was)))),
           ('constant if it is a fact', z3.Implies(z3.And(made, fact), z3.And(z3.Implies(t == TRUE, l == 1), z3.Implies(t == FALSE, l == -1)))),
           ('not constant otherwise', z3.Implies(z3.And(made, z3.Not(fact)), absz(l) >= 2)),
           ('other literals kept', fa([x_, v_], z3.Implies(z3.Not(z3.And(x_ == v, v_ == val, made)), sel(sel(T2, x_), v_) == sel(sel(T, x_), v_)), sel(sel(T2, x_), v_), sel(sel(T, x_), v_))),
           ('means x<=v', z3.Implies(z3.And(MEAN(T), defn), TT(l) == (SG(v) <= val))), ('meant x<=v', z3.Implies(MEAN(T2), z3.And(MEAN(T), TT(l) == (SG(v) <= val))))]
    out += [('fresh literals', z3.And(c.glob(FRESH) >= c.oglob(FRESH), z3.Implies(z3.And(made, absz(now) >= 2), absz(now) >= c.oglob(FRESH))))] + inv(S2, T2, c.glob(FRESH), mean=False) + inv_fact(S2, T2) + [('meaning kept', z3.Implies(z3.And(MEAN(T), defn), MEAN(T2)))]
    return out


def ulit_req(c):
    t = c.o(3)
    return gl_req(c) + inv_fact(c.old, tab(c, True)) + [('truth value', z3.And(t >= 0, t <= 2))]


C8b = dict(C8)
C8b['Clingcon::Solver::get_literal'] = GL
ULMOD = GLMOD + [('this', 'factmap_')]
UNITS.append(Unit('C08', TU_, 'Clingcon::Solver::update_literal', Contract(requires=own(ulit_req), ensures=ulit_ens, modifies=ULMOD), name='C08/Solver::update_literal', contracts=C8b, opts={'thisval': solver_this, 'args': args}, **kw))
ULT = Contract(requires=ulit_req, ensures=ulit_ens, modifies=ULMOD, ret='int', facts=GL.facts)


# ------------------------------------------------------------ one-variable constraints
def added(c, old=False):
    return c.oglob(('glob', 'added')) if old else c.glob(('glob', 'added'))


def acl_facts(c):
    return [added(c) == z3.And(added(c, True), CL(c.o(0)))] + evolves(c)


def mono(co, s, q):
    """multiplication keeps or turns the order"""
    return [z3.Implies(z3.And(co > 0, s <= q), co * s <= co * q), z3.Implies(z3.And(co > 0, s >= q + 1), co * s >= co * (q + 1)),
            z3.Implies(z3.And(co < 0, s <= q), co * s >= co * q), z3.Implies(z3.And(co < 0, s >= q + 1), co * s <= co * (q + 1))]


def mono_lemma():
    co, s, q = z3.Ints('co s q')
    d = z3.Int('d')
    out = []
    for i, f in enumerate(mono(co, s, q)):
        # s = q - d or s = q + 1 + d with d >= 0: the products differ by co * d
        base = q if i in (0, 2) else q + 1
        sg = -1 if i in (0, 2) else 1
        out.append(('difference %d' % i, [s == base + sg * d, d >= 0, z3.Implies(co > 0, co * d >= 0), z3.Implies(co < 0, co * d <= 0), co * s == co * base + sg * (co * d)], f))
        out.append(('distribution %d' % i, [], co * (base + sg * d) == co * base + sg * (co * d)))
    out.append(('sign', [], z3.And(z3.Implies(z3.And(co > 0, d >= 0), co * d >= 0), z3.Implies(z3.And(co < 0, d >= 0), co * d <= 0))))
    return out


CLIT, CO, RHS = z3.Ints('clit0 co0 rhs0')


def fixed0(A):
    """on level 0 everything assigned is fixed"""
    l = z3.Int('l!fx')
    return ('level 0', z3.ForAll([l], z3.Implies(z3.Select(A.f['AT'], l), z3.And(z3.Select(A.f['FX'], l), TT(l))), patterns=[z3.Select(A.f['AT'], l)]))


def as_req(c):
    S, T = c.old, tab(c, True)
    A = c.oglob(('glob', 'ass'))
    co, rhs, lit = c.o(2), c.o(4), c.o(1)
    return solver_inv(S) + inv(S, T, c.oglob(FRESH)) + inv_fact(S, T) + [
        ('variable', z3.And(0 <= X0, X0 < nvars(S), c.o(3) == X0)), ('coefficient', z3.And(co != 0, co >= MINV, co <= MAXV)), ('bound', z3.And(rhs >= MINV, rhs <= MAXV)),
        ('literal', z3.And(lit != 0, absz(lit) < c.oglob(FRESH), TT(-lit) == z3.Not(TT(lit)))), ('at level 0', A.f['DL'] == 0), fixed0(A)]


def as_meaning(c):
    co, lit, rhs, strict = c.o(2), c.o(1), c.o(4), c.o(5)
    holds = co * SG(X0) <= rhs
    return z3.And(z3.Implies(TT(lit), holds), z3.Implies(z3.And(strict, holds), TT(lit)))


def as_value(c):
    q = z3.Int('quot')
    return q


def fresh_defs(c, lits=()):
    """literals introduced on the way mean what they are recorded with"""
    T, T2 = tab(c, True), tab(c)
    t, t2 = sel(sel(T, x_), v_), sel(sel(T2, x_), v_)
    known = [absz(t2) == 1] + [z3.Or(t2 == l, t2 == -l) for l in lits]
    return fa([x_, v_], z3.Implies(z3.And(t == 0, t2 != 0, z3.Not(z3.Or(*known))), TT(t2) == (SG(x_) <= v_)), t2)


def as_ens(c):
    S2, T2 = c.this, tab(c)
    K = as_meaning(c)
    ok = inv_mean(S2, T2)[1]
    F = c.oglob(FRESH)
    # a literal introduced but not recorded (conflict) stands for the literal of the constraint
    aux = z3.Implies(z3.And(T2 == tab(c, True), c.glob(FRESH) > F), TT(F) == (TT(c.o(1)) == (c.o(2) > 0)))
    out = [('only implied clauses', z3.Implies(z3.And(K, aux, fresh_defs(c, [c.o(1)])), added(c))),
           ('literals keep their meaning', z3.Implies(z3.And(K, fresh_defs(c, [c.o(1)])), ok)),
           ('exactly the constraint', z3.Implies(z3.And(c.res, added(c), ok), K))]
    return out + inv(S2, T2, c.glob(FRESH), mean=False) + inv_fact(S2, T2)


C8c = dict(C8b)
C8c['Clingcon::Solver::update_literal'] = ULT
C8c['Clingcon::AbstractClauseCreator::add_clause'] = Contract(modifies=[('glob', ('glob', 'ass')), ('glob', ('glob', 'added'))], ret='bool', facts=acl_facts)
_fl = C8c['Clingcon::floordiv<int>']
C8c['Clingcon::floordiv<int>'] = Contract(requires=_fl.requires, ensures=_fl.ensures, facts=lambda c: mono(c.o(1), SG(X0), c.res) + mono(-c.o(1), SG(X0), -c.res - 1) + [c.res >= -2**30, c.res <= 2**30])
UNITS.append(Lemma('C08', 'C08/lemma: multiplication keeps or turns the order', mono_lemma))
ASMOD = ULMOD + [('glob', ('glob', 'added'))]
UNITS.append(Unit('C08', TU_, 'Clingcon::Solver::add_simple', Contract(requires=as_req, ensures=as_ens, modifies=ASMOD), name='C08/Solver::add_simple', contracts=C8c, folds=[CL],
                  opts={'thisval': solver_this}, **kw))


# ------------------------------------------------------------ domains
def defs(c, old=False):
    return c.oglob(('glob', 'defs')) if old else c.glob(('glob', 'defs'))


def def_facts(base):
    """the table grows by literals that mean what they are recorded with (collected in the ghost 'defs')"""
    def f(c):
        v, val = c.o(1).f['var_'], c.o(2)
        was, now = sel(sel(tab(c, True), v), val), sel(sel(tab(c), v), val)
        return base(c) + [defs(c) == z3.And(defs(c, True), z3.Implies(z3.And(was == 0, absz(now) >= 2), TT(now) == (SG(v) <= val))), fixed0(c.glob(('glob', 'ass')))[1]]
    return f


DOM = lambda c: c.o(3).f['map_']
S1, K_ = z3.Int('k1!08'), z3.Int('k2!08')


def indom(m, s):
    return z3.Exists([K_], z3.And(sel(m.dom, K_), K_ <= s, s < sel(m.val, K_)))


INDOM = z3.Bool('sigma_in_domain')       # SG(X0) is in the domain
DW = z3.Int('domain_witness')


def dom_def(m):
    """introduction and elimination of membership"""
    d = sel(m.dom, K_)
    return [z3.ForAll([K_], z3.Implies(z3.And(d, K_ <= SG(X0), SG(X0) < sel(m.val, K_)), INDOM), patterns=[d]),
            z3.Implies(INDOM, z3.And(sel(m.dom, DW), DW <= SG(X0), SG(X0) < sel(m.val, DW)))]


def dom_rep(m):
    d, d2 = sel(m.dom, K_), sel(m.dom, S1)
    return [('intervals', z3.ForAll([K_], z3.Implies(d, z3.And(K_ < sel(m.val, K_), K_ >= MINV, sel(m.val, K_) <= MAXV + 1)), patterns=[d])),
            ('separated', z3.ForAll([K_, S1], z3.Implies(z3.And(d, d2, K_ < S1), sel(m.val, K_) < S1), patterns=[z3.MultiPattern(d, d2)]))]


def ad_req(c):
    S, T = c.old, tab(c, True)
    A = c.oglob(('glob', 'ass'))
    lit = c.o(1)
    return solver_inv(S) + inv(S, T, c.oglob(FRESH)) + inv_fact(S, T) + dom_rep(DOM(c)) + [
        ('variable', z3.And(0 <= X0, X0 < nvars(S), c.o(2) == X0)), ('literal', z3.And(lit != 0, absz(lit) < c.oglob(FRESH), TT(-lit) == z3.Not(TT(lit)))), ('at level 0', A.f['DL'] == 0), fixed0(A)]


def ad_ens(c):
    S2, T2 = c.this, tab(c)
    K = z3.Implies(TT(c.o(1)), INDOM)
    out = [('only implied clauses', z3.Implies(z3.And(K, defs(c)), added(c))),
           ('literals keep their meaning', z3.Implies(z3.And(K, defs(c)), MEAN(T2))),
           ('exactly the domain', z3.Implies(z3.And(c.res, added(c), MEAN(T2)), K))]
    return out + inv(S2, T2, c.glob(FRESH), mean=False) + inv_fact(S2, T2)


def dom_state(L):
    """what both loops keep"""
    g = lambda r: L.st.store[r]
    S = L.get(L.this)
    T = g(TAB).f['T'].el.el
    A = g(('glob', 'ass'))
    lit0 = L.p0(1)
    K = z3.Implies(TT(lit0), INDOM)
    out = inv(S, T, g(FRESH), mean=False) + inv_fact(S, T)
    out += [('at level 0', A.f['DL'] == 0), fixed0(A), ('true', z3.And(*true_lit(A))), ('fresh grows', z3.And(g(FRESH) >= L.old(LV(FRESH)))),
            ('only implied clauses', z3.Implies(z3.And(K, g(('glob', 'defs'))), z3.And(g(('glob', 'added')), MEAN(T))))]
    return out, z3.And(TT(lit0), g(('glob', 'added')), MEAN(T))


def opts(L):
    return L.all(lambda v: isinstance(v, Rec) and v.cls == 'optional')


def fwd(L):
    out, H = dom_state(L)
    it, m, py = L.mit(), L.p(3).f['map_'], opts(L)[-1]
    d = sel(m.dom, K_)
    done = z3.And(d, z3.Or(it.end, K_ < it.k))
    p = py.f['val']
    return out + [('iterator', z3.Or(it.end, sel(m.dom, it.k))), ('none before the first', z3.Implies(z3.Not(py.f['has']), z3.ForAll([K_], z3.Not(done), patterns=[d]))),
                  ('ends before the last end', z3.Implies(py.f['has'], z3.And(p > MINV, p <= MAXV + 1, z3.ForAll([K_], z3.Implies(done, sel(m.val, K_) <= p), patterns=[d])))),
                  ('gaps so far are cut', z3.Implies(z3.And(H, py.f['has']), z3.Or(INDOM, SG(X0) >= p)))]


def bwd(L):
    out, H = dom_state(L)
    it, m, px = L.rit(), L.p(3).f['map_'], opts(L)[-1]
    d = sel(m.dom, K_)
    done = z3.And(d, z3.Not(it.end), K_ >= it.k)
    p = px.f['val']
    return out + [('iterator', z3.Or(it.end, sel(m.dom, it.k))), ('none before the first', z3.Implies(z3.Not(px.f['has']), z3.ForAll([K_], z3.Not(done), patterns=[d]))),
                  ('starts after the last start', z3.Implies(px.f['has'], z3.And(p >= MINV, p <= MAXV, z3.ForAll([K_], z3.Implies(done, K_ >= p), patterns=[d]), sel(m.dom, p)))),
                  ('in the domain', z3.Implies(z3.And(H, px.f['has']), INDOM)), ('last end', z3.Implies(H, z3.Or(INDOM, SG(X0) >= opts(L)[0].f['val'])))]


C8d = dict(C8c)
C8d['Clingcon::Solver::get_literal'] = Contract(requires=GL.requires, ensures=GL.ensures, modifies=GLMOD + [('glob', ('glob', 'defs'))], ret='int', facts=def_facts(GL.facts))
C8d['Clingcon::Solver::update_literal'] = Contract(requires=ULT.requires, ensures=ULT.ensures, modifies=ULMOD + [('glob', ('glob', 'defs'))], ret='int', facts=def_facts(ULT.facts))
_ac = C8c['Clingcon::AbstractClauseCreator::add_clause']
C8d['Clingcon::AbstractClauseCreator::add_clause'] = Contract(modifies=_ac.modifies, ret='bool', facts=lambda c: acl_facts(c) + [fixed0(c.glob(('glob', 'ass')))[1]])


def ad_setup(e, st, fd):
    setup(e, st, fd)
    st.store[('glob', 'defs')] = z3.BoolVal(True)


def dom_arg(e, st):
    return Rec('Clingcon::IntervalSet<int>', {'map_': MapV(fresh('dom', z3.ArraySort(INT, BOOL)), fresh('dval', A1))})


kw2 = dict(kw)
kw2.update(setup=ad_setup, assume=lambda c: near_axioms() + dom_def(DOM(c)))
UNITS.append(Unit('C08', TU_, 'Clingcon::Solver::add_dom', Contract(requires=ad_req, ensures=ad_ens, modifies=ASMOD + [('glob', ('glob', 'defs'))]), name='C08/Solver::add_dom', contracts=C8d, folds=[CL],
                  opts={'thisval': solver_this, 'args': {3: dom_arg}}, loops={('Solver::add_dom', 0): LoopSpec(inv=fwd), ('Solver::add_dom', 1): LoopSpec(inv=bwd)}, **kw2))


# ------------------------------------------------------------ propagation along the order literals
import c09


def full_this(e, st):
    s = solver_this(e, st)
    s.f['var2vs_'] = vec_of(c09.vs_full(e, 'vs'), 'vs')
    return s


def vsx(S):
    return select(S.f['var2vs_'].el, X0)


def row_means(S):
    v = vsx(S)
    off, n, m = v.f['offset_'], v.f['litvec_'].n, v.f['litmap_']
    M = lambda t, w: z3.And(TT(t) == (SG(X0) <= w), TT(-t) == z3.Not(TT(t)), t > -2**31, t < 2**31)
    e, x = sel(v.f['litvec_'].el, i_), sel(m.val, v_)
    return z3.And(z3.Implies(c09.sparse(v), fa([v_], z3.Implies(sel(m.dom, v_), M(x, v_)), x, sel(m.dom, v_))),
                  z3.Implies(z3.Not(c09.sparse(v)), fa([i_], z3.Implies(z3.And(0 <= i_, i_ < n, e != 0), M(e, off + i_)), e)))


def inrange(v):
    return z3.And(minb1(v) <= v.f['lower_bound_'], v.f['lower_bound_'] <= v.f['upper_bound_'], v.f['upper_bound_'] <= maxb1(v), minb1(v) >= MINV, maxb1(v) <= MAXV, minb1(v) <= SG(X0), SG(X0) <= maxb1(v))


def pv_req(up):
    def req(c):
        S, lit, val = c.old, c.o(3), c.o(4)
        v = vsx(S)
        n = S.f['var2vs_'].n
        return [('variable', z3.And(n >= 0, n < 2**31, 0 <= X0, X0 < n, c.o(2) == X0, v.f['var_'] == X0)), ('table means', row_means(S)), ('value', z3.And(val >= MINV - 1, val <= MAXV)),
                ('bounds', inrange(v)), ('holds on level 0', z3.And(c.o(0).f['level_'] >= 0, z3.Implies(c.o(0).f['level_'] == 0, z3.And(TT(lit), v.f['lower_bound_stack_'].n == 0, v.f['upper_bound_stack_'].n == 0)))),
                ('literal implies the bound', z3.Implies(TT(lit), SG(X0) <= val if up else SG(X0) > val)),
                ('literals', z3.And(*[z3.And(l > -2**31, l < 2**31, l != 0, TT(-l) == z3.Not(TT(l))) for l in (lit, c.o(5))]))] + c09.rep(v)
    return req


def tabc(c, w):
    return c09.tab(vsx(c.old), w)


def pv_ens(up):
    def ens(c):
        v2 = vsx(c.this)
        v = vsx(c.old)
        return [('bound', z3.Implies(c.res, (v2.f['upper_bound_'] <= c.o(4)) if up else (v2.f['lower_bound_'] >= c.o(4) + 1))), ('bounds', inrange(v2)), ('on level 0', z3.Implies(c.o(0).f['level_'] == 0, z3.And(v2.f['lower_bound_stack_'].n == 0, v2.f['upper_bound_stack_'].n == 0))),
                ('table kept', z3.And(*[v2.f[k] == v.f[k] for k in ('var_', 'offset_')], v2.f['litmap_'].dom == v.f['litmap_'].dom, v2.f['litmap_'].val == v.f['litmap_'].val, v2.f['litvec_'].el == v.f['litvec_'].el))]
    return ens


def lvl_upd(w):
    """Level::update_lower / update_upper (verified for C10)"""
    B = 'lower_bound_' if w == 'l' else 'upper_bound_'
    O = 'upper_bound_' if w == 'l' else 'lower_bound_'

    def ens(c):
        a, b = vsx(c.o(0)), vsx(c.a(0))
        new = c.o(2) + 1 if w == 'l' else c.o(2)
        sa, sb = a.f[B + 'stack_'], b.f[B + 'stack_']
        oa, ob = a.f[O + 'stack_'], b.f[O + 'stack_']
        saves = z3.And(c.old.f['level_'] > 0, z3.Or(sa.n == 0, sel(sa.el.f['first'], sa.n - 1) != c.old.f['level_']))
        return [('new bound', b.f[B] == new), ('other bound', b.f[O] == a.f[O]), ('other stack', z3.And(oa.n == ob.n, sel(oa.el.f['second'], 0) == sel(ob.el.f['second'], 0))),
                ('old bound saved', z3.And(sb.n == z3.If(saves, sa.n + 1, sa.n), z3.Implies(sb.n > 0, sel(sb.el.f['second'], 0) == z3.If(sa.n > 0, sel(sa.el.f['second'], 0), a.f[B])))),
                ('table', z3.And(b.f['litmap_'].dom == a.f['litmap_'].dom, b.f['litmap_'].val == a.f['litmap_'].val, b.f['litvec_'].n == a.f['litvec_'].n, b.f['litvec_'].el == a.f['litvec_'].el,
                                 b.f['offset_'] == a.f['offset_'], b.f['#active'] == a.f['#active'], b.f['var_'] == a.f['var_'])), ('count', c.a(0).f['var2vs_'].n == c.o(0).f['var2vs_'].n)]
    tight = (lambda c: c.o(2) + 1 > vsx(c.o(0)).f[B]) if w == 'l' else (lambda c: c.o(2) < vsx(c.o(0)).f[B])
    return Contract(requires=lambda c: [('tightens', tight(c))], ensures=ens, modifies=[(0, 'var2vs_')])


LITP, VALP = z3.Int('lit!pv'), z3.Int('val!pv')


def beyond(L, up, it, ie, rl=None):
    """what the iterator still visits lies beyond the propagated value (and beyond what the reason says)"""
    v = vsx(L.st.store[('this',)])
    m = v.f['litmap_']
    s = SG(X0)
    if isinstance(it, It):
        end, cur = it.i == ie.i, v.f['offset_'] + (it.i - 1 if it.rev else it.i)
        t = c09.tab(v, cur)
    elif not it.rev:
        end, cur = it.end, it.k
        t = sel(m.dom, cur)
    else:
        # a reverse iterator visits the keys below its own
        d = sel(m.dom, v_)
        left = z3.And(d, z3.Or(it.end, v_ < it.k))
        out = [('position', fa([v_], z3.Implies(left, v_ < VALP), d)), ('iterator', z3.Or(it.end, sel(m.dom, it.k)))]
        if rl is not None:
            out += [('reason', fa([v_], z3.Implies(z3.And(left, TT(rl)), s > v_), d))]
        return out
    out = [('position', z3.And(z3.Or(end, cur > VALP if up else cur < VALP), z3.And(0 <= it.i, it.i <= v.f['litvec_'].n) if isinstance(it, It) else z3.BoolVal(True)))]
    if rl is not None:
        out += [('reason', z3.Or(end, z3.Implies(TT(rl), s < cur if up else s > cur))), ('not a hole', z3.Or(end, t if t.sort() == BOOL else t != 0))]
    return out


def its(L):
    return L.p(2), L.p(3)


def chain_inv(up):
    def inv(L):
        it, ie = its(L)
        rl = L.p(1)
        return beyond(L, up, it, ie, rl) + [('reason literal', z3.And(rl > -2**31, rl < 2**31, TT(-rl) == z3.Not(TT(rl))))]
    return inv


def skip(up):
    def inv(L):
        it, ie = L.all(lambda v: isinstance(v, It))[:2]
        return beyond(L, up, it, ie)
    return inv


def advance(up):
    def inv(L):
        it = L.p(0)
        n = vsx(L.st.store[('this',)]).f['litvec_'].n
        return beyond(L, up, it, It(it.c, n if up else I(0), it.rev)) + [('moves on', it.i >= L.p0(0).i if up else it.i <= L.p0(0).i)]
    return inv


CP = table_contracts()
for k in list(CP):
    if k.startswith('Clingcon::VarState::'):
        del CP[k]
CP['Clingcon::AbstractClauseCreator::propagate'] = Contract(ret='bool')
CP['Clingcon::Solver::get_literal'] = std_contracts()['Clingcon::Solver::get_literal']
CP['Clingcon::Level::update_upper'] = lvl_upd('u')
CP['Clingcon::Level::update_lower'] = lvl_upd('l')


def pv_setup(e, st, fd):
    setup(e, st, fd)


for up, fn in ((True, 'update_upper_'), (False, 'update_lower_')):
    UNITS.append(Unit('C08', TU_, 'Clingcon::Solver::' + fn, Contract(requires=lambda c, up=up: pv_req(up)(c) + [('names', z3.And(c.o(3) == LITP, c.o(4) == VALP))], ensures=pv_ens(up), modifies=[('this', 'var2vs_'), ('glob', ('glob', 'ass'))]),
                      name='C08/Solver::' + fn, contracts=CP, folds=[CL], setup=pv_setup, eng=PropExec, opts={'thisval': full_this},
                      loops={('propagate_variables_', 0): LoopSpec(inv=chain_inv(up)), ('call_vec_', 0): LoopSpec(inv=skip(up)), ('operator()', 0): LoopSpec(inv=advance(up))}))


# ------------------------------------------------------------ domain updates
def lvl_of(S):
    v = S.f['levels_']
    return select(v.el, v.n - 1)


def stacks0(S):
    """nothing is to be undone on level 0"""
    k1, k2 = S.f['var2vs_'].el.f['lower_bound_stack_'], S.f['var2vs_'].el.f['upper_bound_stack_']
    return z3.Implies(lvl_of(S).f['level_'] == 0, z3.And(fa([x_], sel(k1.n, x_) == 0, sel(k1.n, x_)), fa([x_], sel(k2.n, x_) == 0, sel(k2.n, x_))))


def ud_state(S, T, F, A):
    lv = lvl_of(S)
    return solver_inv(S) + inv(S, T, F) + [('level', z3.And(S.f['levels_'].n >= 1, lv.f['level_'] >= 0, (lv.f['level_'] == 0) == (A.f['DL'] == 0))), ('stacks on level 0', stacks0(S)), fixed0a(A)]


def fixed0a(A):
    return ('level 0', z3.Implies(A.f['DL'] == 0, fixed0(A)[1]))


def ud_req(c):
    S, T, A = c.old, tab(c, True), c.oglob(('glob', 'ass'))
    l = c.o(1)
    return ud_state(S, T, c.oglob(FRESH), A) + inv_fact(S, T) + [('literal is true', z3.And(l != 0, l > -2**31, l < 2**31, is_true(A, l), TT(-l) == z3.Not(TT(l)))), ('facts on level 0', z3.Implies(z3.Or(S.f['factmap_'].n > 0, l == 1), A.f['DL'] == 0))]


def ud_ens(c):
    S, S2, T, T2, A2 = c.old, c.this, tab(c, True), tab(c), c.glob(('glob', 'ass'))
    l = c.o(1)
    A = c.oglob(('glob', 'ass'))
    o = absz(l) - 1
    e = ent(S)
    up, low = valid(S, l), valid(S, -l)
    x, v = sel(e['var_'], o), sel(e['value_'], o)
    out = [(n, z3.Implies(c.res, f)) for n, f in ud_state(S2, T2, c.glob(FRESH), A2) + inv_fact(S2, T2)]
    facts = z3.Or(l == 1, z3.And(A.f['DL'] == 0, is_fixed(A, l)))
    out += [('upper bound', z3.Implies(z3.And(c.res, z3.Or(z3.Not(facts), l == 1), up), ubv(S2, x) <= v)), ('lower bound', z3.Implies(z3.And(c.res, z3.Not(facts), low), lbv(S2, x) >= v + 1)),
            ('facts are integrated', z3.Implies(z3.And(c.res, facts), S2.f['factmap_'].n == 0)),
            ('table kept', z3.Implies(z3.And(c.res, z3.Not(facts)), T2 == T))]
    return out


def upd_contract(up):
    """update_upper_ / update_lower_ (verified below), over the table"""
    def req(c):
        S, lit, val, x = c.old, c.o(3), c.o(4), c.o(2)
        return solver_inv(S) + [('variable', z3.And(0 <= x, x < nvars(S))), ('table means', MEAN(tab(c, True))), ('value', z3.And(val >= MINV - 1, val <= MAXV)), ('literal implies the bound', z3.Implies(TT(lit), SG(x) <= val if up else SG(x) > val)),
                                ('literals', z3.And(*[z3.And(l > -2**31, l < 2**31, l != 0) for l in (lit, c.o(5))], TT(-lit) == z3.Not(TT(lit)))),
                                ('holds on level 0', z3.Implies(c.o(0).f['level_'] == 0, z3.And(TT(lit), sel(S.f['var2vs_'].el.f['lower_bound_stack_'].n, x) == 0, sel(S.f['var2vs_'].el.f['upper_bound_stack_'].n, x) == 0)))]

    def ens(c):
        S, S2, val, x = c.old, c.this, c.o(4), c.o(2)
        lv0 = c.o(0).f['level_'] == 0
        k1, k2 = S2.f['var2vs_'].el.f['lower_bound_stack_'], S2.f['var2vs_'].el.f['upper_bound_stack_']
        return [('bound', z3.Implies(c.res, (ubv(S2, x) <= val) if up else (lbv(S2, x) >= val + 1)))] + solver_inv(S2) + [
            ('stacks on level 0', z3.Implies(lv0, z3.And(fa([x_], z3.Implies(sel(S.f['var2vs_'].el.f['lower_bound_stack_'].n, x_) == 0, sel(k1.n, x_) == 0), sel(k1.n, x_)),
                                                         fa([x_], z3.Implies(sel(S.f['var2vs_'].el.f['upper_bound_stack_'].n, x_) == 0, sel(k2.n, x_) == 0), sel(k2.n, x_))))),
            ('variables', nvars(S2) == nvars(S)), ('bounds only tighten', z3.And(ubv(S2, x) <= ubv(S, x), lbv(S2, x) >= lbv(S, x)))]
    return Contract(requires=req, ensures=ens, modifies=[('this', 'var2vs_'), ('glob', ('glob', 'ass'))], ret='bool', facts=lambda c: evolves(c) + [fixed0a(c.glob(('glob', 'ass')))[1]])


def fl_inv(L):
    g = lambda r: L.st.store[r]
    S = L.st.store[('this',)]
    T = g(TAB).f['T'].el.el
    k = L.k
    return [('index', z3.And(0 <= k, k <= S.f['factmap_'].n))] + ud_state(S, T, g(FRESH), g(('glob', 'ass'))) + inv_fact(S, T, k) + [('on level 0', g(('glob', 'ass')).f['DL'] == 0), ('true', z3.And(*true_lit(g(('glob', 'ass')))))]


def ud_this(e, st):
    s = solver_this(e, st)
    s.f['levels_'] = vec_of(Rec('Clingcon::Level', {'level_': fresh('lvl')}), 'lvls')
    return s


CU = dict(C8)
CU['Clingcon::Solver::update_upper_'] = upd_contract(True)
CU['Clingcon::Solver::update_lower_'] = upd_contract(False)
UNITS.append(Unit('C08', TU_, 'Clingcon::Solver::update_domain_', Contract(requires=ud_req, ensures=ud_ens, modifies=[('this', 'var2vs_'), ('this', 'litmap_'), ('this', 'factmap_'), ('glob', ('glob', 'ass')), ('glob', TAB)]),
                  name='C08/Solver::update_domain_', contracts=CU, opts={'thisval': ud_this}, loops={('Solver::update_domain_', 0): LoopSpec(inv=fl_inv)}, **kw))
