"""C06: disjoint constraints are sound and detect every overlap."""
from c01 import *
from c03 import Lemma
from execu import inner
import cb
import c16

DS = 'DisjointConstraintState'
A1 = z3.ArraySort(INT, INT)
IFLD = ('var', 'left', 'right', 'last_left', 'last_right', 'weight', 'u')
e1, e2, q_ = z3.Ints('e!1 e!2 q!1')
INTV = LV(('glob', 'intervals'))
CLIT = z3.Int('clit!d')
WT = z3.Function('WT', A1, A1, A1, INT, INT, INT, INT)     # total length of the intervals from b before i that start at or after a


def ivec():
    return Vec(fresh('iv.n'), Rec('Clingcon::DisjointConstraintState::Interval', {f: fresh('iv.' + f, A1) for f in IFLD}))


class DjExec(PropExec):
    """a pointer variable that is null or points to one known object"""

    def vardecl(self, d, st, fr):
        out = PropExec.vardecl(self, d, st, fr)
        t = d.get('type', {}).get('qualType', '')
        if t.rstrip().endswith('*'):
            for s in out:
                key = (d['id'], fr.id)
                if s.store.get(key) is NULL:
                    s.store[key] = Rec('unique_ptr', {'p': Ref(LV(('glob', 'solver'), (('f', 'temp_reason_'),))), 'null': z3.BoolVal(True)})
        return out

    def ev_InitListExpr(self, n, st, fr):
        t = self.resolve(self.ty(n))
        if 'DisjointConstraintState::Algorithm<' not in t:
            return PropExec.ev_InitListExpr(self, n, st, fr)
        # references to the solver and the clause creator, and the remaining members by value
        outs = [(st, [])]
        for i, c in enumerate(inner(n)):
            outs = [(s2, vs + [Ref(v) if isinstance(v, LV) else v]) for s, vs in outs for s2, v in (self.lv(c, s, fr) if i < 2 else self.ev(c, s, fr))]
        kind = 0 if 'Lower' in t else 1
        return [(s, Rec('Algorithm<%d>' % kind, dict(zip(('solver', 'cc', 'begin', 'end', 'clit'), vs)))) for s, vs in outs]

    def assign_value(self, s, l, v, n):
        old = s.store.get(l.root) if not l.path else None
        if isinstance(old, Rec) and old.cls == 'unique_ptr' and isinstance(v, Ref):
            if repr(v.lv) != repr(old.f['p'].lv):
                raise Unsupported('pointer to another object', n)
            v = Rec('unique_ptr', {'p': old.f['p'], 'null': z3.BoolVal(False)})
        return PropExec.assign_value(self, s, l, v, n)


# ------------------------------------------------------------ intervals, for both directions
class Dir:
    def __init__(self, kind):
        self.k = kind

    def fld(self, V, f, i):
        return z3.Select(V.el.f[f], i)

    def lower(self, V, i):
        return self.fld(V, 'left', i) if self.k == 0 else -self.fld(V, 'right', i)

    def upper(self, V, i):
        return self.fld(V, 'right', i) if self.k == 0 else -self.fld(V, 'left', i)

    def w(self, V, i):
        return self.fld(V, 'weight', i)

    def pos(self, V, i):
        v = self.fld(V, 'var', i)
        return SG(v) if self.k == 0 else -SG(v) - self.w(V, i) + 1

    def wt(self, V, B, i, a):
        return WT(V.el.f['left'], V.el.f['right'], V.el.f['weight'], B, i, a)

    def wts(self, V, B, i, a):
        return self.wt(V, B, i + 1, a) == self.wt(V, B, i, a) + z3.If(self.lower(V, i) >= a, self.w(V, i), 0)

    def wtall(self, V, B, i):
        """definition of the total length at one index"""
        return [z3.ForAll([q_], self.wts(V, B, i, q_), patterns=[self.wt(V, B, i + 1, q_)]), z3.ForAll([q_], self.wts(V, B, i, q_), patterns=[self.wt(V, B, i, q_)]), z3.ForAll([q_], self.wt(V, B, B, q_) == 0, patterns=[self.wt(V, B, B, q_)])]

    def within(self, V, k):
        """the values of the variable lie within its bounds"""
        return z3.And(self.lower(V, k) <= self.pos(V, k), self.pos(V, k) + self.w(V, k) - 1 <= self.upper(V, k))

    def hall(self, V, B, i, a, f):
        return z3.ForAll([e1], z3.Implies(z3.And(B <= e1, e1 < i, self.lower(V, e1) >= a), f(e1)), patterns=[self.fld(V, 'var', e1)])

    def covered(self, V, B, i, a, b):
        """every position is taken by an interval"""
        k = cov(V, B, i, a, q_)
        return z3.ForAll([q_], z3.Implies(z3.And(SEEN(q_), a <= q_, q_ <= b), z3.And(B <= k, k < i, self.lower(V, k) >= a, self.pos(V, k) <= q_, q_ < self.pos(V, k) + self.w(V, k))), patterns=[k, SEEN(q_)])

    def pigeon(self, V, B, i, a, b):
        """proved below: disjoint intervals within [a,b] have at most the length of [a,b], and fill it if they have"""
        return z3.Implies(z3.And(TT(CLIT), a <= b + 1, disj(V), self.hall(V, B, i, a, lambda k: self.within(V, k)), self.hall(V, B, i, a, lambda k: self.upper(V, k) <= b)),
                          z3.And(self.wt(V, B, i, a) <= b - a + 1, z3.Implies(self.wt(V, B, i, a) == b - a + 1, self.covered(V, B, i, a, b))))


SEEN = z3.Function('SEEN', INT, BOOL)       # always true; positions to look at
COV = z3.Function('COV', A1, A1, A1, A1, INT, INT, INT, INT, INT)


def cov(V, B, i, a, t):
    return COV(V.el.f['var'], V.el.f['left'], V.el.f['right'], V.el.f['weight'], B, i, a, t)


def sv(V, i):
    return SG(z3.Select(V.el.f['var'], i))


def dj2(V, i, j):
    w = lambda k: z3.Select(V.el.f['weight'], k)
    return z3.Or(sv(V, i) + w(i) <= sv(V, j), sv(V, j) + w(j) <= sv(V, i))


def disj(V):
    """the intervals are pairwise disjoint"""
    x = lambda k: z3.Select(V.el.f['var'], k)
    return z3.ForAll([e1, e2], z3.Implies(z3.And(0 <= e1, e1 < V.n, 0 <= e2, e2 < V.n, e1 != e2), dj2(V, e1, e2)), patterns=[z3.MultiPattern(x(e1), x(e2))])


def consist(V, S):
    """the intervals carry the current bounds"""
    g = lambda f: z3.Select(V.el.f[f], e1)
    return [('size', z3.And(V.n >= 0, V.n < 2**31)),
            ('intervals', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < V.n), z3.And(0 <= g('var'), g('var') < S.f['var2vs_'].n, g('weight') >= 1, g('weight') <= MAXV, g('left') == z3.Select(LBA, g('var')), g('right') == z3.Select(UBA, g('var')) + g('weight') - 1)),
                                    patterns=[g('var'), g('left'), g('right'), g('weight')]))]


def sorted_(D, V, n=None):
    # by upper bound
    f = 'right' if D.k == 0 else 'left'
    g = lambda k: z3.Select(V.el.f[f], k)
    return ('sorted by upper bound', z3.ForAll([e1, e2], z3.Implies(z3.And(0 <= e1, e1 < e2, e2 < V.n), D.upper(V, e1) <= D.upper(V, e2)), patterns=[z3.MultiPattern(g(e1), g(e2))]))


def S_(c, old=True):
    return (c.oglob if old else c.glob)(('glob', 'solver'))


def V_(c, old=True):
    return (c.oglob if old else c.glob)(('glob', 'intervals'))


def put_alg(kind):
    def f(e, st):
        st.store[('glob', 'solver')] = solver_arg(e, st)
        st.store[('glob', 'intervals')] = ivec()
        V = st.store[('glob', 'intervals')]
        b, t = fresh('begin'), fresh('end')
        st.add(z3.And(0 <= b, b <= t, t <= V.n))
        return Rec('Algorithm<%d>' % kind, {'solver': Ref(LV(('glob', 'solver'))), 'cc': Ref(LV(('glob', 'cc'))), 'begin': It(INTV, b), 'end': It(INTV, t), 'clit': CLIT})
    return f


def it_arg(nm):
    def f(e, st):
        return It(INTV, fresh(nm))
    return f


def reason_arg(e, st):
    return LV(('glob', 'solver'), (('f', 'temp_reason_'),))


def setup_d(e, st, fd):
    put_ass(st)
    st.store[('glob', 'cc')] = Opq('cc')
    st.add(CLIT != 0)
    st.add(TT(-CLIT) == z3.Not(TT(CLIT)))


def setup_run(e, st, fd):
    setup_d(e, st, fd)
    st.store[('glob', 'solver')] = solver_arg(e, st)
    st.store[('glob', 'intervals')] = ivec()


def base_req(c):
    A = c.oglob(('glob', 'ass'))
    return solver_inv(S_(c)) + consist(V_(c), S_(c)) + [('literal', z3.And(CLIT != 0, CLIT > -2**31, CLIT < 2**31, *litfacts(A, CLIT)))]


def range_(c):
    T = c.old
    return T.f['begin'].i, T.f['end'].i


def sem(c):
    return [('the constraint holds', z3.Implies(TT(CLIT), disj(V_(c))))]


MODR = [('glob', ('glob', 'solver'), 'temp_reason_'), ('glob', ('glob', 'ass'))]


# ------------------------------------------------------------ update_bound
def ub_req(D):
    def f(c):
        V, S = V_(c), S_(c)
        b, t = range_(c)
        i, R = c.o(1).i, c.o(0)
        v = D.fld(V, 'var', i)
        own = SG(v) >= z3.Select(LBA, v) if D.k == 0 else SG(v) <= z3.Select(UBA, v)
        return base_req(c) + [('interval', z3.And(b <= i, i < t, R.n >= 0)), ('range', z3.And(c.o(2) > -2**31, c.o(2) < 2**31)), ('bound', z3.And(c.o(2) > D.lower(V, i), c.o(2) <= (2**31 - 2 if D.k == 0 else 2**30))),
                              ('the reason entails the bound', z3.Or(CL(R), z3.Implies(own, D.pos(V, i) >= c.o(2))))]
    return f


def same_u(D, c):
    """only the remembered bounds of one interval change"""
    V, V2 = V_(c), V_(c, False)
    i = c.o(1).i
    x = 'last_left' if D.k == 0 else 'last_right'
    return [('kept', z3.And(V2.n == V.n, *[V2.el.f[f] == V.el.f[f] for f in IFLD if f != x])), ('others kept', z3.ForAll([e1], z3.Implies(e1 != i, D.fld(V2, x, e1) == D.fld(V, x, e1)), patterns=[D.fld(V2, x, e1)])),
            ('remembered', D.fld(V2, x, i) == (c.o(2) if D.k == 0 else -c.o(2)))]


def prefix_kept(c):
    R, R2 = c.o(0), c.a(0)
    return [('reason only extended', z3.And(R2.n >= R.n, CL.app(R2.el, R.n) == CL(R)))]


ALG = 'Clingcon::DisjointConstraintState::Algorithm'
UNITS = list(cb.C06U)
KA = dict(setup=setup_d, eng=DjExec, ovf={32}, tu=TU_)


def mk(**k):
    tu = k.pop('tu')
    prop, fn, ct = k.pop('prop'), k.pop('fn'), k.pop('ct')
    UNITS.append(Unit(prop, tu, fn, ct, **k))


def w_(e, st):
    return [CLIT]


l_ = z3.Int('l!p')


def persist(C):
    """no literal is unassigned by the functions called"""
    def f(c, old):
        A, B = c.oglob(('glob', 'ass')), c.glob(('glob', 'ass'))
        return old(c) + [z3.ForAll([l_], z3.And(*[z3.Implies(z3.Select(A.f[k], l_), z3.Select(B.f[k], l_)) for k in ('AT', 'FX')]), patterns=[z3.Select(B.f['AT'], l_), z3.Select(B.f['FX'], l_)])]
    for k in ('Clingcon::Solver::get_literal',):
        x = C[k]
        C[k] = Contract(requires=x.requires, ensures=x.ensures, modifies=x.modifies, facts=lambda c, x=x: f(c, x.facts))
    return C


RL_ = LV(('glob', 'solver'), (('f', 'temp_reason_'),))


# ------------------------------------------------------------ calculate_reason
def cr_req_(D):
    def f(c):
        b, t = range_(c)
        j = c.o(1).i
        return base_req(c) + [sorted_(D, V_(c)), ('intervals', z3.And(b < j, j <= t))]
    return f


def cr_meaning(D, c, R):
    V, (b, t) = V_(c), range_(c)
    return z3.Or(CL(R), z3.And(TT(CLIT), D.hall(V, b, c.o(1).i, c.o(0), lambda k: D.within(V, k))))


def is_reason(c):
    return ('the reason is returned', z3.BoolVal(isinstance(c.res_, (Ref, LV)) and repr(getattr(c.res_, 'lv', c.res_)) == repr(RL_)))


def cr_ens_(D):
    def f(c):
        R = S_(c, False).f['temp_reason_']
        return [is_reason(c), ('size', R.n >= 0), ('a clause that is false takes the literal and the bounds of the intervals to be true', cr_meaning(D, c, R))]
    return f


def cr_inv_(D):
    def inv(L):
        V = L.get(INTV)
        R = L.get(RL_)
        T = L.get(L.this)
        b, i = T.f['begin'].i, L['i'].i
        A = L.get(ASS)
        return [('index', z3.And(b <= i, i <= L.p(1).i)), ('size', R.n >= 0), ('assignment', z3.And(*(true_lit(A) + litfacts(A, CLIT)))), ('reason', z3.Or(CL(R), z3.And(TT(CLIT), D.hall(V, b, i, L.p(0), lambda k: D.within(V, k)))))]
    return inv


# ------------------------------------------------------------ propagate a full interval
def pp_req(D):
    def f(c):
        V, (b, t) = V_(c), range_(c)
        a, e, i = c.o(0), c.o(1), c.o(2).i
        return base_req(c) + sem(c) + [sorted_(D, V), ('interval', z3.And(b <= i, i < t)), ('the interval is full', z3.And(e == D.upper(V, i), a <= e, D.wt(V, b, i + 1, a) >= e - a + 1, a > -2**31))]
    return f


def static_kept(V, V2):
    return [('intervals kept', z3.And(V2.n == V.n, *[V2.el.f[f] == V.el.f[f] for f in ('var', 'left', 'right', 'weight')]))]


def u_kept(V, V2):
    return [('totals kept', V2.el.f['u'] == V.el.f['u'])]


def iv_kept(c):
    return static_kept(V_(c), V_(c, False))


def pp_inv(D):
    def inv(L):
        V, V0 = L.get(INTV), L.old(INTV)
        R = L.get(RL_)
        T = L.get(L.this)
        b, i, j = T.f['begin'].i, L.p(2).i, L['j'].i
        a, e = L.p(0), L.p(1)
        A = L.get(ASS)
        P = L['reason']
        return static_kept(V0, V) + u_kept(V0, V) + [('index', z3.And(i < j, j <= T.f['end'].i)), ('assignment', z3.And(*(true_lit(A) + litfacts(A, CLIT)))),
                                     ('reason', z3.Implies(z3.Not(P.f['null']), z3.And(R.n == L['size'], R.n >= 0, z3.Or(CL(R), z3.And(TT(CLIT), D.covered(V, b, i + 1, a, e))))))]
    return inv


# ------------------------------------------------------------ insert an interval
def mono(D, V, B, i):
    """proved below: totals grow with the number of intervals"""
    return z3.ForAll([e1, q_], z3.Implies(z3.And(B <= e1, e1 <= i), D.wt(V, B, e1, q_) <= D.wt(V, B, i, q_)), patterns=[D.wt(V, B, e1, q_)])


def lemmas():
    V = ivec()
    D = Dir(0)
    out = []
    B, i, j, a, b, t = z3.Ints('B!l i!l j!l a!l b!l t!l')
    n = V.n
    wpos = z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < n), D.w(V, e1) >= 1), patterns=[D.w(V, e1)])
    low = z3.Function('low', INT, INT)
    w = lambda k: D.w(V, k)
    pos = z3.Function('pos', INT, INT)
    W = z3.Function('W', INT, INT)        # total length, for fixed B and a
    Wd = lambda k: W(k + 1) == W(k) + z3.If(low(k) >= a, w(k), 0)
    rng = z3.And(0 <= B, B <= j, j <= i, i < n)
    out += [('totals grow: base', [wpos, rng], W(j) <= W(j)), ('totals grow: step', [wpos, rng, Wd(i), W(j) <= W(i)], W(j) <= W(i + 1))]
    # cnt(k,t): how many intervals in [B,k) that start at or after a contain position t; M(k,t): summed over [a,t)
    cnt = z3.Function('cnt', INT, INT, INT)
    M = z3.Function('M', INT, INT, INT)
    inn = lambda k, x: z3.And(low(k) >= a, pos(k) <= x, x < pos(k) + w(k))
    cd = lambda k, x: cnt(k + 1, x) == cnt(k, x) + z3.If(inn(k, x), 1, 0)
    md = lambda k, x: M(k, x + 1) == M(k, x) + cnt(k, x)
    fits = lambda k: z3.Implies(low(k) >= a, z3.And(pos(k) >= a, pos(k) + w(k) - 1 <= b))
    ov = lambda k, x: z3.If(low(k) >= a, z3.If(x <= pos(k), 0, z3.If(x >= pos(k) + w(k), w(k), x - pos(k))), 0)
    H = [wpos, 0 <= B, B <= i, i < n, a <= b + 1]
    out += [('measure of one more interval: base', H + [fits(i), M(i, a) == 0, M(i + 1, a) == 0], M(i + 1, a) == M(i, a) + ov(i, a)),
            ('measure of one more interval: step', H + [fits(i), a <= t, M(i + 1, t) == M(i, t) + ov(i, t), md(i, t), md(i + 1, t), cd(i, t)], M(i + 1, t + 1) == M(i, t + 1) + ov(i, t + 1))]
    out += [('total is the measure: base', H + [W(B) == 0, M(B, b + 1) == 0], W(B) == M(B, b + 1)),
            ('total is the measure: step', H + [fits(i), Wd(i), W(i) == M(i, b + 1), M(i + 1, b + 1) == M(i, b + 1) + ov(i, b + 1)], W(i + 1) == M(i + 1, b + 1)),
            ('measure of nothing: base', H + [M(B, a) == 0], M(B, a) == 0), ('measure of nothing: step', H + [M(B, t) == 0, md(B, t), cnt(B, t) == 0], M(B, t + 1) == 0)]
    # a position is in at most one interval, and counted only if it is in one
    wit = z3.Int('wit!l')
    dj = lambda k, l: z3.Implies(k != l, z3.Or(pos(k) + w(k) <= pos(l), pos(l) + w(l) <= pos(k)))
    claim = lambda k: z3.And(0 <= cnt(k, t), cnt(k, t) <= 1, z3.Implies(cnt(k, t) == 1, z3.Exists([e1], z3.And(B <= e1, e1 < k, inn(e1, t)))))
    alldj = z3.ForAll([e1, e2], z3.Implies(z3.And(0 <= e1, e1 < n, 0 <= e2, e2 < n), dj(e1, e2)), patterns=[z3.MultiPattern(pos(e1), pos(e2))])
    out += [('at most one interval: base', H + [cnt(B, t) == 0], claim(B)),
            ('at most one interval: step', H + [alldj, cd(i, t), 0 <= cnt(i, t), cnt(i, t) <= 1, z3.Implies(cnt(i, t) == 1, z3.And(B <= wit, wit < i, inn(wit, t)))], claim(i + 1))]
    # the measure is at most the length, and less if a position is missed
    x = z3.Int('x!l')
    c2 = lambda k: z3.And(M(i, k) <= k - a, z3.Implies(z3.And(a <= x, x < k, cnt(i, x) == 0), M(i, k) <= k - a - 1))
    out += [('measure at most the length: base', H + [M(i, a) == 0], c2(a)), ('measure at most the length: step', H + [a <= t, md(i, t), cnt(i, t) >= 0, cnt(i, t) <= 1, c2(t)], c2(t + 1))]
    return out




def wt_zero():
    l, r, w = [z3.Const('qa!%d' % k, A1) for k in range(3)]
    return z3.ForAll([l, r, w, e1, q_], WT(l, r, w, e1, e1, q_) == 0, patterns=[WT(l, r, w, e1, e1, q_)])


def uinv(D, V, B, i, frm=None, upto=None):
    g = lambda f: D.fld(V, f, e1)
    return z3.ForAll([e1], z3.Implies(z3.And((B if frm is None else frm) <= e1, e1 < (i if upto is None else upto)), g('u') <= D.lower(V, e1) + D.wt(V, B, i, D.lower(V, e1)) - 1), patterns=[g('u')])


def ins_req(D):
    def f(c):
        V, (b, t), i = V_(c), range_(c), c.o(0).i
        return base_req(c) + sem(c) + [sorted_(D, V), ('interval', z3.And(b <= i, i < t)), ('totals of the intervals before', uinv(D, V, b, i))]
    return f


def ins_ens(D):
    def f(c):
        V, V2, (b, t), i = V_(c), V_(c, False), range_(c), c.o(0).i
        return iv_kept(c) + [('totals', z3.Implies(c.res, uinv(D, V2, b, i + 1)))]
    return f


def ins_facts(D):
    def f(L):
        V, b = L.get(INTV), L.get(L.this).f['begin'].i
        return D.wtall(V, b, L.p(0).i) + D.wtall(V, b, L['j'].i)
    return f


def ins_inv(D):
    def inv(L):
        V, V0 = L.get(INTV), L.old(INTV)
        b, t = L.get(L.this).f['begin'].i, L.get(L.this).f['end'].i
        i, j, k = L.p(0).i, L['j'].i, L['k'].i
        return static_kept(V0, V) + [('index', z3.And(b <= j, j <= i)), ('totals with the new interval', uinv(D, V, b, i + 1, upto=j)), ('totals without', uinv(D, V, b, i, frm=j, upto=i)),
                                     ('total of the new interval', D.fld(V, 'u', i) <= D.lower(V, i) + D.w(V, i) - 1 + D.wt(V, b, j, D.lower(V, i))),
                                     ('full interval', z3.Or(k == t, z3.And(b <= k, k < j, D.lower(V, k) <= D.lower(V, i), D.fld(V, 'u', k) == D.upper(V, i))))]
    return inv


# ------------------------------------------------------------ all intervals of a range
def pa_req(D):
    def f(c):
        V, (b, t) = V_(c), range_(c)
        return base_req(c) + sem(c) + [sorted_(D, V), ('range', z3.And(0 <= b, b <= t, t <= V.n))]
    return f


def pa_inv(D):
    def inv(L):
        V, V0 = L.get(INTV), L.old(INTV)
        b, t = L.get(L.this).f['begin'].i, L.get(L.this).f['end'].i
        A = L.get(ASS)
        return static_kept(V0, V) + [('index', z3.And(b <= L['i'].i, L['i'].i <= t)), ('totals', uinv(D, V, b, L['i'].i)), ('assignment', z3.And(*(true_lit(A) + litfacts(A, CLIT))))]
    return inv


# ------------------------------------------------------------ both directions
def run_req(D):
    def f(c):
        V = V_(c)
        A = c.oglob(('glob', 'ass'))
        return base_req(c) + sem(c) + [('all intervals', z3.And(c.o(4).i == 0, c.o(5).i == V.n))]
    return f


def run_ens(c):
    V, V2 = V_(c), V_(c, False)
    return consist(V2, S_(c)) + [('count', V2.n == V.n), ('same meaning', disj(V2) == disj(V))]


def run_inv(loop, D):
    def inv(L):
        V, V0 = L.get(INTV), L.old(INTV)
        it = L['it']
        A = L.get(ASS)
        r = static_kept(V0, V) + [('index', z3.And(0 <= it.i, it.i <= V.n)), ('assignment', z3.And(*(true_lit(A) + litfacts(A, CLIT))))]
        if loop == 1:
            r += [('part', z3.And(it.i <= L['je'].i, L['je'].i <= V.n))]
        return r
    return inv


UNITS.append(Lemma('C06', 'C06/lemma: disjoint intervals within a range have at most its length and fill it if they have it', lemmas))
CON = {}
for kind in (0, 1):
    D = Dir(kind)
    nm = ['lower', 'upper'][kind]
    UBD = Contract(requires=ub_req(D), ensures=lambda c, D=D: same_u(D, c) + prefix_kept(c), modifies=MODR + [('glob', ('glob', 'intervals'))], ret='bool', facts=evolves)
    K = '%s<%d>' % (ALG, kind)
    CON[K + '::update_bound'] = UBD
    mk(prop='C06', fn='Algorithm<%d>::update_bound' % kind, ct=UBD, contracts=std_contracts(), folds=[CL], name='C06/update_bound (%s)' % nm,
       opts={'thisval': put_alg(kind), 'args': {0: reason_arg, 1: it_arg('i')}, 'watch': w_, 'foldall': True}, **KA)
    CRD = Contract(requires=cr_req_(D), ensures=cr_ens_(D), modifies=MODR, res=lambda c, s: Ref(RL_), facts=lambda c, D=D: evolves(c) + [D.pigeon(V_(c), range_(c)[0], c.o(1).i, c.o(0), D.upper(V_(c), c.o(1).i - 1))])
    CON[K + '::calculate_reason'] = CRD
    mk(prop='C06', fn='Algorithm<%d>::calculate_reason' % kind, ct=CRD, contracts=persist(std_contracts()), folds=[CL], name='C06/calculate_reason (%s)' % nm, loops={('calculate_reason', 0): LoopSpec(cr_inv_(D))},
       opts={'thisval': put_alg(kind), 'args': {1: it_arg('j')}, 'watch': w_}, **KA)
    C = std_contracts()
    C.update(CON)
    PPD = Contract(requires=pp_req(D), ensures=lambda c: iv_kept(c) + u_kept(V_(c), V_(c, False)), facts=evolves, modifies=MODR + [('glob', ('glob', 'intervals'))], ret='bool')
    CON[K + '::propagate/3'] = PPD
    mk(prop='C06', fn='Algorithm<%d>::propagate' % kind, nparams=3, ct=PPD, contracts=C, folds=[CL], name='C06/propagate full interval (%s)' % nm, loops={('propagate', 0): LoopSpec(pp_inv(D), facts=lambda L, D=D: [SEEN(D.pos(L.get(INTV), L['j'].i))])},
       opts={'thisval': put_alg(kind), 'args': {2: it_arg('i')}, 'watch': w_, 'foldall': True}, **KA)
    C = std_contracts()
    C.update(CON)
    IND = Contract(requires=ins_req(D), ensures=ins_ens(D), modifies=MODR + [('glob', ('glob', 'intervals'))], ret='bool', facts=evolves)
    mk(prop='C06', fn='Algorithm<%d>::insert' % kind, ct=IND, contracts=C, folds=[CL], name='C06/insert (%s)' % nm, loops={('insert', 0): LoopSpec(ins_inv(D), facts=ins_facts(D))}, assume=lambda c, D=D: [wt_zero(), mono(D, V_(c), range_(c)[0], c.o(0).i)] + D.wtall(V_(c), range_(c)[0], c.o(0).i),
       opts={'thisval': put_alg(kind), 'args': {0: it_arg('i')}, 'watch': w_}, **KA)
    CON[K + '::insert'] = IND
    C = std_contracts()
    C.update(CON)
    PAD = Contract(requires=pa_req(D), ensures=iv_kept, modifies=MODR + [('glob', ('glob', 'intervals'))], ret='bool', facts=evolves)
    mk(prop='C06', fn='Algorithm<%d>::propagate' % kind, nparams=0, ct=PAD, contracts=C, folds=[CL], name='C06/propagate (%s)' % nm, loops={('propagate', 0): LoopSpec(pa_inv(D))},
       opts={'thisval': put_alg(kind), 'watch': w_}, **KA)
    CON[K + '::propagate/0'] = PAD
    C = std_contracts()
    C.update(CON)
    RUN = Contract(requires=run_req(D), ensures=run_ens, modifies=MODR + [('glob', ('glob', 'intervals'))], ret='bool', facts=evolves)
    mk(prop='C06', fn='Algorithm<%d>::run' % kind, ct=RUN, contracts=C, folds=[CL], name='C06/run (%s)' % nm, hooks={'comparator': True}, loops={('run', 0): LoopSpec(run_inv(0, D)), ('run', 1): LoopSpec(run_inv(1, D))},
       opts={'args': {0: lambda e, st: LV(('glob', 'solver')), 1: lambda e, st: LV(('glob', 'cc')), 2: lambda e, st: CLIT, 4: lambda e, st: It(INTV, fresh('rb')), 5: lambda e, st: It(INTV, fresh('re'))}, 'watch': w_}, **dict(KA, setup=setup_run))
    CON[K + '::run'] = RUN


# ------------------------------------------------------------ the constraint state
def dcon(e):
    n = fresh('con.n')
    return Rec('Clingcon::DisjointConstraint', {'lit_': CLIT, 'size_': n, 'elements_': Vec(n, Rec('pair', {'first': fresh('d.w', A1), 'second': fresh('d.var', A1)}))})


def this_j(e, st):
    return Rec(DS, {'constraint_': dcon(e), 'intervals_': ivec(), 'inactive_level_': fresh('il'), 'force_update_': fresh('fu', BOOL), 'todo_': fresh('todo', BOOL)})


def djc(C):
    """the starts of the elements keep their distances"""
    f = C.f['elements_'].el.f
    v, w = lambda k: SG(z3.Select(f['second'], k)), lambda k: z3.Select(f['first'], k)
    n = C.f['elements_'].n
    return z3.ForAll([e1, e2], z3.Implies(z3.And(0 <= e1, e1 < n, 0 <= e2, e2 < n, e1 != e2), z3.Or(v(e1) + w(e1) <= v(e2), v(e2) + w(e2) <= v(e1))), patterns=[z3.MultiPattern(z3.Select(f['second'], e1), z3.Select(f['second'], e2))])


def static_inv(V, S):
    """what holds of the intervals between calls"""
    g = lambda f: z3.Select(V.el.f[f], e1)
    return [('size', z3.And(V.n >= 0, V.n < 2**31)), ('intervals', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < V.n), z3.And(0 <= g('var'), g('var') < S.f['var2vs_'].n, g('weight') >= 1, g('weight') <= MAXV)), patterns=[g('var'), g('weight')]))]


def st_req(c):
    A = c.oglob(('glob', 'ass'))
    C, V = con(c), c.old.f['intervals_']
    return solver_inv(c.o(0)) + static_inv(V, c.o(0)) + [('same meaning', disj(V) == djc(C)), ('literal', z3.And(CLIT != 0, CLIT > -2**31, CLIT < 2**31, *litfacts(A, CLIT))), ('the constraint holds', z3.Implies(TT(CLIT), djc(C)))]


def st_ens(c):
    V = c.this.f['intervals_']
    return static_inv(V, c.o(0)) + [('same meaning', disj(V) == djc(con(c)))]


def st_inv(L):
    V, V0 = L.get(L.this).f['intervals_'], L.old(L.this).f['intervals_']
    S = L.get(LV(('param', 0)))
    g = lambda f: z3.Select(V.el.f[f], e1)
    return [('index', z3.And(0 <= L.k, L.k <= V.n)), ('kept', z3.And(V.n == V0.n, *[V.el.f[f] == V0.el.f[f] for f in ('var', 'weight')])),
            ('bounds', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < L.k), z3.And(g('left') == z3.Select(LBA, g('var')), g('right') == z3.Select(UBA, g('var')) + g('weight') - 1)), patterns=[g('var')]))]


def rc_req(c):
    V = c.e.load(c.pre, c.args[4].c)
    return solver_inv(c.o(0)) + consist(V, c.o(0)) + [('literal of the constraint', c.o(2) == CLIT), ('the constraint holds', z3.Implies(TT(c.o(2)), disj(V))), ('all intervals', z3.And(c.args[4].i == 0, c.args[5].i == V.n))]


def rc_eff(c, s):
    lv = c.args[4].c
    V, V2 = c.e.load(s, lv), ivec()
    s.store.update(c.e.save(s, lv, V2).store)
    for _, f in consist(V2, c.o(0)) + [('', V2.n == V.n), ('', disj(V2) == disj(V))]:
        s.add(f)


C = std_contracts()
for kind in (0, 1):
    C['%s<%d>::run' % (ALG, kind)] = Contract(requires=rc_req, effect=rc_eff, modifies=[(0, 'temp_reason_'), ('glob', ('glob', 'ass'))], ret='bool', facts=evolves)
SP = Contract(requires=st_req, ensures=st_ens, modifies=[(0, 'temp_reason_'), ('this', 'intervals_'), ('this', 'force_update_'), ('glob', ('glob', 'ass'))])
mk(prop='C06', fn=DS + '::propagate', ct=SP, contracts=C, folds=[], name='C06/DisjointConstraintState::propagate', loops={('propagate', 0): LoopSpec(st_inv)}, opts={'thisval': this_j, 'args': {0: solver_arg}, 'watch': w_}, **KA)


# ------------------------------------------------------------ final check
def cw(C, k):
    return z3.Select(C.f['elements_'].el.f['first'], k)


def cl_(C, k):
    return z3.Select(LBA, z3.Select(C.f['elements_'].el.f['second'], k))


def apart(C, n):
    """the intervals before n do not overlap under the current assignment"""
    x = lambda k: z3.Select(C.f['elements_'].el.f['second'], k)
    return z3.ForAll([e1, e2], z3.Implies(z3.And(0 <= e1, e1 < e2, e2 < n), z3.Or(cl_(C, e1) + cw(C, e1) <= cl_(C, e2), cl_(C, e2) + cw(C, e2) <= cl_(C, e1))), patterns=[z3.MultiPattern(x(e1), x(e2))])


def cel(C, S):
    x = lambda k: z3.Select(C.f['elements_'].el.f['second'], k)
    return [('size', z3.And(C.f['size_'] >= 0, C.f['size_'] < 2**31)), ('elements', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < C.f['size_']), z3.And(0 <= x(e1), x(e1) < S.f['var2vs_'].n, cw(C, e1) >= 1, cw(C, e1) <= MAXV)), patterns=[x(e1), cw(C, e1)]))]


def cf_req(c):
    C, S = con(c), c.o(0)
    x = lambda k: z3.Select(C.f['elements_'].el.f['second'], k)
    return solver_inv(S) + cel(C, S) + [('all assigned', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < C.f['size_']), z3.Select(UBA, x(e1)) == cl_(C, e1)), patterns=[x(e1)]))]


def cf_inv(L):
    C = L.get(L.this).f['constraint_']
    m = L['assignment'].f['map_']
    v = c16.v_
    inn = lambda k, v: z3.And(cl_(C, k) <= v, v < cl_(C, k) + cw(C, k))
    return [('index', z3.And(0 <= L.k, L.k <= C.f['size_'])), ('rep', c16.rep(m)), ('rng', c16.rng(m)), ('disjoint so far', apart(C, L.k)),
            ('every value of the intervals', z3.ForAll([e1, v], z3.Implies(z3.And(0 <= e1, e1 < L.k, inn(e1, v)), c16.has(m, v)), patterns=[z3.MultiPattern(z3.Select(C.f['elements_'].el.f['second'], e1), c16.has(m, v))])),
            ('values of intervals only', z3.ForAll([v], z3.Implies(c16.has(m, v), z3.Exists([e1], z3.And(0 <= e1, e1 < L.k, inn(e1, v)))), patterns=[c16.has(m, v)]))]


CFD = Contract(requires=cf_req, ensures=lambda c: [('no intervals overlap', apart(con(c), con(c).f['size_']))], throws=lambda c: z3.Not(apart(con(c), con(c).f['size_'])))
mk(prop='C06', fn=DS + '::check_full', ct=CFD, contracts=c16.CONTRACTS, folds=[], name='C06/DisjointConstraintState::check_full', loops={('check_full', 0): LoopSpec(cf_inv)}, assume=lambda c: c16.axioms(), opts={'thisval': this_j, 'args': {0: solver_arg}}, **KA)


# ------------------------------------------------------------ every overlap of a total assignment is detected
from c05 import FF, NF, cd_contracts


def allass(D, V):
    return ('all assigned', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < V.n), D.lower(V, e1) + D.w(V, e1) - 1 == D.upper(V, e1)), patterns=[D.fld(V, 'left', e1), D.fld(V, 'right', e1)]))


ACTIVE = ('the constraint is active', FF(-CLIT))


def before(D, V, b, t):
    """sorted intervals do not overlap"""
    lf, uf = ('left', 'right') if D.k == 0 else ('right', 'left')
    return z3.ForAll([e1, e2], z3.Implies(z3.And(b <= e1, e1 < e2, e2 < t), D.upper(V, e1) < D.lower(V, e2)), patterns=[z3.MultiPattern(D.fld(V, uf, e1), D.fld(V, lf, e2))])


def prev(D, V, b, j, i):
    f = 'right' if D.k == 0 else 'left'
    return z3.ForAll([e1], z3.Implies(z3.And(b <= e1, e1 < j), D.upper(V, e1) < D.lower(V, i)), patterns=[D.fld(V, f, e1)])


def ulow(D, V, b, i):
    return z3.ForAll([e1], z3.Implies(z3.And(b <= e1, e1 < i), D.fld(V, 'u', e1) >= D.upper(V, e1)), patterns=[D.fld(V, 'u', e1)])


def dcr_inv(L):
    return [('all literals false', z3.Not(NF(L.get(RL_)))), ('size', L.get(RL_).n >= 0), ('index', z3.And(L.get(L.this).f['begin'].i <= L['i'].i, L['i'].i <= L.p(1).i))]


def dins_inv(D):
    def inv(L):
        V, V0 = L.get(INTV), L.old(INTV)
        b, t = L.get(L.this).f['begin'].i, L.get(L.this).f['end'].i
        i, j = L.p(0).i, L['j'].i
        return static_kept(V0, V) + [('index', z3.And(b <= j, j <= i, z3.Or(L['k'].i == t, z3.And(b <= L['k'].i, L['k'].i < j)))), ('totals', ulow(D, V, b, i)), ('total of the new interval', D.fld(V, 'u', i) >= D.upper(V, i)),
                                     ('apart or an overlap is noticed', z3.Or(prev(D, V, b, j, i), D.fld(V, 'u', i) > D.upper(V, i)))]
    return inv


def dpa_inv(D):
    def inv(L):
        V, V0 = L.get(INTV), L.old(INTV)
        b, t = L.get(L.this).f['begin'].i, L.get(L.this).f['end'].i
        return static_kept(V0, V) + [('assignment', z3.And(*(true_lit(L.get(ASS)) + litfacts(L.get(ASS), CLIT)))), ('index', z3.And(b <= L['i'].i, L['i'].i <= t)), ('totals', ulow(D, V, b, L['i'].i)), ('apart', before(D, V, b, L['i'].i))]
    return inv


def drun_inv(loop, D):
    def inv(L):
        V, V0 = L.get(INTV), L.old(INTV)
        it = L['it']
        p = L['je'].i if loop == 1 else it.i
        lf, uf = ('left', 'right') if D.k == 0 else ('right', 'left')
        r = static_kept(V0, V) + [('assignment', z3.And(*(true_lit(L.get(ASS)) + litfacts(L.get(ASS), CLIT)))), ('index', z3.And(0 <= it.i, it.i <= V.n)), ('parts are apart', z3.ForAll([e1, e2], z3.Implies(z3.And(0 <= e1, e1 < p, p <= e2, e2 < V.n), D.upper(V, e1) < D.lower(V, e2)), patterns=[z3.MultiPattern(D.fld(V, uf, e1), D.fld(V, lf, e2))])),
                                  ('handled parts are apart', before(D, V, p, V.n))]
        if loop == 1:
            r += [('part', z3.And(it.i < L['je'].i, L['je'].i <= V.n)), ('smallest start', z3.ForAll([e1], z3.Implies(z3.And(it.i <= e1, e1 < L['je'].i), L['min'] <= D.lower(V, e1)), patterns=[D.fld(V, lf, e1)])), ('change', L['has_change'])]
        return r
    return inv


def apartv(V):
    """the intervals with the current bounds do not overlap"""
    l, r, x = (lambda k: z3.Select(V.el.f['left'], k)), (lambda k: z3.Select(V.el.f['right'], k)), None
    return z3.ForAll([e1, e2], z3.Implies(z3.And(0 <= e1, e1 < V.n, 0 <= e2, e2 < V.n, e1 != e2), z3.Or(r(e1) < l(e2), r(e2) < l(e1))), patterns=[z3.MultiPattern(l(e1), l(e2))])


MD = MODR + [('glob', ('glob', 'intervals'))]
DB = {}
for kind in (0, 1):
    D = Dir(kind)
    nm = ['lower', 'upper'][kind]
    K = '%s<%d>' % (ALG, kind)
    CR2 = Contract(requires=lambda c, D=D: cr_req_(D)(c) + [ACTIVE], ensures=lambda c: [is_reason(c), ('size', S_(c, False).f['temp_reason_'].n >= 0), ('all literals false', z3.Not(NF(S_(c, False).f['temp_reason_'])))], modifies=MODR, res=lambda c, s: Ref(RL_))
    mk(prop='C06', fn='Algorithm<%d>::calculate_reason' % kind, ct=CR2, contracts=cd_contracts(), folds=[NF], name='C06/calculate_reason is violated (%s)' % nm, loops={('calculate_reason', 0): LoopSpec(dcr_inv)},
       opts={'thisval': put_alg(kind), 'args': {1: it_arg('j')}}, **KA)
    DB[K + '::calculate_reason'] = CR2
    PP2 = Contract(ensures=lambda c: iv_kept(c) + u_kept(V_(c), V_(c, False)), modifies=MD, ret='bool')     # verified above
    DB[K + '::propagate/3'] = PP2
    C = cd_contracts()
    C.update(DB)
    IN2 = Contract(requires=lambda c, D=D: base_req(c) + [sorted_(D, V_(c)), allass(D, V_(c)), ACTIVE, ('interval', z3.And(range_(c)[0] <= c.o(0).i, c.o(0).i < range_(c)[1])), ('totals', ulow(D, V_(c), range_(c)[0], c.o(0).i))],
                   ensures=lambda c, D=D: iv_kept(c) + [('apart from all intervals before', z3.Implies(c.res, prev(D, V_(c, False), range_(c)[0], c.o(0).i, c.o(0).i))), ('totals', z3.Implies(c.res, ulow(D, V_(c, False), range_(c)[0], c.o(0).i + 1)))], modifies=MD, ret='bool', facts=evolves)
    mk(prop='C06', fn='Algorithm<%d>::insert' % kind, ct=IN2, contracts=C, folds=[NF], name='C06/insert detects overlaps (%s)' % nm, loops={('insert', 0): LoopSpec(dins_inv(D))}, opts={'thisval': put_alg(kind), 'args': {0: it_arg('i')}}, **KA)
    DB[K + '::insert'] = IN2
    C = cd_contracts()
    C.update(DB)
    PA2 = Contract(requires=lambda c, D=D: base_req(c) + [sorted_(D, V_(c)), allass(D, V_(c)), ACTIVE, ('range', z3.And(0 <= range_(c)[0], range_(c)[0] <= range_(c)[1], range_(c)[1] <= V_(c).n))],
                   ensures=lambda c, D=D: iv_kept(c) + [('all apart', z3.Implies(c.res, before(D, V_(c, False), *range_(c))))], modifies=MD, ret='bool', facts=evolves)
    mk(prop='C06', fn='Algorithm<%d>::propagate' % kind, nparams=0, ct=PA2, contracts=C, folds=[NF], name='C06/propagate detects overlaps (%s)' % nm, loops={('propagate', 0): LoopSpec(dpa_inv(D))}, opts={'thisval': put_alg(kind), 'watch': w_}, **KA)
    DB[K + '::propagate/0'] = PA2
    C = cd_contracts()
    C.update(DB)
    RU2 = Contract(requires=lambda c, D=D: base_req(c) + [allass(D, V_(c)), ACTIVE, ('forced', c.o(3)), ('all intervals', z3.And(c.o(4).i == 0, c.o(5).i == V_(c).n))],
                   ensures=lambda c: [('all apart', z3.Implies(c.res, apartv(V_(c))))], modifies=MD, ret='bool', facts=evolves)
    mk(prop='C06', fn='Algorithm<%d>::run' % kind, ct=RU2, contracts=C, folds=[NF], name='C06/run detects overlaps (%s)' % nm, hooks={'comparator': True}, loops={('run', 0): LoopSpec(drun_inv(0, D)), ('run', 1): LoopSpec(drun_inv(1, D))},
       opts={'args': {0: lambda e, st: LV(('glob', 'solver')), 1: lambda e, st: LV(('glob', 'cc')), 2: lambda e, st: CLIT, 4: lambda e, st: It(INTV, fresh('rb')), 5: lambda e, st: It(INTV, fresh('re'))}, 'watch': w_}, **dict(KA, setup=setup_run))


def apartc(C):
    """all elements, in the current assignment"""
    return apart(C, C.f['elements_'].n)


def vb(V, k):
    return z3.Select(LBA, z3.Select(V.el.f['var'], k)), z3.Select(UBA, z3.Select(V.el.f['var'], k)) + z3.Select(V.el.f['weight'], k) - 1


def apartb(V):
    """no two intervals overlap under the current bounds of their variables"""
    x = lambda k: z3.Select(V.el.f['var'], k)
    return z3.ForAll([e1, e2], z3.Implies(z3.And(0 <= e1, e1 < V.n, 0 <= e2, e2 < V.n, e1 != e2), z3.Or(vb(V, e1)[1] < vb(V, e2)[0], vb(V, e2)[1] < vb(V, e1)[0])), patterns=[z3.MultiPattern(x(e1), x(e2))])


def rd_eff(c, s):
    lv = c.args[4].c
    V, V2 = c.e.load(s, lv), ivec()
    s.store.update(c.e.save(s, lv, V2).store)
    for _, f in consist(V2, c.o(0)):
        s.add(f)
    s.add(z3.Implies(z3.And(c.o(3), c.res), apartv(V)))


def rd_req(D):
    def f(c):
        V = c.e.load(c.pre, c.args[4].c)
        return consist(V, c.o(0)) + [('forced', c.o(3)), ('literal of the constraint', c.o(2) == CLIT)]
    return f


def sd_req(c):
    V = c.old.f['intervals_']
    A = c.oglob(('glob', 'ass'))
    x = z3.Select(V.el.f['var'], e1)
    return solver_inv(c.o(0)) + static_inv(V, c.o(0)) + [('literal', z3.And(CLIT != 0, CLIT > -2**31, CLIT < 2**31, *litfacts(A, CLIT))), ACTIVE, ('bounds changed since the last call', c.old.f['force_update_']),
            ('all assigned', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < V.n), z3.Select(LBA, x) == z3.Select(UBA, x)), patterns=[x]))]


C = cd_contracts()
for kind in (0, 1):
    C['%s<%d>::run' % (ALG, kind)] = Contract(requires=rd_req(Dir(kind)), effect=rd_eff, modifies=[(0, 'temp_reason_'), ('glob', ('glob', 'ass'))], ret='bool', facts=evolves)
mk(prop='C06', fn=DS + '::propagate', ct=Contract(requires=sd_req, ensures=lambda c: [('no overlap is accepted', z3.Implies(c.res, apartb(c.old.f['intervals_'])))], modifies=SP.modifies), contracts=C, folds=[], name='C06/DisjointConstraintState::propagate detects overlaps', loops={('propagate', 0): LoopSpec(st_inv)}, opts={'thisval': this_j, 'args': {0: solver_arg}, 'watch': w_}, **KA)


# ------------------------------------------------------------ undo, new states
mk(prop='C06', fn=DS + '::undo', ct=Contract(ensures=lambda c: [('the next propagation looks at all intervals', c.this.f['force_update_'])], modifies=[('this', 'force_update_')]), name='C06/DisjointConstraintState::undo', opts={'thisval': this_j}, **KA)


def new_ens(c):
    C, T = c.o(0), c.this
    V = T.f['intervals_']
    f = C.f['elements_'].el.f
    return [('the constraint is referenced', z3.BoolVal(isinstance(T.f.get('constraint_'), Ref))), ('one interval per element', V.n == C.f['elements_'].n),
            ('starts and durations', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < V.n), z3.And(z3.Select(V.el.f['var'], e1) == z3.Select(f['second'], e1), z3.Select(V.el.f['weight'], e1) == z3.Select(f['first'], e1))), patterns=[z3.Select(V.el.f['var'], e1)])),
            ('the first propagation looks at all intervals', T.f['force_update_']), ('active', z3.And(T.f['inactive_level_'] == 0, z3.Not(T.f['todo_'])))]


def new_inv(L):
    C, V = L.p(0), L.get(L.this).f['intervals_']
    f = C.f['elements_'].el.f
    return [('index', z3.And(0 <= L.k, L.k <= C.f['elements_'].n)), ('length', V.n == L.k), ('copied', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < L.k), z3.And(z3.Select(V.el.f['var'], e1) == z3.Select(f['second'], e1), z3.Select(V.el.f['weight'], e1) == z3.Select(f['first'], e1))), patterns=[z3.Select(V.el.f['var'], e1)]))]


mk(prop='C06', fn=DS + '::' + DS, nparams=1, sig=r'\(DisjointConstraint &\)', ct=Contract(requires=lambda c: cel(c.o(0), solver_arg(c.e, c.pre)), ensures=new_ens, modifies=[('this', k) for k in ('intervals_', 'constraint_', 'force_update_', 'todo_', 'inactive_level_')]), name='C06/new state', loops={(DS, 0): LoopSpec(new_inv)}, opts={'thisval': this_j, 'args': {0: lambda e, st: dcon(e)}}, **KA)
