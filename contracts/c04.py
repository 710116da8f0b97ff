"""C04: translating a linear constraint keeps its meaning."""
from c01 import *
from c21 import WSUM, wl, CExec, atmost, wlit
from engine import Opq, NONE, Ref, LV, fresh
from c03 import Lemma

HOLDS = z3.Bool('HOLDS')            # the constraint holds under the fixed assignment
TRM = ('glob', 'tr')                # what was handed over so far
SC = 'SumConstraintState'
v4 = z3.Int('v!4')


class TExec(CExec):
    def construct(self, t, b, ta, cs, n, st, fr):
        if b.split('::')[-1] == 'WeightedLiteral' and len(cs) == 2:
            return [(s, Rec('WeightedLiteral', {'lit': vs[0], 'w': vs[1]})) for s, vs in self.evlist(cs, st, fr)]
        return super().construct(t, b, ta, cs, n, st, fr)


def setup4(e, st, fd):
    put_ass(st)
    st.store[('glob', 'stats')] = e.shape('Clingcon::Statistics', 'stats')
    st.store[TRM] = Rec('Tr', {'mean': z3.BoolVal(True), 'n': I(0)})


def top_level(S):
    """level 0: the assignment lies within the bounds"""
    b = z3.And(z3.Select(LBA, v4) <= SG(v4), SG(v4) <= z3.Select(UBA, v4))
    return ('bounds of level 0', z3.ForAll([v4], z3.Implies(z3.And(0 <= v4, v4 < S.f['var2vs_'].n), b), patterns=[z3.Select(LBA, v4), z3.Select(UBA, v4)]))


def base_req(c, si):
    S, C = c.o(si), con(c)
    return solver_inv(S) + con_inv(C, S) + [top_level(S), ('level', c.oglob(('glob', 'ass')).f['DL'] == 0), ('meaning', HOLDS == z3.Implies(TT(C.f['lit_']), LIN(C.f['elements_']) <= C.f['rhs_']))]


def tr(c):
    return c.glob(TRM)


def complete(c):
    """removed only if what was handed over implies the constraint"""
    return [('removed only if the replacement is complete', z3.Implies(z3.And(c.res.f['first'], c.res.f['second'], tr(c).f['mean']), HOLDS))]


def add_wc(c, s):
    g = s.store[TRM]
    s.store[TRM] = Rec('Tr', {'mean': z3.And(g.f['mean'], atmost(c.o(0), WSUM(c.o(1)), c.o(2), c.o(3))), 'n': g.f['n'] + 1})


def add_cl(c, s):
    g = s.store[TRM]
    s.store[TRM] = Rec('Tr', {'mean': z3.And(g.f['mean'], CL(c.o(0))), 'n': g.f['n'] + 1})


def base4():
    C = std_contracts()
    C['Clingcon::InitClauseCreator::add_weight_constraint'] = Contract(ret='bool', effect=add_wc, requires=lambda c: [
        ('the weight constraint follows from the constraint', z3.Implies(HOLDS, atmost(c.o(0), WSUM(c.o(1)), c.o(2), c.o(3)))), ('bound', z3.And(c.o(2) >= -2**31, c.o(2) < 2**31 - 1)), ('implication type', z3.And(c.o(3) >= -1, c.o(3) <= 1))])
    C['Clingcon::AbstractClauseCreator::add_clause'] = Contract(ret='bool', effect=add_cl, requires=lambda c: [('the clause follows from the constraint', z3.Implies(HOLDS, CL(c.o(0))))])
    return C


def subterms(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        out.append(x)
        todo += x.children()
    return out


def points(ea, b):
    """values of the variable an expression over its coefficient is about"""
    for x in subterms(b):
        if z3.is_select(x) and x.arg(0).eq(ea.f['first']):
            v = z3.Select(ea.f['second'], x.arg(1))
            r = [z3.Select(LBA, v), z3.Select(UBA, v), SG(v), SG(v) - 1]
            return r if x.eq(b) else [-y for y in r[:3]] + [-SG(v) - 1]
    return []


def floor_at(a, b, q, w):
    """consequences of q == floor(a / b) for b > 0"""
    return z3.And(z3.Implies(b * w <= a, w <= q), z3.Implies(w <= q, b * w <= a), z3.Implies(w <= q, b * w <= b * q), z3.Implies(w >= q, b * w >= b * q), z3.Implies(w >= q + 1, b * w >= b * q + b))


def lemma_floor():
    a, b, q, w = z3.Ints('a b q w')
    h = [b > 0, b * q <= a, a < b * q + b]
    return [('quotient', h + [z3.Implies(w >= q + 1, b * (w - q - 1) >= 0), z3.Implies(w <= q, b * (q - w) >= 0), z3.Implies(w >= q, b * (w - q) >= 0)], floor_at(a, b, q, w))] + [('product', [b >= 0, w >= 0], b * w >= 0)]


def floor4(old):
    def facts(c):
        ea = con4(c).f['elements_'].el
        a, b, q = c.o(0), c.o(1), c.res
        return (old.facts(c) if old.facts else []) + [z3.Implies(b > 0, floor_at(a, b, q, w)) for w in points(ea, b)]
    return Contract(requires=old.requires, ensures=old.ensures, modifies=old.modifies, throws=old.throws, res=old.res, ret=old.ret, facts=facts)


def con4(c):
    return c.e.load(c.pre, LV(('this',))).f['constraint_']


# ------------------------------------------------------------ weight constraints
def wt_req(c):
    C = con(c)
    return base_req(c, 0) + [('slack', c.o(2) == C.f['rhs_'] - LO(C.f['elements_'])), ('slack not negative', c.o(2) >= 0)]


def covers(W, S, sl):
    """both sums exceed the slack, or they are equal"""
    return z3.And(W >= 0, W <= S, z3.Or(W == S, W > sl))


def w_common(L):
    A = L.get(ASS)
    return [('assignment', z3.And(*true_lit(A))), ('level', A.f['DL'] == L.old(ASS).f['DL'])]


def wt0(L):
    el, k = L.get(L.this).f['constraint_'].f['elements_'], L.k
    return w_common(L) + [('index', z3.And(0 <= k, k <= el.n)), ('sums so far', covers(WSUM(L['wlits']), LIN(el, k) - LO(el, k), L.p0(2)))]


def wt_in(pos):
    def inv(L):
        el, k = L.get(L.this).f['constraint_'].f['elements_'], L.outer_k()
        co, v = z3.Select(el.el.f['first'], k), z3.Select(el.el.f['second'], k)
        i, e, W, W0 = L['i'], L['e'], WSUM(L['wlits']), WSUM(L.at_entry('wlits'))
        b = L.at_entry('i')
        if pos:
            d = [('up to the value', z3.Implies(SG(v) >= i, W == W0 + co * (i - b))), ('beyond the value', z3.Implies(SG(v) < i, W == W0 + co * (SG(v) - b)))]
        else:
            d = [('below the value', z3.Implies(SG(v) >= i, W == W0)), ('from the value', z3.Implies(z3.And(SG(v) < i, SG(v) >= b), W == W0 - co * (i - SG(v)))), ('from the start', z3.Implies(SG(v) < b, W == W0 - co * (i - b)))]
        return w_common(L) + [('index', z3.And(b <= i, i <= e))] + d
    return inv


WT = Contract(requires=wt_req, ensures=complete, modifies=[('glob', TRM), ('glob', ('glob', 'ass'))])
UNITS = []
UNITS.append(Unit('C04', TU_, SC + '::weight_translate_', WT, setup=setup4, contracts=base4(), eng=TExec, ovf={32}, folds=[LIN, LO, WSUM], name='C04/weight_translate_',
                  loops={('weight_translate_', 0): LoopSpec(wt0), ('weight_translate_', 1): LoopSpec(wt_in(True)), ('weight_translate_', 2): LoopSpec(wt_in(False))},
                  opts={'thisval': thisval(SC), 'args': {0: solver_arg}, 'foldall': True, 'nameall': True}))


# ------------------------------------------------------------ clauses
class KExec4(TExec):
    """during preprocessing only literals that hold in all solutions are assigned"""

    def _q(self, args, st, fr, f):
        res = []
        for s, l in self.ev(args[0], st, fr):
            A = self.load(s, ASS)
            s = s.copy()
            for x in litfacts(A, l):
                s.add(x)
            for y in (l, -l):
                s.add(z3.Implies(z3.Select(A.f['AT'], y), z3.Select(A.f['FX'], y)))
            res.append((s, f(A, l)))
        return res


def gap(el, k):
    return LIN.app(el, k) - LO.app(el, k)


def head(el, k):
    return UP.app(el, k) - LIN.app(el, k)


def grow(el, n):
    """both gaps grow with the number of terms"""
    k = z3.Int('k!gr')
    return [z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= n), z3.And(gap(el, k) <= gap(el, n), head(el, k) <= head(el, n), gap(el, k) >= 0, head(el, k) >= 0)), patterns=[LIN.app(el, k)])]


def lemma_grow():
    C = con_shape(SC)
    el, N = C.f['elements_'].el, C.f['elements_'].n
    S = Rec('S', {'var2vs_': Vec(z3.Int('nv'), Rec('x', {}))})
    m = z3.Int('m!gr')
    co, v = z3.Select(el.f['first'], m), z3.Select(el.f['second'], m)
    l, u, s = z3.Select(LBA, v), z3.Select(UBA, v), SG(v)
    hyp = [f for _, f in con_inv(C, S)] + [top_level(S)[1]]
    for f in (LIN, LO, UP):
        hyp += [f.app(el, I(0)) == 0, f.app(el, m + 1) == f.app(el, m) + f.st(select(el, m))]
    return [('base', hyp, z3.And(*grow(el, I(0)))),
            ('step', hyp + [0 <= m, m < N, l <= s, s <= u, z3.Implies(co > 0, z3.And(co * l <= co * s, co * s <= co * u)), z3.Implies(co < 0, z3.And(co * l >= co * s, co * s >= co * u))] + grow(el, m), z3.And(*grow(el, m + 1))),
            ('order', [co > 0, l <= s, s <= u], z3.And(co * l <= co * s, co * s <= co * u)), ('reversed order', [co < 0, l <= s, s <= u], z3.And(co * l >= co * s, co * s >= co * u))]


UNITS.append(Lemma('C04', 'C04/lemma: the gaps of a sum to its bounds grow with its terms', lemma_grow))
UNITS.append(Lemma('C04', 'C04/lemma: quotients', lemma_floor))
SEEN4 = z3.Function('SEEN4', INT, BOOL)       # always true; stack positions to look at
p4, q4 = z3.Ints('p!4 q!4')


def frame(T, p):
    f = [z3.Select(T.el.f[str(i)], p) for i in range(6)]
    return f


def ct_req(c):
    C = con(c)
    el = C.f['elements_']
    return base_req(c, 0) + [('lower slack', c.o(2) == C.f['rhs_'] - LO(el)), ('upper slack', c.o(3) == C.f['rhs_'] - UP(el)), ('lower slack not negative', c.o(2) >= 0), ('upper slack negative', c.o(3) < 0)]


# a violating assignment follows the prefix exactly and its value is still to come; a named predicate
# so that equal stack positions give equal arguments (products are opaque to congruence)
EX4 = z3.Function('EX4', *([INT] * 10 + [BOOL]))
xs4 = z3.Ints('co!x vl!x vu!x lo!x up!x lb!x ub!x sg!x gap!x head!x')


def exact_def():
    co, vl, vu, lo, up, lb, ub, sg, gp, hd = xs4
    pos = z3.And(gp == -lo - co * vu - co + co * lb, hd == up - co * ub + co * vu + co, vl <= sg - 1, z3.Or(sg - 1 <= vu, lo < 0))
    neg = z3.And(gp == -lo - co * vl + co * ub, hd == up - co * lb + co * vl, sg <= vu, z3.Or(sg >= vl, lo < 0))
    x = EX4(*xs4)
    return z3.ForAll(xs4, x == z3.And(vl <= vu, z3.Implies(co > 0, pos), z3.Implies(co < 0, neg)), patterns=[x])


def ct0(L):
    el = L.get(L.this).f['constraint_'].f['elements_']
    N, ea = el.n, el.el
    T, cl = L['todo'], L['clause']
    n = z3.simplify(T.n)
    s0, u0 = L.p0(2), L.p0(3)
    lit = L.get(L.this).f['constraint_'].f['lit_']
    g = L.get(LV(TRM))

    def at(p):
        i, j, vl, vu, lo, up = [z3.simplify(x) for x in frame(T, p)] if p is not p4 else frame(T, p)
        e = z3.simplify(i - 1)
        co, v = z3.Select(ea.f['first'], e), z3.Select(ea.f['second'], e)
        lb, ub = z3.Select(LBA, v), z3.Select(UBA, v)
        fls = z3.Not(CL(cl, j))
        up_, dn = co > 0, co < 0
        gap_, head_ = gap(ea, e), head(ea, e)
        return {'levels': z3.And(1 <= i, i <= N, 0 <= j, j <= i), 'values': z3.And(vl >= lb - 1, vl <= ub + 1, vu >= lb - 2, vu <= ub, z3.Implies(up_, z3.And(vu < ub, vl <= ub)), z3.Implies(dn, z3.And(vl >= lb, vu >= lb - 1))),
                'false literal': z3.Implies(fls, TT(lit)),
                'up': z3.Implies(z3.And(fls, up_), gap_ >= s0 - lo - co * vu - co + co * lb),
                'down': z3.Implies(z3.And(fls, dn), gap_ >= s0 - lo - co * vl + co * ub),
                'width': lo - up == (UP.app(ea, N) - LO.app(ea, N)) - (UP.app(ea, i) - LO.app(ea, i)),
                'upper': z3.Implies(vl <= vu, z3.And(z3.Implies(up_, up + co * vu - co * vl < 0), z3.Implies(dn, up - co * vu + co * vl < 0))),
                'exact': z3.And(fls, EX4(co, vl, vu, lo, up, lb, ub, SG(v), gap_ - s0, head_ + u0)), 'i': i, 'j': j}
    i0, j0, vl0, vu0, lo0, up0 = frame(T, I(0))
    first = z3.And(n == 1, i0 == 0, j0 == 0, vl0 == 0, vu0 == 0, lo0 == s0, up0 == u0)
    d, t, t1, t2 = at(p4), at(z3.simplify(n - 1)), at(z3.simplify(n - 2)), at(z3.simplify(n - 3))
    jq = frame(T, q4)[1]
    low = z3.And(0 <= p4, p4 < n - 2)
    all_ = lambda k: z3.Or(first, z3.And(z3.Implies(n >= 1, t[k]), z3.Implies(n >= 2, t1[k]), z3.ForAll([p4], z3.Implies(z3.And(SEEN4(p4), low), d[k]), patterns=[SEEN4(p4)])))
    some_ = z3.Or(z3.And(n >= 1, t['exact']), z3.And(n >= 2, t1['exact']), z3.Exists([p4], z3.And(SEEN4(p4), low, d['exact']), patterns=[SEEN4(p4)]))
    return w_common(L) + [('clause size', cl.n == N + 1), ('stack', n >= 0), ('top', z3.Implies(n >= 1, z3.And(0 <= t['i'], t['i'] <= N, 0 <= t['j'], t['j'] <= t['i']))), ('levels', all_('levels')),
                          ('prefixes nest', z3.Or(first, z3.ForAll([p4, q4], z3.Implies(z3.And(SEEN4(p4), SEEN4(q4), 0 <= p4, p4 <= q4, q4 < n), d['j'] <= jq), patterns=[z3.MultiPattern(SEEN4(p4), SEEN4(q4))]))),
                          ('values', all_('values')), ('a false prefix needs the literal', all_('false literal')), ('a false prefix exceeds the slack left (positive)', all_('up')), ('a false prefix exceeds the slack left (negative)', all_('down')), ('width', all_('width')), ('upper negative', all_('upper')),
                          ('violations are covered', z3.Implies(z3.And(z3.Not(L.p(4)), z3.Not(HOLDS), g.f['mean']), z3.Or(first, some_)))]


def ct_facts(L):
    el = L.get(L.this).f['constraint_'].f['elements_']
    ea, N = el.el, el.n
    S = L.get(LV(('param', 0)))
    T = L['todo']
    out = [SEEN4(z3.simplify(T.n - k)) for k in range(4)] + [f.app(ea, I(0)) == 0 for f in (LIN, LO, UP)] + [z3.Not(CL(L['clause'], I(0)))]
    for k in (1,):
        i, _, vl, vu, _, _ = frame(T, T.n - k)
        out.append(z3.Implies(z3.And(0 <= i, i <= N), z3.And(gap(ea, i) <= gap(ea, N), head(ea, i) <= head(ea, N))))
        for e in (z3.simplify(i - 1), i):
            co, v = z3.Select(ea.f['first'], e), z3.Select(ea.f['second'], e)
            lb, ub = z3.Select(LBA, v), z3.Select(UBA, v)
            ok = z3.And(0 <= e, e < N)
            out += [z3.Implies(ok, f.app(ea, z3.simplify(e + 1)) == f.app(ea, e) + f.st(select(ea, e))) for f in (LIN, LO, UP)]
            out.append(z3.Implies(ok, z3.And(MINV <= lb, lb <= SG(v), SG(v) <= ub, ub <= MAXV, co != 0)))
            for x, y in ((lb, SG(v)), (SG(v), ub)) + (() if e is i else ((SG(v), vu), (SG(v) - 1, vu), (vu, SG(v) - 1), (SG(v), vl), (vl, SG(v)), (vl, vu))):
                out += [z3.Implies(z3.And(co > 0, x <= y), co * x <= co * y), z3.Implies(z3.And(co < 0, x <= y), co * x >= co * y)]
    return out


def ct_ens(c):
    return [('removed only if the replacement is complete', z3.Implies(z3.And(c.res, z3.Not(c.o(4)), tr(c).f['mean']), HOLDS))]


CTC = Contract(requires=ct_req, ensures=ct_ens, modifies=[('glob', TRM), ('glob', ('glob', 'ass'))])
UNITS.append(Unit('C04', TU_, SC + '::clause_translate_', CTC, setup=setup4, contracts=dict(base4(), **{'Clingcon::floordiv<long>': floor4(base4()['Clingcon::floordiv<long>'])}), eng=KExec4, ovf={32}, folds=[LIN, LO, UP, CL], name='C04/clause_translate_', timeout=30000,
                  assume=lambda c: [exact_def()] + grow(con(c).f['elements_'].el, con(c).f['elements_'].n), loops={('clause_translate_', 0): LoopSpec(ct0, facts=ct_facts)}, opts={'thisval': thisval(SC), 'args': {0: solver_arg}, 'foldall': True, 'nameall': True}))


# ------------------------------------------------------------ choosing a translation
def tl_req(c):
    C, A = con(c), c.oglob(('glob', 'ass'))
    T = c.e.load(c.pre, LV(('this',)))
    el, rhs = C.f['elements_'], C.f['rhs_']
    active = z3.And(z3.Not(is_false(A, C.f['lit_'])), T.f['upper_bound_'] > rhs)
    return base_req(c, 1) + [('upper bound of the sum', UP(el) <= T.f['upper_bound_']), ('bounds up to date', z3.Implies(active, z3.And(T.f['lower_bound_'] == LO(el), T.f['upper_bound_'] == UP(el)))),
                             ('propagated', z3.Implies(active, LO(el) <= rhs))]


CT = dict(base4())
CT['Clingcon::InitClauseCreator::assignment'] = CT['Clingcon::AbstractClauseCreator::assignment']
CT['Clingcon::AbstractClauseCreator::statistics'] = CT['Clingcon::InitClauseCreator::statistics'] = Contract(res=lambda c, s: Ref(LV(('glob', 'stats'))))
CT['Clingcon::' + SC + '::weight_translate_'] = WT
CT['Clingcon::' + SC + '::clause_translate_'] = CTC
CT['Clingcon::' + SC + '::literal_variable_ratio_'] = Contract(ret='double')
CT['Clingcon::' + SC + '::clause_estimate_'] = Contract(ret='bool')
TL = Contract(requires=tl_req, ensures=complete, modifies=[('glob', TRM), ('glob', ('glob', 'ass'))])
UNITS.append(Unit('C04', TU_, SC + '::translate', TL, setup=setup4, contracts=CT, eng=KExec4, ovf={32}, folds=[LIN, LO, UP, WSUM], name='C04/translate', assume=lambda c: grow(con(c).f['elements_'].el, con(c).f['elements_'].n), opts={'thisval': thisval(SC), 'args': {1: solver_arg, 0: lambda e, st: e.shape('Clingcon::Config', 'cfg')}}))
