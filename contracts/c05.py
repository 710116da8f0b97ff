"""C05: distinct constraints are sound and detect every violation."""
from c01 import *
from execu import PKEY, PFST, PSND, pair_axioms
import cb
from c03 import Lemma
from c08 import fa

DN = 'DistinctConstraintState'
e1, e2 = z3.Ints('e!1 e!2')
KI = z3.IntSort()
A1 = z3.ArraySort(INT, INT)
A2 = z3.ArraySort(INT, A1)


def con_shape_d():
    sz = fresh('el.size', A1)
    inner_ = Vec(sz, Rec('pair', {'first': fresh('el.co', A2), 'second': fresh('el.var', A2)}))
    n = fresh('con.n')
    v = Vec(n, Rec('Clingcon::DistinctElement', {'fixed_': fresh('el.fixed', A1), 'size_': sz, 'elements_': inner_}))
    return Rec('Clingcon::DistinctConstraint', {'lit_': fresh('clit'), 'size_': n, 'elements_': v})


def vec(name, sort=INT):
    return Vec(fresh(name + '.n'), fresh(name, z3.ArraySort(INT, sort)))


def this_d(e, st):
    pr = Rec('pair', {'first': fresh('as.lo', A1), 'second': fresh('as.up', A1)})
    keys = lambda nm: MapV(fresh(nm, z3.ArraySort(INT, BOOL)), None, Opq('pair'))
    return Rec(DN, {'constraint_': con_shape_d(), 'assigned_': Vec(fresh('as.n'), pr), 'dirty_': vec('dirty'), 'todo_upper_': vec('tu'), 'todo_lower_': vec('tl'),
                    'in_dirty_': vec('ind', BOOL), 'in_todo_upper_': vec('itu', BOOL), 'in_todo_lower_': vec('itl', BOOL), 'lower_': keys('lower'), 'upper_': keys('upper'),
                    'inactive_level_': fresh('il'), 'todo_': fresh('todo', BOOL)})


def els(C):
    return C.f['elements_']


def sub(C, i):
    return select(els(C).el, i).f['elements_']


def fixed(C, i):
    return z3.Select(els(C).el.f['fixed_'], i)


def lo(C, i):
    return fixed(C, i) + LO(sub(C, i))


def up(C, i):
    return fixed(C, i) + UP(sub(C, i))


def val(C, i):
    return fixed(C, i) + LIN(sub(C, i))


def dcon_inv(C, S):
    n = C.f['size_']
    sz, co, v = lambda i: z3.Select(sub(C, i).n, ) if False else sub(C, i).n, lambda i, k: z3.Select(sub(C, i).el.f['first'], k), lambda i, k: z3.Select(sub(C, i).el.f['second'], k)
    ie = z3.And(0 <= e1, e1 < n)
    return [('size', z3.And(n >= 0, n < 2**31)), ('element sizes', z3.ForAll([e1], z3.And(sz(e1) >= 0, sz(e1) < 2**31), patterns=[sz(e1)])),
            ('fixed parts', z3.ForAll([e1], z3.And(fixed(C, e1) >= -2**31, fixed(C, e1) < 2**31), patterns=[fixed(C, e1)])),
            ('elements', z3.ForAll([e1, j_], z3.Implies(z3.And(ie, 0 <= j_, j_ < sz(e1)), z3.And(co(e1, j_) != 0, co(e1, j_) >= MINV, co(e1, j_) <= MAXV, 0 <= v(e1, j_), v(e1, j_) < S.f['var2vs_'].n)), patterns=[co(e1, j_), v(e1, j_)])),
            ('literal', z3.And(C.f['lit_'] != 0, C.f['lit_'] > -2**31, C.f['lit_'] < 2**31, TT(-C.f['lit_']) == z3.Not(TT(C.f['lit_']))))]


OPT = lambda **k: dict({'thisval': this_d, 'args': {0: solver_arg}}, **k)


# ------------------------------------------------------------ propagate_
def assigned_(C, i, n):
    w = sub(C, i)
    v = z3.Select(w.el.f['second'], j_)
    return z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < n), z3.Select(LBA, v) == z3.Select(UBA, v)), patterns=[v])


def p_req(c):
    S, C = c.o(0), con(c)
    s, i, j = c.o(2), c.o(3), c.o(4)
    A = c.oglob(('glob', 'ass'))
    n = C.f['size_']
    return solver_inv(S) + dcon_inv(C, S) + [('direction', z3.Or(s == 1, s == -1)), ('elements exist', z3.And(0 <= i, i < n, 0 <= j, j < n, i != j)), ('assigned', assigned_(C, i, sub(C, i).n)),
                                             ('value meets the bound', lo(C, i) == z3.If(s > 0, up(C, j), lo(C, j)))] + [('f%d' % k, f) for k, f in enumerate(litfacts(A, C.f['lit_']))]


def p_holds(c):
    C = con(c)
    i, j = c.o(3), c.o(4)
    return [('the terms are different', z3.Implies(TT(C.f['lit_']), val(C, i) != val(C, j)))]


def p_facts(L):
    A = L.get(ASS)
    C = L.get(L.this).f['constraint_']
    return [('assignment', z3.And(*true_lit(A))), ('clause literal', z3.And(*litfacts(A, C.f['lit_'])))]


def p_inv(loop):
    def inv(L):
        C = L.get(L.this).f['constraint_']
        R = L.get(LV(('param', 0))).f['temp_reason_']
        s, i, j = L['s'], L['i'], L['j']
        k = L.k
        a = sub(C, i)
        b = sub(C, j)
        if loop == 0:
            m = z3.And(TT(C.f['lit_']), LIN(a, k) == LO(a, k))
            ix = z3.And(0 <= k, k <= a.n)
        else:
            m = z3.And(TT(C.f['lit_']), LIN(a) == LO(a), z3.Implies(s > 0, LIN(b, k) == UP(b, k)), z3.Implies(s <= 0, LIN(b, k) == LO(b, k)))
            ix = z3.And(0 <= k, k <= b.n)
        return p_facts(L) + [('index', ix), ('reason', z3.Or(CL(R), m)), ('empty reason', z3.Implies(R.n == 0, z3.Not(CL(R))))] + ([('fact only for a single term', L['is_fact'] == (b.n == 1))])
    return inv


PM = [(0, 'temp_reason_'), ('glob', ('glob', 'ass'))]
PD = Contract(requires=lambda c: p_req(c) + p_holds(c), modifies=PM)
def w(e, st):
    return [e.load(st, LV(('this',))).f['constraint_'].f['lit_']]


UNITS = list(cb.C05U)
UNITS.append(Unit('C05', TU_, DN + '::propagate_', PD, setup=setup, contracts=std_contracts(), eng=PropExec, ovf={32}, folds=[CL, LIN, LO, UP], name='C05/propagate_', loops={('propagate_', 0): LoopSpec(p_inv(0)), ('propagate_', 1): LoopSpec(p_inv(1))}, opts=OPT(watch=w)))


# ------------------------------------------------------------ conflicts are detected
FF = z3.Function('FF', INT, BOOL)           # false under the current bounds
NF = Fold('nf', lambda el: [el] if isz(el) and el.sort() in (INT, A1) else None, lambda l: z3.Not(FF(l)), 'or', [INT])


class DExec(PropExec):
    def m_Assignment_is_true(self, l, v, args, n, st, fr):
        out = []
        for s, x in self.ev(args[0], st, fr):
            A = self.load(s, ASS)
            s = s.copy()
            for y in litfacts(A, x):
                s.add(y)
            s.add(z3.Not(z3.And(is_true(A, x), FF(x))))
            out.append((s, is_true(A, x)))
        return out


def cd_contracts():
    C = std_contracts()
    g, u, a = (C['Clingcon::' + k] for k in ('Solver::get_literal', 'Solver::update_literal', 'AbstractClauseCreator::add_clause'))
    bd = lambda c: [('false below', z3.Implies(c.o(2) < c.o(1).f['lower_bound_'], FF(c.res))), ('true above', z3.Implies(c.o(2) >= c.o(1).f['upper_bound_'], FF(-c.res))), ('range', z3.And(c.res != 0, c.res > -2**31, c.res < 2**31))]
    C['Clingcon::Solver::get_literal'] = Contract(ensures=bd, modifies=g.modifies, facts=g.facts)
    C['Clingcon::Solver::update_literal'] = Contract(ensures=bd, modifies=u.modifies, facts=u.facts)
    C['Clingcon::AbstractClauseCreator::add_clause'] = Contract(modifies=a.modifies, ret='bool', facts=lambda c: evolves(c) + [z3.Implies(c.res, NF(c.o(0)) if c.o(0).el is not None else z3.BoolVal(False))])
    return C


def cd_req(c):
    C, j = con(c), c.o(4)
    return p_req(c) + [('both assigned', assigned_(C, j, sub(C, j).n)), ('the constraint is active', FF(-C.f['lit_']))]


def cd_inv(loop):
    def inv(L):
        R = L.get(LV(('param', 0))).f['temp_reason_']
        C = L.get(L.this).f['constraint_']
        b = sub(C, L['i'] if loop == 0 else L['j'])
        return [('index', z3.And(0 <= L.k, L.k <= b.n)), ('all literals false', z3.Not(NF(R)))]
    return inv


UNITS.append(Unit('C05', TU_, DN + '::propagate_', Contract(requires=cd_req, ensures=lambda c: [('conflict', z3.Not(c.res))], modifies=PM), setup=setup, contracts=cd_contracts(), eng=DExec, ovf={32}, folds=[NF, LO, UP], name='C05/propagate_ detects equal values',
                  loops={('propagate_', 0): LoopSpec(cd_inv(0)), ('propagate_', 1): LoopSpec(cd_inv(1))}, opts=OPT()))


# ------------------------------------------------------------ bounds of the terms
def D(m, k):
    return z3.Select(m.dom, k)


def asl(T, i):
    return z3.Select(T.f['assigned_'].el.f['first'], i)


def asu(T, i):
    return z3.Select(T.f['assigned_'].el.f['second'], i)


def nn(T):
    return T.f['constraint_'].f['size_']


def sizes(T):
    n = nn(T)
    return ('sizes', z3.And(*[T.f[x].n == n for x in ('assigned_', 'in_dirty_', 'in_todo_lower_', 'in_todo_upper_')] + [T.f['dirty_'].n >= 0, T.f['todo_lower_'].n >= 0, T.f['todo_upper_'].n >= 0]))


def link(T, skip=None):
    """the ordered sets hold the bounds of all terms"""
    out = []
    for nm, a in (('lower_', asl), ('upper_', asu)):
        m = T.f[nm]
        out.append((nm + ' holds every bound', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < nn(T)), D(m, PKEY(a(T, e1), e1))), patterns=[a(T, e1)])))
        out.append((nm + ' holds nothing else', z3.ForAll([e1], z3.Implies(D(m, e1), z3.And(0 <= PSND(e1), PSND(e1) < nn(T), a(T, PSND(e1)) == PFST(e1), e1 == PKEY(PFST(e1), PSND(e1)), e1 == PFST(e1) * 2**32 + PSND(e1))), patterns=[D(m, e1)])))
    return out


def exactb(T, C, clean=None):
    g = z3.And(0 <= e1, e1 < nn(T))
    if clean is not None:
        g = z3.And(g, clean(e1))
    return [('bounds are exact', z3.ForAll([e1], z3.Implies(g, z3.And(asl(T, e1) == lo(C, e1), asu(T, e1) == up(C, e1))), patterns=[asl(T, e1), asu(T, e1)]))]


PD_, PL_, PU_ = [z3.Const(x, A1) for x in ('posd', 'posl', 'posu')]


def listed(T, lst, flag, pos, frm=0):
    """the flagged elements are exactly the listed ones, each once"""
    L, F = T.f[lst], T.f[flag]
    n = nn(T)
    at = lambda q: z3.Select(L.el, q)
    return [(lst + ' lists elements', fa([e1], z3.Implies(z3.And(frm <= e1, e1 < L.n), z3.And(0 <= at(e1), at(e1) < n, z3.Select(F.el, at(e1)), z3.Select(pos, at(e1)) == e1)), at(e1))),
            (lst + ' lists every flagged element', fa([e1], z3.Implies(z3.And(0 <= e1, e1 < n, z3.Select(F.el, e1)), z3.And(frm <= z3.Select(pos, e1), z3.Select(pos, e1) < L.n, at(z3.Select(pos, e1)) == e1)), z3.Select(F.el, e1)))]


def eq_except(A, B, i):
    return z3.ForAll([e1], z3.Implies(e1 != i, z3.Select(A, e1) == z3.Select(B, e1)), patterns=[z3.Select(A, e1)])


def in_req(c):
    S, T, C, i = c.o(0), c.old, con(c), c.o(1)
    return solver_inv(S) + dcon_inv(C, S) + [sizes(T), ('element exists', z3.And(0 <= i, i < nn(T)))]


def in_ens(c):
    C, i, T, T2 = con(c), c.o(1), c.old, c.this
    a, b = T.f['assigned_'].el.f, T2.f['assigned_'].el.f
    return [('result', z3.And(c.res.f['first'] == lo(C, i), c.res.f['second'] == up(C, i))), ('stored', z3.And(b['first'] == z3.Store(a['first'], i, lo(C, i)), b['second'] == z3.Store(a['second'], i, up(C, i)))), ('size', T2.f['assigned_'].n == T.f['assigned_'].n)]


def in_inv(L):
    C = L.get(L.this).f['constraint_']
    i = L['idx']
    w, k = sub(C, i), L.k
    return [('index', z3.And(0 <= k, k <= w.n)), ('lower', L['lower'] == fixed(C, i) + LO(w, k)), ('upper', L['upper'] == fixed(C, i) + UP(w, k))]


IN = Contract(requires=in_req, ensures=in_ens, modifies=[('this', 'assigned_')], ret='std::pair<long, long>')
KD = dict(setup=setup, eng=PropExec, ovf={32}, assume=lambda c: pair_axioms())
UNITS.append(Unit('C05', TU_, DN + '::init_', IN, contracts=std_contracts(), folds=[LO, UP], name='C05/init_', loops={('init_', 0): LoopSpec(in_inv)}, opts=OPT(), **KD))


# ------------------------------------------------------------ update_
def dirty_ok(T, C, pos=PD_, frm=0):
    return listed(T, 'dirty_', 'in_dirty_', pos, frm) + exactb(T, C, lambda e: z3.Not(z3.Select(T.f['in_dirty_'].el, e)))


def up_req(c):
    S, T, C = c.o(0), c.old, con(c)
    return solver_inv(S) + dcon_inv(C, S) + [sizes(T)] + link(T) + dirty_ok(T, C)


def up_ens(c):
    T = c.this
    return [sizes(T)] + link(T) + exactb(T, con(c)) + [('nothing dirty', z3.And(T.f['dirty_'].n == 0, z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < nn(T)), z3.Not(z3.Select(T.f['in_dirty_'].el, e1))), patterns=[z3.Select(T.f['in_dirty_'].el, e1)])))]


def up_inv(L):
    T = L.get(L.this)
    T0 = L.old(L.this)
    C = T.f['constraint_']
    return [('index', z3.And(0 <= L.k, L.k <= T.f['dirty_'].n)), sizes(T), ('list kept', z3.And(T.f['dirty_'].n == T0.f['dirty_'].n, T.f['dirty_'].el == T0.f['dirty_'].el))] + link(T) + dirty_ok(T, C, frm=L.k)


UPC = Contract(requires=up_req, ensures=up_ens, modifies=[('this', x) for x in ('assigned_', 'lower_', 'upper_', 'in_dirty_', 'dirty_')])
C = std_contracts()
C['Clingcon::' + DN + '::init_'] = IN
UNITS.append(Unit('C05', TU_, DN + '::update_', UPC, contracts=C, folds=[], name='C05/update_', loops={('update_', 0): LoopSpec(up_inv)}, opts=OPT(), **KD))


# ------------------------------------------------------------ the check of total assignments
VALF = Fold('val', pairp, lambda co, v: co * z3.Select(LBA, v), 'sum', [INT, INT])
DIFF = z3.Bool('terms_differ')                # the values of all terms are different


def value(C, e):
    return fixed(C, e) + VALF(sub(C, e))


def differ(C, a, b):
    return z3.ForAll([e1, e2], z3.Implies(z3.And(0 <= e1, e1 < a, 0 <= e2, e2 < b, e1 != e2), value(C, e1) != value(C, e2)), patterns=[z3.MultiPattern(fixed(C, e1), fixed(C, e2))])


def all_assigned(C, n):
    v = z3.Select(sub(C, e1).el.f['second'], j_)
    return z3.ForAll([e1, j_], z3.Implies(z3.And(0 <= e1, e1 < n, 0 <= j_, j_ < sub(C, e1).n), z3.Select(LBA, v) == z3.Select(UBA, v)), patterns=[v])


def cfd_assume(c):
    C = con(c)
    return [z3.Implies(DIFF, differ(C, C.f['size_'], C.f['size_']))]


def cfd_out(L):
    C = L.get(L.this).f['constraint_']
    k, V = L.k, L['values']
    return [('index', z3.And(0 <= k, k <= C.f['size_'])), ('assigned', all_assigned(C, k)),
            ('values', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < k), z3.Select(V.dom, value(C, e1))), patterns=[fixed(C, e1)])), ('different', differ(C, k, k)),
            ('no other values', z3.Implies(DIFF, z3.ForAll([e1], z3.Implies(z3.And(k <= e1, e1 < C.f['size_']), z3.Not(z3.Select(V.dom, value(C, e1)))), patterns=[fixed(C, e1)])))]


def cfd_in(L):
    C = L.get(L.this).f['constraint_']
    o = L.outer_k()
    el = sub(C, o)
    return [('index', z3.And(0 <= L.k, L.k <= el.n)), ('assigned', assigned_(C, o, L.k)), ('value', L['value'] == fixed(C, o) + VALF(el, L.k))]


CFD = Contract(requires=lambda c: solver_inv(c.o(0)) + dcon_inv(con(c), c.o(0)),
               ensures=lambda c: [('all terms have values', all_assigned(con(c), con(c).f['size_'])), ('all values are different', differ(con(c), con(c).f['size_'], con(c).f['size_']))],
               throws=lambda c: z3.Or(z3.Not(DIFF), z3.Not(all_assigned(con(c), con(c).f['size_']))))
UNITS.append(Unit('C05', TU_, DN + '::check_full', CFD, setup=setup, contracts=std_contracts(), eng=PropExec, ovf={32}, folds=[VALF], name='C05/check_full', opts=OPT(), assume=cfd_assume,
                  loops={('check_full', 0): LoopSpec(cfd_out), ('check_full', 1): LoopSpec(cfd_in)}))


# ------------------------------------------------------------ propagation finds all terms with equal values
ACTIVE = lambda C: FF(-C.f['lit_'])           # the constraint literal is true
GAP0 = lambda C: z3.ForAll([e1, j_], z3.Implies(z3.And(0 <= e1, e1 < C.f['size_'], lo(C, e1) == up(C, e1), 0 <= j_, j_ < sub(C, e1).n), z3.Select(LBA, z3.Select(sub(C, e1).el.f['second'], j_)) == z3.Select(UBA, z3.Select(sub(C, e1).el.f['second'], j_))),
                                patterns=[z3.Select(sub(C, e1).el.f['second'], j_)])


def lemma_gap():
    """a term whose bounds agree has only assigned variables"""
    C = con_shape_d()
    n, k, m = z3.Ints('n!g k!g m!g')
    el = sub(C, m)
    co = lambda p: z3.Select(el.el.f['first'], p)
    l = lambda p: z3.Select(LBA, z3.Select(el.el.f['second'], p))
    u = lambda p: z3.Select(UBA, z3.Select(el.el.f['second'], p))
    hyp = [z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < el.n), z3.And(co(j_) != 0, l(j_) <= u(j_))), patterns=[co(j_)]), el.n >= 0]
    st = []
    for f in (LO, UP):
        st += [f.app(el.el, I(0)) == 0, f.app(el.el, k + 1) == f.app(el.el, k) + f.st(select(el.el, k))]
    w = UP.app(el.el, k) - LO.app(el.el, k)
    claim = lambda q: z3.And(UP.app(el.el, q) >= LO.app(el.el, q), z3.Implies(UP.app(el.el, q) == LO.app(el.el, q), z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < q), l(j_) == u(j_)), patterns=[co(j_)])))
    sg = [z3.Implies(z3.And(co(k) > 0, l(k) < u(k)), co(k) * l(k) < co(k) * u(k)), z3.Implies(z3.And(co(k) < 0, l(k) < u(k)), co(k) * l(k) > co(k) * u(k)), z3.Implies(l(k) == u(k), co(k) * l(k) == co(k) * u(k))]
    a, b, c = z3.Ints('a!g b!g c!g')
    return [('base', hyp + st, claim(I(0))), ('step', hyp + st + sg + [0 <= k, k < el.n, claim(k)], claim(k + 1)),
            ('order', [c > 0, a < b], c * a < c * b), ('reversed order', [c < 0, a < b], c * a > c * b)]


UNITS.append(Lemma('C05', 'C05/lemma: a term whose bounds agree has only assigned variables', lemma_gap))


def alldiff(C):
    return z3.Implies(TT(C.f['lit_']), z3.ForAll([e1, e2], z3.Implies(z3.And(0 <= e1, e1 < C.f['size_'], 0 <= e2, e2 < C.f['size_'], e1 != e2), val(C, e1) != val(C, e2)), patterns=[z3.MultiPattern(fixed(C, e1), fixed(C, e2))]))


def same_value(T, a, b):
    """terms a and b are assigned the same value"""
    return z3.And(asl(T, a) == asu(T, a), asl(T, b) == asu(T, b), asl(T, a) == asl(T, b))


def litok(A, C):
    return [('clause literal', z3.And(*litfacts(A, C.f['lit_'])))]


PDX = Contract(requires=lambda c: p_req(c) + p_holds(c), modifies=PM, ret='bool', facts=evolves,
               ensures=lambda c: [('conflict', z3.Implies(z3.And(ACTIVE(con(c)), assigned_(con(c), c.o(4), sub(con(c), c.o(4)).n)), z3.Not(c.res)))])


def pa_req(c):
    S, T, C, v, i = c.o(0), c.old, con(c), c.o(2), c.o(3)
    return solver_inv(S) + dcon_inv(C, S) + litok(c.oglob(('glob', 'ass')), C) + [sizes(T), ('the terms are different', alldiff(C)), ('term exists', z3.And(0 <= i, i < nn(T))), ('assigned', z3.And(asl(T, i) == v, asu(T, i) == v))] + link(T) + exactb(T, C)


def pa_ens(c):
    T, i = c.this, c.o(3)
    return [('no other term has the value', z3.Implies(z3.And(c.res, ACTIVE(con(c))), z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < nn(T), e1 != i), z3.Not(same_value(T, i, e1))), patterns=[asl(T, e1)])))]


def pa_inv(nm):
    a = asu if nm == 'upper_' else asl

    def inv(L):
        T, C = L.get(L.this), L.get(L.this).f['constraint_']
        m = T.f[nm]
        i, v = L.p(3), L.p(2)
        it, ie = L['it'], L['ie']
        nx = PKEY(v + 1, 0)
        seen = z3.And(a(T, e1) == v, z3.Or(it.end, PKEY(v, e1) < it.k))
        return p_facts(L) + [('key', z3.And(nx == (v + 1) * 2**32, PKEY(v, 0) == v * 2**32)),
                             ('position', z3.And(z3.Implies(it.end, ie.end), z3.Implies(z3.Not(it.end), z3.And(D(m, it.k), it.k >= PKEY(v, 0))), z3.Implies(z3.And(z3.Not(ie.end), z3.Not(it.end)), it.k <= ie.k))),
                             ('end', z3.And(z3.Implies(z3.Not(ie.end), z3.And(D(m, ie.k), ie.k >= nx)), z3.ForAll([e1], z3.Implies(z3.And(D(m, e1), z3.Or(ie.end, e1 < ie.k)), e1 < nx), patterns=[D(m, e1)]))),
                             ('seen', z3.Implies(ACTIVE(C), z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < nn(T), e1 != i, seen), z3.Not(same_value(T, i, e1))), patterns=[a(T, e1)])))]
    return inv


PA = Contract(requires=pa_req, ensures=pa_ens, modifies=PM, ret='bool', facts=evolves)
CP = std_contracts()
CP['Clingcon::' + DN + '::propagate_'] = PDX
gap_assume = lambda c: pair_axioms() + [GAP0(con(c))]
UNITS.append(Unit('C05', TU_, DN + '::propagate_assigned_', PA, setup=setup, contracts=CP, eng=PropExec, ovf={32}, folds=[LIN, LO, UP], name='C05/propagate_assigned_', opts=OPT(watch=w), assume=gap_assume,
                  loops={('propagate_assigned_', 0): LoopSpec(pa_inv('upper_')), ('propagate_assigned_', 1): LoopSpec(pa_inv('lower_'))}))


def flagged(T, e):
    return z3.Or(z3.Select(T.f['in_todo_lower_'].el, e), z3.Select(T.f['in_todo_upper_'].el, e))


def todo_ok(T, pl=PL_, pu=PU_):
    return listed(T, 'todo_lower_', 'in_todo_lower_', pl) + listed(T, 'todo_upper_', 'in_todo_upper_', pu)


def pending(T, C):
    """of two terms with the same value one is still to be looked at"""
    return z3.ForAll([e1, e2], z3.Implies(z3.And(0 <= e1, e1 < nn(T), 0 <= e2, e2 < nn(T), e1 != e2, lo(C, e1) == up(C, e1), lo(C, e2) == up(C, e2), lo(C, e1) == lo(C, e2)), z3.Or(flagged(T, e1), flagged(T, e2))),
                     patterns=[z3.MultiPattern(fixed(C, e1), fixed(C, e2))])


def pr_req(c):
    S, T, C = c.o(0), c.old, con(c)
    return up_req(c) + litok(c.oglob(('glob', 'ass')), C) + todo_ok(T) + [('the terms are different', alldiff(C)), ('equal terms are pending', pending(T, C))]


def nodup(T, n=None):
    return z3.ForAll([e1, e2], z3.Implies(z3.And(0 <= e1, e1 < nn(T), 0 <= e2, e2 < nn(T), e1 != e2), z3.Not(same_value(T, e1, e2))), patterns=[z3.MultiPattern(asl(T, e1), asl(T, e2))])


def pr_ens(c):
    T, C = c.this, con(c)
    no = lambda F: z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < nn(T)), z3.Not(z3.Select(T.f[F].el, e1))), patterns=[z3.Select(T.f[F].el, e1)])
    return [('equal values are detected', z3.Implies(z3.And(c.res, ACTIVE(C)), nodup(T))), ('nothing is left to do', z3.Implies(c.res, z3.And(T.f['todo_lower_'].n == 0, T.f['todo_upper_'].n == 0, no('in_todo_lower_'), no('in_todo_upper_'))))] + exactb(T, C)


def pr_loop(nm, prev):
    def inv(L):
        T, C = L.get(L.this), L.get(L.this).f['constraint_']

        def done(lst, k):
            x = z3.Select(T.f[lst].el, e1)
            return z3.Implies(ACTIVE(C), z3.ForAll([e1, e2], z3.Implies(z3.And(0 <= e1, e1 < k, 0 <= e2, e2 < nn(T), e2 != x), z3.Not(same_value(T, x, e2))), patterns=[z3.MultiPattern(x, asl(T, e2))]))
        out = p_facts(L) + [('index', z3.And(0 <= L.k, L.k <= T.f[nm].n)), ('looked at ' + nm, done(nm, L.k))]
        return out + ([('looked at ' + prev, done(prev, T.f[prev].n))] if prev else [])
    return inv


def pr_inner(nm, bound):
    def inv(L):
        T = L.get(L.this)
        m, v = T.f[nm], L[bound]
        it, ie = L['it'], L['ie']
        nx = PKEY(v + 1, 0)
        return p_facts(L) + [('key', z3.And(nx == (v + 1) * 2**32, PKEY(v, 0) == v * 2**32)),
                             ('position', z3.And(z3.Implies(it.end, ie.end), z3.Implies(z3.Not(it.end), z3.And(D(m, it.k), it.k >= PKEY(v, 0))), z3.Implies(z3.And(z3.Not(ie.end), z3.Not(it.end)), it.k <= ie.k))),
                             ('end', z3.And(z3.Implies(z3.Not(ie.end), z3.And(D(m, ie.k), ie.k >= nx)), z3.ForAll([e1], z3.Implies(z3.And(D(m, e1), z3.Or(ie.end, e1 < ie.k)), e1 < nx), patterns=[D(m, e1)])))]
    return inv


def cl_loop(lst, flag, pos):
    def inv(L):
        T, T0, k = L.get(L.this), L.old(L.this), L.k
        f, f0 = z3.Select(T.f[flag].el, e1), z3.Select(T0.f[flag].el, e1)
        return [('index', z3.And(0 <= k, k <= T.f[lst].n)), ('size', T.f[flag].n == nn(T)), ('flags', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < nn(T), f), z3.And(f0, z3.Select(pos, e1) >= k)), patterns=[f]))]
    return inv


CQ = std_contracts()
CQ['Clingcon::' + DN + '::propagate_'] = PDX
CQ['Clingcon::' + DN + '::propagate_assigned_'] = PA
CQ['Clingcon::' + DN + '::update_'] = UPC
TM = ['assigned_', 'lower_', 'upper_', 'in_dirty_', 'dirty_', 'todo_lower_', 'todo_upper_', 'in_todo_lower_', 'in_todo_upper_']
CLL = {('clear_todo_', 0): LoopSpec(cl_loop('todo_lower_', 'in_todo_lower_', PL_)), ('clear_todo_', 1): LoopSpec(cl_loop('todo_upper_', 'in_todo_upper_', PU_))}
UNITS.append(Unit('C05', TU_, DN + '::propagate', Contract(requires=pr_req, ensures=pr_ens, modifies=PM + [('this', x) for x in TM]), setup=setup, contracts=CQ, eng=PropExec, ovf={32}, folds=[LIN, LO, UP], name='C05/propagate', opts=OPT(watch=w), assume=gap_assume,
                  loops={**CLL, ('propagate', 0): LoopSpec(pr_loop('todo_lower_', None)), ('propagate', 1): LoopSpec(pr_inner('lower_', 'lower')), ('propagate', 2): LoopSpec(pr_loop('todo_upper_', 'todo_lower_')), ('propagate', 3): LoopSpec(pr_inner('upper_', 'upper'))}))


# changes of bounds are noted
def note_req(c):
    T, i = c.old, c.o(0)
    x = z3.If(i < 0, -i, i) - 1
    return [sizes(T), ('size', z3.And(nn(T) >= 0, nn(T) < 2**31)), ('element exists', z3.And(i != 0, 0 <= x, x < nn(T)))] + listed(T, 'dirty_', 'in_dirty_', PD_) + todo_ok(T)


def noted(T, T2, lst, flag, pos, x):
    """x was added to the list unless it was on it"""
    was = z3.Select(T.f[flag].el, x)
    return [(flag, T2.f[flag].el == z3.Store(T.f[flag].el, x, z3.BoolVal(True)))] + listed(T2, lst, flag, z3.If(was, pos, z3.Store(pos, x, T.f[lst].n)))


def note_ens(c):
    T, T2, i = c.old, c.this, c.o(0)
    x = z3.If(i < 0, -i, i) - 1
    lw = [('kept lower', z3.And(T2.f['in_todo_lower_'].el == T.f['in_todo_lower_'].el, T2.f['todo_lower_'].n == T.f['todo_lower_'].n))]
    a, b = noted(T, T2, 'todo_lower_', 'in_todo_lower_', PL_, x), noted(T, T2, 'todo_upper_', 'in_todo_upper_', PU_, x)
    out = [sizes(T2), ('propagate', c.res)] + noted(T, T2, 'dirty_', 'in_dirty_', PD_, x)
    return out + [(n, z3.Implies(i > 0, f)) for n, f in a] + [(n, z3.Implies(i < 0, f)) for n, f in b] + [
        ('other list kept', z3.And(*[z3.And(T2.f[k].n == T.f[k].n, z3.Implies(g, T2.f[k].el == T.f[k].el)) if k.startswith('in') else z3.Implies(g, z3.And(T2.f[k].n == T.f[k].n, T2.f[k].el == T.f[k].el))
                                     for g, k in ((i > 0, 'todo_upper_'), (i > 0, 'in_todo_upper_'), (i < 0, 'todo_lower_'), (i < 0, 'in_todo_lower_'))]))]


NM = [('this', x) for x in ('dirty_', 'in_dirty_', 'todo_lower_', 'todo_upper_', 'in_todo_lower_', 'in_todo_upper_')]
TO = {'thisval': this_d}
UNITS.append(Unit('C05', TU_, DN + '::update', Contract(requires=note_req, ensures=note_ens, modifies=NM), eng=PropExec, ovf={32}, folds=[], name='C05/update', opts=TO, nparams=2))


def und_ens(c):
    T, T2, i = c.old, c.this, c.o(0)
    x = z3.If(i < 0, -i, i) - 1
    no = lambda F: fa([e1], z3.Implies(z3.And(0 <= e1, e1 < nn(T)), z3.Not(z3.Select(T2.f[F].el, e1))), z3.Select(T2.f[F].el, e1))
    return [sizes(T2)] + noted(T, T2, 'dirty_', 'in_dirty_', PD_, x) + [('nothing to do', z3.And(T2.f['todo_lower_'].n == 0, T2.f['todo_upper_'].n == 0, no('in_todo_lower_'), no('in_todo_upper_')))]


UNITS.append(Unit('C05', TU_, DN + '::undo', Contract(requires=note_req, ensures=und_ens, modifies=NM), eng=PropExec, ovf={32}, folds=[], name='C05/undo', opts=TO, nparams=2, loops=CLL))


# ------------------------------------------------------------ attaching to a solver
WCH = ('glob', 'watching')                    # variable -> numbers it is watched with


def at_setup(e, st, fd):
    setup(e, st, fd)
    st.store[WCH] = fresh('wch', z3.ArraySort(INT, z3.ArraySort(INT, BOOL)))


def wnum(co, e):
    return z3.If(co > 0, e + 1, -e - 1)


def watched(C, W, n, upto=None, row=None):
    """all variables of the terms are watched, with number and sign of their terms"""
    co, v = z3.Select(sub(C, e1).el.f['first'], j_), z3.Select(sub(C, e1).el.f['second'], j_)
    g = z3.And(0 <= e1, e1 < n, 0 <= j_, j_ < sub(C, e1).n)
    if row is not None:
        g = z3.And(0 <= e1, 0 <= j_, z3.Or(z3.And(e1 < n, j_ < sub(C, e1).n), z3.And(e1 == n, j_ < row)))
    return z3.ForAll([e1, j_], z3.Implies(g, z3.Select(z3.Select(W, v), wnum(co, e1))), patterns=[v])


def at_req(c):
    S, T, C = c.o(0), c.old, con(c)
    no = lambda F: z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < nn(T)), z3.Not(z3.Select(T.f[F].el, e1))), patterns=[z3.Select(T.f[F].el, e1)])
    return solver_inv(S) + dcon_inv(C, S) + [sizes(T), ('fresh', z3.And(T.f['dirty_'].n == 0, T.f['todo_lower_'].n == 0, T.f['todo_upper_'].n == 0, no('in_dirty_'), no('in_todo_lower_'), no('in_todo_upper_'))),
                                             ('no bounds yet', z3.And(*[z3.ForAll([e1], z3.Not(D(T.f[m], e1)), patterns=[D(T.f[m], e1)]) for m in ('lower_', 'upper_')]))]


def at_ens(c):
    T, C = c.this, con(c)
    return [sizes(T)] + link(T) + exactb(T, C) + [('terms with equal values are pending', pending(T, C)), ('variables are watched', watched(C, c.glob(WCH), nn(T)))]


def at_inv(L):
    T, k = L.get(L.this), L.k
    C = T.f['constraint_']
    out = [('index', z3.And(0 <= k, k <= nn(T), L['idx'] == k)), sizes(T)]
    for nm, a in (('lower_', asl), ('upper_', asu)):
        m = T.f[nm]
        out.append((nm + ' holds every bound', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < k), D(m, PKEY(a(T, e1), e1))), patterns=[a(T, e1)])))
        out.append((nm + ' holds nothing else', z3.ForAll([e1], z3.Implies(D(m, e1), z3.And(0 <= PSND(e1), PSND(e1) < k, a(T, PSND(e1)) == PFST(e1), e1 == PKEY(PFST(e1), PSND(e1)), e1 == PFST(e1) * 2**32 + PSND(e1))), patterns=[D(m, e1)])))
    out.append(('bounds are exact', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < k), z3.And(asl(T, e1) == lo(C, e1), asu(T, e1) == up(C, e1))), patterns=[asl(T, e1), asu(T, e1)])))
    out.append(('fixed terms are listed', z3.ForAll([e1], z3.Implies(z3.And(0 <= e1, e1 < k, lo(C, e1) == up(C, e1)), flagged(T, e1)), patterns=[fixed(C, e1)])))
    return out + [('watched', watched(C, L.st.store[WCH], k))]


def at_inner(L):
    T, k, o = L.get(L.this), L.k, L.outer_k()
    C = T.f['constraint_']
    return [('index', z3.And(0 <= k, k <= sub(C, o).n)), ('watched', watched(C, L.st.store[WCH], o, row=k))]


CA = std_contracts()
CA['Clingcon::' + DN + '::init_'] = IN
CA['Clingcon::Solver::add_var_watch'] = Contract(requires=lambda c: [('variable exists', bound_range(c.old, c.o(0)))], effect=lambda c, s: s.store.__setitem__(WCH, z3.Store(s.store[WCH], c.o(0), z3.Store(z3.Select(s.store[WCH], c.o(0)), c.o(1), z3.BoolVal(True)))))
UNITS.append(Unit('C05', TU_, DN + '::attach', Contract(requires=at_req, ensures=at_ens, modifies=[('this', x) for x in ('assigned_', 'lower_', 'upper_', 'todo_lower_', 'in_todo_lower_')] + [('glob', WCH)]), contracts=CA, folds=[LO, UP], name='C05/attach',
                  loops={('attach', 0): LoopSpec(at_inv), ('attach', 1): LoopSpec(at_inner)}, opts=OPT(), **dict(KD, setup=at_setup)))
