"""C12: simplifying a linear expression keeps its value."""
import z3
from sem import *
from c11 import NLIN, nterm, prod, NFold

TU_ = 'src/parsing.cc'
INVALID = 2**32 - 1
ABSB = lambda co: z3.If(co > 0, co, -co) * MAXV
EXT = Fold('ext', pairp, lambda co, v: ABSB(co), 'sum', [INT, INT])
q_, r_ = z3.Ints('q!s r!s')


def req(c):
    v = c.o(0)
    return [('size', v.n >= 0), ('a missing variable counts as 1', SG(I(INVALID)) == 1)]


def co(v, k):
    return z3.Select(v.el.f['first'], k)


def va(v, k):
    return z3.Select(v.el.f['second'], k)


def noconst(v):
    return z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), va(v, q_) != INVALID), patterns=[va(v, q_)])


def ens(c):
    v0, v, r = c.o(0), c.a(0), c.res
    return [('value kept', LIN(v) - r == LIN(v0)),
            ('valid variables', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), va(v, q_) != INVALID), patterns=[va(v, q_)])),
            ('different variables', z3.ForAll([q_, r_], z3.Implies(z3.And(0 <= q_, q_ < r_, r_ < v.n), va(v, q_) != va(v, r_)), patterns=[z3.MultiPattern(va(v, q_), va(v, r_))])),
            ('no zero coefficient', z3.Implies(c.o(1), z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), co(v, q_) != 0), patterns=[co(v, q_)]))),
            ('coefficients in range', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), z3.And(co(v, q_) >= MINV, co(v, q_) <= MAXV)), patterns=[co(v, q_)])),
            ('bound in range', z3.And(r >= MINV, r <= MAXV)), ('bound zero without constants', z3.Implies(noconst(v0), r == 0)),
            ('sums fit 64 bits', z3.And(r - EXT(v) >= -2**63, r + EXT(v) < 2**63)), ('length', z3.And(v.n >= 0, v.n <= v0.n))]


def inv0(L):
    v0, v = L.old(LV(('param', 0))), L.get(LV(('param', 0)))
    i, j, rhs, seen = L['it'].i, L['jt'].i, L['rhs'], L['seen']
    D = lambda x: z3.Select(seen.dom, x)
    ix = lambda x: z3.Select(seen.val.i, x)
    return [('positions', z3.And(0 <= j, j <= i, i <= v.n, L['ie'].i == v.n, v.n == v0.n)),
            ('value', LIN(v, j) - rhs == LIN(v0, i)), ('no constants', z3.Implies(noconst(v0), rhs == 0)),
            ('rest untouched', z3.ForAll([q_], z3.Implies(z3.And(i <= q_, q_ < v.n), z3.And(co(v, q_) == co(v0, q_), va(v, q_) == va(v0, q_))), patterns=[co(v, q_), va(v, q_)])),
            ('element range', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), z3.And(co(v, q_) >= -2**31, co(v, q_) < 2**31, va(v, q_) >= 0, va(v, q_) < 2**32)), patterns=[co(v, q_), va(v, q_)])),
            ('seen points to its variable', z3.ForAll([q_], z3.Implies(D(q_), z3.And(0 <= ix(q_), ix(q_) < j, va(v, ix(q_)) == q_)), patterns=[D(q_)])),
            ('prefix is seen', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < j), z3.And(D(va(v, q_)), ix(va(v, q_)) == q_, va(v, q_) != INVALID)), patterns=[va(v, q_)]))]


def facts0(L):
    v0 = L.old(LV(('param', 0)))
    i = L['it'].i
    return [LIN(v0, i + 1) == LIN(v0, i) + LIN.st(select(v0.el, i)), LIN.app(v0.el, I(0)) == 0]


def inv1(L):
    v, k = L.vec, L.k
    return [('index', z3.And(0 <= k, k <= v.n)), ('min', L['min'] == L['rhs'] - EXT(v, k)), ('max', L['max'] == L['rhs'] + EXT(v, k)),
            ('range', z3.And(L['min'] >= -2**63, L['max'] < 2**63)),
            ('coefficients in range', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < k), z3.And(co(v, q_) >= MINV, co(v, q_) <= MAXV)), patterns=[co(v, q_)]))]


SIMP = Contract(requires=req, ensures=ens, modifies=[(0,)], throws=lambda c: None)
UNITS = [Unit('C12', TU_, 'simplify', SIMP, sig='CoVarVec &', nparams=2, ovf={32, 64}, folds=[LIN, EXT], eng=PropExec, name='C12/simplify',
              loops={('simplify', 0): LoopSpec(inv0, facts=facts0), ('simplify', 1): LoopSpec(inv1)}, opts={'foldall': True, 'itercontainer': LV(('param', 0))})]

# ------------------------------------------------------------ sums of products
from execu import VKEY
PK = z3.Function('PK', INT, INT)
a_, n_ = z3.Const('a!s', z3.ArraySort(INT, INT)), z3.Int('n!s')
AX = z3.ForAll([a_, n_], prod(n_, a_) == PK(VKEY(a_, n_)), patterns=[VKEY(a_, n_)])
NEXT = NFold('next', lambda co, n, a: z3.If(n == 1, ABSB(co), 0))


def nreq(c):
    v = c.o(0)
    return [('size', v.n >= 0), ('equal keys, equal products', AX),
            ('variable lists', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), z3.Select(v.el.f['second'].n, q_) >= 0), patterns=[z3.Select(v.el.f['second'].n, q_)]))]


def nv(v, k):
    return z3.Select(v.el.f['second'].n, k), z3.Select(v.el.f['second'].el, k)


def key(v, k):
    n, a = nv(v, k)
    return VKEY(a, n)


def nens(c):
    v0, v, r = c.o(0), c.a(0), c.res
    return [('value kept', NLIN(v) - r == NLIN(v0)),
            ('proper terms', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), nv(v, q_)[0] >= 1), patterns=[nv(v, q_)[0]])),
            ('different products', z3.ForAll([q_, r_], z3.Implies(z3.And(0 <= q_, q_ < r_, r_ < v.n), key(v, q_) != key(v, r_)), patterns=[z3.MultiPattern(key(v, q_), key(v, r_))])),
            ('no zero coefficient', z3.Implies(c.o(1), z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), co(v, q_) != 0), patterns=[co(v, q_)]))),
            ('coefficients in range', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), z3.And(co(v, q_) >= MINV, co(v, q_) <= MAXV)), patterns=[co(v, q_)])),
            ('bound in range', z3.And(r >= MINV, r <= MAXV)), ('length', z3.And(v.n >= 0, v.n <= v0.n))]


def ninv0(L):
    v0, v = L.old(LV(('param', 0))), L.get(LV(('param', 0)))
    i, j, rhs, seen = L['it'].i, L['jt'].i, L['rhs'], L['seen']
    D = lambda x: z3.Select(seen.dom, x)
    ix = lambda x: z3.Select(seen.val.i, x)
    return [('positions', z3.And(0 <= j, j <= i, i <= v.n, L['ie'].i == v.n, v.n == v0.n)),
            ('value', NLIN(v, j) - rhs == NLIN(v0, i)),
            ('rest untouched', z3.ForAll([q_], z3.Implies(z3.And(i <= q_, q_ < v.n), z3.And(co(v, q_) == co(v0, q_), nv(v, q_)[0] == nv(v0, q_)[0], nv(v, q_)[1] == nv(v0, q_)[1])), patterns=[co(v, q_), nv(v, q_)[0], nv(v, q_)[1]])),
            ('element range', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), z3.And(co(v, q_) >= -2**31, co(v, q_) < 2**31, nv(v, q_)[0] >= 0)), patterns=[co(v, q_), nv(v, q_)[0]])),
            ('seen points to its term', z3.ForAll([q_], z3.Implies(D(q_), z3.And(0 <= ix(q_), ix(q_) < j, key(v, ix(q_)) == q_)), patterns=[D(q_)])),
            ('prefix is seen', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < j), z3.And(D(key(v, q_)), ix(key(v, q_)) == q_, nv(v, q_)[0] >= 1)), patterns=[co(v, q_), nv(v, q_)[0]]))]


def nfacts0(L):
    v0 = L.old(LV(('param', 0)))
    i = L['it'].i
    return [NLIN(v0, i + 1) == NLIN(v0, i) + NLIN.st(select(v0.el, i)), NLIN.app(v0.el, I(0)) == 0]


def ninv1(L):
    v, k = L.vec, L.k
    return [('index', z3.And(0 <= k, k <= v.n)), ('min', L['min'] == L['rhs'] - NEXT(v, k)), ('max', L['max'] == L['rhs'] + NEXT(v, k)),
            ('range', z3.And(L['min'] >= -2**127, L['max'] < 2**127)),
            ('coefficients in range', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < k), z3.And(co(v, q_) >= MINV, co(v, q_) <= MAXV)), patterns=[co(v, q_)]))]


def sortfact(v, w):
    return [prod(v.n, v.el) == prod(w.n, w.el)] if isz(v.el) else []


NSIMP = Contract(requires=nreq, ensures=nens, modifies=[(0,)], throws=lambda c: None)
UNITS.append(Unit('C12', TU_, 'simplify', NSIMP, sig='NonlinearTermVec &', nparams=2, ovf={32, 64, 128}, folds=[NLIN, NEXT], eng=PropExec, name='C12/simplify nsum', hooks={'sort': sortfact},
                  loops={('simplify', 0): LoopSpec(ninv0, facts=nfacts0), ('simplify', 1): LoopSpec(ninv1)}, opts={'foldall': True, 'itercontainer': LV(('param', 0))}))
