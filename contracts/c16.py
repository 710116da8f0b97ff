"""C16: interval sets represent exactly the union of the added intervals."""
import z3
from spec import Contract, Unit
from engine import LoopSpec, MapV, MIt, LV, Rec, Opq, NONE

T = '@vc/inst.cc'
SET = 'Clingcon::IntervalSet<int>'
x1, x2, v_ = z3.Ints('x1 x2 v')


def D(m, x):
    return z3.Select(m.dom, x)


def V(m, x):
    return z3.Select(m.val, x)


def rep(m):
    """intervals are non-empty, disjoint and do not touch"""
    return z3.And(z3.ForAll([x1], z3.Implies(D(m, x1), x1 < V(m, x1)), patterns=[D(m, x1)]),
                  z3.ForAll([x1, x2], z3.Implies(z3.And(D(m, x1), D(m, x2), x1 < x2), V(m, x1) < x2), patterns=[z3.MultiPattern(D(m, x1), D(m, x2))]))


def rng(m):
    return z3.ForAll([x1], z3.Implies(D(m, x1), z3.And(x1 >= -2**31, V(m, x1) < 2**31, V(m, x1) >= -2**31, x1 < 2**31)), patterns=[D(m, x1)])


# membership is defined by its introduction and elimination rules
AB, AI = z3.ArraySort(z3.IntSort(), z3.BoolSort()), z3.ArraySort(z3.IntSort(), z3.IntSort())
IN = z3.Function('IN', AB, AI, z3.IntSort(), z3.BoolSort())
WIT = z3.Function('WIT', AB, AI, z3.IntSort(), z3.IntSort())


def has(m, v):
    return IN(m.dom, m.val, v)


def axioms():
    d, a, d2, a2 = z3.Const('qda', AB), z3.Const('qaa', AI), z3.Const('qdb', AB), z3.Const('qab', AI)
    x, v, s = z3.Int('qx'), z3.Int('qv'), z3.Select
    w = WIT(d, a, v)
    return [z3.ForAll([d, a, v, x], z3.Implies(z3.And(s(d, x), x <= v, v < s(a, x)), IN(d, a, v)), patterns=[z3.MultiPattern(s(d, x), IN(d, a, v))]),
            z3.ForAll([d, a, v], z3.Implies(IN(d, a, v), z3.And(s(d, w), w <= v, v < s(a, w))), patterns=[IN(d, a, v)]),
            # instance of the introduction rule at the witness of another set
            z3.ForAll([d, a, v, d2, a2], z3.Implies(z3.And(IN(d, a, v), s(d2, w), w <= v, v < s(a2, w)), IN(d2, a2, v)), patterns=[z3.MultiPattern(IN(d, a, v), IN(d2, a2, v))])]


def mp(c):
    return c.this.f['map_']


def repreq(c):
    return [('rep', rep(c.old.f['map_'])), ('rng', rng(c.old.f['map_']))]


UNITS = []
CONTRACTS = {}


def add(fn, ct, nparams, loops=None, **kw):
    CONTRACTS['%s::%s/%d' % (SET, fn, nparams)] = ct
    UNITS.append(Unit('C16', T, 'IntervalSet<int>::' + fn, ct, nparams=nparams, loops=loops, name='C16/IntervalSet::%s/%d' % (fn, nparams), assume=lambda c: axioms(), **kw))


w_ = z3.Int('w')
add('contains', Contract(requires=repreq, ensures=lambda c: [
    ('member', c.res == has(c.old.f['map_'], c.o(0)))]), 1)
add('contains', Contract(requires=lambda c: repreq(c) + [('nonempty', c.o(0) < c.o(1))], ensures=lambda c: [
    ('every value', z3.Implies(c.res, z3.ForAll([v_], z3.Implies(z3.And(c.o(0) <= v_, v_ < c.o(1)), has(c.old.f['map_'], v_))))),
    ('only if one interval covers', z3.Implies(z3.Not(c.res), z3.Not(z3.Exists([x1], z3.And(D(c.old.f['map_'], x1), x1 <= c.o(0), c.o(1) <= V(c.old.f['map_'], x1))))))]), 2)
add('intersects', Contract(requires=repreq, ensures=lambda c: [
    ('common value', c.res == z3.Exists([v_], z3.And(c.o(0) <= v_, v_ < c.o(1), has(c.old.f['map_'], v_))))]), 2)


def add_ens(c):
    old, new = c.old.f['map_'], c.this.f['map_']
    return [('rep', rep(new)), ('rng', rng(new)),
            ('only union', z3.ForAll([v_], z3.Implies(has(new, v_), z3.Or(has(old, v_), z3.And(c.o(0) <= v_, v_ < c.o(1)))))),
            ('keeps old', z3.ForAll([v_], z3.Implies(has(old, v_), has(new, v_)))),
            ('adds new', z3.ForAll([v_], z3.Implies(z3.And(c.o(0) <= v_, v_ < c.o(1)), has(new, v_))))]


def add_inv(L):
    m0 = L.old(L.this).f['map_']
    m = L.get(L.this).f['map_']
    a, b, it = L.p(0), L.p(1), L.mit()
    b0 = L.p0(1)
    return [('rep', rep(m)), ('rng', rng(m)), ('order', z3.And(a < b, b0 <= b, b <= 2**31 - 1)),
            ('position', z3.And(z3.Or(it.end, D(m, it.k)),
                                z3.ForAll([x1], z3.Implies(D(m, x1), z3.If(z3.Or(it.end, x1 < it.k), x1 <= b, x1 > b)), patterns=[D(m, x1)]))),
            ('union', z3.ForAll([v_], z3.Or(has(m, v_), z3.And(a <= v_, v_ < b)) == z3.Or(has(m0, v_), z3.And(a <= v_, v_ < b0)), patterns=[has(m, v_), has(m0, v_)]))]


add('add', Contract(requires=repreq, ensures=add_ens, modifies=[('this', 'map_')]), 2, loops={('add', 0): LoopSpec(add_inv)})


# ------------------------------------------------------------------ extend
def both(c):
    return [('rep', rep(c.old.f['map_'])), ('rng', rng(c.old.f['map_'])), ('rep other', rep(c.o(0).f['map_'])), ('rng other', rng(c.o(0).f['map_']))]


def union_ens(new, old, inn):
    return [('rep', rep(new)), ('rng', rng(new)),
            ('only union', z3.ForAll([v_], z3.Implies(has(new, v_), z3.Or(has(old, v_), inn(v_))))),
            ('keeps old', z3.ForAll([v_], z3.Implies(has(old, v_), has(new, v_)))),
            ('adds new', z3.ForAll([v_], z3.Implies(inn(v_), has(new, v_))))]


def ext_ens(c):
    return union_ens(c.this.f['map_'], c.old.f['map_'], lambda v: has(c.o(0).f['map_'], v))


def hasb(m, it, v):
    # intervals before the iterator end before it
    return z3.And(has(m, v), z3.Or(it.end, v < it.k))


def ext_inv(L):
    m0, m = L.old(L.this).f['map_'], L.get(L.this).f['map_']
    other, it = L.p(0).f['map_'], L.it
    return union_ens(m, m0, lambda v: hasb(other, it, v)) + [('at', z3.Or(it.end, D(other, it.k)))]


add('extend', Contract(requires=both, ensures=ext_ens, modifies=[('this', 'map_')]), 1, loops={('extend', 0): LoopSpec(ext_inv)},
    contracts={SET + '::add': CONTRACTS[SET + '::add/2']})


# ------------------------------------------------------------------ enumerate
# ghost: last value passed to the callback and whether it asked to continue
def f_req(c):
    g, i, m = c.oglob(('glob', 'tr')), c.o(0), c.e.load(c.pre, LV(('this',))).f['map_']
    return [('not stopped', g.f['go']), ('in set', has(m, i)), ('ascending', z3.Or(z3.Not(g.f['any']), g.f['last'] < i)),
            ('none skipped', z3.ForAll([v_], z3.Implies(z3.And(has(m, v_), v_ < i), z3.And(g.f['any'], v_ <= g.f['last']))))]


def f_ens(c):
    g = c.glob(('glob', 'tr'))
    return [('trace', z3.And(g.f['any'], g.f['last'] == c.o(0), g.f['go'] == c.res))]


F = Contract(requires=f_req, ensures=f_ens, modifies=[('glob', ('glob', 'tr'))], ret='bool')


def enum_setup(e, st, fd):
    st.store[('glob', 'tr')] = Rec('trace', {'any': z3.BoolVal(False), 'last': z3.Int('last0'), 'go': z3.BoolVal(True)})


def enum_inv(L):
    g, m, it = L.get(LV(('glob', 'tr'))), L.get(L.this).f['map_'], L.it
    return [('running', g.f['go']), ('at', z3.Or(it.end, D(m, it.k))),
            ('seen', z3.ForAll([v_], z3.Implies(z3.And(has(m, v_), z3.Or(it.end, v_ < it.k)), z3.And(g.f['any'], v_ <= g.f['last'])))),
            ('last', z3.Implies(g.f['any'], z3.And(has(m, g.f['last']), z3.Or(it.end, g.f['last'] < it.k))))]


def enum_inv2(L):
    g, m = L.get(LV(('glob', 'tr'))), L.get(L.this).f['map_']
    x, y, i = L['x'], L['y'], L['i']
    return [('running', g.f['go']), ('range', z3.And(D(m, x), y == V(m, x), x <= i, i <= y)),
            ('seen', z3.ForAll([v_], z3.Implies(z3.And(has(m, v_), v_ < i), z3.And(g.f['any'], v_ <= g.f['last'])))),
            ('last', z3.Implies(g.f['any'], z3.And(has(m, g.f['last']), g.f['last'] < i)))]


def enum_ens(c):
    g, m = c.glob(('glob', 'tr')), c.old.f['map_']
    return [('complete', z3.Implies(g.f['go'], z3.ForAll([v_], z3.Implies(has(m, v_), z3.And(g.f['any'], v_ <= g.f['last'])))))]


add('enumerate', Contract(requires=repreq, ensures=enum_ens, modifies=[('glob', ('glob', 'tr'))]), 1, setup=enum_setup,
    contracts={'Clingcon::EnumF::operator()': F}, loops={('enumerate', 0): LoopSpec(enum_inv), ('enumerate', 1): LoopSpec(enum_inv2)})
