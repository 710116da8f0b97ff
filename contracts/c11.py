"""C11: normalising a relation keeps its meaning.

The ghost OK collects what has been handed to the builder; the fresh literals
are existentially quantified."""
import z3
from sem import *
from execu import strid
from engine import StrV, Opq, Unsupported
import itertools

TU_ = 'src/parsing.cc'
OPS = ['<=', '<', '>=', '>', '=', '!=']
for _o in [''] + OPS:
    strid(StrV(_o))
PROD = z3.Function('PROD', z3.ArraySort(INT, INT), INT, INT)   # product of more than two variables


def nterm(el):
    if isinstance(el, Rec) and el.cls == 'pair' and isinstance(el.f['second'], Vec):
        return [el.f['first'], el.f['second'].n, el.f['second'].el]


def prod(n, a):
    return z3.If(n == 0, I(1), z3.If(n == 1, SG(z3.Select(a, I(0))), z3.If(n == 2, SG(z3.Select(a, I(0))) * SG(z3.Select(a, I(1))), PROD(a, n))))


class NFold(Fold):
    def __init__(self, name, step):
        self.name, self.pick, self.step, self.kind = name, nterm, step, 'sum'
        self.fn = z3.Function('fold_' + name, z3.ArraySort(INT, INT), z3.ArraySort(INT, INT), z3.ArraySort(INT, z3.ArraySort(INT, INT)), INT, INT)


NLIN = NFold('nlin', lambda co, n, a: co * prod(n, a))
VECS = {'lin': ('std::vector<std::pair<int, unsigned int>>', LIN), 'nonlin': ('std::vector<std::pair<int, std::vector<unsigned int>>>', NLIN)}


def rel(op, a, b):
    f = {'<=': a <= b, '<': a < b, '>=': a >= b, '>': a > b, '=': a == b, '!=': a != b}
    if isinstance(op, StrV):
        if op.s not in f:
            raise Unsupported('relation ' + op.s)
        return f[op.s]
    r = z3.BoolVal(True)
    for o in OPS:
        r = z3.If(strid(op) == strid(StrV(o)), f[o], r)
    return r


def tt(l):
    l = z3.simplify(l)
    if z3.is_int_value(l):
        if l.as_long() in (1, -1):
            return z3.BoolVal(l.as_long() == 1)
        raise Unsupported('constant literal')
    if z3.is_app_of(l, z3.Z3_OP_UMINUS):
        return z3.Not(tt(l.arg(0)))
    if z3.is_mul(l) and l.num_args() == 2 and z3.is_int_value(l.arg(0)) and l.arg(0).as_long() == -1:
        return z3.Not(tt(l.arg(1)))
    if z3.is_app_of(l, z3.Z3_OP_ITE):
        return z3.If(l.arg(0), tt(l.arg(1)), tt(l.arg(2)))
    return TT(l)


def clause(v):
    if v.el is None:
        return z3.BoolVal(False)
    n = z3.simplify(v.n)
    if not z3.is_int_value(n) or n.as_long() > 8:
        raise Unsupported('clause of unknown length')
    return z3.Or(*[tt(z3.simplify(z3.Select(v.el, I(i)))) for i in range(n.as_long())])


def add_ok(st, f, res):
    g = st.store[('glob', 'ok')]
    st.store[('glob', 'ok')] = Rec('Ok', {'ok': z3.And(g.f['ok'], f), 'fail': z3.Or(g.f['fail'], z3.Not(res)) if res is not None else g.f['fail']})


def put_ok(st):
    st.store[('glob', 'ok')] = Rec('Ok', {'ok': fresh('ok0', BOOL), 'fail': z3.BoolVal(False)})


def lin(v):
    return (LIN if pairp(v.el) is not None else NLIN)(v)


def meaning(lit, strict, r):
    return z3.And(z3.Implies(tt(lit), r), z3.Or(z3.Not(strict), z3.Implies(r, tt(lit))))


def nonzero(v, k=None):
    q = z3.Int('q!nz')
    el = v.el
    co = z3.Select(el.f['first'], q)
    b = [co != 0, co >= -(2**31) + 1, co < 2**31]
    if isinstance(el.f['second'], Vec):
        b.append(z3.Select(el.f['second'].n, q) >= 1)
    return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < (v.n if k is None else k)), z3.And(*b)), patterns=[co])


def builder_contracts():
    C = {}
    B = 'Clingcon::AbstractConstraintBuilder::'
    C[B + 'is_true'] = Contract(ret='bool', facts=lambda c: [z3.Implies(c.res, tt(c.o(0)))])
    C[B + 'add_literal'] = Contract(res=lambda c, s: fresh('newlit'), facts=lambda c: [c.res > 1, c.res < 2**30])
    C[B + 'add_clause'] = Contract(ret='bool', effect=lambda c, s: add_ok(s, clause(c.o(0)), c.res))
    C[B + 'add_constraint'] = Contract(ret='bool', requires=lambda c: [('coefficients', nonzero(c.o(1)))],
                                       effect=lambda c, s: add_ok(s, meaning(c.o(0), c.o(3), LIN(c.o(1)) <= c.o(2)), c.res))
    C[B + 'add_nonlinear'] = Contract(ret='bool', effect=lambda c, s: add_ok(s, meaning(c.o(0), c.o(7), nl(c) <= c.o(6)), c.res))
    return C


INVALID = 2**32 - 1


def nl(c):
    ab, a, b, cc, v = [c.o(i) for i in range(1, 6)]
    # absent parts are passed as coefficient 0
    return ab * SG(a) * SG(b) + cc * SG(v)


def rank(op, strict):
    r = {'<=': 0, '<': 0, '>=': 0, '>': 0, '=': 1, '!=': 1}[op]
    if strict:
        r = {'<=': 2, '<': 2, '>=': 2, '>': 2, '=': 3, '!=': 4}[op]
    return r


def srank(op, strict):
    strict = coerce_b(strict)
    if isinstance(op, StrV):
        if op.s not in OPS:
            raise Unsupported('relation')
        return z3.If(strict, I(rank(op.s, True)), I(rank(op.s, False)))
    r = I(4)
    for o in OPS:
        r = z3.If(strid(op) == strid(StrV(o)), z3.If(strict, I(rank(o, True)), I(rank(o, False))), r)
    return r


def coerce_b(b):
    return b if b.sort() == BOOL else b != 0


def lim(op, strict):
    return 2**31 - 4 - 2 * srank(op, strict)


def known(op):
    return z3.BoolVal(op.s in OPS) if isinstance(op, StrV) else z3.Or(*[strid(op) == strid(StrV(o)) for o in OPS])


def nc_req(c):
    el, op, rhs, strict = c.o(2), c.o(3), c.o(4), c.o(5)
    return [('relation', known(op)), ('bound', z3.And(rhs <= lim(op, strict), rhs >= -lim(op, strict))), ('coefficients', nonzero(el)), ('literal', z3.And(c.o(1) != 0, c.o(1) > -2**31, c.o(1) < 2**31)), ('size', el.n >= 0)]


def nc_meaning(c):
    el, op, rhs, strict = c.o(2), c.o(3), c.o(4), c.o(5)
    return meaning(c.o(1), coerce_b(strict), rel(op, lin(el), rhs))


def fresh_lits(f):
    out, seen = {}, set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().name().startswith('newlit!'):
            out[x.decl().name()] = x
        for y in x.children():
            go(y)
    go(f)
    return list(out.values())


def exists_fresh(f):
    ls = fresh_lits(f)
    if len(ls) > 6:
        raise Unsupported('too many new literals')
    cases = []
    for vals in itertools.product([True, False], repeat=len(ls)):
        cases.append(z3.simplify(z3.substitute(f, *[(TT(l), z3.BoolVal(b)) for l, b in zip(ls, vals)])))
    return z3.Or(*cases) if len(cases) > 1 else cases[0]


def unique_fresh(f):
    """the new literals are determined by the rest: no answer appears twice"""
    ls = fresh_lits(f)
    if not ls or len(ls) > 6:
        return z3.BoolVal(True)
    g = z3.substitute(f, *[(TT(l), z3.Bool('u!%d' % i)) for i, l in enumerate(ls)])
    h = z3.substitute(f, *[(TT(l), z3.Bool('w!%d' % i)) for i, l in enumerate(ls)])
    return z3.Implies(z3.And(g, h), z3.And(*[z3.Bool('u!%d' % i) == z3.Bool('w!%d' % i) for i in range(len(ls))]))


def nc_ens(c):
    g, g0 = c.glob(('glob', 'ok')), c.oglob(('glob', 'ok'))
    M = nc_meaning(c)
    E = exists_fresh(g.f['ok'])
    r = c.res
    return [('the atom implies what is added', z3.Implies(z3.And(r, g0.f['ok'], M), E)), ('what is added implies the atom', z3.Implies(z3.And(r, E), z3.And(g0.f['ok'], M))),
            ('new literals are determined', z3.Implies(r, unique_fresh(g.f['ok']))), ('conflicts are passed on', r == z3.Not(g.f['fail']))]


def nc_effect(c, s):
    add_ok(s, nc_meaning(c), c.res)


def nc_callee(key):
    def req(c):
        return nc_req(c) + [('recursion is well founded', srank(c.o(3), c.o(5)) < I(c.e.myrank))]
    return Contract(requires=req, ret='bool', effect=nc_effect)


def inv_copy(L):
    # copy holds the negated elements so far
    cp, v = L['copy'], L.get(LV(('param', 2)))
    f = LIN if pairp(v.el) is not None else NLIN
    return [('index', z3.And(0 <= L.k, L.k <= v.n)), ('length', cp.n == L.k), ('negated', f(cp) == -f(v, L.k)), ('coefficients', nonzero(cp))]


UNITS = []


def mk(kind, op, strict):
    vt, f = VECS[kind]
    C = builder_contracts()
    C['normalize_constraint'] = C['Clingcon::(anonymous namespace)::normalize_constraint'] = nc_callee(kind)
    if kind == 'nonlin':
        C['add_constraint'] = C['Clingcon::(anonymous namespace)::add_constraint'] = ACN

    def setup(e, st, fd):
        put_ok(st)
    return Unit('C11', TU_, 'normalize_constraint', Contract(requires=nc_req, ensures=nc_ens, modifies=[('glob', ('glob', 'ok'))], throws=(lambda c: None) if kind == 'nonlin' else None),
                setup=setup, contracts=C, ovf={32, 64}, folds=[f], eng=PropExec, targs=[vt], name='C11/normalize_constraint %s %s%s' % ({'lin': 'sum', 'nonlin': 'nsum'}[kind], op, ' strict' if strict else ''),
                loops={('normalize_constraint', 0): LoopSpec(inv_copy)}, opts={'myrank': rank(op, strict), 'args': {3: lambda e, st: StrV(op), 5: lambda e, st: z3.BoolVal(strict)}})


# ---------------------------------------------------------------- nonlinear terms to a constraint
def ac_inv(L):
    v = L.get(LV(('param', 2)))
    A, B, C_ = L['var_a'], L['var_b'], L['var_c']
    return [('index', z3.And(0 <= L.k, L.k <= v.n)), ('value', NLIN(v, L.k) == L['co_ab'] * SG(A) * SG(B) + L['co_c'] * SG(C_))]


ACN = Contract(requires=lambda c: [('coefficients', nonzero(c.o(2)))], ensures=lambda c: [
    ('the meaning is kept', c.glob(('glob', 'ok')).f['ok'] == z3.And(c.oglob(('glob', 'ok')).f['ok'], meaning(c.o(1), coerce_b(c.o(4)), NLIN(c.o(2)) <= c.o(3)))),
    ('conflicts are passed on', c.res == z3.Not(c.glob(('glob', 'ok')).f['fail']))], modifies=[('glob', ('glob', 'ok'))], throws=lambda c: None)
ACN_CALL = Contract(requires=ACN.requires, ret='bool', effect=lambda c, s: add_ok(s, meaning(c.o(1), coerce_b(c.o(4)), lin(c.o(2)) <= c.o(3)), c.res))
_a = ACN
UNITS.append(Unit('C11', TU_, 'add_constraint', _a, setup=lambda e, st, fd: put_ok(st), contracts=builder_contracts(), ovf={32, 64}, folds=[NLIN], eng=PropExec, sig='NonlinearTermVec', name='C11/add_constraint nsum',
                  loops={('add_constraint', 0): LoopSpec(ac_inv)}))
ACN = ACN_CALL
for kind in VECS:
    for op in OPS:
        for strict in (False, True):
            UNITS.append(mk(kind, op, strict))
