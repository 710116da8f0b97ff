"""C14: theory atoms are read as the linear constraint they denote.

A theory term is a node of an uninterpreted term structure; TVAL is its value
under the fixed assignment, defined by recursion over the term."""
import z3
from sem import *
from c11 import NLIN, NFold, nterm, prod, put_ok, add_ok, meaning, rel, PROD, OPS, coerce_b, known, tt
from c12 import INVALID, co, va, nv
from execu import strid, It, _cnt_
from engine import StrV, Opq, Unsupported, Rec, Vec, Ref

TU_ = 'src/parsing.cc'
F1 = lambda n: z3.Function(n, INT, INT)
TTY, TNAME, TNUM, TNARG, EVAL, STYPE, SNUM, SVAL, SNARG, SNAME, SPOS, TVAL = [F1(n) for n in 'TTY TNAME TNUM TNARG EVAL STYPE SNUM SVAL SNARG SNAME SPOS TVAL'.split()]
TARGS = z3.Function('TARGS', INT, z3.ArraySort(INT, INT))
SARGS = z3.Function('SARGS', INT, z3.ArraySort(INT, INT))
# Clingo::TheoryTermType and Clingo::SymbolType
TUPLE, LIST, SET, TFUN, TNUMBER, TSYM = -1, -3, -2, 2, 0, 1
INFIMUM, NUMBER, STRING, FUNCTION, SUPREMUM = 0, 1, 4, 5, 7
for _o in ['+', '-', '*', '/', '\\\\', '**', '..', '@', 'sum', 'diff', 'nsum', '"']:
    strid(StrV(_o))


def term(i):
    return Rec('TheoryTerm', {'id': i})


def sym(i):
    return Rec('Symbol', {'id': i})


def targ(t, k):
    return z3.Select(TARGS(t), k)


def tmatch(t, name, ar):
    f = z3.And(TTY(t) == TFUN, TNAME(t) == strid(StrV(name)), TNARG(t) == ar)
    return f if ar else z3.Or(f, z3.And(TTY(t) == TSYM, TNAME(t) == strid(StrV(name))))


class ParseExec(PropExec):
    """read only views of theory terms, atoms and symbols"""
    ENUMS = dict(PropExec.ENUMS)

    def enum_const(self, d, n):
        t = self.ty(n) or ''
        if 'TheoryTermType' in t:
            return {'Tuple': TUPLE, 'List': LIST, 'Set': SET, 'Function': TFUN, 'Number': TNUMBER, 'Symbol': TSYM}.get(d['name'])
        if 'SymbolType' in t:
            return {'Infimum': INFIMUM, 'Number': NUMBER, 'String': STRING, 'Function': FUNCTION, 'Supremum': SUPREMUM}.get(d['name'])
        return PropExec.enum_const(self, d, n)

    def shape(self, t, name='v', depth=0):
        b = self.resolve(t).replace('const ', '').strip()
        if b.endswith('TheoryTerm'):
            return term(fresh(name))
        if b.endswith('Clingo::Symbol') or b == 'Symbol':
            return sym(fresh(name))
        if b.endswith('TheoryAtom'):
            return Rec('TheoryAtom', {'id': fresh(name)})
        if b.endswith('TheoryElement'):
            return Rec('TheoryElement', {'id': fresh(name)})
        if b.endswith('SymbolVector'):
            return Vec(fresh(name + '.n'), Rec('Symbol', {'id': fresh(name, z3.ArraySort(INT, INT))}))
        return PropExec.shape(self, t, name, depth)

    # terms
    def m_TheoryTerm_type(self, l, v, args, n, st, fr):
        return [(st, TTY(v.f['id']))]

    def m_TheoryTerm_name(self, l, v, args, n, st, fr):
        return [(st, Opq('str', TNAME(v.f['id'])))]

    def m_TheoryTerm_number(self, l, v, args, n, st, fr):
        self.obl(st, TTY(v.f['id']) == TNUMBER, 'number-of-number-term', n, 'bounds')
        x = TNUM(v.f['id'])
        return [(st.assume(x >= -2**31, x < 2**31), x)]

    def m_TheoryTerm_arguments(self, l, v, args, n, st, fr):
        t = v.f['id']
        s, lv = self.tmp(st.assume(TNARG(t) >= 0, TNARG(t) < 2**32), Vec(TNARG(t), Rec('TheoryTerm', {'id': TARGS(t)})), 'targs')
        return [(s, Ref(lv))]

    # symbols
    def m_Symbol_type(self, l, v, args, n, st, fr):
        return [(st, STYPE(v.f['id']))]

    def m_Symbol_number(self, l, v, args, n, st, fr):
        self.obl(st, STYPE(v.f['id']) == NUMBER, 'number-of-number-symbol', n, 'bounds')
        x = SNUM(v.f['id'])
        return [(st.assume(x >= -2**31, x < 2**31), x)]

    def m_Symbol_name(self, l, v, args, n, st, fr):
        return [(st, Opq('str', SNAME(v.f['id'])))]

    def m_Symbol_is_positive(self, l, v, args, n, st, fr):
        return [(st, SPOS(v.f['id']) != 0)]

    def m_Symbol_arguments(self, l, v, args, n, st, fr):
        t = v.f['id']
        s, lv = self.tmp(st.assume(SNARG(t) >= 0, SNARG(t) < 2**32), Vec(SNARG(t), Rec('Symbol', {'id': SARGS(t)})), 'sargs')
        return [(s, Ref(lv))]


PEXP = {'linear': (['std::vector<std::pair<int, unsigned int>>', '-1'], LIN), 'nonlinear': (['std::vector<std::pair<int, std::vector<unsigned int>>>', '-1'], NLIN),
        'diff': (['std::vector<std::pair<int, unsigned int>>', '0'], LIN)}
LINV, NLV = VECT = PEXP['linear'][0][0], PEXP['nonlinear'][0][0]


def fold(v):
    return LIN if pairp(v.el) is not None else NLIN


q_ = z3.Int('q!14')


def elrange(v):
    """coefficients and variables are values of their machine types"""
    c_ = co(v, q_)
    if isinstance(v.el.f['second'], Vec):
        n, a = nv(v, q_)
        return z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), z3.And(c_ >= -2**31, c_ < 2**31, n >= 0)), patterns=[c_, n])
    x = va(v, q_)
    return z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), z3.And(c_ >= -2**31, c_ < 2**31, x >= 0, x < 2**32)), patterns=[c_, x])


def same_prefix(v, w, n):
    """the folds of v and w agree up to n"""
    f = fold(v)
    x = f(v, q_)
    return z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ <= n), x == f(w, q_)), patterns=[x])


def numsym(s):
    return STYPE(s) == NUMBER


def sval(s):
    """value of a symbol where numbers denote themselves and others variables"""
    return z3.If(numsym(s), SNUM(s), SVAL(s))


def def_tval(t):
    """the defining equation of TVAL at t"""
    a, b = targ(t, I(0)), targ(t, I(1))
    return TVAL(t) == z3.If(TTY(t) == TNUMBER, TNUM(t), z3.If(tmatch(t, '+', 2), TVAL(a) + TVAL(b), z3.If(tmatch(t, '-', 2), TVAL(a) - TVAL(b), z3.If(
        tmatch(t, '-', 1), -TVAL(a), z3.If(tmatch(t, '+', 1), TVAL(a), z3.If(tmatch(t, '*', 2), TVAL(a) * TVAL(b), z3.If(
            z3.Or(tmatch(t, '**', 2), tmatch(t, '/', 2), tmatch(t, '\\\\', 2)), SNUM(EVAL(t)), SVAL(EVAL(t)))))))))


def dval(t):
    return sval(EVAL(targ(t, I(0)))) - sval(EVAL(targ(t, I(1))))


def eval_contract():
    return Contract(res=lambda c, s: sym(EVAL(c.o(0).f['id'])), throws=lambda c: None)


def add_variable():
    return Contract(ret='unsigned int', facts=lambda c: [SG(c.res) == SVAL(c.o(0).f['id']), c.res != INVALID, c.res >= 0, c.res < 2**32], throws=lambda c: None)


def value(kind, t):
    return dval(t) if kind == 'diff' else TVAL(t)


def elem_ens(kind):
    def ens(c):
        v0, v = c.o(2), c.a(2)
        f = fold(v)
        return [('value of the term is added', f(v) == f(v0) + value(kind, c.o(1).f['id'])), ('length', v.n >= v0.n),
                ('earlier terms are kept', same_prefix(v, v0, v0.n)), ('ranges', elrange(v))]
    return ens


def elem_req(c):
    return [('size', c.o(2).n >= 0), ('ranges', elrange(c.o(2))), ('a missing variable counts as 1', SG(I(INVALID)) == 1)]


def elem(kind):
    return Contract(requires=elem_req, ensures=elem_ens(kind), modifies=[(2,)], throws=lambda c: None)


def res_of(L, i=2):
    return L.get(LV(('param', i))), L.old(LV(('param', i)))


def inv_suffix(resi):
    """the terms added last are negated"""
    def inv(L):
        v, v0 = res_of(L, resi)
        f = fold(v)
        i, pos = L['it'].i, L['pos']
        return [('positions', z3.And(0 <= pos, pos <= i, i <= v.n, L['ie'].i == v.n, v.n == v0.n)),
                ('negated', f(v, i) == 2 * f(v0, pos) - f(v0, i)), ('ranges', elrange(v)), ('earlier terms are kept', same_prefix(v, v0, pos)),
                ('rest untouched', z3.ForAll([q_], z3.Implies(z3.And(i <= q_, q_ < v.n), z3.And(*[z3.Select(a, q_) == z3.Select(b, q_) for (_, a), (_, b) in zip(leaves(v.el), leaves(v0.el))])),
                                             patterns=[co(v, q_)]))]
    return inv


def facts_suffix(resi):
    def facts(L):
        v, v0 = res_of(L, resi)
        f, i = fold(v), L['it'].i
        return [f(v0, i + 1) == f(v0, i) + f.st(select(v0.el, i)), f(v, i + 1) == f(v, i) + f.st(select(v.el, i))]
    return facts


def vlen(v):
    if isinstance(v.el.f['second'], Vec):
        return []
    return []


def inv_outer(L):
    v, v0, l, r = *res_of(L), L['lhs'], L['rhs']
    f = fold(v)
    return [('index', z3.And(0 <= L.k, L.k <= l.n)), ('product so far', f(v) == f(v0) + f(l, L.k) * f(r)), ('length', z3.And(v.n >= v0.n, v.n >= 0)), ('ranges', elrange(v)), ('earlier terms are kept', same_prefix(v, v0, v0.n))]


def inv_inner(L):
    v, v0, r = *res_of(L), L['rhs']
    f = fold(v)
    k = L.outer_k()
    l = L['lhs']
    x = f.st(select(l.el, k))
    return [('index', z3.And(0 <= L.k, L.k <= r.n)), ('product so far', f(v) == f(v0) + x * f(r, L.k)), ('length', z3.And(v.n >= v0.n, v.n >= 0)), ('ranges', elrange(v)), ('earlier terms are kept', same_prefix(v, v0, v0.n))]


UNITS = []
PE = 'parse_constraint_elem'


def concat(v, w, a, b, r):
    """prod over a concatenation is the product of the products (definition of PROD)"""
    pa, pb, pr = fresh('pa'), fresh('pb'), fresh('pr')
    return [pa == prod(v.n, v.el), pb == prod(w.n, w.el), pr == pa * pb, pr == prod(r.n, r.el)] if isz(v.el) and z3.is_int_value(z3.simplify(a)) and z3.simplify(b - w.n).eq(I(0)) else []


for kind in PEXP:
    targs, f = PEXP[kind]
    C = {}
    C['Clingcon::(anonymous namespace)::evaluate/1'] = C['evaluate'] = eval_contract()
    C['Clingcon::AbstractConstraintBuilder::add_variable'] = add_variable()
    C[PE] = C['Clingcon::(anonymous namespace)::' + PE] = elem(kind)
    UNITS.append(Unit('C14', TU_, PE, elem(kind), targs=targs, contracts=C, ovf={32}, folds=[f], eng=ParseExec, name='C14/%s %s' % (PE, kind), assume=lambda c: [def_tval(c.o(1).f['id'])],
                      loops={(PE, 0): LoopSpec(inv_suffix(2), facts=facts_suffix(2)), (PE, 1): LoopSpec(inv_suffix(2), facts=facts_suffix(2)), (PE, 2): LoopSpec(inv_outer), (PE, 3): LoopSpec(inv_inner)},
                      hooks={'concat': concat}, opts={'foldall': True}))

# ------------------------------------------------------------ atoms and elements
ANEL, AGUARD, AOP, AGT, ALIT, ATERM, ENT, ENC, SLIT = [F1(n) for n in 'ANEL AGUARD AOP AGT ALIT ATERM ENT ENC SLIT'.split()]
AELS = z3.Function('AELS', INT, z3.ArraySort(INT, INT))
ETS = z3.Function('ETS', INT, z3.ArraySort(INT, INT))


class AtomExec(ParseExec):
    def vecof(self, st, n, el, name):
        s, lv = self.tmp(st.assume(n >= 0, n < 2**32), Vec(n, el), name)
        if self.folds:
            self.unfold0(s, Vec(n, el))
        return [(s, Ref(lv))]

    def m_TheoryAtom_elements(self, l, v, args, n, st, fr):
        t = v.f['id']
        return self.vecof(st, ANEL(t), Rec('TheoryElement', {'id': AELS(t)}), 'elements')

    def m_TheoryAtom_has_guard(self, l, v, args, n, st, fr):
        return [(st, AGUARD(v.f['id']) != 0)]

    def m_TheoryAtom_guard(self, l, v, args, n, st, fr):
        t = v.f['id']
        self.obl(st, AGUARD(t) != 0, 'guard-of-guarded-atom', n, 'bounds')
        return [(st, Rec('pair', {'first': Opq('str', AOP(t)), 'second': term(AGT(t))}))]

    def m_TheoryAtom_literal(self, l, v, args, n, st, fr):
        return [(st, ALIT(v.f['id']))]

    def m_TheoryAtom_term(self, l, v, args, n, st, fr):
        return [(st, term(ATERM(v.f['id'])))]

    def m_TheoryElement_tuple(self, l, v, args, n, st, fr):
        t = v.f['id']
        return self.vecof(st, ENT(t), Rec('TheoryTerm', {'id': ETS(t)}), 'tuple')

    def m_TheoryElement_condition(self, l, v, args, n, st, fr):
        t = v.f['id']
        return self.vecof(st, ENC(t), fresh('cond', z3.ArraySort(INT, INT)), 'cond')


def elempick(el):
    return [el.f['id']] if isinstance(el, Rec) and el.cls == 'TheoryElement' else None


def first(e):
    return z3.Select(ETS(e), I(0))


ESUM = {'diff': Fold('esumd', elempick, lambda e: dval(first(e)), 'sum', [INT])}
ESUM['linear'] = ESUM['nonlinear'] = Fold('esum', elempick, lambda e: TVAL(first(e)), 'sum', [INT])


def atomels(t):
    return Vec(ANEL(t), Rec('TheoryElement', {'id': AELS(t)}))


def guardval(kind, t):
    return SNUM(EVAL(t)) if kind == 'diff' else TVAL(t)


def els_ens(kind, guard):
    def ens(c):
        v0, v, els = c.o(3), c.a(3), c.o(1)
        f = fold(v)
        g = isinstance(c.args[2], Ref) if guard is None else guard
        return [('values of all terms are added', f(v) == f(v0) + ESUM[kind](els) - (guardval(kind, c.o(2).f['id']) if g else I(0))), ('length', v.n >= v0.n), ('ranges', elrange(v))]
    return ens


def els_inv(kind):
    def inv(L):
        v, v0 = res_of(L, 3)
        f = fold(v)
        return [('index', z3.And(0 <= L.k, L.k <= L.vec.n)), ('sum so far', f(v) == f(v0) + ESUM[kind](L.vec, L.k)), ('length', v.n >= v0.n), ('ranges', elrange(v)), ('earlier terms are kept', same_prefix(v, v0, v0.n))]
    return inv


PES = 'parse_constraint_elems'


def els(kind, guard=None):
    return Contract(requires=lambda c: [('size', c.o(3).n >= 0), ('ranges', elrange(c.o(3)))], ensures=els_ens(kind, guard), modifies=[(3,)], throws=lambda c: None)


def invalid1(c):
    return [SG(I(INVALID)) == 1]


def guardarg(e, st):
    st.store[('param', 2)] = term(fresh('guard'))
    return Ref(LV(('param', 2)))


def elsarg(e, st):
    n = fresh('els.n')
    st.add(z3.And(n >= 0, n < 2**32))
    return Vec(n, Rec('TheoryElement', {'id': fresh('els', z3.ArraySort(INT, INT))}))


for kind in PEXP:
    targs, f = PEXP[kind]
    C = {}
    C['Clingcon::(anonymous namespace)::evaluate/1'] = C['evaluate'] = eval_contract()
    C['Clingcon::AbstractConstraintBuilder::add_variable'] = add_variable()
    C[PE] = C['Clingcon::(anonymous namespace)::' + PE] = elem(kind)
    for guard in (True, False):
        if kind != 'linear' and not guard:
            continue
        UNITS.append(Unit('C14', TU_, PES, els(kind, guard), targs=targs, contracts=C, ovf={32}, folds=[f, ESUM[kind]], eng=AtomExec, name='C14/%s %s%s' % (PES, kind, '' if guard else ' (no guard)'), assume=invalid1,
                          loops={(PES, 0): LoopSpec(els_inv(kind)), (PES, 1): LoopSpec(inv_suffix(3), facts=facts_suffix(3))},
                          opts={'foldall': True, 'args': {1: elsarg, 2: guardarg if guard else lambda e, st: NULL}}))

# ------------------------------------------------------------ sum constraints
from c12 import SIMP, NSIMP, AX
from c11 import nc_req, nc_meaning, nonzero
import c11
DV = z3.Function('DV', INT, INT, BOOL)       # d divides x
QT = z3.Function('QT', INT, INT, INT)


def dvx(d, x):
    """consequences of d dividing x"""
    return z3.Implies(DV(d, x), x == d * QT(d, x))


def f_gcd(self):
    def f(args, n, st, fr, d0):
        outs = []
        for s, (a, b) in self.evlist(args, st, fr):
            g = fresh('gcd')
            self.obl(s, z3.And(a != -2**31, b != -2**31), 'gcd-defined', n, 'overflow')
            y = z3.Int('y!g')
            outs.append((s.assume(DV(g, a), DV(g, b), z3.ForAll([y], z3.Implies(DV(a, y), DV(g, y)), patterns=[DV(a, y)]), g >= 0, g < 2**31, z3.Implies(z3.And(a == 0, b == 0), g == 0)), g))
        return outs
    return f


class GcdExec(AtomExec):
    def arith(self, st, op, a, b, ty, node):
        r, facts = AtomExec.arith(self, st, op, a, b, ty, node)
        if op == '/':       # lemma: exact division
            facts = facts + [z3.Implies(z3.And(DV(b, a), b > 0), r == QT(b, a))]
        return r, facts

    def f_gcd(self, args, n, st, fr, d0):
        return f_gcd(self)(args, n, st, fr, d0)


PC = 'parse_constraint'


def pc_gcd(L):
    v, k, d = L.vec, L.k, L['d']
    return [('index', z3.And(0 <= k, k <= v.n)), ('range', z3.And(d >= -2**31 + 1, d < 2**31)), ('divides the bound', DV(d, L['rhs'])),
            ('divides the coefficients', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < k), DV(d, co(v, q_))), patterns=[co(v, q_)]))]


def elements_lv(L):
    return L._lv('elements')


def pc_div(L):
    v, v0, k, d = L['elements'], L.at_entry('elements'), L.k, L['d']
    f = fold(v)
    rest = z3.ForAll([q_], z3.Implies(z3.And(k <= q_, q_ < v.n), z3.And(*[z3.Select(a, q_) == z3.Select(b, q_) for (_, a), (_, b) in zip(leaves(v.el), leaves(v0.el))])), patterns=[co(v, q_)])
    others = [z3.Select(a, q_) == z3.Select(b, q_) for (p, a), (_, b) in zip(leaves(v.el), leaves(v0.el)) if p[0] != 'first']
    return [('index', z3.And(0 <= k, k <= v.n, v.n == v0.n)), ('divided', f(v, k) * d == f(v0, k)), ('rest untouched', rest),
            ('coefficients', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < k), z3.And(co(v, q_) != 0, co(v, q_) > -2**31, co(v, q_) < 2**31)), patterns=[co(v, q_)])),
            ('terms', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), z3.And(*others)), patterns=[co(v, q_)]))]


def pc_divfacts(L):
    v, v0, k, d = L['elements'], L.at_entry('elements'), L.k, L['d']
    f = fold(v)
    c0 = co(v0, k)
    return [f(v0, k + 1) == f(v0, k) + f.st(select(v0.el, k)), f(v, k + 1) == f(v, k) + f.st(select(v.el, k)), dvx(d, c0), z3.Implies(DV(d, c0), mulfact(d, c0, select(v0.el, k))), dvx(d, L['rhs']), f(v, I(0)) == 0, f(v0, I(0)) == 0]


def weight(el):
    if isinstance(el.f['second'], Vec):
        return prod(el.f['second'].n, el.f['second'].el)
    return SG(el.f['second'])


def mulfact(d, c0, el):
    w = fresh('w')
    return z3.And(w == weight(el), (QT(d, c0) * w) * d == c0 * w)


def lemma_div():
    a, b, q, r, w = z3.Ints('a b q r w')
    h = [b > 0, a == b * QT(b, a), a == q * b + r, r < b, r > -b]
    x = z3.Int('x')
    return [('quotient', [b > 0, b * x == r, r < b, r > -b], x == 0), ('difference', h + [x == QT(b, a) - q], b * x == r), ('product', [a == b * QT(b, a)], (QT(b, a) * w) * b == a * w)]


from c03 import Lemma
UNITS.append(Lemma('C14', 'C14/lemma: dividing a multiple gives the exact quotient', lemma_div))


def atom_meaning(kind, a, strict):
    return meaning(SLIT(ALIT(a)), coerce_b(strict), rel(Opq('str', AOP(a)), ESUM[kind](atomels(a)), guardval(kind, AGT(a))))


def pc_ens(kind):
    def ens(c):
        g, g0 = c.glob(('glob', 'ok')), c.oglob(('glob', 'ok'))
        a = c.o(1).f['id']
        return [('the constraint added is the one the atom denotes', g.f['ok'] == z3.And(g0.f['ok'], atom_meaning(kind, a, c.o(2)))), ('conflicts are passed on', c.res == z3.Not(g.f['fail']))]
    return ens


def pc_req(c):
    a = c.o(1).f['id']
    l = SLIT(ALIT(a))
    return [('operator', known(Opq('str', AOP(a)))), ('literal', z3.And(l != 0, l > -2**31, l < 2**31)), ('a missing variable counts as 1', SG(I(INVALID)) == 1)]


y_ = z3.Int('y!d')
DVAX = [z3.ForAll([y_], DV(y_, y_), patterns=[DV(y_, y_)])]
SLITC = Contract(res=lambda c, s: SLIT(c.o(0)))
for kind in PEXP:
    targs, f = PEXP[kind]
    C = {}
    C['Clingcon::AbstractConstraintBuilder::solver_literal'] = SLITC
    C[PES] = C['Clingcon::(anonymous namespace)::' + PES] = els(kind)
    nl_ = kind == 'nonlinear'
    C['Clingcon::(anonymous namespace)::simplify'] = NSIMP
    C['Clingcon::simplify'] = C['simplify'] = NSIMP if nl_ else SIMP
    C['normalize_constraint'] = C['Clingcon::(anonymous namespace)::normalize_constraint'] = Contract(requires=nc_req, ret='bool', effect=lambda c, s: c11.nc_effect(c, s), throws=lambda c: None)
    UNITS.append(Unit('C14', TU_, PC, Contract(requires=pc_req, ensures=pc_ens(kind), modifies=[('glob', ('glob', 'ok'))], throws=lambda c: None), targs=targs, contracts=C, ovf={32}, folds=[f, ESUM[kind]], eng=GcdExec,
                      name='C14/%s %s' % (PC, kind), setup=lambda e, st, fd: put_ok(st), assume=lambda c: DVAX + ([AX] if c.e.nonlin else []), loops={(PC, 0): LoopSpec(pc_gcd), (PC, 1): LoopSpec(pc_div, facts=pc_divfacts)}, opts={'foldall': True, 'nonlin': nl_}))

# ------------------------------------------------------------ domains
X = z3.Int('X')      # an arbitrary value


def dom_lo(t):
    return z3.If(tmatch(t, '..', 2), SNUM(EVAL(targ(t, I(0)))), SNUM(EVAL(t)))


def dom_hi(t):
    return z3.If(tmatch(t, '..', 2), SNUM(EVAL(targ(t, I(1)))), SNUM(EVAL(t))) + 1


def de_ens(c):
    t, r = c.o(0).f['id'], c.res
    return [('lower end', r.f['first'] == dom_lo(t)), ('upper end (exclusive)', r.f['second'] == dom_hi(t)), ('bounds', z3.And(r.f['first'] >= -2**31, r.f['first'] < 2**31, r.f['second'] >= -2**31, r.f['second'] < 2**31))]


DE = Contract(ensures=de_ens, throws=lambda c: None)
EVC = {'Clingcon::(anonymous namespace)::evaluate/1': eval_contract(), 'evaluate': eval_contract(), 'Clingcon::AbstractConstraintBuilder::add_variable': add_variable(),
       'Clingcon::AbstractConstraintBuilder::solver_literal': SLITC}
UNITS.append(Unit('C14', TU_, 'parse_dom_elem', DE, contracts=EVC, ovf={32, 64}, eng=AtomExec, name='C14/parse_dom_elem'))
INDOM = Fold('indom', elempick, lambda e: z3.And(dom_lo(first(e)) <= X, X < dom_hi(first(e))), 'or', [INT])


class DomExec(AtomExec):
    def default_special(self, rt, n):
        if 'IntervalSet' in rt:
            return Rec('IntervalSet', {'S': z3.K(INT, z3.BoolVal(False))})
        return None

    def shape(self, t, name='v', depth=0):
        if 'IntervalSet' in t:
            return Rec('IntervalSet', {'S': fresh(name, z3.ArraySort(INT, BOOL))})
        return AtomExec.shape(self, t, name, depth)


def is_add(c):
    S0, S, l, r = c.old.f['S'], c.this.f['S'], c.o(0), c.o(1)
    return [('union', S == z3.Lambda([q_], z3.Or(z3.Select(S0, q_), z3.And(l <= q_, q_ < r))))]


def dom_inv(L):
    S, k = L['elements'].f['S'], L.k
    return [('index', z3.And(0 <= k, k <= L.vec.n)), ('the set holds the values so far', z3.Select(S, X) == INDOM(L.vec, k))]


def dom_ens(c):
    g, g0 = c.glob(('glob', 'ok')), c.oglob(('glob', 'ok'))
    a = c.o(1).f['id']
    lit = SLIT(ALIT(a))
    return [('exactly the values of the elements are allowed', z3.Implies(X == SVAL(EVAL(AGT(a))), g.f['ok'] == z3.And(g0.f['ok'], z3.Implies(tt(lit), INDOM(atomels(a)))))), ('conflicts are passed on', c.res == z3.Not(g.f['fail']))]


C = dict(EVC)
C['parse_dom_elem'] = C['Clingcon::(anonymous namespace)::parse_dom_elem'] = DE
C['Clingcon::IntervalSet<int>::add/2'] = Contract(ensures=is_add, modifies=[('this', 'S')])
C['Clingcon::AbstractConstraintBuilder::add_dom'] = Contract(ret='bool', effect=lambda c, s: add_ok(s, z3.Implies(tt(c.o(0)), z3.Select(c.o(2).f['S'], SG(c.o(1)))), c.res))
UNITS.append(Unit('C14', TU_, 'parse_dom', Contract(ensures=dom_ens, modifies=[('glob', ('glob', 'ok'))], throws=lambda c: None), contracts=C, ovf={32, 64}, eng=DomExec, folds=[INDOM], name='C14/parse_dom',
                  setup=lambda e, st, fd: put_ok(st), loops={('parse_dom', 0): LoopSpec(dom_inv)}))


# ------------------------------------------------------------ distinct
def dist_inv(L):
    v, k, els_ = L['elements'], L.k, L.vec
    return [('index', z3.And(0 <= k, k <= els_.n)), ('one entry per element', v.n == k),
            ('entries have the values of the elements', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < k), dval_entry(v, q_) == TVAL(first(z3.Select(els_.el.f['id'], q_)))), patterns=[z3.Select(v.el.f['second'], q_)]))]


def dval_entry(v, k):
    e = select(v.el, k)
    return LIN(e.f['first']) + e.f['second']


def ad_req(c):
    v, a = c.o(1), c.e.atom
    els_ = atomels(a)
    return [('literal', c.o(0) == SLIT(ALIT(a))), ('one entry per element', v.n == els_.n),
            ('entries have the values of the elements', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), dval_entry(v, q_) == TVAL(first(z3.Select(els_.el.f['id'], q_)))), patterns=[z3.Select(v.el.f['second'], q_)]))]


def put_called(st):
    st.store[('glob', 'called')] = Rec('Called', {'n': I(0), 'res': fresh('res', BOOL)})


def called(c, s):
    g = s.store[('glob', 'called')]
    s.store[('glob', 'called')] = Rec('Called', {'n': g.f['n'] + 1, 'res': c.res})


def once(c):
    g = c.glob(('glob', 'called'))
    return [('added exactly once', g.f['n'] == 1), ('conflicts are passed on', c.res == g.f['res'])]


def atomarg(e, st):
    e.atom = fresh('atom')
    return Rec('TheoryAtom', {'id': e.atom})


class DistExec(AtomExec):
    pass


C = dict(EVC)
C[PE] = C['Clingcon::(anonymous namespace)::' + PE] = elem('linear')
C['Clingcon::simplify'] = C['simplify'] = SIMP
C['Clingcon::AbstractConstraintBuilder::add_distinct'] = Contract(ret='bool', requires=ad_req, effect=called)
UNITS.append(Unit('C14', TU_, 'parse_distinct', Contract(requires=lambda c: [('a missing variable counts as 1', SG(I(INVALID)) == 1)], ensures=once, modifies=[('glob', ('glob', 'called'))], throws=lambda c: None), contracts=C, ovf={32, 64},
                  eng=DistExec, folds=[LIN], name='C14/parse_distinct', setup=lambda e, st, fd: put_called(st), loops={('parse_distinct', 0): LoopSpec(dist_inv)}, opts={'args': {1: atomarg}, 'foldall': True}))

# ------------------------------------------------------------ disjoint: the multiset of (duration, start) pairs with positive duration
W = z3.Function('W', INT, INT, INT)          # an arbitrary weight of a (duration, start value) pair
MW = Fold('mw', pairp, lambda d, v: W(d, SG(v)), 'sum', [INT, INT])


def dj_step(e):
    t = first(e)
    a, b = EVAL(targ(t, I(0))), EVAL(targ(t, I(1)))
    return z3.If(SNUM(b) > 0, W(SNUM(b), SVAL(a)), 0)


EW = Fold('ew', elempick, dj_step, 'sum', [INT])


def dj_inv(L):
    v, k = L['elements'], L.k
    return [('index', z3.And(0 <= k, k <= L.vec.n)), ('same pairs so far', MW(v) == EW(L.vec, k)), ('positive durations', z3.And(v.n >= 0, z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), z3.And(co(v, q_) > 0, co(v, q_) <= MAXV)), patterns=[co(v, q_)])))]


def adj_req(c):
    v, a = c.o(1), c.e.atom
    return [('literal', c.o(0) == SLIT(ALIT(a))), ('the tasks with positive duration', MW(v) == EW(atomels(a))),
            ('positive durations', z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < v.n), z3.And(co(v, q_) > 0, co(v, q_) <= MAXV)), patterns=[co(v, q_)]))]


C = dict(EVC)
C['Clingcon::AbstractConstraintBuilder::add_disjoint'] = Contract(ret='bool', requires=adj_req, effect=called)
UNITS.append(Unit('C14', TU_, 'parse_disjoint', Contract(ensures=once, modifies=[('glob', ('glob', 'called'))], throws=lambda c: None), contracts=C, ovf={32, 64},
                  eng=AtomExec, folds=[MW, EW], name='C14/parse_disjoint', setup=lambda e, st, fd: put_called(st), loops={('parse_disjoint', 0): LoopSpec(dj_inv)}, opts={'args': {1: atomarg}}))


# ------------------------------------------------------------ objective (C15)
def put_min(st):
    st.store[('glob', 'min')] = Rec('Min', {'sum': fresh('min0')})


def add_min(c, s):
    g = s.store[('glob', 'min')]
    s.store[('glob', 'min')] = Rec('Min', {'sum': g.f['sum'] + c.o(0) * SG(c.o(1))})


def obj_ens(c):
    g, g0 = c.glob(('glob', 'min')), c.oglob(('glob', 'min'))
    return [('factor times the sum of the elements is added to the objective', g.f['sum'] == g0.f['sum'] + c.o(2) * ESUM['linear'](atomels(c.o(1).f['id'])))]


def obj_inv(L):
    v, k = L['elems'], L.k
    g, g0 = L.get(LV(('glob', 'min'))), L.old(LV(('glob', 'min')))
    return [('index', z3.And(0 <= k, k <= v.n)), ('objective so far', g.f['sum'] == g0.f['sum'] + L['factor'] * LIN(v, k))]


C = dict(EVC)
C[PES] = C['Clingcon::(anonymous namespace)::' + PES] = els('linear')
C['Clingcon::AbstractConstraintBuilder::add_minimize'] = Contract(effect=add_min)
OBJ = Unit('C15', TU_, 'parse_objective', Contract(requires=lambda c: [('factor', z3.Or(c.o(2) == 1, c.o(2) == -1)), ('a missing variable counts as 1', SG(I(INVALID)) == 1)], ensures=obj_ens, modifies=[('glob', ('glob', 'min'))], throws=lambda c: None),
           contracts=C, ovf={32, 64}, eng=AtomExec, folds=[LIN, ESUM['linear']], name='C15/parse_objective', setup=lambda e, st, fd: put_min(st), loops={('parse_objective', 0): LoopSpec(obj_inv)})

# ------------------------------------------------------------ dispatch
MEAN = {k: z3.Function('MEAN_' + k, INT, BOOL) for k in ('dist', 'disj', 'dom')}
MCON = {k: z3.Function('MCON_' + k, INT, BOOL, BOOL) for k in ('linear', 'diff', 'nonlinear')}
SHOWN = z3.Function('SHOWN', INT, INT)
OBJV = z3.Function('OBJV', INT, INT)


def named(t, name):
    return tmatch(t, name, 0)


def atom_mean(a):
    t = ATERM(a)
    r = z3.BoolVal(True)
    for nm, k, s in (('__sum_b', 'linear', True), ('__sum_h', 'linear', False), ('__diff_b', 'diff', True), ('__diff_h', 'diff', False), ('__nsum_b', 'nonlinear', True), ('__nsum_h', 'nonlinear', False)):
        r = z3.And(r, z3.Implies(named(t, nm), MCON[k](a, z3.BoolVal(s))))
    for nm, k in (('distinct', 'dist'), ('disjoint', 'disj'), ('dom', 'dom')):
        r = z3.And(r, z3.Implies(named(t, nm), MEAN[k](a)))
    return r


def atom_obj(a):
    return z3.If(named(ATERM(a), 'minimize'), OBJV(a), z3.If(named(ATERM(a), 'maximize'), -OBJV(a), I(0)))


def atompick(el):
    return [el.f['id']] if isinstance(el, Rec) and el.cls == 'TheoryAtom' else None


AM = Fold('am', atompick, atom_mean, 'and', [INT])
AO = Fold('ao', atompick, atom_obj, 'sum', [INT])
AS = Fold('as', atompick, lambda a: z3.If(named(ATERM(a), 'show'), SHOWN(a), I(0)), 'sum', [INT])


class DispExec(AtomExec):
    def shape(self, t, name='v', depth=0):
        if 'TheoryAtoms' in t:
            return Vec(fresh(name + '.n'), Rec('TheoryAtom', {'id': fresh(name, z3.ArraySort(INT, INT))}))
        return AtomExec.shape(self, t, name, depth)


def con_mean(c, s):
    k = c.e.kindof
    add_ok(s, MCON[k](c.o(1).f['id'], coerce_b(c.o(2))), c.res)


class PcKind(Contract):
    """the contract of parse_constraint for the instance that is called"""

    def apply(self, eng, st, this, args, node, fr, fd):
        ta = list(fd.targs or [])
        nl_ = 'std::vector<unsigned int>' in ta[0] if ta else None
        if nl_ is None or len(ta) < 2:
            raise Unsupported('instance of parse_constraint')
        eng.kindof = 'nonlinear' if nl_ else 'diff' if ta[1] in ('0', 'false') else 'linear'
        return Contract.apply(self, eng, st, this, args, node, fr, fd)


def dsp_inv(L):
    g, g0, k, v = L.get(LV(('glob', 'ok'))), L.old(LV(('glob', 'ok'))), L.k, L.vec
    m, m0, s, s0 = L.get(LV(('glob', 'min'))), L.old(LV(('glob', 'min'))), L.get(LV(('glob', 'shw'))), L.old(LV(('glob', 'shw')))
    return [('index', z3.And(0 <= k, k <= v.n)), ('atoms so far', g.f['ok'] == z3.And(g0.f['ok'], AM(v, k))), ('no conflict so far', g.f['fail'] == g0.f['fail']),
            ('objective so far', m.f['sum'] == m0.f['sum'] + AO(v, k)), ('shown so far', s.f['sum'] == s0.f['sum'] + AS(v, k))]


def dsp_ens(c):
    g, g0 = c.glob(('glob', 'ok')), c.oglob(('glob', 'ok'))
    v = c.o(1)
    return [('every atom is added with its meaning', z3.Implies(c.res, g.f['ok'] == z3.And(g0.f['ok'], AM(v)))), ('conflicts are passed on', c.res == z3.Not(g.f['fail'])),
            ('objective', z3.Implies(c.res, c.glob(('glob', 'min')).f['sum'] == c.oglob(('glob', 'min')).f['sum'] + AO(v))),
            ('show statements', z3.Implies(c.res, c.glob(('glob', 'shw')).f['sum'] == c.oglob(('glob', 'shw')).f['sum'] + AS(v)))]


def bump(root, f):
    def eff(c, s):
        g = s.store[('glob', root)]
        s.store[('glob', root)] = Rec(g.cls, {'sum': g.f['sum'] + f(c)})
    return eff


def dsp_setup(e, st, fd):
    put_ok(st)
    put_min(st)
    st.store[('glob', 'shw')] = Rec('Shw', {'sum': fresh('shw0')})


def anon(C, n, c):
    C[n] = C['Clingcon::(anonymous namespace)::' + n] = c


C = {}
anon(C, PC, PcKind(ret='bool', effect=con_mean, throws=lambda c: None))
for n_, k_ in (('parse_distinct', 'dist'), ('parse_disjoint', 'disj'), ('parse_dom', 'dom')):
    anon(C, n_, Contract(ret='bool', effect=lambda c, s, k=k_: add_ok(s, MEAN[k](c.o(1).f['id']), c.res), throws=lambda c: None))
anon(C, 'parse_show', Contract(effect=bump('shw', lambda c: SHOWN(c.o(1).f['id'])), throws=lambda c: None))
anon(C, 'parse_objective', Contract(effect=bump('min', lambda c: c.o(2) * OBJV(c.o(1).f['id'])), throws=lambda c: None))
UNITS.append(Unit('C14', TU_, 'parse', Contract(ensures=dsp_ens, modifies=[('glob', ('glob', x)) for x in ('ok', 'min', 'shw')], throws=lambda c: None), contracts=C, ovf={32, 64}, eng=DispExec, folds=[AM, AO, AS], name='C14/parse',
                  setup=dsp_setup, loops={('parse', 0): LoopSpec(dsp_inv)}, sig='TheoryAtoms'))

# ------------------------------------------------------------ evaluation of terms
NUMSYM = F1('NUMSYM')
STRSYM = F1('STRSYM')
FUNSYM = z3.Function('FUNSYM', INT, INT, z3.ArraySort(INT, INT), BOOL, INT)
TDIV, TMOD, TPOW = [z3.Function(n, INT, INT, INT) for n in ('TDIV', 'TMOD', 'TPOW')]
QUOTED = z3.Function('QUOTED', INT, BOOL)
UNQ = F1('UNQ')
EVARGS = z3.Function('EVARGS', INT, z3.ArraySort(INT, INT))


class EvalExec(AtomExec):
    def construct(self, t, b, ta, cs, n, st, fr):
        if b == 'Span' and 'char' in t:
            outs = []
            for s, vs in self.evlist([c for c in cs if c['kind'] != 'CXXDefaultArgExpr'], st, fr):
                outs.append((s, Opq('chars', vs[0].d if isinstance(vs[0], Opq) else None)))
            return outs
        if b == 'Span' and 'Symbol' in t and not cs:
            return [(st, Vec(I(0), Rec('Symbol', {'id': fresh('noargs', z3.ArraySort(INT, INT))})))]
        return AtomExec.construct(self, t, b, ta, cs, n, st, fr)

    def initlist_special(self, t, outs, n):
        if 'Span' in t and 'Symbol' in t:
            return [(s, Vec(I(0), Rec('Symbol', {'id': fresh('noargs', z3.ArraySort(INT, INT))}))) for s, vs in outs]
        if 'Span' in t and 'char' in t:
            return [(s, Opq('chars', vs[0].d if vs and isinstance(vs[0], Opq) else None)) for s, vs in outs]
        return None

    def m_chars_empty(self, l, v, args, n, st, fr):
        return [(st, v.d == 0)]

    def m_chars_front(self, l, v, args, n, st, fr):
        c = z3.Function('FRONT', INT, INT)(v.d)
        return [(st, c)]

    def m_chars_back(self, l, v, args, n, st, fr):
        return [(st, z3.Function('BACK', INT, INT)(v.d))]

    def m_chars_begin(self, l, v, args, n, st, fr):
        return [(st, Opq('charp', (v.d, 0)))]

    def m_chars_end(self, l, v, args, n, st, fr):
        return [(st, Opq('charp', (v.d, -1)))]

    def binop(self, op, x, y, s, n, ty):
        if isinstance(x, Opq) and x.name == 'charp' and isz(y):
            return s, Opq('charp', (x.d[0], x.d, op, z3.simplify(y).as_long()))
        return AtomExec.binop(self, op, x, y, s, n, ty)

    def m_str_c_str(self, l, v, args, n, st, fr):
        return [(st, v)]

    def f_Number(self, args, n, st, fr, d0):
        return [(s, sym(NUMSYM(v[0]))) for s, v in self.evlist(args, st, fr)]

    def f_String(self, args, n, st, fr, d0):
        return [(s, sym(STRSYM(v[0].d))) for s, v in self.evlist(args, st, fr)]

    def f_Function(self, args, n, st, fr, d0):
        outs = []
        for s, v in self.evlist(args, st, fr):
            a = v[1]
            pos = coerce(v[2], BOOL) if len(v) > 2 and isz(v[2]) else z3.BoolVal(True)
            ids = a.el.f['id'] if isinstance(a, Vec) and a.el is not None else fresh('noargs', z3.ArraySort(INT, INT))
            k = a.n if isinstance(a, Vec) else I(0)
            r = fresh('fsym')
            # equal names, arguments and signs give the same symbol
            t = self.evt
            same = z3.And(k == TNARG(t), z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < k), z3.Select(ids, q_) == EVAL(targ(t, q_))), patterns=[z3.Select(ids, q_)]))
            s = s.assume(r == FUNSYM(strid(v[0]), k, ids, pos), z3.Implies(same, FUNSYM(strid(v[0]), k, ids, pos) == FUNSYM(strid(v[0]), TNARG(t), EVARGS(t), pos)),
                         z3.Implies(k == 0, FUNSYM(strid(v[0]), k, ids, pos) == FUNSYM(strid(v[0]), I(0), z3.K(INT, I(0)), pos)))
            outs.append((s, sym(r)))
        return outs


class UnqC(Contract):
    def apply(self, eng, st, this, args, node, fr, fd):
        v = eng.load(st, args[0]) if isinstance(args[0], LV) else args[0]
        d = v.d
        # the characters between the quotes
        if not (isinstance(d, tuple) and d[1] == (d[0], 0) and d[2:] == ('+', 1)):
            raise Unsupported('unquote of another part')
        return [(st, Opq('str', UNQ(d[0])))]


def def_eval(t):
    a, b = targ(t, I(0)), targ(t, I(1))
    na, nb = SNUM(EVAL(a)), SNUM(EVAL(b))
    bothnum = z3.And(numsym(EVAL(a)), numsym(EVAL(b)))
    num = lambda x: z3.And(bothnum, EVAL(t) == NUMSYM(x))
    quote = z3.And(TNAME(t) != 0, z3.Function('FRONT', INT, INT)(TNAME(t)) == 34, z3.Function('BACK', INT, INT)(TNAME(t)) == 34)
    e = EVAL(a)
    r = z3.If(TTY(t) == TFUN, EVAL(t) == FUNSYM(TNAME(t), TNARG(t), EVARGS(t), z3.BoolVal(True)), z3.If(TTY(t) == TUPLE, EVAL(t) == FUNSYM(I(0), TNARG(t), EVARGS(t), z3.BoolVal(True)), z3.BoolVal(False)))
    r = z3.If(tmatch(t, '..', 2), z3.BoolVal(False), r)
    r = z3.If(tmatch(t, '-', 1), z3.If(numsym(e), EVAL(t) == NUMSYM(-SNUM(e)), z3.And(STYPE(e) == FUNCTION, SNAME(e) != 0, EVAL(t) == FUNSYM(SNAME(e), SNARG(e), SARGS(e), SPOS(e) == 0))), r)
    for op, x in (('**', TPOW(na, nb)), ('\\\\', TMOD(na, nb)), ('/', TDIV(na, nb)), ('*', na * nb), ('-', na - nb), ('+', na + nb)):
        r = z3.If(tmatch(t, op, 2), num(x), r)
    r = z3.If(TTY(t) == TNUMBER, EVAL(t) == NUMSYM(TNUM(t)), r)
    r = z3.If(TTY(t) == TSYM, EVAL(t) == z3.If(quote, STRSYM(UNQ(TNAME(t))), FUNSYM(TNAME(t), I(0), z3.K(INT, I(0)), z3.BoolVal(True))), r)
    return r


def ev_setup(e, st, fd):
    pass


def ev_inv(L):
    v, k, t = L['args'], L.k, L.e.evt
    return [('index', z3.And(0 <= k, k <= L.vec.n)), ('evaluated so far', z3.And(v.n == k, z3.ForAll([q_], z3.Implies(z3.And(0 <= q_, q_ < k), z3.Select(v.el.f['id'], q_) == EVAL(targ(t, q_))), patterns=[z3.Select(v.el.f['id'], q_)])))]


def evarg(e, st):
    e.evt = fresh('t')
    return term(e.evt)


x_ = z3.Int('x!n')
C = {}
anon(C, 'evaluate/1', eval_contract()); C['Clingcon::evaluate/1'] = eval_contract()
anon(C, 'unquote', UnqC())
import c13
for nm, f in (('safe_add', lambda a, b: a + b), ('safe_sub', lambda a, b: a - b), ('safe_mul', lambda a, b: a * b), ('safe_div', TDIV), ('safe_mod', TMOD)):
    C['Clingcon::%s<int>' % nm] = C[nm] = Contract(ret='int', res=lambda c, s, f=f: f(c.o(0), c.o(1)), throws=lambda c: None)
anon(C, 'safe_pow', Contract(res=lambda c, s: TPOW(c.o(0), c.o(1)), throws=lambda c: None))
UNITS.append(Unit('C14', TU_, 'evaluate', Contract(ensures=lambda c: [('the value of the term', z3.Implies(z3.Or(def_eval(c.o(0).f['id'])), c.res.f['id'] == EVAL(c.o(0).f['id'])))], throws=lambda c: None), nparams=1, contracts=C, ovf={32, 64},
                  eng=EvalExec, name='C14/evaluate', loops={('evaluate', 0): LoopSpec(ev_inv)}, opts={'args': {0: evarg}, 'foldall': False}))
