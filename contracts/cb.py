"""ConstraintBuilder (propagator.cc): what is asked for reaches the propagator.

Implements the builder contracts C11 and C14 work with."""
from c11 import *
import c12
import c13
from engine import split_targs

TUP = 'src/propagator.cc'
CBN = 'ConstraintBuilder'


class CbExec(PropExec):
    """during preprocessing only literals that hold in all solutions are assigned"""

    def _q(self, args, st, fr, f):
        out = []
        for s, l in PropExec._q(self, args, st, fr, f):
            s = s.copy()
            out.append((s, l))
        res = []
        for s, l in self.ev(args[0], st, fr):
            A = self.load(s, ASS)
            s = s.copy()
            for x in litfacts(A, l):
                s.add(x)
            for y in (l, -l):
                s.add(z3.Implies(z3.Select(A.f['AT'], y), z3.Select(A.f['FX'], y)))
            res.append((s, f(A, l)))
        return res

    def construct(self, t, b, ta, cs, n, st, fr):
        # owning pointers to a constraint carry the constraint
        if b == 'unique_ptr' and len(cs) == 1:
            return self.ev(cs[0], st, fr)
        return None

    def f_make_unique(self, args, n, st, fr, d0):
        t = split_targs(self.resolve(self.ty(n)))[1][0]
        ctor = self.ctor_of({}, t, len(args))
        if ctor is None:
            raise Unsupported('make_unique of ' + t, n)
        outs = []
        for s, vs in self.evargs(args, ctor.params, st, fr):
            for s2, v in self.run_ctor(ctor, t, s, vs, n):
                if isinstance(v, Ref):
                    v = self.load(s2, v.lv)
                outs.append((s2, v))
        return outs


def nonlin(R):
    f = R.f
    return z3.Implies(tt(f['lit_']), f['co_a_'] * SG(f['var_x_']) * SG(f['var_y_']) + f['co_b_'] * SG(f['var_z_']) <= f['rhs_'])


def cmean(v):
    """meaning of a constraint object"""
    if isinstance(v, Rec) and v.cls == 'CPtr':
        return v.f['m']
    if isinstance(v, Rec) and v.cls.endswith('NonlinearConstraint'):
        return nonlin(v)
    raise Unsupported('constraint %s' % (v,))


def put_cb(st):
    put_ok(st)
    put_ass(st)


def this_(e, st):
    st.store[('glob', 'prop')] = Rec('Clingcon::Propagator', {'config_': e.shape('Clingcon::Config', 'cfg')})
    st.store[('glob', 'icc')] = Rec('Clingcon::InitClauseCreator', {})
    return Rec(CBN, {'propagator_': Ref(LV(('glob', 'prop'))), 'cc_': Ref(LV(('glob', 'icc')))})


def base():
    C = {}
    P, I_ = 'Clingcon::Propagator::', 'Clingcon::InitClauseCreator::'
    C[I_ + 'add_literal'] = Contract(res=lambda c, s: fresh('newlit'), facts=lambda c: [c.res > 1, c.res < 2**30])
    C[I_ + 'add_clause'] = Contract(ret='bool', effect=lambda c, s: add_ok(s, clause(c.o(0)), c.res))
    C['Clingcon::AbstractClauseCreator::assignment'] = C[I_ + 'assignment'] = Contract(res=lambda c, s: Opq('Assignment'))
    C[P + 'add_constraint'] = Contract(effect=lambda c, s: add_ok(s, cmean(c.o(0)), None))
    C[P + 'add_simple'] = Contract(ret='bool', requires=lambda c: [('coefficient', z3.And(c.o(2) != 0, c.o(2) > -2**31))], effect=lambda c, s: add_ok(s, meaning(c.o(1), coerce_b(c.o(5)), c.o(2) * SG(c.o(3)) <= c.o(4)), c.res))
    C['Clingcon::SumConstraint::create'] = Contract(res=lambda c, s: Rec('CPtr', {'m': z3.Implies(tt(c.o(0)), LIN(c.o(2)) <= c.o(1))}), requires=lambda c: [('coefficients', nonzero(c.o(2)))])
    for f, g in (('safe_inv', lambda c: -c.o(0)), ('safe_add', lambda c: c.o(0) + c.o(1)), ('safe_sub', lambda c: c.o(0) - c.o(1))):
        C['Clingcon::%s<int>' % f] = c13.exact(g, 32)
    C['Clingcon::check_valid_value<int>'] = c13.castc(MINV, MAXV)
    C['Clingcon::simplify'] = C['simplify'] = Contract(requires=c12.SIMP.requires, ensures=c12.SIMP.ensures, modifies=c12.SIMP.modifies, throws=c12.SIMP.throws, facts=lambda c: [LIN.app(c.a(0).el, I(0)) == 0])
    return C


def okg(c):
    return c.glob(('glob', 'ok')).f['ok']


def okg0(c):
    return c.oglob(('glob', 'ok')).f['ok']


def passed_on(c):
    return ('conflicts are passed on', c.res == z3.Not(c.glob(('glob', 'ok')).f['fail']))


def exactly(M):
    """what is added is M; the new literals are existentially quantified"""
    def ens(c):
        E, m = exists_fresh(okg(c)), M(c)
        return [('the constraint implies what is added', z3.Implies(z3.And(c.res, okg0(c), m), E)), ('what is added implies the constraint', z3.Implies(z3.And(c.res, E), z3.And(okg0(c), m))), ('new literals are determined', z3.Implies(c.res, unique_fresh(okg(c)))), passed_on(c)]
    return ens


def lit_ok(l):
    return ('literal', z3.And(l != 0, l > -2**31, l < 2**31))


# ------------------------------------------------------------ add_constraint
def ac_mean(c):
    return meaning(c.o(0), coerce_b(c.o(3)), LIN(c.o(1)) <= c.o(2))


def ac_req(c):
    return [('coefficients', nonzero(c.o(1))), ('size', c.o(1).n >= 0), lit_ok(c.o(0)), ('bound', z3.And(c.o(2) >= -2**31, c.o(2) < 2**31))]


def ac_throws(c):
    return z3.And(c.o(1).n != 1, coerce_b(c.o(3)), c.o(2) == 2**31 - 1)


AC = Contract(requires=ac_req, ensures=lambda c: [('exactly the constraint is added', okg(c) == z3.And(okg0(c), ac_mean(c))), passed_on(c)], modifies=[('glob', ('glob', 'ok'))], throws=ac_throws)
AC_CALL = Contract(requires=ac_req, ret='bool', effect=lambda c, s: add_ok(s, ac_mean(c), c.res), throws=ac_throws)


def ac_inv(L):
    cp, v = L['ielems'], L.get(LV(('param', 1)))
    return [('index', z3.And(0 <= L.k, L.k <= v.n)), ('length', cp.n == L.k), ('negated', LIN(cp) == -LIN(v, L.k)), ('coefficients', nonzero(cp))]


def setup(e, st, fd):
    put_cb(st)
    for i, p in enumerate(fd.params):
        pass


KW = dict(setup=setup, ovf={32, 64}, eng=CbExec)
OPT = {'thisval': this_}
C11U = [Unit('C11', TUP, CBN + '::add_constraint', AC, contracts=base(), folds=[LIN], loops={('add_constraint', 0): LoopSpec(ac_inv)}, name='C11/ConstraintBuilder::add_constraint', opts=OPT, **KW)]

# ------------------------------------------------------------ add_nonlinear
def an_mean(c):
    ab, a, b, cc, v = [c.o(i) for i in range(1, 6)]
    return meaning(c.o(0), coerce_b(c.o(7)), ab * SG(a) * SG(b) + cc * SG(v) <= c.o(6))


def an_throws(c):
    s, lo = coerce_b(c.o(7)), -2**31
    return z3.And(s, z3.Or(z3.And(c.o(1) == 0, c.o(4) == 0, c.o(6) == 2**31 - 1), z3.And(c.o(1) != 0, z3.Or(c.o(1) == lo, c.o(4) == lo, c.o(6) == 2**31 - 1))))


C = base()
C['Clingcon::ConstraintBuilder::add_constraint'] = C['Clingcon::AbstractConstraintBuilder::add_constraint'] = AC_CALL
AN = Contract(requires=lambda c: [lit_ok(c.o(0)), ('bound', z3.And(c.o(6) >= -2**31, c.o(6) < 2**31)), ('coefficient', c.o(4) > -2**31)],
              ensures=lambda c: [('exactly the constraint is added', okg(c) == z3.And(okg0(c), an_mean(c))), passed_on(c)], modifies=[('glob', ('glob', 'ok'))], throws=an_throws)
C11U.append(Unit('C11', TUP, CBN + '::add_nonlinear', AN, contracts=C, folds=[LIN], name='C11/ConstraintBuilder::add_nonlinear', opts=OPT, **KW))

# ------------------------------------------------------------ add_distinct
DIST = z3.Bool('DIST')          # the terms of more than two elements are pairwise different
q1, q2 = z3.Ints('q!1 q!2')


def elem(v, i):
    return select(v.el, I(i))


def value(e):
    return LIN(e.f['first']) + e.f['second']


def d_mean(n):
    def f(c):
        v = c.o(1)
        d = DIST if n is None else z3.BoolVal(True) if n < 2 else value(elem(v, 0)) != value(elem(v, 1))
        return z3.Implies(tt(c.o(0)), d)
    return f


def d_req(n):
    def f(c):
        v = c.o(1)
        out = [lit_ok(c.o(0)), ('a missing variable counts as 1', SG(I(INVALID)) == 1), ('number of elements', v.n > 2 if n is None else v.n == n)]
        if n == 2:
            for i in range(n):
                e = elem(v, i)
                w = e.f['first']
                out += [('size of %d' % i, w.n >= 0), ('coefficients of %d' % i, z3.ForAll([q1], z3.Implies(z3.And(0 <= q1, q1 < w.n), z3.And(z3.Select(w.el.f['first'], q1) != 0, z3.Select(w.el.f['first'], q1) >= MINV, z3.Select(w.el.f['first'], q1) <= MAXV)), patterns=[z3.Select(w.el.f['first'], q1)])),
                        ('variables of %d' % i, z3.ForAll([q1], z3.Implies(z3.And(0 <= q1, q1 < w.n), z3.And(z3.Select(w.el.f['second'], q1) >= 0, z3.Select(w.el.f['second'], q1) < INVALID)), patterns=[z3.Select(w.el.f['second'], q1)])),
                        ('constant of %d' % i, z3.And(e.f['second'] >= MINV, e.f['second'] <= MAXV))]
        return out
    return f


def elrange(w, n):
    a, b = w.el.f['first'], w.el.f['second']
    return z3.ForAll([q1], z3.Implies(z3.And(0 <= q1, q1 < n), z3.And(z3.Select(a, q1) != 0, z3.Select(a, q1) >= MINV, z3.Select(a, q1) <= MAXV, z3.Select(b, q1) >= 0, z3.Select(b, q1) < INVALID)), patterns=[z3.Select(a, q1), z3.Select(b, q1)])


def d_inv0(L):
    """the second term is subtracted"""
    v = L.get(LV(('param', 1)))
    a, b, ce = elem(v, 0).f['first'], elem(v, 1).f['first'], L['celems']
    return [('index', z3.And(0 <= L.k, L.k <= b.n)), ('length', ce.n == a.n + L.k), ('difference', LIN(ce) == LIN(a) - LIN(b, L.k)), ('elements', elrange(ce, ce.n))]


def d_inv1(L):
    """the coefficients are negated one after the other"""
    v, v0 = L['celems'], L.at_entry('celems')
    k = L.k
    same = z3.ForAll([q1], z3.Implies(z3.And(k <= q1, q1 < v.n), z3.And(z3.Select(v.el.f['first'], q1) == z3.Select(v0.el.f['first'], q1), z3.Select(v.el.f['second'], q1) == z3.Select(v0.el.f['second'], q1))), patterns=[z3.Select(v.el.f['first'], q1), z3.Select(v.el.f['second'], q1)])
    return [('index', z3.And(0 <= k, k <= v.n)), ('length', v.n == v0.n), ('negated', LIN(v, k) == -LIN(v0, k)), ('rest', same), ('coefficients', corange(v))]


def d_facts1(L):
    v, v0, k = L['celems'], L.at_entry('celems'), L.k
    p = z3.Select(v0.el.f['first'], k) * SG(z3.Select(v0.el.f['second'], k))
    return [LIN(v0, k + 1) == LIN(v0, k) + p, LIN.app(v0.el, I(0)) == 0, LIN.app(v.el, I(0)) == 0, -z3.Select(v0.el.f['first'], k) * SG(z3.Select(v0.el.f['second'], k)) == -p]


def corange(w):
    a = z3.Select(w.el.f['first'], q1)
    return z3.ForAll([q1], z3.Implies(z3.And(0 <= q1, q1 < w.n), z3.And(a != 0, a >= MINV, a <= MAXV)), patterns=[a])


def distinct_create(c, s):
    return Rec('CPtr', {'m': z3.Implies(tt(c.o(0)), DIST)})


C = base()
C['Clingcon::ConstraintBuilder::add_constraint'] = C['Clingcon::AbstractConstraintBuilder::add_constraint'] = AC_CALL
C['Clingcon::DistinctConstraint::create'] = Contract(res=distinct_create, requires=lambda c: [('all elements', z3.BoolVal(True))])
C05U = []
for n in (0, 1, 2, None):
    C05U.append(Unit('C05', TUP, CBN + '::add_distinct', Contract(requires=d_req(n), ensures=exactly(d_mean(n)), modifies=[('glob', ('glob', 'ok'))], throws=lambda c: None), contracts=C, folds=[LIN],
                     loops={('add_distinct', 2): LoopSpec(d_inv0), ('add_distinct', 3): LoopSpec(d_inv1, facts=d_facts1)}, name='C05/ConstraintBuilder::add_distinct, %s elements' % ('more than 2' if n is None else n), opts=dict(OPT, foldall=True), **KW))

# ------------------------------------------------------------ add_disjoint
DISJ = z3.Bool('DISJ')


def j_mean(n):
    def f(c):
        v = c.o(1)
        w, x = lambda i: z3.Select(v.el.f['first'], I(i)), lambda i: SG(z3.Select(v.el.f['second'], I(i)))
        d = DISJ if n is None else z3.BoolVal(True) if n < 2 else z3.Or(x(0) + w(0) <= x(1), x(1) + w(1) <= x(0))
        return z3.Implies(tt(c.o(0)), d)
    return f


def j_req(n):
    def f(c):
        v = c.o(1)
        out = [lit_ok(c.o(0)), ('a missing variable counts as 1', SG(I(INVALID)) == 1), ('number of elements', v.n > 2 if n is None else v.n == n)]
        if n == 2:
            out += [('durations', z3.And(*[z3.And(z3.Select(v.el.f['first'], I(i)) > 0, z3.Select(v.el.f['first'], I(i)) <= MAXV) for i in range(2)]))]
        return out
    return f


C = base()
C['Clingcon::ConstraintBuilder::add_constraint'] = C['Clingcon::AbstractConstraintBuilder::add_constraint'] = AC_CALL
C['Clingcon::ConstraintBuilder::add_literal'] = C['Clingcon::InitClauseCreator::add_literal']
C['Clingcon::DisjointConstraint::create'] = Contract(res=lambda c, s: Rec('CPtr', {'m': z3.Implies(tt(c.o(0)), DISJ)}))
C06U = []
for n in (0, 1, 2, None):
    C06U.append(Unit('C06', TUP, CBN + '::add_disjoint', Contract(requires=j_req(n), ensures=exactly(j_mean(n)), modifies=[('glob', ('glob', 'ok'))], throws=lambda c: None), contracts=C, folds=[LIN],
                     name='C06/ConstraintBuilder::add_disjoint, %s elements' % ('more than 2' if n is None else n), opts=dict(OPT, foldall=True), **KW))
UNITS = C11U + C05U + C06U
