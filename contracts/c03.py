"""C03: the tracked bounds of a linear sum stay exact."""
from c01 import *
import c01

LBB, UBB = z3.Const('LBB', z3.ArraySort(INT, INT)), z3.Const('UBB', z3.ArraySort(INT, INT))
LO2 = Fold('lo2', pairp, lambda co, v: z3.If(co > 0, co * z3.Select(LBB, v), co * z3.Select(UBB, v)), 'sum', [INT, INT])
UP2 = Fold('up2', pairp, lambda co, v: z3.If(co > 0, co * z3.Select(UBB, v), co * z3.Select(LBB, v)), 'sum', [INT, INT])
P, D = z3.Ints('pos diff')


def changed(v, d):
    """the bounds after variable v's lower (d>0) or upper (d<0) bound moved by d"""
    return z3.And(LBB == z3.If(d > 0, z3.Store(LBA, v, z3.Select(LBA, v) + d), LBA), UBB == z3.If(d < 0, z3.Store(UBA, v, z3.Select(UBA, v) + d), UBA))


def delta(el, k, p, d):
    """LO2/UP2 over a prefix"""
    co = z3.Select(el.el.f['first'], p)
    x = co * d
    return [LO2(el, k) == LO(el, k) + z3.If(z3.And(p < k, x > 0), x, 0), UP2(el, k) == UP(el, k) + z3.If(z3.And(p < k, x < 0), x, 0)]


class Lemma:
    """proved by induction: base and step obligations"""
    lemma = True

    def __init__(self, prop, name, gen):
        self.prop, self.name, self.gen, self.fn, self.tu, self.timeout = prop, name, gen, name, None, None


def lemma_change():
    C = con_shape('SumConstraintState')
    el = C.f['elements_']
    S = Rec('S', {'var2vs_': Vec(z3.Int('nv'), Rec('x', {}))})
    hyp = [f for _, f in con_inv(C, S)] + [0 <= P, P < el.n, changed(z3.Select(el.el.f['second'], P), D), D != 0]
    k = z3.Int('k!i')
    unf = []
    for f in (LO, UP, LO2, UP2):
        unf += [f.app(el.el, I(0)) == 0, f.app(el.el, k + 1) == f.app(el.el, k) + f.st(select(el.el, k))]
    # instances needed for the step
    co, v = z3.Select(el.el.f['first'], k), z3.Select(el.el.f['second'], k)
    return [('base', hyp + unf, z3.And(*delta(el, I(0), P, D))),
            ('step', hyp + unf + [0 <= k, k < el.n, z3.And(*delta(el, k, P, D))], z3.And(*delta(el, k + 1, P, D)))]


UNITS = [Lemma('C03', 'C03/lemma: moving one bound changes the sums by coefficient times difference', lemma_change)]


def common(c):
    C = con(c)
    el = C.f['elements_']
    S = Rec('S', {'var2vs_': Vec(z3.Int('nv'), Rec('x', {}))})
    return C, el, con_inv(C, S)


def up_req(c):
    C, el, inv = common(c)
    return inv + exact(c.old, C) + [('watch', z3.And(0 <= P, P < el.n, c.o(0) == z3.Select(el.el.f['first'], P), c.o(1) != 0)), ('bounds after', changed(z3.Select(el.el.f['second'], P), c.o(1)))]


def exact2(T, C):
    return [('lower exact', T.f['lower_bound_'] == LO2(C.f['elements_'])), ('upper exact', T.f['upper_bound_'] == UP2(C.f['elements_']))]


UPD = Contract(requires=up_req, ensures=lambda c: exact2(c.this, con(c)) + [('enqueue if the lower bound grew', c.res == (c.o(0) * c.o(1) > 0))], modifies=[('this', 'lower_bound_'), ('this', 'upper_bound_')])


def un_req(c):
    # before: exact for the moved bounds, after: exact for the restored ones
    C, el, inv = common(c)
    return inv + exact2(c.old, C) + [('watch', z3.And(0 <= P, P < el.n, c.o(0) == z3.Select(el.el.f['first'], P), c.o(1) != 0)), ('bounds before', changed(z3.Select(el.el.f['second'], P), c.o(1)))]


UNDO = Contract(requires=un_req, ensures=lambda c: exact(c.this, con(c)), modifies=[('this', 'lower_bound_'), ('this', 'upper_bound_')])


def at_inv(L):
    T = L.get(L.this)
    el = T.f['constraint_'].f['elements_']
    return [('index', z3.And(0 <= L.k, L.k <= el.n)), ('lower', T.f['lower_bound_'] == LO(el, L.k)), ('upper', T.f['upper_bound_'] == UP(el, L.k))]


ATT = Contract(requires=lambda c: solver_inv(c.o(0)) + con_inv(con(c), c.o(0)), ensures=lambda c: exact(c.this, con(c)), modifies=[('this', 'lower_bound_'), ('this', 'upper_bound_')])
FO = [LO, UP, LO2, UP2]
for k in KINDS:
    kw = dict(eng=PropExec, ovf={32}, folds=FO)
    lem = lambda c: delta(con(c).f['elements_'], con(c).f['elements_'].n, P, c.o(1))
    UNITS += [Unit('C03', TU_, impl(k) + '::update', UPD, assume=lem, name='C03/%s::update' % k, opts={'thisval': thisval(k)}, **kw),
              Unit('C03', TU_, impl(k) + '::undo', UNDO, assume=lem, name='C03/%s::undo' % k, opts={'thisval': thisval(k)}, **kw),
              Unit('C03', TU_, impl(k) + '::attach', ATT, setup=setup, contracts=std_contracts(), loops={('attach', 0): LoopSpec(at_inv)}, name='C03/%s::attach' % k, opts={'thisval': thisval(k), 'args': {0: solver_arg}}, **kw),
              Unit('C03', TU_, impl(k) + '::check_state_', CS, setup=setup, contracts=std_contracts(), loops={('check_state_', 0): LoopSpec(cs_inv)}, name='C03/%s::check_state_' % k, opts={'thisval': thisval(k), 'args': {0: solver_arg}}, **kw)]


# copies keep constraint, bounds and marks
def cp_ens(c):
    a, b = c.o(0), c.this
    return [('same ' + f, a.f[f] == b.f[f]) for f in ('lower_bound_', 'upper_bound_', 'inactive_level_', 'todo_')] + [('same constraint', veq(a.f['constraint_'], c.e.load(c.st, b.f['constraint_'].lv) if isinstance(b.f['constraint_'], Ref) else b.f['constraint_']))]


for k in KINDS:
    UNITS.append(Unit('C03', TU_, k + '::' + k, Contract(ensures=cp_ens, modifies=[('this',)]), sig='const ' + k, eng=PropExec, name='C03/%s copy' % k,
                      opts={'thisval': thisval(k), 'args': {0: thisval(k)}}, skip_frame=True))
