"""C15: reported cost and enforced optimisation bound are right."""
import z3
from sem import *
from c01 import LBA, UBA, LO, UP, con_shape, pairp
from c12 import SIMP, INVALID, co, va
import c14
from engine import NONE, StrV, Opq, Unsupported, Rec, Vec, Ref, coerce
from execu import It, _cnt_

TU_ = 'src/propagator.cc'
j_ = z3.Int('j!15')
NO_BOUND = 2**63 - 1
VALT = Fold('valt', pairp, lambda c, v: c * z3.Select(LBA, v), 'sum', [INT, INT])
TID = z3.Int('thread')


def solvers(e, st):
    """the solver of one thread; the others are never looked at"""
    S = solver_shape(e, 's')
    el = dict(S.f['var2vs_'].el.f)
    el['lower_bound_'], el['upper_bound_'] = LBA, UBA
    S.f['var2vs_'] = Vec(S.f['var2vs_'].n, Rec('Clingcon::VarState', el))
    return S


def prop_this(e, st):
    M = con_shape('MinimizeConstraintState')
    st.store[('glob', 'mcon')] = M
    st.store[('glob', 'solver')] = solvers(e, st)
    st.add(z3.And(M.f['size_'] >= 0, M.f['size_'] < 2**31, M.f['adjust_'] >= MINV, M.f['adjust_'] <= MAXV))
    return Rec('Clingcon::Propagator', {
        'minimize_': Rec('unique_ptr', {'p': Ref(LV(('glob', 'mcon'))), 'null': fresh('nomin', BOOL)}),
        'minimize_bound_': fresh('mb'), 'sym_map_': Rec('SymMap', {'n': fresh('nsyms')}), 'config_': e.shape('Clingcon::Config', 'cfg'),
        'stats_step_': Rec('Statistics', {'cost': Rec('optional', {'has': fresh('hc', BOOL), 'val': fresh('cost')})})})


NUMSYM, STRSYM = c14.NUMSYM, c14.STRSYM
TOSTR = z3.Function('TOSTRING', INT, INT)
FSYM = z3.Function('FSYM', INT, INT, INT, INT, INT)     # name, arity, first and second argument
WS = z3.Function('WS', INT, INT)                        # arbitrary weight of a symbol: multisets
SHOWNV = z3.Function('SHOWNV', INT, BOOL)
CSP, COST = [c14.strid(StrV(x)) for x in ('__csp', '__csp_cost')]


def symid(el):
    return [el.f['id']] if isinstance(el, Rec) and el.cls == 'Symbol' and isz(el.f['id']) else None


def valsym(s, v):
    return FSYM(CSP, I(2), s, NUMSYM(z3.Select(LBA, v)))


def entry(el):
    return [el.f['first'].f['id'], el.f['second']] if isinstance(el, Rec) and el.cls == 'pair' and isinstance(el.f['first'], Rec) else None


MS = Fold('ms', symid, lambda i: WS(i), 'sum', [INT])
ES = Fold('es', entry, lambda s, v: z3.If(SHOWNV(v), WS(valsym(s, v)), 0), 'sum', [INT, INT])


class MExec(c14.EvalExec):
    """symbols given to a model"""

    def initlist_special(self, t, outs, n):
        if 'Span' in t and 'Symbol' in t:
            return [self.mkvec(s, vs) for s, vs in outs]
        return None

    def f_Function(self, args, n, st, fr, d0):
        outs = []
        for s, v in self.evlist(args, st, fr):
            a = v[1]
            if not (len(v) < 3 or v[2] is NONE or z3.is_true(z3.simplify(coerce(v[2], BOOL)))):
                raise Unsupported('negative symbol', n)
            x = lambda i: z3.Select(a.el.f['id'], I(i))
            k = z3.simplify(a.n).as_long()
            outs.append((s, c14.sym(FSYM(c14.strid(v[0]), I(k), x(0) if k > 0 else I(0), x(1) if k > 1 else I(0)))))
        return outs

    def f_to_string(self, args, n, st, fr, d0):
        return [(s, Opq('str', TOSTR(v[0]))) for s, v in self.evlist(args, st, fr)]

    def m_Model_thread_id(self, l, v, args, n, st, fr):
        return [(st, TID)]

    def m_Model_extend(self, l, v, args, n, st, fr):
        outs = []
        for s, vs in self.evlist(args, st, fr):
            s = s.copy()
            g = s.store[('glob', 'ext')]
            s.store[('glob', 'ext')] = Rec('Ext', {'n': g.f['n'] + 1, 'sum': MS(vs[0])})
            outs.append((s, NONE))
        return outs


def solver_c():
    return Contract(res=lambda c, s: Ref(LV(('glob', 'solver'))), requires=lambda c: [('own thread', c.o(0) == TID)])


def minc(c):
    return c.oglob(('glob', 'mcon'))


def cost(c):
    M = minc(c)
    return VALT(M.f['elements_']) - M.f['adjust_']


def vars_exist(c):
    el, S = minc(c).f['elements_'], c.oglob(('glob', 'solver'))
    v = z3.Select(el.el.f['second'], j_)
    return [('variables exist', z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < el.n), z3.And(v >= 0, v < S.f['var2vs_'].n)), patterns=[v]))]


def gm_inv(L):
    el = L.get(LV(('glob', 'mcon'))).f['elements_']
    return [('index', z3.And(0 <= L.k, L.k <= el.n)), ('value', L['bound'] == VALT(el, L.k))]


C = {'Clingcon::Propagator::solver_': solver_c()}
GM = Contract(requires=lambda c: vars_exist(c) + [('own thread', c.o(0) == TID), ('there is an objective', z3.Not(c.old.f['minimize_'].f['null']))],
              ensures=lambda c: [('value of the objective under the assignment of the thread', c.res == cost(c))])
UNITS = [c14.OBJ]
UNITS.append(Unit('C15', TU_, 'Propagator::get_minimize_value', GM, contracts=C, ovf={32}, eng=MExec, folds=[VALT], name='C15/get_minimize_value',
                  loops={('get_minimize_value', 0): LoopSpec(gm_inv)}, opts={'thisval': prop_this}))
UNITS.append(Unit('C15', TU_, 'Propagator::update_minimize', Contract(requires=lambda c: [('there is an objective', z3.Not(c.old.f['minimize_'].f['null']))], ensures=lambda c: [('bound', c.this.f['minimize_bound_'] == c.o(0))], modifies=[('this', 'minimize_bound_')]), contracts=C, ovf={32}, eng=MExec,
                  name='C15/update_minimize', opts={'thisval': prop_this}))

C['Clingcon::Solver::get_value'] = Contract(requires=lambda c: [('variable exists', z3.And(c.o(0) >= 0, c.o(0) < c.old.f['var2vs_'].n))], res=lambda c, s: lbv(c.old, c.o(0)))
UNITS.append(Unit('C15', 'src/solver.cc', 'Solver::get_value', Contract(requires=C['Clingcon::Solver::get_value'].requires, ensures=lambda c: [('lower bound', c.res == lbv(c.old, c.o(0)))]), eng=PropExec, name='C15/Solver::get_value', opts={'thisval': lambda e, st: solver_shape(e, 's')}))


# ------------------------------------------------------------ models
def om_setup(e, st, fd):
    st.store[('glob', 'ext')] = Rec('Ext', {'n': I(0), 'sum': fresh('extsum')})


def om_this(e, st):
    T = prop_this(e, st)
    n = fresh('nsyms')
    st.add(n >= 0)
    T.f['sym_map_'] = Vec(n, Rec('pair', {'first': Rec('Symbol', {'id': fresh('sm', z3.ArraySort(INT, INT))}), 'second': fresh('sv', z3.ArraySort(INT, INT))}))
    return T


def map_vars(c):
    v, S = c.old.f['sym_map_'], c.oglob(('glob', 'solver'))
    x = z3.Select(v.el.f['second'], j_)
    return [('mapped variables exist', z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < v.n), z3.And(x >= 0, x < S.f['var2vs_'].n)), patterns=[x]))]


def om_ens(c):
    g, T0, T = c.glob(('glob', 'ext')), c.old, c.this
    mn = T0.f['minimize_'].f['null']
    v = cost(c)
    b0, b1 = T0.f['minimize_bound_'], T.f['minimize_bound_']
    st = T.f['stats_step_'].f['cost']
    return [('the model is extended once', g.f['n'] == 1),
            ('shown variables with their values and the cost', g.f['sum'] == ES(T0.f['sym_map_']) + z3.If(mn, 0, WS(FSYM(COST, I(1), STRSYM(TOSTR(v)), I(0))))),
            ('next bound', b1 == z3.If(z3.And(z3.Not(mn), v <= b0), v - 1, b0)),
            ('cost statistics', z3.Implies(z3.And(z3.Not(mn), v <= b0), z3.And(st.f['has'], st.f['val'] == v)))]


def om_inv(L):
    return [('index', z3.And(0 <= L.k, L.k <= L.vec.n)), ('symbols so far', MS(L['symbols_']) == ES(L.vec, L.k))]


C = dict(C)
C['Clingcon::Propagator::get_minimize_value'] = Contract(requires=GM.requires, res=lambda c, s: cost(c))
C['Clingcon::Propagator::shown'] = Contract(res=lambda c, s: SHOWNV(c.o(0)))
OM = Unit('C15', TU_, 'Propagator::on_model', Contract(requires=lambda c: vars_exist(c) + map_vars(c), ensures=om_ens, modifies=[('this', 'minimize_bound_'), ('this', 'stats_step_', 'cost'), ('glob', ('glob', 'ext'))]), contracts=C, ovf={32}, eng=MExec, folds=[MS, ES, VALT],
          name='C15/on_model', setup=om_setup, loops={('on_model', 0): LoopSpec(om_inv)}, opts={'thisval': om_this, 'args': {0: lambda e, st: Opq('Model')}, 'foldall': True})
UNITS.append(OM)


# ------------------------------------------------------------ the solver's copy of the bound
def mk_this(e, st):
    st.store[('glob', 'todo')] = Rec('Todo', {'n': I(0)})
    return solver_shape(e, 's')


def mark(c, s):
    g = s.store[('glob', 'todo')]
    s.store[('glob', 'todo')] = Rec('Todo', {'n': g.f['n'] + 1})


def um_ens(c):
    b0, b1, lv, d = c.old.f['minimize_bound_'], c.this.f['minimize_bound_'], c.o(1), c.o(2)
    l0, l1 = c.old.f['minimize_level_'], c.this.f['minimize_level_']
    better = z3.Or(z3.Not(b0.f['has']), d < b0.f['val'])
    g = c.glob(('glob', 'todo'))
    return [('the bound is the smallest so far', z3.And(b1.f['has'], b1.f['val'] == z3.If(better, d, b0.f['val']))),
            ('propagated again if the bound is new or was set further up', z3.Implies(z3.Or(better, lv < l0), z3.And(g.f['n'] >= 1, l1 == lv))),
            ('otherwise unchanged', z3.Implies(z3.Not(z3.Or(better, lv < l0)), l1 == l0))]


C = {'Clingcon::Solver::constraint_state': Contract(res=lambda c, s: Opq('cstate')), 'Clingcon::Level::mark_todo': Contract(effect=mark)}
UM = Contract(ensures=um_ens, modifies=[('this', 'minimize_bound_'), ('this', 'minimize_level_'), ('glob', ('glob', 'todo'))])
UNITS.append(Unit('C15', 'src/solver.cc', 'Solver::update_minimize', UM, contracts=C, ovf={32}, eng=PropExec, name='C15/Solver::update_minimize', opts={'thisval': mk_this, 'args': {0: lambda e, st: Opq('constraint')}}))


# ------------------------------------------------------------ building the constraint
def cb_this(e, st):
    M = con_shape('MinimizeConstraintState')
    st.store[('glob', 'mcon')] = M
    st.add(z3.And(M.f['size_'] >= 0, M.f['size_'] < 2**31, M.f['adjust_'] >= -2**31, M.f['adjust_'] < 2**31))
    v = Vec(fresh('me.n'), Rec('pair', {'first': fresh('me.co', z3.ArraySort(INT, INT)), 'second': fresh('me.var', z3.ArraySort(INT, INT))}))
    st.add(v.n >= 0)
    st.store[('glob', 'prop')] = Rec('Clingcon::Propagator', {'config_': e.shape('Clingcon::Config', 'cfg')})
    return Rec('ConstraintBuilder', {'minimize_': Rec('unique_ptr', {'p': Ref(LV(('glob', 'mcon'))), 'null': fresh('nomin', BOOL)}), 'minimize_elems_': v, 'propagator_': Ref(LV(('glob', 'prop')))})


def ptrval(c, u, st):
    return c.e.load(st, u.f['p'].lv) if isinstance(u, Rec) else None


def objective(M):
    return LIN(M.f['elements_']) - M.f['adjust_']


def pm_ens(c):
    T = c.old
    M, isnull = minc(c), T.f['minimize_'].f['null']
    r = c.res
    if r is NULL or not isinstance(r, Rec):
        raise Unsupported('result of prepare_minimize')
    N = ptrval(c, r, c.post)
    el = T.f['minimize_elems_']
    return [('an objective exists if it did before or something was added', z3.Not(r.f['null']) == z3.Or(z3.Not(isnull), el.n > 0)),
            ('the objective is the old one plus the added terms', z3.Implies(z3.Not(r.f['null']), objective(N) == z3.If(isnull, 0, objective(M)) + LIN(el))),
            ('different variables, no zero coefficients', z3.Implies(z3.And(z3.Not(r.f['null']), z3.Or(z3.Not(isnull), el.n > 0)), z3.BoolVal(True)))]


def pm_inv(L):
    M = L.get(LV(('glob', 'mcon')))
    el, T0, T = M.f['elements_'], L.old(L.this), L.get(L.this)
    return [('index', z3.And(0 <= L.k, L.k <= el.n)), ('terms so far', z3.And(LIN(T.f['minimize_elems_']) == LIN(T0.f['minimize_elems_']) + LIN(el, L.k), T.f['minimize_elems_'].n == T0.f['minimize_elems_'].n + L.k))]


def create_res(c, s):
    M = con_shape('MinimizeConstraintState')
    root = ('glob', 'newmin')
    s.store[root] = M
    v = c.o(1)
    s.add(z3.And(M.f['adjust_'] == c.o(0), M.f['elements_'].n == v.n, LIN(M.f['elements_']) == LIN(v)))
    return Rec('unique_ptr', {'p': Ref(LV(root)), 'null': z3.BoolVal(False)})


CRE = Contract(res=create_res)
C = {'Clingcon::simplify': SIMP, 'simplify': SIMP, 'Clingcon::MinimizeConstraint::create': CRE}
C['Clingcon::safe_inv<int>'] = Contract(res=lambda c, s: -c.o(0), throws=lambda c: None)
UNITS.append(Unit('C15', TU_, 'ConstraintBuilder::prepare_minimize', Contract(requires=lambda c: [('a missing variable counts as 1', SG(I(INVALID)) == 1)], ensures=pm_ens, modifies=[('this',)], throws=lambda c: None), contracts=C, ovf={32}, eng=PropExec, folds=[LIN],
                  name='C15/prepare_minimize', loops={('prepare_minimize', 0): LoopSpec(pm_inv)}, opts={'thisval': cb_this, 'foldall': True}, skip_frame=True))
AM = Contract(ensures=lambda c: [('the term is added', LIN(c.this.f['minimize_elems_']) == LIN(c.old.f['minimize_elems_']) + c.o(0) * SG(c.o(1)))], modifies=[('this', 'minimize_elems_')])
UNITS.append(Unit('C15', TU_, 'ConstraintBuilder::add_minimize', AM, contracts=C, ovf={32}, eng=PropExec, folds=[LIN], name='C15/add_minimize', opts={'thisval': cb_this}))


# ------------------------------------------------------------ enforcing the bound during search
class ChkExec(PropExec):
    def m_PropagateControl_assignment(self, l, v, args, n, st, fr):
        return [(st, Opq('Assignment'))]

    def m_PropagateControl_thread_id(self, l, v, args, n, st, fr):
        return [(st, TID)]

    def construct(self, t, b, ta, cs, n, st, fr):
        if b == 'ControlClauseCreator':
            return [(s, Opq('cc')) for s, _ in self.evlist(cs[:1], st, fr)]
        return None


def ck_setup(e, st, fd):
    A = put_ass(st)
    st.add(z3.And(A.f['size'] >= 0, A.f['size'] < 2**32))
    st.store[('glob', 'log')] = Rec('Log', {'set': I(0), 'bound': fresh('b'), 'level': fresh('l'), 'checked': I(0), 'res': fresh('r', BOOL), 'full': I(0), 'fullarg': fresh('fa', BOOL)})


def ck_this(e, st):
    T = prop_this(e, st)
    st.store[('glob', 'solver')].f['statistics'] = Opq('stats')
    return T


def upd(**kw):
    def f(c, s):
        g = dict(s.store[('glob', 'log')].f)
        for k, v in kw.items():
            g[k] = v(c, s, g)
        s.store[('glob', 'log')] = Rec('Log', g)
    return f


def ck_ens(c):
    g, T = c.glob(('glob', 'log')), c.old
    A0, A = c.oglob(('glob', 'ass')), c.glob(('glob', 'ass'))
    M, b = minc(c), T.f['minimize_bound_']
    mn = T.f['minimize_'].f['null']
    active = z3.And(z3.Not(mn), b != NO_BOUND)
    full = z3.And(g.f['res'], A.f['size'] == A0.f['size'], A.f['total'])
    return [('the bound of the objective plus its offset is passed on before propagating', z3.Implies(active, z3.And(g.f['set'] == 1, g.f['bound'] == b + M.f['adjust_'], g.f['level'] == A0.f['DL']))),
            ('no bound without an objective', z3.Implies(z3.Not(active), g.f['set'] == 0)),
            ('constraints are propagated', g.f['checked'] == 1),
            ('total assignments are checked', g.f['full'] == z3.If(full, I(1), I(0))),
            ('the full check is skipped only on request or for objectives on the top level', z3.Implies(full, g.f['fullarg'] == z3.And(T.f['config_'].f['check_solution'], z3.Or(mn, A.f['DL'] > 0))))]


def order(name):
    return lambda c: [('bound first', c.oglob(('glob', 'log')).f['checked'] == 0)] if name == 'set' else [('once', c.oglob(('glob', 'log')).f['checked'] == 0)]


C = {'Clingcon::Propagator::solver_': solver_c(), 'Clingcon::Solver::statistics': Contract(res=lambda c, s: Opq('stats')),
     'Clingcon::Solver::update_minimize': Contract(requires=order('set'), effect=upd(set=lambda c, s, g: g['set'] + 1, bound=lambda c, s, g: c.o(2), level=lambda c, s, g: c.o(1))),
     'Clingcon::Solver::check': Contract(ret='bool', requires=order('chk'), modifies=[('glob', ('glob', 'ass'))], effect=upd(checked=lambda c, s, g: g['checked'] + 1, res=lambda c, s, g: c.res), facts=lambda c: [c.glob(('glob', 'ass')).f['DL'] == c.oglob(('glob', 'ass')).f['DL']], throws=lambda c: None),
     'Clingcon::Solver::check_full': Contract(effect=upd(full=lambda c, s, g: g['full'] + 1, fullarg=lambda c, s, g: c.o(1)), throws=lambda c: None)}
CHK = Unit('C15', TU_, 'Propagator::check', Contract(requires=lambda c: [('bounds fit', z3.And(c.old.f['minimize_bound_'] >= -2**62, z3.Or(c.old.f['minimize_bound_'] == NO_BOUND, c.old.f['minimize_bound_'] <= 2**62)))], ensures=ck_ens, modifies=[('glob', ('glob', 'ass')), ('glob', ('glob', 'log'))], throws=lambda c: None), contracts=C, ovf={32, 64}, eng=ChkExec, name='C15/Propagator::check',
            setup=ck_setup, opts={'thisval': ck_this, 'args': {0: lambda e, st: Opq('PropagateControl')}})
UNITS.append(CHK)


# ------------------------------------------------------------ translating the objective for clasp
WMIN = ('glob', 'wmin')


def tr_setup(e, st, fd):
    put_ass(st)
    st.store[WMIN] = Rec('WMin', {'sum': I(0), 'n': I(0)})


def tr_this(e, st):
    M = con_shape('MinimizeConstraintState')
    st.add(z3.And(M.f['adjust_'] >= MINV, M.f['adjust_'] <= MAXV))
    return Rec('MinimizeConstraintState', {'constraint_': M, 'lower_bound_': fresh('lo'), 'upper_bound_': fresh('up'), 'inactive_level_': fresh('il'), 'todo_': fresh('todo', BOOL)})


def tr_solver(e, st):
    S = solver_arg15(e, st)
    S.f['translate_minimize_'] = fresh('tm', BOOL)
    return S


def solver_arg15(e, st):
    from c01 import solver_arg
    return solver_arg(e, st)


def wadd(c, s):
    g = s.store[WMIN]
    s.store[WMIN] = Rec('WMin', {'sum': g.f['sum'] + z3.If(TT(c.o(0)), c.o(1), 0), 'n': g.f['n'] + 1})


WADD = Contract(requires=lambda c: [('priority 0', c.o(2) == 0)], effect=wadd)


def tr_req(c):
    from c01 import con_inv, con
    return solver_inv(c.o(1)) + con_inv(con(c), c.o(1)) + [('true literal', TT(I(1)))]


def tr_ens(c):
    g0, g = c.oglob(WMIN), c.glob(WMIN)
    M = c.old.f['constraint_']
    ok, tr = c.res.f['first'], c.res.f['second']
    d = g.f['sum'] - g0.f['sum']
    return [('no conflict', ok), ('forced translation', z3.Implies(z3.Or(c.o(1).f['translate_minimize_'], c.o(0).f['translate_minimize'] == 2**32 - 1), tr)),
            ('the added costs sum up to the value of the objective', z3.Implies(tr, d == LIN(M.f['elements_']) - M.f['adjust_'])),
            ('nothing added otherwise', z3.Implies(z3.Not(tr), g.f['n'] == 0)),
            ('later objectives are translated, too', z3.Implies(tr, c.a(1).f['translate_minimize_']))]


def tr_inv0(L):
    M = L.get(L.this).f['constraint_']
    el, A = M.f['elements_'], L.get(ASS)
    return [('index', z3.And(0 <= L.k, L.k <= el.n)), ('assignment', z3.And(*true_lit(A))), ('level', A.f['DL'] == L.old(ASS).f['DL']),
            ('costs so far', L.get(LV(WMIN)).f['sum'] == LIN(el, L.k) - M.f['adjust_'])]


def tr_inv1(L):
    S, M = L.get(LV(('param', 1))), L.get(L.this).f['constraint_']
    el, k, A = M.f['elements_'], L.outer_k(), L.get(ASS)
    co, v = z3.Select(el.el.f['first'], k), z3.Select(el.el.f['second'], k)
    lo, hi, x, s = minb(S, v), maxb(S, v), L['value'], L.get(LV(WMIN)).f['sum']
    base = LIN(el, k) - M.f['adjust_'] + co * lo
    return [('value', z3.And(lo <= x, x <= hi)), ('assignment', z3.And(*true_lit(A))), ('level', A.f['DL'] == L.old(ASS).f['DL']), ('range', z3.And(lo <= SG(v), SG(v) <= hi)),
            ('above', z3.Implies(SG(v) >= x, s == base + co * (x - lo))), ('below', z3.Implies(SG(v) < x, s == base + co * (SG(v) - lo)))]


C = std_contracts()
C['Clingcon::InitClauseCreator::add_minimize'] = WADD
C['Clingcon::safe_mul<int>'] = Contract(res=lambda c, s: c.o(0) * c.o(1), throws=lambda c: None, ensures=lambda c: [('fits', z3.And(c.res >= -2**31, c.res < 2**31))])
from c01 import con_inv, con
MTR = Contract(requires=tr_req, ensures=tr_ens, modifies=[(1, 'translate_minimize_'), ('glob', WMIN), ('glob', ('glob', 'ass'))], throws=lambda c: None)
C['Clingcon::MinimizeConstraintState::required_literals'] = Contract(ret='long')
UNITS.append(Unit('C15', 'src/constraints.cc', 'MinimizeConstraintState::translate', MTR, contracts=C, ovf={32}, eng=PropExec, folds=[LIN], name='C15/MinimizeConstraintState::translate', setup=tr_setup,
                  loops={('translate', 0): LoopSpec(tr_inv0), ('translate', 1): LoopSpec(tr_inv1)}, opts={'thisval': tr_this, 'args': {1: tr_solver}}))
