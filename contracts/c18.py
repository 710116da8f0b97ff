"""C18: indices, symbols and values seen by users are consistent.

A symbol is a number; the two maps of the propagator are arrays over symbols
and indices with a domain each."""
import copy
import z3
from sem import *
from engine import NONE, StrV, Opq, Unsupported, Rec, Vec, Ref, MapV, NULL, coerce
from execu import It, _cnt_
import c09, c14, c15
from c14 import STYPE, SNAME, SNARG, SNUM, EVAL, FUNCTION, NUMBER, sym, strid, targ, tmatch
from c15 import TID, MExec, prop_this, solver_c
from c03 import Lemma

HDR, SOL, API = 'src/propagator.cc', 'src/solver.cc', 'src/clingcon.cc'
SIGN = z3.Function('SIGNATURE', INT, INT, INT)
s_, v_ = z3.Int('s!18'), z3.Int('v!18')
IA, BA = z3.ArraySort(INT, INT), z3.ArraySort(INT, BOOL)
sel = z3.Select


class ShowExec(MExec):
    def construct(self, t, b, ta, cs, n, st, fr):
        if b == 'Signature' and len(cs) >= 2:
            return [(s, Rec('Signature', {'id': SIGN(strid(v[0]), v[1])})) for s, v in self.evlist(cs[:2], st, fr)]
        if b == 'Symbol' and len(cs) == 1:
            outs = []
            for s, v in self.evlist(cs, st, fr):
                x = self.load(s, v[0].lv) if isinstance(v[0], Ref) else v[0]
                outs.append((s, x if isinstance(x, Rec) else sym(x)))
            return outs
        if b == 'Model':
            return [(st, Opq('Model'))]
        return MExec.construct(self, t, b, ta, cs, n, st, fr)

    def m_MapV_emplace(self, l, v, args, n, st, fr):
        if v.val is None and len(args) == 2 and isinstance(v.aux, Opq) and v.aux.name == 'sym':
            return [self.map_insert(l, self.load(s, l), SIGN(strid(x[0]), x[1]), None, s, n) for s, x in self.evlist(args, st, fr)]
        return MExec.m_MapV_emplace(self, l, v, args, n, st, fr)

    def m_Symbol_to_c(self, l, v, args, n, st, fr):
        return [(st, v.f['id'])]


def maps(e, st, T):
    T.f['sym_map_'] = MapV(fresh('sm.d', BA), fresh('sm.v', IA), Opq('sym'))
    T.f['var_map_'] = MapV(fresh('vm.d', BA), Rec('Symbol', {'id': fresh('vm.v', IA)}))
    T.f['show_'] = fresh('show', BOOL)
    T.f['show_variable_'] = MapV(fresh('sv.d', BA), None)
    T.f['show_signature_'] = MapV(fresh('ss.d', BA), None, Opq('sym'))
    T.f['stats_step_'] = Rec('Statistics', {'num_variables': fresh('nv'), 'cost': T.f['stats_step_'].f['cost']})
    st.add(T.f['stats_step_'].f['num_variables'] >= 0)
    return T


def this(e, st):
    return maps(e, st, prop_this(e, st))


def parts(T):
    m, w = T.f['sym_map_'], T.f['var_map_']
    return m.dom, m.val, w.dom, w.val.f['id']


def bij(T, S):
    """the maps are inverse to each other and speak about existing variables"""
    d1, f, d2, g = parts(T)
    i, s = sel(f, s_), sel(g, v_)
    return [('the index of a symbol is mapped back to it', z3.ForAll([s_], z3.Implies(sel(d1, s_), z3.And(sel(d2, i), sel(g, i) == s_)), patterns=[sel(d1, s_)])),
            ('the symbol of an index is mapped back to it', z3.ForAll([v_], z3.Implies(sel(d2, v_), z3.And(sel(d1, s), sel(f, s) == v_)), patterns=[sel(d2, v_)])),
            ('indices belong to variables', z3.ForAll([v_], z3.Implies(sel(d2, v_), z3.And(0 <= v_, v_ < S.f['var2vs_'].n)), patterns=[sel(d2, v_)]))]


UNITS = []
SV = ('glob', 'solver')

# ------------------------------------------------------------ lookups
GI = Contract(ensures=lambda c: [('the index of the symbol, if it has one', z3.And(c.res.f['has'] == sel(parts(c.old)[0], c.o(0).f['id']), z3.Implies(c.res.f['has'], c.res.f['val'] == sel(parts(c.old)[1], c.o(0).f['id']))))])
UNITS.append(Unit('C18', HDR, 'Propagator::get_index', GI, contracts={}, ovf={32}, eng=ShowExec, name='C18/get_index', opts={'thisval': this}))


def gs_ens(c):
    d, g = parts(c.old)[2:]
    return [('the symbol of the index, if it has one', z3.And(c.res.f['has'] == sel(d, c.o(0)), z3.Implies(c.res.f['has'], c.res.f['val'].f['id'] == sel(g, c.o(0)))))]


GS = Contract(ensures=gs_ens)
UNITS.append(Unit('C18', HDR, 'Propagator::get_symbol', GS, contracts={}, ovf={32}, eng=ShowExec, name='C18/get_symbol', opts={'thisval': this}))


def optsym(c, s):
    d, g = parts(c.old)[2:]
    return Rec('optional', {'has': sel(d, c.o(0)), 'val': sym(sel(g, c.o(0)))})


def optidx(c, s):
    d, f = parts(c.old)[:2]
    return Rec('optional', {'has': sel(d, c.o(0).f['id']), 'val': sel(f, c.o(0).f['id'])})


GSC, GIC = Contract(res=optsym), Contract(res=optidx)


# ------------------------------------------------------------ new variables
def sv_ens(c):
    S0, S = c.old, c.this
    a, b = S0.f['var2vs_'], S.f['var2vs_']
    f = lambda v, x: sel(v.el.f[x], a.n)
    return [('the next index', c.res == a.n), ('one more variable', z3.And(b.n == a.n + 1, S.f['var_watches_'].n == b.n, S.f['ldiff_'].n == b.n, S.f['udiff_'].n == b.n)),
            ('its range', z3.And(f(b, 'lower_bound_') == c.o(0), f(b, 'upper_bound_') == c.o(1), f(b, 'var_') == a.n)),
            ('no pending changes', z3.And(sel(S.f['ldiff_'].el, a.n) == 0, sel(S.f['udiff_'].el, a.n) == 0)),
            ('other variables keep their bounds', z3.ForAll([v_], z3.Implies(z3.And(0 <= v_, v_ < a.n), z3.And(*[sel(b.el.f[x], v_) == sel(a.el.f[x], v_) for x in ('lower_bound_', 'upper_bound_')])), patterns=[sel(b.el.f['lower_bound_'], v_), sel(b.el.f['upper_bound_'], v_)]))]


class SolExec(PropExec):
    def union_fields(self, t):
        if t.split('::')[-1] != 'VarState':
            return {}
        return {'litmap_': MapV(z3.K(INT, z3.BoolVal(False)), fresh('lm', IA)), 'litvec_': Vec(I(0), fresh('lv', IA)), '#active': I(0)}


def sol_this(e, st):
    iv = lambda nm: Vec(fresh(nm + '.n'), fresh(nm, IA))
    S = solver_shape(e, 's', {'ldiff_': iv('ldiff'), 'udiff_': iv('udiff'), 'var_watches_': Vec(fresh('vw.n'), Vec(fresh('vw.k', IA), Rec('pair', {'first': fresh('vw.co', z3.ArraySort(INT, IA)), 'second': Rec('Ptr', {'id': fresh('vw.cs', z3.ArraySort(INT, IA))})})))})
    S.f['var2vs_'] = vec_of(c09.vs_full(e, 'vs'), 'vs')
    return S


SADD_REQ = lambda c: [('fewer than 2^32 variables', z3.And(c.old.f['var2vs_'].n >= 0, c.old.f['var2vs_'].n < 2**32 - 1))]
SADD = Contract(requires=lambda c: SADD_REQ(c) + [('tables have one entry per variable', z3.And(*[c.old.f[x].n == c.old.f['var2vs_'].n for x in ('var_watches_', 'ldiff_', 'udiff_')]))], ensures=sv_ens,
                modifies=[('this', 'var2vs_'), ('this', 'var_watches_'), ('this', 'ldiff_'), ('this', 'udiff_')])
UNITS.append(Unit('C18', SOL, 'Solver::add_variable', SADD, contracts={}, ovf={32}, eng=SolExec, name='C18/Solver::add_variable', opts={'thisval': sol_this}))


def sadd_ens(c):
    a, b = c.old.f['var2vs_'], c.this.f['var2vs_']
    f = lambda v, x: sel(v.el.f[x], a.n)
    return [('the next index', c.res == a.n), ('one more variable', b.n == a.n + 1), ('its range', z3.And(f(b, 'lower_bound_') == c.o(0), f(b, 'upper_bound_') == c.o(1))),
            ('other variables keep their bounds', z3.ForAll([v_], z3.Implies(z3.And(0 <= v_, v_ < a.n), z3.And(*[sel(b.el.f[x], v_) == sel(a.el.f[x], v_) for x in ('lower_bound_', 'upper_bound_')])), patterns=[sel(b.el.f['lower_bound_'], v_), sel(b.el.f['upper_bound_'], v_)]))]


def av_ens(c):
    T0, T = c.old, c.this
    S0, S = c.oglob(SV), c.glob(SV)
    d0, f0, e0, g0 = parts(T0)
    d1, f1, e1, g1 = parts(T)
    x = c.o(0).f['id']
    known = sel(d0, x)
    n0, n = S0.f['var2vs_'].n, S.f['var2vs_'].n
    lo, hi = [sel(S.f['var2vs_'].el.f[k], n0) for k in ('lower_bound_', 'upper_bound_')]
    cfg = T0.f['config_']
    return bij(T, S) + [
        ('the symbol has the returned index', z3.And(sel(d1, x), sel(f1, x) == c.res)),
        ('other symbols keep their index', z3.ForAll([s_], z3.Implies(z3.Or(s_ != x, known), z3.And(sel(d1, s_) == sel(d0, s_), z3.Implies(sel(d0, s_), sel(f1, s_) == sel(f0, s_)))), patterns=[sel(d1, s_)])),
        ('a known symbol introduces nothing', z3.Implies(known, n == n0)),
        ('a new symbol introduces one variable over the configured range', z3.Implies(z3.Not(known), z3.And(n == n0 + 1, c.res == n0, lo == cfg.f['min_int'], hi == cfg.f['max_int']))),
        ('variables are counted', T.f['stats_step_'].f['num_variables'] == T0.f['stats_step_'].f['num_variables'] + z3.If(known, 0, 1))]


C = {'Clingcon::Propagator::master_': Contract(res=lambda c, s: Ref(LV(SV))), 'Clingcon::Solver::add_variable': Contract(requires=SADD_REQ, ret='unsigned int', ensures=sadd_ens, modifies=[('this', 'var2vs_')])}
AV = Contract(requires=lambda c: bij(c.old, c.oglob(SV)) + [('variables are numbered', z3.And(c.oglob(SV).f['var2vs_'].n >= 0, c.oglob(SV).f['var2vs_'].n < 2**32 - 1, c.old.f['stats_step_'].f['num_variables'] < 2**60))], ensures=av_ens,
              modifies=[('this', 'sym_map_'), ('this', 'var_map_'), ('this', 'stats_step_', 'num_variables'), ('glob', SV)])
UNITS.append(Unit('C18', HDR, 'Propagator::add_variable', AV, contracts=C, ovf={32}, eng=ShowExec, name='C18/add_variable', opts={'thisval': this}))


# ------------------------------------------------------------ what is shown
def is_shown(T, v):
    d, g = parts(T)[2:]
    s = sel(g, v)
    sv, ss = T.f['show_variable_'].dom, T.f['show_signature_'].dom
    return z3.And(sel(d, v), z3.Or(z3.Not(T.f['show_']), sel(sv, v), z3.And(STYPE(s) == FUNCTION, sel(ss, SIGN(SNAME(s), SNARG(s))))))


C = {'Clingcon::Propagator::get_symbol': GSC}
UNITS.append(Unit('C18', HDR, 'Propagator::shown', Contract(ensures=lambda c: [('named variables selected by show statements', c.res == is_shown(c.old, c.o(0)))]), contracts=C, ovf={32}, eng=ShowExec, name='C18/shown', opts={'thisval': this}))


def grows(name, key):
    def ens(c):
        a, b = c.old.f[name].dom, c.this.f[name].dom
        return [('exactly this is added', z3.ForAll([v_], sel(b, v_) == z3.Or(sel(a, v_), v_ == key(c)), patterns=[sel(b, v_)]))]
    return Contract(ensures=ens, modifies=[('this', name)])


UNITS.append(Unit('C18', HDR, 'Propagator::show_variable', grows('show_variable_', lambda c: c.o(0)), contracts={}, ovf={32}, eng=ShowExec, name='C18/show_variable', opts={'thisval': this}))
UNITS.append(Unit('C18', HDR, 'Propagator::show_signature', grows('show_signature_', lambda c: SIGN(strid(c.o(0)), c.o(1))), contracts={}, ovf={32}, eng=ShowExec, name='C18/show_signature', opts={'thisval': this, 'args': {0: lambda e, st: Opq('str', fresh('name'))}}))
UNITS.append(Unit('C18', HDR, 'Propagator::show', Contract(ensures=lambda c: [('showing is restricted', c.this.f['show_'])], modifies=[('this', 'show_')]), contracts={}, ovf={32}, eng=ShowExec, name='C18/show', opts={'thisval': this}))


# ------------------------------------------------------------ values
GV = Contract(requires=lambda c: [('variable exists', z3.And(c.o(0) >= 0, c.o(0) < c.oglob(SV).f['var2vs_'].n)), ('own thread', c.o(1) == TID)], ensures=lambda c: [('value in the solver of the thread', c.res == lbv(c.oglob(SV), c.o(0)))])
C = {'Clingcon::Propagator::solver_': solver_c(), 'Clingcon::Solver::get_value': Contract(requires=lambda c: [('variable exists', z3.And(c.o(0) >= 0, c.o(0) < c.old.f['var2vs_'].n))], res=lambda c, s: lbv(c.old, c.o(0)))}
UNITS.append(Unit('C18', HDR, 'Propagator::get_value', GV, contracts=C, ovf={32}, eng=ShowExec, name='C18/get_value', opts={'thisval': this}))
for u in c15.UNITS:
    if u.name in ('C15/on_model', 'C15/Solver::get_value', 'C15/get_minimize_value'):
        w = copy.copy(u)
        w.prop, w.name = 'C18', u.name.replace('C15', 'C18')
        UNITS.append(w)


# ------------------------------------------------------------ the C interface
TH, IX = ('glob', 'theory'), ('glob', 'index')
MAXIX = 2**64


def th_setup(e, st, fd):
    st.store[TH] = Rec('clingcon_theory', {'propagator': this(e, st)})
    st.store[IX] = fresh('index')
    st.add(z3.And(st.store[IX] >= 0, st.store[IX] < MAXIX))
    st.store[('glob', 'value')] = Rec('clingcon_value', {'type': fresh('vtype'), 'int_number': fresh('vnum')})


def th(c):
    return c.oglob(TH).f['propagator']


ARGS = {'theory': lambda e, st: Ref(LV(TH)), 'ix': lambda e, st: Ref(LV(IX)), 'val': lambda e, st: Ref(LV(('glob', 'value')))}
CC = {'Clingcon::Propagator::get_index': GIC, 'Clingcon::Propagator::get_symbol': GSC,
      'Clingcon::Propagator::get_value': Contract(requires=GV.requires, res=lambda c, s: lbv(c.oglob(SV), c.o(0)))}


def api(fn, con, args, contracts=CC):
    UNITS.append(Unit('C18', API, fn, con, contracts=contracts, ovf={32}, eng=ShowExec, name='C18/' + fn, setup=th_setup, opts={'args': args}))


def wf(c):
    return bij(th(c), c.oglob(SV)) + [('variables are numbered', c.oglob(SV).f['var2vs_'].n < 2**32)]


def ls_ens(c):
    d, f = parts(th(c))[:2]
    x = c.o(1)
    return [('found iff the symbol is a variable', c.res == sel(d, x)), ('one more than its index', c.glob(IX) == z3.If(sel(d, x), sel(f, x) + 1, c.oglob(IX)))]


api('clingcon_lookup_symbol', Contract(requires=wf, ensures=ls_ens, modifies=[('glob', IX)]), {0: ARGS['theory'], 2: ARGS['ix']})
valid = lambda c, i: sel(parts(th(c))[2], i - 1)
api('clingcon_get_symbol', Contract(requires=lambda c: wf(c) + [('valid index', z3.And(valid(c, c.o(1)), c.o(1) >= 1))], ensures=lambda c: [('the symbol with this index', c.res == sel(parts(th(c))[3], c.o(1) - 1)),
    ('partner of lookup', z3.And(sel(parts(th(c))[0], c.res), sel(parts(th(c))[1], c.res) + 1 == c.o(1)))]), {0: ARGS['theory']})
api('clingcon_assignment_begin', Contract(ensures=lambda c: [('start', c.glob(IX) == 0)], modifies=[('glob', IX)]), {0: ARGS['theory'], 2: ARGS['ix']})


def nx_ens(c):
    d = parts(th(c))[2]
    i0, i = c.oglob(IX), c.glob(IX)
    q = v_
    return [('finds a variable', z3.Implies(c.res, z3.And(i >= 1, sel(d, i - 1), i - 1 >= i0))), ('skips none', z3.ForAll([q], z3.Implies(z3.And(sel(d, q), q >= i0), z3.And(c.res, q >= i - 1)), patterns=[sel(d, q)])),
            ('unchanged at the end', z3.Implies(z3.Not(c.res), i == i0))]


api('clingcon_assignment_next', Contract(requires=lambda c: wf(c) + [('from the start or a previous call', c.oglob(IX) < 2**32)], ensures=nx_ens, modifies=[('glob', IX)]), {0: ARGS['theory'], 2: ARGS['ix']})
api('clingcon_assignment_has_value', Contract(requires=lambda c: wf(c) + [('from a previous call', z3.And(c.o(2) >= 1, c.o(2) <= 2**32))], ensures=lambda c: [('exactly the variables with a symbol have a value', c.res == valid(c, c.o(2)))]), {0: ARGS['theory']})


def gv_ens(c):
    v = c.glob(('glob', 'value'))
    return [('a number', v.f['type'] == 0), ('value of the variable in the solver of the thread', v.f['int_number'] == lbv(c.oglob(SV), c.o(2) - 1))]


api('clingcon_assignment_get_value', Contract(requires=lambda c: wf(c) + [('valid index', z3.And(c.o(2) >= 1, valid(c, c.o(2)))), ('thread', c.o(1) == TID)], ensures=gv_ens, modifies=[('glob', ('glob', 'value'))]), {0: ARGS['theory'], 3: ARGS['val']})


def iteration():
    """calls of next from the start visit every variable exactly once"""
    D = z3.Const('D', BA)
    i, j, v = z3.Ints('i j v')
    r = z3.Bool('r')
    vis = z3.Const('visited', BA)
    inv = lambda V, k: z3.ForAll([v], sel(V, v) == z3.And(sel(D, v), v < k), patterns=[sel(V, v)])
    nxt = [z3.Implies(r, z3.And(j >= 1, sel(D, j - 1), j - 1 >= i)), z3.ForAll([v], z3.Implies(z3.And(sel(D, v), v >= i), z3.And(r, v >= j - 1)), patterns=[sel(D, v)])]
    nat = z3.ForAll([v], z3.Implies(sel(D, v), v >= 0), patterns=[sel(D, v)])
    return [('nothing-visited-at-the-start', [nat, z3.ForAll([v], z3.Not(sel(vis, v)), patterns=[sel(vis, v)])], inv(vis, I(0))),
            ('next-visits-a-new-variable', [nat, inv(vis, i), r] + nxt, z3.Not(sel(vis, j - 1))),
            ('visited-so-far', [nat, inv(vis, i), r] + nxt, inv(z3.Store(vis, j - 1, z3.BoolVal(True)), j)),
            ('all-visited-at-the-end', [nat, inv(vis, i), z3.Not(r)] + nxt, z3.ForAll([v], z3.Implies(sel(D, v), sel(vis, v))))]


UNITS.append(Lemma('C18', 'C18/iteration', iteration))

# ------------------------------------------------------------ show statements
IDX = z3.Function('IDX', INT, INT)                  # index of a symbol
WV, WG = z3.Function('WSHOWVAR', INT, INT), z3.Function('WSHOWSIG', INT, INT, INT)     # arbitrary weights: multisets
SHW = ('glob', 'shw')
PTU = 'src/parsing.cc'


def shw(c, s, w, **kw):
    g = dict(s.store[SHW].f)
    g['sum'] = g['sum'] + w
    g.update(kw)
    s.store[SHW] = Rec('Shw', g)


def elem_w(t):
    a, b = EVAL(targ(t, I(0))), EVAL(targ(t, I(1)))
    return z3.If(tmatch(t, '/', 2), WG(SNAME(a), z3.If(SNUM(b) >= 0, SNUM(b), SNUM(b) + 2**64)), WV(IDX(EVAL(t))))


def elem_ok(t):
    a, b = EVAL(targ(t, I(0))), EVAL(targ(t, I(1)))
    return z3.If(tmatch(t, '/', 2), z3.And(STYPE(a) == FUNCTION, SNARG(a) == 0, STYPE(b) == NUMBER), STYPE(EVAL(t)) != NUMBER)


SHE = Fold('she', c14.elempick, lambda e: elem_w(c14.first(e)), 'sum', [INT])
AB = 'Clingcon::AbstractConstraintBuilder::'
C = dict(c14.EVC)
C[AB + 'add_variable'] = Contract(res=lambda c, s: IDX(c.o(0).f['id']), throws=lambda c: None)
C[AB + 'show_signature'] = Contract(effect=lambda c, s: shw(c, s, WG(strid(c.o(0)), c.o(1))))
C[AB + 'show_variable'] = Contract(effect=lambda c, s: shw(c, s, WV(c.o(0))))
C[AB + 'add_show'] = Contract(effect=lambda c, s: shw(c, s, 0, on=z3.BoolVal(True)))


def shw_setup(e, st, fd):
    st.store[SHW] = Rec('Shw', {'sum': fresh('shw'), 'on': fresh('on', BOOL)})


def dshow(c):
    return c.glob(SHW).f['sum'] - c.oglob(SHW).f['sum']


ELE = Contract(ensures=lambda c: [('exactly the denoted variable or signature is shown', dshow(c) == elem_w(c.o(1).f['id'])), ('malformed elements are rejected', elem_ok(c.o(1).f['id'])), ('switch', c.glob(SHW).f['on'] == c.oglob(SHW).f['on'])],
               modifies=[('glob', SHW)], throws=lambda c: None)
UNITS.append(Unit('C18', PTU, 'parse_show_elem', ELE, contracts=C, ovf={32}, eng=c14.AtomExec, name='C18/parse_show_elem', setup=shw_setup))
C = dict(C)
C['parse_show_elem'] = C['Clingcon::(anonymous namespace)::parse_show_elem'] = ELE


def ps_inv(L):
    g, g0 = L.get(LV(SHW)).f, L.old(LV(SHW)).f
    return [('index', z3.And(0 <= L.k, L.k <= L.vec.n)), ('shown so far', g['sum'] == g0['sum'] + SHE(L.vec, L.k)), ('switch', g['on'])]


UNITS.append(Unit('C18', PTU, 'parse_show', Contract(ensures=lambda c: [('all elements are shown', dshow(c) == SHE(c14.atomels(c.o(1).f['id']))), ('showing is restricted', c.glob(SHW).f['on'])], modifies=[('glob', SHW)], throws=lambda c: None), contracts=C, ovf={32}, eng=c14.AtomExec, folds=[SHE],
                  name='C18/parse_show', setup=shw_setup, loops={('parse_show', 0): LoopSpec(ps_inv)}))
