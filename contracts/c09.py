"""C09: the order literal table behaves as an ordered map in both encodings."""
import z3
from sem import *
from engine import NONE, Unsupported, Rec, Vec, MapV, Ref, LV, It
from spec import LoopSpec, Contract, Unit

TU_ = 'src/solver.cc'
UNUSED = -2**31
M = 2**30 - 1
A1, AB = z3.ArraySort(INT, INT), z3.ArraySort(INT, BOOL)
w_, u_ = z3.Ints('w!09 u!09')
VS = 'Clingcon::VarState'


def vs_full(e, name):
    v = vs_shape(e, name)
    v.f['litmap_'] = MapV(fresh(name + '.dom', AB), fresh(name + '.map', A1))
    v.f['litvec_'] = Vec(fresh(name + '.vn'), fresh(name + '.vec', A1))
    v.f['#active'] = fresh(name + '.active')
    return v


def sparse(v):
    return v.f['offset_'] == UNUSED


def tab(v, x):
    """the literal recorded for value x, or 0"""
    off, n = v.f['offset_'], v.f['litvec_'].n
    return z3.If(sparse(v), z3.If(z3.Select(v.f['litmap_'].dom, x), z3.Select(v.f['litmap_'].val, x), 0),
                 z3.If(z3.And(off <= x, x < off + n), z3.Select(v.f['litvec_'].el, x - off), 0))


def minb(v):
    s = v.f['lower_bound_stack_']
    return z3.If(s.n == 0, v.f['lower_bound_'], z3.Select(s.el.f['second'], 0))


def maxb(v):
    s = v.f['upper_bound_stack_']
    return z3.If(s.n == 0, v.f['upper_bound_'], z3.Select(s.el.f['second'], 0))


def rep(v, hole=None):
    """representation invariant; `hole`: a key that may be mapped to 0"""
    off, n, m = v.f['offset_'], v.f['litvec_'].n, v.f['litmap_']
    d = z3.Select(m.dom, w_)
    nz = z3.Select(m.val, w_) != 0
    if hole is not None:
        nz = z3.Or(w_ == hole, nz)
    return [('active member', v.f['#active'] == z3.If(sparse(v), 1, 2)),
            ('keys', z3.Implies(sparse(v), z3.ForAll([w_], z3.Implies(d, z3.And(nz, w_ >= -M, w_ <= M)), patterns=[d]))),
            ('window', z3.Implies(z3.Not(sparse(v)), z3.And(n >= 0, off <= minb(v), maxb(v) <= off + n, off >= -M, off + n <= M))),
            ('bounds', z3.And(minb(v) <= maxb(v), minb(v) >= -M, maxb(v) <= M)),
            ('stacks', z3.And(v.f['lower_bound_stack_'].n >= 0, v.f['upper_bound_stack_'].n >= 0))]


def same(a, b, at=None, val=None):
    """a is b, except that `at` is mapped to `val`"""
    t = tab(b, w_)
    if at is not None:
        t = z3.If(w_ == at, val, t)
    return z3.ForAll([w_], tab(a, w_) == t)


def inwin(v, x):
    return z3.And(minb(v) <= x, x < maxb(v))


def rest(a, b):
    """everything but the table"""
    fs = ['var_', 'lower_bound_', 'upper_bound_']
    out = [a.f[f] == b.f[f] for f in fs]
    for s in ('lower_bound_stack_', 'upper_bound_stack_'):
        out.append(a.f[s].n == b.f[s].n)
        for p in ('first', 'second'):
            out.append(z3.ForAll([w_], z3.Implies(z3.And(0 <= w_, w_ < a.f[s].n), z3.Select(a.f[s].el.f[p], w_) == z3.Select(b.f[s].el.f[p], w_))))
    return z3.And(*out)


UNITS = []
CONTRACTS = {}
MOD = [('this',)]


def this_(e, st):
    return vs_full(e, 'this')


def add(fn, ct, nparams, name=None, loops=None, **kw):
    opts = dict(thisval=this_)
    opts.update(kw.pop('opts', {}))
    UNITS.append(Unit('C09', TU_, fn, ct, nparams=nparams, rec=VS, loops=loops or {}, name='C09/VarState::%s' % (name or fn), opts=opts, contracts=kw.pop('contracts', {}), **kw))


def req(*extra):
    return lambda c: rep(c.old) + [x(c) for x in extra]


val_ok = lambda c: ('value', z3.And(c.o(0) >= -M, c.o(0) <= M))
win = lambda c: ('value in range', z3.Implies(z3.Not(sparse(c.old)), z3.Or(inwin(c.old, c.o(0)), tab(c.old, c.o(0)) != 0)))
winb = lambda c: ('value in range or recorded', z3.Or(inwin(c.old, c.o(0)), tab(c.old, c.o(0)) != 0))

add('has_literal', Contract(requires=req(win), ensures=lambda c: [('recorded', c.res == (tab(c.old, c.o(0)) != 0))]), 1)
add('get_literal', Contract(requires=req(win), ensures=lambda c: [
    ('recorded', c.res.f['has'] == (tab(c.old, c.o(0)) != 0)), ('literal', z3.Implies(c.res.f['has'], c.res.f['val'] == tab(c.old, c.o(0))))]), 1)
MOG = {'Clingcon::VarState::mogrify_': Contract(requires=req(), ensures=lambda c: rep(c.this) + [
    ('same table', same(c.this, c.old)), ('rest', rest(c.this, c.old)), ('dense afterwards', z3.Implies(c.res, z3.Not(sparse(c.this)))),
    ('unchanged', z3.Implies(z3.Not(c.res), c.this.f['offset_'] == c.old.f['offset_']))], modifies=MOD)}
MOG['Clingcon::VarState::mogrify_'].requires = lambda c: rep(c.old) + [('sparse', sparse(c.old))]


def rng_inv(L):
    """the vector holds the literals of the keys before the iterator, and 0 elsewhere"""
    t = L.get(L.this)
    m = t.f['litmap_']
    vec = L.only(Vec)
    it = L.mit()
    off = minb(t)
    key = z3.Select(m.dom, w_)
    done = z3.And(key, z3.Or(it.end, w_ < it.k))
    x = z3.Select(vec.el, w_ - off)
    return [('size', vec.n == maxb(t) - off),
            ('keys in window', z3.ForAll([w_], z3.Implies(key, inwin(t, w_)), patterns=[key])),
            ('iterator', z3.Or(it.end, z3.Select(m.dom, it.k))),
            ('copied', z3.ForAll([w_], z3.Implies(z3.And(off <= w_, w_ < off + vec.n), x == z3.If(done, z3.Select(m.val, w_), 0))))]


add('mogrify_', MOG['Clingcon::VarState::mogrify_'], 0, loops={('VarState::mogrify_', 0): LoopSpec(inv=rng_inv)})
add('set_literal', Contract(requires=req(winb, lambda c: ('literal', c.o(1) != 0)), ensures=lambda c: rep(c.this) + [
    ('recorded', same(c.this, c.old, c.o(0), c.o(1))), ('rest', rest(c.this, c.old))], modifies=MOD), 2, contracts=MOG)
add('unset_literal', Contract(requires=req(win), ensures=lambda c: rep(c.this) + [
    ('removed', same(c.this, c.old, c.o(0), I(0))), ('rest', rest(c.this, c.old))], modifies=MOD), 1)


def goa_ens(c):
    """the reference denotes the entry of the value"""
    lv = c.res_.lv
    v = c.this
    x = c.e.load(c.post, lv)
    new = fresh('written')
    st2 = c.e.save(c.post, lv, new)
    v2 = st2.store[('this',)]
    return rep(v, hole=c.o(0)) + [('same table', same(v, c.old)), ('rest', rest(v, c.old)), ('refers to the entry', x == tab(c.old, c.o(0))),
                                  ('writes the entry', same(v2, c.old, c.o(0), new))]


add('get_or_add_literal', Contract(requires=req(winb), ensures=goa_ens, modifies=MOD), 1, contracts=MOG)


def side(op):
    return dict(lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b)[op]


def nearest(c, op, w, lit):
    """w is the recorded value next to the given one on that side"""
    cmp, v = side(op), c.o(0)
    closer = (w < u_) if op[0] == 'l' else (u_ < w)
    return z3.And(cmp(w, v), tab(c.old, w) == lit, lit != 0, z3.ForAll([u_], z3.Implies(z3.And(cmp(u_, v), closer), tab(c.old, u_) == 0)))


def some(c, op, lit):
    """some recorded value is the nearest; values of vector iterators serve as witnesses"""
    ws = []
    for v in (c.post.store.values() if c.post is not None else []):
        if isinstance(v, It):
            ws.append(c.old.f['offset_'] + (v.i - 1 if v.rev else v.i))
    return z3.Or(z3.Exists([w_], nearest(c, op, w_, lit)), *[nearest(c, op, w, lit) for w in ws[-4:]])


def none(c, op):
    return z3.ForAll([u_], z3.Implies(side(op)(u_, c.o(0)), tab(c.old, u_) == 0))


def skip_inv(L):
    """everything skipped is 0"""
    ib, ie = L['ib'], L['ie']
    if not isinstance(ib, It):
        return []
    i0 = L.at_entry('ib').i
    x = z3.Select(L.e.load(L.st, ib.c).el, u_)
    if ib.rev:
        return [('range', z3.And(ie.i <= ib.i, ib.i <= i0)), ('skipped', z3.ForAll([u_], z3.Implies(z3.And(ib.i <= u_, u_ < i0), x == 0)))]
    return [('range', z3.And(i0 <= ib.i, ib.i <= ie.i)), ('skipped', z3.ForAll([u_], z3.Implies(z3.And(i0 <= u_, u_ < ib.i), x == 0)))]


SKIP = {('call_vec_', 0): LoopSpec(inv=skip_inv)}
LK = {}
for op in ('lt', 'le', 'gt', 'ge'):
    ct = Contract(requires=req(val_ok), ensures=lambda c, op=op: [
        ('none', z3.Implies(c.res == 0, none(c, op))), ('nearest', z3.Implies(c.res != 0, some(c, op, c.res)))])
    LK['Clingcon::VarState::lit_%s' % op] = ct
    add('lit_' + op, ct, 1, loops=SKIP)
    add('order_lit_' + op, Contract(requires=req(val_ok), ensures=lambda c, op=op: [
        ('none', z3.Implies(z3.Not(c.res.f['has']), none(c, op))),
        ('nearest', z3.Implies(c.res.f['has'], nearest(c, op, c.res.f['val'].f['second'], c.res.f['val'].f['first'])))]), 1, loops=SKIP)
for fn, op, dflt in (('lit_prev', 'lt', -1), ('lit_succ', 'gt', 1)):
    add(fn, Contract(requires=req(val_ok), ensures=lambda c, op=op, dflt=dflt: [
        ('nearest or constant', z3.Or(z3.And(c.res == dflt, none(c, op)), some(c, op, c.res)))]), 1, contracts=LK)


def fresh_this(e, st):
    v = vs_full(e, 'this')
    v.f['#active'] = I(0)
    return v


def other(e, st):
    v = vs_full(e, 'x')
    return v


def equal(a, b):
    return [('same table', same(a, b)), ('rest', rest(a, b)), ('same encoding', a.f['offset_'] == b.f['offset_'])]


add('VarState', Contract(requires=lambda c: [('bounds', z3.And(c.o(1) <= c.o(2), c.o(1) >= -M, c.o(2) <= M))], ensures=lambda c: rep(c.this) + [
    ('empty', z3.ForAll([w_], tab(c.this, w_) == 0)), ('var', c.this.f['var_'] == c.o(0)), ('lower', z3.And(c.this.f['lower_bound_'] == c.o(1), minb(c.this) == c.o(1))),
    ('upper', z3.And(c.this.f['upper_bound_'] == c.o(2), maxb(c.this) == c.o(2)))], modifies=MOD), 3, name='VarState(var, lower, upper)', opts={'thisval': fresh_this})
orep = lambda c: [('x ' + n, f) for n, f in rep(c.o(0))]
for nm, sig, keep in (('copy', r'\(const VarState &', True), ('move', r'\(VarState &&', False)):
    mod = MOD if keep else MOD + [(0,)]
    src = (lambda c: [('source unchanged', z3.And(*[f for _, f in equal(c.a(0), c.o(0))]))]) if keep else (lambda c: [])
    add('VarState', Contract(requires=orep, ensures=lambda c, src=src: rep(c.this) + equal(c.this, c.o(0)) + src(c), modifies=mod), 1, sig=sig, name='VarState(%s)' % nm,
        opts={'thisval': fresh_this, 'args': {0: other}})
    add('operator=', Contract(requires=lambda c: rep(c.old) + orep(c), ensures=lambda c, src=src: rep(c.this) + equal(c.this, c.o(0)) + src(c), modifies=mod), 1, sig=sig, name='operator= (%s)' % nm,
        opts={'args': {0: other}})


def self_arg(e, st):
    return LV(('this',))


add('operator=', Contract(requires=lambda c: rep(c.old), ensures=lambda c: rep(c.this) + equal(c.this, c.old), modifies=MOD), 1, sig=r'\(const VarState &', name='operator= (self)', opts={'args': {0: self_arg}})
for fn, which in (('min_bound', minb), ('max_bound', maxb)):
    add(fn, Contract(requires=req(), ensures=lambda c, which=which: [('first entry of the stack', c.res == which(c.old))]), 0)
add('size', Contract(requires=req(), ensures=lambda c: [('size', c.res == maxb(c.old) - minb(c.old))]), 0)
