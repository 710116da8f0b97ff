"""Function contracts: one object serves both for verifying the body and, at
call sites, as the callee's summary."""
import z3, itertools
from engine import *
from execu import Exec, LoopCtx, short, plain


class Ctx:
    """what requires/ensures are written over; parameters by position"""

    def __init__(self, eng, args, this, pre, post=None, res=None, g=None):
        self.e, self.args, self.thislv, self.pre, self.post, self.res_ = eng, args, this, pre, post, res
        self.g = g

    def _ld(self, st, a):
        if isinstance(a, LV):
            v = self.e.load(st, a)
            while isinstance(v, Ref) :
                v = self.e.load(st, v.lv)
            return v
        if isinstance(a, Ref):
            return self.e.load(st, a.lv)
        return a

    def o(self, i):          # argument before
        return self._ld(self.pre, self.args[i])

    def a(self, i):          # argument now
        return self._ld(self.post or self.pre, self.args[i])

    @property
    def old(self):           # *this before
        return self._ld(self.pre, self.thislv)

    @property
    def this(self):
        return self._ld(self.post or self.pre, self.thislv)

    def glob(self, root):    # ghost / environment state now
        return self.e.load(self.post or self.pre, LV(root))

    def oglob(self, root):
        return self.e.load(self.pre, LV(root))

    @property
    def st(self):
        return self.post or self.pre

    @property
    def res(self):
        v = self.res_
        if isinstance(v, Ref):
            return self.e.load(self.post, v.lv)
        return v


class Contract:
    def __init__(self, requires=None, ensures=None, modifies=(), throws=None, res=None, ret=None, on_throw=None, pure=False, facts=None, effect=None):
        # requires(c) -> [(name, f)], ensures(c) -> [(name, f)]
        # modifies: list of ('this', field...) | (argno, field...) | ('glob', root)
        # throws(c) -> condition (in the pre state) under which an exception MAY be raised
        # on_throw(c) -> [(name, f)] must hold whenever an exception leaves the body
        self.requires, self.ensures, self.modifies, self.throws = requires, ensures, list(modifies), throws
        self.res, self.ret, self.on_throw = res, ret, on_throw
        self.facts = facts
        self.effect = effect
        self.uses = 0

    def apply(self, eng, st, this, args, node, fr, fd):
        self.uses += 1
        if isinstance(this, LV) and isinstance(st.store.get(this.root), Ref) and not this.path:
            this = st.store[this.root].lv
        c = Ctx(eng, args, this, st)
        nm = plain(fd.full)
        if self.requires:
            for n, f in self.requires(c):
                eng.obl(st, f, 'requires:%s:%s' % (nm, n), node, 'requires')
        outs = []
        s = st.copy()
        if self.throws is not None:
            t = self.throws(c)
            if t is not None:
                ts = st.assume(t)
                if eng.feasible(ts):
                    eng.throws.append((ts, 'callee ' + nm, node))
        for m in self.modifies:
            l = self.lvof(m, args, this)
            if l is None:
                continue
            v = eng.load(s, l)
            while isinstance(v, Ref):
                l = v.lv
                v = eng.load(s, l)
            nv = fresh_like(v, nm.split('::')[-1])
            s = eng.save(s, l, nv)
            for p, t in leaves(nv):
                if p and p[-1] == '#n':
                    if t.sort() == INT:
                        s.add(t >= 0)
                    else:
                        j = z3.Int('j!len')
                        s.add(z3.ForAll([j], z3.Select(t, j) >= 0, patterns=[z3.Select(t, j)]))
        if self.res is not None:
            r = self.res(c, s)
        else:
            r = self.result(eng, s, fd, nm)
        c2 = Ctx(eng, args, this, st, s, r)
        if self.ensures:
            for n, f in self.ensures(c2):
                s.add(f)
        if self.facts:
            for f in self.facts(c2):
                s.add(f)
        if self.effect:
            self.effect(c2, s)
        return [(s, r)]

    def lvof(self, m, args, this):
        if m[0] == 'this':
            if this is None:
                return None
            l = this
        elif m[0] == 'glob':
            return LV(m[1], tuple(('f', x) for x in m[2:]))
        else:
            l = args[m[0]]
            if isinstance(l, Ref):
                l = l.lv
            if not isinstance(l, LV):
                return None
        return l.sub(*[('f', x) for x in m[1:]])

    def result(self, eng, s, fd, nm):
        t = self.ret or rettype(fd)
        if t in ('void', ''):
            return NONE
        v = eng.shape(t, nm.split('::')[-1] + '.res')
        f = eng.range_of(v, t)
        if f is not None:
            s.add(f)
        return v


def rettype(fd):
    t = fd.sig()
    if '->' in t:
        r = t.split('->')[-1].strip()
    else:
        d, i = 0, 0
        # return type precedes the parameter list at depth 0
        for i, ch in enumerate(t):
            if ch == '<':
                d += 1
            elif ch == '>':
                d -= 1
            elif ch == '(' and d == 0:
                break
        r = t[:i].strip()
    # drop references to plain types
    return r


class Unit:
    """one function to verify"""

    def __init__(self, prop, tu, fn, contract, setup=None, contracts=None, loops=None, folds=None, nparams=None, sig=None, targs=None, rec=None,
                 assume=None, ovf=None, hooks=None, eng=None, name=None, opts=None, skip_frame=False, inline_ok=True, max_paths=None, mod_ok=None, timeout=None, post=None):
        self.prop, self.tu, self.fn, self.contract = prop, tu, fn, contract
        self.setup, self.contracts, self.loops, self.folds = setup, contracts or {}, loops or {}, folds or []
        self.nparams, self.sig, self.targs, self.rec = nparams, sig, targs, rec
        self.assume, self.ovf, self.hooks, self.eng = assume, ovf, hooks or {}, eng or Exec
        self.name = name or fn
        self.opts = opts or {}
        self.skip_frame = skip_frame
        self.max_paths = max_paths
        self.mod_ok = mod_ok
        self.timeout = timeout


def find_one(tu, u):
    fs = tu.find(u.fn, targs=u.targs, nparams=u.nparams, sig=u.sig, rec=u.rec)
    ids = {}
    for f in fs:
        ids.setdefault(tu.canonical(f.id), f)
    fs = list(ids.values())
    if not fs:
        raise ExtractError('function %s not found' % u.fn)
    if len(fs) > 1:
        raise ExtractError('function %s is ambiguous: %s' % (u.fn, [f.full + f.sig() for f in fs][:4]))
    return fs[0]


def verify(tu, u):
    """generate the obligations of a unit; returns (engine, func)"""
    fd = find_one(tu, u)
    e = u.eng(tu, contracts=u.contracts, folds=u.folds)
    e.loopspecs = dict(u.loops)
    e.hooks.update(u.hooks)
    if u.ovf is not None:
        e.ovf = set(u.ovf)
    if u.max_paths:
        e.max_paths = u.max_paths
    for k, v in u.opts.items():
        setattr(e, k, v)
    e.curfn = plain(fd.full) if not fd.targs else short(fd.full)
    st = St()
    this = None
    static = fd.node.get('storageClass') == 'static'
    isctor = fd.node['kind'] == 'CXXConstructorDecl'
    if fd.node['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl') and not static:
        this = LV(('this',))
        v = u.opts['thisval'](e, st) if 'thisval' in u.opts else e.shape(fd.rec, 'this')
        st.store[('this',)] = v
        rangefacts(e, st, v, fd.rec)
    if u.setup:
        st2 = u.setup(e, st, fd)
        if st2 is not None:
            st = st2
    args = []
    ov = u.opts.get('args', {})
    for i, p in enumerate(fd.params):
        t = p['type'].get('desugaredQualType') or p['type']['qualType']
        q = p['type']['qualType']
        nm = p.get('name') or 'arg%d' % i
        if i in ov:
            a = ov[i](e, st)
            if isinstance(a, (LV, Ref)) or not (t.rstrip().endswith('&')):
                args.append(a)
                continue
            root = ('param', i)
            st.store[root] = a
            args.append(LV(root))
            continue
        v = e.shape(t, nm)
        f = e.range_of(v, t)
        if f is not None:
            st.add(f)
        rangefacts(e, st, v, t)
        if t.rstrip().endswith('&') or q.rstrip().endswith('&'):
            root = ('param', i)
            st.store[root] = v
            args.append(LV(root))
        else:
            args.append(v)
    c = Ctx(e, args, this, st)
    for a in (u.assume(c) if u.assume else []):
        st.add(a)
    pre = st
    if u.contract.requires:
        st = st.copy()
        for n, f in u.contract.requires(c):
            st.add(f)
    # vacuity: the precondition must be satisfiable
    e.presat = st.pc[:]
    fr = Frame(fd, this=this)
    s0 = e.bind_params(fd, args, st, fr)
    e.inlined.add(fd.full)
    if isctor:
        outs = [Out('return', s, NONE) for s in ctor_run(e, fd, this, s0, fr)]
    else:
        outs = e.ex(fd.body, s0, fr)
    nret = 0
    for o in outs:
        if o.kind not in ('return', 'normal'):
            raise Unsupported('unexpected outcome')
        nret += 1
        v = o.val
        if isz(v) and v.sort() == INT and e.isbool(rettype(fd)):
            v = v != 0
        if isz(v) and v.sort() == BOOL and e.intty(rettype(fd)) and not e.isbool(rettype(fd)):
            v = z3.If(v, I(1), I(0))
        c2 = Ctx(e, args, this, st, o.st, v)
        if u.contract.ensures:
            for n, f in u.contract.ensures(c2):
                e.obl(o.st, f, 'ensures:' + n, fd.node, 'ensures')
        if not u.skip_frame:
            frame_check(e, u, st, o.st, args, this, fd)
    for ts, t, node in e.throws:
        c2 = Ctx(e, args, this, st, ts, None)
        if u.contract.throws is not None:
            cond = u.contract.throws(Ctx(e, args, this, st))
            if cond is not None and not z3.is_true(cond):
                e.obl(ts, cond, 'throws-only-if', node, 'throws')
        elif not u.contract.on_throw:
            e.obl(ts, z3.BoolVal(False), 'no-throw', node, 'throws')
        if u.contract.on_throw:
            for n, f in u.contract.on_throw(c2):
                e.obl(ts, f, 'on-throw:' + n, node, 'throws')
    e.nret = nret
    return e, fd


def ctor_run(e, ctor, lv, s, fr):
    sts = [s]
    for ini in ctor.inits:
        ai = ini.get('anyInit')
        nxt = []
        for s in sts:
            if ai is None:
                nxt.append(s)
                continue
            cs = [x for x in ini.get('inner', []) if isinstance(x, dict)]
            if cs and cs[0]['kind'] == 'CXXDefaultInitExpr' and not cs[0].get('inner'):
                fdl = next(c for c in e.fields(e.find_record(ctor.rec)) if c.get('name') == ai['name'])
                cs = [x for x in fdl.get('inner', []) if isinstance(x, dict) and not x['kind'].endswith('Comment')][-1:]
            ref = ai.get('type', {}).get('qualType', '').rstrip().endswith('&')
            if ref:
                for s2, l in e.lv(cs[0], s, fr):
                    nxt.append(e.save(s2, lv.sub(('f', ai['name'])), Ref(l)))
                continue
            for s2, v in e.ev(cs[0], s, fr):
                nxt.append(e.save(s2, lv.sub(('f', ai['name'])), v))
        sts = nxt
    outs = []
    for s in sts:
        for o in e.ex(ctor.body, s, fr):
            outs.append(o.st)
    return outs


def rangefacts(e, st, v, t):
    """vector lengths are non-negative; scalar members are in the range of their type"""
    def go(v, t):
        t = e.resolve(t)
        base, ta = split_targs(t)
        b = base.split('::')[-1]
        if isinstance(v, Vec):
            st.add(z3.And(v.n >= 0, v.n < (1 << 40)))
            if ta and v.el is not None:
                elem(v.el, ta[0], v)
            elif b == 'LiteralSpan' and v.el is not None:
                elem(v.el, 'int', v)
        elif isinstance(v, Rec):
            if v.cls == 'pair' and len(ta) == 2:
                go(v.f['first'], ta[0]); go(v.f['second'], ta[1])
            elif v.cls == 'tuple':
                for i, x in enumerate(ta):
                    go(v.f[str(i)], x)
            else:
                rec = e.find_record(t)
                if rec is not None:
                    for c in e.fields(rec):
                        if c.get('name') in v.f:
                            go(v.f[c['name']], e.ty(c))
        elif isz(v):
            f = e.range_of(v, t)
            if f is not None:
                st.add(f)

    def elem(el, t, vec):
        t = e.resolve(t)
        base, ta = split_targs(t)
        j = z3.Int('j!rg')
        if isz(el):
            r = e.intty(t)
            if r and el.sort().range() == INT:
                lo, hi = int_range(*r)
                st.add(z3.ForAll([j], z3.And(z3.Select(el, j) >= lo, z3.Select(el, j) <= hi), patterns=[z3.Select(el, j)]))
        elif isinstance(el, Rec) and el.cls == 'pair' and len(ta) == 2:
            elem(el.f['first'], ta[0], vec); elem(el.f['second'], ta[1], vec)
    go(v, t)


def frame_check(e, u, pre, post, args, this, fd):
    mods = [m for m in u.contract.modifies]

    def allowed(root, path):
        for m in mods:
            l = u.contract.lvof(m, args, this)
            if l is None:
                continue
            if l.root != root:
                continue
            pp = tuple(x[1] for x in l.path)
            if path[:len(pp)] == pp:
                return True
        return False
    for root, v in pre.store.items():
        if root[0] not in ('this', 'param', 'glob'):
            continue
        w = post.store.get(root)
        if w is v:
            continue
        la, lb = dict(leaves(v)), dict(leaves(w)) if w is not None else {}
        for p, t in la.items():
            if allowed(root, p):
                continue
            if p not in lb:
                raise Unsupported('frame of %s' % (root,))
            if not lb[p].eq(t):
                e.obl(post, lb[p] == t, 'frame:%s' % '.'.join(map(str, (root[0],) + p)), fd.node, 'frame')
