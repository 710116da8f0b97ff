"""Deductive verifier for the C++ subset clingcon is written in.

Forward symbolic execution over clang's AST; loops are cut by invariants, calls
use the callee's contract if it has one and are inlined otherwise; every check
becomes an SMT obligation (hypotheses => goal).  Mathematical integers with
overflow obligations; unsigned arithmetic is modular."""
import sys, time, itertools
import z3
from cast import TU, ExtractError, Func

I = z3.IntVal
INT = z3.IntSort()
BOOL = z3.BoolSort()


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        super().__init__(msg + (' (line %s)' % node.get('_line') if node else ''))


# ---------------------------------------------------------------- values
class Rec:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __repr__(self):
        return 'Rec(%s,%s)' % (self.cls, list(self.f))


class Vec:
    """vector: length and a lifted element tree (leaves are arrays over Int)"""
    __slots__ = ('n', 'el')

    def __init__(self, n, el):
        self.n, self.el = n, el


class MapV:
    """std::map / std::set / unordered: domain predicate and lifted values"""
    __slots__ = ('dom', 'val', 'aux')

    def __init__(self, dom, val, aux=None):
        self.dom, self.val, self.aux = dom, val, aux


class It:
    __slots__ = ('c', 'i', 'rev')

    def __init__(self, c, i, rev=False):
        self.c, self.i, self.rev = c, i, rev


class MIt:
    __slots__ = ('c', 'k', 'end', 'rev')

    def __init__(self, c, k, end, rev=False):
        self.c, self.k, self.end, self.rev = c, k, end, rev


class Ref:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class Lam:
    __slots__ = ('node', 'fr')

    def __init__(self, node, fr):
        self.node, self.fr = node, fr


class Opq:
    __slots__ = ('name', 'd')

    def __init__(self, name, d=None):
        self.name, self.d = name, d

    def __repr__(self):
        return 'Opq(%s)' % self.name


class StrV:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class LV:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def sub(self, *p):
        return LV(self.root, self.path + p)

    def __repr__(self):
        return 'LV(%s,%s)' % (self.root, self.path)


NONE = Opq('none')
NULL = Opq('null')
UNINIT = Opq('uninit')


def isz(x):
    return isinstance(x, z3.ExprRef)


def map_leaves(v, f):
    if isz(v):
        return f(v)
    if isinstance(v, Rec):
        return Rec(v.cls, {k: map_leaves(x, f) for k, x in v.f.items()})
    if isinstance(v, Vec):
        return Vec(map_leaves(v.n, f), None if v.el is None else map_leaves(v.el, f))
    if isinstance(v, MapV):
        return MapV(f(v.dom), None if v.val is None else map_leaves(v.val, f), None if v.aux is None else map_leaves(v.aux, f))
    if isinstance(v, It):
        return It(v.c, f(v.i), v.rev)
    if isinstance(v, MIt):
        return MIt(v.c, f(v.k), f(v.end), v.rev)
    return v


def zip_leaves(a, b, f):
    if isz(a) and isz(b):
        return f(a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        return Rec(a.cls, {k: zip_leaves(a.f[k], b.f[k], f) for k in a.f})
    if isinstance(a, Vec):
        if b.el is None or a.el is None:
            el = a.el if b.el is None else b.el
            return Vec(f(a.n, b.n), el)
        return Vec(f(a.n, b.n), zip_leaves(a.el, b.el, f))
    if isinstance(a, MapV):
        return MapV(f(a.dom, b.dom), None if a.val is None else zip_leaves(a.val, b.val, f), None if a.aux is None else zip_leaves(a.aux, b.aux, f))
    if isinstance(a, It):
        return It(a.c, f(a.i, b.i), a.rev)
    if isinstance(a, MIt):
        return MIt(a.c, f(a.k, b.k), f(a.end, b.end), a.rev)
    return a


def leaves(v, path=()):
    if isz(v):
        yield path, v
    elif isinstance(v, Rec):
        for k, x in v.f.items():
            yield from leaves(x, path + (k,))
    elif isinstance(v, Vec):
        yield path + ('#n',), v.n
        if v.el is not None:
            yield from leaves(v.el, path + ('#el',))
    elif isinstance(v, MapV):
        yield path + ('#dom',), v.dom
        if v.val is not None:
            yield from leaves(v.val, path + ('#val',))
        if v.aux is not None:
            yield from leaves(v.aux, path + ('#aux',))
    elif isinstance(v, It):
        yield path + ('#i',), v.i
    elif isinstance(v, MIt):
        yield path + ('#k',), v.k
        yield path + ('#end',), v.end


def veq(a, b):
    """structural equality of two values as a formula"""
    out = []

    def go(a, b):
        if isz(a) and isz(b):
            if not a.eq(b):
                out.append(a == b)
        elif isinstance(a, Rec):
            for k in a.f:
                go(a.f[k], b.f[k])
        elif isinstance(a, Vec):
            go(a.n, b.n)
            if a.el is not None and b.el is not None:
                go(a.el, b.el)
        elif isinstance(a, MapV):
            go(a.dom, b.dom)
            if a.val is not None:
                go(a.val, b.val)
            if a.aux is not None:
                go(a.aux, b.aux)
        elif isinstance(a, It):
            go(a.i, b.i)
        elif isinstance(a, MIt):
            go(a.k, b.k)
            go(a.end, b.end)
    go(a, b)
    return z3.And(*out) if len(out) != 1 else out[0]


def lift(shape, ks=INT):
    return map_leaves(shape, lambda x: z3.K(ks, x))


_cnt = itertools.count()


def fresh(name, sort=INT):
    return z3.Const('%s!%d' % (name, next(_cnt)), sort)


def fresh_like(v, name):
    return map_leaves(v, lambda x: fresh(name, x.sort()))


def select(tree, i):
    return map_leaves(tree, lambda a: z3.Select(a, i))


def store(tree, i, v):
    def one(a, x):
        x = coerce(x, a.sort().range())
        if z3.is_select(x) and x.arg(0).eq(a) and x.arg(1).eq(i):
            return a
        return z3.Store(a, i, x)
    return zip_leaves(tree, v, one)


def coerce(x, sort):
    if isz(x) and x.sort() == sort:
        return x
    if sort == INT and isz(x) and x.sort() == BOOL:
        return z3.If(x, I(1), I(0))
    if sort == BOOL and isz(x) and x.sort() == INT:
        return x != 0
    raise Unsupported('cannot coerce %s to %s' % (x, sort))


# ---------------------------------------------------------------- types
SC = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
      'unsigned long long': (64, False), 'short': (16, True), 'unsigned short': (16, False), 'char': (8, True), 'signed char': (8, True),
      'unsigned char': (8, False), '__int128': (128, True),
      'val_t': (32, True), 'lit_t': (32, True), 'var_t': (32, False), 'level_t': (32, False), 'sum_t': (64, True), 'nsum_t': (128, True),
      'size_t': (64, False), 'std::size_t': (64, False), 'uint32_t': (32, False), 'int32_t': (32, True), 'uint64_t': (64, False), 'int64_t': (64, True),
      'std::ptrdiff_t': (64, True), 'ptrdiff_t': (64, True)}


def strip_cv(t):
    t = t.strip()
    while True:
        u = t
        for p in ('const ', 'volatile ', 'typename ', 'struct ', 'class ', 'enum '):
            if t.startswith(p):
                t = t[len(p):]
        for s in (' const', ' &', ' &&', '&&', '&'):
            if t.endswith(s):
                t = t[:-len(s)].strip()
        if t == u:
            return t


def split_targs(t):
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return t, []
    base, s = t[:i], t[i + 1:-1]
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
            continue
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return base, out


def int_range(bits, signed):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)


# ---------------------------------------------------------------- folds
class Fold:
    """A recursive spec function over a vector prefix:
         f(arrays, 0) = unit, f(arrays, n+1) = op(f(arrays, n), step(elem n))
    Instances of the defining equations (and of the frame/update consequences,
    which follow by induction from them) are emitted by the engine."""

    def __init__(self, name, pick, step, kind, sorts):
        # pick: elem tree -> list of leaf terms or None if the fold is not applicable
        self.name, self.pick, self.step, self.kind, self.sorts = name, pick, step, kind, sorts
        res = INT if kind == 'sum' else BOOL
        self.fn = z3.Function('fold_' + name, *([z3.ArraySort(INT, s) for s in sorts] + [INT, res]))

    def __call__(self, vec, n=None):
        a = self.pick(vec.el) if vec.el is not None else None
        if vec.el is None:
            return I(0) if self.kind == 'sum' else z3.BoolVal(self.kind == 'and')
        return self.fn(*(a + [vec.n if n is None else n]))

    def app(self, el, n):
        return self.fn(*(self.pick(el) + [n]))

    def st(self, elem):
        return self.step(*self.pick(elem))

    def op(self, a, b):
        return a + b if self.kind == 'sum' else (z3.Or(a, b) if self.kind == 'or' else z3.And(a, b))

    def unit(self):
        return I(0) if self.kind == 'sum' else z3.BoolVal(self.kind == 'and')


class Out:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Frame:
    _n = itertools.count()

    def __init__(self, func, this=None, parent=None):
        self.func, self.this, self.parent = func, this, parent
        self.id = next(Frame._n)
        self.names = {}   # source name -> decl id (latest)
        self.loopno = itertools.count()
        self.loopidx = {}


class St:
    __slots__ = ('store', 'pc', 'env')

    def __init__(self, store=None, pc=None, env=None):
        self.store, self.pc, self.env = store or {}, pc or [], env or {}

    def copy(self):
        return St(dict(self.store), list(self.pc), dict(self.env))

    def assume(self, *fs):
        s = self.copy()
        for f in fs:
            if not z3.is_true(f):
                s.pc.append(f)
        return s

    def add(self, f):
        if f is not None and not z3.is_true(f):
            self.pc.append(f)


class Obligation:
    __slots__ = ('name', 'hyps', 'goal', 'line', 'fn', 'kind')

    def __init__(self, name, hyps, goal, line, fn, kind):
        self.name, self.hyps, self.goal, self.line, self.fn, self.kind = name, hyps, goal, line, fn, kind


class LoopSpec:
    def __init__(self, inv=None, unroll=None, keep=None, variant=None, facts=None):
        # facts: instances of definitions, assumed at the loop head
        self.inv, self.unroll, self.keep, self.variant, self.facts = inv, unroll, keep, variant, facts


class Engine:
    def __init__(self, tu, contracts=None, folds=None, shapes=None, math64=True):
        self.tu = tu
        self.contracts = contracts or {}
        self.folds = folds or []
        self.shapes = shapes or {}
        self.obls = []
        self.discover = 0
        self.throws = []
        self.loopspecs = {}
        self.math64 = math64
        self.depth = 0
        self.curfn = '?'
        self.assumptions = set()
        self.inlined = set()
        self.called = set()
        self.lib_used = set()
        self.nfeas = 0
        self.overrides = {}
        self.member_overrides = {}
        self.max_paths = 4000
        self.ovf = {32, 64}
        self.hooks = {}
        self.foldall = False
        self.nameall = False    # name assigned values that contain case distinctions
        self.itercontainer = None
        self.rngs = []
        self.t_feas = 0.0

    # ------------------------------------------------------------ helpers
    def feasible(self, st, extra=None):
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 400)
        s.set('rlimit', 4000000)
        for f in st.pc:
            if not z3.is_quantifier(f) and not _hasq(f):
                s.add(f)
        if extra is not None:
            s.add(extra)
        self.nfeas += 1
        r = s.check() != z3.unsat
        self.t_feas += time.time() - t
        return r

    def valid(self, st, goal):
        if z3.is_true(goal):
            return True
        s = z3.Solver()
        s.set('timeout', 300)
        s.set('rlimit', 3000000)
        for f in st.pc:
            if not _hasq(f):
                s.add(f)
        s.add(z3.Not(goal))
        self.nfeas += 1
        return s.check() == z3.unsat

    def obl(self, st, goal, name, node=None, kind='check'):
        if self.discover:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        self.obls.append(Obligation(name, list(st.pc), goal, node.get('_line') if isinstance(node, dict) else None, self.curfn, kind))

    def fork(self, st, cond):
        """[(state under cond, True), (state under not cond, False)] feasible ones"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        a = st.assume(cond)
        if self.feasible(a):
            out.append((a, True))
        b = st.assume(z3.Not(cond))
        if self.feasible(b):
            out.append((b, False))
        return out

    # ------------------------------------------------------------ types
    def ty(self, n):
        t = n.get('type', {})
        return t.get('desugaredQualType') or t.get('qualType') or ''

    def qt(self, n):
        return n.get('type', {}).get('qualType', '')

    def resolve(self, t):
        t = strip_cv(t)
        seen = set()
        while t not in SC and t not in seen:
            seen.add(t)
            if t in self.tu.aliases:
                t = strip_cv(self.tu.aliases[t])
            elif 'Clingcon::' + t in self.tu.aliases:
                t = strip_cv(self.tu.aliases['Clingcon::' + t])
            elif t.startswith('Clingcon::') and t[10:] in self.tu.aliases:
                t = strip_cv(self.tu.aliases[t[10:]])
            else:
                break
        return t

    def intty(self, t):
        t = self.resolve(t)
        if t in SC:
            return SC[t]
        if 'uintwide_t' in t.split('<')[0] and not t.endswith((']', '*')):
            return (128, True)
        if t.startswith('std::numeric_limits'):
            return None
        b = t.split('::')[-1]
        if b in SC:
            return SC[b]
        if any(k.split('::')[-1] == b for k in self.tu.enumnames):
            return (32, True)
        if b in ('WeightConstraintType', 'clingo_weight_constraint_type', 'ClauseType', 'TruthValue', 'SymbolType', 'TheoryTermType'):
            return (32, True)
        return None

    def isbool(self, t):
        return self.resolve(t) in ('bool', 'std::vector<bool>::reference')

    def shape(self, t, name='v', depth=0):
        """fresh symbolic value of a type; scalars are range constrained by the caller"""
        t = self.resolve(t)
        if t in self.shapes:
            return self.shapes[t](self, name)
        if self.isbool(t):
            return fresh(name, BOOL)
        if self.intty(t):
            return fresh(name)
        base, ta = split_targs(t)
        b = base.split('::')[-1]
        if 'iterator' in b and self.itercontainer is not None:
            return It(self.itercontainer, fresh(name))
        if b == 'pair':
            return Rec('pair', {'first': self.shape(ta[0], name + '.first', depth + 1), 'second': self.shape(ta[1], name + '.second', depth + 1)})
        if b == 'tuple':
            return Rec('tuple', {str(i): self.shape(x, name + '.%d' % i, depth + 1) for i, x in enumerate(ta)})
        if b in ('vector', 'initializer_list', 'Span', 'LiteralSpan', 'deque'):
            if b == 'LiteralSpan':
                ta = ['int']
            el = self.shape(ta[0], name + '[]', depth + 1)
            return Vec(fresh(name + '.n'), map_leaves(el, lambda x: fresh(name, z3.ArraySort(INT, x.sort()))))
        if b in ('map', 'unordered_map', 'set', 'unordered_set', 'ordered_map', 'hopscotch_map'):
            val = None
            if 'map' in b:
                v = self.shape(ta[1], name + '.val', depth + 1)
                val = map_leaves(v, lambda x: fresh(name, z3.ArraySort(INT, x.sort())))
            return MapV(fresh(name + '.dom', z3.ArraySort(INT, BOOL)), val)
        if b == 'optional':
            return Rec('optional', {'has': fresh(name + '.has', BOOL), 'val': self.shape(ta[0], name + '.val', depth + 1)})
        if t.endswith('*'):
            return Opq('ptr:' + t)
        rec = self.find_record(t)
        if rec is not None and depth < 6:
            f = {}
            for c in self.fields(rec):
                f[c['name']] = self.shape(self.ty(c), name + '.' + c['name'], depth + 1)
            return Rec(t, f)
        return Opq('type:' + t)

    def range_of(self, v, t):
        """range constraints for a fresh value of scalar type"""
        it = self.intty(t)
        if it and isz(v) and v.sort() == INT:
            lo, hi = int_range(*it)
            return z3.And(v >= lo, v <= hi)
        return None

    def find_record(self, t):
        if t in self.tu.records:
            return self.tu.records[t]
        for k, n in self.tu.records.items():
            if k == 'Clingcon::' + t or k.endswith('::' + t) or t.endswith('::' + k.split('::', 1)[-1]) and '::' in t:
                return n
        t2 = t.replace('Clingcon::(anonymous namespace)::', 'Clingcon::').replace('(anonymous namespace)::', '')
        if t2 != t:
            return self.find_record(t2)
        return None

    def fields(self, rec):
        out = []
        for b in rec.get('bases', []):
            bt = b['type'].get('desugaredQualType') or b['type']['qualType']
            br = self.find_record(self.resolve(bt))
            if br is not None:
                out += self.fields(br)
        out += [c for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl']
        return out

    # ------------------------------------------------------------ store
    def load(self, st, lv):
        v = st.store.get(lv.root)
        if v is None:
            raise Unsupported('unbound %s' % (lv.root,))
        for p in lv.path:
            v = self.sub(v, p)
        return v

    def sub(self, v, p):
        k, x = p
        if k == 'f':
            if isinstance(v, Rec) and x in v.f:
                return v.f[x]
            raise Unsupported('no field %s in %s' % (x, v))
        if k == 'i':
            if isinstance(v, Vec):
                if v.el is None:
                    raise Unsupported('element of empty vector')
                return select(v.el, x)
            raise Unsupported('index into %s' % v)
        if k == 'm':
            if isinstance(v, MapV):
                return select(v.val, x)
        raise Unsupported('bad path %s' % (p,))

    def upd(self, v, path, nv):
        if not path:
            if isz(v) and isz(nv) and v.sort() != nv.sort():
                nv = coerce(nv, v.sort())
            return nv
        k, x = path[0]
        if k == 'f':
            f = dict(v.f)
            if x not in f:
                raise Unsupported('no field %s in %s' % (x, v))
            f[x] = self.upd(f[x], path[1:], nv)
            return Rec(v.cls, f)
        if k == 'i':
            old = select(v.el, x)
            return Vec(v.n, store(v.el, x, self.upd(old, path[1:], nv)))
        if k == 'm':
            old = select(v.val, x)
            return MapV(v.dom, store(v.val, x, self.upd(old, path[1:], nv)), v.aux)
        raise Unsupported('bad path')

    def save(self, st, lv, nv, node=None):
        """returns a new state"""
        s = st.copy()
        if self.nameall or self.foldall and any(p[0] == 'i' for p in lv.path):
            nv = self.named(s, nv)
        if lv.path:
            old = s.store[lv.root]
            new = self.upd(old, lv.path, nv)
            # fold consequences of in-place updates
            for j, p in enumerate(lv.path):
                if p[0] == 'i':
                    vec = self.load(st, LV(lv.root, lv.path[:j]))
                    nvec = vec
                    for q in [new]:
                        w = q
                        for pp in lv.path[:j]:
                            w = self.sub(w, pp)
                        nvec = w
                    for f in self.folds:
                        if vec.el is None or f.pick(vec.el) is None:
                            continue
                        i = p[1]
                        if f.kind in ('or', 'and'):
                            a, b = f.pick(vec.el), f.pick(nvec.el)
                            if all(x.eq(y) for x, y in zip(a, b)):
                                continue
                            s.add(f.app(nvec.el, i) == f.app(vec.el, i))
                            if self.foldall:
                                q = z3.Int('q!fu')
                                x = f.app(nvec.el, q)
                                s.add(z3.Implies(i >= 0, f.app(nvec.el, z3.simplify(i + 1)) == f.op(f.app(nvec.el, i), f.st(select(nvec.el, i)))))
                                s.add(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q <= i), x == f.app(vec.el, q)), patterns=[x]))
                        if f.kind == 'sum':
                            a, b = f.pick(vec.el), f.pick(nvec.el)
                            if all(x.eq(y) for x, y in zip(a, b)):
                                continue
                            s.add(z3.Implies(z3.And(0 <= i, i < vec.n), f(nvec) == f(vec) - f.st(select(vec.el, i)) + f.st(select(nvec.el, i))))
                            s.add(f.app(nvec.el, i) == f.app(vec.el, i))
                            if self.foldall:
                                q = z3.Int('q!fu')
                                x = f.app(nvec.el, q)
                                s.add(z3.Implies(i >= 0, f.app(nvec.el, z3.simplify(i + 1)) == f.app(nvec.el, i) + f.st(select(nvec.el, i))))
                                s.add(z3.ForAll([q], z3.Implies(q >= 0, x == f.app(vec.el, q) + z3.If(q > i, f.st(select(nvec.el, i)) - f.st(select(vec.el, i)), 0)), patterns=[x]))
            s.store[lv.root] = new
        else:
            old = s.store.get(lv.root)
            if isz(old) and isz(nv) and old.sort() != nv.sort():
                nv = coerce(nv, old.sort())
            s.store[lv.root] = nv
        return s

    def named(self, s, v):
        """values without case distinctions (they end up in patterns)"""
        def go(x):
            if not has_ite(x):
                return x
            y = fresh('nm', x.sort())
            s.add(y == x)
            return y
        return map_leaves(v, go)

    def tmp(self, st, v, name='tmp'):
        s = st.copy()
        root = ('tmp', name, next(_cnt))
        s.store[root] = v
        return s, LV(root)

    # ------------------------------------------------------------ integers
    def wrap(self, st, v, ty):
        """convert mathematical v to integer type ty (modular)"""
        bits, signed = ty
        lo, hi = int_range(bits, signed)
        v = z3.simplify(v) if not isinstance(v, int) else I(v)
        if z3.is_int_value(v):
            x = v.as_long()
            x = (x - lo) % (1 << bits) + lo
            return I(x)
        if self.valid(st, z3.And(v >= lo, v <= hi)):
            return v
        m = 1 << bits
        if signed:
            return z3.If(z3.And(v >= lo, v <= hi), v, (v - lo) % m + lo)
        return z3.If(z3.And(v >= lo, v <= hi), v, v % m)

    def arith(self, st, op, a, b, ty, node):
        """returns (value, facts)"""
        bits, signed = ty
        lo, hi = int_range(bits, signed)
        facts = []
        if op in ('+', '-', '*'):
            r = a + b if op == '+' else a - b if op == '-' else a * b
            if signed:
                if bits in self.ovf:
                    if not (z3.is_int_value(z3.simplify(r)) and lo <= z3.simplify(r).as_long() <= hi):
                        self.obl(st, z3.And(r >= lo, r <= hi), 'no-overflow-%d' % bits, node, 'overflow')
                        facts.append(z3.And(r >= lo, r <= hi))
                else:
                    self.assumptions.add('%d-bit signed arithmetic is treated as mathematical' % bits)
                return r, facts
            return self.wrap(st, r, ty), facts
        if op in ('/', '%'):
            ca, cb = z3.simplify(a), z3.simplify(b)
            if z3.is_int_value(ca) and z3.is_int_value(cb) and cb.as_long() != 0:
                x, y = ca.as_long(), cb.as_long()
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return I(q if op == '/' else x - q * y), facts
            self.obl(st, b != 0, 'no-division-by-zero', node, 'overflow')
            if signed:
                q, r = fresh('q'), fresh('r')
                if bits in self.ovf or bits == 128:
                    self.obl(st, z3.Not(z3.And(a == lo, b == -1)), 'no-division-overflow', node, 'overflow')
                facts += [a == q * b + r, z3.If(b > 0, z3.And(r < b, r > -b), z3.And(r < -b, r > b)),
                          z3.Or(z3.And(a >= 0, r >= 0), z3.And(a <= 0, r <= 0))]
                # q is the truncated quotient: sign facts, consequences of the definition
                facts += [z3.Implies(z3.Or(z3.And(a >= 0, b > 0), z3.And(a <= 0, b < 0)), q >= 0),
                          z3.Implies(z3.Or(z3.And(a >= 0, b < 0), z3.And(a <= 0, b > 0)), q <= 0)]
                return (q if op == '/' else r), facts
            if z3.is_int_value(b):
                return (a / b if op == '/' else a % b), facts
            q, r = fresh('q'), fresh('r')
            facts += [a == q * b + r, r >= 0, r < b, q >= 0]
            return (q if op == '/' else r), facts
        if op in ('^', '&', '|'):
            x, y = self.asbool01(a), self.asbool01(b)
            if x is not None and y is not None:
                z = z3.Xor(x, y) if op == '^' else z3.And(x, y) if op == '&' else z3.Or(x, y)
                return z3.If(z, I(1), I(0)), facts
        raise Unsupported('arithmetic ' + op, node)

    def asbool01(self, v):
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            c, t, e = v.children()
            if z3.is_int_value(t) and z3.is_int_value(e) and t.as_long() == 1 and e.as_long() == 0:
                return c
        if z3.is_int_value(v) and v.as_long() in (0, 1):
            return z3.BoolVal(v.as_long() == 1)
        return None


def has_ite(f):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        todo += x.children()
    return False


def _hasq(f, memo={}):
    k = f.get_id()
    r = memo.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    if z3.is_quantifier(f):
        res = True
    else:
        res = any(_hasq(c) for c in f.children())
    memo[k] = (f, res)
    return res
