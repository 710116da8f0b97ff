"""C19: rewriting the input program keeps its meaning.

Nodes of the abstract syntax tree live on a ghost heap: one record per node with
its attributes. Copying a node adds a record, setting an attribute changes one."""
import z3
from sem import *
from c03 import Lemma
from execu import strid, It, _cnt_, Exec
from engine import StrV, Opq, Unsupported, Rec, Vec, Ref, LV, MapV, NONE, NULL, fresh, leaves, select, store, map_leaves, isz

TU_ = 'src/parsing.cc'
HEAP = ('glob', 'ast')
A1, A2 = z3.ArraySort(INT, INT), z3.ArraySort(INT, z3.ArraySort(INT, INT))
SCALAR = ['Type', 'Head', 'Atom', 'Sign', 'Value', 'Term', 'Guard', 'OperatorName', 'Name', 'External', 'Location', 'Symbol', 'Number']
VECTOR = ['Body', 'Terms', 'Condition', 'Elements', 'Arguments']
NODES = ['Head', 'Atom', 'Term']
TYPES = ['Rule', 'Literal', 'BooleanConstant', 'TheoryAtom', 'SymbolicTerm', 'Function', 'Variable', 'ConditionalLiteral']
TYPE = {t: I(i + 1) for i, t in enumerate(TYPES)}
SIGN = {'NoSign': 0, 'Negation': 1, 'DoubleNegation': 2}
F1 = lambda n, r=INT: z3.Function(n, INT, r)
SYMM = z3.Function('SYMM', INT, INT, BOOL)          # a symbol is the constant of the given name
STY, SNAM, NUMSYM, CAT = F1('STY19'), F1('SNAM19'), F1('NUMSYM'), z3.Function('CAT', INT, INT, INT)
DESC, DN = F1('DESC', z3.ArraySort(INT, INT)), F1('DN')
COLL = z3.Function('COLL', INT, INT, z3.ArraySort(INT, BOOL))   # names of variables among the first descendants
VU = z3.Function('VU', z3.ArraySort(INT, INT), INT, z3.ArraySort(INT, BOOL))
EWR = z3.Function('EWR', INT, INT, INT, BOOL)       # the second node is what rewrite_tuple returned for the first
TRN = z3.Function('TRN', INT, BOOL, INT)            # result of transforming the children of a node
x_, i_, k_ = z3.Ints('x!19 i!19 k!19')
RELS = ['=', '!=', '<', '<=', '>', '>=']
for _s in RELS + ['sum', 'diff', 'nsum', 'distinct', 'disjoint', 'minimize', 'maximize', '_', '__', '_b', '_h']:
    strid(StrV(_s))


def node(i):
    return Rec('Node', {'id': i})


def heap_shape():
    f = {a: fresh('h' + a, A1) for a in SCALAR}
    f.update({a: Vec(fresh('h' + a + '.n', A1), Rec('Node', {'id': fresh('h' + a, A2)})) for a in VECTOR})
    return Vec(fresh('nodes'), Rec('Nd', f))


def sid(x):
    return strid(x) if not isinstance(x, (Ref, LV)) else None


class AstExec(Exec):
    CNT = 0

    def enum_const(self, d, n):
        t = self.ty(n) or ''
        if t.endswith('Type') and d['name'] in TYPE:
            return TYPE[d['name']].as_long()
        if t.endswith('Sign') and d['name'] in SIGN:
            return SIGN[d['name']]
        if t.endswith('SymbolType'):
            return {'Function': 5}.get(d['name'])
        return Exec.enum_const(self, d, n)

    def shape(self, t, name='v', depth=0):
        b = self.resolve(t).replace('const ', '').replace('&', '').strip()
        if b.endswith('Node'):
            return node(fresh(name))
        if b.replace('const', '').replace(' ', '') == 'char*':
            return Opq('str', fresh(name))
        if b.split('::')[-1] == 'VarSet' or b.startswith('std::set<const char') or b.startswith('std::set<char const') or b.startswith('set<'):
            return MapV(fresh(name, z3.ArraySort(INT, BOOL)), None)
        return Exec.shape(self, t, name, depth)

    def intty(self, t):
        return Exec.intty(self, 'int' if t.split('::')[-1] in ('Sign', 'Type') else t)

    def setkey(self, s, m, k):
        return Opq('str', k)

    def deref(self, st, v, node):
        if isinstance(v, Rec) and v.cls == 'Node':
            root = ('mit', next(_cnt_))
            st.store[root] = v
            return LV(root)
        return Exec.deref(self, st, v, node)

    # ---- nodes
    def attr(self, a):
        while a['kind'] != 'DeclRefExpr':
            a = [x for x in a['inner'] if isinstance(x, dict)][0]
        return a['referencedDecl']['name']

    def fld(self, i, a):
        return LV(HEAP).sub(('i', i)).sub(('f', a))

    def m_Node_type(self, l, v, args, n, st, fr):
        return [(st, self.load(st, self.fld(v.f['id'], 'Type')))]

    def m_Node_get(self, l, v, args, n, st, fr):
        if not args:
            return [(st, v)]
        a, t, i = self.attr(args[0]), self.ty(n).replace('const ', '').strip(), v.f['id']
        b = t.split('::')[-1]
        if 'Optional' in t and a in SCALAR:
            g = self.load(st, self.fld(i, a))
            root = ('opt', next(_cnt_))
            s = st.copy()
            s.store[root] = node(g)
            return [(s, Rec('unique_ptr', {'p': Ref(LV(root)), 'null': g == 0}))]
        if b == 'NodeVector' and a in VECTOR:
            return [(st, Rec('NV:' + a, {'id': i}))]
        if a not in SCALAR:
            raise Unsupported('attribute ' + a, n)
        w = self.load(st, self.fld(i, a))
        if b == 'Node':
            return [(st, node(w))]
        if b in ('int', 'bool'):
            return [(st, w)]
        if 'char' in t:
            return [(st, Opq('str', w))]
        if b == 'Location':
            return [(st, Rec('Location', {'id': w}))]
        if b == 'Symbol':
            return [(st, Rec('Symbol', {'id': self.load(st, self.fld(i, 'Symbol'))}))]
        raise Unsupported('attribute of type ' + t, n)

    def m_Node_copy(self, l, v, args, n, st, fr):
        H = self.load(st, LV(HEAP))
        return self.added(st, select(H.el, v.f['id']))

    def added(self, st, rec):
        H = self.load(st, LV(HEAP))
        s = st.copy()
        k = fresh('new')
        s.add(k == H.n)
        return [(self.save(s, LV(HEAP), Vec(H.n + 1, store(H.el, k, rec))), node(k))]

    def m_Node_set(self, l, v, args, n, st, fr):
        a = self.attr(args[0])
        outs = []
        for s, (x,) in self.evlist(args[1:], st, fr):
            if isinstance(x, Ref):
                x = self.load(s, x.lv)
            if isinstance(x, Rec) and x.cls == 'unique_ptr':
                x = self.load(s, x.f['p'].lv).f['id']
            elif isinstance(x, Rec) and 'id' in x.f:
                x = x.f['id']
            else:
                x = strid(x)
            self.obl(s, v.f['id'] >= self.load(s, LV(('n0',))), 'only new nodes change', n, 'assert')
            outs.append((self.save(s, self.fld(v.f['id'], a), x), NONE))
        return outs

    def m_Node_transform_ast(self, l, v, args, n, st, fr):
        outs = []
        for s, x in self.lv(args[0], st, fr):
            f = self.load(s, x)
            s = s.copy()
            H, i = self.load(s, LV(HEAP)), v.f['id']
            H2 = heap_shape()
            b0 = f.f['in_literal'] if isz(f.f['in_literal']) and f.f['in_literal'].sort() == BOOL else f.f['in_literal'] != 0
            r = fresh('tr')
            s.add(z3.And(H2.n >= H.n, r == TRN(i, b0), 0 < r, r < H2.n))
            for y in kept(H, H2, H.n):
                s.add(y)
            # the visitor only ever leaves literals
            b = fresh('lit', BOOL)
            s.add(z3.Implies(b, b0))
            s = self.save(self.save(s, LV(HEAP), H2), x.sub(('f', 'in_literal')), b)
            outs.append((s, node(r)))
        return outs

    def m_unique_ptr_get(self, l, v, args, n, st, fr):
        return [(st, v)]

    def m_Node_unpool(self, l, v, args, n, st, fr):
        i = v.f['id']
        s, lv = self.tmp(st.assume(UPN(i) >= 0, UPN(i) < 2**32), Vec(UPN(i), Rec('Node', {'id': UPS(i)})))
        return [(s, Ref(lv))]

    def m_Node_visit_ast(self, l, v, args, n, st, fr):
        """the visitor sees the descendants one after the other; it must want to go on"""
        i = v.f['id']
        outs = []
        for s, f in self.evlist(args, st, fr):
            f = f[0]
            if isinstance(f, Ref):
                f = self.load(s, f.lv)
            rec = next(c for c in f.node['inner'] if isinstance(c, dict) and c['kind'] == 'CXXRecordDecl')
            ops = [g for g in self.tu.funcs if g.name == 'operator()' and any(y.get('id') == g.id for y in rec.get('inner', []) if isinstance(y, dict))]
            if not ops:
                raise Unsupported('visitor', n)
            dst = LV(('param', 0))
            d0 = self.load(s, dst).dom
            k, dk = fresh('k'), fresh('seen', d0.sort())
            s1 = s.assume(0 <= k, k < DN(i), uni(dk, d0, COLL(i, k)), uni(COLL(i, k + 1), COLL(i, k), None, self.varname(s, z3.Select(DESC(i), k))))
            s1 = self.save(s1, dst, MapV(dk, None))
            s1, c = self.tmp(s1, node(z3.Select(DESC(i), k)))
            for s2, r in self.run(ops[0], None, [c], n, s1, parent=f.fr):
                self.obl(s2, self.tobool(r), 'the visitor goes on', n, 'assert')
                self.obl(s2, uni(self.load(s2, dst).dom, d0, COLL(i, k + 1)), 'exactly the names of variables are collected', n, 'invariant')
                for root, val in s2.store.items():
                    if root in s.store and root != ('param', 0) and s.store[root] is not val:
                        raise Unsupported('visitor changes %s' % (root,), n)
            d1 = fresh('dom', d0.sort())
            s3 = s.assume(uni(d1, d0, COLL(i, DN(i))))
            outs.append((self.save(s3, dst, MapV(d1, None)), NONE))
        return outs

    def varname(self, s, c):
        return lambda x: z3.And(self.load(s, self.fld(c, 'Type')) == TYPE['Variable'], x == self.load(s, self.fld(c, 'Name')))

    # ---- vectors of nodes
    def libmethod(self, name, l, base, args, n, st, fr):
        v = self.load(st, l)
        if isinstance(v, Ref):
            v = self.load(st, v.lv)
        if isinstance(v, Rec) and name.startswith('operator ') and v.cls == 'Node':
            return [(st, v)]
        if isinstance(v, Rec) and v.cls.startswith('NV:'):
            a = v.cls[3:]
            lv = self.fld(v.f['id'], a)
            w = self.load(st, lv)
            new = lambda s: self.obl(s, v.f['id'] >= self.load(s, LV(('n0',))), 'only new nodes change', n, 'assert')
            if name in ('begin', 'cbegin'):
                return [(st, It(lv, I(0)))]
            if name in ('end', 'cend'):
                return [(st, It(lv, w.n))]
            if name == 'size':
                return [(st, w.n)]
            if name == 'empty':
                return [(st, w.n == 0)]
            if name == 'push_back':
                outs = []
                for s, (x,) in self.evlist(args, st, fr):
                    if isinstance(x, Ref):
                        x = self.load(s, x.lv)
                    w = self.load(s, lv)
                    new(s)
                    outs.append((self.save(s, lv, Vec(w.n + 1, store(w.el, w.n, x))), NONE))
                return outs
            if name == 'erase' and len(args) == 1:
                outs = []
                for s, (x,) in self.evlist(args, st, fr):
                    w = self.load(s, lv)
                    new(s)
                    self.obl(s, z3.And(0 <= x.i, x.i < w.n), 'erase-dereferenceable', n, 'bounds')
                    e = fresh('er', A1)
                    o = w.el.f['id']
                    s = s.assume(z3.ForAll([k_], z3.Select(e, k_) == z3.If(k_ < x.i, z3.Select(o, k_), z3.Select(o, k_ + 1)), patterns=[z3.Select(e, k_)]))
                    outs.append((self.save(s, lv, Vec(w.n - 1, Rec('Node', {'id': e}))), It(lv, x.i)))
                return outs
            raise Unsupported('NodeVector::' + name, n)
        return Exec.libmethod(self, name, l, base, args, n, st, fr)

    def construct(self, t, b, ta, cs, n, st, fr):
        cs2 = [c for c in cs if c['kind'] != 'CXXDefaultArgExpr']
        if b in ('Node', 'AST::Node') and len(cs2) >= 2:
            outs = []
            for s, vs in self.evlist(cs2, st, fr):
                vs = [self.load(s, x.lv) if isinstance(x, Ref) else x for x in vs]
                r = map_leaves(select(self.load(s, LV(HEAP)).el, I(0)), lambda x: fresh('nd', x.sort()))
                r.f['Type'] = vs[0]
                for x in vs[1:]:
                    if isinstance(x, Rec) and x.cls == 'Location':
                        r.f['Location'] = x.f['id']
                    elif isinstance(x, Rec) and x.cls == 'Symbol':
                        r.f['Symbol'] = x.f['id']
                    else:
                        r.f['Name'] = strid(x)
                outs += self.added(s, r)
            return outs
        if b in ('Variant', 'NodeValue', 'Optional') and len(cs2) == 1:
            outs = []
            for s, (x,) in self.evlist(cs2, st, fr):
                if b == 'Optional' and isinstance(x, Rec) and x.cls == 'Node':
                    root = ('opt', next(_cnt_))
                    s = s.copy()
                    s.store[root] = x
                    x = Rec('unique_ptr', {'p': Ref(LV(root)), 'null': z3.BoolVal(False)})
                outs.append((s, x))
            return outs
        if b in ('basic_string', 'string') and len(cs2) == 1:
            return [(s, Rec('String', {'id': strid(self.load(s, x.lv) if isinstance(x, Ref) else x)}) if not isinstance(x, Rec) else x) for s, (x,) in self.evlist(cs2, st, fr)]
        return super().construct(t, b, ta, cs, n, st, fr)

    def m_String_c_str(self, l, v, args, n, st, fr):
        return [(st, Opq('str', v.f['id']))]

    def liboperator(self, op, args, n, st, fr):
        if op == 'operator+=':
            outs = []
            for s, l in self.lv(args[0], st, fr):
                v = self.load(s, l)
                if not (isinstance(v, Rec) and v.cls == 'String'):
                    return Exec.liboperator(self, op, args, n, st, fr)
                for s2, y in self.ev(args[1], s, fr):
                    if isinstance(y, Rec) and y.cls == 'String':
                        y = Opq('str', y.f['id'])
                    s2 = self.save(s2, l, Rec('String', {'id': CAT(v.f['id'], strid(y))}))
                    outs.append((s2, Ref(l)))
            return outs
        return Exec.liboperator(self, op, args, n, st, fr)

    def f_add_string(self, args, n, st, fr, d0):
        return [(s, Opq('str', strid(v))) for s, (v,) in self.evlist(args, st, fr)]

    def f_Number(self, args, n, st, fr, d0):
        return [(s, Rec('Symbol', {'id': NUMSYM(v)})) for s, (v,) in self.evlist(args, st, fr)]

    def f_Function(self, args, n, st, fr, d0):
        return [(st, Rec('Symbol', {'id': fresh('sym')}))]

    def m_Symbol_match(self, l, v, args, n, st, fr):
        return [(s, SYMM(v.f['id'], strid(x))) for s, (x,) in self.evlist(args[:1], st, fr)]

    def m_Symbol_type(self, l, v, args, n, st, fr):
        return [(st, STY(v.f['id']))]

    def m_Symbol_name(self, l, v, args, n, st, fr):
        return [(st, Opq('str', SNAM(v.f['id'])))]


UPN, UPS = F1('UPN'), F1('UPS', z3.ArraySort(INT, INT))


def uni(d, a, b, also=None):
    """d is the union of a and b (and of what `also` describes)"""
    o = [z3.Select(y, x_) for y in (a, b) if y is not None] + ([also(x_)] if also else [])
    return z3.ForAll([x_], z3.Select(d, x_) == z3.Or(*o), patterns=[z3.Select(d, x_)])


def kept(H, H2, n):
    """the first n nodes are as before"""
    out = []
    for (p, a), (_, b) in zip(leaves(H.el), leaves(H2.el)):
        out.append(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), z3.Select(b, i_) == z3.Select(a, i_)), patterns=[z3.Select(b, i_)]))
    return out


def heap(c, old=False):
    return (c.oglob if old else c.glob)(HEAP)


def at(H, i, a):
    v = H.el.f[a]
    return Vec(z3.Select(v.n, i), map_leaves(v.el, lambda x: z3.Select(x, i))) if isinstance(v, Vec) else z3.Select(v, i)


def setup19(e, st, fd):
    st.store[HEAP] = H = heap_shape()
    st.store[('n0',)] = H.n          # nodes from here on are new
    st.add(H.n > 0)
    st.add(H.n < 2**40)
    for f in wf(H):
        st.add(f)


def wf(H):
    """attributes refer to nodes"""
    out = []
    rng = z3.And(0 <= i_, i_ < H.n)
    for a in NODES:
        x = z3.Select(H.el.f[a], i_)
        out.append(z3.ForAll([i_], z3.Implies(rng, z3.And(0 < x, x < H.n)), patterns=[x]))
    g = z3.Select(H.el.f['Guard'], i_)
    out.append(z3.ForAll([i_], z3.Implies(rng, z3.And(0 <= g, g < H.n)), patterns=[g]))
    for a in VECTOR:
        v = H.el.f[a]
        m = z3.Select(v.n, i_)
        out.append(z3.ForAll([i_], z3.Implies(rng, z3.And(0 <= m, m < 2**31)), patterns=[m]))
        y = z3.Select(z3.Select(v.el.f['id'], i_), k_)
        out.append(z3.ForAll([i_, k_], z3.Implies(z3.And(rng, 0 <= k_, k_ < m), z3.And(0 < y, y < H.n)), patterns=[y]))
    return out


def nd(c, i=0, old=True):
    return (c.o(i) if old else c.a(i)).f['id']


def valid(c, i=0):
    return [('a node', z3.And(0 < nd(c, i), nd(c, i) < heap(c, True).n))]


def frame_(c):
    H0, H1 = heap(c, True), heap(c)
    return [('nodes are only added', H1.n >= H0.n)] + [('existing nodes are kept', f) for f in kept(H0, H1, H0.n)]


# ------------------------------------------------------------ relations
def rel19(op, a, b):
    r = z3.BoolVal(False)
    for o, f in (('=', a == b), ('!=', a != b), ('<', a < b), ('<=', a <= b), ('>', a > b), ('>=', a >= b)):
        r = z3.If(op == strid(StrV(o)), f, r)
    return r


def known19(op):
    return z3.Or(*[op == strid(StrV(o)) for o in RELS])


a_, b_ = z3.Ints('a!19 b!19')
NR = Contract(res=lambda c, s: Opq('str', fresh('neg')), throws=lambda c: z3.Not(known19(strid(c.o(0)))),
              ensures=lambda c: [('a relation', z3.And(known19(strid(c.o(0))), known19(strid(c.res_)))), ('the complement', compl(strid(c.o(0)), strid(c.res_)))])


def compl(o, r):
    return z3.And(*[z3.Implies(o == strid(StrV(x)), r == strid(StrV(y))) for x, y in (('=', '!='), ('!=', '='), ('<', '>='), ('<=', '>'), ('>', '<='), ('>=', '<'))])


UNITS = [Unit('C19', TU_, 'negate_relation', NR, setup=setup19, eng=AstExec, name='C19/negate_relation')]


def lem_rel():
    a, b, o, r = z3.Ints('a b o r')
    h, l, B = z3.Bools('h l B')
    return [('a relation and its complement exclude each other and one of them holds', [known19(o), compl(o, r)], rel19(r, a, b) == z3.Not(rel19(o, a, b))),
            ('moving a literal to the head', [h == z3.Not(l)], z3.Implies(z3.And(B, l), z3.BoolVal(False)) == z3.Implies(B, h))]


UNITS.append(Lemma('C19', 'C19/lemma: a constraint says that the rest of its body implies the complement of a literal', lem_rel))


# ------------------------------------------------------------ names
def named(H, t, names):
    """a term is one of the given constants"""
    f = z3.And(at(H, t, 'External') == 0, at(H, t, 'Arguments').n == 0, z3.Or(*[at(H, t, 'Name') == x for x in names]))
    s = z3.Or(*[SYMM(at(H, t, 'Symbol'), x) for x in names])
    ty = at(H, t, 'Type')
    return z3.If(ty == TYPE['SymbolicTerm'], s, z3.And(ty == TYPE['Function'], f))


MT = Contract(ret='bool', requires=valid, ensures=lambda c: [('one of the names', c.res == named(heap(c), nd(c), [strid(c.o(k)) for k in range(1, len(c.args))]))])
for _k in (1, 2, 7):
    UNITS.append(Unit('C19', TU_, 'match', MT, setup=setup19, eng=AstExec, name='C19/match of %d names' % _k, targs=['?'], nparams=_k + 1, sig=r'Node &(, const char \*){%d}\)' % _k, max_paths=500))


# ------------------------------------------------------------ moving theory atoms to the head
def sr_ens(c):
    H0, H1, a, r = heap(c, True), heap(c), nd(c), c.res.f['id']
    head = at(H0, a, 'Head')
    atom = at(H0, head, 'Atom')
    v, s = at(H0, atom, 'Value'), at(H0, head, 'Sign')
    false = z3.And(at(H0, a, 'Type') == TYPE['Rule'], at(H0, head, 'Type') == TYPE['Literal'], at(H0, atom, 'Type') == TYPE['BooleanConstant'], z3.Or(z3.And(v == 0, s != 1), z3.And(v == 1, s == 1)))
    B0, B1 = at(H0, a, 'Body'), at(H1, r, 'Body')
    j = z3.Int('j!sr')
    lit = z3.Select(B0.el.f['id'], j)
    tat = at(H0, lit, 'Atom')
    tt = at(H0, tat, 'Term')
    neg = at(H0, lit, 'Sign') == 1
    h = at(H1, r, 'Head')
    g0, g1 = at(H0, tat, 'Guard'), at(H1, h, 'Guard')
    same = lambda p, q, skip: z3.And(*[z3.Select(y, q) == z3.Select(x, p) for (n_, x), (_, y) in zip(leaves(H0.el), leaves(H1.el)) if n_[0] not in skip])
    shifted = z3.And(0 <= j, j < B0.n, at(H0, lit, 'Type') == TYPE['Literal'], at(H0, tat, 'Type') == TYPE['TheoryAtom'],
                     z3.Or(named(H0, tt, [strid(StrV('sum'))]), z3.And(neg, named(H0, tt, [strid(StrV('diff'))]))),
                     same(a, r, ('Head', 'Body')), B1.n == B0.n - 1,
                     z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < B1.n), z3.Select(B1.el.f['id'], k_) == z3.Select(B0.el.f['id'], z3.If(k_ < j, k_, k_ + 1))), patterns=[z3.Select(B1.el.f['id'], k_)]),
                     same(tat, h, ('Guard',)), g0 != 0, g1 != 0,
                     z3.If(neg, g1 == g0, z3.And(same(g0, g1, ('OperatorName',)), known19(at(H0, g0, 'OperatorName')), compl(at(H0, g0, 'OperatorName'), at(H1, g1, 'OperatorName')))))
    return [('a node', z3.And(0 < r, r < H1.n)), ('unchanged, or the complement of a linear constraint in the body becomes the head of a constraint', z3.Or(r == a, z3.And(false, r >= H0.n, z3.Exists([j], shifted, patterns=[lit]))))] + frame_(c)


def sr_inv(L):
    it, H, H0 = L['it'], L.get(LV(HEAP)), L.old(LV(HEAP))
    return [('index', z3.And(0 <= it.i, it.i <= L['ie'].i)), ('nothing changes before a literal is found', z3.And(H.n == H0.n, *[x == y for (_, x), (_, y) in zip(leaves(H.el), leaves(H0.el))]))]


SR = Contract(requires=lambda c: valid(c) + boolc(c), ensures=sr_ens, modifies=[('glob', HEAP)], throws=lambda c: None, res=lambda c, s: node(fresh('rule')))


def boolc(c):
    H = heap(c, True)
    v = z3.Select(H.el.f['Value'], i_)
    return [('truth values', z3.ForAll([i_], z3.And(0 <= v, v <= 1), patterns=[v]))]


C19 = {'Clingcon::negate_relation': NR, 'Clingcon::match<?>': MT, 'Clingcon::check_syntax': Contract(throws=lambda c: z3.Not(c.o(0)), ensures=lambda c: [('condition', c.o(0))])}
UNITS.append(Unit('C19', TU_, 'shift_rule', SR, setup=setup19, eng=AstExec, contracts=C19, name='C19/shift_rule', loops={('shift_rule', 0): LoopSpec(sr_inv)}))


# ------------------------------------------------------------ tagging
def sid_(s):
    return strid(StrV(s))


def tt_ens(c):
    H0, H1, a, r = heap(c, True), heap(c), nd(c), c.res.f['id']
    return [('a new node', z3.And(H0.n <= r, r < H1.n)), ('the tagged name', at(H1, r, 'Name') == CAT(CAT(sid_('__'), at(H0, a, 'Name')), strid(c.o(1)))),
            ('all else is copied', z3.And(*[z3.Select(y, r) == z3.Select(x, a) for (n_, x), (_, y) in zip(leaves(H0.el), leaves(H1.el)) if n_[0] != 'Name']))] + frame_(c)


TAG = Contract(requires=lambda c: valid(c) + [('not a symbolic term', at(heap(c, True), nd(c), 'Type') != TYPE['SymbolicTerm'])], ensures=tt_ens, modifies=[('glob', HEAP)],
               throws=lambda c: at(heap(c, True), nd(c), 'Type') != TYPE['Function'], res=lambda c, s: node(fresh('tagged')))
UNITS.append(Unit('C19', TU_, 'tag_terms', TAG, setup=setup19, eng=AstExec, contracts=C19, name='C19/tag_terms'))


# ------------------------------------------------------------ variables
def vars_(i):
    return COLL(i, DN(i))


def desc_def():
    """the descendants of existing nodes are existing nodes"""
    return []


def empty(i):
    return z3.ForAll([x_], z3.Not(z3.Select(COLL(i, I(0)), x_)), patterns=[z3.Select(COLL(i, I(0)), x_)])


def dom(v):
    return v.dom if isinstance(v, MapV) else v


CV1 = Contract(requires=lambda c: [('a node', z3.And(0 < nd(c, 1), nd(c, 1) < heap(c, True).n))], modifies=[(0,)], ensures=lambda c: [('the variables of the node are added', uni(dom(c.a(0)), dom(c.o(0)), vars_(nd(c, 1))))])
UNITS.append(Unit('C19', TU_, 'collect_variables', CV1, setup=setup19, eng=AstExec, contracts=C19, name='C19/collect_variables', sig=r'void \(VarSet', assume=lambda c: [empty(nd(c, 1)), DN(nd(c, 1)) >= 0]))


def unfold_vu(el, k):
    return [uni(VU(el, z3.simplify(k + 1)), VU(el, k), vars_(z3.Select(el, k)))]


def none(d):
    return z3.ForAll([x_], z3.Not(z3.Select(d, x_)), patterns=[z3.Select(d, x_)])


def cv_inv(L):
    v = L.only(MapV)
    el = L.e.load(L.st, L['ib'].c).el.f['id']
    return [('index', z3.And(0 <= L['ib'].i, L['ib'].i <= L['ie'].i)), ('variables so far', uni(v.dom, VU(el, L['ib'].i), None))]


def cv_facts(L):
    it = L['ib']
    el = L.e.load(L.st, it.c).el.f['id']
    return [none(VU(el, I(0)))] + unfold_vu(el, it.i)


def rng_(c, k=0):
    it = c.o(k)
    return c.e.load(c.pre, it.c)


CV2 = Contract(requires=lambda c: [('the whole range', z3.And(c.o(0).i == 0, c.o(1).i == rng_(c).n, rng_(c).n >= 0)), ('nodes', z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < rng_(c).n), z3.And(0 < z3.Select(rng_(c).el.f['id'], k_), z3.Select(rng_(c).el.f['id'], k_) < heap(c, True).n)), patterns=[z3.Select(rng_(c).el.f['id'], k_)]))],
               ensures=lambda c: [('the variables of all nodes', uni(c.res.dom, VU(rng_(c).el.f['id'], rng_(c).n), None))], res=lambda c, s: MapV(fresh('vars', z3.ArraySort(INT, BOOL)), None))
KEY2 = 'Clingcon::collect_variables<Clingo::ArrayIterator<Clingo::AST::NodeRef, Clingo::AST::NodeVector *>>'
el0 = z3.Int('elem!cv')


def cv_arg(k):
    def f(e, st):
        lv = LV(HEAP).sub(('i', el0)).sub(('f', 'Terms'))
        return It(lv, I(0) if k == 0 else fresh('end'))
    return f


UNITS.append(Unit('C19', TU_, 'collect_variables', CV2, setup=setup19, eng=AstExec, contracts=dict(C19, **{'Clingcon::collect_variables': CV1}), name='C19/collect_variables of a range', targs=['Clingo::ArrayIterator<Clingo::AST::NodeRef, Clingo::AST::NodeVector *>'],
                  loops={('collect_variables', 0): LoopSpec(cv_inv, facts=cv_facts)}, assume=lambda c: [none(VU(rng_(c).el.f['id'], I(0)))], opts={'args': {0: cv_arg(0), 1: cv_arg(1)}}))


# ------------------------------------------------------------ tuples
def extra(H0, a):
    """the variables to add to the tuple of an element"""
    t, cd = at(H0, a, 'Terms'), at(H0, a, 'Condition')
    return lambda x: z3.And(z3.Select(VU(cd.el.f['id'], cd.n), x), z3.Not(z3.Select(VU(t.el.f['id'], t.n), x)), x != sid_('_'))


def is_num(H, i, num):
    return z3.And(at(H, i, 'Type') == TYPE['SymbolicTerm'], at(H, i, 'Symbol') == NUMSYM(num))


def is_var(H, i, x):
    return z3.And(at(H, i, 'Type') == TYPE['Variable'], at(H, i, 'Name') == x)


SEENX = z3.Function('SEENX', INT, BOOL)


def rw_ens(c):
    H0, H1, a, r, num = heap(c, True), heap(c), nd(c), c.res.f['id'], c.o(1)
    t0, t1 = at(H0, a, 'Terms'), at(H1, r, 'Terms')
    tid = lambda k: z3.Select(t1.el.f['id'], k)
    ex = extra(H0, a)
    k0 = z3.If(num >= 0, 2, 1)
    return [('a new node', z3.And(H0.n <= r, r < H1.n)), ('one term', z3.And(t0.n == 1, tid(0) == z3.Select(t0.el.f['id'], 0))), ('its number comes second', z3.Implies(num >= 0, z3.And(t1.n >= 2, is_num(H1, tid(1), num)))),
            ('then variables of the condition that are not in the term', z3.And(t1.n >= k0, z3.ForAll([k_], z3.Implies(z3.And(k0 <= k_, k_ < t1.n), z3.And(at(H1, tid(k_), 'Type') == TYPE['Variable'], ex(at(H1, tid(k_), 'Name')))), patterns=[tid(k_)]))),
            ('all of them', z3.ForAll([x_], z3.Implies(ex(x_), z3.Exists([k_], z3.And(SEENX(k_), k0 <= k_, k_ < t1.n, is_var(H1, tid(k_), x_)), patterns=[SEENX(k_)])), patterns=[SEENX(x_)])),
            ('all else is copied', z3.And(*[z3.Select(y, r) == z3.Select(x, a) for (n_, x), (_, y) in zip(leaves(H0.el), leaves(H1.el)) if n_[0] != 'Terms']))] + frame_(c)


def visited(m):
    return lambda x: z3.Or(m.end, x < m.k)


def rw_inv0(L):
    m = L.mit()
    t = L.vec if isinstance(L.vec, MapV) else L.e.load(L.st, m.c)
    v, v0 = L['vars_condition'], L.at_entry('vars_condition')
    H, Hp = L.get(LV(HEAP)), L.old(LV(HEAP))
    return [('heap', z3.And(H.n == Hp.n, *[x == y for (_, x), (_, y) in zip(leaves(H.el), leaves(Hp.el))])), ('position', z3.Or(m.end, z3.Select(t.dom, m.k))),
            ('variables of the term are taken out', z3.ForAll([x_], z3.Select(v.dom, x_) == z3.And(z3.Select(v0.dom, x_), z3.Not(z3.And(z3.Select(t.dom, x_), visited(m)(x_)))), patterns=[z3.Select(v.dom, x_)]))]


def rw_inv1(L):
    m = L.mit()
    H, Hp, H0 = L.get(LV(HEAP)), L.old(LV(HEAP)), L.e.load(L.e.pre19, LV(HEAP))
    v = L['vars_condition']
    r = L['ret'].f['id']
    t, tp = at(H, r, 'Terms'), at(Hp, r, 'Terms')
    tid = lambda k: z3.Select(t.el.f['id'], k)
    now = [z3.Implies(z3.And(0 <= i_, i_ < Hp.n), z3.Select(y, i_) == z3.Select(x, i_)) for x, y in []]
    out = [('nodes', z3.And(H.n >= Hp.n, r < Hp.n)), ('position', z3.Or(m.end, z3.Select(v.dom, m.k))), ('terms grow', t.n >= tp.n)]
    out += [('earlier terms are kept', z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < tp.n), tid(k_) == z3.Select(tp.el.f['id'], k_)), patterns=[tid(k_)]))]
    out += [('new terms', z3.ForAll([k_], z3.Implies(z3.And(tp.n <= k_, k_ < t.n), z3.And(0 < tid(k_), tid(k_) < H.n, at(H, tid(k_), 'Type') == TYPE['Variable'], z3.Select(v.dom, at(H, tid(k_), 'Name')))), patterns=[tid(k_)])),
            ('all so far', z3.ForAll([x_], z3.Implies(z3.And(z3.Select(v.dom, x_), visited(m)(x_)), z3.Or(z3.And(tp.n < t.n, is_var(H, tid(z3.simplify(t.n - 1)), x_)), z3.Exists([k_], z3.And(SEENX(k_), tp.n <= k_, k_ < t.n, is_var(H, tid(k_), x_)), patterns=[SEENX(k_)]))), patterns=[SEENX(x_)]))]
    for (p, x), (_, y) in zip(leaves(Hp.el), leaves(H.el)):
        g = z3.And(0 <= i_, i_ < Hp.n) if p[0] != 'Terms' else z3.And(0 <= i_, i_ < Hp.n, i_ != r)
        out.append(('nodes are kept', z3.ForAll([i_], z3.Implies(g, z3.Select(y, i_) == z3.Select(x, i_)), patterns=[z3.Select(y, i_)])))
    return out


def rw_facts1(L):
    m = L.mit()
    t = at(L.get(LV(HEAP)), L['ret'].f['id'], 'Terms')
    return [SEENX(m.k), SEENX(t.n), z3.ForAll([x_], SEENX(x_), patterns=[SEENX(x_)])]


def setup_rw(e, st, fd):
    setup19(e, st, fd)
    e.pre19 = st


RW = Contract(requires=lambda c: valid(c), ensures=rw_ens, modifies=[('glob', HEAP)], throws=lambda c: at(heap(c, True), nd(c), 'Terms').n != 1, res=lambda c, s: node(fresh('elem')), facts=lambda c: [EWR(nd(c), c.res.f['id'], c.o(1))])
UNITS.append(Unit('C19', TU_, 'TheoryRewriter::rewrite_tuple', RW, setup=setup_rw, eng=AstExec, contracts=dict(C19, **{KEY2: CV2}), name='C19/rewrite_tuple', timeout=30000, loops={('rewrite_tuple', 0): LoopSpec(rw_inv0), ('rewrite_tuple', 1): LoopSpec(rw_inv1, facts=rw_facts1)}))


# ------------------------------------------------------------ atoms
THEORY = ['sum', 'nsum', 'diff', 'distinct', 'disjoint', 'minimize', 'maximize']
ROOT = lambda b: z3.If(b, sid_('_b'), sid_('_h'))


def lit_(v):
    b = v.f['in_literal']
    return b if b.sort() == BOOL else b != 0


def op_ens(c):
    H0, H1, a, r = heap(c, True), heap(c), nd(c), c.res.f['id']
    b = lit_(c.old)
    ty = at(H0, a, 'Type')
    tt = at(H0, a, 'Term')
    ours = z3.And(ty == TYPE['TheoryAtom'], named(H0, tt, [sid_(x) for x in THEORY]))
    tags = named(H0, tt, [sid_(x) for x in ('sum', 'nsum', 'diff')])
    E0, E1 = at(H0, a, 'Elements'), at(H1, r, 'Elements')
    nt = at(H1, r, 'Term')
    tag = lambda x: CAT(CAT(sid_('__'), at(H0, tt, 'Name')), x)
    return [('a node', z3.And(0 < r, r < H1.n)),
            ('only theory atoms of the system are changed', z3.Implies(z3.Not(ours), r == TRN(a, z3.Or(b, ty == TYPE['Literal'])))),
            ('literals are left again', z3.Implies(lit_(c.this), z3.And(b, ty != TYPE['Literal']))),
            ('atoms are copied', z3.Implies(ours, z3.And(r >= H0.n, *[z3.Select(y, r) == z3.Select(x, a) for (n_, x), (_, y) in zip(leaves(H0.el), leaves(H1.el)) if n_[0] not in ('Term', 'Elements')]))),
            ('elements are numbered if there is more than one', z3.Implies(ours, z3.And(E1.n == E0.n, z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < E1.n), EWR(z3.Select(E0.el.f['id'], k_), z3.Select(E1.el.f['id'], k_), z3.If(E0.n > 1, k_, -1))), patterns=[z3.Select(E1.el.f['id'], k_)])))),
            ('constraints are tagged with their place', z3.Implies(ours, z3.If(tags, at(H1, nt, 'Name') == tag(ROOT(b)), nt == tt)))] + frame_(c)


def op_inv(L):
    it, H, Hp = L['it'], L.get(LV(HEAP)), L.old(LV(HEAP))
    r = L['atom'].f['id']
    E, Ep = at(H, r, 'Elements'), at(Hp, r, 'Elements')
    e, ep = E.el.f['id'], Ep.el.f['id']
    out = [('index', z3.And(0 <= it.i, it.i <= E.n, L['ie'].i == E.n, E.n == Ep.n, H.n >= Hp.n)), ('number', L['number'] == it.i + z3.If(E.n > 1, 0, -1)),
           ('rewritten so far', z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < it.i), z3.And(EWR(z3.Select(ep, k_), z3.Select(e, k_), z3.If(E.n > 1, k_, -1)), z3.Select(e, k_) > 0, z3.Select(e, k_) < H.n)), patterns=[z3.Select(e, k_)])),
           ('not yet rewritten', z3.ForAll([k_], z3.Implies(z3.And(it.i <= k_, k_ < E.n), z3.Select(e, k_) == z3.Select(ep, k_)), patterns=[z3.Select(e, k_)]))]
    for (p, x), (_, y) in zip(leaves(Hp.el), leaves(H.el)):
        g = z3.And(0 <= i_, i_ < Hp.n) if p[0] != 'Elements' else z3.And(0 <= i_, i_ < Hp.n, i_ != r)
        out.append(('nodes are kept', z3.ForAll([i_], z3.Implies(g, z3.Select(y, i_) == z3.Select(x, i_)), patterns=[z3.Select(y, i_)])))
    return out


def op_req(c):
    H = heap(c, True)
    t = at(H, nd(c), 'Term')
    return valid(c) + [('theory atoms are named by functions', z3.Implies(at(H, nd(c), 'Type') == TYPE['TheoryAtom'], at(H, t, 'Type') == TYPE['Function']))]


OP = Contract(requires=op_req, ensures=op_ens, modifies=[('glob', HEAP), ('this', 'in_literal')], throws=lambda c: None, res=lambda c, s: node(fresh('tr')))
COP = dict(C19, **{'Clingcon::TheoryRewriter::rewrite_tuple': RW, 'Clingcon::tag_terms': TAG})
UNITS.append(Unit('C19', TU_, 'TheoryRewriter::operator()', OP, setup=setup19, eng=AstExec, contracts=COP, name='C19/TheoryRewriter', loops={('operator()', 0): LoopSpec(op_inv)}))


# ------------------------------------------------------------ statements
OUT = ('glob', 'out')
SHR = z3.Function('SHR', INT, INT, BOOL)            # the second node is what shift_rule returned for the first
RWN = z3.Function('RWN', INT, INT, BOOL)            # the second node is what the rewriter returned for the first


class StmExec(AstExec):
    def m_Node_transform_ast(self, l, v, args, n, st, fr):
        outs = []
        for s, r in AstExec.m_Node_transform_ast(self, l, v, args, n, st, fr):
            outs.append((s, r))
        return outs

    def call_opaque(self, v, argn, n, st, fr):
        if isinstance(v, Opq) and v.name == 'callback':
            outs = []
            for s, (x,) in self.evlist(argn, st, fr):
                if isinstance(x, Ref):
                    x = self.load(s, x.lv)
                o = self.load(s, LV(OUT))
                outs.append((self.save(s, LV(OUT), Vec(o.n + 1, store(o.el, o.n, x.f['id']))), NONE))
            return outs
        return None


def setup_stm(e, st, fd):
    setup19(e, st, fd)
    st.store[OUT] = Vec(I(0), fresh('out', A1))


def stm(c_, u, x, shift):
    """statement handed on for an unpooled statement"""
    y = z3.Int('y!st')
    return z3.If(shift, z3.Exists([y], z3.And(SHR(u, y), x == TRN(y, z3.BoolVal(False))), patterns=[SHR(u, y)]), x == TRN(u, z3.BoolVal(False)))


def tf_ens(c):
    o = c.glob(OUT)
    i = nd(c)
    return [('one statement for each unpooled statement', o.n == UPN(i)), ('shifted if asked for and rewritten', z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < o.n), stm(c, z3.Select(UPS(i), k_), z3.Select(o.el, k_), c.o(2))), patterns=[z3.Select(o.el, k_)]))] + frame_(c)


def tf_inv(L):
    H, Hp, o = L.get(LV(HEAP)), L.old(LV(HEAP)), L.get(LV(OUT))
    i = L.p0(0).f['id']
    V = L.vec
    out = [('index', z3.And(0 <= L.k, L.k <= V.n, V.n == UPN(i), H.n >= Hp.n, o.n == L.k)), ('not yet handed on', z3.ForAll([k_], z3.Implies(z3.And(L.k <= k_, k_ < V.n), z3.Select(V.el.f['id'], k_) == z3.Select(UPS(i), k_)), patterns=[z3.Select(V.el.f['id'], k_)])),
           ('handed on', z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < L.k), stm(L, z3.Select(UPS(i), k_), z3.Select(o.el, k_), L.p0(2))), patterns=[z3.Select(o.el, k_)]))]
    for (p, x), (_, y) in zip(leaves(Hp.el), leaves(H.el)):
        out.append(('nodes are kept', z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < Hp.n), z3.Select(y, i_) == z3.Select(x, i_)), patterns=[z3.Select(y, i_)])))
    v = z3.Select(H.el.f['Value'], i_)
    return out


def unp(c):
    i = nd(c)
    u = z3.Select(UPS(i), k_)
    return [z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < UPN(i)), z3.And(0 < u, u < heap(c, True).n)), patterns=[u])]


SRC = Contract(requires=valid, ensures=lambda c: [('a node', z3.And(0 < c.res.f['id'], c.res.f['id'] < heap(c).n))] + frame_(c), modifies=[('glob', HEAP)], throws=lambda c: None, res=lambda c, s: node(fresh('rule')), facts=lambda c: [SHR(nd(c), c.res.f['id'])])
TF = Contract(requires=valid, ensures=tf_ens, modifies=[('glob', HEAP), ('glob', OUT)], throws=lambda c: None)
UNITS.append(Unit('C19', TU_, 'transform', TF, setup=setup_stm, eng=StmExec, contracts=dict(C19, **{'Clingcon::shift_rule': SRC}), name='C19/transform', assume=unp, loops={('transform', 0): LoopSpec(tf_inv)}, opts={'args': {1: lambda e, st: Opq('callback', None)}}))
