"""Statement and expression semantics over clang's AST."""
import z3, itertools
from engine import *

SKIP = ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'ParenExpr', 'ConstantExpr', 'CXXBindTemporaryExpr',
        'SubstNonTypeTemplateParmExpr', 'FullExpr', 'CXXStdInitializerListExpr', 'CXXRewrittenBinaryOperator')


def inner(n):
    return [c for c in n.get('inner', []) if isinstance(c, dict) and c.get('kind') not in (None, 'FullComment') and not c.get('kind', '').endswith('Attr') and c.get('kind') not in ('NonTypeTemplateParmDecl',)]


def callee_name(n):
    """name and referenced decl of the callee of CallExpr"""
    c = n
    while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'):
        c = inner(c)[0]
    return c


class Exec(Engine):
    # =================================================================== lvalues
    def lv(self, n, st, fr):
        k = n['kind']
        if k in SKIP:
            return self.lv(inner(n)[0], st, fr)
        if k == 'ImplicitCastExpr' or k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr'):
            ck = n.get('castKind')
            if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
                return self.lv(inner(n)[0], st, fr)
        if k == 'InitListExpr' and n.get('valueCategory') == 'lvalue' and len(inner(n)) == 1:
            return self.lv(inner(n)[0], st, fr)
        if k == 'DeclRefExpr':
            return [(st, self.declref(n, st, fr))]
        if k == 'MemberExpr':
            base = inner(n)[0]
            out = []
            nm = n['name']
            if n.get('isArrow'):
                bases = [(s, self.deref(s, b, n)) for s, b in self.ev(base, st, fr)]
            else:
                bases = self.lv(base, st, fr)
            if '(anonymous' in n.get('type', {}).get('qualType', '') and ('anonymous' in nm or not nm):
                return bases            # members of an anonymous union live in the enclosing object
            for s, b in bases:
                if nm in self.UNION:
                    self.union_access(s, b, nm, n)
                out.append((s, self.field(s, b, nm, n)))
            return out
        if k == 'CXXThisExpr':
            raise Unsupported('this as lvalue', n)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            return [(s, self.deref(s, v, n)) for s, v in self.ev(inner(n)[0], st, fr)]
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            out = []
            for s, l in self.lv(inner(n)[0], st, fr):
                s = self.incdec(s, l, n['opcode'], n)
                out.append((s, l))
            return out
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>='):
            return self.assign(n, st, fr)
        if k == 'ConditionalOperator':
            c, a, b = inner(n)
            out = []
            for s, v in self.ev(c, st, fr):
                for s2, br in self.fork(s, self.tobool(v)):
                    out += self.lv(a if br else b, s2, fr)
            return out
        if k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr'):
            out = []
            for s, v in self.call(n, st, fr):
                if isinstance(v, Ref):
                    out.append((s, v.lv))
                else:
                    out.append(self.tmp(s, v))
            return out
        if k == 'ArraySubscriptExpr':
            a, b = inner(n)
            out = []
            for s, v in self.ev(a, st, fr):
                for s2, i in self.ev(b, s, fr):
                    if isinstance(v, It):
                        out.append((s2, LV(v.c.root, v.c.path + (('i', v.i + i),))))
                    elif isinstance(v, Ref):
                        out.append((s2, v.lv.sub(('i', i))))
                    else:
                        raise Unsupported('subscript', n)
            return out
        out = []
        for s, v in self.ev(n, st, fr):
            if isinstance(v, Ref) and n.get('valueCategory') == 'lvalue':
                out.append((s, v.lv))
            else:
                out.append(self.tmp(s, v))
        return out

    # union members: the ghost field '#active' says which member is alive
    UNION = {'litmap_': 1, 'litvec_': 2}
    union_raw = False

    def union_access(self, s, b, nm, n):
        v = self.load(s, b)
        if isinstance(v, Ref):
            v = self.load(s, v.lv)
        if isinstance(v, Rec) and '#active' in v.f and not self.union_raw:
            self.obl(s, v.f['#active'] == self.UNION[nm], 'union-member-active', n, 'bounds')

    def union_set(self, s, l, val, n):
        own = LV(l.root, l.path[:-1])
        v = self.load(s, own)
        if isinstance(v, Rec) and '#active' in v.f:
            return self.save(s, own.sub(('f', '#active')), I(val))
        return s

    def field(self, st, lv, nm, node):
        v = self.load(st, lv)
        if isinstance(v, Ref):   # reference member / pointer alias
            v, lv = self.load(st, v.lv), v.lv
        if isinstance(v, Opq):
            r = self.opaque_field(st, lv, v, nm, node)
            if r is not None:
                return r
        if isinstance(v, Rec) and nm in v.f:
            w = v.f[nm]
            if isinstance(w, Ref) and (lv.root[0] == 'mit' or self.is_ref_member(node)):
                return w.lv
            return lv.sub(('f', nm))
        if nm == '' and isinstance(v, Rec):  # anonymous union/struct member
            return lv
        raise Unsupported('member %s of %s' % (nm, v), node)

    def opaque_field(self, st, lv, v, nm, node):
        return None

    def is_ref_member(self, node):
        d = self.tu.decls.get(node.get('referencedMemberDecl'))
        if d is None:
            return False
        t = d.get('type', {}).get('qualType', '')
        return t.rstrip().endswith('&')

    def deref(self, st, v, node):
        if isinstance(v, Ref):
            return v.lv
        if isinstance(v, It):
            c = v.c
            i = v.i - 1 if v.rev else v.i
            vec = self.load(st, c)
            if isinstance(vec, Vec):
                self.obl(st, z3.And(0 <= i, i < vec.n), 'iterator-dereferenceable', node, 'bounds')
                self.unfold_at(st, vec, i)
            return c.sub(('i', i))
        if isinstance(v, MIt):
            if v.rev:
                v = self.map_prev(st, v, node)
            self.obl(st, z3.Not(v.end), 'iterator-dereferenceable', node, 'bounds')
            root = ('mit', next(_cnt_))
            m = self.load(st, v.c)
            if m.val is None:
                st.store[root] = self.setkey(st, m, v.k)
            else:
                st.store[root] = Opq('mapitem', (v.c, v.k))
            return LV(root)
        if isinstance(v, Rec) and v.cls == 'unique_ptr':
            return v.f['p'].lv
        if isinstance(v, Rec) and v.cls == 'Ptr':
            # an object known by its identity only
            root = ('pobj', next(_cnt_))
            st.store[root] = Rec('Obj', dict(v.f))
            return LV(root)
        raise Unsupported('dereference of %s' % (v,), node)

    def declref(self, n, st, fr):
        d = n['referencedDecl']
        return self.declid_lv(d, st, fr, n)

    def declid_lv(self, d, st, fr, n):
        i = d['id']
        f = fr
        while f is not None:
            key = (i, f.id)
            if key in st.env:
                return st.env[key]
            if key in st.store:
                return LV(key)
            f = f.parent
        cn = self.tu.consts.get(i)
        if cn is None:
            c2 = self.tu.decls.get(i)
            cn = c2 if c2 is not None and c2.get('init') else None
        if cn is not None:
            root = ('const', i)
            ini = inner(cn)
            outs = self.ev(ini[-1], st, Frame(None))
            if len(outs) != 1:
                raise Unsupported('constant initialiser', n)
            v = outs[0][1]
            st.store[root] = v
            return LV(root)
        h = self.global_consts(d, n)
        if h is not None:
            root = ('const', i)
            st.store[root] = h
            return LV(root)
        raise Unsupported('unknown variable %s' % d.get('name'), n)

    def global_consts(self, d, n):
        return None

    # =================================================================== rvalues
    def tobool(self, v):
        if isz(v):
            return v if v.sort() == BOOL else v != 0
        if isinstance(v, Rec) and v.cls == 'optional':
            return v.f['has']
        if isinstance(v, Ref):
            return z3.BoolVal(True)
        if v is NULL:
            return z3.BoolVal(False)
        raise Unsupported('boolean of %s' % v)

    def evlist(self, ns, st, fr):
        """evaluate list of expressions (rvalues) -> [(st,[vals])]"""
        outs = [(st, [])]
        for n in ns:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(n, s, fr):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def ev(self, n, st, fr):
        k = n['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is not None:
            return m(n, st, fr)
        if k in SKIP:
            return self.ev(inner(n)[0], st, fr)
        raise Unsupported('expression ' + k, n)

    def ev_ArraySubscriptExpr(self, n, st, fr):
        out = []
        for s, l in self.lv(n, st, fr):
            if l.path and l.path[-1][0] == 'i':
                c = self.load(s, LV(l.root, l.path[:-1]))
                if isinstance(c, Vec):
                    i = l.path[-1][1]
                    self.obl(s, z3.And(0 <= i, i < c.n), 'index in bounds', n, 'bounds')
                    s = s.copy()
                    self.unfold_at(s, c, i)
            out.append((s, Ref(l)) if n.get('valueCategory') == 'lvalue' and isinstance(self.load(s, l), (Rec, Vec)) else (s, self.load(s, l)))
        return out

    def ev_IntegerLiteral(self, n, st, fr):
        return [(st, I(int(n['value'])))]

    def ev_CharacterLiteral(self, n, st, fr):
        return [(st, I(int(n['value'])))]

    def ev_FloatingLiteral(self, n, st, fr):
        return [(st, z3.RealVal(n['value']))]

    def ev_CXXBoolLiteralExpr(self, n, st, fr):
        return [(st, z3.BoolVal(bool(n['value'])))]

    def ev_StringLiteral(self, n, st, fr):
        return [(st, StrV(n['value'].strip('"')))]

    def ev_CXXNullPtrLiteralExpr(self, n, st, fr):
        return [(st, NULL)]

    def ev_GNUNullExpr(self, n, st, fr):
        return [(st, NULL)]

    def ev_ImplicitValueInitExpr(self, n, st, fr):
        return [(st, self.default(self.ty(n), n))]

    ev_CXXScalarValueInitExpr = ev_ImplicitValueInitExpr

    def ev_CXXThisExpr(self, n, st, fr):
        f = fr
        while f is not None and f.this is None:
            f = f.parent
        if f is None:
            raise Unsupported('this', n)
        return [(st, Ref(f.this))]

    def ev_DeclRefExpr(self, n, st, fr):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            if d['id'] in self.tu.enums:
                return [(st, I(self.tu.enums[d['id']]))]
            v = self.enum_const(d, n)
            if v is None:
                raise Unsupported('enum constant %s' % d['name'], n)
            return [(st, I(v))]
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return [(st, Opq('fn', d))]
        if d.get('name') == 'nullopt':
            return [(st, NONE)]
        l = self.declref(n, st, fr)
        return [(st, self.load(st, l))]

    ENUMS = {'Free': 0, 'True': 1, 'False': 2, 'Learnt': 0, 'Static': 1, 'Volatile': 2, 'VolatileStatic': 3, 'LeftImplication': -1, 'RightImplication': 1, 'Equivalence': 0}

    def enum_const(self, d, n):
        return self.ENUMS.get(d['name'])

    def ev_MemberExpr(self, n, st, fr):
        d = self.tu.decls.get(n.get('referencedMemberDecl'))
        return [(s, self.load(s, l)) for s, l in self.lv(n, st, fr)]

    def ev_CXXDefaultArgExpr(self, n, st, fr):
        c = inner(n)
        if c:
            return self.ev(c[0], st, fr)
        return [(st, NONE)]

    def ev_CXXDefaultInitExpr(self, n, st, fr):
        c = inner(n)
        if c:
            return self.ev(c[0], st, fr)
        raise Unsupported('default init', n)

    def ev_ImplicitCastExpr(self, n, st, fr):
        ck = n.get('castKind')
        sub = inner(n)[0]
        if ck == 'LValueToRValue':
            outs = [(s, self.load(s, l), l) for s, l in self.lv(sub, st, fr)]
            # pointers to the first element of an array are kept as the array
            return [(s, It(l, I(0)) if isinstance(v, Vec) and self.ty(n).rstrip().endswith('*') else v) for s, v, l in outs]
        if ck in ('NoOp', 'FunctionToPointerDecay', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived', 'ArrayToPointerDecay', 'BitCast', 'BuiltinFnToFnPtr'):
            if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase') and n.get('valueCategory') in ('lvalue', 'xvalue') and sub.get('valueCategory') in ('lvalue', 'xvalue'):
                return [(s, self.load(s, l)) for s, l in self.lv(sub, st, fr)]
            if ck == 'UserDefinedConversion':
                return self.conv(n, sub, st, fr)
            if ck == 'ArrayToPointerDecay' and sub['kind'] == 'MemberExpr':
                return [(s, It(l, I(0)) if isinstance(self.load(s, l), Vec) else self.load(s, l)) for s, l in self.lv(sub, st, fr)]
            return self.ev(sub, st, fr)
        if ck == 'ToVoid':
            return [(s, NONE) for s, v in self.ev(sub, st, fr)]
        if ck == 'NullToPointer':
            return [(st, NULL)]
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return [(s, self.tobool(v)) for s, v in self.ev(sub, st, fr)]
        if ck == 'IntegralCast':
            dt = self.ty(n)
            out = []
            for s, v in self.ev(sub, st, fr):
                if isz(v) and v.sort() == BOOL:
                    v = z3.If(v, I(1), I(0))
                    out.append((s, v))
                    continue
                t = self.intty(dt)
                if t is None:
                    raise Unsupported('cast to ' + dt, n)
                src = self.intty(self.ty(sub))
                if src:
                    slo, shi = int_range(*src)
                    lo, hi = int_range(*t)
                    if lo <= slo and shi <= hi:
                        out.append((s, v))
                        continue
                s2 = s
                out.append((s2, self.wrap(s2, v, t)))
            return out
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            out = []
            for s, v in self.ev(sub, st, fr):
                if ck == 'IntegralToFloating':
                    out.append((s, z3.ToReal(v)))
                elif ck == 'FloatingToIntegral':
                    out.append((s, z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))))
                else:
                    out.append((s, v))
            return out
        raise Unsupported('cast %s' % ck, n)

    def conv(self, n, sub, st, fr):
        return self.ev(sub, st, fr)

    def ev_CXXStaticCastExpr(self, n, st, fr):
        if n.get('castKind') in ('NoOp', None) and self.qt(n) != 'void':
            sub = inner(n)[0]
            return self.ev(sub, st, fr)
        return self.ev_ImplicitCastExpr(n, st, fr)

    ev_CStyleCastExpr = ev_CXXStaticCastExpr
    ev_CXXFunctionalCastExpr = ev_CXXStaticCastExpr
    ev_CXXConstCastExpr = ev_CXXStaticCastExpr

    def ev_UnaryExprOrTypeTraitExpr(self, n, st, fr):
        raise Unsupported('sizeof', n)

    def ev_LambdaExpr(self, n, st, fr):
        return [(st, Lam(n, fr))]

    def ev_ConditionalOperator(self, n, st, fr):
        c, a, b = inner(n)
        out = []
        for s, v in self.ev(c, st, fr):
            br = self.fork(s, self.tobool(v))
            if len(br) == 2:
                # try to merge pure branches
                (s1, _), (s2, _) = br
                o1, o2 = self.ev(a, s1, fr), self.ev(b, s2, fr)
                m = self.merge(s, self.tobool(v), s1, o1, s2, o2)
                out += m
            else:
                s2, x = br[0] if br else (None, None)
                if s2 is not None:
                    out += self.ev(a if x else b, s2, fr)
        return out

    def merge(self, s, cond, s1, o1, s2, o2):
        if len(o1) == 1 and len(o2) == 1 and isz(o1[0][1]) and isz(o2[0][1]):
            a, b = o1[0], o2[0]
            if len(a[0].pc) == len(s.pc) + 1 and len(b[0].pc) == len(s.pc) + 1 and same_store(a[0], s) and same_store(b[0], s):
                x, y = a[1], b[1]
                if x.sort() != y.sort():
                    x, y = coerce(x, INT), coerce(y, INT)
                return [(s, z3.If(cond, x, y))]
        return o1 + o2

    def ev_UnaryOperator(self, n, st, fr):
        op = n['opcode']
        sub = inner(n)[0]
        if op == '!':
            return [(s, z3.Not(self.tobool(v))) for s, v in self.ev(sub, st, fr)]
        if op == '-':
            out = []
            for s, v in self.ev(sub, st, fr):
                t = self.intty(self.ty(n))
                if v.sort() == z3.RealSort():
                    out.append((s, -v))
                    continue
                r, facts = self.arith(s, '-', I(0), v, t, n)
                r = z3.simplify(r) if z3.is_int_value(v) else (-v if t[1] else r)
                out.append((s.assume(*facts), r))
            return out
        if op == '+':
            return self.ev(sub, st, fr)
        if op == '&':
            out = []
            for s, l in self.lv(sub, st, fr):
                if l.path and l.path[-1][0] == 'i' and isinstance(self.load(s, LV(l.root, l.path[:-1])), Vec):
                    out.append((s, It(LV(l.root, l.path[:-1]), l.path[-1][1])))
                elif not l.path and isinstance(s.store.get(l.root), Rec) and s.store[l.root].cls == 'Obj':
                    out.append((s, Rec('Ptr', dict(s.store[l.root].f))))
                else:
                    out.append((s, Ref(l)))
            return out
        if op == '*':
            return [(s, self.load(s, self.deref(s, v, n))) for s, v in self.ev(sub, st, fr)]
        if op in ('++', '--'):
            out = []
            for s, l in self.lv(sub, st, fr):
                old = self.load(s, l)
                s = self.incdec(s, l, op, n)
                out.append((s, old if n.get('isPostfix') else self.load(s, l)))
            return out
        raise Unsupported('unary ' + op, n)

    def incdec(self, s, l, op, n):
        old = self.load(s, l)
        if isinstance(old, It):
            d = 1 if (op == '++') != old.rev else -1
            return self.save(s, l, It(old.c, old.i + d, old.rev))
        if isinstance(old, MIt):
            s, nv = self.map_step(s, old, (op == '++') != old.rev, n)
            return self.save(s, l, nv)
        t = self.intty(self.ty(n)) or self.intty(self.qt(n))
        r, facts = self.arith(s, op[0], old, I(1), t, n)
        s = s.assume(*facts)
        return self.save(s, l, r)

    def ev_BinaryOperator(self, n, st, fr):
        op = n['opcode']
        a, b = inner(n)
        if op in ('&&', '||'):
            out = []
            for s, v in self.ev(a, st, fr):
                c = self.tobool(v)
                cs = z3.simplify(c)
                if (op == '&&' and z3.is_false(cs)) or (op == '||' and z3.is_true(cs)):
                    out.append((s, c))
                    continue
                go = c if op == '&&' else z3.Not(c)
                s1 = s.assume(go)
                if not self.feasible(s1):
                    out.append((s, z3.BoolVal(op == '||')))
                    continue
                o1 = self.ev(b, s1, fr)
                if len(o1) == 1 and same_store(o1[0][0], s1) and len(o1[0][0].pc) == len(s1.pc):
                    w = self.tobool(o1[0][1])
                    out.append((s, z3.And(c, w) if op == '&&' else z3.Or(c, w)))
                else:
                    s2 = s.assume(z3.Not(go))
                    if self.feasible(s2):
                        out.append((s2, z3.BoolVal(op == '||')))
                    out += [(q, self.tobool(w)) for q, w in o1]
            return out
        if op == ',':
            out = []
            for s, v in self.ev(a, st, fr):
                out += self.ev(b, s, fr)
            return out
        if op == '=':
            return [(s, self.load(s, l)) for s, l in self.assign(n, st, fr)]
        out = []
        for s, (x, y) in self.evlist([a, b], st, fr):
            s2, r = self.binop(op, x, y, s, n, self.ty(n))
            out.append((s2, r))
        return out

    def binop(self, op, x, y, s, n, ty):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return s, self.compare(op, x, y, s, n)
        if isinstance(x, It) and op in ('+', '-'):
            if isinstance(y, It):
                return s, (x.i - y.i if not x.rev else y.i - x.i)
            d = y if (op == '+') != x.rev else -y
            return s, It(x.c, x.i + d, x.rev)
        if isz(x) and isz(y):
            if x.sort() == z3.RealSort() or y.sort() == z3.RealSort():
                x = x if x.sort() == z3.RealSort() else z3.ToReal(x)
                y = y if y.sort() == z3.RealSort() else z3.ToReal(y)
                return s, {'+': x + y, '-': x - y, '*': x * y, '/': x / y}[op]
            if x.sort() == BOOL and y.sort() == BOOL and op in '&|^':
                return s, {'&': z3.And(x, y), '|': z3.Or(x, y), '^': z3.Xor(x, y)}[op]
            x, y = coerce(x, INT), coerce(y, INT)
            t = self.intty(ty)
            if t is None:
                raise Unsupported('arithmetic in ' + ty, n)
            r, facts = self.arith(s, op, x, y, t, n)
            return s.assume(*facts), r
        raise Unsupported('binary %s on %s, %s' % (op, x, y), n)

    def compare(self, op, x, y, s, n):
        if isinstance(x, It) and isinstance(y, It):
            a, b = (x.i, y.i) if not x.rev else (y.i, x.i)
            return cmpz(op, a, b)
        if isinstance(x, MIt) and isinstance(y, MIt):
            e = z3.Or(z3.And(x.end, y.end), z3.And(z3.Not(x.end), z3.Not(y.end), keq(x.k, y.k)))
            return e if op == '==' else z3.Not(e)
        if isinstance(x, Rec) and isinstance(y, Rec) and op in ('==', '!='):
            e = veq(x, y)
            return e if op == '==' else z3.Not(e)
        if isinstance(x, Rec) and isinstance(y, Rec) and op in ('<', '>'):
            if op == '>':
                x, y = y, x
            return lexlt([l for _, l in leaves(x)], [l for _, l in leaves(y)])
        if isz(x) and isz(y):
            if x.sort() == BOOL and y.sort() == BOOL:
                if op == '==':
                    return x == y
                if op == '!=':
                    return z3.Xor(x, y)
            x, y = (coerce(x, INT) if x.sort() == BOOL else x), (coerce(y, INT) if y.sort() == BOOL else y)
            return cmpz(op, x, y)
        for p, q in ((x, y), (y, x)):
            if q is NULL:
                nul = p is NULL
                if isinstance(p, (Ref, It)):
                    nul = False
                elif isinstance(p, Rec) and p.cls == 'unique_ptr':
                    e = p.f['null']
                    return e if op == '==' else z3.Not(e)
                elif p is not NULL and not isinstance(p, (StrV,)):
                    r = self.null_test(p, s, n)
                    return r if op == '==' else z3.Not(r)
                return z3.BoolVal(nul if op == '==' else not nul)
        if isinstance(x, Ref) and isinstance(y, Ref):
            same = x.lv.root == y.lv.root and len(x.lv.path) == len(y.lv.path)
            if not same:
                return z3.BoolVal(op == '!=')
            e = z3.And([z3.BoolVal(True)] + [p[1] == q[1] for p, q in zip(x.lv.path, y.lv.path) if p[0] != 'f'])
            return e if op == '==' else z3.Not(e)
        if isinstance(x, Ref) and isinstance(y, It):
            y2 = y.c.sub(('i', y.i))
            return self.compare(op, x, Ref(y2), s, n)
        if isinstance(x, Opq) and isinstance(y, Opq) and x.name == y.name == 'type:double':
            return fresh('fp', BOOL)        # floating point is not interpreted: either outcome
        raise Unsupported('comparison %s of %s and %s' % (op, x, y), n)

    def null_test(self, p, s, n):
        raise Unsupported('null test of %s' % (p,), n)

    def ev_CompoundAssignOperator(self, n, st, fr):
        return [(s, self.load(s, l)) for s, l in self.assign(n, st, fr)]

    def assign(self, n, st, fr):
        op = n['opcode']
        a, b = inner(n)
        out = []
        for s, v in self.ev(b, st, fr):
            for s2, l in self.lv(a, s, fr):
                if op == '=':
                    out.append((self.assign_value(s2, l, v, n), l))
                else:
                    old = self.load(s2, l)
                    ct = n.get('computeResultType', {})
                    t = ct.get('desugaredQualType') or ct.get('qualType') or self.ty(n)
                    s3, r = self.binop(op[:-1], old, v, s2, n, t)
                    it, lt = self.intty(t), self.intty(self.ty(a))
                    if it and lt and it != lt and isz(r) and r.sort() == INT:
                        r = self.wrap(s3, r, lt)
                    out.append((self.save(s3, l, r), l))
        return out

    def assign_value(self, s, l, v, n):
        if l.path == () and isinstance(s.store.get(l.root), Opq) and s.store[l.root].name == 'mapitem':
            raise Unsupported('assignment to map item', n)
        if self.hooks.get('assign'):
            r = self.hooks['assign'](self, s, l, v, n)
            if r is not None:
                return r
        return self.save(s, l, v, n)

    # ------------------------------------------------------------ construction
    def default(self, t, n=None):
        rt = self.resolve(t)
        if self.isbool(rt):
            return z3.BoolVal(False)
        if self.intty(rt):
            return I(0)
        if rt in ('double', 'float'):
            return z3.RealVal(0)
        base, ta = split_targs(rt)
        b = base.split('::')[-1]
        if b in ('vector', 'initializer_list', 'deque'):
            try:
                el = self.shape(ta[0], 'el')
                return Vec(I(0), map_leaves(el, lambda x: fresh('a', z3.ArraySort(INT, x.sort()))))
            except Unsupported:
                return Vec(I(0), None)
        if b in ('pair', 'tuple'):
            nm = (['first', 'second'] if b == 'pair' else [str(i) for i in range(len(ta))])
            return Rec(b, {k: self.default(x, n) for k, x in zip(nm, ta)})
        if b == 'optional':
            return Rec('optional', {'has': z3.BoolVal(False), 'val': self.shape(ta[0], 'opt')})
        if b in ('map', 'unordered_map', 'set', 'unordered_set'):
            v = self.shape(rt, 'map')
            return MapV(z3.K(v.dom.sort().domain(), z3.BoolVal(False)), v.val)
        if rt.endswith('*'):
            return NULL
        h = self.default_special(rt, n)
        if h is not None:
            return h
        rec = self.find_record(rt)
        if rec is not None:
            f = {}
            for c in self.fields(rec):
                ini = [x for x in inner(c)]
                if c.get('hasInClassInitializer') and ini:
                    o = self.ev(ini[-1], St(), Frame(None))
                    f[c['name']] = o[0][1]
                else:
                    f[c['name']] = self.default(self.ty(c), n)
            return Rec(rt, f)
        return Opq('default:' + rt)

    def default_special(self, rt, n):
        return None

    def ev_InitListExpr(self, n, st, fr):
        t = self.resolve(self.ty(n))
        cs = inner(n)
        if self.intty(t) or self.isbool(t):
            if not cs:
                return [(st, self.default(t, n))]
            return self.ev(cs[0], st, fr)
        base, ta = split_targs(t)
        b = base.split('::')[-1]
        if len(cs) == 1 and strip_cv(self.resolve(self.ty(cs[0]))) == t:
            return self.ev(cs[0], st, fr)
        if any(c['kind'] == 'CXXDefaultInitExpr' and not inner(c) for c in cs):
            # the initializer is written at the member
            rec = self.find_record(t)
            fs = self.fields(rec) if rec is not None else []
            if len(fs) != len(cs):
                raise Unsupported('default init', n)
            cs = [([x for x in f.get('inner', []) if isinstance(x, dict) and not x['kind'].endswith('Comment')] or [c])[-1] if c['kind'] == 'CXXDefaultInitExpr' and not inner(c) else c for c, f in zip(cs, fs)]
        outs = self.evlist(cs, st, fr)
        if t.endswith(']') or b in ('vector', 'initializer_list'):
            return [(s, self.mkvec(s, vs)) for s, vs in outs]
        rec = self.find_record(t)
        if rec is not None:
            fs = self.fields(rec)
            return [(s, Rec(t, {c['name']: v for c, v in zip(fs, vs)})) for s, vs in outs]
        if b in ('pair', 'tuple'):
            nm = (['first', 'second'] if b == 'pair' else [str(i) for i in range(len(cs))])
            return [(s, Rec(b, dict(zip(nm, vs)))) for s, vs in outs]
        h = self.initlist_special(t, outs, n)
        if h is not None:
            return h
        raise Unsupported('init list of ' + t, n)

    def initlist_special(self, t, outs, n):
        return None

    def mkvec(self, st, vs):
        if not vs:
            return Vec(I(0), None)
        if not all(isz(v) or isinstance(v, Rec) for v in vs):
            return Opq('list', vs)
        el = map_leaves(vs[0], lambda x: fresh('lit', z3.ArraySort(INT, x.sort())))
        vec = Vec(I(0), el)
        for v in vs:
            vec = self.push(st, vec, v)
        return vec

    def push(self, st, vec, v):
        """vector append; emits the fold equations into st (in place)"""
        el = vec.el
        if el is None:
            el = map_leaves(v, lambda x: fresh('vec', z3.ArraySort(INT, x.sort())))
        if self.foldall:
            v = self.named(st, v)
        nel = store(el, vec.n, v)
        for f in self.folds:
            if f.pick(nel) is None:
                continue
            old = f.app(el, vec.n)
            if z3.is_int_value(z3.simplify(vec.n)) and z3.simplify(vec.n).as_long() == 0:
                st.add(f.app(el, I(0)) == f.unit())
                old = f.unit()
            st.add(f.app(nel, z3.simplify(vec.n + 1)) == f.op(old, f.st(select(nel, vec.n))))
            st.add(f.app(nel, vec.n) == old)
            if self.foldall:
                q = z3.Int('q!fp')
                x = f.app(nel, q)
                st.add(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q <= vec.n), x == f.app(el, q)), patterns=[x]))
        nv = Vec(z3.simplify(vec.n + 1), nel)
        # element frame is built into the array theory
        return nv

    def unfold_at(self, st, vec, i):
        """defining equation of every applicable fold at index i (in place)"""
        if vec.el is None:
            return
        for f in self.folds:
            if f.pick(vec.el) is None:
                continue
            st.add(z3.Implies(i >= 0, f.app(vec.el, z3.simplify(i + 1)) == f.op(f.app(vec.el, i), f.st(select(vec.el, i)))))
            st.add(f.app(vec.el, I(0)) == f.unit())

    def ev_CXXConstructExpr(self, n, st, fr):
        t = self.resolve(self.ty(n))
        cs = inner(n)
        base, ta = split_targs(t)
        b = base.split('::')[-1]
        # copy / move
        if len(cs) == 1:
            ct = self.resolve(self.ty(cs[0]))
            if ct == t or strip_cv(ct) == t or n.get('elidable'):
                return self.ev(cs[0], st, fr)
        h = self.construct(t, b, ta, cs, n, st, fr)
        if h is not None:
            return h
        if not cs:
            return [(st, self.default(t, n))]
        if self.intty(t) and len([c for c in cs if c['kind'] != 'CXXDefaultArgExpr']) == 1:
            return self.ev(cs[0], st, fr)
        if b in ('vector', 'initializer_list', 'LiteralSpan', 'Span'):
            cs2 = [c for c in cs if c['kind'] != 'CXXDefaultArgExpr']
            outs = []
            for s, vs in self.evlist(cs2, st, fr):
                if len(vs) == 1 and isinstance(vs[0], Vec):
                    outs.append((s, vs[0]))
                elif len(vs) == 2 and isinstance(vs[0], It) and isinstance(vs[1], It):
                    outs.append((s, self.slice(s, vs[0], vs[1])))
                elif len(vs) == 2 and isinstance(vs[0], It) and isz(vs[1]):
                    outs.append((s, self.slice(s, vs[0], It(vs[0].c, vs[0].i + vs[1]))))
                elif len(vs) == 0:
                    outs.append((s, self.default(t, n)))
                elif len(vs) == 1 and isz(vs[0]) and b == 'vector':
                    d = self.default(t, n)
                    outs.append((s, Vec(vs[0], map_leaves(d.el, lambda x: z3.K(INT, z3.BoolVal(False) if x.sort().range() == BOOL else I(0))))))
                elif len(vs) == 2 and isz(vs[0]) and isz(vs[1]) and b == 'vector':
                    outs.append((s, Vec(vs[0], z3.K(INT, vs[1]))))
                else:
                    raise Unsupported('construct %s from %s' % (t, vs), n)
            return outs
        if b in ('pair', 'tuple'):
            nm = (['first', 'second'] if b == 'pair' else [str(i) for i in range(max(len(ta), len(cs)))])
            outs = []
            for s, vs in self.evlist(cs, st, fr):
                if len(vs) == len(nm):
                    outs.append((s, Rec(b, dict(zip(nm, vs)))))
                elif len(vs) == 1 and isinstance(vs[0], Rec):
                    outs.append((s, Rec(b, dict(zip(nm, vs[0].f.values())))))
                else:
                    raise Unsupported('pair construction', n)
            return outs
        if b == 'optional':
            outs = []
            for s, vs in self.evlist(cs, st, fr):
                v = vs[0]
                if isinstance(v, Opq):
                    outs.append((s, self.default(t, n)))
                elif isinstance(v, Rec) and v.cls == 'optional':
                    outs.append((s, v))
                else:
                    outs.append((s, Rec('optional', {'has': z3.BoolVal(True), 'val': v})))
            return outs
        if len(cs) == 1 and ('iterator' in b or 'iterator' in t):
            outs = self.ev(cs[0], st, fr)
            if b == 'reverse_iterator' and 'reverse_iterator' not in self.resolve(self.ty(cs[0])):
                outs = [(s, It(v.c, v.i, True) if isinstance(v, It) else MIt(v.c, v.k, v.end, True)) for s, v in outs]
            return outs
        # user defined constructor
        ctor = self.ctor_of(n, t, len(cs))
        if ctor is not None:
            outs = []
            for s, args in self.evargs(cs, ctor.params, st, fr):
                outs += self.run_ctor(ctor, t, s, args, n)
            return outs
        raise Unsupported('construct ' + t, n)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def construct(self, t, b, ta, cs, n, st, fr):
        return None

    def slice(self, st, a, b):
        """vector with the elements between two iterators of the same vector"""
        vec = self.load(st, a.c)
        if z3.is_int_value(z3.simplify(a.i)) and z3.simplify(a.i).as_long() == 0:
            return Vec(z3.simplify(b.i), vec.el)
        el = map_leaves(vec.el, lambda x: fresh('slice', x.sort()))
        j = z3.Int('j!sl')
        n = z3.simplify(b.i - a.i)
        for (_, x), (_, y) in zip(leaves(el), leaves(vec.el)):
            st.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(x, j) == z3.Select(y, j + a.i)), patterns=[z3.Select(x, j)]))
        for f in self.folds:
            if f.pick(el) is not None and f.kind == 'sum':
                st.add(f.app(el, n) == f.app(vec.el, b.i) - f.app(vec.el, a.i))
        return Vec(n, el)

    def ctor_of(self, n, t, nargs):
        ct = n.get('ctorType', {}).get('qualType', '')
        cands = [f for f in self.tu.funcs if f.node['kind'] == 'CXXConstructorDecl' and self.rec_is(f.rec, t) and len(f.params) == nargs]
        ex = [f for f in cands if f.sig() == ct]
        if ex:
            return ex[0]
        return cands[0] if len(cands) == 1 else None

    def rec_is(self, rec, t):
        if rec is None:
            return False
        t2 = t.replace('(anonymous namespace)::', '')
        if rec == t2 or rec == 'Clingcon::' + t2 or rec.endswith('::' + t2):
            return True
        # nested classes defined out of line are qualified by the namespace only
        return '<' not in t2 and t2.startswith('Clingcon::') and rec == 'Clingcon::' + t2.split('::')[-1]

    def union_fields(self, t):
        """the members of the anonymous union of t, none of them active"""
        return {}

    def run_ctor(self, ctor, t, s, args, n):
        rec = self.find_record(t)
        f = {}
        for c in self.fields(rec):
            ini = inner(c)
            if 'name' not in c:
                continue    # anonymous union: no member is active
            if c.get('hasInClassInitializer') and ini:
                o = self.ev(ini[-1], s, Frame(None))
                f[c['name']] = o[0][1]
            else:
                f[c['name']] = self.default(self.ty(c), n)
        f.update(self.union_fields(t))
        s, lv = self.tmp(s, Rec(t, f), 'obj')
        fr2 = Frame(ctor, this=lv)
        s = self.bind_params(ctor, args, s, fr2)
        sts = [s]
        for ini in ctor.inits:
            ai = ini.get('anyInit')
            nxt = []
            for s in sts:
                if ai is None:
                    nxt.append(s)
                    continue
                cs = inner(ini)
                if cs and cs[0]['kind'] == 'CXXDefaultInitExpr':
                    nxt.append(s)       # done above
                    continue
                ref = ai.get('type', {}).get('qualType', '').rstrip().endswith('&')
                if ref:
                    for s2, l in self.lv(cs[0], s, fr2):
                        nxt.append(self.save(s2, lv.sub(('f', ai['name'])), Ref(l)))
                    continue
                for s2, v in self.ev(cs[0], s, fr2):
                    nxt.append(self.save(s2, lv.sub(('f', ai['name'])), v))
            sts = nxt
        outs = []
        for s in sts:
            for o in self.ex(ctor.body, s, fr2):
                outs.append((o.st, self.load(o.st, lv)))
        return outs

    def ev_CXXThrowExpr(self, n, st, fr):
        c = inner(n)
        t = self.ty(c[0]) if c else ''
        self.throws.append((st, t, n))
        return []

    def ev_CXXNewExpr(self, n, st, fr):
        cs = inner(n)
        if len(cs) == 1 and cs[0]['kind'] in ('CXXConstructExpr', 'ExprWithCleanups'):
            # a new object
            outs = []
            for s, v in self.ev(cs[0], st, fr):
                if isinstance(v, Ref):
                    v = self.load(s, v.lv)
                root = ('new', next(_cnt_))
                s = s.copy()
                s.store[root] = v
                outs.append((s, Ref(LV(root))))
            return outs
        if len(cs) != 2 or cs[0]['kind'] not in ('CXXConstructExpr', 'ExprWithCleanups'):
            raise Unsupported('new', n)
        outs = []
        for s, v in self.ev(cs[0], st, fr):
            if isinstance(v, Ref):
                v = self.load(s, v.lv)
            self.union_raw = True
            try:
                where = self.ev(cs[1], s, fr)
            finally:
                self.union_raw = False
            for s2, p in where:
                if not isinstance(p, Ref):
                    raise Unsupported('placement new', n)
                own = self.load(s2, LV(p.lv.root, p.lv.path[:-1]))
                if isinstance(own, Rec) and '#active' in own.f:
                    self.obl(s2, own.f['#active'] == 0, 'no-live-union-member', n, 'bounds')
                s2 = self.union_set(s2, p.lv, self.UNION.get(p.lv.path[-1][1], 0), n)
                outs.append((self.assign_value(s2, p.lv, v, n), p))
        return outs

    def ev_CXXNoexceptExpr(self, n, st, fr):
        return [(st, z3.BoolVal(True))]

    # =================================================================== calls
    def evargs(self, ns, params, st, fr):
        """evaluate call arguments: LV for reference parameters, values otherwise"""
        outs = [(st, [])]
        for i, n in enumerate(ns):
            pt = params[i].get('type', {}).get('qualType', '') if i < len(params) else ''
            dq = params[i].get('type', {}).get('desugaredQualType', '') if i < len(params) else ''
            isref = pt.rstrip().endswith('&') or dq.rstrip().endswith('&')
            nxt = []
            for s, vs in outs:
                if n['kind'] == 'CXXDefaultArgExpr' and not inner(n) and i < len(params):
                    ini = inner(params[i])
                    if ini:
                        for s2, v in self.ev(ini[-1], s, Frame(None)):
                            nxt.append((s2, vs + [v]))
                        continue
                    nxt.append((s, vs + [NONE]))
                    continue
                if isref:
                    for s2, l in self.lv(n, s, fr):
                        nxt.append((s2, vs + [l]))
                else:
                    for s2, v in self.ev(n, s, fr):
                        nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def bind_params(self, f, args, s, fr):
        s = s.copy()
        for p, a in zip(f.params, args):
            fr.names[p.get('name')] = p['id']
            if isinstance(a, LV):
                s.env[(p['id'], fr.id)] = a
            else:
                s.store[(p['id'], fr.id)] = a
        return s

    def call(self, n, st, fr):
        k = n['kind']
        cs = inner(n)
        if k == 'CXXMemberCallExpr':
            me = cs[0]
            while me['kind'] in SKIP or me['kind'] == 'ImplicitCastExpr':
                me = inner(me)[0]
            if me['kind'] != 'MemberExpr':
                raise Unsupported('member call via ' + me['kind'], n)
            base = inner(me)[0]
            name = me['name']
            d = self.tu.decls.get(me.get('referencedMemberDecl'))
            args = cs[1:]
            outs = []
            if d is None or '_q' not in d:
                # library method
                if me.get('isArrow'):
                    bases = [(s, self.deref(s, v, n) if not isinstance(v, Opq) else self.tmp(s, v)) for s, v in self.ev(base, st, fr)]
                    bases = [(b[0], b[1]) if isinstance(b, tuple) and not isinstance(l, LV) else (s, l) for s, l in bases for b in [l if isinstance(l, tuple) else (s, l)]]
                else:
                    bases = self.lv(base, st, fr)
                for s, l in bases:
                    outs += self.libmethod(name, l, base, args, n, s, fr)
                return outs
            if me.get('isArrow'):
                bases = []
                for s, v in self.ev(base, st, fr):
                    if isinstance(v, Opq):
                        s, l = self.tmp(s, v)
                        bases.append((s, l))
                    else:
                        bases.append((s, self.deref(s, v, n)))
            else:
                bases = self.lv(base, st, fr)
            for s, l in bases:
                v = self.load(s, l)
                if isinstance(v, Ref):
                    l = v.lv
                fd = self.tu.definition(me['referencedMemberDecl'])
                for s2, avs in self.evargs(args, self.params_of(d), s, fr):
                    outs += self.invoke(d, fd, l, avs, n, s2, fr)
            return outs
        if k == 'CXXOperatorCallExpr':
            c = callee_name(cs[0])
            d0 = c.get('referencedDecl', {})
            op = d0.get('name', '')
            d = self.tu.decls.get(d0.get('id'))
            if op == 'operator()':
                outs = []
                for s, v in self.ev(cs[1], st, fr):
                    if isinstance(v, Ref):
                        v = self.load(s, v.lv)
                    outs += self.call_callable(v, d, cs[2:], n, s, fr)
                return outs
            if d is not None and '_q' in d and d.get('kind') == 'CXXMethodDecl' and not (d.get('isImplicit') and op == 'operator='):
                fd = self.tu.definition(d['id'])
                outs = []
                for s, l in self.lv(cs[1], st, fr):
                    for s2, avs in self.evargs(cs[2:], self.params_of(d), s, fr):
                        outs += self.invoke(d, fd, l, avs, n, s2, fr)
                return outs
            return self.liboperator(op, cs[1:], n, st, fr)
        if k == 'CallExpr':
            c = callee_name(cs[0])
            d0 = c.get('referencedDecl')
            if c['kind'] == 'MemberExpr':   # static member function
                d0 = {'id': c.get('referencedMemberDecl'), 'name': c.get('name'), 'kind': 'CXXMethodDecl'}
            if d0 is None:
                outs = []
                for s, v in self.ev(cs[0], st, fr):
                    outs += self.call_callable(v, None, cs[1:], n, s, fr)
                return outs
            if d0['kind'] in ('ParmVarDecl', 'VarDecl', 'BindingDecl'):
                outs = []
                for s, v in self.ev(cs[0], st, fr):
                    outs += self.call_callable(v, None, cs[1:], n, s, fr)
                return outs
            d = self.tu.decls.get(d0['id'])
            name = d0['name']
            if d is None or '_q' not in d:
                return self.libcall(name, cs[1:], n, st, fr, d0)
            fd = self.tu.definition(d0['id'])
            outs = []
            for s, avs in self.evargs(cs[1:], self.params_of(d), st, fr):
                this = None
                if d['kind'] == 'CXXMethodDecl':
                    this = None
                outs += self.invoke(d, fd, this, avs, n, s, fr)
            return outs
        raise Unsupported('call ' + k, n)

    def params_of(self, d):
        return [c for c in d.get('inner', []) if isinstance(c, dict) and c.get('kind') == 'ParmVarDecl']

    def rv(self, outs, n):
        """turn references into values for rvalue use"""
        r = []
        for s, v in outs:
            if isinstance(v, Ref) and not self.ty(n).rstrip().endswith('*'):
                v = self.load(s, v.lv)
            r.append((s, v))
        return r

    def ev_CallExpr(self, n, st, fr):
        return self.rv(self.call(n, st, fr), n)

    ev_CXXMemberCallExpr = ev_CallExpr
    ev_CXXOperatorCallExpr = ev_CallExpr

    def call_callable(self, v, d, argn, n, st, fr):
        if isinstance(v, Ref):
            v = self.load(st, v.lv)
        if isinstance(v, Lam):
            rec = next(c for c in inner(v.node) if c['kind'] == 'CXXRecordDecl')
            fd = None
            if d is not None:
                fd = self.tu.definition(d['id'])
            if fd is None:
                ops = [f for f in self.tu.funcs if f.name == 'operator()' and any(x.get('id') == f.id for x in rec.get('inner', []) if isinstance(x, dict))]
                fd = ops[0] if ops else None
            if fd is None:
                raise Unsupported('lambda body', n)
            outs = []
            for s, avs in self.evargs(argn, fd.params, st, fr):
                outs += self.run(fd, v.fr.this if v.fr else None, avs, n, s, parent=v.fr)
            return outs
        if isinstance(v, Opq) and v.name == 'fn':
            d0 = v.d
            d = self.tu.decls.get(d0['id'])
            if d is None:
                return self.libcall(d0['name'], argn, n, st, fr, d0)
            fd = self.tu.definition(d0['id'])
            outs = []
            for s, avs in self.evargs(argn, self.params_of(d), st, fr):
                outs += self.invoke(d, fd, None, avs, n, s, fr)
            return outs
        if isinstance(v, Rec) and d is not None:
            fd = self.tu.definition(d['id'])
            s, l = self.tmp(st, v)
            outs = []
            for s2, avs in self.evargs(argn, self.params_of(d), s, fr):
                outs += self.invoke(d, fd, l, avs, n, s2, fr)
            return outs
        h = self.call_opaque(v, argn, n, st, fr)
        if h is not None:
            return h
        raise Unsupported('call of %s' % (v,), n)

    def call_opaque(self, v, argn, n, st, fr):
        return None

    def invoke(self, d, fd, this, args, n, st, fr):
        q = fd.full if fd is not None else d['_q']
        for key in ('%s/%d' % (d['_q'], len(args)), q, d['_q'], d['_q'].split('<')[0] + '::' + d.get('name', '') if '<' in d['_q'] else None, short(d['_q'])):
            if key in self.contracts:
                self.called.add(key)
                c = self.contracts[key]
                return c.apply(self, st, this, args, n, fr, fd or Func(d, d['_q'], d.get('_rec'), [], self.tu))
        if fd is None:
            h = self.nodef(d, this, args, n, st, fr)
            if h is not None:
                return h
            raise Unsupported('no definition of ' + d['_q'], n)
        return self.run(fd, this, args, n, st)

    def nodef(self, d, this, args, n, st, fr):
        # defaulted special members
        if d.get('name') == 'operator=' and len(args) == 1 and this is not None:
            a = args[0]
            v = self.load(st, a) if isinstance(a, LV) else a
            return [(self.save(st, this, v), Ref(this))]
        return None

    def run(self, fd, this, args, n, st, parent=None):
        """inline a function body"""
        if self.depth > 40:
            raise Unsupported('inlining too deep at ' + fd.full, n)
        self.depth += 1
        self.inlined.add(fd.full)
        try:
            fr = Frame(fd, this=this, parent=parent)
            s = self.bind_params(fd, args, st, fr)
            outs = []
            rt = fd.sig().split('->')[-1] if '->' in fd.sig() else fd.sig().split('(')[0]
            isref = rt.strip().endswith('&')
            for o in self.ex(fd.body, s, fr):
                if o.kind in ('return', 'normal'):
                    outs.append((self.gc(o.st, fr), o.val if o.val is not None else NONE))
                else:
                    raise Unsupported('%s out of function' % o.kind, n)
            return outs
        finally:
            self.depth -= 1

    def gc(self, st, fr):
        return st

    # =================================================================== library
    def libmethod(self, name, l, base, args, n, st, fr):
        v = self.load(st, l)
        if isinstance(v, Ref):
            l, v = v.lv, self.load(st, v.lv)
        cls = type(v).__name__
        if isinstance(v, Rec):
            cls = v.cls
        if isinstance(v, Opq):
            cls = v.name
        if name.startswith('~'):
            return [(self.union_set(st, l, 0, n), NONE)]
        if name == 'operator bool' and z3.is_bool(v) and not args:
            return [(st, v)]       # an element of a vector of booleans
        h = self.hooks.get(('m', cls, name)) or getattr(self, 'm_%s_%s' % (cls.replace(':', '_').replace(' ', '_'), name.replace(' ', '_')), None)
        if h is None:
            h2 = self.lib_opaque(v, name, l, args, n, st, fr)
            if h2 is not None:
                return h2
            raise Unsupported('method %s::%s' % (cls, name), n)
        self.lib_used.add('%s::%s' % (cls, name))
        return h(l, v, args, n, st, fr)

    def lib_opaque(self, v, name, l, args, n, st, fr):
        return None

    def m_It_base(self, l, v, args, n, st, fr):
        return [(st, It(v.c, v.i))]

    def m_MIt_base(self, l, v, args, n, st, fr):
        return [(st, MIt(v.c, v.k, v.end))]

    # atomics: one thread at a time
    def m_ArithRef_load(self, l, v, args, n, st, fr):
        return [(st, v)]

    def m_ArithRef_store(self, l, v, args, n, st, fr):
        return [(self.save(s, l, x[0]), NONE) for s, x in self.evlist(args[:1], st, fr)]

    # vectors
    def m_Vec_size(self, l, v, args, n, st, fr):
        if self.foldall:
            self.assumptions.add('containers have fewer than 2^60 elements')
            st = st.assume(v.n < 2**60)
        return [(st, v.n)]

    def m_Vec_empty(self, l, v, args, n, st, fr):
        return [(st, v.n == 0)]

    def m_Vec_reserve(self, l, v, args, n, st, fr):
        return [(s, NONE) for s, _ in self.evlist(args, st, fr)]

    def m_Vec_shrink_to_fit(self, l, v, args, n, st, fr):
        return [(st, NONE)]

    def m_Vec_clear(self, l, v, args, n, st, fr):
        s = self.save(st, l, Vec(I(0), v.el))
        self.unfold0(s, v)
        return [(s, NONE)]

    def unfold0(self, s, v):
        if v.el is None:
            return
        for f in self.folds:
            if f.pick(v.el) is not None:
                s.add(f.app(v.el, I(0)) == f.unit())

    def m_Vec_emplace_back(self, l, v, args, n, st, fr):
        outs = []
        if v.el is not None and isinstance(v.el, Rec) and v.el.cls not in ('pair', 'tuple') and len(args) > 1:
            # construct the element in place
            ctor = self.ctor_of(n, v.el.cls, len(args))
            if ctor is not None:
                for s, vs in self.evargs(args, ctor.params, st, fr):
                    for s2, x in self.run_ctor(ctor, v.el.cls, s, vs, n):
                        s2 = s2.copy()
                        v = self.load(s2, l)
                        s2 = self.save(s2, l, self.push(s2, v, x))
                        outs.append((s2, Ref(l.sub(('i', v.n)))))
                return outs
        for s, vs in self.evlist(args, st, fr):
            v = self.load(s, l)
            s = s.copy()
            if not vs and v.el is not None:
                x = self.zero_elem(v.el)
                for y in ([x] if isinstance(x, Vec) else x.f.values() if isinstance(x, Rec) else []):
                    if isinstance(y, Vec):
                        self.unfold0(s, y)
            else:
                x = self.element(v, vs, n)
            nv = self.push(s, v, x)
            s = self.save(s, l, nv)
            outs.append((s, Ref(l.sub(('i', v.n)))))
        return outs

    m_Vec_push_back = m_Vec_emplace_back

    def element(self, v, vs, n):
        """build an element of vector v from constructor arguments"""
        if v.el is not None and isinstance(v.el, Rec) and not (len(vs) == 1 and isinstance(vs[0], Rec)):
            ks = list(v.el.f)
            if len(ks) != len(vs):
                raise Unsupported('emplace of %d args' % len(vs), n)
            return Rec(v.el.cls, dict(zip(ks, vs)))
        if len(vs) == 1:
            if v.el is not None and isinstance(v.el, Rec) and isinstance(vs[0], Rec) and list(vs[0].f) != list(v.el.f):
                return Rec(v.el.cls, dict(zip(v.el.f, vs[0].f.values())))
            return vs[0]
        if len(vs) == 2 and v.el is None:
            return Rec('pair', {'first': vs[0], 'second': vs[1]})
        raise Unsupported('emplace', n)

    def m_Vec_pop_back(self, l, v, args, n, st, fr):
        self.obl(st, v.n > 0, 'pop-nonempty', n, 'bounds')
        s = st.copy()
        self.unfold_at(s, v, z3.simplify(v.n - 1))
        return [(self.save(s, l, Vec(z3.simplify(v.n - 1), v.el)), NONE)]

    def m_Vec_back(self, l, v, args, n, st, fr):
        self.obl(st, v.n > 0, 'back-nonempty', n, 'bounds')
        s = st.copy()
        self.unfold_at(s, v, z3.simplify(v.n - 1))
        return [(s, Ref(l.sub(('i', z3.simplify(v.n - 1)))))]

    def m_Vec_front(self, l, v, args, n, st, fr):
        self.obl(st, v.n > 0, 'front-nonempty', n, 'bounds')
        s = st.copy()
        self.unfold_at(s, v, I(0))
        return [(s, Ref(l.sub(('i', I(0)))))]

    def m_Vec_begin(self, l, v, args, n, st, fr):
        return [(st, It(l, I(0)))]

    m_Vec_cbegin = m_Vec_data = m_Vec_begin

    def m_Vec_end(self, l, v, args, n, st, fr):
        return [(st, It(l, v.n))]

    m_Vec_cend = m_Vec_end

    def m_Vec_rbegin(self, l, v, args, n, st, fr):
        return [(st, It(l, v.n, True))]

    def m_Vec_rend(self, l, v, args, n, st, fr):
        return [(st, It(l, I(0), True))]

    m_Vec_crbegin, m_Vec_crend = m_Vec_rbegin, m_Vec_rend

    def m_Vec_resize(self, l, v, args, n, st, fr):
        outs = []
        for s, vs in self.evlist(args, st, fr):
            v = self.load(s, l)
            m = vs[0]
            s = s.copy()
            if len(vs) == 1 and self.valid(s, m <= v.n):
                s = self.save(s, l, Vec(m, v.el))
                outs.append((s, NONE))
                continue
            if v.el is None:
                raise Unsupported('resize', n)
            x = vs[1] if len(vs) > 1 else self.zero_elem(v.el)
            nel = map_leaves(v.el, lambda a: fresh('rs', a.sort()))
            j = z3.Int('j!rs')
            xl = [q for _, q in leaves(x)]
            for (pp, a), (_, b), xx in zip(leaves(nel), leaves(v.el), xl):
                s.add(z3.ForAll([j], z3.Select(a, j) == z3.If(z3.And(v.n <= j, j < m), coerce(xx, a.sort().range()), z3.Select(b, j)), patterns=[z3.Select(a, j)]))
            s = self.save(s, l, Vec(m, nel))
            outs.append((s, NONE))
        return outs

    def zero_elem(self, el):
        return map_leaves(el, lambda a: I(0) if a.sort().range() == INT else z3.BoolVal(False) if a.sort().range() == BOOL else fresh('zero', a.sort().range()))

    def m_Vec_swap(self, l, v, args, n, st, fr):
        outs = []
        for s, l2 in self.lv(args[0], st, fr):
            a, b = self.load(s, l), self.load(s, l2)
            s = self.save(s, l, b)
            s = self.save(s, l2, a)
            outs.append((s, NONE))
        return outs

    def m_Vec_assign(self, l, v, args, n, st, fr):
        outs = []
        for s, vs in self.evlist(args, st, fr):
            if isinstance(vs[0], It):
                s = s.copy()
                nv = self.slice(s, vs[0], vs[1])
                outs.append((self.save(s, l, nv), NONE))
            else:
                raise Unsupported('assign', n)
        return outs

    def m_Vec_erase(self, l, v, args, n, st, fr):
        outs = []
        for s, vs in self.evlist(args, st, fr):
            v = self.load(s, l)
            if len(vs) == 2 and self.valid(s, vs[1].i == v.n):
                s = self.save(s, l, Vec(vs[0].i, v.el))
                outs.append((s, It(l, vs[0].i)))
            elif len(vs) == 1:
                # single element: shift left
                i = vs[0].i
                s = s.copy()
                self.obl(s, z3.And(0 <= i, i < v.n), 'erase-in-range', n, 'bounds')
                nel = map_leaves(v.el, lambda a: fresh('er', a.sort()))
                j = z3.Int('j!er')
                for (_, a), (_, b) in zip(leaves(nel), leaves(v.el)):
                    s.add(z3.ForAll([j], z3.Select(a, j) == z3.If(j < i, z3.Select(b, j), z3.Select(b, j + 1)), patterns=[z3.Select(a, j)]))
                for f in self.folds:
                    if f.pick(v.el) is not None and f.kind == 'sum':
                        s.add(f.app(nel, v.n - 1) == f(v) - f.st(select(v.el, i)))
                s = self.save(s, l, Vec(z3.simplify(v.n - 1), nel))
                outs.append((s, It(l, i)))
            else:
                raise Unsupported('erase', n)
        return outs

    def m_Vec_insert(self, l, v, args, n, st, fr):
        outs = []
        for s, vs in self.evlist(args, st, fr):
            v = self.load(s, l)
            if len(vs) != 3 or not isinstance(vs[1], It) or not self.valid(s, vs[0].i == v.n):
                raise Unsupported('vector insert', n)
            # append the elements of another vector
            w = self.load(s, vs[1].c)
            a, b = vs[1].i, vs[2].i
            s = s.copy()
            m = b - a
            nel = map_leaves(v.el, lambda x: fresh('ins', x.sort()))
            j = z3.Int('j!in')
            for (_, x), (_, y), (_, z) in zip(leaves(nel), leaves(v.el), leaves(w.el)):
                s.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n + m), z3.Select(x, j) == z3.If(j < v.n, z3.Select(y, j), z3.Select(z, j - v.n + a))), patterns=[z3.Select(x, j)]))
            nv = Vec(z3.simplify(v.n + m), nel)
            for f in self.folds:
                if f.pick(nel) is not None and f.kind == 'sum':
                    s.add(f(nv) == f(v) + f(w, b) - f(w, a))
            if self.hooks.get('concat'):
                for x in self.hooks['concat'](v, w, a, b, nv):
                    s.add(x)
            outs.append((self.save(s, l, nv), It(l, v.n)))
        return outs

    # optional
    def m_optional_has_value(self, l, v, args, n, st, fr):
        return [(st, v.f['has'])]

    def m_Ptr_get(self, l, v, args, n, st, fr):
        return [(st, v)]

    def m_optional_reset(self, l, v, args, n, st, fr):
        return [(self.save(st, l.sub(('f', 'has')), z3.BoolVal(False)), None)]

    def m_optional_value(self, l, v, args, n, st, fr):
        return [(st, Ref(l.sub(('f', 'val'))))]

    # maps
    def key(self, v):
        return v

    def m_MapV_begin(self, l, v, args, n, st, fr):
        ks = v.dom.sort().domain()
        k, e = fresh('mk', ks), fresh('mend', BOOL)
        q = z3.Const('q!k', ks)
        s = st.copy()
        s.add(z3.If(e, z3.ForAll([q], z3.Not(z3.Select(v.dom, q)), patterns=[z3.Select(v.dom, q)]),
                    z3.And(z3.Select(v.dom, k), z3.ForAll([q], z3.Implies(z3.Select(v.dom, q), q >= k), patterns=[z3.Select(v.dom, q)]))))
        return [(s, MIt(l, k, e))]

    m_MapV_cbegin = m_MapV_begin

    def m_MapV_end(self, l, v, args, n, st, fr):
        ks = v.dom.sort().domain()
        return [(st, MIt(l, fresh('mk', ks), z3.BoolVal(True)))]

    m_MapV_cend = m_MapV_end

    def m_MapV_empty(self, l, v, args, n, st, fr):
        ks = v.dom.sort().domain()
        q = z3.Const('q!k', ks)
        b = fresh('mempty', BOOL)
        w = fresh('mw', ks)
        s = st.assume(z3.If(b, z3.ForAll([q], z3.Not(z3.Select(v.dom, q)), patterns=[z3.Select(v.dom, q)]), z3.Select(v.dom, w)))
        return [(s, b)]

    def bound(self, l, v, x, strict, s):
        ks = v.dom.sort().domain()
        k, e = fresh('mk', ks), fresh('mend', BOOL)
        q = z3.Const('q!k', ks)
        geq = (lambda y: y > x) if strict else (lambda y: y >= x)
        s = s.copy()
        s.add(z3.Implies(e, z3.ForAll([q], z3.Implies(z3.Select(v.dom, q), z3.Not(geq(q))), patterns=[z3.Select(v.dom, q)])))
        s.add(z3.Implies(z3.Not(e), z3.And(z3.Select(v.dom, k), geq(k), z3.ForAll([q], z3.Implies(z3.And(z3.Select(v.dom, q), geq(q)), q >= k), patterns=[z3.Select(v.dom, q)]))))
        return s, MIt(l, k, e)

    def m_MapV_lower_bound(self, l, v, args, n, st, fr):
        return [self.bound(l, v, mkkey(v, vs[0]), False, s) for s, vs in self.evlist(args, st, fr)]

    def m_MapV_upper_bound(self, l, v, args, n, st, fr):
        return [self.bound(l, v, mkkey(v, vs[0]), True, s) for s, vs in self.evlist(args, st, fr)]

    def map_prev(self, st, it, n):
        """the element a reverse iterator denotes (facts added in place)"""
        s2, nv = self.map_step(st, MIt(it.c, it.k, it.end), False, n)
        for f in s2.pc[len(st.pc):]:
            st.add(f)
        return nv

    def m_MapV_rend(self, l, v, args, n, st, fr):
        return [(s, MIt(x.c, x.k, x.end, True)) for s, x in self.m_MapV_begin(l, v, args, n, st, fr)]

    def m_MapV_rbegin(self, l, v, args, n, st, fr):
        return [(s, MIt(x.c, x.k, x.end, True)) for s, x in self.m_MapV_end(l, v, args, n, st, fr)]

    def m_MapV_size(self, l, v, args, n, st, fr):
        # only whether the map is empty is known about its size
        ks = v.dom.sort().domain()
        q = z3.Const('q!k', ks)
        m, w = fresh('msize'), fresh('mw', ks)
        s = st.assume(m >= 0, m < 2**40, z3.If(m == 0, z3.ForAll([q], z3.Not(z3.Select(v.dom, q)), patterns=[z3.Select(v.dom, q)]), z3.Select(v.dom, w)))
        return [(s, m)]

    def map_step(self, s, it, fwd, n):
        v = self.load(s, it.c)
        ks = v.dom.sort().domain()
        k, e = fresh('mk', ks), fresh('mend', BOOL)
        q = z3.Const('q!k', ks)
        s = s.copy()
        D = lambda y: z3.Select(v.dom, y)
        if fwd:
            self.obl(s, z3.Not(it.end), 'iterator-incrementable', n, 'bounds')
            s.add(z3.Implies(e, z3.ForAll([q], z3.Implies(D(q), q <= it.k), patterns=[D(q)])))
            s.add(z3.Implies(z3.Not(e), z3.And(D(k), k > it.k, z3.ForAll([q], z3.Implies(z3.And(D(q), q > it.k), q >= k), patterns=[D(q)]))))
            return s, MIt(it.c, k, e, it.rev)
        # backwards: must not be begin()
        below = (lambda y: z3.Or(it.end, y < it.k))
        j = z3.Const('q!j', ks)
        self.obl(s, z3.Exists([j], z3.And(D(j), below(j))), 'iterator-decrementable', n, 'bounds')
        s.add(D(k))
        s.add(below(k))
        s.add(z3.ForAll([q], z3.Implies(z3.And(D(q), below(q)), q <= k), patterns=[D(q)]))
        return s, MIt(it.c, k, z3.BoolVal(False), it.rev)

    def setkey(self, s, m, k):
        """the element of a set with the given key (facts added in place)"""
        if not (isinstance(m.aux, Opq) and m.aux.name == 'pair'):
            return keyval(k)
        s.add(z3.And(k == PKEY(PFST(k), PSND(k)), k == PFST(k) * 2**32 + PSND(k), 0 <= PSND(k), PSND(k) < 2**32))
        return Rec('pair', {'first': PFST(k), 'second': PSND(k)})

    def m_MapV_extract(self, l, v, args, n, st, fr):
        # the element leaves the set and stays in the node
        outs = []
        for s, vs in self.evlist(args, st, fr):
            v = self.load(s, l)
            if v.val is not None or isinstance(vs[0], MIt):
                raise Unsupported('extract', n)
            k = mkkey(v, vs[0])
            self.obl(s, z3.Select(v.dom, k), 'extracted-element-exists', n, 'bounds')
            s = self.save(s, l, MapV(z3.Store(v.dom, k, z3.BoolVal(False)), None, v.aux))
            outs.append((s, Rec('node', {'value': vs[0]})))
        return outs

    def m_node_value(self, l, v, args, n, st, fr):
        return [(st, Ref(l.sub(('f', 'value'))))]

    def m_MapV_find(self, l, v, args, n, st, fr):
        outs = []
        for s, vs in self.evlist(args, st, fr):
            v = self.load(s, l)
            outs.append((s, MIt(l, mkkey(v, vs[0]), z3.Not(z3.Select(v.dom, mkkey(v, vs[0]))))))
        return outs

    def m_MapV_erase(self, l, v, args, n, st, fr):
        outs = []
        for s, vs in self.evlist(args, st, fr):
            v = self.load(s, l)
            if isinstance(vs[0], MIt):
                it = vs[0]
                self.obl(s, z3.Not(it.end), 'erase-dereferenceable', n, 'bounds')
                s, nx = self.map_step(s, it, True, n)
                s = self.save(s, l, MapV(z3.Store(v.dom, it.k, z3.BoolVal(False)), v.val, v.aux))
                outs.append((s, nx))
            else:
                k = mkkey(v, vs[0])
                r = z3.If(z3.Select(v.dom, k), I(1), I(0))
                s = self.save(s, l, MapV(z3.Store(v.dom, k, z3.BoolVal(False)), v.val, v.aux))
                outs.append((s, r))
        return outs

    def m_MapV_reserve(self, l, v, args, n, st, fr):
        return [(st, NONE)]

    m_MapV_rehash = m_MapV_reserve

    def m_MapV_clear(self, l, v, args, n, st, fr):
        return [(self.save(st, l, MapV(z3.K(v.dom.sort().domain(), z3.BoolVal(False)), v.val, v.aux)), NONE)]

    def map_insert(self, l, v, k, x, s, n, overwrite=False):
        """emplace semantics: nothing happens if the key is present"""
        had = z3.Select(v.dom, k)
        nval = v.val
        if v.val is not None and x is not None:
            old = select(v.val, k)
            s = s.copy()

            def pick(a, b):
                y = fresh('mv', a.sort())
                s.add(y == z3.If(had, a, coerce(b, a.sort())))
                return y
            y = x if overwrite else zip_leaves(old, x, pick)
            nval = store(v.val, k, y)
        s = self.save(s, l, MapV(z3.Store(v.dom, k, z3.BoolVal(True)), nval, v.aux))
        return s, Rec('pair', {'first': MIt(l, k, z3.BoolVal(False)), 'second': z3.Not(had)})

    def m_MapV_emplace(self, l, v, args, n, st, fr):
        outs = []
        for s, vs in self.evlist(args, st, fr):
            v = self.load(s, l)
            if len(vs) == 1 and isinstance(vs[0], Rec) and v.val is not None:
                vs = list(vs[0].f.values())
            if v.val is None and isinstance(v.aux, Opq) and v.aux.name == 'pair' and len(vs) == 2:
                vs = [Rec('pair', {'first': vs[0], 'second': vs[1]})]
            if v.val is None and isinstance(vs[0], Ref):
                vs = [self.load(s, vs[0].lv)] + vs[1:]
            if v.val is None and isinstance(vs[0], Rec) and vs[0].cls == 'node':
                vs = [vs[0].f['value']]
            k = mkkey(v, vs[0])
            outs.append(self.map_insert(l, v, k, vs[1] if v.val is not None else None, s, n))
        return outs

    m_MapV_insert = m_MapV_emplace
    m_MapV_try_emplace = m_MapV_emplace

    def m_MapV_emplace_hint(self, l, v, args, n, st, fr):
        outs = []
        for s, vs in self.evlist(args, st, fr):
            v = self.load(s, l)
            k = mkkey(v, vs[1])
            s, r = self.map_insert(l, v, k, vs[2] if v.val is not None else None, s, n)
            outs.append((s, r.f['first']))
        return outs

    def m_MapV_count(self, l, v, args, n, st, fr):
        return [(s, z3.If(z3.Select(self.load(s, l).dom, mkkey(v, vs[0])), I(1), I(0))) for s, vs in self.evlist(args, st, fr)]

    # operators on library types
    def liboperator(self, op, args, n, st, fr):
        o = op[len('operator'):]
        if o == '[]':
            outs = []
            for s, l in self.lv(args[0], st, fr):
                for s2, i in self.ev(args[1], s, fr):
                    v = self.load(s2, l)
                    if isinstance(v, Ref):
                        l, v = v.lv, self.load(s2, v.lv)
                    if isinstance(v, Vec):
                        self.obl(s2, z3.And(0 <= i, i < v.n), 'index-in-bounds', n, 'bounds')
                        s2 = s2.copy()
                        self.unfold_at(s2, v, i)
                        outs.append((s2, Ref(l.sub(('i', i)))))
                    elif isinstance(v, MapV):
                        k = mkkey(v, i)
                        s2, _ = self.map_insert(l, v, k, self.zero_elem(v.val), s2, n)
                        outs.append((s2, Ref(l.sub(('m', k)))))
                    elif isinstance(v, It):
                        outs.append((s2, Ref(v.c.sub(('i', v.i + i)))))
                    else:
                        h = self.index_special(v, l, i, n, s2, fr)
                        outs += h
            return outs
        if o in ('*', '->') and len(args) == 1:
            outs = []
            for s, v in self.ev(args[0], st, fr):
                if isinstance(v, Rec) and v.cls == 'optional':
                    for s2, l in self.lv(args[0], st, fr):
                        self.obl(s2, v.f['has'], 'optional-has-value', n, 'bounds')
                        outs.append((s2, Ref(l.sub(('f', 'val')))))
                    continue
                h = self.star_special(v, n, s, fr)
                if h is not None:
                    outs += h
                    continue
                outs.append((s, Ref(self.deref_item(s, v, n))))
            return outs
        if o in ('++', '--'):
            outs = []
            for s, l in self.lv(args[0], st, fr):
                old = self.load(s, l)
                s = self.incdec(s, l, o, n)
                outs.append((s, old if len(args) == 2 else Ref(l)))
            return outs
        if o == '=':
            outs = []
            for s, v in self.ev(args[1], st, fr):
                for s2, l in self.lv(args[0], s, fr):
                    old = self.load(s2, l)
                    if isinstance(old, Ref) and not isinstance(v, (Ref, Opq)):
                        l = old.lv
                        old = self.load(s2, l)
                    if isinstance(old, Rec) and old.cls == 'optional' and not (isinstance(v, Rec) and v.cls == 'optional'):
                        if isinstance(v, Opq):
                            v = Rec('optional', {'has': z3.BoolVal(False), 'val': old.f['val']})
                        else:
                            v = Rec('optional', {'has': z3.BoolVal(True), 'val': v})
                    if isinstance(old, Rec) and isinstance(v, Rec) and list(old.f) != list(v.f) and len(old.f) == len(v.f):
                        v = Rec(old.cls, dict(zip(old.f, v.f.values())))
                    outs.append((self.assign_value(s2, l, v, n), Ref(l)))
            return outs
        if o in ('+=', '-=', '*=', '/='):
            outs = []
            for s, v in self.ev(args[1], st, fr):
                for s2, l in self.lv(args[0], s, fr):
                    old = self.load(s2, l)
                    s3, r = self.binop(o[0], old, v, s2, n, 'nsum_t')
                    outs.append((self.save(s3, l, r), Ref(l)))
            return outs
        if o == '-' and len(args) == 1:
            return [(s, -v) for s, v in self.ev(args[0], st, fr)]
        if len(args) == 2:
            outs = []
            for s, (x, y) in self.evlist(args, st, fr):
                h = self.op_special(o, x, y, n, s, fr)
                if h is not None:
                    outs += h
                    continue
                s2, r = self.binop(o, x, y, s, n, 'nsum_t')
                outs.append((s2, r))
            return outs
        raise Unsupported('operator ' + op, n)

    def op_special(self, o, x, y, n, s, fr):
        return None

    def star_special(self, v, n, s, fr):
        return None

    def index_special(self, v, l, i, n, s, fr):
        raise Unsupported('index into %s' % (v,), n)

    def deref_item(self, s, v, n):
        if isinstance(v, MIt):
            if v.rev:
                v = self.map_prev(s, v, n)
            self.obl(s, z3.Not(v.end), 'iterator-dereferenceable', n, 'bounds')
            m = self.load(s, v.c)
            root = ('mit', next(_cnt_))
            s.store[root] = self.setkey(s, m, v.k) if m.val is None else Rec('pair', {'first': Rec({'ptr': 'Ptr', 'sym': 'Symbol'}[m.aux.name], {'id': v.k}) if isinstance(m.aux, Opq) and m.aux.name in ('ptr', 'sym') else keyval(v.k), 'second': Ref(v.c.sub(('m', v.k)))})
            return LV(root)
        return self.deref(s, v, n)

    def libcall(self, name, args, n, st, fr, d0):
        h = self.hooks.get(('f', name)) or getattr(self, 'f_' + name, None)
        if h is None:
            raise Unsupported('library function ' + name, n)
        self.lib_used.add(name)
        return h(args, n, st, fr, d0)

    def f_move(self, args, n, st, fr, d0):
        return [(s, Ref(l)) for s, l in self.lv(args[0], st, fr)]

    f_forward = f_as_const = f_addressof = f_move

    def limits(self, n):
        t = self.intty(self.ty(n))
        if t is None:
            raise Unsupported('numeric_limits of ' + self.ty(n), n)
        return int_range(*t)

    def f_max(self, args, n, st, fr, d0):
        if not args:
            return [(st, I(self.limits(n)[1]))]
        return self.minmax(args, n, st, fr, lambda a, b: z3.If(a < b, b, a))

    def f_min(self, args, n, st, fr, d0):
        if not args:
            return [(st, I(self.limits(n)[0]))]
        return self.minmax(args, n, st, fr, lambda a, b: z3.If(b < a, b, a))

    f_lowest = f_min

    def m_ArithRef_operator_int(self, l, v, args, n, st, fr):
        # explicit conversion of a wide integer: must not lose digits
        lo, hi = int_range(32, True)
        s = st.copy()
        self.obl(s, z3.And(v >= lo, v <= hi), 'conversion-in-range', n, 'overflow')
        return [(s.assume(v >= lo, v <= hi), v)]

    m_IntNumRef_operator_int = m_ArithRef_operator_int

    def minmax(self, args, n, st, fr, f):
        outs = []
        for s, vs in self.evlist(args, st, fr):
            if len(vs) == 1 and isinstance(vs[0], Vec):
                m = z3.simplify(vs[0].n)
                r = z3.Select(vs[0].el, 0)
                for i in range(1, m.as_long()):
                    r = f(r, z3.Select(vs[0].el, i))
                outs.append((s, z3.simplify(r)))
            else:
                if len(vs) < 2:
                    raise Unsupported('min/max of %s %s' % (vs, [self.ty(a) for a in args]), n)
                outs.append((s, f(vs[0], vs[1])))
        return outs

    def f_abs(self, args, n, st, fr, d0):
        outs = []
        for s, vs in self.evlist(args, st, fr):
            t = self.intty(self.ty(n)) or (32, True)
            lo, _ = int_range(*t)
            self.obl(s, vs[0] != lo, 'abs-overflow', n, 'overflow')
            outs.append((s, z3.If(vs[0] < 0, -vs[0], vs[0])))
        return outs

    def f_div(self, args, n, st, fr, d0):
        outs = []
        t = self.intty(self.ty(args[0]))
        for s, (a, b) in self.evlist(args, st, fr):
            q, fq = self.arith(s, '/', a, b, t, n)
            # quotient and remainder of the same division
            r = z3.simplify(a - q * b)
            outs.append((s.assume(*fq), Rec('div_t', {'quot': q, 'rem': a - q * b})))
        return outs

    f_ldiv = f_div

    def f_gcd(self, args, n, st, fr, d0):
        outs = []
        for s, (a, b) in self.evlist(args, st, fr):
            g, p, q = fresh('gcd'), fresh('gp'), fresh('gq')
            outs.append((s.assume(a == g * p, b == g * q, g >= 0, z3.Implies(z3.Or(a != 0, b != 0), g > 0),
                                  z3.Implies(a != 0, g <= z3.If(a < 0, -a, a)), z3.Implies(b != 0, g <= z3.If(b < 0, -b, b)),
                                  z3.Implies(z3.And(a == 0, b == 0), g == 0)), g))
        return outs

    def pred(self, lam, el, st, n, fr):
        """the value of a predicate on a symbolic element, as a function of the element"""
        x = map_leaves(el, lambda a: fresh('pe', a.sort().range()))
        s, l = self.tmp(St(dict(st.store), [], dict(st.env)), x, 'pe')
        rec = next(c for c in inner(lam.node) if c['kind'] == 'CXXRecordDecl')
        ops = [f for f in self.tu.funcs if f.name == 'operator()' and any(isinstance(y, dict) and (y.get('id') == f.id or any(isinstance(z, dict) and z.get('id') == f.id for z in y.get('inner', []))) for y in rec.get('inner', []))]
        fs = [f for f in ops if 'auto' not in str([p.get('type', {}).get('qualType') for p in f.params])] or ops
        if not fs:
            raise Unsupported('predicate body', n)
        outs = self.run(fs[0], lam.fr.this if lam.fr else None, [l], n, s, parent=lam.fr)
        r = None
        for o, v in outs:
            c = z3.And(*o.pc) if o.pc else z3.BoolVal(True)
            b = self.tobool(v)
            r = b if r is None else z3.If(c, b, r)
        xs = [t for _, t in leaves(x)]
        return lambda e: z3.substitute(r, *zip(xs, [t for _, t in leaves(e)])), x, r

    def less(self, lam, vec, st, n, fr):
        """a comparator as a function of two symbolic elements"""
        el = vec.el
        x, y = [map_leaves(el, lambda a: fresh('ce', a.sort().range())) for _ in range(2)]
        s = st.copy()
        for e in (x, y):
            p = fresh('ci')
            s.add(z3.And(0 <= p, p < vec.n, *[a == b for (_, a), (_, b) in zip(leaves(e), leaves(select(el, p)))]))
        npc = len(s.pc)
        s, l = self.tmp(s, x, 'ce')
        s, m = self.tmp(s, y, 'ce')
        rec = next(c for c in inner(lam.node) if c['kind'] == 'CXXRecordDecl')
        ops = [f for f in self.tu.funcs if f.name == 'operator()' and any(isinstance(y_, dict) and (y_.get('id') == f.id or any(isinstance(z, dict) and z.get('id') == f.id for z in y_.get('inner', []))) for y_ in rec.get('inner', []))]
        fs = [f for f in ops if 'auto' not in str([p.get('type', {}).get('qualType') for p in f.params])]
        if not fs:
            raise Unsupported('comparator body', n)
        r = None
        for o, v in self.run(fs[0], lam.fr.this if lam.fr else None, [l, m], n, s, parent=lam.fr):
            c = z3.And(*o.pc[npc:]) if o.pc[npc:] else z3.BoolVal(True)
            b = self.tobool(v)
            r = b if r is None else z3.If(c, b, r)
        xs = [t for _, t in leaves(x)] + [t for _, t in leaves(y)]
        return lambda e, f: z3.substitute(r, *zip(xs, [t for _, t in leaves(e)] + [t for _, t in leaves(f)]))

    def stateful_remove_if(self, spec, key, args, n, st, fr):
        """a predicate with effects is called once per element, in order"""
        outs = []
        for s, (a, b, lam) in self.evlist(args, st, fr):
            vec = self.load(s, a.c)
            if not z3.is_int_value(z3.simplify(a.i)) or z3.simplify(a.i).as_long() != 0:
                raise Unsupported('remove_if from the middle', n)
            kr, er = ('rm', 'k'), ('rm', 'kept')
            s = s.copy()
            self.unfold0(s, vec)
            kept = Vec(I(0), map_leaves(vec.el, lambda y: fresh('kept', y.sort())))
            self.unfold0(s, kept)
            s.store[kr], s.store[er] = I(0), kept
            fs = self.lambda_ops(lam)
            end = b.i

            def stepf(q):
                k = q.store[kr]
                cont, after = [], []
                for q2, br in self.fork(q, k < end):
                    if not br:
                        after.append(q2)
                        continue
                    q2 = q2.copy()
                    self.unfold_at(q2, vec, k)
                    l = a.c.sub(('i', k))
                    for q3, v in self.run(fs[0], lam.fr.this if lam.fr else None, [l], n, q2, parent=lam.fr):
                        for q4, rem in self.fork(q3, self.tobool(v)):
                            q4 = q4.copy()
                            if not rem:
                                q4.store[er] = self.push(q4, q4.store[er], select(vec.el, k))
                            q4.store[kr] = k + 1
                            cont.append(q4)
                return cont, after, []
            for o in self.loop(n, s, fr, None, None, None, stepf=stepf, specf=(spec, key)):
                q = o.st.copy()
                kp = q.store[er]
                q = self.save(q, a.c, Vec(vec.n, kp.el))
                del q.store[kr], q.store[er]
                outs.append((q, It(a.c, kp.n)))
        return outs

    def lambda_ops(self, lam):
        rec = next(c for c in inner(lam.node) if c['kind'] == 'CXXRecordDecl')
        ops = [f for f in self.tu.funcs if f.name == 'operator()' and any(isinstance(y, dict) and (y.get('id') == f.id or any(isinstance(z, dict) and z.get('id') == f.id for z in y.get('inner', []))) for y in rec.get('inner', []))]
        fs = [f for f in ops if 'auto' not in str([p.get('type', {}).get('qualType') for p in f.params])] or ops
        if not fs:
            raise Unsupported('predicate body')
        return fs

    def f_remove_if(self, args, n, st, fr, d0):
        sk = (short(fr.func.full), 'remove_if') if fr.func is not None else None
        if sk in self.loopspecs:
            return self.stateful_remove_if(self.loopspecs[sk], sk, args, n, st, fr)
        outs = []
        for s, (a, b, lam) in self.evlist(args, st, fr):
            vec = self.load(s, a.c)
            P, x, px = self.pred(lam, vec.el, s, n, fr)
            s = s.copy()
            if not z3.is_int_value(z3.simplify(a.i)) or z3.simplify(a.i).as_long() != 0:
                raise Unsupported('remove_if from the middle', n)
            el = map_leaves(vec.el, lambda y: fresh('rm', y.sort()))
            m = fresh('rm.n')
            g, h = z3.Function('rmg!%d' % next(_cnt_), INT, INT), z3.Function('rmh!%d' % next(_cnt_), INT, INT)
            k, j = z3.Ints('k!rm j!rm')
            E, F = select(el, k), select(vec.el, g(k))
            s.add(z3.And(0 <= m, m <= b.i))
            pat = [t for _, t in leaves(E)][:1]
            s.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= g(k), g(k) < b.i, k <= g(k), h(g(k)) == k, z3.Not(P(F)), *[u == v for (_, u), (_, v) in zip(leaves(E), leaves(F))])), patterns=pat))
            s.add(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < m), g(k) < g(j)), patterns=[z3.MultiPattern(g(k), g(j))]))
            old = [t for _, t in leaves(select(vec.el, k))][:1]
            s.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < b.i, z3.Not(P(select(vec.el, k)))), z3.And(0 <= h(k), h(k) < m, g(h(k)) == k)), patterns=old))
            for f in self.folds:
                if f.kind == 'sum' and f.pick(vec.el) is not None and self.valid(St(), z3.Implies(px, f.st(x) == 0)):
                    s.add(f.app(el, m) == f.app(vec.el, b.i))
            outs.append((self.save(s, a.c, Vec(vec.n, el)), It(a.c, m)))
        return outs

    def f_sort(self, args, n, st, fr, d0):
        outs = []
        for s, vs in self.evlist(args, st, fr):
            a, b = vs[0], vs[1]
            vec = self.load(s, a.c)
            if not self.valid(s, z3.And(a.i == 0, b.i == vec.n)):
                raise Unsupported('sort of a part', n)
            less = self.less(vs[2], vec, s, n, fr) if len(vs) > 2 and isinstance(vs[2], Lam) and self.hooks.get('comparator') else None
            s = s.copy()
            el = map_leaves(vec.el, lambda y: fresh('srt', y.sort()))
            g, h = z3.Function('srg!%d' % next(_cnt_), INT, INT), z3.Function('srh!%d' % next(_cnt_), INT, INT)
            k = z3.Int('k!srt')
            E, F = select(el, k), select(vec.el, g(k))
            pat = [t for _, t in leaves(E)][:1]
            s.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < vec.n), z3.And(0 <= g(k), g(k) < vec.n, h(g(k)) == k, *[u == v for (_, u), (_, v) in zip(leaves(E), leaves(F))])), patterns=pat))
            s.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < vec.n), z3.And(0 <= h(k), h(k) < vec.n, g(h(k)) == k)), patterns=[t for _, t in leaves(select(vec.el, k))][:1]))
            if len(vs) == 2 and isz(el) and el.sort() == z3.ArraySort(INT, INT):
                j = z3.Int('j!srt')
                s.add(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < vec.n), z3.Select(el, j) <= z3.Select(el, k)), patterns=[z3.MultiPattern(z3.Select(el, j), z3.Select(el, k))]))
            if less is not None:
                j = z3.Int('j!srt')
                X, Y = select(el, j), select(el, k)
                s.add(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < vec.n), z3.Not(less(Y, X))), patterns=[z3.MultiPattern([t for _, t in leaves(X)][0], [t for _, t in leaves(Y)][0])]))
            if self.hooks.get('sort'):
                for f in self.hooks['sort'](vec, Vec(vec.n, el)):
                    s.add(f)
            for f in self.folds:
                if f.pick(el) is not None:
                    s.add(f.app(el, vec.n) == f.app(vec.el, vec.n))
                    s.add(f.app(el, I(0)) == f.unit())
            outs.append((self.save(s, a.c, Vec(vec.n, el)), NONE))
        return outs

    f_stable_sort = f_sort

    def f_strcmp(self, args, n, st, fr, d0):
        outs = []
        for s, (a, b) in self.evlist(args, st, fr):
            if isinstance(a, StrV) and isinstance(b, StrV):
                outs.append((s, I(0 if a.s == b.s else 1)))
            else:
                outs.append((s, z3.If(strid(a) == strid(b), I(0), I(1))))
        return outs

    def f_strlen(self, args, n, st, fr, d0):
        outs = []
        for s, (a,) in self.evlist(args, st, fr):
            outs.append((s, I(len(a.s)) if isinstance(a, StrV) else z3.If(strid(a) == 0, I(0), I(1))))
        return outs

    def f_swap(self, args, n, st, fr, d0):
        outs = []
        for s, l in self.lv(args[0], st, fr):
            for s2, m in self.lv(args[1], s, fr):
                a, b = self.load(s2, l), self.load(s2, m)
                outs.append((self.save(self.save(s2, l, b), m, a), NONE))
        return outs

    def f_make_pair(self, args, n, st, fr, d0):
        return [(s, Rec('pair', {'first': v[0], 'second': v[1]})) for s, v in self.evlist(args, st, fr)]

    def f_get(self, args, n, st, fr, d0):
        # std::get<i>(tuple): index from the callee's template argument is not in
        # the AST dump; resolved by structured bindings only
        raise Unsupported('std::get', n)

    def f_make_reverse_iterator(self, args, n, st, fr, d0):
        outs = []
        for s, v in self.evlist(args, st, fr):
            x = v[0]
            outs.append((s, It(x.c, x.i, not x.rev) if isinstance(x, It) else MIt(x.c, x.k, x.end, not x.rev)))
        return outs

    # =================================================================== statements
    def ex(self, n, st, fr):
        k = n['kind']
        m = getattr(self, 'ex_' + k, None)
        if m is not None:
            return m(n, st, fr)
        # expression statement
        return [Out('normal', s) for s, v in self.ev(n, st, fr)]

    def ex_CompoundStmt(self, n, st, fr):
        cur = [st]
        outs = []
        for c in inner(n):
            nxt = []
            for s in cur:
                for o in self.ex(c, s, fr):
                    if o.kind == 'normal':
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            cur = nxt
            if len(cur) + len(outs) > self.max_paths:
                raise Unsupported('too many paths', n)
        return outs + [Out('normal', s) for s in cur]

    def ex_NullStmt(self, n, st, fr):
        return [Out('normal', st)]

    def ex_DeclStmt(self, n, st, fr):
        cur = [st]
        for d in inner(n):
            nxt = []
            for s in cur:
                nxt += self.decl(d, s, fr)
            cur = nxt
        return [Out('normal', s) for s in cur]

    def decl(self, d, st, fr):
        k = d['kind']
        if k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'FunctionDecl', 'UsingShadowDecl'):
            return [st]
        if k == 'VarDecl':
            return self.vardecl(d, st, fr)
        if k == 'DecompositionDecl':
            return self.decomp(d, st, fr)
        raise Unsupported('declaration ' + k, d)

    def vardecl(self, d, st, fr):
        t = d.get('type', {}).get('qualType', '')
        dq = d.get('type', {}).get('desugaredQualType', '')
        fr.names[d.get('name')] = d['id']
        key = (d['id'], fr.id)
        ini = [c for c in inner(d)]
        isref = t.rstrip().endswith('&') or dq.rstrip().endswith('&')
        if d.get('storageClass') == 'static':
            # keeps its value between calls: anything
            s = st.copy()
            if ('glob', 'static') in s.store:     # one object for all calls; what it holds is a requirement of the unit
                s.env[key] = LV(('glob', 'static'))
                return [s]
            s.store[key] = self.shape(dq or t, d['name'])
            return [s]
        if 'Timer' in t:
            s = st.copy()
            s.store[key] = Opq('timer')
            return [s]
        if not d.get('init') or not ini:
            s = st.copy()
            try:
                it = self.intty(t)
                v = fresh(d['name']) if it else fresh(d['name'], BOOL) if self.isbool(t) else self.default(t, d)
            except Unsupported:
                v = UNINIT
            s.store[key] = v
            if isinstance(v, Vec):
                self.unfold0(s, v)
            s.env.pop(key, None)
            return [s]
        out = []
        if isref:
            for s, l in self.lv(ini[-1], st, fr):
                s = s.copy()
                v = s.store.get(l.root) if not l.path else None
                if isinstance(v, Ref):
                    l = v.lv
                s.env[key] = l
                s.store.pop(key, None)
                out.append(s)
            return out
        for s, v in self.ev(ini[-1], st, fr):
            s = s.copy()
            if isz(v) and v.sort() == INT and self.isbool(t):
                v = v != 0
            if isz(v) and v.sort() == BOOL and self.intty(t) and not self.isbool(t):
                v = z3.If(v, I(1), I(0))
            if isinstance(v, Ref) and not (t.rstrip().endswith('*') or dq.rstrip().endswith('*') or 'reference_wrapper' in dq or t.startswith('auto *')):
                v = self.load(s, v.lv)
            s.store[key] = v
            if isinstance(v, Vec) and z3.is_int_value(z3.simplify(v.n)):
                self.unfold0(s, v)
            s.env.pop(key, None)
            out.append(s)
        return out

    def decomp(self, d, st, fr):
        t = d.get('type', {}).get('qualType', '')
        cs = inner(d)
        binds = [c for c in cs if c['kind'] == 'BindingDecl']
        ini = [c for c in cs if c['kind'] != 'BindingDecl']
        if not ini:
            raise Unsupported('decomposition without initialiser', d)
        isref = t.rstrip().endswith('&')
        out = []
        for s, l in self.lv(ini[-1], st, fr):
            v = self.load(s, l)
            if isinstance(v, Ref):
                l = v.lv
                v = self.load(s, l)
            s = s.copy()
            if not isref:
                s, l = self.tmp(s, v, 'sb')
            out.append(self.bind(binds, l, s, fr))
        return out

    def bind(self, binds, l, s, fr):
        v = self.load(s, l)
        if not isinstance(v, Rec):
            raise Unsupported('structured binding of %s' % (v,), binds[0])
        ks = list(v.f)
        if len(ks) != len(binds):
            raise Unsupported('structured binding arity', binds[0])
        for b, k in zip(binds, ks):
            fr.names[b.get('name')] = b['id']
            x = v.f[k]
            s.env[(b['id'], fr.id)] = x.lv if isinstance(x, Ref) else l.sub(('f', k))
        return s

    def ex_ReturnStmt(self, n, st, fr):
        cs = inner(n)
        if not cs:
            return [Out('return', st, NONE)]
        rt = ''
        f = fr
        if f.func is not None:
            sig = f.func.sig()
            rt = sig.split('->')[-1] if '->' in sig else sig.split('(')[0]
        if rt.strip().rstrip().endswith('&') or cs[0].get('valueCategory') == 'lvalue' and rt.strip().endswith('&'):
            return [Out('return', s, Ref(l)) for s, l in self.lv(cs[0], st, fr)]
        outs = []
        for s, v in self.ev(cs[0], st, fr):
            if isinstance(v, Ref) and not rt.strip().endswith('*'):
                v = self.load(s, v.lv)
            outs.append(Out('return', s, v))
        return outs

    def ex_IfStmt(self, n, st, fr):
        cs = inner(n)
        outs = []
        cur = [st]
        if n.get('hasInit'):
            cur = [o.st for o in self.ex(cs[0], st, fr)]
            cs = cs[1:]
        if n.get('hasVar'):
            cur = [q for s in cur for q in [o.st for o in self.ex(cs[0], s, fr)]]
            cs = cs[1:]
        cond, th = cs[0], cs[1]
        el = cs[2] if n.get('hasElse') else None
        for s0 in cur:
            if n.get('isConstexpr'):
                vals = self.ev(cond, s0, fr)
                c = z3.simplify(self.tobool(vals[0][1]))
                if z3.is_true(c):
                    outs += self.ex(th, vals[0][0], fr)
                elif el is not None:
                    outs += self.ex(el, vals[0][0], fr)
                else:
                    outs.append(Out('normal', vals[0][0]))
                continue
            for s, v in self.ev(cond, s0, fr):
                for s2, br in self.fork(s, self.tobool(v)):
                    if br:
                        outs += self.ex(th, s2, fr)
                    elif el is not None:
                        outs += self.ex(el, s2, fr)
                    else:
                        outs.append(Out('normal', s2))
        return outs

    def ex_BreakStmt(self, n, st, fr):
        return [Out('break', st)]

    def ex_ContinueStmt(self, n, st, fr):
        return [Out('continue', st)]

    def ex_SwitchStmt(self, n, st, fr):
        cs = inner(n)
        cond, body = cs[0], cs[-1]
        stmts = []   # flatten
        for c in inner(body):
            labels = []
            x = c
            while x['kind'] in ('CaseStmt', 'DefaultStmt'):
                xi = inner(x)
                if x['kind'] == 'CaseStmt':
                    labels.append(xi[0])
                else:
                    labels.append(None)
                x = xi[-1]
            stmts.append((labels, x))
        outs = []
        for s, v in self.ev(cond, st, fr):
            neg = z3.BoolVal(True)
            entries = []
            default = None
            for i, (labels, x) in enumerate(stmts):
                for lb in labels:
                    if lb is None:
                        default = i
                        continue
                    cv = self.ev(lb, s, fr)[0][1]
                    entries.append((z3.And(neg, v == cv), i))
                    neg = z3.And(neg, v != cv)
            entries.append((neg, default))
            for c, i in entries:
                s2 = s.assume(c)
                if not self.feasible(s2):
                    continue
                if i is None:
                    outs.append(Out('normal', s2))
                    continue
                cur = [s2]
                for labels, x in stmts[i:]:
                    nxt = []
                    for q in cur:
                        for o in self.ex(x, q, fr):
                            if o.kind == 'normal':
                                nxt.append(o.st)
                            elif o.kind == 'break':
                                outs.append(Out('normal', o.st))
                            else:
                                outs.append(o)
                    cur = nxt
                outs += [Out('normal', q) for q in cur]
        return outs

    # ------------------------------------------------------------ loops
    def loopspec(self, n, fr):
        f = fr.func
        if n['id'] not in fr.loopidx:
            fr.loopidx[n['id']] = loop_index(f, n) if f is not None else None
        idx = fr.loopidx[n['id']]
        keys = []
        if f is not None:
            keys = [(f.full, idx), (short(f.full), idx), (f.qname.split('::')[-1], idx), (plain(f.full), idx)]
        for k in keys:
            if k in self.loopspecs:
                return self.loopspecs[k], k
        return None, (keys[0] if keys else ('?', idx))

    def ex_ForStmt(self, n, st, fr):
        cs = n['inner']
        init, var, cond, inc, body = cs[0], cs[1], cs[2], cs[3], cs[4]
        cur = [st]
        if init.get('kind'):
            cur = [o.st for o in self.ex(init, st, fr)]
        outs = []
        for s in cur:
            outs += self.loop(n, s, fr, cond if cond.get('kind') else None, body, inc if inc.get('kind') else None)
        return outs

    def ex_WhileStmt(self, n, st, fr):
        cs = inner(n)
        return self.loop(n, st, fr, cs[0], cs[1], None)

    def ex_DoStmt(self, n, st, fr):
        raise Unsupported('do-while', n)

    def ex_CXXForRangeStmt(self, n, st, fr):
        cs = n['inner']
        # [init, range decl, begin, end, cond, inc, loop var, body]
        rng, beg, end, cond, inc, var, body = cs[1:8]
        outs = []
        cur = [st]
        if cs[0].get('kind'):
            cur = [o.st for o in self.ex(cs[0], st, fr)]
        for s0 in cur:
            for o in self.ex(rng, s0, fr):
                rd = inner(rng)[0]
                rl = o.st.env.get((rd['id'], fr.id)) or LV((rd['id'], fr.id))
                v = self.load(o.st, rl)
                if isinstance(v, Ref):
                    rl, v = v.lv, self.load(o.st, v.lv)
                if isinstance(v, Opq) and v.name == 'list':
                    outs += self.unroll_list(v.d, var, body, o.st, fr)
                    continue
                if isinstance(v, Vec) and not self.loopspec(n, fr)[0] and z3.is_int_value(z3.simplify(v.n)) and z3.simplify(v.n).as_long() <= 4:
                    outs += self.unroll_list([select(v.el, I(i)) for i in range(z3.simplify(v.n).as_long())] if v.el is not None else [], var, body, o.st, fr)
                    continue
                h = self.range_special(v, rl, n, o.st, fr)
                if h is not None:
                    outs += h
                    continue
                for o2 in self.ex(beg, o.st, fr):
                    for o3 in self.ex(end, o2.st, fr):
                        bd, ed = inner(beg)[0], inner(end)[0]
                        outs += self.loop(n, o3.st, fr, cond, body, inc, pre=var, rng=(rl, (bd['id'], fr.id)))
        return outs

    def range_special(self, v, rl, n, st, fr):
        return None

    def unroll_list(self, vals, var, body, st, fr):
        cur = [st]
        outs = []
        d = inner(var)[0]
        for x in vals:
            nxt = []
            for s in cur:
                s, l = self.tmp(s, x, 'it')
                if d['kind'] == 'DecompositionDecl':
                    s = self.bind([c for c in inner(d) if c['kind'] == 'BindingDecl'], l, s, fr)
                else:
                    fr.names[d['name']] = d['id']
                    s = s.copy()
                    s.env[(d['id'], fr.id)] = l
                for o in self.ex(body, s, fr):
                    if o.kind in ('normal', 'continue'):
                        nxt.append(o.st)
                    elif o.kind == 'break':
                        outs.append(Out('normal', o.st))
                    else:
                        outs.append(o)
            cur = nxt
        return outs + [Out('normal', s) for s in cur]

    def loop(self, n, st, fr, cond, body, inc, pre=None, rng=None, stepf=None, specf=None):
        spec, key = specf or self.loopspec(n, fr)
        if spec is None:
            spec = self.hooks.get('loopdefault') and self.hooks['loopdefault'](n, fr)
        if spec is None:
            # bounded unrolling of loops that are provably short
            spec = LoopSpec(unroll=self.hooks.get('unroll', 5))
        if spec.unroll is not None:
            return self.unrolled(n, st, fr, cond, body, inc, pre, spec.unroll, key)

        def step(s, collect):
            """one iteration from s: returns (continuing states, exits)"""
            self.rngs.append(rng)
            try:
                return step_(s, collect)
            finally:
                self.rngs.pop()

        def step_(s, collect):
            if stepf is not None:
                return stepf(s)
            cont, exits = [], []
            conds = [(s, z3.BoolVal(True))] if cond is None else [(q, self.tobool(v)) for q, v in self.ev(cond, s, fr)]
            after = []
            for q, c in conds:
                for q2, br in self.fork(q, c):
                    if not br:
                        after.append(q2)
                        continue
                    ents = [q2]
                    if pre is not None:
                        ents = [o.st for o in self.ex(pre, q2, fr)]
                    for e in ents:
                        for o in self.ex(body, e, fr):
                            if o.kind in ('normal', 'continue'):
                                if inc is not None:
                                    for q3, _ in self.ev(inc, o.st, fr):
                                        cont.append(q3)
                                else:
                                    cont.append(o.st)
                            elif o.kind == 'break':
                                after.append(o.st)
                            else:
                                exits.append(o)
            return cont, after, exits

        if rng is not None:
            b = st.store.get(rng[1])
            if isinstance(b, It):
                v = self.load(st, b.c)
                if isinstance(v, Vec):
                    st = st.copy()
                    self.unfold0(st, v)
        entry = st
        L0 = LoopCtx(self, entry, entry, fr, rng, spec)
        for nm, f in spec.inv(L0):
            self.obl(entry, f, 'loop%s-init:%s' % (key[1], nm), n, 'invariant')
        # discover what an iteration changes
        havoc = set()
        self.discover += 1
        nth = len(self.throws)
        try:
            for _ in range(8):
                s0, _m = self.havoc(entry, havoc)
                Ld = LoopCtx(self, s0, entry, fr, rng, spec)
                s0 = s0.copy()
                for nm, f in spec.inv(Ld):
                    s0.add(f)
                for f in (spec.facts(Ld) if spec.facts else []):
                    s0.add(f)
                cont, after, exits = step(s0, False)
                new = set(havoc)
                for q in cont:
                    new |= self.changed(s0, q, entry)
                if new <= havoc:
                    break
                havoc |= new
            else:
                raise Unsupported('loop modifies set does not stabilise', n)
        finally:
            self.discover -= 1
            del self.throws[nth:]
        s0, _m = self.havoc(entry, havoc)
        s0 = s0.copy()
        L1 = LoopCtx(self, s0, entry, fr, rng, spec)
        for nm, f in spec.inv(L1):
            s0.add(f)
        for f in (spec.facts(L1) if spec.facts else []):
            s0.add(f)
        v0 = spec.variant(L1) if spec.variant else None
        cont, after, exits = step(s0, True)
        for q in cont:
            L2 = LoopCtx(self, q, entry, fr, rng, spec)
            for nm, f in spec.inv(L2):
                self.obl(q, f, 'loop%s-preserved:%s' % (key[1], nm), n, 'invariant')
            if v0 is not None:
                self.obl(q, z3.And(v0 >= 0, spec.variant(L2) < v0), 'loop%s-variant' % key[1], n, 'variant')
        return [Out('normal', q) for q in after] + exits

    def unrolled(self, n, st, fr, cond, body, inc, pre, k, key):
        cur, outs = [st], []
        for i in range(k + 1):
            nxt = []
            for s in cur:
                conds = [(s, z3.BoolVal(True))] if cond is None else [(q, self.tobool(v)) for q, v in self.ev(cond, s, fr)]
                for q, c in conds:
                    for q2, br in self.fork(q, c):
                        if not br:
                            outs.append(Out('normal', q2))
                            continue
                        if i == k:
                            raise Unsupported('loop %s without invariant is not bounded by %d' % (key, k), n)
                        ents = [q2] if pre is None else [o.st for o in self.ex(pre, q2, fr)]
                        for e in ents:
                            for o in self.ex(body, e, fr):
                                if o.kind in ('normal', 'continue'):
                                    nxt += [q3 for q3, _ in self.ev(inc, o.st, fr)] if inc is not None else [o.st]
                                elif o.kind == 'break':
                                    outs.append(Out('normal', o.st))
                                else:
                                    outs.append(o)
            cur = nxt
            if not cur:
                break
        return outs

    def changed(self, a, b, entry):
        """leaf paths of roots existing at loop entry that differ"""
        out = set()
        for root, v in entry.store.items():
            if root[0] in ('tmp', 'mit', 'const') and root[0] != 'tmp':
                continue
            x, y = a.store.get(root), b.store.get(root)
            if x is y or y is None:
                continue
            try:
                la, lb = dict(leaves(x)), dict(leaves(y))
            except Exception:
                raise Unsupported('cannot compare loop states')
            for p, t in lb.items():
                if p not in la or not la[p].eq(t):
                    out.add((root, p))
            if not la and not lb and x is not y and not same_shape(x, y):
                out.add((root, '*'))
        for k, l in entry.env.items():
            m = b.env.get(k)
            if m is not None and m is not l and repr(m) != repr(l):
                # a reference re-bound inside the loop (loop variable): dropped
                pass
        return out

    def havoc(self, st, paths):
        s = st.copy()
        byroot = {}
        for r, p in paths:
            byroot.setdefault(r, set()).add(p)
        for r, ps in byroot.items():
            if '*' in ps:
                s.store.pop(r, None)
                continue
            s.store[r] = havoc_leaves(s.store[r], ps, r)
            # non negative vector lengths
            for p, t in leaves(s.store[r]):
                if p and p[-1] == '#n' and t.sort() == INT and p in ps:
                    s.add(t >= 0)
            self.type_facts(s, r, ps)
        return s, byroot

    def type_facts(self, s, r, ps):
        h = self.hooks.get('type_facts')
        if h:
            h(self, s, r, ps)
        # integer locals stay in the range of their type
        if r and isinstance(r[0], str):
            d = self.tu.decls.get(r[0])
            if d is not None and isz(s.store[r]) and s.store[r].sort() == INT:
                f = self.range_of(s.store[r], self.ty(d) or self.qt(d))
                if f is not None:
                    s.add(f)


class LoopCtx:
    """what loop invariants are written over"""

    def __init__(self, eng, st, entry, fr, rng, spec):
        self.e, self.st, self.entry, self.fr, self.rng = eng, st, entry, fr, rng

    def _lv(self, name, fr=None):
        f = fr or self.fr
        while f is not None:
            if name in f.names:
                key = (f.names[name], f.id)
                if key in self.st.env:
                    return self.st.env[key]
                if key in self.st.store or key in self.entry.store:
                    return LV(key)
            f = f.parent
        raise Unsupported('no local named %s' % name)

    def __getitem__(self, name):
        return self.e.load(self.st, self._lv(name))

    def at_entry(self, name):
        return self.e.load(self.entry, self._lv(name))

    def get(self, lv):
        return self.e.load(self.st, lv)

    def old(self, lv):
        return self.e.load(self.entry, lv)

    @property
    def this(self):
        f = self.fr
        while f.this is None and f.parent is not None:
            f = f.parent
        return f.this

    def p(self, i):
        """parameter i of the function under verification"""
        return self.e.load(self.st, self._plv(i))

    def _plv(self, i):
        # by identity: a local of an inner scope may have the same name
        f = self.fr
        key = (f.func.params[i]['id'], f.id)
        if key in self.st.env:
            return self.st.env[key]
        if key in self.st.store or key in self.entry.store:
            return LV(key)
        return self._lv(f.func.params[i]['name'])

    def p0(self, i):
        return self.e.load(self.entry, self._plv(i))

    def only(self, cls, pred=lambda v: True):
        """the only local of a kind, whatever its name"""
        out = []
        for nm, i in self.fr.names.items():
            v = self.st.store.get((i, self.fr.id))
            if isinstance(v, cls) and pred(v):
                out.append(v)
        if len(out) != 1:
            raise Unsupported('expected one local %s' % cls.__name__)
        return out[0]

    def all(self, pred):
        """the locals of a kind in order of declaration"""
        return [v for v in (self.st.store.get((i, self.fr.id)) for i in self.fr.names.values()) if pred(v)]

    def mit(self):
        """the only local map iterator"""
        out = []
        if self.rng is not None and isinstance(self.st.store.get(self.rng[1]), MIt):
            return self.st.store[self.rng[1]]
        for nm, i in self.fr.names.items():
            v = self.st.store.get((i, self.fr.id))
            if isinstance(v, MIt) and not nm.startswith('__'):
                out.append(v)
        if len(out) > 1:        # not the end of the range
            out = [v for v in out if not z3.is_true(v.end)]
        if len(out) != 1:
            raise Unsupported('expected one map iterator')
        return out[0]

    def rit(self):
        """the reverse map iterator that started at the end"""
        for nm, i in self.fr.names.items():
            v, w = self.st.store.get((i, self.fr.id)), self.entry.store.get((i, self.fr.id))
            if isinstance(v, MIt) and v.rev and isinstance(w, MIt) and z3.is_true(w.end):
                return v
        raise Unsupported('expected a reverse map iterator')

    @property
    def k(self):
        """index of the current iteration of a range-for over a vector"""
        it = self.e.load(self.st, LV(self.rng[1]))
        return it.i

    def outer_k(self, lvl=1):
        """index of an enclosing range-for"""
        r = [x for x in self.e.rngs if x is not self.rng][-lvl]
        return self.e.load(self.st, LV(r[1])).i

    @property
    def it(self):
        return self.e.load(self.st, LV(self.rng[1]))

    @property
    def vec(self):
        return self.e.load(self.st, self.rng[0])


_cnt_ = itertools.count()
_strs = {'': 0}


def strid(a):
    """number of a string: equal iff the strings are"""
    if isinstance(a, StrV):
        return I(_strs.setdefault(a.s, len(_strs)))
    if isinstance(a, Opq) and isz(a.d):
        return a.d
    raise Unsupported('string %s' % (a,))


def havoc_leaves(v, ps, name, path=()):
    nm = 'h'
    if isz(v):
        return fresh(nm, v.sort()) if path in ps else v
    if isinstance(v, Rec):
        return Rec(v.cls, {k: havoc_leaves(x, ps, name, path + (k,)) for k, x in v.f.items()})
    if isinstance(v, Vec):
        n = fresh('n', v.n.sort()) if path + ('#n',) in ps else v.n
        return Vec(n, None if v.el is None else havoc_leaves(v.el, ps, name, path + ('#el',)))
    if isinstance(v, MapV):
        return MapV(fresh('dom', v.dom.sort()) if path + ('#dom',) in ps else v.dom, None if v.val is None else havoc_leaves(v.val, ps, name, path + ('#val',)),
                    None if v.aux is None else havoc_leaves(v.aux, ps, name, path + ('#aux',)))
    if isinstance(v, It):
        return It(v.c, fresh('it', v.i.sort()) if path + ('#i',) in ps else v.i, v.rev)
    if isinstance(v, MIt):
        return MIt(v.c, fresh('k', v.k.sort()) if path + ('#k',) in ps else v.k, fresh('end', BOOL) if path + ('#end',) in ps else v.end, v.rev)
    return v


def same_shape(a, b):
    if isinstance(a, LV) and isinstance(b, LV):
        return repr(a) == repr(b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return repr(a.lv) == repr(b.lv)
    if isinstance(a, Opq) and isinstance(b, Opq):
        return a.name == b.name
    return type(a) is type(b)


def same_store(a, b):
    if a.store is b.store:
        return True
    for k, v in b.store.items():
        if a.store.get(k) is not v:
            return False
    return True


def cmpz(op, a, b):
    return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


def keq(a, b):
    return a == b


def keyval(k):
    return k


VKEY = z3.Function('VKEY', z3.ArraySort(INT, INT), INT, INT)   # number of a vector of numbers: equal iff the contents are


PKEY, PFST, PSND = z3.Function('PKEY', INT, INT, INT), z3.Function('PFST', INT, INT), z3.Function('PSND', INT, INT)


def pair_axioms():
    """pairs of a number and a 32 bit number in lexicographic order"""
    a, b, k = z3.Ints('a!pk b!pk k!pk')
    t = PKEY(a, b)
    return [z3.ForAll([a, b], z3.And(t == a * 2**32 + b, z3.Implies(z3.And(0 <= b, b < 2**32), z3.And(PFST(t) == a, PSND(t) == b))), patterns=[t])]


def mkkey(m, k):
    if isinstance(k, Vec) and isz(k.el):
        return VKEY(k.el, k.n)
    if isinstance(k, Rec) and k.cls == 'pair' and isz(k.f['first']) and m.dom.sort().domain() == INT:
        # ordered pairs with a 32 bit second component
        return PKEY(k.f['first'], k.f['second'])
    if isinstance(k, Rec) and k.cls == 'Ptr' or isinstance(m.aux, Opq) and m.aux.name == 'sym' and isinstance(k, Rec):
        return k.f['id']
    if isinstance(k, StrV) or isinstance(k, Opq) and isz(k.d):
        return strid(k)
    return k


def lexlt(a, b):
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        r = z3.Or(x < y, z3.And(x == y, r))
    return r


def plain(q):
    """drop template arguments and anonymous namespaces"""
    out, d = '', 0
    for ch in q:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out += ch
    return out.replace('Clingcon::', '')


def short(q):
    return q.replace('Clingcon::', '', 1) if q.startswith('Clingcon::') else q


def loop_index(f, node):
    """position of a loop in source order within the function"""
    n = [0]
    res = [None]

    def walk(x):
        if res[0] is not None:
            return
        if x.get('kind') in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt'):
            if x['id'] == node['id']:
                res[0] = n[0]
                return
            n[0] += 1
        for c in x.get('inner', []):
            if isinstance(c, dict):
                walk(c)
    if f is not None and f.body is not None:
        walk(f.body)
    return res[0]
