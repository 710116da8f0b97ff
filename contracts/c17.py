"""C17: options set exactly the documented configuration.

A pointer into a C string is a string number and an offset; what the text
between two pointers denotes as a number, and whether it equals a constant,
are uninterpreted functions of the text."""
import z3
from sem import *
from engine import NONE, StrV, Opq, Unsupported, Rec, Vec, Ref, MapV, NULL, coerce, LV
from execu import It, Exec, Out, _cnt_, inner, callee_name, strid

API, HDR = 'src/clingcon.cc', 'src/clingcon.cc'
REAL = z3.RealSort()
LEN = z3.Function('STRLEN', INT, INT)                       # length of a string
CHAR = z3.Function('CHAR', INT, INT, INT)                   # character at an offset
EQN = z3.Function('EQN', INT, INT, INT, INT, BOOL)          # string a from offset b on agrees with string c on d characters
ISNUM = z3.Function('ISNUM', INT, INT, INT, BOOL)           # the text is [+-]?[0-9]+
NUM = z3.Function('NUM', INT, INT, INT, INT)                # its value
ISREAL = z3.Function('ISREAL', INT, INT, INT, BOOL)
RNUM = z3.Function('RNUM', INT, INT, INT, REAL)
RMIN, RMAX = z3.Real('DBL_LOWEST'), z3.Real('DBL_MAX')
MINUS = ord('-')
i_, t_ = z3.Int('i!17'), z3.Int('t!17')
sel = z3.Select
IA, BA = z3.ArraySort(INT, INT), z3.ArraySort(INT, BOOL)


def cstr(i, o, null=False):
    return Rec('CStr', {'id': i, 'off': o, 'null': null if z3.is_expr(null) else z3.BoolVal(null)})


def fresh_cstr(st, name, null=False):
    p = cstr(fresh(name), fresh(name + '.off'), fresh(name + '.null', BOOL) if null else False)
    wf(st, p)
    return p


def wf(st, p):
    f = p.f
    st.add(z3.And(0 <= f['off'], f['off'] <= LEN(f['id']), LEN(f['id']) < 2**40, (CHAR(f['id'], f['off']) == 0) == (f['off'] == LEN(f['id']))))


def text(b, e=None):
    """(string, from, to) of a range; null ends at the end of the string"""
    i = b.f['id']
    if e is None or e is NULL or e is NONE:
        return i, b.f['off'], LEN(i)
    return i, b.f['off'], z3.If(e.f['null'], LEN(i), e.f['off'])


def txteq(t, s):
    i, b, e = t
    k = strid(StrV(s)) if isinstance(s, str) else s
    n = I(len(s)) if isinstance(s, str) else LEN(s)
    return z3.And(e - b == n, EQN(i, b, k, n))


def oknum(T, t):
    if T == 'double':
        return ISREAL(*t)
    lo, hi = RANGE[T]
    return z3.And(ISNUM(*t), lo <= NUM(*t), NUM(*t) <= hi, *([CHAR(t[0], t[1]) != MINUS] if lo == 0 else []))


RANGE = {'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1), 'unsigned long': (0, 2**64 - 1)}


def val(T, t):
    return RNUM(*t) if T == 'double' else NUM(*t)


def full(T):
    return (RMIN, RMAX) if T == 'double' else tuple(I(x) for x in RANGE[T])


def rng(T, t, lo, hi):
    """accepted?, value"""
    mn, mx = txteq(t, 'min'), txteq(t, 'max')
    return z3.Or(mn, mx, z3.And(oknum(T, t), lo <= val(T, t), val(T, t) <= hi)), z3.If(mn, lo, z3.If(mx, hi, val(T, t)))


def boolean(t):
    yes = z3.Or(*[txteq(t, x) for x in ('true', 'yes', '1')])
    no = z3.Or(*[txteq(t, x) for x in ('false', 'no', '0')])
    return z3.Or(yes, no), yes


class OptExec(Exec):
    def shape(self, t, name):
        r = self.resolve(t)
        if r == 'double':
            return fresh(name, REAL)
        if r.rstrip('* ').endswith('char') and r.rstrip().endswith('*'):
            return cstr(fresh(name), fresh(name + '.off'))
        return Exec.shape(self, t, name)

    def tobool(self, v):
        if isinstance(v, Rec) and v.cls == 'CStr':
            return z3.Not(v.f['null'])
        return Exec.tobool(self, v)

    def null_test(self, p, s, n):
        if isinstance(p, Rec) and p.cls == 'CStr':
            return p.f['null']
        return Exec.null_test(self, p, s, n)

    def binop(self, op, x, y, s, n, ty):
        if isinstance(x, Rec) and x.cls == 'CStr' and op in ('+', '-'):
            if isinstance(y, Rec):
                self.obl(s, z3.And(x.f['id'] == y.f['id'], z3.Not(x.f['null']), z3.Not(y.f['null'])), 'difference-within-one-string', n, 'bounds')
                return s, x.f['off'] - y.f['off']
            o = x.f['off'] + y if op == '+' else x.f['off'] - y
            self.obl(s, z3.And(z3.Not(x.f['null']), 0 <= o, o <= LEN(x.f['id'])), 'pointer-within-the-string', n, 'bounds')
            p = cstr(x.f['id'], o)
            s = s.copy()
            wf(s, p)
            return s, p
        return Exec.binop(self, op, x, y, s, n, ty)

    def ev_UnaryOperator(self, n, st, fr):
        if n['opcode'] == '*' and 'char' in self.ty(inner(n)[0]):
            outs = []
            for s, p in self.ev(inner(n)[0], st, fr):
                if isinstance(p, Ref):
                    p = self.load(s, p.lv)
                self.obl(s, z3.And(z3.Not(p.f['null']), 0 <= p.f['off'], p.f['off'] <= LEN(p.f['id'])), 'read-within-the-string', n, 'bounds')
                outs.append((s, CHAR(p.f['id'], p.f['off'])))
            return outs
        return Exec.ev_UnaryOperator(self, n, st, fr)

    def lv(self, n, st, fr):
        if n['kind'] == 'DeclRefExpr' and n['referencedDecl'].get('name') == 'is_unsigned_v':
            return [self.tmp(s, v) for s, v in self.ev_DeclRefExpr(n, st, fr)]
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '*' and 'char' in self.ty(inner(n)[0]):
            return [self.tmp(s, v) for s, v in self.ev_UnaryOperator(n, st, fr)]
        return Exec.lv(self, n, st, fr)

    def ev_DeclRefExpr(self, n, st, fr):
        if n['referencedDecl'].get('name') == 'is_unsigned_v':
            # the declaration lies in a system header: which type it is asked for is read from the source line
            line = open(n['_file']).read().split('\n')[n['_line'] - 1]
            ts = fr.func.targs if fr.func is not None else []
            if len(ts) != 1 or line.count('is_unsigned_v<T>') != line.count('is_unsigned_v') or ts[0] not in list(RANGE) + ['double']:
                raise Unsupported('is_unsigned_v', n)
            return [(st, z3.BoolVal(ts[0].startswith('unsigned')))]
        return Exec.ev_DeclRefExpr(self, n, st, fr)

    # ---- the C library
    def f_strlen(self, args, n, st, fr, d0):
        outs = []
        for s, (a,) in self.evlist(args, st, fr):
            if isinstance(a, Ref):
                a = self.load(s, a.lv)
            if isinstance(a, StrV):
                outs.append((s, I(len(a.s))))
            else:
                self.obl(s, z3.Not(a.f['null']), 'string-not-null', n, 'bounds')
                outs.append((s, LEN(a.f['id']) - a.f['off']))
        return outs

    def key(self, a):
        return (strid(a), I(0)) if isinstance(a, StrV) else (a.f['id'], a.f['off'])

    def f_strncmp(self, args, n, st, fr, d0):
        outs = []
        for s, (a, b, k) in self.evlist(args, st, fr):
            # Note: the contents of a string from its start on
            (i, o), (j, p) = self.key(a), self.key(b)
            s = s.copy()
            r = fresh('cmp')
            eq = fresh('agree', BOOL)
            s.add(z3.Implies(p == 0, eq == EQN(i, o, j, k)))
            s.add((r == 0) == eq)
            outs.append((s, r))
        return outs

    def f_strcmp(self, args, n, st, fr, d0):
        outs = []
        for s, (a, b) in self.evlist(args, st, fr):
            (i, o), (j, p) = self.key(a), self.key(b)
            ln = I(len(b.s)) if isinstance(b, StrV) else LEN(j) - p
            s = s.copy()
            r, eq = fresh('cmp'), fresh('agree', BOOL)
            s.add(z3.Implies(p == 0, eq == z3.And(LEN(i) - o == ln, EQN(i, o, j, ln))))
            s.add((r == 0) == eq)
            outs.append((s, r))
        return outs

    def f_strchr(self, args, n, st, fr, d0):
        outs = []
        for s, (a, c) in self.evlist(args, st, fr):
            p = fresh_cstr(s, 'pos', True)
            i, o, q = a.f['id'], a.f['off'], p.f['off']
            s.add(p.f['id'] == i)
            s.add(z3.If(p.f['null'], z3.ForAll([i_], z3.Implies(z3.And(o <= i_, i_ < LEN(i)), CHAR(i, i_) != c), patterns=[CHAR(i, i_)]),
                        z3.And(o <= q, q < LEN(i), CHAR(i, q) == c, z3.ForAll([i_], z3.Implies(z3.And(o <= i_, i_ < q), CHAR(i, i_) != c), patterns=[CHAR(i, i_)]))))
            outs.append((s, p))
        return outs

    # ---- numbers from streams
    def construct(self, t, b, ta, cs, n, st, fr):
        cs2 = [c for c in cs if c['kind'] != 'CXXDefaultArgExpr']
        if b in ('basic_string', 'string') and len(cs2) == 2:
            outs = []
            for s, (x, y) in self.evlist(cs2, st, fr):
                if isinstance(x, Rec) and isinstance(y, Rec) and x.cls == y.cls == 'CStr':
                    self.obl(s, z3.And(x.f['id'] == y.f['id'], z3.Not(x.f['null']), z3.Not(y.f['null']), x.f['off'] <= y.f['off']), 'range-within-one-string', n, 'bounds')
                    outs.append((s, Rec('text', {'id': x.f['id'], 'b': x.f['off'], 'e': y.f['off']})))
                else:
                    return None
            return outs
        if b in ('basic_istringstream', 'istringstream'):
            outs = []
            for s, v in self.evlist(cs2[:1], st, fr):
                x = v[0]
                if isinstance(x, Ref):
                    x = self.load(s, x.lv)
                if not (isinstance(x, Rec) and x.cls == 'text'):
                    return None
                no = z3.BoolVal(False)
                outs.append((s, Rec('iss', {'id': x.f['id'], 'b': x.f['b'], 'e': x.f['e'], 'classic': no, 'exc': no, 'skipws': z3.BoolVal(True), 'eof': no})))
            return outs
        if b in ('runtime_error', 'invalid_argument'):
            return [(st, Opq('exception'))]
        return Exec.construct(self, t, b, ta, cs, n, st, fr)

    def names_in(self, n):
        out = set()
        def go(x):
            if isinstance(x, dict):
                d = x.get('referencedDecl')
                if d:
                    out.add(d.get('name'))
                if x.get('kind') == 'MemberExpr':
                    out.add(x.get('name'))
                for y in x.get('inner', []):
                    go(y)
        go(n)
        return out

    def m_iss_imbue(self, l, v, args, n, st, fr):
        return [(self.save(st, l.sub(('f', 'classic')), z3.BoolVal('classic' in self.names_in(args[0]))), NONE)]

    def m_iss_exceptions(self, l, v, args, n, st, fr):
        return [(self.save(st, l.sub(('f', 'exc')), z3.BoolVal('failbit' in self.names_in(args[0]))), NONE)]

    def m_iss_unsetf(self, l, v, args, n, st, fr):
        return [(self.save(st, l.sub(('f', 'skipws')), z3.BoolVal('skipws' not in self.names_in(args[0]))), NONE)]

    def m_optional_operator_bool(self, l, v, args, n, st, fr):
        return [(st, v.f['has'])]

    def m_iss_eof(self, l, v, args, n, st, fr):
        return [(st, v.f['eof'])]

    def extract(self, T, il, dl, n, st):
        v = self.load(st, il).f
        t = (v['id'], v['b'], v['e'])
        clean = z3.And(v['classic'], z3.Not(v['skipws']))
        num, ok = val(T, t), (ISREAL(*t) if T == 'double' else ISNUM(*t))
        s0 = st.copy()
        cases = []
        if T == 'double':
            s0.add(z3.Implies(ISREAL(*t), z3.And(RMIN <= num, num <= RMAX)))
            cases.append((z3.And(clean, ok), num))
        else:
            lo, hi = RANGE[T]
            s0.add(z3.Implies(ISNUM(*t), z3.And(t[1] < t[2], z3.Implies(num < 0, CHAR(t[0], t[1]) == MINUS))))
            cases.append((z3.And(clean, ok, lo <= num, num <= hi), num))
            if lo == 0:     # negative numbers wrap around
                cases.append((z3.And(clean, ok, num < 0, num >= -hi), num + hi + 1))
        outs = []
        done = []
        for c, x in cases:
            s = s0.assume(c)
            done.append(c)
            if self.feasible(s):
                s = self.save(s, dl, x)
                outs.append((self.save(s, il.sub(('f', 'eof')), z3.BoolVal(True)), NONE))
        rest = s0.assume(z3.Not(z3.Or(*done)))
        # failure
        s = rest.assume(v['exc'])
        if self.feasible(s):
            self.throws.append((s, 'istream failure', n))
        # failure without exception, or a number followed by something else
        s = rest.copy()
        x, e = (fresh('got', REAL) if T == 'double' else fresh('got')), fresh('eof', BOOL)
        if T != 'double':
            s.add(z3.And(RANGE[T][0] <= x, x <= RANGE[T][1]))
        s.add(z3.Implies(z3.And(clean, v['exc']), z3.And(z3.Not(ok), z3.Not(e))))
        if self.feasible(s):
            s = self.save(s, dl, x)
            outs.append((self.save(s, il.sub(('f', 'eof')), e), NONE))
        return outs

    def call(self, n, st, fr):
        cs = inner(n)
        if n['kind'] in ('CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            if n['kind'] == 'CXXOperatorCallExpr':
                nm, a = callee_name(cs[0]).get('referencedDecl', {}).get('name'), cs[1:]
            else:
                me = cs[0]
                while me['kind'] != 'MemberExpr':
                    me = inner(me)[0]
                nm, a = me.get('name'), [inner(me)[0]] + cs[1:]
            if nm == 'operator>>':
                outs = []
                for s, il in self.lv(a[0], st, fr):
                    for s2, dl in self.lv(a[1], s, fr):
                        T = self.resolve(self.ty(a[1]))
                        if T not in RANGE and T != 'double':
                            raise Unsupported('extraction of ' + T, n)
                        outs += self.extract(T, il, dl, n, s2)
                return outs
        return Exec.call(self, n, st, fr)

    def dlimit(name, v):
        def f(self, args, n, st, fr, d0):
            if not args and self.resolve(self.ty(n)) == 'double':
                return [(st, v)]
            h = getattr(Exec, 'f_' + name, None)
            if h is None:
                raise Unsupported('library function ' + name, n)
            return h(self, args, n, st, fr, d0)
        return f

    f_lowest, f_max, f_min = dlimit('lowest', RMIN), dlimit('max', RMAX), dlimit('min', z3.Real('DBL_MIN'))


UNITS = []
TYPES = ['int', 'unsigned int', 'unsigned long', 'double']
STR = lambda e, st: fresh_cstr(st, 'value')


def end_of(e, st):
    return fresh_cstr(st, 'end', True)


def valid(c):
    b, e = c.o(0), c.o(1)
    r = [('a string', z3.And(z3.Not(b.f['null']), 0 <= b.f['off'], b.f['off'] <= LEN(b.f['id'])))]
    if isinstance(e, Rec):
        r.append(('a range', z3.Or(e.f['null'], z3.And(e.f['id'] == b.f['id'], b.f['off'] <= e.f['off'], e.f['off'] <= LEN(e.f['id'])))))
    return r


def cst(x):
    return strid(x) if isinstance(x, StrV) else x.f['id']


def eqs_ens(c):
    t = text(c.o(0), c.o(1))
    s = c.o(2)
    return [('exactly the text', c.res == txteq(t, s.s if isinstance(s, StrV) else s.f['id']))]


EQ = Contract(requires=valid, ensures=eqs_ens)


def str0(e, st):
    p = fresh_cstr(st, 'str')
    st.add(p.f['off'] == 0)
    return p


UNITS.append(Unit('C17', API, 'equals', EQ, contracts={}, ovf={32}, eng=OptExec, name='C17/equals', opts={'args': {0: STR, 1: end_of, 2: str0}}))


def s2n(T):
    return Contract(requires=valid, ensures=lambda c: [('the number written', c.res == val(T, text(c.o(0), c.o(1)))), ('accepted only if it is one of the type', oknum(T, text(c.o(0), c.o(1))))],
                    throws=lambda c: z3.Not(oknum(T, text(c.o(0), c.o(1)))), ret=T)


C0 = {'equals': EQ}
for T in TYPES:
    UNITS.append(Unit('C17', API, 'strtonum', s2n(T), contracts={}, ovf={32}, eng=OptExec, targs=[T], name='C17/strtonum<%s>' % T, opts={'args': {0: STR, 1: end_of}}))
    C0['strtonum<%s>' % T] = s2n(T)


def prn(T):
    r = lambda c: rng(T, text(c.o(0), c.o(1)), c.o(2), c.o(3))
    return Contract(requires=lambda c: valid(c) + [('a range of values', c.o(2) <= c.o(3))], ensures=lambda c: [('accepted', r(c)[0]), ('the value written', c.res == r(c)[1]), ('in range', z3.And(c.o(2) <= c.res, c.res <= c.o(3)))], throws=lambda c: z3.Not(r(c)[0]), ret=T)


def pn(T):
    r = lambda c: rng(T, text(c.o(0)), c.o(1), c.o(2))
    return Contract(requires=lambda c: [('a string', z3.And(z3.Not(c.o(0).f['null']), 0 <= c.o(0).f['off'], c.o(0).f['off'] <= LEN(c.o(0).f['id']))), ('a range of values', c.o(1) <= c.o(2))],
                    ensures=lambda c: [('accepted', r(c)[0]), ('the value written', c.res == r(c)[1]), ('in range', z3.And(c.o(1) <= c.res, c.res <= c.o(2)))], throws=lambda c: z3.Not(r(c)[0]), ret=T)


def num_args(T, k):
    if T != 'double':
        return {}
    return {k: lambda e, st: fresh('min', REAL), k + 1: lambda e, st: fresh('max', REAL)}


for T in TYPES:
    UNITS.append(Unit('C17', API, 'parse_range_num', prn(T), contracts=C0, ovf={32}, eng=OptExec, targs=[T], name='C17/parse_range_num<%s>' % T, opts={'args': {0: STR, 1: end_of, **num_args(T, 2)}}))
C1 = dict(C0)
for T in TYPES:
    C1['parse_range_num<%s>' % T] = prn(T)
for T in TYPES:
    UNITS.append(Unit('C17', API, 'parse_num', pn(T), contracts=C1, ovf={32}, eng=OptExec, targs=[T], name='C17/parse_num<%s>' % T, opts={'args': {0: STR, **num_args(T, 1)}}))
C2 = dict(C1)
for T in TYPES:
    C2['parse_num<%s>' % T] = pn(T)
PB = Contract(requires=valid, ensures=lambda c: [('accepted', boolean(text(c.o(0), c.o(1)))[0]), ('yes or no', c.res == boolean(text(c.o(0), c.o(1)))[1])], throws=lambda c: z3.Not(boolean(text(c.o(0), c.o(1)))[0]), ret='bool')
UNITS.append(Unit('C17', API, 'parse_bool', PB, contracts=C0, ovf={32}, eng=OptExec, name='C17/parse_bool', opts={'args': {0: STR, 1: end_of}}))
C2['parse_bool'] = PB


# ------------------------------------------------------------ values with a thread
FIRST = z3.Function('FIRST', INT, INT, INT, INT)            # first occurrence of a character, or the end
MAXT = 64
FIELDS = ['heuristic', 'sign_value', 'refine_reasons', 'refine_introduce', 'propagate_chain', 'split_all']  # in order of Target
TARGET = {'heuristic': 0, 'sign_value': 1, 'refine_reasons': 2, 'refine_introduce': 3, 'propagate_chain': 4, 'split_all': 5}


def isfirst(i, o, p, c):
    return z3.And(o <= p, p <= LEN(i), z3.Or(p == LEN(i), CHAR(i, p) == c), z3.ForAll([i_], z3.Implies(z3.And(o <= i_, i_ < p), CHAR(i, i_) != c), patterns=[CHAR(i, i_)]))


FS_REQ = lambda c: [('a string', z3.And(z3.Not(c.o(0).f['null']), 0 <= c.o(0).f['off'], c.o(0).f['off'] <= LEN(c.o(0).f['id'])))]


def fs_res(c, s):
    p = cstr(c.o(0).f['id'], FIRST(c.o(0).f['id'], c.o(0).f['off'], c.o(1)))
    wf(s, p)
    s.add(isfirst(c.o(0).f['id'], c.o(0).f['off'], p.f['off'], c.o(1)))
    return p


FS = Contract(requires=FS_REQ, ensures=lambda c: [('in the string', z3.And(c.res.f['id'] == c.o(0).f['id'], z3.Not(c.res.f['null']))), ('first occurrence or end', isfirst(c.o(0).f['id'], c.o(0).f['off'], c.res.f['off'], c.o(1)))])
UNITS.append(Unit('C17', API, 'find_str', FS, contracts={}, ovf={32}, eng=OptExec, name='C17/find_str', opts={'args': {0: STR}}))
C2['find_str'] = Contract(requires=FS_REQ, res=fs_res)


def parts(p):
    """value text, text after the comma, is there a comma"""
    i, o = p.f['id'], p.f['off']
    q = FIRST(i, o, I(ord(',')))
    return (i, o, q), (i, q + 1, LEN(i)), q != LEN(i)


def thread(p):
    """well formed?, given?, thread"""
    _, t, has = parts(p)
    ok, v = rng('unsigned int', t, I(0), I(MAXT - 1))
    return z3.Or(z3.Not(has), ok), has, v


def d_bool(p):
    ok, v = boolean(parts(p)[0])
    return ok, z3.If(v, I(1), I(0))


def d_sign(p):
    t = parts(p)[0]
    ok, v = rng('int', t, *full('int'))
    pl, mi = txteq(t, '+'), txteq(t, '-')
    return z3.Or(pl, mi, ok), z3.If(pl, full('int')[1], z3.If(mi, full('int')[0], v))


def d_heu(p):
    t = parts(p)[0]
    no, mc = txteq(t, 'none'), txteq(t, 'max-chain')
    return z3.Or(no, mc), z3.If(no, I(0), I(1))


def d_clause(p):
    ok, v = rng('unsigned int', parts(p)[0], *full('unsigned int'))
    return ok, v


def d_total(p):
    _, t, has = parts(p)
    ok, v = rng('unsigned long', t, *full('unsigned long'))
    return z3.Or(z3.Not(has), ok), has, v


def pair_con(dv, dt):
    def ens(c):
        (ok, v), (tok, has, t) = dv(c.o(0)), dt(c.o(0))
        r = c.res
        return [('accepted', z3.And(ok, tok)), ('the value written', r.f['first'] == v), ('given iff there is a second part', r.f['second'].f['has'] == has), ('the second part', z3.Implies(has, r.f['second'].f['val'] == t))]

    def bad(c):
        return z3.Not(z3.And(dv(c.o(0))[0], dt(c.o(0))[0]))
    return Contract(requires=FS_REQ, ensures=ens, throws=bad)


PAIRS = {'parse_bool_thread': (d_bool, thread), 'parse_sign_value': (d_sign, thread), 'parse_heuristic': (d_heu, thread), 'parse_translate_clause': (d_clause, d_total)}
for fn, (dv, dt) in PAIRS.items():
    UNITS.append(Unit('C17', API, fn, pair_con(dv, dt), contracts=C2, ovf={32}, eng=OptExec, name='C17/' + fn, opts={'args': {0: STR}}))
C3 = dict(C2)
for fn, (dv, dt) in PAIRS.items():
    C3[fn] = pair_con(dv, dt)


# ------------------------------------------------------------ settings of threads
def cfg_shape(e, name='cfg'):
    return e.shape('Clingcon::Config', name)


def eff(cfg, t, f):
    """the setting thread t runs with"""
    v, d = cfg.f['solver_configs'], cfg.f['default_solver_config']
    return z3.If(z3.And(0 <= t, t < v.n), sel(v.el.f[f], t), d.f[f])


def conv(f, v):
    return v if f in ('heuristic', 'sign_value') else v != 0


def len_ok(cfg):
    return z3.And(cfg.f['solver_configs'].n >= 0, cfg.f['solver_configs'].n < 2**32 - 1)


def same_rest(a, b, but=()):
    """all other settings are kept"""
    return z3.And([z3.BoolVal(True)] + [a.f[k] == b.f[k] for k in a.f if k not in ('solver_configs', 'default_solver_config') and k not in but])


def sc_inv(L):
    t, t0 = L.get(L.this), L.old(L.this)
    v, v0, d = t.f['solver_configs'], t0.f['solver_configs'], t0.f['default_solver_config']
    k = L.only(type(L.p0(0)), lambda x: z3.is_expr(x) and x.sort() == INT and not x.eq(L.p0(0)))
    it = L.all(lambda x: isinstance(x, It))[0]
    out = [('position', z3.And(it.i == k - 1, 0 <= k, k <= L.p0(0) + 1)), ('long enough', z3.And(v.n >= v0.n, v.n == z3.If(k > v0.n, k, v0.n)))]
    for f in FIELDS:
        out.append(('entries: ' + f, z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < v.n), sel(v.el.f[f], i_) == z3.If(i_ < v0.n, sel(v0.el.f[f], i_), d.f[f])), patterns=[sel(v.el.f[f], i_)])))
    return out


class CfgExec(OptExec):
    def shape(self, t, name, depth=0):
        r = self.resolve(t)
        if r == 'double':
            return fresh(name, REAL)
        if r.split('<')[0].endswith('forward_list'):
            el = self.shape('Clingcon::SolverConfig', name + '[]')
            from engine import map_leaves
            return Vec(fresh(name + '.n'), map_leaves(el, lambda x: fresh(name, z3.ArraySort(INT, x.sort()))))
        if r.rstrip('* ').endswith('char') and r.rstrip().endswith('*'):
            return cstr(fresh(name), fresh(name + '.off'))
        return Exec.shape(self, t, name, depth)

    def m_Vec_before_begin(self, l, v, args, n, st, fr):
        return [(st, It(l, I(-1)))]

    def m_Vec_emplace_after(self, l, v, args, n, st, fr):
        outs = []
        for s, (p, x) in self.evlist(args, st, fr):
            w = self.load(s, l)
            if isinstance(x, Ref):
                x = self.load(s, x.lv)
            self.obl(s, p.i == w.n - 1, 'appended-at-the-end', n, 'bounds')
            s = s.copy()
            s = self.save(s, l, self.push(s, w, x))
            outs.append((s, It(l, w.n)))
        return outs


def sconf_ens(c):
    a, b = c.old, c.this
    t = c.o(0)
    lv = c.res_.lv
    out = [('entry of the thread', z3.And(b.f['solver_configs'].n > t, lv.path[-1][1] == t)), ('other settings', same_rest(a, b)), ('default', z3.And(*[a.f['default_solver_config'].f[f] == b.f['default_solver_config'].f[f] for f in FIELDS])),
           ('length', b.f['solver_configs'].n == z3.If(t + 1 > a.f['solver_configs'].n, t + 1, a.f['solver_configs'].n))]
    for f in FIELDS:
        out.append(('settings of threads: ' + f, z3.ForAll([t_], eff(a, t_, f) == eff(b, t_, f), patterns=[sel(b.f['solver_configs'].el.f[f], t_)])))
    return out


SCONF = Contract(requires=lambda c: [('few threads', z3.And(len_ok(c.old), c.o(0) < 2**32 - 1))], ensures=sconf_ens, modifies=[('this', 'solver_configs')])
UNITS.append(Unit('C17', API, 'Config::solver_config', SCONF, contracts={}, ovf={32}, eng=CfgExec, name='C17/Config::solver_config', loops={('solver_config', 0): LoopSpec(sc_inv)}, opts={'thisval': lambda e, st: cfg_shape(e)}))
SCONF_C = Contract(requires=SCONF.requires, modifies=SCONF.modifies, res=lambda c, s: Ref(c.thislv.sub(('f', 'solver_configs'), ('i', c.o(0)))), ensures=sconf_ens)


def sv1_ens(c):
    a, b, t, v = c.o(1), c.a(1), c.o(0), c.o(2)
    return [(f, b.f[f] == z3.If(t == TARGET[f], conv(f, v), a.f[f])) for f in FIELDS]


SV1 = Contract(requires=lambda c: [('a target', z3.And(c.o(0) >= 0, c.o(0) <= 5))], ensures=sv1_ens, modifies=[(1,)])
UNITS.append(Unit('C17', API, 'set_value', SV1, contracts={}, ovf={32}, eng=CfgExec, sig='SolverConfig &', name='C17/set_value(SolverConfig)'))


def set_spec(a, b, tgt, v, has, t):
    """b is a after setting target tgt to v, for thread t if has"""
    out = [('other settings', same_rest(a, b)), ('number of threads', b.f['solver_configs'].n == z3.If(z3.And(has, t + 1 > a.f['solver_configs'].n), t + 1, a.f['solver_configs'].n))]
    for f in FIELDS:
        x = conv(f, v)
        out.append(('default: ' + f, b.f['default_solver_config'].f[f] == z3.If(z3.And(tgt == TARGET[f], z3.Not(has)), x, a.f['default_solver_config'].f[f])))
        out.append(('threads: ' + f, z3.ForAll([t_], z3.Implies(t_ >= 0, eff(b, t_, f) == z3.If(z3.And(tgt == TARGET[f], z3.Or(z3.Not(has), t_ == t)), x, eff(a, t_, f))), patterns=[sel(b.f['solver_configs'].el.f[f], t_)])))
    return out


def sv2_ens(c):
    p = c.o(2)
    return set_spec(c.o(1), c.a(1), c.o(0), p.f['first'], p.f['second'].f['has'], p.f['second'].f['val'])


def sv2_inv(L):
    tgt, p = L.p0(0), L.p0(2)
    a, b = L.old(L._lv(L.fr.func.params[1]['name'])), L.p(1)
    v, w = a.f['solver_configs'], b.f['solver_configs']
    out = [('same length', z3.And(v.n == w.n, 0 <= L.k, L.k <= v.n))]
    for f in FIELDS:
        x = sel(w.el.f[f], i_)
        out.append(('set so far: ' + f, z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < v.n), x == z3.If(z3.And(i_ < L.k, tgt == TARGET[f]), conv(f, p.f['first']), sel(v.el.f[f], i_))), patterns=[x])))
    return out


SV2_REQ = lambda c: [('a target', z3.And(c.o(0) >= 0, c.o(0) <= 5)), ('few threads', z3.And(len_ok(c.o(1)), z3.Implies(c.o(2).f['second'].f['has'], z3.And(c.o(2).f['second'].f['val'] >= 0, c.o(2).f['second'].f['val'] < 2**31))))]
SV2 = Contract(requires=SV2_REQ, ensures=sv2_ens, modifies=[(1,)])
UNITS.append(Unit('C17', API, 'set_value', SV2, contracts={'set_value': SV1, 'Clingcon::Config::solver_config': SCONF_C}, ovf={32}, eng=CfgExec, sig=r', Config &', name='C17/set_value(Config)', loops={('set_value', 0): LoopSpec(sv2_inv)}))


# ------------------------------------------------------------ configuration by key
TH, VAL, OPT = ('glob', 'theory'), ('glob', 'value'), ('glob', 'options')
MIN_VAL, MAX_VAL = -(2**30 - 1), 2**30 - 1


def dkey(tgt, has, t):
    return z3.If(has, 6 * (t + 1) + tgt, tgt)


class TheoryExec(CfgExec):
    curry = None

    def ex_CXXTryStmt(self, n, st, fr):
        cs = inner(n)
        nth = len(self.throws)
        outs = list(self.ex(cs[0], st, fr))
        thrown = self.throws[nth:]
        del self.throws[nth:]
        if len(cs) != 2 or len([x for x in inner(cs[1]) if x.get('kind')]) != 1:
            raise Unsupported('catch of a particular type', n)
        body = [x for x in inner(cs[1]) if x.get('kind')][0]
        for s, _, _ in thrown:
            outs += self.ex(body, s, fr)
        return outs

    def f_handle_cxx_error(self, args, n, st, fr, d0):
        return [(st, NONE)]

    def construct(self, t, b, ta, cs, n, st, fr):
        if b == 'function' and len(cs) >= 1:
            return self.ev(cs[0], st, fr)
        if b == 'pair' and len(cs) == 2:
            outs = []
            for s, vs in self.evlist(cs, st, fr):
                vs = [self.load(s, v.lv) if isinstance(v, Ref) else v for v in vs]
                outs.append((s, Rec('pair', {'first': vs[0], 'second': vs[1]})))
            return outs
        if b == 'ClingoOptions':
            return [(st, Rec('ClingoOptions', {'x': I(0)}))]
        return CfgExec.construct(self, t, b, ta, cs, n, st, fr)

    def ev_LambdaExpr(self, n, st, fr):
        # captured by value: what the variables hold now (they are not changed afterwards)
        return CfgExec.ev_LambdaExpr(self, n, st, fr)

    def ex_ReturnStmt(self, n, st, fr):
        outs = CfgExec.ex_ReturnStmt(self, n, st, fr)
        if VAL not in st.store or type(fr.this) is LV or self.depth > 0:
            return outs
        res = []
        for o in outs:
            if type(o.val).__name__ != 'Lam':
                res.append(o)
                continue
            rec = next(c for c in inner(o.val.node) if c['kind'] == 'CXXRecordDecl')
            ops = [f for f in self.tu.funcs if f.name == 'operator()' and any(x.get('id') == f.id for x in rec.get('inner', []) if isinstance(x, dict))]
            if len(ops) != 1:
                raise Unsupported('parser closure', n)
            for s, v in self.run(ops[0], None, [o.st.store[VAL]], n, o.st, parent=o.val.fr):
                res.append(Out('return', s, v))
        return res

    # pending settings: a map from a target and an optional thread to a value
    def m_MapV_emplace(self, l, v, args, n, st, fr):
        if isinstance(v.aux, Opq) and v.aux.name == 'tgt':
            outs = []
            for s, (k, x) in self.evlist(args, st, fr):
                k = self.load(s, k.lv) if isinstance(k, Ref) else k
                x = self.load(s, x.lv) if isinstance(x, Ref) else x
                m = self.load(s, l)
                o = k.f['second']
                q = dkey(k.f['first'], o.f['has'], o.f['val'])
                had = sel(m.dom, q)
                nm = MapV(z3.Store(m.dom, q, z3.BoolVal(True)), z3.If(had, m.val, z3.Store(m.val, q, x)), m.aux)
                s = self.save(s, l, nm)
                outs.append((s, Rec('pair', {'first': Opq('pos'), 'second': z3.Not(had)})))
            return outs
        return CfgExec.m_MapV_emplace(self, l, v, args, n, st, fr)

    def deref_item(self, s, v, n):
        from execu import MIt
        if isinstance(v, MIt):
            m = self.load(s, v.c)
            if isinstance(m.aux, Opq) and m.aux.name == 'tgt':
                self.obl(s, z3.Not(v.end), 'iterator-dereferenceable', n, 'bounds')
                root = ('mit', next(_cnt_))
                k = Rec('pair', {'first': v.k % 6, 'second': Rec('optional', {'has': v.k >= 6, 'val': v.k / 6 - 1})})
                s.store[root] = Rec('pair', {'first': k, 'second': Ref(v.c.sub(('m', v.k)))})
                return LV(root)
        return CfgExec.deref_item(self, s, v, n)


def theory(e, st, fd=None):
    d = MapV(fresh('def.d', BA), fresh('def.v', IA), Opq('tgt'))
    st.store[TH] = Rec('clingcon_theory', {'propagator': Rec('Clingcon::Propagator', {'config_': cfg_shape(e)}), 'parsers': Opq('parsers'), 'deferred': d, 'shift_constraints': fresh('shift', BOOL)})
    st.add(len_ok(st.store[TH].f['propagator'].f['config_']))
    k = z3.Int('k!def')
    st.add(z3.ForAll([k], z3.Implies(sel(d.dom, k), z3.And(k >= 0, k < 6 * (MAXT + 1), sel(d.val, k) >= -2**31, sel(d.val, k) < 2**31)), patterns=[sel(d.dom, k)]))


def cur(c):
    return c.glob(TH).f['propagator'].f['config_'], c.glob(TH)


def ini(c):
    return c.oglob(TH).f['propagator'].f['config_'], c.oglob(TH)


def same_all(a, b):
    out = [('other settings', same_rest(a, b)), ('number of threads', a.f['solver_configs'].n == b.f['solver_configs'].n)]
    for f in FIELDS:
        out.append(('default: ' + f, a.f['default_solver_config'].f[f] == b.f['default_solver_config'].f[f]))
        out.append(('threads: ' + f, z3.ForAll([t_], z3.Implies(t_ >= 0, eff(b, t_, f) == eff(a, t_, f)), patterns=[sel(b.f['solver_configs'].el.f[f], t_)])))
    return out


BOOLS = {'sort-constraints': 'sort_constraints', 'literals-only': 'literals_only', 'add-order-clauses': 'add_order_clauses', 'check-solution': 'check_solution', 'check-state': 'check_state'}
NUMS = {'translate-pb': ('double', 'weight_constraint_ratio', None), 'translate-distinct': ('unsigned int', 'distinct_limit', None), 'translate-opt': ('unsigned int', 'translate_minimize', None),
        'min-int': ('int', 'min_int', (MIN_VAL, MAX_VAL)), 'max-int': ('int', 'max_int', (MIN_VAL, MAX_VAL))}
PERTHREAD = {'order-heuristic': ('heuristic', d_heu), 'sign-value': ('sign_value', d_sign), 'refine-reasons': ('refine_reasons', d_bool), 'refine-introduce': ('refine_introduce', d_bool),
             'propagate-chain': ('propagate_chain', d_bool), 'split-all': ('split_all', d_bool)}
KEYS = ['shift-constraints', 'translate-clauses'] + list(BOOLS) + list(NUMS) + list(PERTHREAD)


def iskey(c, s):
    p = c.o(1)
    k = strid(StrV(s))
    return z3.And(LEN(p.f['id']) - p.f['off'] == len(s), EQN(p.f['id'], p.f['off'], k, I(len(s))))


def lohi(T, r):
    return (I(r[0]), I(r[1])) if r else full(T)


def accept(key, p):
    """is the value accepted for the key?"""
    if key in BOOLS or key == 'shift-constraints':
        return boolean(text(p))[0]
    if key == 'translate-clauses':
        return z3.And(d_clause(p)[0], d_total(p)[0])
    if key in NUMS:
        T, _, r = NUMS[key]
        return rng(T, text(p), *lohi(T, r))[0]
    return z3.And(PERTHREAD[key][1](p)[0], thread(p)[0])


def conf_case(key):
    def ens(c):
        p = c.o(2)
        (a, x), (b, y) = ini(c), cur(c)
        ok = accept(key, p)
        out = [('succeeds iff the value is well formed', c.res == ok), ('nothing is pending', z3.And(x.f['deferred'].dom == y.f['deferred'].dom, x.f['deferred'].val == y.f['deferred'].val))]
        shift = boolean(text(p))[1] if key == 'shift-constraints' else x.f['shift_constraints']
        out.append(('shift', y.f['shift_constraints'] == z3.If(ok, shift, x.f['shift_constraints'])))
        if key in PERTHREAD:
            f, dv = PERTHREAD[key]
            _, has, t = thread(p)
            out += [(n, z3.Implies(ok, g)) for n, g in set_spec(a, b, I(TARGET[f]), dv(p)[1], has, t)]
            out += [('rejected: ' + n, z3.Implies(z3.Not(ok), g)) for n, g in same_all(a, b)]
            return out
        new = {}
        if key in BOOLS:
            new[BOOLS[key]] = boolean(text(p))[1]
        elif key == 'translate-clauses':
            new['clause_limit'] = d_clause(p)[1]
            new['clause_limit_total'] = z3.If(d_total(p)[1], d_total(p)[2], a.f['clause_limit_total'])
        elif key in NUMS:
            T, f, r = NUMS[key]
            new[f] = rng(T, text(p), *lohi(T, r))[1]
        out.append(('other settings are kept', same_rest(a, b, but=tuple(new))))
        for f, v in new.items():
            out.append(('the value written: ' + f, b.f[f] == z3.If(ok, v, a.f[f])))
        return out + [x for x in same_all(a, b) if x[0] != 'other settings']
    return ens


def conf_ens(c):
    out = []
    for key in KEYS:
        out += [('%s: %s' % (key, n), z3.Implies(iskey(c, key), f)) for n, f in conf_case(key)(c)]
    return out


def conf_facts(st, p):
    # the strings compared with are different
    for k in KEYS:
        for q in KEYS:
            if k < q and len(k) == len(q):
                st.add(z3.Not(z3.And(EQN(p.f['id'], p.f['off'], strid(StrV(k)), I(len(k))), EQN(p.f['id'], p.f['off'], strid(StrV(q)), I(len(q))))))


def conf_setup(e, st, fd):
    theory(e, st)


def key_arg(e, st):
    p = fresh_cstr(st, 'key')
    conf_facts(st, p)
    return p


C4 = dict(C3)
C4['set_value'] = SV2
TARG = lambda e, st: Ref(LV(TH))
MODCFG = [('glob', TH)]


def dbl(e, st, fd):
    theory(e, st)
    st.add(RMIN <= RMAX)


for key in KEYS:
    def kreq(c, key=key):
        return [('key', iskey(c, key))]
    UNITS.append(Unit('C17', API, 'clingcon_configure', Contract(requires=kreq, ensures=conf_case(key), modifies=MODCFG), contracts=C4, ovf={32}, eng=TheoryExec, setup=dbl, name='C17/clingcon_configure(%s)' % key, opts={'args': {0: TARG, 1: key_arg, 2: STR}}))


# ------------------------------------------------------------ pending settings
def fld_of(tgt):
    return FIELDS[tgt]


def pending(m, tgt, has, t):
    q = dkey(I(tgt), has, t)
    return sel(m.dom, q), sel(m.val, q)


def apply_deferred(a, m, b):
    """b is a with the pending settings m applied: those for a thread take precedence"""
    out = [('other settings', same_rest(a, b))]
    no, yes = z3.BoolVal(False), z3.BoolVal(True)
    for f in FIELDS:
        g = TARGET[f]
        d, v = pending(m, g, no, I(0))
        dt, vt = pending(m, g, yes, t_)
        out.append(('default: ' + f, b.f['default_solver_config'].f[f] == z3.If(d, conv(f, v), a.f['default_solver_config'].f[f])))
        out.append(('threads: ' + f, z3.ForAll([t_], z3.Implies(z3.And(0 <= t_, t_ < MAXT), eff(b, t_, f) == z3.If(dt, conv(f, vt), z3.If(d, conv(f, v), eff(a, t_, f)))), patterns=[sel(b.f['solver_configs'].el.f[f], t_)])))
    return out


def val_ens(c):
    (a, x), (b, y) = ini(c), cur(c)
    return [(n, z3.Implies(c.res, f)) for n, f in apply_deferred(a, x.f['deferred'], b)] + [('nothing is pending', z3.ForAll([i_], z3.Not(sel(y.f['deferred'].dom, i_)), patterns=[sel(y.f['deferred'].dom, i_)])),
            ('an empty range is rejected', c.res == (a.f['min_int'] <= a.f['max_int'])), ('shift', x.f['shift_constraints'] == y.f['shift_constraints'])]


def val_inv(L):
    """settings before the iterator are applied if they are in turn"""
    th0, th = L.old(LV(TH)), L.get(LV(TH))
    m = th.f['deferred']
    a, b = th0.f['propagator'].f['config_'], th.f['propagator'].f['config_']
    it = L.mit()
    hv = L['has_value']
    done = lambda q: z3.And(sel(m.dom, q), z3.Or(it.end, q < it.k))
    out = [('pending', z3.And(m.dom == th0.f['deferred'].dom, m.val == th0.f['deferred'].val)), ('iterator', z3.Or(it.end, sel(m.dom, it.k))), ('other settings', same_rest(a, b)), ('shift', th.f['shift_constraints'] == th0.f['shift_constraints']),
           ('few threads', len_ok(b))]
    for f in FIELDS:
        g = I(TARGET[f])
        q, qt = dkey(g, z3.BoolVal(False), I(0)), dkey(g, z3.BoolVal(True), t_)
        out.append(('default: ' + f, b.f['default_solver_config'].f[f] == z3.If(z3.And(z3.Not(hv), done(q)), conv(f, sel(m.val, q)), a.f['default_solver_config'].f[f])))
        out.append(('threads: ' + f, z3.ForAll([t_], z3.Implies(z3.And(0 <= t_, t_ < MAXT), eff(b, t_, f) == z3.If(z3.If(hv, done(qt), done(q)), conv(f, sel(m.val, z3.If(hv, qt, q))), eff(a, t_, f))), patterns=[sel(b.f['solver_configs'].el.f[f], t_)])))
    return out


UNITS.append(Unit('C17', API, 'clingcon_validate_options', Contract(ensures=val_ens, modifies=MODCFG), contracts=C4, ovf={32}, eng=TheoryExec, setup=dbl, name='C17/clingcon_validate_options', loops={('clingcon_validate_options', 1): LoopSpec(val_inv)}, opts={'args': {0: TARG}}))


# ------------------------------------------------------------ options of the command line
def value_setup(e, st, fd):
    dbl(e, st, fd)
    st.store[VAL] = fresh_cstr(st, 'value')


def defer_con(dv, tgt=None):
    """the setting is pending afterwards; the first one for a target and thread counts"""
    def ens(c):
        p = c.oglob(VAL)
        (a, x), (b, y) = ini(c), cur(c)
        (ok, v), (tok, has, t) = dv(p), thread(p)
        q = dkey(I(tgt) if tgt is not None else c.o(1), has, t)
        m, w = x.f['deferred'], y.f['deferred']
        return [('accepted', z3.And(ok, tok)), ('fails iff set before', c.res == z3.Not(sel(m.dom, q))), ('pending afterwards', w.dom == z3.Store(m.dom, q, z3.BoolVal(True))),
                ('to the value written', w.val == z3.If(sel(m.dom, q), m.val, z3.Store(m.val, q, v))), ('shift', x.f['shift_constraints'] == y.f['shift_constraints'])] + same_all(a, b)
    return Contract(requires=lambda c: [('a target', z3.And(c.o(1) >= 0, c.o(1) <= 5))] if tgt is None else [], ensures=ens, modifies=MODCFG, ret='bool', throws=lambda c: z3.Not(z3.And(dv(c.oglob(VAL))[0], thread(c.oglob(VAL))[0])))


for fn, dv, tgt in (('parser_bool_thread', d_bool, None), ('parser_sign_value', d_sign, None), ('parser_heuristic', d_heu, 0)):
    UNITS.append(Unit('C17', API, fn, defer_con(dv, tgt), contracts=C4, ovf={32}, eng=TheoryExec, setup=value_setup, name='C17/' + fn, opts={'args': {0: lambda e, st: LV(TH)}}))
DST, DST2 = ('glob', 'dest'), ('glob', 'dest2')


def dest_setup(T):
    def f(e, st, fd):
        st.store[VAL] = fresh_cstr(st, 'value')
        st.store[DST] = fresh('dest', REAL if T == 'double' else INT)
        st.store[DST2] = fresh('dest2')
        st.add(RMIN <= RMAX)
    return f


def num_con(T):
    r = lambda c: rng(T, text(c.oglob(VAL)), c.o(1), c.o(2))
    return Contract(requires=lambda c: [('a range of values', c.o(1) <= c.o(2))], ensures=lambda c: [('accepted', z3.And(c.res, r(c)[0])), ('the value written', c.glob(DST) == r(c)[1])], modifies=[('glob', DST)], throws=lambda c: z3.Not(r(c)[0]), on_throw=lambda c: [('unchanged', c.glob(DST) == c.oglob(DST))])


for T in ('int', 'unsigned int', 'double'):
    UNITS.append(Unit('C17', API, 'parser_num', num_con(T), contracts=C4, ovf={32}, eng=TheoryExec, targs=[T], setup=dest_setup(T), name='C17/parser_num<%s>' % T, opts={'args': {0: lambda e, st: LV(DST), **num_args(T, 1)}}))
CL = lambda c: (d_clause(c.oglob(VAL)), d_total(c.oglob(VAL)))
UNITS.append(Unit('C17', API, 'parser_translate_clause', Contract(ensures=lambda c: [('accepted', z3.And(c.res, CL(c)[0][0], CL(c)[1][0])), ('limit', c.glob(DST) == CL(c)[0][1]), ('total', c.glob(DST2) == z3.If(CL(c)[1][1], CL(c)[1][2], c.oglob(DST2)))],
    modifies=[('glob', DST), ('glob', DST2)], throws=lambda c: z3.Not(z3.And(CL(c)[0][0], CL(c)[1][0])), on_throw=lambda c: [('unchanged', z3.And(c.glob(DST) == c.oglob(DST), c.glob(DST2) == c.oglob(DST2)))]), contracts=C4, ovf={32}, eng=TheoryExec, targs=['unsigned int', 'unsigned long'], setup=dest_setup('int'),
    name='C17/parser_translate_clause', opts={'args': {0: lambda e, st: LV(DST), 1: lambda e, st: LV(DST2)}}))


# which option is bound to which parser and setting
class RegExec(TheoryExec):
    def record(self, s, name, what):
        s = s.copy()
        d = dict(s.store[OPT].d)
        if name in d:
            raise Unsupported('option %s twice' % name)
        d[name] = what
        s.store[OPT] = Opq('table', d)
        return s

    def optname(self, v, n):
        if isinstance(v, StrV):
            return v.s.split(',')[0]
        raise Unsupported('option name', n)

    def m_ClingoOptions_add_flag(self, l, v, args, n, st, fr):
        outs = []
        for s, nm in self.ev(args[1], st, fr):
            for s2, d in self.lv(args[3], s, fr):
                outs.append((self.record(s2, self.optname(nm, n), ('flag', d.root, d.path)), NONE))
        return outs

    def m_ClingoOptions_add(self, l, v, args, n, st, fr):
        outs = []
        for s, nm in self.ev(args[1], st, fr):
            for s2, p in self.ev(args[3], s, fr):
                if not (isinstance(p, Opq) and p.name == 'parser'):
                    raise Unsupported('parser of an option', n)
                outs.append((self.record(s2, self.optname(nm, n), p.d), NONE))
        return outs

    def m_text_c_str(self, l, v, args, n, st, fr):
        return [(st, Opq('description'))]


def dest(c, i):
    a = c.args[i]
    a = a.lv if isinstance(a, Ref) else a
    return a.root, a.path


def asint(x):
    return z3.simplify(x).as_long()


def par(kind):
    if kind[0] == 'num':
        def res(c, s):
            lo, hi = c.o(1), c.o(2)
            return Opq('parser', ('num', kind[1]) + dest(c, 0) + ((str(lo), str(hi)) if kind[1] == 'double' else (asint(lo), asint(hi))))
        return Contract(res=res)
    if kind[0] == 'clause':
        return Contract(res=lambda c, s: Opq('parser', ('clause',) + dest(c, 0) + dest(c, 1)))
    if kind[0] == 'heu':
        return Contract(res=lambda c, s: Opq('parser', ('heu',) + dest(c, 0)))
    return Contract(res=lambda c, s: Opq('parser', (kind[0],) + dest(c, 0) + (asint(c.o(1)),)))


C5 = {'format': Contract(res=lambda c, s: Rec('text', {'x': I(0)})), 'flag_str': Contract(res=lambda c, s: StrV('?')), 'heuristic_str': Contract(res=lambda c, s: StrV('?')),
      'parser_bool_thread': par(('bool',)), 'parser_sign_value': par(('sign',)), 'parser_heuristic': par(('heu',)), 'parser_translate_clause': par(('clause',))}
for T in ('int', 'unsigned int', 'double'):
    C5['parser_num<%s>' % T] = par(('num', T))
CP = lambda f: (('f', 'propagator'), ('f', 'config_'), ('f', f))
TP = (TH, ())


def expected():
    x = {'shift-constraints': ('flag', TH, (('f', 'shift_constraints'),)), 'translate-clauses': ('clause', TH, CP('clause_limit'), TH, CP('clause_limit_total'))}
    for k, f in BOOLS.items():
        x[k] = ('flag', TH, CP(f))
    for k, (T, f, r) in NUMS.items():
        x[k] = ('num', T, TH, CP(f)) + ((str(RMIN), str(RMAX)) if T == 'double' else r or RANGE[T])
    for k, (f, dv) in PERTHREAD.items():
        x[k] = ('heu',) + TP if f == 'heuristic' else ('sign' if f == 'sign_value' else 'bool',) + TP + (TARGET[f],)
    return x


def reg_setup(e, st, fd):
    dbl(e, st, fd)
    st.store[OPT] = Opq('table', {})


def reg_ens(c):
    d, x = c.glob(OPT).d, expected()
    return [('option ' + k, z3.BoolVal(k in d and d[k] == x[k])) for k in x] + [('no other options', z3.BoolVal(set(d) <= set(x))), ('succeeds', c.res)]


UNITS.append(Unit('C17', API, 'clingcon_register_options', Contract(ensures=reg_ens, modifies=[('glob', OPT)]), contracts=C5, ovf={32}, eng=RegExec, setup=reg_setup, name='C17/clingcon_register_options', opts={'args': {0: TARG}}))
