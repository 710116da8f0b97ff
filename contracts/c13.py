"""C13: integer arithmetic is exact or raises."""
import z3
from spec import Contract, Unit
from engine import int_range
from execu import Exec



class LimExec(Exec):
    """numeric_limits<T>::is_signed and then numeric_limits<S>::is_signed"""
    def global_consts(self, d, n):
        if d.get('name') == 'is_signed':
            self.nsig = getattr(self, 'nsig', 0) + 1
            return z3.BoolVal(self.intty(self.castt[self.nsig - 1])[1])
        if d.get('name') == 'value':
            return z3.BoolVal(self.castt[0] == self.castt[1])
        return None


T = '@vc/inst.cc'
W = {'int': 32, 'long': 64}


def exact(f, w, pre=None):
    """result is f(args); raises exactly if f(args) is not representable"""
    lo, hi = int_range(w, True)
    rng = lambda x: z3.And(x >= lo, x <= hi)
    return Contract(requires=pre, ensures=lambda c: [('exact', c.res == f(c)), ('representable', rng(f(c)))],
                    throws=lambda c: z3.Not(rng(f(c))))


def tdiv(a, b, q):
    r = a - q * b
    return z3.And(z3.If(b > 0, z3.And(r < b, r > -b), z3.And(r < -b, r > b)), z3.Or(z3.And(a >= 0, r >= 0), z3.And(a <= 0, r <= 0)))


def tmod(a, b, r):
    m = z3.Int('m!tm')
    return z3.And(z3.If(b > 0, z3.And(r < b, r > -b), z3.And(r < -b, r > b)), z3.Or(z3.And(a >= 0, r >= 0), z3.And(a <= 0, r <= 0)),
                  z3.Exists([m], a == m * b + r))


def floorspec(n, m, q):
    return z3.If(m > 0, z3.And(q * m <= n, n < q * m + m), z3.And(q * m >= n, n > q * m + m))


def ceilspec(n, m, q):
    return z3.If(m > 0, z3.And(q * m >= n, n > q * m - m), z3.And(q * m <= n, n < q * m - m))


def divpre(w):
    lo, _ = int_range(w, True)
    return lambda c: [('divisor nonzero', c.o(1) != 0), ('quotient representable', z3.Not(z3.And(c.o(0) == lo, c.o(1) == -1)))]


def floorc(w):
    return Contract(requires=divpre(w), ensures=lambda c: [('floor', floorspec(c.o(0), c.o(1), c.res))])


def ceilc(w):
    return Contract(requires=divpre(w), ensures=lambda c: [('ceil', ceilspec(c.o(0), c.o(1), c.res))])


def castc(lo, hi):
    return Contract(ensures=lambda c: [('same value', c.res == c.o(0)), ('in range', z3.And(c.res >= lo, c.res <= hi))],
                    throws=lambda c: z3.Or(c.o(0) < lo, c.o(0) > hi))


MAXV = (1 << 30) - 1
CONTRACTS = {}
UNITS = []


def add(fn, targs, ct, tu=T, **kw):
    key = 'Clingcon::%s%s' % (fn, '<' + ','.join(targs) + '>' if targs else '')
    CONTRACTS[key] = ct
    UNITS.append(Unit('C13', tu, fn, ct, targs=targs, name='C13/' + key.replace('Clingcon::', ''), **kw))


for t, w in W.items():
    lo, hi = int_range(w, True)
    add('safe_add', [t], exact(lambda c: c.o(0) + c.o(1), w))
    add('safe_sub', [t], exact(lambda c: c.o(0) - c.o(1), w))
    add('safe_mul', [t], exact(lambda c: c.o(0) * c.o(1), w))
    add('safe_inv', [t], exact(lambda c: -c.o(0), w))
    add('safe_div', [t], Contract(ensures=lambda c: [('truncated quotient', tdiv(c.o(0), c.o(1), c.res))],
                                  throws=lambda c, lo=lo: z3.Or(c.o(1) == 0, z3.And(c.o(0) == lo, c.o(1) == -1))))
    add('safe_mod', [t], Contract(ensures=lambda c: [('remainder', tmod(c.o(0), c.o(1), c.res))],
                                  throws=lambda c, lo=lo: z3.Or(c.o(1) == 0, z3.And(c.o(0) == lo, c.o(1) == -1))))
    add('floordiv', [t], floorc(w))
    add('ceildiv', [t], ceilc(w))
    add('check_valid_value', [t], castc(-MAXV, MAXV))
add('midpoint', ['int'], Contract(ensures=lambda c: [
    ('between', z3.If(c.o(0) <= c.o(1), z3.And(c.res >= c.o(0), c.res <= c.o(1)), z3.And(c.res <= c.o(0), c.res >= c.o(1)))),
    ('halves', z3.Implies(c.o(0) <= c.o(1), c.res == (c.o(0) + c.o(1) - ((c.o(1) - c.o(0)) % 2)) / 2))],
    requires=lambda c: [('ordered', c.o(0) <= c.o(1))]))
I32, U32, I64 = int_range(32, True), int_range(32, False), int_range(64, True)
for t, s in (('int', 'unsigned int'), ('unsigned int', 'int'), ('int', 'long'), ('int', 'unsigned long'), ('unsigned int', 'unsigned long'), ('unsigned int', 'long')):
    lo, hi = I32 if t == 'int' else U32
    add('safe_cast', [t, s], castc(lo, hi), eng=LimExec, opts={'castt': (t, s)})
