"""Evaluates the Maple-style expressions LattE writes (+ - * / ^, parentheses, x[i], names,
NAME(a,b) calls) in any commutative ring given by a handler -- independent of LattE's own code."""
import re

TOK = re.compile(r"\s*(?:(\d+)|([A-Za-z_]\w*)|(\*\*|[-+*/^()\[\],]))")


class ParseError(Exception):
    pass


def tokenize(s):
    pos, out = 0, []
    s = s.strip()
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m or m.end() == pos:
            raise ParseError("bad token at %r" % s[pos:pos + 20])
        out.append((0, int(m[1])) if m[1] else (1, m[2]) if m[2] else (2, m[3]))
        pos = m.end()
        while pos < len(s) and s[pos].isspace():
            pos += 1
    return out


def evaluate(s, num, var, call=None, power=None):
    """num(int)->value, var(name, index|None)->value, call(name, args)->value.
    Exponents are literal integers (possibly parenthesised / signed)."""
    T = tokenize(s)
    n = len(T)
    vals, ops = [], []      # ops: (kind, ...) ; unary minus is 'u'
    PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "u": 3}
    i = 0
    expect = True

    def reduce_one():
        op = ops.pop()
        if op == "u":
            vals.append(-vals.pop())
            return
        b = vals.pop()
        a = vals.pop()
        if op == "+":
            vals.append(a + b)
        elif op == "-":
            vals.append(a - b)
        elif op == "*":
            vals.append(a * b)
        elif op == "/":
            vals.append(a / b)
        else:
            raise ParseError("op " + str(op))

    def int_exp(i):
        """parse an exponent starting at token i -> (value, next)"""
        if T[i] == (2, "("):
            v, j = int_exp(i + 1)
            if T[j] != (2, ")"):
                raise ParseError("exponent")
            return v, j + 1
        if T[i] == (2, "-"):
            v, j = int_exp(i + 1)
            return -v, j
        if T[i][0] == 0:
            return T[i][1], i + 1
        raise ParseError("exponent")
    while i < n:
        k, v = T[i]
        if expect:
            if k == 0:
                vals.append(num(v))
                i += 1
                expect = False
            elif k == 1:
                if i + 1 < n and T[i + 1] == (2, "["):
                    vals.append(var(v, T[i + 2][1]))
                    if T[i + 3] != (2, "]"):
                        raise ParseError("index")
                    i += 4
                    expect = False
                elif i + 1 < n and T[i + 1] == (2, "("):
                    ops.append(("call", v, len(vals)))
                    i += 2
                else:
                    vals.append(var(v, None))
                    i += 1
                    expect = False
            elif v == "(":
                ops.append("(")
                i += 1
            elif v == "-":
                ops.append("u")
                i += 1
            elif v == "+":
                i += 1
            else:
                raise ParseError("unexpected %r" % (v,))
        else:
            if k != 2:
                raise ParseError("unexpected operand %r" % (v,))
            if v in ("^", "**"):
                e, i = int_exp(i + 1)
                vals.append(power(vals.pop(), e) if power else vals.pop() ** e)
            elif v == ")" or v == ",":
                while ops and ops[-1] != "(" and not isinstance(ops[-1], tuple):
                    reduce_one()
                if not ops:
                    raise ParseError("unbalanced")
                if v == ",":
                    if ops[-1] == "(":
                        raise ParseError("comma")
                    i += 1
                    expect = True
                else:
                    o = ops.pop()
                    if o != "(":
                        args = vals[o[2]:]
                        del vals[o[2]:]
                        vals.append(call(o[1], args))
                    i += 1
            else:
                while ops and isinstance(ops[-1], str) and ops[-1] != "(" and PREC[ops[-1]] >= PREC[v]:
                    reduce_one()
                ops.append(v)
                i += 1
                expect = True
    if expect:
        raise ParseError("truncated expression")
    while ops:
        reduce_one()
    if len(vals) != 1:
        raise ParseError("leftover")
    return vals[0]


P = (1 << 61) - 1


class Pole(Exception):
    pass


class Mod:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v % P

    def __add__(a, b):
        return Mod(a.v + b.v)

    def __sub__(a, b):
        return Mod(a.v - b.v)

    def __mul__(a, b):
        return Mod(a.v * b.v)

    def __neg__(a):
        return Mod(-a.v)

    def __truediv__(a, b):
        if b.v == 0:
            raise Pole()
        return Mod(a.v * pow(b.v, P - 2, P))

    def __pow__(a, e):
        if e < 0 and a.v == 0:
            raise Pole()
        return Mod(pow(a.v, e % (P - 1), P) if a.v else (1 if e == 0 else 0))


class Laurent:
    """Laurent series in t over F_P: t^val * sum c[i] t^i, known to len(c) terms (relative precision)."""
    N = 14
    __slots__ = ("val", "c")

    def __init__(self, val, c):
        # normalise: strip leading zeros (exact zero = empty list, infinite precision)
        k = 0
        while k < len(c) and c[k] == 0:
            k += 1
        if k == len(c):
            self.val, self.c = 0, []
        else:
            self.val, self.c = val + k, c[k:]

    @staticmethod
    def const(v):
        return Laurent(0, [v % P] + [0] * (3 * Laurent.N - 1)) if v % P else Laurent(0, [])

    @staticmethod
    def t():
        return Laurent(1, [1] + [0] * (3 * Laurent.N - 1))

    def __add__(a, b):
        if not a.c:
            return b
        if not b.c:
            return a
        lo = min(a.val, b.val)
        hi = min(a.val + len(a.c), b.val + len(b.c))
        out = [0] * max(0, hi - lo)
        for s in (a, b):
            for i, x in enumerate(s.c):
                j = s.val + i - lo
                if j < len(out):
                    out[j] = (out[j] + x) % P
        return Laurent(lo, out)

    def __neg__(a):
        return Laurent(a.val, [(-x) % P for x in a.c])

    def __sub__(a, b):
        return a + (-b)

    def __mul__(a, b):
        if not a.c or not b.c:
            return Laurent(0, [])
        n = min(len(a.c), len(b.c))
        out = [0] * n
        for i in range(n):
            x = a.c[i]
            if x:
                for j in range(n - i):
                    y = b.c[j]
                    if y:
                        out[i + j] += x * y
        return Laurent(a.val + b.val, [v % P for v in out])

    def __truediv__(a, b):
        if not b.c:
            raise Pole()
        if not a.c:
            return a
        n = min(len(a.c), len(b.c))
        iv = pow(b.c[0], P - 2, P)
        q = []
        for i in range(n):
            s = a.c[i]
            for j in range(1, i + 1):
                if b.c[j]:
                    s -= b.c[j] * q[i - j]
            q.append(s * iv % P)
        return Laurent(a.val - b.val, q)

    def __pow__(a, e):
        if e < 0:
            return Laurent.const(1) / (a ** (-e))
        if a.c and not any(a.c[1:]):      # monomial
            return Laurent(a.val * e, [pow(a.c[0], e, P)] + a.c[1:])
        r = Laurent.const(1)
        for _ in range(e):
            r = r * a
        return r
