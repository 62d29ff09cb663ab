"""The specifications of spec.py run on concrete texts: the oracle of the bounded
differential runs. Values are plain Python data in the shape the harness prints."""
import struct
import sys
from fractions import Fraction
import spec
from spec import Some

if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)

I32 = 1 << 31


class F(tuple):
    """An f32, by its bits."""
    __slots__ = ()

    def __new__(cls, bits):
        return tuple.__new__(cls, ('f', bits))

    @property
    def bits(self):
        return self[1]


def round_f32(q, neg=False):
    """The f32 nearest to the non-negative rational q, ties to even."""
    s = 0x80000000 if neg else 0
    if q == 0:
        return F(s)
    n, d = q.numerator, q.denominator
    e = n.bit_length() - d.bit_length()
    if Fraction(n, d) < (Fraction(2) ** e):
        e -= 1
    if e > 128:
        return F(s | 0x7f800000)
    e = max(e, -126)
    m = q / (Fraction(2) ** (e - 23))
    k = m.numerator // m.denominator
    r = m - k
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and k & 1):
        k += 1
    if k >= 1 << 24:
        k >>= 1
        e += 1
    if e > 127:
        return F(s | 0x7f800000)
    if k < 1 << 23:
        return F(s | k)
    return F(s | ((e + 127) << 23) | (k - (1 << 23)))


def i2f(i):
    return round_f32(Fraction(abs(i)), i < 0)


class Agg(dict):
    pass


class Var(tuple):
    """(variant, payload...)"""


class Stop(Exception):
    pass


class ConcEnv:
    class Error(Exception):
        pass

    def __init__(self, toks=None, text=None):
        self.toks = toks
        self.t = text

    def br(self, c):
        return bool(c)

    def lt(self, a, b):
        return a < b

    # ---- tokens
    def tok(self, p, *names):
        return p < len(self.toks) and self.toks[p][0] in names

    def num(self, p):
        t = self.toks[p]
        return t[1] if t[0] == 'Float' else i2f(t[1])

    def int(self, p):
        return self.toks[p][1]

    str = int

    def onoff(self, p):
        return self.toks[p][1].encode().lower() == b'on'

    def textual(self, p):
        return str(self.toks[p][1])

    # ---- values
    def mk(self, ty, **kw):
        return Agg(kw)

    def mkv(self, ty, variant, *args):
        return Var((variant,) + args)

    def variant(self, el):
        return el[0]

    def is_v(self, el, name):
        return el[0] == name

    def pay(self, el, name):
        return el[1]

    def payload(self, el):
        return None if len(el) == 1 else el[1] if len(el) == 2 else tuple(el[1:])

    def get(self, m, f):
        return m[f]

    def setf(self, m, **kw):
        r = Agg(m)
        r.update(kw)
        return r

    def unwrap_or(self, o, d):
        return o.v if isinstance(o, Some) else d

    def items(self, *xs):
        return list(xs)

    def push(self, s, x):
        return s + [x]

    def cat(self, a, b):
        return a + b

    def is_empty(self, s):
        return not s

    def last(self, s):
        return s[-1]

    def set_last(self, s, x):
        return s[:-1] + [x]

    def s(self, lit):
        return lit

    def f32(self, x):
        return F(struct.unpack('<I', struct.pack('<f', x))[0])

    def neg(self, x):
        return F(x.bits ^ 0x80000000)

    def clamp(self, x, lo, hi):
        return min(max(x, lo), hi)

    def as_u32(self, x):
        return x & 0xffffffff

    # ---- maps
    def empty_map(self):
        return {}

    def mget(self, m, k):
        return m.get(k)

    def mput(self, m, k, v):
        r = dict(m)
        r[k] = v
        return r

    # ---- text (bytes)
    def at_end(self, p):
        return p >= len(self.t)

    def at(self, p, ch):
        return self.t[p:p + 1] == ch.encode()

    def kw_ws(self, q, w):
        t = self.t
        n = q + len(w)
        if n >= len(t) or t[q] | 0x20 != ord(w[0]) | 0x20:
            return False
        return t[q:n].lower() == w.encode() and t[n] in spec.WS[0]

    def span(self, st, p):
        t = self.t
        n = len(t)
        s, hi = st
        while p < n and (t[p] in s or (hi and t[p] >= 128)):
            p += 1
        return p

    def text(self, a, b):
        return self.t[a:b].decode()

    def dec(self, ip, fp, es, ep):
        a = self.t[ip[0]:ip[1]] if ip else b''
        b = self.t[fp[0]:fp[1]] if fp else b''
        x = es * int(self.t[ep[0]:ep[1]]) if ep else 0
        m = int(a + b)
        if m == 0:
            return F(0)
        x -= len(b)
        digits = len(str(m))
        if digits + x > 50:
            return F(0x7f800000)
        if digits + x < -60:
            return F(0)
        return round_f32(Fraction(m) * Fraction(10) ** x)

    def intval(self, a, b, neg):
        v = int(self.t[a:b])
        return -v if neg else v

    def is_i32(self, v):
        return -I32 <= v < I32

    # ---- other specifications
    def sub(self, name, p):
        return spec.PARSERS[name][0](self, p)

    def fn(self, name, arg):
        return spec.FNS[name][0](self, arg)

    # ---- folds
    def collect(self, name, p, item, ety, wrap=None, final=None):
        fin = final or (wrap[0] if wrap else (lambda s: s))
        out = []
        while True:
            r = item(self, p)
            if r is None:
                break
            p = r[0]
            out.append(r[1])
        return (p, fin(out)) if out else None

    def each(self, name, s, acc, fn):
        for x in s:
            acc = fn(acc, x)
        return acc

    def each_tag(self, name, s, acc, fn):
        for x in s:
            acc, _ = fn(acc, x)
        return acc

    def first(self, name, s, pred, val):
        for x in s:
            if pred(x):
                return Some(val(x))
        return None


def tokens(data, lex):
    e = ConcEnv(text=data)
    p, acc = 0, []
    while True:
        o = lex(e, p, acc)
        if o[0] == 'stop':
            return acc
        if o[1] <= p:
            raise ConcEnv.Error('the lexer specification makes no progress at %d' % p)
        p, acc = o[1], o[2]


def js(v):
    """In the form the harness prints."""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, Some):
        return js(v.v)
    if isinstance(v, F):
        b = v.bits
        return {'f': b}
    if isinstance(v, Agg):
        return {k: js(x) for k, x in v.items() if k not in ('current_group', 'current_smoothing_group')}
    if isinstance(v, dict):
        return {k: js(x) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return [js(x) for x in v]
    raise TypeError(repr(v))


def load_obj(data):
    """(outcome in harness form, tokens read, tokens in all, elements)"""
    toks = tokens(data, spec.lex_obj)
    e = ConcEnv(toks)
    p, m = 0, spec.model_default(e)
    while True:
        o = spec.model_step(e, p, m)
        if o[0] == 'stop':
            return {'ok': js(m)}, p, toks
        p, m = o[1], o[2]


def load_mtl(data):
    toks = tokens(data, spec.lex_mtl)
    e = ConcEnv(toks)
    r = e.sub('material::parse_material_set', 0)
    if r is None:
        return {'err': 'MaterialParse:Parse'}, 0, toks
    acc = []
    for el in r[1]:
        o = spec.material_step(e, acc, el)
        if o[0] == 'ret':
            return {'err': 'MaterialParse:' + o[1]}, r[0], toks
        acc = o[1]
    return {'ok': js(acc)}, r[0], toks
