"""Contracts on the functions of /repo: how the specifications of spec.py are
attached to MIR functions, assumed at call sites and verified against bodies."""
import time
import z3
from engine import *
import engine
import interp
import models
from models import zle, zlt, as_str
import spec
from spec import Some

F32_0 = 0x00000000


class Late:
    """A value known only once the loop that computes it has been verified."""
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


def has_late(v):
    if isinstance(v, Late):
        return True
    if isinstance(v, VAgg):
        return any(has_late(x) for x in v.f)
    if isinstance(v, VMap):
        return any(has_late(x) for _, x in v.ups)
    if isinstance(v, VSeq):
        return any(p[0] == 'i' and any(has_late(x) for x in p[1]) for p in v.p)
    if isinstance(v, (Some, tuple)):
        return any(has_late(x) for x in (v if isinstance(v, tuple) else (v.v,)))
    return False


class Fold:
    """One fold of the specification, offered to the loops of the code in several forms."""

    def __init__(self, e, name, base, text, pos0, acc0, step, fresh, forms=None, skip=None):
        c = e.c
        self.c = c
        self.step = step
        self.name = name
        self.end = TEXT_N if text else base.len
        self.fts = []
        self.done = None
        self.pos0, self.acc0 = pos0, acc0
        shared = {}

        def fresh0(c):
            if 'v' not in shared:
                shared['v'] = fresh(c)
            return shared['v']
        for wrap, unwrap in (forms or [(None, None)]):
            if wrap is None:
                st, fr, a0 = step, (fresh0 if forms else fresh), acc0
            else:
                def st(c, p, acc, wrap=wrap, unwrap=unwrap):
                    o = step(c, p, unwrap(acc))
                    return o[:2] + (wrap(o[2]),) + o[3:] if o[0] == 'next' else o

                def fr(c, wrap=wrap):
                    return wrap(fresh0(c))
                a0 = wrap(acc0)
            ft = FT(name, base, pos0, a0, st, fr, text)
            ft.group = self
            ft.unwrap = unwrap
            ft.skip = skip
            self.fts.append(ft)
            c.fts.append(ft)

    def result(self, it):
        if self.done is None:
            for ft in self.fts:
                if ft.consumed:
                    if ft.exit is None and not ft.text and ft.out is not None and ft.out[0] == 'next' and \
                            self.c.branch(zsimp(ft.out[1] == self.end)):
                        # left one element before the end: the specification takes that one, too
                        out = ft.step(self.c, ft.out[1], it.settle(ft.out[2]) if ft.acc is not None else None)
                        if out[0] == 'stop':
                            ft.exit = ('acc', ft.out[1], it.settle(ft.out[2]))
                        elif out[0] == 'ret':
                            ft.exit = ('ret', out[1])
                    if ft.exit is None:
                        raise Unsupported('fold %s left in the middle' % self.name)
                    if ft.exit[0] == 'acc':
                        v = ft.exit[2] if ft.unwrap is None else ft.unwrap(ft.exit[2])
                        self.done = ('acc', ft.exit[1], it.settle(v))
                    else:
                        self.done = ('ret', ft.exit[1])
                    break
            else:
                p, acc = self.pos0, self.acc0
                for _ in range(12):
                    o = self.step(self.c, p, acc)
                    if o[0] == 'next':
                        p, acc = o[1], it.settle(o[2])
                    elif o[0] == 'stop':
                        self.done = ('acc', p, acc)
                        break
                    else:
                        self.done = o
                        break
                else:
                    raise Unsupported('no loop of the code matches the fold "%s"' % self.name)
        return self.done


class SymEnv:
    Error = Unsupported

    def __init__(self, it, base=None, mode='verify', top=None):
        self.it = it
        self.c = it.c
        self.base = base
        self.mode = mode
        self.top = top

    # ---- decisions
    def br(self, c):
        return self.c.branch(c)

    def lt(self, a, b):
        return self.c.branch(zlt(a, b))

    def same(self, a, b):
        return self.c.provable(zeq(a, b))

    # ---- tokens
    def tokv(self, p):
        return self.c.elem(self.base, p)

    def tok(self, p, *names):
        c = self.c
        p = zsimp(p)
        if not c.branch(zlt(p, self.base.len)):
            return False
        v = self.tokv(p)
        ty = v.ty
        return c.branch(c.is_variant(v, [c.variant_index(ty, n) for n in names]))

    def pay1(self, v, name):
        return self.c.as_variant(v, self.c.variant_index(v.ty, name)).f[0]

    def num_of(self, v):
        c = self.c
        fi = c.variant_index(v.ty, 'Float')
        ii = c.variant_index(v.ty, 'Int')
        if isinstance(v, VAgg):
            return v.f[0] if v.var == fi else interp.i2f(v.f[0])
        return z3.If(v.tag == fi, self.pay1(v, 'Float'), interp.i2f(self.pay1(v, 'Int')))

    def num(self, p):
        return self.num_of(self.tokv(zsimp(p)))

    def int(self, p):
        return self.pay1(self.tokv(zsimp(p)), 'Int')

    def str(self, p):
        return self.pay1(self.tokv(zsimp(p)), 'String')

    def onoff(self, p):
        return models.eic(self.c, self.str(p), self.c.lit('on'))

    def textual(self, p):
        v = self.tokv(zsimp(p))
        c = self.c
        if c.branch(c.is_variant(v, [c.variant_index(v.ty, 'String')])):
            return self.pay1(v, 'String')
        return models.display(self.it, self.pay1(v, 'Int'))

    # ---- values
    def tid(self, name):
        if name == 'String':
            for i, t in self.c.prog.types.items():
                if self.c.prog.is_string(t):
                    return i
        if name == 'i32':
            for i, t in self.c.prog.types.items():
                if t['k'] == 'int' and t['bits'] == 32:
                    return i
        return self.c.adt('%s::%s' % (self.c.prog.crate, name))

    def coerce(self, v, ty):
        """Give a specification value (None / Some / tuple) the type the code declares."""
        if v is None or isinstance(v, Some):
            t = self.c.prog.ty(ty)
            if t['k'] != 'adt' or not t['def'].endswith('option::Option'):
                raise Unsupported('an optional value where the code has %s' % t['s'][:80])
            if v is None:
                return VAgg(str(ty), 0, ())
            return VAgg(str(ty), 1, (self.coerce(v.v, str(t['args'][0]['ty'])),))
        if isinstance(v, tuple):
            t = self.c.prog.ty(ty)
            if t['k'] != 'tuple' or len(t['es']) != len(v):
                raise Unsupported('a tuple where the code has %s' % t['s'][:80])
            return VAgg(str(ty), 0, tuple(self.coerce(x, str(y)) for x, y in zip(v, t['es'])))
        return v

    def mk_at(self, tyid, vi, kw):
        t = self.c.prog.ty(tyid)
        fs = t['vs'][vi]['f']
        names = [f['n'] for f in fs]
        if set(names) != set(kw):
            raise Unsupported('fields of %s differ from the contract: %s' % (t['s'], sorted(set(names) ^ set(kw))))
        return VAgg(str(tyid), vi, tuple(self.coerce(kw[f['n']], str(f['t'])) for f in fs))

    def mk(self, ty, **kw):
        return self.mk_at(self.tid(ty), 0, kw)

    def mkv(self, name, variant, *args):
        tyid = self.tid(name)
        vi = self.c.variant_index(tyid, variant)
        fs = self.c.prog.ty(tyid)['vs'][vi]['f']
        if len(fs) != len(args):
            raise Unsupported('payload of %s differs from the contract' % variant)
        return VAgg(str(tyid), vi, tuple(self.coerce(a, str(f['t'])) for a, f in zip(args, fs)))

    def variant(self, el):
        t = self.c.prog.ty(el.ty)
        if isinstance(el, VSym):
            i = self.c.choose([el.tag == k for k in range(len(t['vs']))])
            return t['vs'][i]['n']
        return t['vs'][el.var]['n']

    def is_v(self, el, name):
        return self.c.branch(self.c.is_variant(el, [self.c.variant_index(el.ty, name)]))

    def pay(self, el, name):
        return self.pay1(el, name)

    def payload(self, el):
        n = self.variant(el)
        a = self.c.as_variant(el, self.c.variant_index(el.ty, n))
        return a.f[0] if len(a.f) == 1 else (None if not a.f else a.f)

    def get(self, m, f):
        return self.c.field(m, f)

    def setf(self, m, **kw):
        t = self.c.prog.ty(m.ty)
        kw2 = {}
        for f in t['vs'][m.var]['f']:
            if f['n'] in kw:
                kw2[f['n']] = self.coerce(kw[f['n']], str(f['t']))
        if len(kw2) != len(kw):
            raise Unsupported('no field %s in %s' % (sorted(set(kw) - set(kw2)), t['s']))
        return self.c.with_fields(m, **kw2)

    def unwrap_or(self, o, d):
        if o is None:
            return d
        if isinstance(o, Some):
            return o.v
        if isinstance(o, Late):
            return Late(lambda: self.unwrap_or(o.fn(), d))
        return d if o.var == 0 else o.f[0]

    def items(self, *xs):
        return self.c.seq_items(*xs)

    def push(self, s, x):
        return self.c.seq_push(s, x)

    def cat(self, a, b):
        return self.c.seq_cat(a, b)

    def is_empty(self, s):
        return self.c.branch(zeq(self.c.seq_len(s), 0))

    def last(self, s):
        return self.c.seq_get(s, zsimp(self.c.seq_len(s) - 1))

    def set_last(self, s, x):
        return self.c.seq_set(s, zsimp(self.c.seq_len(s) - 1), x)

    def s(self, lit):
        return self.c.lit(lit)

    def f32(self, x):
        import struct
        return interp.fconst(struct.unpack('<I', struct.pack('<f', x))[0])

    def neg(self, x):
        return interp.fneg(x)

    def clamp(self, x, lo, hi):
        if not is_z(x):
            return min(max(x, lo), hi)
        return z3.If(x < lo, z3.IntVal(lo), z3.If(x > hi, z3.IntVal(hi), x))

    def as_u32(self, x):
        if self.c.provable(x >= 0):
            return x
        return interp.wrap_int(x, 0, (1 << 32) - 1)

    # ---- maps
    def empty_map(self):
        return VMap(None, (), None, None)

    def mget(self, m, k):
        return self.c.map_get(m, k)

    def mput(self, m, k, v):
        return self.c.map_put(m, k, v)

    # ---- text
    def at_end(self, p):
        return not self.c.branch(zlt(p, TEXT_N))

    def at(self, p, ch):
        c = self.c
        p = zsimp(p)
        good = zand(zle(1, zsimp(TEXT_N - p)), c.byte_is(c.tbyte(p), ord(ch), False))
        models.boundary(self.it, ('t', 'text', p, TEXT_N), 1)
        return c.branch(good)

    def kw_ws(self, q, w):
        c = self.c
        q = zsimp(q)
        n = len(w)
        models.boundary(self.it, ('t', 'text', q, TEXT_N), n)
        good = zand(zlt(zsimp(q + n), TEXT_N), *[c.byte_is(c.tbyte(zsimp(q + i)), ord(b), True) for i, b in enumerate(w)])
        good = zand(good, c.in_set(spec.WS, zsimp(q + n)))
        return c.branch(good)

    def span(self, st, p):
        return self.c.span(st, zsimp(p))

    def text(self, a, b):
        return VStr((('t', 'text', zsimp(a), zsimp(b)),))

    def dec(self, ip, fp, es, ep):
        def t(x):
            return self.c.str_term(self.text(*x)) if x is not None else self.c.piece_term(('l', b''))
        return f_dec(t(ip), t(fp), z3.IntVal(es), t(ep))

    def intval(self, a, b, neg):
        v = models.dval(self.it, [('t', 'text', zsimp(a), zsimp(b))])
        return zsimp(-v) if neg else v

    def is_i32(self, v):
        return self.c.branch(zand(zle(-(1 << 31), v), zle(v, (1 << 31) - 1)))

    # ---- other contracts
    def sub(self, name, p):
        fn, level = spec.PARSERS[name]
        ct = self.it.c.run.contracts
        if ct.enabled(self.c.prog, name) and name != self.top:
            return SymEnv(self.it, self.base, 'call', self.top).call(name, p)
        return fn(SymEnv(self.it, self.base, self.mode, self.top), zsimp(p))

    def call(self, name, p):
        """What a caller may know of a parser under contract. For those in spec.OPAQUE: that it
        fails unless the current token is one of its own, and otherwise returns some outcome
        determined by the token list and the position alone, past at least one token."""
        p = zsimp(p)
        lty = spec.OPAQUE_LIST.get(name)
        if lty is None and name not in spec.OPAQUE:
            return spec.PARSERS[name][0](self, p)
        heads, ty = spec.OPAQUE[name] if lty is None else ((), lty)
        if heads and not self.tok(p, *heads):
            return None
        c = self.c
        key = '%s(%s@%s)' % (name, self.base.key, p.sexpr() if is_z(p) else p)
        ok = z3.Bool('ok ' + key)
        end = z3.Int('end of ' + key)
        c.axiom(('call', key), z3.Implies(ok, zand(end > p, end <= self.base.len)))
        if not c.branch(ok):
            return None
        if lty is not None:
            b = c.base(key, self.tid(ty))
            c.axiom(('call list', key), b.len >= 1)
            return end, VSeq((('s', b, 0, b.len),))
        return end, c.mk_sym(self.tid(ty), key)

    def fn(self, name, arg):
        f, ty = spec.FNS[name]
        ct = self.it.c.run.contracts
        mode = 'call' if ct.enabled(self.c.prog, name) and name != self.top else self.mode
        if mode == 'call':
            return self.opaque_fn(name, ty, arg)
        return f(SymEnv(self.it, self.base, mode, self.top), arg)

    def opaque_fn(self, name, ty, arg):
        """The value of a function under contract, as its callers see it: some value
        determined by the argument."""
        b = single_base(arg)
        if b is None:
            raise Unsupported('argument of %s' % name)
        return self.c.mk_sym(self.tid(ty), '%s(%s)' % (name, b.key))

    # ---- folds
    def collect(self, name, p, item, ety, wrap=None, final=None):
        """One or more items from position p: the list of their values."""
        c = self.c
        p = zsimp(p)
        fin = final or (wrap[0] if wrap else (lambda s: s))
        if self.mode == 'call':
            first = item(self, p)
            if first is None:
                return None
            b = self.base
            key = 'all %s(%s@%s)' % (name, b.key, p.sexpr() if is_z(p) else p)
            mk = ('collect', key)
            r = c.memo.get(mk)
            if r is None:
                end = z3.Int('end of ' + key)
                sb = c.base(key, self.tid(ety))
                c.axiom(('collect', key), end >= first[0], end <= b.len, sb.len >= 1)
                r = c.memo[mk] = (end, VSeq((('s', sb, 0, sb.len),)))
            return r[0], fin(r[1])
        env = self

        def step(c, q, acc):
            r = item(env, q)
            if r is None:
                return ('stop',)
            return ('next', zsimp(r[0]), c.seq_push(acc, r[1]), '')
        if item(self, p) is None:
            return None
        ety = self.tid(ety)
        forms = [(None, None)]
        if wrap:
            forms.append(wrap)
        fo = Fold(self, name, self.base, False, p, c.seq_items(), step,
                  lambda c: c.seq_base_value('%s so far!%d' % (name, len(c.memo)), ety), forms)
        return Late(lambda: fo.result(self.it)[1]), fin(Late(lambda: fo.result(self.it)[2]))

    def each(self, name, s, acc, fn):
        return self.each_tag(name, s, acc, lambda a, x: (fn(a, x), ''))

    def each_tag(self, name, s, acc, fn):
        """acc after fn over every element of s, in order."""
        c = self.c
        if not isinstance(s, VSeq):
            raise Unsupported('%s over %r' % (name, s))
        if all(p[0] == 'i' for p in s.p):
            for p in s.p:
                for x in p[1]:
                    acc = self.it.settle(fn(acc, x)[0])
            return acc
        if len(s.p) != 1:
            raise Unsupported('%s over a composed sequence' % name)
        _, b, lo, hi = s.p[0]

        def step(c, q, a):
            if not c.branch(zlt(q, hi)):
                return ('stop',)
            r, tag = fn(a, c.elem(b, q))
            return ('next', zsimp(q + 1), r, tag)
        fo = Fold(self, name, b, False, lo, acc, step, lambda c: fresh_like(c, acc, name))
        return Late(lambda: fo.result(self.it)[2])

    def first(self, name, s, pred, val):
        """Some(val) of the first element that satisfies pred."""
        if not isinstance(s, VSeq) or len(s.p) != 1 or s.p[0][0] != 's':
            raise Unsupported('%s over a composed sequence' % name)
        _, b, lo, hi = s.p[0]

        def step(c, q, a):
            if not c.branch(zlt(q, hi)):
                return ('stop',)
            x = c.elem(b, q)
            if pred(x):
                return ('ret', Some(val(x)))
            return ('next', zsimp(q + 1), None, '')
        fo = Fold(self, name, b, False, lo, None, step, lambda c: None)

        def res():
            r = fo.result(self.it)
            return None if r[0] == 'acc' else r[1]
        return Late(res)


def single_base(v):
    if isinstance(v, VSeq) and len(v.p) == 1 and v.p[0][0] == 's' and v.p[0][2] == 0 and zeq(v.p[0][3], v.p[0][1].len) is True:
        return v.p[0][1]
    return None


def fresh_like(c, v, name):
    c.fresh_n += 1
    key = '%s so far!%d' % (name, c.fresh_n)
    if isinstance(v, VMap):
        return VMap(key, (), v.kty, v.vty)
    if isinstance(v, VAgg):
        return c.mk_sym(v.ty, key)
    raise Unsupported('no fresh value like %r' % (v,))


# ------------------------------------------------------------------ helpers
def mk_result(it, retty, okval=None, err=None):
    return VAgg(retty, 0, (okval,)) if err is None else VAgg(retty, 1, (err,))


def ty_of_arg(prog, tyid, i):
    return str(prog.ty(tyid)['args'][i]['ty'])


def parser_result(it, retty, r, rest, level):
    """Build the IResult the MIR declares for a contract outcome."""
    prog, c = it.prog, it.c
    okt, errt = ty_of_arg(prog, retty, 0), ty_of_arg(prog, retty, 1)
    if r is None:
        et = prog.ty(errt)
        vi = c.variant_index(errt, 'Error')
        pt = str(et['vs'][vi]['f'][0]['t'])
        p = prog.ty(pt)
        pay = UNIT if p['k'] == 'tuple' and not p['es'] else VOpaque('parse error')
        return VAgg(retty, 1, (VAgg(errt, vi, (pay,)),))
    ot = prog.ty(okt)
    vt = prog.ty(str(ot['es'][1]))
    unit = vt['k'] == 'tuple' and not vt['es']
    return VAgg(retty, 0, (VAgg(okt, 0, (rest, UNIT if unit else r[1])),))


def token_input(c, v):
    """(base, position) of a token set that is a suffix of the token list, and a rebuilder."""
    if isinstance(v, VAgg):
        seqs = [i for i, x in enumerate(v.f) if isinstance(x, VSeq)]
        if len(seqs) == 1 and len(v.f) == 1:
            s = v.f[0]
            if len(s.p) == 1 and s.p[0][0] == 's' and zeq(s.p[0][3], s.p[0][1].len) is True:
                b = s.p[0][1]
                return b, s.p[0][2], lambda q: VAgg(v.ty, 0, (VSeq((('s', b, zsimp(q), b.len),)),))
    raise Unsupported('token input %r' % (v,))


def text_input(v):
    if isinstance(v, VStr):
        if len(v.p) == 1 and v.p[0][0] == 't' and zeq(v.p[0][3], TEXT_N) is True:
            return v.p[0][2], lambda q: VStr((('t', v.p[0][1], zsimp(q), TEXT_N),))
    raise Unsupported('text input %r' % (v,))


class Contracts:
    def __init__(self, prog, disabled=()):
        self.prog = prog
        self.disabled = set(disabled)
        self.ctors = {}
        self.procs = {}
        self.direct = {}
        self.calls = {}
        self.missing = {}
        local = {}
        for i, f in prog.insts.items():
            if f['krate'] == prog.crate and f.get('body'):
                local.setdefault(f['path'], []).append(i)
        self.local = local
        for name, (fn, level) in spec.PARSERS.items():
            ids = local.get(name, [])
            if not ids:
                self.missing[name] = 'no function of this name is reachable'
                continue
            for i in ids:
                b = prog.body(i)
                if b.argc == 0:
                    self.ctors[i] = name
                elif b.argc == 1 and self.is_iresult(b.ltys[0]):
                    self.direct[i] = name
                else:
                    self.missing[name] = 'signature differs'
        for i, name in self.ctors.items():
            rt = prog.body(i).ltys[0]
            ps = []
            for j, f in prog.insts.items():
                if f['path'].endswith('::process') and f.get('body'):
                    b = prog.body(j)
                    if b.argc == 2:
                        st = prog.ty(b.ltys[1])
                        if st['k'] == 'ref' and str(st['e']) == rt and self.is_iresult(b.ltys[0]):
                            ps.append(j)
            t = prog.ty(rt)
            if t['k'] == 'closure' and not ps:
                self.missing[name] = 'constructor returns a bare closure'
                ps = [None]
            self.procs[name] = ps
            if not ps:
                self.missing[name] = 'never run as a parser'
        self.by_ret = {}
        for i, name in self.ctors.items():
            self.by_ret.setdefault(prog.body(i).ltys[0], set()).add(name)
        for name, h in HELPERS.items():
            ids = local.get(name, [])
            if not ids:
                self.missing[name] = 'no function of this name is reachable'
            for i in ids:
                if h.fits(self, prog.body(i)):
                    self.calls[i] = name
                else:
                    self.missing[name] = 'signature differs'

    def is_iresult(self, ty):
        t = self.prog.ty(ty)
        if t['k'] != 'adt' or not t['def'].endswith('result::Result'):
            return False
        o = self.prog.ty(ty_of_arg(self.prog, ty, 0))
        e = self.prog.ty(ty_of_arg(self.prog, ty, 1))
        return o['k'] == 'tuple' and len(o['es']) == 2 and e['k'] == 'adt' and e['def'].endswith('Err')

    def enabled(self, prog, name):
        return name not in self.disabled and name not in self.missing

    # ---- use at call sites
    def apply_call(self, it, iid, f, args, retty):
        name = self.ctors.get(iid)
        run = it.c.run
        if name is not None:
            if name in run.inlining or not self.enabled(it.prog, name):
                return None
            run.used.add(name)
            return VParser(name, self.prog.body(iid).ltys[0])
        name = self.direct.get(iid)
        if name is not None:
            if name in run.inlining or not self.enabled(it.prog, name):
                return None
            return self.apply_named(it, name, args[0], self.prog.body(iid).ltys[0])
        name = self.calls.get(iid)
        if name is not None:
            if name in run.inlining or not self.enabled(it.prog, name):
                return None
            if it.c.nest is not None:
                raise MergeFail('call under contract')
            r = HELPERS[name].apply(it, self, iid, args, self.prog.body(iid).ltys[0])
            if r is not None:
                run.used.add(name)
            return r
        return None

    def apply_parser(self, it, pv, inp, retty):
        return self.apply_named(it, pv.contract, inp, retty)

    def apply_named(self, it, name, inp, retty):
        c = it.c
        if c.nest is not None:
            raise MergeFail('call under contract')
        fn, level = spec.PARSERS[name]
        c.run.used.add(name)
        if level == 'token':
            b, p, mk = token_input(c, inp)
            r = SymEnv(it, b, 'call', name).call(name, p)
        else:
            p, mk = text_input(inp)
            r = fn(SymEnv(it, None, 'call', name), p)
        return parser_result(it, retty, r, mk(r[0]) if r is not None else None, level)

    def settle(self, it, v):
        if isinstance(v, Late):
            return self.settle(it, v.fn())
        if isinstance(v, Some):
            return Some(self.settle(it, v.v)) if has_late(v.v) else v
        if not has_late(v):
            return v
        if isinstance(v, VAgg):
            t = it.prog.types.get(str(v.ty))
            out = []
            for i, x in enumerate(v.f):
                y = self.settle(it, x)
                if (y is None or isinstance(y, (Some, tuple))) and t and t['k'] == 'adt':
                    y = SymEnv(it).coerce(y, str(t['vs'][v.var]['f'][i]['t']))
                out.append(y)
            return VAgg(v.ty, v.var, tuple(out))
        if isinstance(v, VMap):
            return VMap(v.base, tuple((k, self.settle(it, x)) for k, x in v.ups), v.kty, v.vty)
        if isinstance(v, VSeq):
            return VSeq(tuple(('i', tuple(self.settle(it, x) for x in p[1])) if p[0] == 'i' else p for p in v.p))
        if isinstance(v, tuple):
            return tuple(self.settle(it, x) for x in v)
        return v


# ------------------------------------------------- functions that are not parsers
class Helper:
    """argc, and the contract as a function of the argument values."""
    argc = 1

    def fits(self, ct, body):
        return body.argc == self.argc

    def apply(self, it, ct, iid, args, retty):
        raise NotImplementedError

    def verify(self, it, ct, iid, name):
        raise NotImplementedError


HELPERS = {}


def helper(name):
    def deco(cls):
        HELPERS[name] = cls()
        HELPERS[name].name = name
        return cls
    return deco


class TokenGetter(Helper):
    """fn(&Token) -> Result<T, ObjError>"""

    def outcome(self, it, tok, retty):
        """('ok', value) or ('err',)"""

    def tok(self, it, a):
        v = models.val(it, a)
        if not isinstance(v, (VSym, VAgg)):
            raise Unsupported('token %r' % (v,))
        return v

    def apply(self, it, ct, iid, args, retty):
        r = self.outcome(it, self.tok(it, args[0]), retty)
        if r is None:
            return None
        if r[0] == 'ok':
            return VAgg(retty, 0, (SymEnv(it).coerce(r[1], ty_of_arg(it.prog, retty, 0)),))
        return VAgg(retty, 1, (VOpaque('error of ' + self.name),))

    def arg(self, it, body):
        t = it.prog.ty(body.ltys[1])
        return it.c.mk_sym(str(t['e']), 'token')

    def assume(self, it, tok):
        pass

    def verify(self, it, ct, iid, name):
        c = it.c
        body = it.prog.body(iid)
        tok = self.arg(it, body)
        self.assume(it, tok)
        exp = self.outcome(it, tok, body.ltys[0])
        r = it.call_fn(iid, [VRef(Cell(tok, ('arg', 1)))], intern_key((name, 'body')))
        if exp[0] == 'ok':
            good = isinstance(r, VAgg) and r.var == 0
            c.prove(good, name + '/returns Ok', 'code returns %r' % (r,))
            if good:
                it.prove_value(r.f[0], SymEnv(it).coerce(exp[1], ty_of_arg(it.prog, body.ltys[0], 0)), name + '/value')
        else:
            c.prove(isinstance(r, VAgg) and r.var == 1, name + '/returns Err', 'code returns %r' % (r,))


@helper('get_token_float')
class GetFloat(TokenGetter):
    def outcome(self, it, tok, retty):
        c = it.c
        if c.branch(c.is_variant(tok, [c.variant_index(tok.ty, 'Float'), c.variant_index(tok.ty, 'Int')])):
            return 'ok', SymEnv(it).num_of(tok)
        return ('err',)


@helper('get_token_int')
class GetInt(TokenGetter):
    def outcome(self, it, tok, retty):
        c = it.c
        if c.branch(c.is_variant(tok, [c.variant_index(tok.ty, 'Int')])):
            return 'ok', SymEnv(it).pay1(tok, 'Int')
        return ('err',)


@helper('get_token_string')
class GetString(TokenGetter):
    def outcome(self, it, tok, retty):
        c = it.c
        e = SymEnv(it)
        if c.branch(c.is_variant(tok, [c.variant_index(tok.ty, 'String')])):
            return 'ok', e.pay1(tok, 'String')
        if c.branch(c.is_variant(tok, [c.variant_index(tok.ty, 'Int')])):
            return 'ok', models.display(it, e.pay1(tok, 'Int'))
        if c.branch(c.is_variant(tok, [c.variant_index(tok.ty, 'Float')])):
            return 'ok', models.display(it, e.pay1(tok, 'Float'))
        return ('err',)


@helper('get_on_off_from_str')
class GetOnOff(TokenGetter):
    """requires: the token is a String"""

    def is_str(self, it, tok):
        c = it.c
        return c.is_variant(tok, [c.variant_index(tok.ty, 'String')])

    def assume(self, it, tok):
        it.c.assume(self.is_str(it, tok))

    def outcome(self, it, tok, retty):
        c = it.c
        w = self.is_str(it, tok)
        if w is not True and (w is False or not c.provable(w)):
            return None
        s = SymEnv(it).pay1(tok, 'String')
        if c.branch(models.eic(c, s, c.lit('on'))):
            return 'ok', True
        if c.branch(models.eic(c, s, c.lit('off'))):
            return 'ok', False
        return ('err',)


@helper('get_opt_token_float_opt')
class GetOptFloat(TokenGetter):
    def outcome(self, it, tok, retty):
        c = it.c
        if c.branch(c.is_variant(tok, [c.variant_index(tok.ty, 'None')])):
            return 'ok', None
        t = SymEnv(it).pay1(tok, 'Some')
        if c.branch(c.is_variant(t, [c.variant_index(t.ty, 'Float'), c.variant_index(t.ty, 'Int')])):
            return 'ok', Some(SymEnv(it).num_of(t))
        return ('err',)


class MapNew(Helper):
    """fn(&[OptionElement]) -> Map"""

    def apply(self, it, ct, iid, args, retty):
        s = models.as_seq(it, args[0])
        if single_base(s) is None:
            return None
        return SymEnv(it).opaque_fn(self.name, spec.FNS[self.name][1], s)

    def verify(self, it, ct, iid, name):
        c = it.c
        body = it.prog.body(iid)
        s = c.seq_base_value('options', SymEnv(it).tid(spec.OE))
        t = it.prog.ty(body.ltys[1])
        arg = s
        if t['k'] == 'ref' and it.prog.is_vec(it.prog.ty(t['e'])):
            arg = VRef(Cell(s, ('arg', 1)))
        elif t['k'] != 'ref' and not it.prog.is_vec(t):
            raise Unsupported('signature of %s' % name)
        exp = spec.FNS[name][0](SymEnv(it, None, 'verify', name), s)
        r = it.call_fn(iid, [arg], intern_key((name, 'body')))
        it.prove_value(r, it.settle(exp), name + '/value')


for _n in spec.FNS:
    HELPERS[_n] = type('MapNew', (MapNew,), {})()
    HELPERS[_n].name = _n


@helper('material::Material::set_from_material_element')
class SetElem(Helper):
    argc = 2

    def elem(self, it, a):
        v = models.val(it, a)
        return v

    def apply(self, it, ct, iid, args, retty):
        e = SymEnv(it)
        m = it.c.load(args[0].cell, args[0].path)
        new = spec.material_set_elem(e, m, self.elem(it, args[1]))
        it.c.store(args[0].cell, args[0].path, new)
        return UNIT

    def verify(self, it, ct, iid, name):
        c = it.c
        e = SymEnv(it)
        m = c.mk_sym(e.tid('material::Material'), 'self')
        el = c.mk_sym(e.tid('material::MaterialElement'), 'element')
        v = e.variant(el)
        exp = spec.material_set_elem(e, m, el)
        cell = Cell(m, ('arg', 1))
        t = it.prog.ty(it.prog.body(iid).ltys[2])
        it.call_fn(iid, [VRef(cell), VRef(Cell(el, ('arg', 2))) if t['k'] == 'ref' else el], intern_key((name, 'body')))
        it.prove_value(cell.v, exp, '%s/set[%s]' % (name, v))


@helper('<model::Model as std::default::Default>::default')
class ModelDefault(Helper):
    argc = 0

    def apply(self, it, ct, iid, args, retty):
        return spec.model_default(SymEnv(it))

    def verify(self, it, ct, iid, name):
        r = it.call_fn(iid, [], intern_key((name, 'body')))
        it.prove_value(r, spec.model_default(SymEnv(it)), 'Model::default/value')


class Lexer(Helper):
    """fn(&str) -> Result<TokenSet, TokenizeError>"""

    def __init__(self, step, tag):
        self.step = step
        self.tag = tag

    def tokens(self, it, retty):
        okt = ty_of_arg(it.prog, retty, 0)
        t = it.prog.ty(okt)
        fs = t['vs'][0]['f']
        if len(fs) != 1:
            raise Unsupported('token set fields')
        ety = it.prog.elem_ty(it.prog.ty(str(fs[0]['t'])))
        return okt, ety

    def apply(self, it, ct, iid, args, retty):
        s = as_str(it, args[0])
        p, _ = text_input(s)
        if not (not is_z(p) and p == 0):
            return None
        okt, ety = self.tokens(it, retty)
        b = it.c.base('tokens of the text', ety)
        return VAgg(retty, 0, (VAgg(okt, 0, (VSeq((('s', b, 0, b.len),)),)),))

    def verify(self, it, ct, iid, name):
        c = it.c
        body = it.prog.body(iid)
        okt, ety = self.tokens(it, body.ltys[0])
        e = SymEnv(it, None, 'verify', name)
        text = VStr((('t', 'text', 0, TEXT_N),))
        c.axiom(('len', 'text'), TEXT_N >= 0)
        c.axiom(('bnd0',), f_bound(z3.IntVal(0)), f_bound(TEXT_N))

        def step(c, p, acc):
            return self.step(e, p, acc)
        fo = Fold(e, name, None, True, 0, c.seq_items(), step,
                  lambda c: c.seq_base_value('tokens so far', ety), None,
                  skip=lambda c, p: c.span(spec.WS, p))
        r = it.call_fn(iid, [text], intern_key((name, 'body')))
        good = isinstance(r, VAgg) and r.var == 0
        c.prove(good, name + '/never fails', 'code returns %r' % (r,))
        if good:
            o = fo.result(it)
            c.prove(zeq(o[1], TEXT_N), name + '/reads to the end of the text', '')
            toks = r.f[0].f[0]
            it.prove_value(toks, it.settle(o[2]), name + '/result')


HELPERS['tokenizer::obj::parse_obj'] = Lexer(spec.lex_obj, 'obj')
HELPERS['tokenizer::mtl::parse_mtl'] = Lexer(spec.lex_mtl, 'mtl')


@helper('model::parse')
class ModelParse(Helper):
    """fn(TokenSet) -> Result<Model, ModelError>: the model of the longest prefix of statements"""

    def apply(self, it, ct, iid, args, retty):
        b, p, _ = token_input(it.c, args[0])
        if is_z(p) or p != 0:
            return None
        m = it.c.mk_sym(ty_of_arg(it.prog, retty, 0), 'model of (%s)' % b.key)
        return VAgg(retty, 0, (m,))

    def verify(self, it, ct, iid, name):
        c = it.c
        body = it.prog.body(iid)
        b, inp = token_set(it, body.ltys[1])
        e = SymEnv(it, b, 'verify', name)
        mt = e.tid('model::Model')

        def step(c, p, m):
            c.note = None
            return spec.model_step(e, p, m)
        fo = Fold(e, name, b, False, 0, spec.model_default(e), step, lambda c: c.mk_sym(mt, 'model so far'))
        r = it.call_fn(iid, [inp], intern_key((name, 'body')))
        good = isinstance(r, VAgg) and r.var == 0
        c.prove(good, name + '/never fails', 'code returns %r' % (r,))
        if good:
            o = fo.result(it)
            it.prove_value(r.f[0], it.settle(o[2]), name + '/result')
        if isinstance(r, VAgg) and fo.result(it)[0] == 'acc':
            c.prove(True if r.var == 1 else zle(b.len, fo.result(it)[1]), name + '/unparsed remainder is reported',
                    'statements from the first token no statement parser accepts are dropped and Ok is returned')


def token_set(it, tyid):
    """A symbolic token set: an arbitrary list of tokens."""
    c = it.c
    t = it.prog.ty(tyid)
    if t['k'] != 'adt' or len(t['vs'][0]['f']) != 1:
        raise Unsupported('token set type')
    vt = it.prog.ty(str(t['vs'][0]['f'][0]['t']))
    if not it.prog.is_vec(vt):
        raise Unsupported('token set type')
    b = c.base('tokens', it.prog.elem_ty(vt))
    return b, VAgg(str(tyid), 0, (VSeq((('s', b, 0, b.len),)),))


@helper('material::parse')
class MaterialParse(Helper):
    def outcome(self, it, b, mode):
        e = SymEnv(it, b, mode, self.name)
        r = e.sub('material::parse_material_set', 0)
        return e, r

    def apply(self, it, ct, iid, args, retty):
        c = it.c
        b, p, _ = token_input(c, args[0])
        if is_z(p) or p != 0:
            return None
        tag = z3.Int('outcome of material::parse(%s)' % b.key)
        c.axiom(('mp', b.key), tag >= 0, tag <= 1)
        if c.branch(tag == 0):
            return VAgg(retty, 0, (c.mk_sym(ty_of_arg(it.prog, retty, 0), 'materials of (%s)' % b.key),))
        return VAgg(retty, 1, (VOpaque('error of material::parse'),))

    def verify(self, it, ct, iid, name):
        c = it.c
        body = it.prog.body(iid)
        b, inp = token_set(it, body.ltys[1])
        e = SymEnv(it, b, 'verify', name)
        r = e.sub('material::parse_material_set', 0)
        errt = ty_of_arg(it.prog, body.ltys[0], 1)
        fo = None
        if r is not None:
            els = it.settle(r[1]) if not has_late(r[1]) else None
            if els is None or single_base(els) is None:
                raise Unsupported('material statements are not available as a list')
            eb = single_base(els)
            mt = e.tid('material::Material')

            def step(c, q, acc):
                if not c.branch(zlt(q, eb.len)):
                    return ('stop',)
                o = spec.material_step(e, acc, c.elem(eb, q))
                if o[0] == 'ret':
                    return o
                return ('next', zsimp(q + 1), o[1], o[2])
            fo = Fold(e, name, eb, False, 0, c.seq_items(), step, lambda c: c.seq_base_value('materials so far', mt))
        x = it.call_fn(iid, [inp], intern_key((name, 'body')))
        if r is None:
            self.expect_err(it, x, errt, 'Parse', name)
            return
        o = fo.result(it)
        if o[0] == 'ret':
            self.expect_err(it, x, errt, o[1], name)
            return
        good = isinstance(x, VAgg) and x.var == 0
        c.prove(good, name + '/returns Ok', 'code returns %r' % (x,))
        if good:
            it.prove_value(x.f[0], it.settle(o[2]), name + '/result')
            c.prove(zle(b.len, r[0]), name + '/unparsed remainder is reported',
                    'statements from the first token no statement parser accepts are dropped and Ok is returned')

    def expect_err(self, it, x, errt, variant, name):
        c = it.c
        good = isinstance(x, VAgg) and x.var == 1
        c.prove(good, '%s/error %s' % (name, variant), 'code returns %r' % (x,))
        if good and isinstance(x.f[0], VAgg):
            c.prove(x.f[0].var == c.variant_index(errt, variant), '%s/error %s/kind' % (name, variant), 'code returns %r' % (x,))


class Load(Helper):
    """fn(&str) -> Result<T, ObjError>"""

    def __init__(self, lexer, parse, errvariant):
        self.lexer, self.parse, self.errvariant = lexer, parse, errvariant

    def apply(self, it, ct, iid, args, retty):
        return None

    def inst(self, ct, name):
        ids = [i for i, n in ct.calls.items() if n == name]
        if not ids or not ct.enabled(ct.prog, name):
            raise Unsupported('%s is not under contract' % name)
        return ids[0]

    def verify(self, it, ct, iid, name):
        c = it.c
        body = it.prog.body(iid)
        text = VStr((('t', 'text', 0, TEXT_N),))
        c.axiom(('len', 'text'), TEXT_N >= 0)
        li, pi = self.inst(ct, self.lexer), self.inst(ct, self.parse)
        lx = HELPERS[self.lexer].apply(it, ct, li, [text], it.prog.body(li).ltys[0])
        toks = lx.f[0]
        exp = HELPERS[self.parse].apply(it, ct, pi, [toks], it.prog.body(pi).ltys[0])
        r = it.call_fn(iid, [text], intern_key((name, 'body')))
        if exp.var == 0:
            good = isinstance(r, VAgg) and r.var == 0
            c.prove(good, name + '/returns Ok', 'code returns %r' % (r,))
            if good:
                it.prove_value(r.f[0], exp.f[0], name + '/value')
        else:
            good = isinstance(r, VAgg) and r.var == 1
            c.prove(good, name + '/returns Err', 'code returns %r' % (r,))
            if good:
                errt = ty_of_arg(it.prog, body.ltys[0], 1)
                c.prove(isinstance(r.f[0], VAgg) and r.f[0].var == c.variant_index(errt, self.errvariant),
                        name + '/error kind', 'code returns %r' % (r,))


HELPERS['load_obj'] = Load('tokenizer::obj::parse_obj', 'model::parse', 'ModelParse')
HELPERS['load_mtl'] = Load('tokenizer::mtl::parse_mtl', 'material::parse', 'MaterialParse')
for _n in ('tokenizer::obj::parse_obj', 'tokenizer::mtl::parse_mtl', 'load_obj', 'load_mtl'):
    HELPERS[_n].name = _n


# ------------------------------------------------------------- verification
def verify_parser(it, ct, name, ctor, proc):
    """The parser built by running the constructor's body satisfies its contract."""
    c = it.c
    fn, level = spec.PARSERS[name]
    if proc is None and ctor is not None:
        raise Unsupported('constructor returns a bare closure')
    if ctor is None:
        body = it.prog.body(proc)
        inty = body.ltys[1]
    else:
        body = it.prog.body(proc)
        inty = body.ltys[2]
    retty = body.ltys[0]
    if level == 'token':
        b, inp = token_set(it, inty)
        e = SymEnv(it, b, 'verify', name)
    else:
        b = None
        c.axiom(('len', 'text'), TEXT_N >= 0)
        p0 = z3.Int('start')
        c.axiom(('start',), p0 >= 0, p0 <= TEXT_N, f_bound(p0))
        inp = VStr((('t', 'text', p0, TEXT_N),))
        e = SymEnv(it, None, 'verify', name)
    exp = fn(e, 0 if level == 'token' else p0)
    if ctor is None:
        r = it.call_fn(proc, [inp], intern_key((name, 'body')))
    else:
        pv = it.call_fn(ctor, [], intern_key((name, 'ctor')))
        r = it.call_fn(proc, [VRef(Cell(pv, ('parser', 0))), inp], intern_key((name, 'body')))
    check_parser_result(it, r, exp, retty, level, b, name)


def check_parser_result(it, r, exp, retty, level, b, name):
    c = it.c
    if not isinstance(r, VAgg):
        raise Unsupported('result %r' % (r,))
    if exp is None:
        errt = ty_of_arg(it.prog, retty, 1)
        good = r.var == 1 and isinstance(r.f[0], VAgg) and r.f[0].var == c.variant_index(errt, 'Error')
        c.prove(good, name + '/rejects', 'the contract rejects, the code returns %s' % interp.short(r))
        return
    c.prove(r.var == 0, name + '/accepts', 'the contract accepts, the code returns %s' % interp.short(r))
    if r.var != 0:
        return
    rest, val = r.f[0].f
    q = it.settle(exp[0])
    if level == 'token':
        want = VSeq((('s', b, zsimp(q), b.len),))
        c.prove(c.veq(rest.f[0], want), name + '/rest', 'code leaves %s, contract %s' % (interp.short(rest.f[0]), interp.short(want)))
    else:
        want = VStr((('t', 'text', zsimp(q), TEXT_N),))
        c.prove(c.veq(rest, want), name + '/rest', 'code leaves %s, contract %s' % (interp.short(rest), interp.short(want)))
    vt = it.prog.ty(str(it.prog.ty(ty_of_arg(it.prog, retty, 0))['es'][1]))
    if vt['k'] == 'tuple' and not vt['es']:
        return
    want = it.settle(exp[1])
    it.prove_value(val, want, name + '/value')


def targets(ct):
    """Everything to verify: name -> list of (label, thunk)."""
    out = {}
    for name in spec.PARSERS:
        ts = []
        for i, n in ct.ctors.items():
            if n == name:
                for pr in ct.procs.get(name, []):
                    ts.append((name, lambda it, i=i, pr=pr, name=name: verify_parser(it, ct, name, i, pr)))
        for i, n in ct.direct.items():
            if n == name:
                ts.append((name, lambda it, i=i, name=name: verify_parser(it, ct, name, None, i)))
        out[name] = ts
    for name, h in HELPERS.items():
        out[name] = [(name, lambda it, i=i, h=h, name=name: h.verify(it, ct, i, name)) for i, n in ct.calls.items() if n == name]
    return out


def verify(prog, ct, name, seconds=120):
    """Run every instance of one function; returns a plain report."""
    t0 = time.time()
    ts = targets(ct)[name]
    rep = dict(name=name, instances=len(ts), obligations={}, failures=[], unsupported=[], used=[], paths=0, queries=0,
               solver_s=0.0, wall_s=0.0, modelled={}, inlined={}, closed={}, live=set())
    if not ts:
        rep['unsupported'].append(ct.missing.get(name, 'no instance'))
    used = set()
    for label, thunk in ts:
        run = interp.Run(prog, name, ct, time.time() + seconds)
        run.inlining = {name}

        def go(ctx, thunk=thunk, run=run):
            try:
                thunk(ctx.it)
            except Panic as e:
                run.oblig(name + '/no panic')
                ok = ctx.check() == z3.unsat
                if ok:
                    run.ok(name + '/no panic')
                else:
                    run.fail(ctx, name + '/no panic', 'refuted', 'panic: %s' % e, None)
                return
            run.oblig(name + '/no panic')
            run.ok(name + '/no panic')
            ctx.reached(name + '/no panic')
        run.explore(go)
        for k, v in run.obl.items():
            o = rep['obligations'].setdefault(k, [0, 0, 0])
            for i in range(3):
                o[i] += v[i]
        if models.POST in run.unsupported:
            for x in run.failures:
                x['kind'] = 'undecided'
        rep['failures'] += run.failures
        rep['live'] |= run.live
        rep['unsupported'] += run.unsupported
        used |= run.used
        rep['paths'] += run.paths
        rep['queries'] += run.stats['queries']
        rep['solver_s'] += run.stats['solver_s']
        for k in ('unknown', 'cross', 'cross_ok', 'cross_bad', 'cross_open', 'cross_s'):
            rep[k] = rep.get(k, 0) + run.stats[k]
        rep['restarts'] = rep.get('restarts', 0) + run.restarts
        rep['maxfail'] = max(rep.get('maxfail', 0), getattr(run, 'maxfail', 0))
        for k, v in run.modelled.items():
            rep['modelled'][k] = rep['modelled'].get(k, 0) + v
        for k, v in run.inlined.items():
            rep['inlined'][k] = rep['inlined'].get(k, 0) + v
        for k, v in run.closed.items():
            rep['closed'][k] = rep['closed'].get(k, 0) + v
    if rep.get('cross_bad'):
        rep['unsupported'].append('cvc5 finds %d formulas satisfiable that z3 reports as unsatisfiable' % rep['cross_bad'])
    rep['used'] = sorted(used)
    rep['wall_s'] = time.time() - t0
    return rep
