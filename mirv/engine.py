"""mirv engine: symbolic execution of monomorphic MIR with cut-point loops.

Values are immutable trees; the only mutable things are Cells (MIR locals and
heap boxes).  Every feasible path of a function is executed (re-execution with
decision prefixes); every decision is discharged by z3.
"""
import hashlib
import json, sys, time, collections, traceback
import z3
import names
import cross

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class Panic(Exception):
    pass


class Done(Exception):
    """The path is finished (closed by a loop cut, or infeasible)."""


class Defer(Exception):
    """Explore the other paths first: they may show more of what a loop changes."""


class Restart(Exception):
    """Loop information was refined; start the function again."""


class Budget(Exception):
    pass


class MergeFail(Exception):
    """The paths of a call cannot be merged; run it inline."""


# ---------------------------------------------------------------- values
class VAgg:
    __slots__ = ('ty', 'var', 'f')

    def __init__(self, ty, var, f):
        self.ty = ty
        self.var = var
        self.f = f

    def __repr__(self):
        return 'Agg(%s#%s %r)' % (self.ty, self.var, list(self.f))


class VSym:
    """An enum value whose variant may still be undetermined."""
    __slots__ = ('ty', 'key', 'tag', 'pay')

    def __init__(self, ty, key, tag):
        self.ty = ty
        self.key = key
        self.tag = tag
        self.pay = {}

    def __repr__(self):
        return 'Sym(%s)' % (self.key,)


class VStr:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'Str%r' % (self.p,)


class VSeq:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'Seq%r' % (self.p,)


class VMap:
    __slots__ = ('base', 'ups', 'kty', 'vty')

    def __init__(self, base, ups, kty, vty):
        self.base = base
        self.ups = ups
        self.kty = kty
        self.vty = vty

    def __repr__(self):
        return 'Map(%s,%r)' % (self.base, self.ups)


class VRef:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __repr__(self):
        return 'Ref(%r%r)' % (self.cell, self.path)


class VBox:
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell


class VFn:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return 'Fn%s' % self.ty


class VIter:
    """kind: ref (slice::Iter) | mut (IterMut) | own (IntoIter) | chars | bytes | charidx"""
    __slots__ = ('kind', 'seq', 'x')

    def __init__(self, kind, seq, x=None):
        self.kind = kind
        self.seq = seq
        self.x = x

    def __repr__(self):
        return 'Iter(%s,%r)' % (self.kind, self.seq)


class VEntry:
    __slots__ = ('ref', 'key')

    def __init__(self, ref, key):
        self.ref = ref
        self.key = key


class VParser:
    """The value of a parser constructor under contract: it behaves as its contract says."""
    __slots__ = ('contract', 'ty')

    def __init__(self, contract, ty):
        self.contract = contract
        self.ty = ty

    def __repr__(self):
        return 'Parser(%s)' % self.contract


class VOpaque:
    __slots__ = ('tag', 'f')

    def __init__(self, tag, f=()):
        self.tag = tag
        self.f = f

    def __repr__(self):
        return 'Opaque(%s)' % (self.tag,)


class _Undef:
    def __repr__(self):
        return 'UNDEF'


RLIMIT = 40000000
UNDEF = _Undef()
MUNINIT = _Undef()     # the contents of a MaybeUninit box: the first write gives the whole value
UNIT = VAgg('unit', 0, ())


class Cell:
    __slots__ = ('v', 'name', 'id')
    _n = 0

    def __init__(self, v, name):
        self.v = v
        self.name = name
        Cell._n += 1
        self.id = Cell._n

    def __repr__(self):
        return 'cell%s' % (self.name,)


class SeqBase:
    """A sequence known only through its length and (lazily) its elements."""
    __slots__ = ('key', 'ety', 'len', 'elems', 'hints')

    def __init__(self, key, ety, ln):
        self.key = key
        self.ety = ety
        self.len = ln
        self.elems = []
        self.hints = None

    def __repr__(self):
        return 'B<%s>' % (self.key,)


def vkey(v, seen=(), ids=True):
    """A hashable key of a value, with what it refers to: equal keys are equal values."""
    if v is None or isinstance(v, (int, bool, str, bytes)):
        return (type(v).__name__, v)
    if z3.is_expr(v):
        if not ids:
            raise MergeFail('symbolic')
        return ('z', v.get_id())
    t = type(v)
    if t is tuple or t is list:
        return tuple(vkey(x, seen, ids) for x in v)
    if t is VAgg:
        return ('agg', v.ty, v.var) + tuple(vkey(x, seen, ids) for x in v.f)
    if t is VSym:
        return ('sym', v.ty, v.key)
    if t in (VStr, VSeq):
        return (t.__name__, vkey(v.p, seen, ids))
    if t is VRef:
        if v.cell.id in seen:
            raise MergeFail('cyclic value')
        return ('ref', v.cell.id if ids else 0, v.path if not v.path else vkey(v.path, seen, ids), vkey(v.cell.v, seen + (v.cell.id,), ids))
    if t is VFn:
        return ('fn', v.ty)
    if t is VIter:
        return ('iter', v.kind, vkey(v.seq, seen, ids), vkey(v.x, seen, ids))
    if t is VParser:
        return ('parser', v.contract, v.ty)
    if t is VOpaque:
        return ('opaque', v.tag, vkey(v.f, seen, ids))
    if t is SeqBase:
        return ('base', v.key)
    if t is _Undef:
        return ('undef', id(v))
    if t is VMap:
        return ('map', vkey(v.base, seen, ids), vkey(v.ups, seen, ids), v.kty, v.vty)
    raise MergeFail('no key for %s' % t.__name__)


# ---------------------------------------------------------------- z3 helpers
FS = z3.DeclareSort('F32')
SS = z3.DeclareSort('Str')
IS = z3.IntSort()
f_neg = z3.Function('fneg', FS, FS)
f_i2f = z3.Function('i2f', IS, FS)
f_dec = z3.Function('dec', SS, SS, IS, SS, FS)   # int digits, frac digits, exp sign (0 none,1 +,-1 -), exp digits
f_digits = z3.Function('digitval', IS, IS, IS)
f_sub = z3.Function('substr', IS, IS, SS)
f_cat = z3.Function('strcat', SS, SS, SS)
f_byte = z3.Function('byte', IS, IS)
f_bound = z3.Function('boundary', IS, z3.BoolSort())
f_char = z3.Function('charat', IS, IS)
f_clen = z3.Function('charlen', IS, IS)
TEXT_N = z3.Int('text_len')


def is_z(x):
    return isinstance(x, z3.ExprRef)


def zsimp(x):
    if not is_z(x):
        return x
    x = z3.simplify(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    if z3.is_int_value(x):
        return x.as_long()
    return x


def zkey(x):
    if is_z(x):
        return ('z', x.sexpr())
    return x


def zand(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def zor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return z3.Or(*out) if len(out) > 1 else out[0]


def znot(x):
    if x is True:
        return False
    if x is False:
        return True
    return z3.Not(x)


def zeq(a, b):
    if not is_z(a) and not is_z(b):
        return a == b
    if is_z(a) and is_z(b) and a.eq(b):
        return True
    return zsimp(a == b)


# ---------------------------------------------------------------- program
class Prog:
    _streaming = None

    def streaming(self):
        if self._streaming is None:
            self._streaming = any('nom::Streaming' in n for n in self.byname)
        return self._streaming

    def __init__(self, path):
        d, self.renamed = names.load(path)
        self.types = d['types']
        self.insts = d['insts']
        self.allocs = d['allocs']
        self.layouts = d['layouts']
        self.roots = d['roots']
        self.items = d['items']
        self.crate = d['crate']
        self.bodies = {}
        self.consts = {}
        self.byname = collections.defaultdict(list)
        for i, f in self.insts.items():
            self.byname[f['name']].append(i)
        self.bydef = collections.defaultdict(list)
        for i, f in self.insts.items():
            self.bydef[f['def']].append(i)
        self.adt_by_name = collections.defaultdict(list)
        for i, t in self.types.items():
            if t['k'] == 'adt':
                self.adt_by_name[t['def']].append(i)
        self.unit = None
        self.str_types = {}
        for i, t in self.types.items():
            if t['k'] == 'tuple' and not t['es']:
                self.unit = i
        self.default_of = {}
        for i, f in self.insts.items():
            if f['path'].endswith('Default>::default') and f.get('body'):
                self.default_of[str(f['body']['locals'][0]['ty'])] = i

    def ty(self, i):
        return self.types[str(i)]

    def is_cow_str(self, t):
        return t['k'] == 'adt' and t['def'].endswith('borrow::Cow') and any(
            'ty' in a and self.ty(a['ty'])['k'] == 'str' for a in t['args'])

    def is_string(self, t):
        return t['k'] == 'adt' and t['def'].endswith('string::String')

    def is_vec(self, t):
        return t['k'] == 'adt' and t['def'].endswith('vec::Vec')

    def is_map(self, t):
        return t['k'] == 'adt' and t['def'].endswith('HashMap')

    def elem_ty(self, t):
        if t['k'] in ('slice', 'array'):
            return str(t['e'])
        return str(t['args'][0]['ty'])

    def body(self, iid):
        b = self.bodies.get(iid)
        if b is None:
            raw = self.insts[iid].get('body')
            if not raw:
                return None
            b = Body(self, iid, raw)
            self.bodies[iid] = b
        return b


class Body:
    def __init__(self, prog, iid, raw):
        self.iid = iid
        self.prog = prog
        self.argc = raw['arg_count']
        self.ltys = [str(l['ty']) for l in raw['locals']]
        self.spread = raw.get('spread')
        self.lines = raw.get('lines')
        self.rawconsts = raw['consts']
        self.cmemo = {}
        self.blocks = []
        for bl in raw['blocks']:
            st = []
            for s in bl['statements']:
                k = s['kind']
                if isinstance(k, dict):
                    if 'Assign' in k:
                        pl, rv = k['Assign']
                        st.append((self.place(pl), self.rvalue(rv, pl)))
                    elif 'SetDiscriminant' in k:
                        st.append(('setdiscr', k['SetDiscriminant']))
            self.blocks.append((st, self.term(bl['terminator']['kind'])))
        self.find_loops()

    def place(self, p):
        pr = []
        for e in p['projection']:
            if e == 'Deref':
                pr.append(('*',))
            else:
                (k, v), = e.items()
                if k == 'Field':
                    pr.append(('f', v[0]))
                elif k == 'Downcast':
                    pr.append(('d', v))
                elif k == 'Index':
                    pr.append(('i', v))
                elif k == 'ConstantIndex':
                    pr.append(('c', v['offset'], v['from_end'], v['min_length']))
                elif k == 'Subslice':
                    pr.append(('s', v['from'], v['to'], v['from_end']))
                else:
                    pr.append(('n',))
        return (p['local'], tuple(pr))

    def place_ty(self, p):
        t = self.ltys[p['local']]
        for e in p['projection']:
            d = self.prog.ty(t)
            if e == 'Deref':
                t = str(d['e']) if 'e' in d else (str(d['args'][0]['ty']) if d['k'] == 'adt' else t)
            else:
                (k, v), = e.items()
                if k == 'Field':
                    t = str(v[1])
                elif k in ('Index', 'ConstantIndex'):
                    t = str(d['e'])
        return t

    def operand(self, o):
        (k, v), = o.items()
        if k == 'Constant':
            return ('k', v['const_'])
        if k in ('Copy', 'Move'):
            return ('p', self.place(v), self.place_ty(v), k == 'Move')
        return ('x', k)

    def oty(self, o):
        (k, v), = o.items()
        if k == 'Constant':
            return str(self.rawconsts[v['const_']]['t'])
        if k in ('Copy', 'Move'):
            return self.place_ty(v)
        return None

    def rvalue(self, rv, pl):
        if isinstance(rv, str):
            return ('bad', rv)
        (k, v), = rv.items()
        if k == 'Use':
            return ('use', self.operand(v[0]))
        if k in ('Ref', 'AddressOf'):
            p = v[2] if k == 'Ref' else v[1]
            mut = not (v[1] == 'Shared' if k == 'Ref' else v[0] == 'Const')
            return ('ref', self.place(p), self.place_ty(p), mut)
        if k == 'Discriminant':
            return ('discr', self.place(v), self.place_ty(v))
        if k == 'Aggregate':
            kind, ops = v
            ops = [self.operand(o) for o in ops]
            if kind == 'Tuple':
                return ('agg', self.place_ty(pl), 0, ops)
            (kk, kv), = kind.items()
            if kk == 'Adt':
                return ('agg', self.place_ty(pl), kv[1], ops)
            if kk == 'Array':
                return ('array', ops)
            if kk == 'Closure':
                return ('agg', self.place_ty(pl), 0, ops)
            if kk == 'RawPtr':
                return ('rawptr', ops)
            return ('bad', kk)
        if k in ('BinaryOp', 'CheckedBinaryOp'):
            return ('chk' if k[0] == 'C' else 'bin', v[0], self.operand(v[1]), self.operand(v[2]), self.oty(v[1]))
        if k == 'UnaryOp':
            return ('un', v[0], self.operand(v[1]), self.oty(v[1]))
        if k == 'Cast':
            ck = v[0] if isinstance(v[0], str) else json.dumps(v[0])
            return ('cast', ck, self.operand(v[1]), self.oty(v[1]), str(v[2]))
        if k == 'Len':
            return ('len', self.place(v))
        if k == 'Repeat':
            return ('repeat', self.operand(v[0]), v[1])
        if k == 'CopyForDeref':
            return ('use', ('p', self.place(v), self.place_ty(v), False))
        return ('bad', k)

    def term(self, t):
        if isinstance(t, str):
            return (t,)
        (k, v), = t.items()
        if k == 'Goto':
            return ('goto', v['target'])
        if k == 'SwitchInt':
            return ('switch', self.operand(v['discr']), [(a, b) for a, b in v['targets']['branches']],
                    v['targets']['otherwise'], self.oty(v['discr']))
        if k == 'Call':
            return ('call', self.operand(v['func']), [self.operand(a) for a in v['args']],
                    self.place(v['destination']), v['target'], self.oty(v['func']),
                    [self.oty(a) for a in v['args']], self.place_ty(v['destination']))
        if k == 'Drop':
            return ('drop', self.place(v['place']), self.place_ty(v['place']), v['target'])
        if k == 'Assert':
            m = v['msg']
            return ('assert', self.operand(v['cond']), v['expected'], m if isinstance(m, str) else next(iter(m)), v['target'])
        return (k,)

    def succs(self, b):
        t = self.blocks[b][1]
        if t[0] == 'goto':
            return [t[1]]
        if t[0] == 'switch':
            return [x for _, x in t[2]] + [t[3]]
        if t[0] == 'call':
            return [] if t[4] is None else [t[4]]
        if t[0] == 'drop':
            return [t[3]]
        if t[0] == 'assert':
            return [t[4]]
        return []

    def find_loops(self):
        n = len(self.blocks)
        color = [0] * n
        self.headers = {}
        backs = []
        st = [(0, iter(self.succs(0)))]
        color[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color[s] == 1:
                    backs.append((b, s))
                elif color[s] == 0:
                    color[s] = 1
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                color[b] = 2
                st.pop()
        if not backs:
            return
        preds = collections.defaultdict(list)
        for b in range(n):
            if color[b]:
                for s in self.succs(b):
                    preds[s].append(b)
        for b, h in backs:
            body = self.headers.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work.extend(preds[x])


class Frame:
    __slots__ = ('key', 'cells', 'body', 'loops')

    def __init__(self, key, n, body):
        self.key = key
        self.cells = [None] * n
        self.body = body
        self.loops = None

    def cell(self, i):
        c = self.cells[i]
        if c is None:
            c = self.cells[i] = Cell(UNDEF, (self.key, i))
        return c


_keys = {}


def intern_key(k):
    """A short name of a place in an execution: the same in every process."""
    r = _keys.get(k)
    if r is None:
        r = _keys[k] = int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=8).digest(), 'big')
    return r


class FT:
    """A fold term of the specification: the value obtained by running `step`
    from (pos0, acc0) over `base` until it stops."""

    def __init__(self, name, base, pos0, acc0, step, fresh, text=False, progress=True):
        self.name = name
        self.base = base
        self.pos = pos0
        self.acc = acc0
        self.step = step
        self.fresh = fresh
        self.text = text
        self.consumed = False
        self.exit = None
        self.out = None
        self.unrolled = 0
        self.pos0 = pos0
        self.acc0 = acc0


class LoopInst:
    __slots__ = ('name', 'header', 'mark', 'writes', 'mode', 'count', 'matched', 'p', 'roles', 'copies', 'frame', 'key', 'entryvals', 'label', 'open')


class Failure:
    def __init__(self, label, kind, info, model=None, loc=None):
        self.label = label
        self.kind = kind
        self.info = info
        self.model = model
        self.loc = loc


class PurePaths:
    def __init__(self):
        self.work = [()]

    def begin(self, prefix):
        self.prefix, self.trace, self.conds = prefix, [], []


class Nest:
    """Paths of one call explored under the same solver state, to be merged by result."""

    def __init__(self, mark):
        self.mark = mark
        self.work = [()]
        self.raw = False
        self.choosing = False
        self.begin(())

    def begin(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.conds = []

    def choose(self, c, conds):
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            if time.time() > c.run.deadline:
                raise Budget('time')
            live = [k for k, x in enumerate(conds) if x is not False]
            feas = []
            for j, k in enumerate(live):
                if j == len(live) - 1 and not feas:
                    feas.append(k)
                    break
                if c.check(conds[k]) != z3.unsat:
                    feas.append(k)
            if not feas:
                raise Done()
            for k in feas[1:]:
                self.work.append(tuple(self.trace) + (k,))
            k = feas[0]
            if len(feas) == 1 and conds[k] is not True:
                # implied here: no condition of the path
                self.trace.append(k)
                c.known(conds[k])
                return k
        self.trace.append(k)
        self.choosing = True
        c.assume(conds[k])
        self.choosing = False
        return k


class Ctx:
    """State of one path."""

    def __init__(self, run, prefix):
        self.run = run
        self.prog = run.prog
        self.prefix = prefix
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set('rlimit', RLIMIT)     # not a timeout: its thread would not survive a fork, and this is repeatable
        self.solver.add(TEXT_N >= 0, TEXT_N < 1 << 63)     # no text is longer than isize::MAX
        self.cache = {}
        self.asserted = {}
        self.taint = None
        self.walked = None
        self.cut = False        # a loop was cut on this path
        self.fresh_n = 0
        self.bases = {}
        self.memo = {}
        self.fts = []
        self.active = []
        self.callstack = []
        self.lits = {}
        self.loc = None
        self.depth = 0
        self.note = None
        self.spans = {}
        self.span_of = {}
        self.facts_done = set()
        self.mode = None
        self.used = run.used
        self.steps = 0
        self.nest = None

    # ---- solver
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Done()
        if self.nest is not None:
            self.nest.conds.append(c)
            if not self.nest.choosing:
                self.nest.raw = True
        else:
            self.solver.add(c)
        self.known(c)

    def known(self, c):
        k = c.get_id()
        self.asserted[k] = (c, True)
        if z3.is_not(c):
            self.asserted[c.arg(0).get_id()] = (c.arg(0), False)

    def axiom(self, key, *cs):
        if key in self.facts_done:
            return
        self.facts_done.add(key)
        for c in cs:
            if c is not True:
                self.solver.add(c)

    def check(self, *cs):
        self.run.stats['queries'] += 1
        t = time.time()
        if self.nest is not None:
            cs = tuple(self.nest.conds) + cs
        r = self.solver.check(*cs)
        self.run.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.run.stats['unknown'] += 1
        elif r == z3.unsat and cross.ON:
            cross.confirm(self.run, list(self.solver.assertions()) + [x for x in cs if x is not True])
        return r

    def lookup(self, c):
        a = self.asserted.get(c.get_id())
        if a is not None:
            return a[1]
        return None

    pure = False
    pure_path = None

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if not is_z(c):
            return bool(c)
        c = zsimp(c)
        if isinstance(c, bool):
            return c
        a = self.lookup(c)
        if a is not None:
            return a
        return self.choose([c, z3.Not(c)]) == 0

    def choose(self, conds):
        conds = [zsimp(c) for c in conds]
        for i, c in enumerate(conds):
            if c is True:
                return i
        if self.pure:
            pp = self.pure_path
            if pp is not None:
                # every path through a predicate
                i = len(pp.trace)
                if i < len(pp.prefix):
                    k = pp.prefix[i]
                else:
                    feas = [k for k, c in enumerate(conds) if c is not False and self.check(c, *pp.conds) != z3.unsat]
                    if not feas:
                        raise Unsupported('a predicate without a path')
                    k = feas[0]
                    for o in feas[1:]:
                        pp.work.append(tuple(pp.trace) + (o,))
                pp.trace.append(k)
                pp.conds.append(conds[k])
                return k
            feas = [k for k, c in enumerate(conds) if c is not False and self.check(c) != z3.unsat]
            if len(feas) != 1:
                raise Unsupported('a step that depends on more of the text')
            return feas[0]
        if self.nest is not None:
            return self.nest.choose(self, conds)
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.trace.append(k)
            self.assume(conds[k])
            return k
        if time.time() > self.run.deadline:
            raise Budget('time')
        if self.run.too_many():
            raise Done()
        live = [k for k, c in enumerate(conds) if c is not False]
        feas = []
        for j, k in enumerate(live):
            if j == len(live) - 1 and not feas:
                feas.append(k)
                break
            if self.check(conds[k]) != z3.unsat:
                feas.append(k)
        if not feas:
            raise Done()
        for k in feas[1:]:
            if self.run.fork(self, tuple(self.trace) + (k,)):
                # the child process takes this alternative
                self.trace.append(k)
                self.assume(conds[k])
                return k
        k = feas[0]
        self.trace.append(k)
        self.assume(conds[k])
        return k

    def provable(self, c):
        """True when the path condition implies c (no obligation, no decision)."""
        c = zsimp(c)
        if isinstance(c, bool):
            return c
        a = self.lookup(c)
        if a is not None:
            return a
        if self.nest is not None:
            return self.check(z3.Not(c)) == z3.unsat
        k = ('pv', c.get_id(), len(self.trace), len(self.facts_done))
        r = self.memo.get(k)
        if r is None:
            r = (self.check(z3.Not(c)) == z3.unsat, c)
            self.memo[k] = r
        return r[0]

    def prove(self, c, label, info=None):
        """A proof obligation."""
        self.run.oblig(label)
        self.reached(label)
        c = zsimp(c)
        if c is True:
            self.run.ok(label)
            return True
        nc = True if c is False else z3.Not(c)
        r = self.check(nc) if nc is not True else self.check()
        if r == z3.unsat:
            self.run.ok(label)
            return True
        self.run.fail(self, label, 'refuted' if r == z3.sat else 'unknown', info, c)
        return False

    def reached(self, label):
        """Note that the obligation is not vacuous: some state satisfies everything assumed here."""
        if label not in self.run.live and self.check() == z3.sat:
            self.run.live.add(label)

    def fresh(self, name, sort=IS):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (name, self.fresh_n), sort)

    def tainted(self, why):
        if self.taint is None:
            self.taint = why

    # ---- symbolic values
    def irange(self, x, t):
        lo, hi = int_range(t)
        self.axiom(('rng', x.get_id(), lo, hi), x >= lo, x <= hi)
        self.memo[('keep', x.get_id())] = x

    def mk_sym(self, tyid, key):
        """Fresh lazily-expanded value of a type, deterministic in key."""
        mk = ('sym', tyid, key)
        v = self.memo.get(mk)
        if v is not None:
            return v
        v = self._mk_sym(tyid, key)
        self.memo[mk] = v
        return v

    def _mk_sym(self, tyid, key):
        tyid = str(tyid)
        t = self.prog.ty(tyid)
        k = t['k']
        if k in ('int', 'uint', 'char'):
            x = z3.Int('i:%s' % (key,))
            self.irange(x, t)
            return x
        if k == 'bool':
            return z3.Bool('b:%s' % (key,))
        if k == 'float':
            return z3.Const('f:%s' % (key,), FS)
        if k == 'str' or self.prog.is_string(t) or self.prog.is_cow_str(t):
            return VStr((('a', key),))
        if k == 'ref':
            e = self.prog.ty(t['e'])
            if e['k'] == 'str':
                return VStr((('a', key),))
            if e['k'] == 'slice':
                return self.seq_base_value('%s' % (key,), str(e['e']))
            c = Cell(self.mk_sym(str(t['e']), key + '.*'), ('sym', key))
            return VRef(c)
        if k == 'tuple':
            return VAgg(tyid, 0, tuple(self.mk_sym(str(e), '%s.%d' % (key, i)) for i, e in enumerate(t['es'])))
        if k == 'adt':
            if self.prog.is_vec(t):
                return self.seq_base_value(key, self.prog.elem_ty(t))
            if self.prog.is_map(t):
                return VMap(key, (), str(t['args'][0]['ty']), str(t['args'][1]['ty']))
            if t['kind'] == 'Struct' and t['krate'] in (self.prog.crate, 'nom'):
                return VAgg(tyid, 0, tuple(self.mk_sym(str(f['t']), '%s.%s' % (key, f['n'])) for f in t['vs'][0]['f']))
            if t['kind'] == 'Enum':
                tag = z3.Int('tag:%s' % (key,))
                self.axiom(('tag', key), tag >= 0, tag < len(t['vs']))
                return VSym(tyid, key, tag)
        raise Unsupported('no symbolic value for type %s' % t['s'])

    def base(self, key, ety, ln=None):
        b = self.bases.get(key)
        if b is None:
            if ln is None:
                ln = z3.Int('len:%s' % (key,))
                self.axiom(('len', key), ln >= 0, ln <= 2**63 - 1)
            b = self.bases[key] = SeqBase(key, str(ety), ln)
        return b

    def seq_base_value(self, key, ety):
        b = self.base(key, ety)
        return VSeq((('s', b, 0, b.len),))

    def elem(self, b, idx):
        idx = zsimp(idx)
        for i, v in b.elems:
            if not is_z(i) and not is_z(idx):
                if i == idx:
                    return v
                continue
            if is_z(i) and is_z(idx) and i.eq(idx):
                return v
        for i, v in b.elems:
            d = zsimp(i - idx)
            if not is_z(d):
                if d == 0:
                    return v
                continue
            if self.provable(d == 0):
                return v
        v = self.mk_sym(b.ety, '%s[%s]' % (b.key, idx.sexpr() if is_z(idx) else idx))
        if isinstance(v, VStr) or is_z(v):
            # equal places hold equal elements
            for i, w in b.elems:
                d = zsimp(i - idx)
                if is_z(d):
                    e = self.veq(v, w)
                    if e is not True:
                        self.assume(z3.Implies(d == 0, e if is_z(e) else z3.BoolVal(e)))
        b.elems.append((idx, v))
        return v

    # ---- enums
    def variant_index(self, tyid, name):
        t = self.prog.ty(tyid)
        for i, v in enumerate(t['vs']):
            if v['n'] == name:
                return i
        raise Unsupported('variant %s of %s' % (name, t['s']))

    def is_variant(self, v, idxs):
        """Condition that enum value v is one of the given variants."""
        if isinstance(v, VAgg):
            return v.var in idxs
        if isinstance(v, VSym):
            return zor(*[v.tag == i for i in idxs])
        raise Unsupported('is_variant of %r' % (v,))

    def as_variant(self, v, var):
        if isinstance(v, VAgg):
            if v.var != var:
                raise Unsupported('field of another variant')
            return v
        if isinstance(v, VSym):
            a = v.pay.get(var)
            if a is None:
                t = self.prog.ty(v.ty)
                vd = t['vs'][var]
                a = VAgg(v.ty, var, tuple(self.mk_sym(str(f['t']), '%s/%s.%s' % (v.key, vd['n'], f['n'])) for f in vd['f']))
                v.pay[var] = a
            return a
        raise Unsupported('as_variant of %r' % (v,))

    # ---- construction by name
    def adt(self, name, pred=None):
        for i in self.prog.adt_by_name.get(name, ()):
            if pred is None or pred(self.prog.ty(i)):
                return i
        raise Unsupported('type %s not found' % name)

    def mk(self, name, variant=None, tyid=None, **kw):
        tyid = tyid or self.adt('%s::%s' % (self.prog.crate, name))
        t = self.prog.ty(tyid)
        if variant is None:
            vi = 0
        else:
            vi = self.variant_index(tyid, variant)
        fs = t['vs'][vi]['f']
        names = [f['n'] for f in fs]
        if set(names) != set(kw):
            raise Unsupported('fields of %s differ: %s' % (name, sorted(set(names) ^ set(kw))))
        return VAgg(tyid, vi, tuple(kw[n] for n in names))

    def mkt(self, tyid, *fs):
        return VAgg(str(tyid), 0, tuple(fs))

    def field(self, v, name):
        t = self.prog.ty(v.ty)
        for i, f in enumerate(t['vs'][v.var]['f']):
            if f['n'] == name:
                return v.f[i]
        raise Unsupported('no field %s in %s' % (name, t['s']))

    def with_fields(self, v, **kw):
        t = self.prog.ty(v.ty)
        fs = list(v.f)
        left = set(kw)
        for i, f in enumerate(t['vs'][v.var]['f']):
            if f['n'] in kw:
                fs[i] = kw[f['n']]
                left.discard(f['n'])
        if left:
            raise Unsupported('no field %s in %s' % (sorted(left), t['s']))
        return VAgg(v.ty, v.var, tuple(fs))

    def some(self, x, tyid):
        return VAgg(str(tyid), 1, (x,))

    def none(self, tyid):
        return VAgg(str(tyid), 0, ())

    # ---- cells
    def load(self, cell, path):
        v = cell.v
        for e in path:
            k = e[0]
            if k == 'f':
                if isinstance(v, VAgg):
                    v = v.f[e[1]]
                elif isinstance(v, VBox):
                    pass
                elif v is UNDEF:
                    raise Unsupported('read of a place the loop contract does not describe')
                else:
                    v = self.special_field(v, e[1])
            elif k == 'd':
                if not isinstance(v, (VAgg, VSym)):
                    raise Unsupported('downcast of %r' % (v,))
                v = self.as_variant(v, e[1])
            elif k == 'i':
                v = self.seq_get(v, e[1])
            elif k == 'k':
                v = self.map_get(v, e[1])
                if v is None:
                    raise Unsupported('dangling map entry')
            elif k == 'n':
                pass
            else:
                raise Unsupported('load %r' % (e,))
        return v

    def special_field(self, v, i):
        if isinstance(v, VRef) or isinstance(v, VFn):
            return v
        raise Unsupported('field %d of %r' % (i, v))

    def store(self, cell, path, x):
        if self.nest is not None and cell.id < self.nest.mark:
            raise MergeFail('writes outside the call')
        if self.active:
            cid = cell.id
            for L in self.active:
                if cid < L.mark:
                    n = 0
                    for e in path:
                        if e[0] != 'f':
                            break
                        n += 1
                    pp = path[:n]
                    kk = (cell, pp)
                    if kk not in L.writes:
                        try:
                            L.writes[kk] = self.load(cell, pp)
                        except Unsupported:
                            L.writes[kk] = UNDEF
        if not path:
            cell.v = x
        else:
            cell.v = self.update(cell.v, path, 0, x)

    def update(self, v, path, n, x):
        if n == len(path):
            return x
        e = path[n]
        k = e[0]
        if k == 'f':
            if v is MUNINIT and all(x[0] == 'f' for x in path[n:]):
                return x
            if v is UNDEF or v is MUNINIT:
                raise Unsupported('partial initialisation')
            if isinstance(v, VAgg):
                i = e[1]
                return VAgg(v.ty, v.var, v.f[:i] + (self.update(v.f[i], path, n + 1, x),) + v.f[i + 1:])
            raise Unsupported('update field of %r' % (v,))
        if k == 'd':
            v = self.as_variant(v, e[1])
            return self.update(v, path, n + 1, x)
        if k == 'i':
            old = self.seq_get(v, e[1]) if n + 1 < len(path) else None
            return self.seq_set(v, e[1], self.update(old, path, n + 1, x))
        if k == 'k':
            old = self.map_get(v, e[1]) if n + 1 < len(path) else None
            return self.map_put(v, e[1], self.update(old, path, n + 1, x))
        if k == 'n':
            return self.update(v, path, n + 1, x)
        raise Unsupported('store %r' % (e,))

    # ---- sequences
    def plen(self, p):
        return len(p[1]) if p[0] == 'i' else zsimp(p[3] - p[2])

    def seq_len(self, s):
        if not isinstance(s, VSeq):
            raise Unsupported('len of %r' % (s,))
        n = 0
        for p in s.p:
            n = n + self.plen(p)
        return zsimp(n)

    def seq_norm(self, ps):
        out = []
        for p in ps:
            if p[0] == 'i':
                if not p[1]:
                    continue
                if out and out[-1][0] == 'i':
                    out[-1] = ('i', out[-1][1] + p[1])
                    continue
            else:
                if zeq(p[2], p[3]) is True and len(ps) > 1:
                    continue
                if out and out[-1][0] == 's' and out[-1][1] is p[1] and zeq(out[-1][3], p[2]) is True:
                    out[-1] = ('s', p[1], out[-1][2], p[3])
                    continue
            out.append(p)
        return VSeq(tuple(out))

    def seq_items(self, *xs):
        return VSeq((('i', tuple(xs)),)) if xs else VSeq(())

    def seq_cat(self, a, b):
        return self.seq_norm(a.p + b.p)

    def seq_push(self, s, x):
        return self.seq_norm(s.p + (('i', (x,)),))

    def seq_get(self, s, i):
        """Element i; the caller has established i < len."""
        if not isinstance(s, VSeq):
            raise Unsupported('index of %r' % (s,))
        off = 0
        for n, p in enumerate(s.p):
            ln = self.plen(p)
            last = n == len(s.p) - 1
            if last or self.branch(i < off + ln if (is_z(i) or is_z(off) or is_z(ln)) else i < off + ln):
                if p[0] == 's':
                    return self.elem(p[1], zsimp(p[2] + (i - off)))
                j = zsimp(i - off)
                if is_z(j):
                    for q in range(len(p[1])):
                        if q == len(p[1]) - 1 or self.branch(j == q):
                            return p[1][q]
                return p[1][j]
            off = zsimp(off + ln)
        raise Unsupported('index out of a sequence')

    def seq_slice(self, s, a, b):
        """s[a..b]; bounds already established."""
        out = []
        off = 0
        for n, p in enumerate(s.p):
            ln = self.plen(p)
            end = zsimp(off + ln)
            # overlap of [off,end) with [a,b)
            lo, hi = 0, ln
            if not self.le(a, off):
                if self.le(end, a):
                    if n == len(s.p) - 1 and p[0] == 's' and not out:
                        out.append(('s', p[1], p[3], p[3]))
                    off = end
                    continue
                lo = zsimp(a - off)
            if not self.le(end, b):
                if self.le(b, off):
                    if p[0] == 's' and not out and n == 0:
                        out.append(('s', p[1], p[2], p[2]))
                    off = end
                    continue
                hi = zsimp(b - off)
            if p[0] == 's':
                out.append(('s', p[1], zsimp(p[2] + lo), zsimp(p[2] + hi)))
            else:
                if is_z(lo) or is_z(hi):
                    raise Unsupported('symbolic cut through known items')
                out.append(('i', p[1][lo:hi]))
            off = end
        if len(out) == 1:
            return VSeq(tuple(out))
        return self.seq_norm(tuple(out))

    def le(self, a, b):
        if not is_z(a) and not is_z(b):
            return a <= b
        return self.branch(a <= b)

    def seq_set(self, s, i, x):
        n = self.seq_len(s)
        a = self.seq_slice(s, 0, i)
        b = self.seq_slice(s, zsimp(i + 1), n)
        return self.seq_norm(a.p + (('i', (x,)),) + b.p)

    # ---- maps
    def map_get(self, m, key):
        if not isinstance(m, VMap):
            raise Unsupported('map_get of %r' % (m,))
        for k, v in reversed(m.ups):
            if self.branch(self.veq(k, key)):
                return v
        if m.base is None:
            return None
        if self.nest is not None:
            raise MergeFail('map access')
        kt = self.str_term(key)
        pk = ('mapget', m.base, kt.get_id())
        r = self.memo.get(pk)
        if r is None:
            # an equal key already asked about?
            for k2, (kt2, pr2, v2) in list(self.memo.get(('mapkeys', m.base), {}).items()):
                if self.provable(kt == kt2):
                    r = (kt, pr2, v2)
                    break
            if r is None:
                nm = '%s{%s}' % (m.base, kt.sexpr())
                r = (kt, z3.Bool('in:' + nm), self.mk_sym(m.vty, nm))
            self.memo[pk] = r
            d = dict(self.memo.get(('mapkeys', m.base), {}))
            d[kt.get_id()] = r
            self.memo[('mapkeys', m.base)] = d
        if self.branch(r[1]):
            return r[2]
        return None

    def map_put(self, m, key, v):
        ups = []
        for k, w in m.ups:
            if self.provable(self.veq(k, key)):
                continue
            ups.append((k, w))
        return VMap(m.base, tuple(ups) + ((key, v),), m.kty, m.vty)

    # ---- strings
    def lit(self, b):
        if isinstance(b, str):
            b = b.encode()
        return VStr((('l', bytes(b)),) if b else ())

    def str_cat(self, *ss):
        out = []
        for s in ss:
            for p in s.p:
                if p[0] == 'l' and out and out[-1][0] == 'l':
                    out[-1] = ('l', out[-1][1] + p[1])
                elif p[0] == 't' and out and out[-1][0] == 't' and zeq(out[-1][3], p[2]) is True:
                    out[-1] = ('t', p[1], out[-1][2], p[3])
                elif p[0] == 't' and zeq(p[2], p[3]) is True:
                    continue
                else:
                    out.append(p)
        return VStr(tuple(out))

    def str_len(self, s):
        n = 0
        for p in s.p:
            if p[0] == 'l':
                n += len(p[1])
            elif p[0] == 't':
                n = n + (p[3] - p[2])
            else:
                x = z3.Int('slen:%s' % (repr(p),))
                self.axiom(('slen', repr(p)), x >= 0)
                n = n + x
        return zsimp(n)

    def piece_term(self, p):
        if p[0] == 'l':
            c = self.lits.get(p[1])
            if c is None:
                c = z3.Const('lit:%s' % p[1].decode('utf8', 'replace'), SS)
                for o in self.lits.values():
                    self.solver.add(c != o)
                self.lits[p[1]] = c
            return c
        if p[0] == 't':
            return f_sub(p[2], p[3])
        if p[0] == 'a':
            return z3.Const('s:%s' % (p[1],), SS)
        if p[0] == 'x':
            return p[1]
        raise Unsupported('string piece %r' % (p,))

    def str_term(self, s):
        if not isinstance(s, VStr):
            raise Unsupported('not a string: %r' % (s,))
        if not s.p:
            return self.piece_term(('l', b''))
        t = self.piece_term(s.p[0])
        for p in s.p[1:]:
            t = f_cat(t, self.piece_term(p))
        return t

    def tbyte(self, i):
        b = f_byte(i)
        self.axiom(('byte', b.get_id()), b >= 0, b <= 255)
        self.memo[('keepb', b.get_id())] = b
        return b

    def str_eq(self, a, b):
        if a.p == b.p:
            return True
        if not a.p or all(p[0] == 'l' for p in a.p):
            if not b.p or all(p[0] == 'l' for p in b.p):
                return b''.join(p[1] for p in a.p) == b''.join(p[1] for p in b.p)
            a, b = b, a
        if not b.p or all(p[0] == 'l' for p in b.p):
            lit = b''.join(p[1] for p in b.p)
            if len(a.p) == 1 and a.p[0][0] == 't':
                return self.span_is(a.p[0], lit, False)
            if len(a.p) == 1 and a.p[0][0] == 'lo':
                return self.span_is(a.p[0][1], lit, True) if lit == lit.lower() else False
            if len(a.p) == 1 and a.p[0][0] == 'cs':
                return self.cased_eq(a.p[0], lit)
            if not lit:
                return zsimp(self.str_len(a) == 0)
        if any(p[0] in ('lo', 'cs') for p in a.p + b.p):
            raise Unsupported('comparison of lowercased text')
        if len(a.p) == len(b.p):
            cs = []
            for p, q in zip(a.p, b.p):
                if p[0] == 't' and q[0] == 't':
                    cs.append(zand(zeq(p[2], q[2]), zeq(p[3], q[3])))
                else:
                    cs.append(True if p == q else False)
            c = zand(*cs)
            if c is True:
                return True
        return zsimp(self.str_term(a) == self.str_term(b))

    def cased_eq(self, p, lit):
        """An opaque text mapped to one case equals the literal.  Outside ASCII, only U+212A
        lowercases to ASCII text (k), and only characters that uppercase to I, S, F, L, T do so
        upwards (dotless i, long s, sharp s, the ligatures)."""
        _, inner, up, ascii_only = p
        if lit != (lit.upper() if up else lit.lower()):
            return False
        if not ascii_only and any(x in lit for x in (b'ISFLT' if up else b'k')):
            raise Unsupported('comparison of a case-mapped text with %r' % lit)
        import models
        return models.eic(self, VStr(inner), VStr((('l', lit),)))

    def span_is(self, p, lit, nocase):
        """Text span equals the literal (ASCII case-insensitively)."""
        ln = zsimp(p[3] - p[2])
        if not is_z(ln) and ln != len(lit):
            return False
        cs = [zeq(ln, len(lit))]
        for i, ch in enumerate(lit):
            b = self.tbyte(zsimp(p[2] + i))
            cs.append(self.byte_is(b, ch, nocase))
        return zand(*cs)

    def byte_is(self, b, ch, nocase):
        if nocase:
            c = chr(ch)
            if c.isalpha() and ch < 128:
                return z3.Or(b == ord(c.lower()), b == ord(c.upper()))
        return b == ch

    def span(self, setkey, k):
        """First position >= k whose character is not in the set (or the end)."""
        ascii_in, non = setkey
        mk = ('span', setkey, zkey(k))
        r = self.spans.get(mk)
        if r is not None:
            return r
        fn = self.run.span_fn(setkey)
        k = k if is_z(k) else z3.IntVal(k)
        p = fn(k)
        self.spans[mk] = p
        self.solver.add(p >= k, p <= TEXT_N, z3.Implies(f_bound(k), f_bound(p)))
        for k2, p2 in self.span_of.setdefault(setkey, []):
            # a position inside a run ends at the end of that run
            self.solver.add(z3.Implies(z3.And(k2 <= k, k <= p2), p == p2), z3.Implies(z3.And(k <= k2, k2 <= p), p == p2))
        self.span_of[setkey].append((k, p))
        self.solver.add(z3.Implies(p < TEXT_N, z3.Not(self.in_set(setkey, p))))
        self.solver.add(z3.Implies(z3.And(k < TEXT_N, self.in_set(setkey, k)), p > k))
        self.solver.add(z3.Implies(p > k, self.in_set(setkey, k)))
        self.solver.add(f_bound(TEXT_N), f_bound(0))
        return p

    def in_set(self, setkey, k):
        ascii_in, non = setkey
        b = self.tbyte(k)
        rs = []
        lo = None
        prev = None
        for c in sorted(ascii_in):
            if lo is None:
                lo = prev = c
            elif c == prev + 1:
                prev = c
            else:
                rs.append((lo, prev))
                lo = prev = c
        if lo is not None:
            rs.append((lo, prev))
        cs = [b == a if a == z else z3.And(b >= a, b <= z) for a, z in rs]
        if isinstance(non, tuple):
            few = []
            for cp in non[1]:
                u = chr(cp).encode('utf8', 'surrogatepass')
                k0 = k if is_z(k) else z3.IntVal(k)
                few.append(z3.And(k0 + len(u) <= TEXT_N, *[self.tbyte(zsimp(k0 + i)) == x for i, x in enumerate(u)]))
            few = z3.Or(*few) if few else z3.BoolVal(False)
            cs.append(few if non[0] == 'only' else z3.And(b >= 128, z3.Not(few)))
        elif non:
            cs.append(b >= 128)
        return zor(*cs) if cs else z3.BoolVal(False)

    # ---- equality
    code_eq = False         # equality as the code computes it: floats by value, and exact or not at all

    def veq(self, a, b):
        """A condition under which the two values are equal (exact where it can be)."""
        if a is b:
            return True
        if isinstance(a, (int, bool)) or is_z(a):
            if isinstance(b, (int, bool)) or is_z(b):
                if is_z(a) and is_z(b) and a.sort() != b.sort():
                    raise Unsupported('comparing different sorts')
                if self.code_eq and is_z(a) and a.sort() == FS:
                    import interp
                    return interp.fop(self, 'Eq', a, b)
                return zeq(a, b)
            raise Unsupported('eq %r %r' % (a, b))
        if isinstance(a, VStr) and isinstance(b, VStr):
            return self.str_eq(a, b)
        if isinstance(a, VAgg) and isinstance(b, VAgg):
            if a.var != b.var or len(a.f) != len(b.f):
                return False
            return zand(*[self.veq(x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, VSym) and isinstance(b, VSym):
            if a.key == b.key and not self.code_eq:
                return True
        if isinstance(a, VSym) or isinstance(b, VSym):
            if isinstance(b, VSym) and not isinstance(a, VSym):
                a, b = b, a
            t = self.prog.ty(a.ty)
            if isinstance(b, VAgg):
                c = a.tag == b.var
                if not b.f:
                    return zsimp(c)
                return zand(c, self.veq(self.as_variant(a, b.var), b))
            if isinstance(b, VSym):
                cs = [a.tag == b.tag]
                for i, vd in enumerate(t['vs']):
                    if vd['f']:
                        e = self.veq(self.as_variant(a, i), self.as_variant(b, i))
                        if e is not True:
                            cs.append(z3.Implies(a.tag == i, e if is_z(e) else z3.BoolVal(e)))
                return zand(*cs)
        if isinstance(a, VSeq) and isinstance(b, VSeq):
            return self.seq_eq(a, b)
        if isinstance(a, VMap) and isinstance(b, VMap):
            return self.map_eq(a, b)
        if isinstance(a, VRef) and isinstance(b, VRef):
            if a.cell is b.cell and a.path == b.path:
                return True
            return self.veq(self.load(a.cell, a.path), self.load(b.cell, b.path))
        if isinstance(a, VIter) and isinstance(b, VIter):
            if a.kind != b.kind:
                return False
            return self.veq(a.seq, b.seq)
        if isinstance(a, VOpaque) and isinstance(b, VOpaque):
            if a.tag == b.tag and len(a.f) == len(b.f):
                return zand(*[self.veq(x, y) for x, y in zip(a.f, b.f)])
            return False
        if isinstance(a, VFn) and isinstance(b, VFn):
            return a.ty == b.ty
        if isinstance(a, VParser) and isinstance(b, VParser):
            return a.contract == b.contract
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparing an undefined value')
        raise Unsupported('veq %r %r' % (type(a).__name__, type(b).__name__))

    def seq_eq(self, a, b):
        cs = []
        pa, pb = list(a.p), list(b.p)
        # drop provably empty pieces
        pa = [p for p in pa if not self.provable(self.plen(p) == 0)]
        pb = [p for p in pb if not self.provable(self.plen(p) == 0)]
        while pa and pb:
            x, y = pa[0], pb[0]
            if x[0] == 'i' and y[0] == 'i':
                n = min(len(x[1]), len(y[1]))
                for i in range(n):
                    cs.append(self.veq(x[1][i], y[1][i]))
                pa[0] = ('i', x[1][n:])
                pb[0] = ('i', y[1][n:])
                if not pa[0][1]:
                    pa.pop(0)
                if not pb[0][1]:
                    pb.pop(0)
                continue
            if x[0] == 's' and y[0] == 's':
                if self.code_eq and not (x[1].key == y[1].key and self.provable(zand(zeq(x[2], y[2]), zeq(x[3], y[3])))):
                    raise Unsupported('equality of two lists')
                if x[1] is y[1] or x[1].key == y[1].key:
                    cs.append(zeq(x[2], y[2]))
                    if self.provable(zeq(x[3], y[3])):
                        pa.pop(0)
                        pb.pop(0)
                        continue
                    # one may be a prefix of the other
                    if self.provable(x[3] <= y[3]):
                        pa.pop(0)
                        pb[0] = ('s', y[1], x[3], y[3])
                        continue
                    if self.provable(y[3] <= x[3]):
                        pb.pop(0)
                        pa[0] = ('s', x[1], y[3], x[3])
                        continue
                    cs.append(zeq(x[3], y[3]))
                    pa.pop(0)
                    pb.pop(0)
                    continue
                # different bases: equal only if both empty (sufficient)
                cs.append(zsimp(self.plen(x) == 0))
                cs.append(zsimp(self.plen(y) == 0))
                pa.pop(0)
                pb.pop(0)
                continue
            # one known item against a slice
            swap = x[0] == 's'
            s, it = (x, y) if swap else (y, x)
            if not self.provable(self.plen(s) > 0):
                if not self.code_eq:
                    return False
                cs.append(zsimp(self.plen(s) > 0))
            cs.append(self.veq(self.elem(s[1], s[2]), it[1][0]))
            ns = ('s', s[1], zsimp(s[2] + 1), s[3])
            ni = ('i', it[1][1:])
            if swap:
                pa[0] = ns
                pb[0] = ni
            else:
                pb[0] = ns
                pa[0] = ni
            if not ni[1]:
                (pb if swap else pa).pop(0)
            if self.provable(self.plen(ns) == 0):
                (pa if swap else pb).pop(0)
        for p in pa + pb:
            cs.append(zsimp(self.plen(p) == 0) if p[0] == 's' else False)
        return zand(*cs)

    def map_eq(self, a, b):
        if self.code_eq:
            raise Unsupported('equality of maps')
        if a.base != b.base:
            return False
        cs = []
        keys = []
        for k, _ in a.ups + b.ups:
            if not any(self.provable(self.veq(k, o)) for o in keys):
                keys.append(k)
        for k in keys:
            x = self.map_get(a, k)
            y = self.map_get(b, k)
            if x is None or y is None:
                if x is not y:
                    return False
                continue
            cs.append(self.veq(x, y))
        return zand(*cs)


def int_range(t):
    k = t['k']
    if k == 'char':
        return 0, 0x10FFFF
    if k == 'bool':
        return 0, 1
    n = t['bits']
    if k == 'uint':
        return 0, (1 << n) - 1
    return -(1 << (n - 1)), (1 << (n - 1)) - 1
