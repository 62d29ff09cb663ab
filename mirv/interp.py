"""The MIR interpreter, call dispatch and the cut-point loop machinery."""
import time, json, collections, traceback, os, sys, pickle, select, mmap
import z3
from engine import *
from engine import _Undef
import engine
import hints
import models

UNROLL = 400        # visits of an unrolled loop header on one path
UNROLL_OPEN = 5    # the same for a loop over the input that no fold of the contract describes
MAXFAIL = 120       # failed obligations of one function after which the rest is not explored


QUIET = 'unparsed remainder is reported'     # known finding: no countermodel wanted


class Run:
    """Verification of one function: all paths, all obligations."""

    def __init__(self, prog, name, contracts, deadline):
        self.prog = prog
        self.name = name
        self.contracts = contracts
        self.deadline = deadline
        self.stats = collections.Counter()
        self.stats['solver_s'] = 0.0
        self.work = []
        self.obl = collections.OrderedDict()
        self.failures = []
        self.live = set()
        self.unsupported = []
        self.loopmemo = {}
        self.used = set()
        self.inlined = collections.Counter()
        self.modelled = collections.Counter()
        self.span_fns = {}
        self.spec_sets = set()
        self.paths = 0
        self.restarts = 0
        self.closed = collections.Counter()
        self.pred_memo = {}
        self.no_contract = set()
        self.inlining = set()
        self.forking = True
        self.nomerge = {}
        self.nesting = 0
        self.child = None
        self.token = False
        self.kids = []
        self.deferred = []
        self.nodefer = False
        self.nfail = mmap.mmap(-1, 8)     # shared by the processes of this run

    def too_many(self):
        return int.from_bytes(self.nfail[:8], 'little') > MAXFAIL

    def span_fn(self, setkey):
        f = self.span_fns.get(setkey)
        if f is None:
            nm = 'span{%s%s}' % (''.join('%02x' % c for c in sorted(setkey[0])), '%s%s' % (setkey[1][0], ','.join('%x' % c for c in setkey[1][1])) if isinstance(setkey[1], tuple) else '+' if setkey[1] else '')
            f = self.span_fns[setkey] = z3.Function(nm, IS, IS)
        return f

    def oblig(self, label):
        o = self.obl.setdefault(label, [0, 0, 0])
        o[0] += 1

    def ok(self, label):
        self.obl[label][1] += 1

    def fail(self, ctx, label, kind, info, cond):
        self.obl.setdefault(label, [0, 0, 0])[2] += 1
        model = hint = None
        try:
            if kind == 'refuted' and not label.endswith(QUIET) and len(self.failures) < 2:
                m = ctx.solver.model()
                model = {str(d): str(m[d]) for d in m.decls()[:400]}
                hint = hints.extract(ctx, m)
        except z3.Z3Exception:
            pass
        if ctx.taint is not None and not (kind == 'refuted' and float_counterexample(ctx, cond)):
            kind = 'undecided'
        if ctx.walked is not None:
            # what the walk went past is not known any more
            kind = 'undecided'
        if not label.endswith(QUIET):
            self.nfail[:8] = (int.from_bytes(self.nfail[:8], 'little') + 1).to_bytes(8, 'little')
        self.failures.append(dict(label=label, kind=kind, exact=kind == 'refuted' and not ctx.cut, info=info or '', taint=ctx.taint, loc=ctx.loc,
                                  cond=str(cond)[:2000], model=model, note=ctx.note, hint=hint))

    # ---- exploration: one process per branch where there is room, otherwise by re-execution
    MAXFORK = 400

    def fork(self, ctx, prefix):
        """Explore an alternative. Returns True in the process that has to take it."""
        if self.nesting >= self.MAXFORK or not self.forking:
            self.work.append(prefix)
            return False
        token = take_token()
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for k in self.kids:
                os.close(k[1])
            if self.child is not None:
                os.close(self.child)
            self.child, self.token, self.kids = w, token or self.token, []
            self.nesting += 1
            self.reset()
            self.paths = 1
            return True
        os.close(w)
        if token:
            self.kids.append((pid, r, token))
        else:
            # it runs in our place
            self.token = False
            self.join(pid, r, token)
            wait_token(self.deadline)
            self.token = True
        return False

    def reset(self):
        self.work = []
        self.deferred = []
        self.obl = collections.OrderedDict()
        self.failures = []
        self.unsupported = []
        self.paths = 0
        self.stats = collections.Counter()
        self.stats['solver_s'] = 0.0
        self.inlined = collections.Counter()
        self.modelled = collections.Counter()
        self.closed = collections.Counter()

    def join(self, pid, r, token):
        data = b''
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        try:
            d = pickle.loads(data)
        except Exception:
            self.unsupported.append('a worker process was lost')
            return
        for k, v in d['memo'].items():
            m = self.loopmemo.setdefault(k, {})
            for nm, roles in v.items():
                m.setdefault(nm, set()).update(roles)
        self.stats.update(d['stats'])
        if d['restart']:
            self.drop_kids()
            raise Restart()
        for k, v in d['obl'].items():
            o = self.obl.setdefault(k, [0, 0, 0])
            for i in range(3):
                o[i] += v[i]
        self.failures += d['failures']
        self.live |= d['live']
        self.unsupported += d['unsupported']
        self.deferred += d['deferred']
        self.used |= d['used']
        self.paths += d['paths']
        self.inlined.update(d['inlined'])
        self.modelled.update(d['modelled'])
        self.closed.update(d['closed'])

    def drop_kids(self):
        if self.token:
            give_token()
            self.token = False
        for pid, r, token in self.kids:
            while os.read(r, 1 << 20):
                pass
            os.close(r)
            os.waitpid(pid, 0)
        self.kids = []

    def report(self, restart):
        d = dict(restart=restart, memo=self.loopmemo, stats=dict(self.stats), obl=dict(self.obl), failures=self.failures,
                 unsupported=self.unsupported, deferred=self.deferred, used=self.used, paths=self.paths, live=self.live,
                 inlined=dict(self.inlined), modelled=dict(self.modelled), closed=dict(self.closed))
        if self.token:
            give_token()
            self.token = False
        b = pickle.dumps(d)
        n = 0
        while n < len(b):
            n += os.write(self.child, b[n:])
        os._exit(0)

    def explore(self, thunk, max_paths=20000):
        """thunk(ctx) executes one path, recording obligations."""
        root = os.getpid()
        while True:
            self.reset()
            self.work = [()]
            self.nodefer = False
            try:
                while True:
                    if not self.token:
                        wait_token(self.deadline)
                        self.token = True
                    while self.work:
                        if self.paths >= max_paths or time.time() > self.deadline:
                            self.unsupported.append('budget: %d paths explored, %d pending' % (self.paths, len(self.work)))
                            self.work = []
                            break
                        if len(self.unsupported) > 40 or self.too_many():
                            self.work = []
                            break
                        self.one(thunk, self.work.pop())
                    if self.token:
                        # only waiting from here on
                        give_token()
                        self.token = False
                    while self.kids:
                        self.join(*self.kids.pop(0))
                    if self.child is None and self.deferred and self.too_many():
                        self.unsupported.append('stopped after %d failures with loops left to look at' % MAXFAIL)
                    elif self.child is None and self.deferred:
                        self.work, self.deferred = self.deferred, []
                        self.nodefer = True
                        continue
                    break
                if os.getpid() != root:
                    self.report(False)
                return
            except Restart:
                self.drop_kids()
                if os.getpid() != root:
                    self.report(True)
                self.restarts += 1
                self.maxfail = max(getattr(self, 'maxfail', 0), int.from_bytes(self.nfail[:8], 'little'))
                self.nfail[:8] = bytes(8)
                if self.restarts > 150:
                    self.unsupported.append('loop contract refinement did not converge')
                    return
            except BaseException:
                if self.token:
                    give_token()
                if os.getpid() != root:
                    if os.environ.get('MIRV_DEBUG'):
                        traceback.print_exc()
                    os._exit(1)
                raise

    def one(self, thunk, pf):
        ctx = Ctx(self, pf)
        ctx.it = Interp(ctx)
        self.paths += 1
        try:
            thunk(ctx)
            self.closed['return'] += 1
        except Done:
            self.closed['closed'] += 1
        except Defer:
            self.deferred.append(tuple(ctx.trace))
        except Unsupported as e:
            self.unsupported.append('%s [%s]' % (e, ctx.loc))
        except Budget as e:
            self.unsupported.append('budget %s [%s]' % (e, ctx.loc))
        except (AttributeError, TypeError, KeyError, IndexError, z3.Z3Exception, RecursionError, AssertionError) as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.unsupported.append('%s: %s at %s:%s [%s]' % (type(e).__name__, e, tb[-1].name, tb[-1].lineno, ctx.loc))


# One token per process that may run beside the others (shared by every process of a check).
_tokens = None


def make_tokens(n):
    global _tokens
    _tokens = os.pipe()
    os.set_blocking(_tokens[0], False)
    os.write(_tokens[1], b'.' * n)


def take_token():
    if _tokens is None:
        return False
    try:
        return len(os.read(_tokens[0], 1)) == 1
    except BlockingIOError:
        return False


def wait_token(deadline):
    while _tokens is not None and not take_token():
        if time.time() > deadline:
            break
        select.select([_tokens[0]], [], [], 5)


def give_token():
    if _tokens is not None:
        os.write(_tokens[1], b'.')


CTORS = {'std::prelude::v1::Some': ('std::option::Option', 1), 'std::prelude::v1::Ok': ('std::result::Result', 0),
         'std::prelude::v1::Err': ('std::result::Result', 1)}


COUNTERS = {'inc', 'dec', 'steps', 'backsteps'}


class Interp:
    def __init__(self, ctx):
        self.c = ctx
        self.prog = ctx.prog

    # ------------------------------------------------------------ constants
    def const(self, body, cid):
        v = body.cmemo.get(cid)
        if v is not None:
            return v
        k = body.rawconsts[cid]
        v = self.decode_const(str(k['t']), k['c'])
        body.cmemo[cid] = v
        return v

    def decode_const(self, tyid, c):
        t = self.prog.ty(tyid)
        if c['k'] == 'zst':
            return self.zst(tyid)
        if c['k'] == 'alloc':
            return self.decode_mem(tyid, c['mem'], 0)
        if c['k'] == 'tyconst':
            if c.get('v') is not None:
                return c['v']
        raise Unsupported('constant %s' % c.get('dbg', c['k']))

    def zst(self, tyid):
        t = self.prog.ty(tyid)
        k = t['k']
        if k == 'fndef':
            return VFn(tyid)
        if k == 'tuple':
            return VAgg(tyid, 0, tuple(self.zst(str(e)) for e in t['es']))
        if k == 'closure':
            return VAgg(tyid, 0, ())
        if k == 'array':
            return VSeq(())
        if k == 'adt':
            if t['kind'] == 'Struct':
                return VAgg(tyid, 0, tuple(self.zst(str(f['t'])) for f in t['vs'][0]['f']))
            if t['kind'] == 'Enum' and len(t['vs']) == 1 and not t['vs'][0]['f']:
                return VAgg(tyid, 0, ())
        raise Unsupported('zst of %s' % t['s'])

    def rd(self, mem, off, n):
        b = mem['b'][off:off + n]
        if any(x is None for x in b) or len(b) < n:
            raise Unsupported('uninitialised constant bytes')
        return int.from_bytes(bytes(b), 'little')

    def size_of(self, tyid):
        t = self.prog.ty(tyid)
        k = t['k']
        if k in ('int', 'uint'):
            return t['bits'] // 8
        if k == 'bool':
            return 1
        if k == 'char':
            return 4
        if k == 'float':
            return 4 if '32' in t['f'] else 8
        if k in ('ref', 'ptr'):
            e = self.prog.ty(t['e'])
            return 16 if e['k'] in ('str', 'slice', 'dyn') else 8
        lay = self.prog.layouts.get(str(tyid))
        if lay:
            return lay['size']['num_bits'] // 8
        raise Unsupported('layout of %s' % t['s'])

    def decode_mem(self, tyid, mem, off):
        tyid = str(tyid)
        t = self.prog.ty(tyid)
        k = t['k']
        if k in ('int', 'uint'):
            n = t['bits'] // 8
            x = self.rd(mem, off, n)
            if k == 'int' and x >= 1 << (8 * n - 1):
                x -= 1 << (8 * n)
            return x
        if k == 'bool':
            return bool(self.rd(mem, off, 1))
        if k == 'char':
            return self.rd(mem, off, 4)
        if k == 'float':
            return fconst(self.rd(mem, off, self.size_of(tyid)))
        if k in ('ref', 'ptr'):
            e = self.prog.ty(t['e'])
            prov = [p for o, p in mem['p'] if o == off]
            if not prov:
                raise Unsupported('constant pointer without provenance')
            a = self.prog.allocs[prov[0]]
            if a['k'] not in ('mem', 'static') or 'mem' not in a:
                return VOpaque('ptr-' + a['k'])
            add = self.rd(mem, off, 8)
            if e['k'] == 'str':
                n = self.rd(mem, off + 8, 8)
                bs = bytes(a['mem']['b'][add:add + n])
                return VStr((('l', bs),) if bs else ())
            if e['k'] == 'slice':
                n = self.rd(mem, off + 8, 8)
                sz = self.size_of(str(e['e']))
                return VSeq((('i', tuple(self.decode_mem(e['e'], a['mem'], add + i * sz) for i in range(n))),) if n else ())
            return VRef(Cell(self.decode_mem(t['e'], a['mem'], add), ('const', prov[0], add)))
        if k == 'array':
            sz = self.size_of(str(t['e'])) if t['n'] else 0
            return VSeq((('i', tuple(self.decode_mem(t['e'], mem, off + i * sz) for i in range(t['n']))),) if t['n'] else ())
        if k in ('fndef', 'closure') and self.size_of(tyid) == 0:
            return self.zst(tyid)
        lay = self.prog.layouts.get(tyid)
        if lay is None:
            raise Unsupported('layout of %s' % t['s'])
        if k == 'tuple':
            offs = lay['fields']['Arbitrary']['offsets'] if t['es'] else []
            return VAgg(tyid, 0, tuple(self.decode_mem(e, mem, off + o['num_bits'] // 8) for e, o in zip(t['es'], offs)))
        if k == 'adt':
            vi = 0
            if self.prog.is_string(t) or self.prog.is_vec(t):
                # only the empty value exists as a constant
                return VStr(()) if self.prog.is_string(t) else VSeq(())
            vs = lay['variants']
            if isinstance(vs, dict) and 'Multiple' in vs:
                m = vs['Multiple']
                tagoff = lay['fields']['Arbitrary']['offsets'][m['tag_field']]['num_bits'] // 8
                tg = m['tag']
                tg = tg.get('Initialized', tg)
                val = tg['value']
                if 'Int' in val:
                    n = {'I8': 1, 'I16': 2, 'I32': 4, 'I64': 8, 'I128': 16}[val['Int']['length']]
                    raw = self.rd(mem, off + tagoff, n)
                else:
                    n = 8
                    prov = [p for o, p in mem['p'] if o == off + tagoff]
                    raw = (1 << 40) if prov else self.rd(mem, off + tagoff, n)
                enc = m['tag_encoding']
                if enc == 'Direct':
                    bits = 8 * n
                    vi = None
                    for i, v in enumerate(t['vs']):
                        if (int(v['d']) & ((1 << bits) - 1)) == raw:
                            vi = i
                    if vi is None:
                        raise Unsupported('tag of constant')
                else:
                    ni = enc['Niche']
                    start = int(ni['niche_start'])
                    lo = ni['niche_variants']['start']
                    hi = ni['niche_variants']['end']
                    rel = (raw - start) & ((1 << (8 * n)) - 1)
                    vi = lo + rel if rel <= hi - lo else ni['untagged_variant']
                offs = m['variants'][vi]['offsets']
            elif isinstance(vs, dict) and 'Single' in vs:
                s = vs['Single']
                vi = s['index'] if isinstance(s, dict) else 0
                offs = lay['fields']['Arbitrary']['offsets'] if 'Arbitrary' in lay['fields'] else []
            else:
                raise Unsupported('layout variants')
            fs = tuple(self.decode_mem(f['t'], mem, off + o['num_bits'] // 8) for f, o in zip(t['vs'][vi]['f'], offs))
            if self.prog.is_cow_str(t):
                return fs[0]
            return VAgg(tyid, vi, fs)
        raise Unsupported('constant of type %s' % t['s'])

    # ------------------------------------------------------------ places
    def resolve(self, fr, pl):
        cell = fr.cell(pl[0])
        path = ()
        for e in pl[1]:
            k = e[0]
            if k == '*':
                v = self.c.load(cell, path)
                if type(v) is VRef:
                    cell, path = v.cell, v.path
                elif type(v) is VBox:
                    cell, path = v.cell, ()
                elif type(v) in (VStr, VSeq):
                    cell, path = Cell(v, ('tmp',)), ()
                elif v is UNDEF:
                    raise Unsupported('deref of a place the loop contract does not describe')
                else:
                    raise Unsupported('deref of %r' % (v,))
            elif k == 'i':
                i = fr.cell(e[1]).v
                path = path + (('i', i),)
            elif k == 'c':
                if e[2]:
                    n = self.c.seq_len(self.c.load(cell, path))
                    path = path + (('i', zsimp(n - e[1])),)
                else:
                    path = path + (('i', e[1]),)
            elif k == 's':
                s = self.c.load(cell, path)
                n = self.c.seq_len(s)
                cell, path = Cell(self.c.seq_slice(s, e[1], zsimp(n - e[2]) if e[3] else e[2]), ('tmp',)), ()
            else:
                path = path + (e,)
        return cell, path

    def read(self, fr, pl):
        if not pl[1]:
            return fr.cell(pl[0]).v
        cell, path = self.resolve(fr, pl)
        return self.c.load(cell, path)

    def write(self, fr, pl, v):
        if not pl[1]:
            self.c.store(fr.cell(pl[0]), (), v)
            return
        cell, path = self.resolve(fr, pl)
        # first write into an uninitialised aggregate, field by field
        self.c.store(cell, path, v)

    def operand(self, fr, o):
        if o[0] == 'p':
            return self.read(fr, o[1])
        if o[0] == 'k':
            return self.const(fr.body, o[1])
        raise Unsupported('operand %r' % (o,))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, rv):
        k = rv[0]
        c = self.c
        if k == 'use':
            return self.operand(fr, rv[1])
        if k == 'ref':
            pl, ty, mut = rv[1], rv[2], rv[3]
            t = self.prog.ty(ty)
            if t['k'] in ('str', 'slice'):
                cell, path = self.resolve(fr, pl)
                if mut:
                    return VRef(cell, path)
                return c.load(cell, path)
            if t['k'] == 'adt' and False:
                pass
            cell, path = self.resolve(fr, pl)
            return VRef(cell, path)
        if k == 'discr':
            return self.discr(self.read(fr, rv[1]), rv[2])
        if k == 'agg':
            t = self.prog.ty(rv[1])
            fs = tuple(self.operand(fr, o) for o in rv[3])
            if t['k'] == 'adt' and self.prog.is_cow_str(t):
                if isinstance(fs[0], VStr):
                    return fs[0]
                raise Unsupported('Cow of %r' % (fs[0],))
            return VAgg(rv[1], rv[2], fs)
        if k == 'array':
            return c.seq_items(*[self.operand(fr, o) for o in rv[1]])
        if k == 'bin':
            return self.binop(rv[1], self.operand(fr, rv[2]), self.operand(fr, rv[3]), rv[4])
        if k == 'chk':
            a, b = self.operand(fr, rv[2]), self.operand(fr, rv[3])
            r = self.arith(rv[1], a, b)
            lo, hi = int_range(self.prog.ty(rv[4]))
            if not is_z(r):
                ov = not (lo <= r <= hi)
            else:
                ov = z3.Or(r < lo, r > hi)
            return VAgg('chk', 0, (r, ov))
        if k == 'un':
            a = self.operand(fr, rv[2])
            if rv[1] == 'Not':
                t = self.prog.ty(rv[3])
                if t['k'] == 'bool':
                    return znot(a)
                raise Unsupported('bitwise not')
            if rv[1] == 'Neg':
                t = self.prog.ty(rv[3])
                if t['k'] == 'float':
                    return fneg(a)
                return zsimp(-a)
            if rv[1] == 'PtrMetadata':
                if isinstance(a, VSeq):
                    return c.seq_len(a)
                if isinstance(a, VStr):
                    return c.str_len(a)
                if isinstance(a, VRef):
                    v = c.load(a.cell, a.path)
                    if isinstance(v, VSeq):
                        return c.seq_len(v)
            raise Unsupported('unary %s' % rv[1])
        if k == 'cast':
            return self.cast(rv[1], self.operand(fr, rv[2]), rv[3], rv[4])
        if k == 'len':
            return c.seq_len(self.read(fr, rv[1]))
        if k == 'repeat':
            raise Unsupported('repeat')
        raise Unsupported('rvalue %r' % (rv,))

    def discr(self, v, tyid):
        if isinstance(v, VAgg):
            t = self.prog.ty(v.ty) if v.ty not in ('chk', 'unit') else None
            d = t['vs'][v.var]['d'] if t and t['k'] == 'adt' else None
            return int(d) if d is not None else v.var
        if isinstance(v, VSym):
            t = self.prog.ty(v.ty)
            ds = [int(x['d']) for x in t['vs']]
            if ds == list(range(len(ds))):
                return v.tag
            e = z3.IntVal(ds[-1])
            for i in range(len(ds) - 2, -1, -1):
                e = z3.If(v.tag == i, z3.IntVal(ds[i]), e)
            return e
        raise Unsupported('discriminant of %r' % (v,))

    def arith(self, op, a, b):
        if op == 'Add':
            return zsimp(a + b)
        if op == 'Sub':
            return zsimp(a - b)
        if op == 'Mul':
            return zsimp(a * b)
        raise Unsupported('checked %s' % op)

    def binop(self, op, a, b, tyid):
        t = self.prog.ty(tyid)
        k = t['k']
        c = self.c
        if a is UNDEF or b is UNDEF:
            raise Unsupported('operation on a place the loop contract does not describe')
        if k == 'float':
            return fop(c, op, a, b)
        if op in ('Eq', 'Ne'):
            if k in ('int', 'uint', 'char', 'bool') or isinstance(a, int):
                if isinstance(a, bool) and is_z(b):
                    a, b = b, a
                if is_z(a) and isinstance(b, bool) and z3.is_bool(a):
                    r = a if b else z3.Not(a)
                else:
                    r = zeq(a, b)
            elif k == 'ptr':
                raise Unsupported('pointer comparison')
            else:
                r = c.veq(a, b)
            return r if op == 'Eq' else znot(r)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if k not in ('int', 'uint', 'char'):
                raise Unsupported('%s on %s' % (op, t['s']))
            return zsimp({'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[op]())
        if op == 'Cmp':
            raise Unsupported('three-way comparison')
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if k == 'bool':
                if op == 'BitAnd':
                    return zand(a, b)
                if op == 'BitOr':
                    return zor(a, b)
                return znot(zeq(a, b)) if not is_z(a) and not is_z(b) else zsimp(z3.Xor(zb(a), zb(b)))
            if not is_z(a) and not is_z(b):
                return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
            if op == 'BitAnd' and not is_z(b) and b >= 0 and (b & (b + 1)) == 0:
                return zsimp(a % (b + 1))
            if t.get('s') not in models.INTS:
                raise Unsupported('bit operation on symbolic integers')
            return models.bits(t['s'], lambda x, y: {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op], a, b)
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = self.arith(op.replace('Unchecked', ''), a, b)
            lo, hi = int_range(t)
            if not is_z(r):
                if lo <= r <= hi:
                    return r
                return (r - lo) % (hi - lo + 1) + lo
            if c.provable(z3.And(r >= lo, r <= hi)):
                return r
            return zsimp((r - lo) % (hi - lo + 1) + lo)
        if op in ('Div', 'Rem'):
            if not is_z(a) and not is_z(b) and b != 0:
                q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
                return q if op == 'Div' else a - q * b
            if k == 'uint' and not is_z(b) and b > 0:
                return zsimp(a / b) if op == 'Div' else zsimp(a % b)
            if k == 'int' and not is_z(b) and b != 0:
                # rounds towards zero; the overflow of MIN / -1 is an obligation of its own
                m = z3.IntVal(abs(b))
                q = z3.If(a >= 0, a / m, -(-a / m))
                return zsimp(q if b > 0 else -q) if op == 'Div' else zsimp(z3.If(a >= 0, a % m, -(-a % m)))
        if op in ('Shl', 'Shr') and not is_z(b):
            lo, hi = int_range(t)
            b = b % (hi - lo + 1).bit_length() if b >= 0 else b
            if not is_z(a):
                r = a << b if op == 'Shl' else a >> b
                return (r - lo) % (hi - lo + 1) + lo
            if b >= 0:
                m = z3.IntVal(1 << b)
                return zsimp(a / m) if op == 'Shr' else zsimp((a * m - lo) % (hi - lo + 1) + lo)
        raise Unsupported('binary %s on %s' % (op, t['s']))

    def cast(self, kind, v, fty, tty):
        c = self.c
        f, t = self.prog.ty(fty), self.prog.ty(tty)
        if kind == 'IntToInt':
            if f['k'] == 'bool':
                return int(v) if isinstance(v, bool) else z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if f['k'] == 'adt':
                raise Unsupported('enum cast')
            lo, hi = int_range(t)
            flo, fhi = int_range(f)
            if lo <= flo and fhi <= hi:
                return v
            m = hi - lo + 1
            if not is_z(v):
                return (v - lo) % m + lo
            if c.provable(z3.And(v >= lo, v <= hi)):
                return v
            return wrap_int(v, lo, hi)
        if kind == 'IntToFloat':
            if t['s'] != 'f32':
                raise Unsupported('cast to %s' % t['s'])
            if is_z(v):
                # the float nearest to the number that digits stand for is what the digits are read as
                d = v.arg(1) if v.decl().kind() == z3.Z3_OP_MUL and str(v.arg(0)) == '-1' else v
                if d.decl().name() == 'digitval':
                    r = f_dec(c.str_term(VStr((('t', 'text', d.arg(0), d.arg(1)),))), c.piece_term(('l', b'')), z3.IntVal(0), c.piece_term(('l', b'')))
                    return r if d is v else i2f(0) if c.branch(zeq(d, 0)) else fneg(r)
            return i2f(v)
        if kind == 'FloatToInt' and f['s'] == 'f32' and not arithmetic(v):
            lo, hi = int_range(t)
            b = fbits(v)
            if b is not None:
                x = ffloat(b)
                return 0 if x != x else lo if x <= lo else hi if x >= hi else int(x)
            x = fval(c, v)
            n = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            return zsimp(z3.If(n < lo, z3.IntVal(lo), z3.If(n > hi, z3.IntVal(hi), n)))
        if kind in ('PtrToPtr', 'BoxDerefTransmute'):
            if isinstance(v, VBox):
                return VRef(v.cell)
            return v
        if 'PointerCoercion' in kind:
            if 'Unsize' in kind:
                e = self.prog.ty(t['e']) if 'e' in t else None
                if e is not None and e['k'] == 'slice' and isinstance(v, VRef):
                    if t['mut'] == 'Mut':
                        return v
                    return c.load(v.cell, v.path)
                return v
            return v
        if kind == 'Transmute':
            if f['k'] == t['k'] and f['k'] in ('ref', 'ptr'):
                return v
            if f['k'] in ('ref', 'ptr') and t['k'] in ('ref', 'ptr'):
                return v
            if isinstance(v, (VRef, VSeq, VStr)):
                return v
        raise Unsupported('cast %s %s -> %s' % (kind, f['s'][:60], t['s'][:60]))

    # ------------------------------------------------------------ execution
    def call_fn(self, iid, args, key):
        """Run the body of an instance."""
        c = self.c
        body = self.prog.body(iid)
        if body is None:
            raise Unsupported('no body: %s' % self.prog.insts[iid]['name'][:150])
        c.depth += 1
        if c.depth > 400:
            raise Unsupported('recursion')
        fr = Frame(key, len(body.ltys), body)
        if body.spread is not None:
            # rust-call: the last argument is passed as a tuple local
            n = body.spread
            lead = args[:n - 1]
            rest = args[n - 1:]
            for i, a in enumerate(lead):
                fr.cell(i + 1).v = a
            fr.cell(n).v = VAgg(body.ltys[n], 0, tuple(rest))
        else:
            if len(args) != body.argc:
                raise Unsupported('argument count of %s' % self.prog.insts[iid]['name'][:100])
            for i, a in enumerate(args):
                fr.cell(i + 1).v = a
        nact = len(c.active)
        try:
            return self.exec(fr, body, iid)
        finally:
            c.depth -= 1
            del c.active[nact:]

    def exec(self, fr, body, iid):
        c = self.c
        bb = 0
        prev = -1
        blocks = body.blocks
        local = self.prog.insts[iid]['krate'] == self.prog.crate
        while True:
            if bb in body.headers:
                self.arrive(fr, body, bb, prev in body.headers[bb] and fr.loops is not None and bb in fr.loops)
            st, term = blocks[bb]
            for s in st:
                if s[0] == 'setdiscr':
                    raise Unsupported('set discriminant')
                self.write(fr, s[0], self.rvalue(fr, s[1]))
            c.steps += len(st) + 1
            k = term[0]
            prev = bb
            if k == 'goto':
                bb = term[1]
            elif k == 'switch':
                v = self.operand(fr, term[1])
                bb = self.switch(v, term[2], term[3], term[4])
            elif k == 'call':
                if local:
                    c.loc = (self.prog.insts[iid]['def'], body.lines[bb])
                if c.steps > 4000000 or time.time() > c.run.deadline:
                    raise Budget('steps')
                args = [self.operand(fr, a) for a in term[2]]
                key = intern_key((fr.key, iid, bb))
                fn = self.operand(fr, term[1])
                r = self.call(fn, args, key, term[6], term[7])
                if term[4] is None:
                    raise Panic('diverging call returned')
                self.write(fr, term[3], r)
                bb = term[4]
            elif k == 'drop':
                bb = term[3]
            elif k == 'assert':
                v = self.operand(fr, term[1])
                if isinstance(v, bool):
                    good = v == term[2]
                else:
                    good = c.branch(v if term[2] else z3.Not(v))
                if not good:
                    if local:
                        c.loc = (self.prog.insts[iid]['def'], body.lines[bb])
                    raise Panic('assertion %s' % term[3])
                bb = term[4]
            elif k == 'Return':
                return fr.cell(0).v if fr.cell(0).v is not UNDEF or not self.is_unit(body.ltys[0]) else UNIT
            elif k == 'Unreachable':
                raise Panic('unreachable code reached')
            else:
                raise Unsupported('terminator %s' % k)

    def is_unit(self, t):
        t = self.prog.ty(t)
        return t['k'] == 'tuple' and not t['es']

    def switch(self, v, branches, other, tyid):
        c = self.c
        if v is UNDEF:
            raise Unsupported('branch on a place the loop contract does not describe')
        if not is_z(v):
            iv = int(v)
            for a, b in branches:
                if a == iv:
                    return b
            return other
        if z3.is_bool(v):
            tt = other
            ff = other
            for a, b in branches:
                if a == 0:
                    ff = b
                else:
                    tt = b
            if len(branches) == 1:
                if branches[0][0] == 0:
                    tt = other
                else:
                    ff = other
            return tt if c.branch(v) else ff
        groups = collections.OrderedDict()
        t = self.prog.ty(tyid)
        for a, b in branches:
            if t['k'] == 'int' and a >= 1 << (t['bits'] - 1):
                a -= 1 << t['bits']
            groups.setdefault(b, []).append(a)
        tgts = list(groups)
        conds = []
        for b in tgts:
            conds.append(zor(*[v == a for a in groups[b]]))
        allv = [a for b in tgts for a in groups[b]]
        conds.append(zand(*[v != a for a in allv]))
        tgts.append(other)
        return tgts[c.choose(conds)]

    # ------------------------------------------------------------ calls
    def call(self, fn, args, key, argtys=None, retty=None):
        if isinstance(fn, VFn):
            t = self.prog.ty(fn.ty)
            iid = t.get('inst')
            if iid is None or iid not in self.prog.insts:
                raise Unsupported('unresolved %s' % t['def'])
            return self.call_inst(iid, args, key, argtys, retty)
        raise Unsupported('call of %r' % (fn,))

    def call_value(self, f, args, key):
        """Call a closure / function value with unpacked arguments."""
        c = self.c
        if isinstance(f, VRef):
            f2 = c.load(f.cell, f.path)
        else:
            f2 = f
            f = VRef(Cell(f, ('clo', key)))
        if isinstance(f2, VFn):
            t = self.prog.ty(f2.ty)
            iid = t.get('inst')
            return self.call_inst(iid, list(args), key, None, None)
        if isinstance(f2, VAgg):
            t = self.prog.ty(f2.ty)
            if t['k'] == 'closure':
                iid = self.closure_body(f2.ty)
                body = self.prog.body(iid)
                self_t = self.prog.ty(body.ltys[1])
                selfarg = f if self_t['k'] == 'ref' else f2
                return self.call_closure_body(iid, selfarg, list(args), key)
        if isinstance(f2, VRef):
            return self.call_value(f2, args, key)
        if isinstance(f2, VBox):
            return self.call_value(VRef(f2.cell), args, key)
        if isinstance(f2, VParser):
            ps = self.c.run.contracts.procs.get(f2.contract)
            if ps:
                return self.c.run.contracts.apply_parser(self, f2, args[0], self.prog.body(ps[0]).ltys[0])
        raise Unsupported('call of value %r' % (f2,))

    def call_closure_body(self, iid, selfarg, args, key):
        body = self.prog.body(iid)
        if body.spread is None and body.argc == 2 and len(args) != 1:
            t = self.prog.ty(body.ltys[2])
            if t['k'] == 'tuple' and len(t['es']) == len(args):
                args = [VAgg(body.ltys[2], 0, tuple(args))]
        self.c.run.inlined[self.prog.insts[iid]['def']] += 1
        if self.prog.insts[iid]['krate'] == self.prog.crate:
            return self.call_merged(iid, [selfarg] + args, key)
        return self.call_fn(iid, [selfarg] + args, key)

    def closure_body(self, tyid):
        t = self.prog.ty(tyid)
        memo = self.prog.__dict__.setdefault('closure_memo', {})
        r = memo.get(tyid)
        if r is None:
            for i in self.prog.bydef.get(t['def'], ()):
                b = self.prog.insts[i].get('body')
                if not b or not self.prog.insts[i]['closure']:
                    continue
                lt = str(b['locals'][1]['ty'])
                lt2 = self.prog.ty(lt)
                if lt == str(tyid) or (lt2['k'] == 'ref' and str(lt2['e']) == str(tyid)):
                    r = i
                    break
            if r is None:
                raise Unsupported('no body for closure %s' % t['def'])
            memo[tyid] = r
        return r

    def call_inst(self, iid, args, key, argtys=None, retty=None):
        c = self.c
        f = self.prog.insts[iid]
        if f['empty_shim']:
            return UNIT
        # a parser under contract
        if args and f['path'].endswith('::process'):
            p = args[0]
            if isinstance(p, VRef):
                pv = c.load(p.cell, p.path)
                if isinstance(pv, VParser):
                    return c.run.contracts.apply_parser(self, pv, args[1], str(f['body']['locals'][0]['ty']) if f.get('body') else retty)
        r = c.run.contracts.apply_call(self, iid, f, args, retty)
        if r is not None:
            return r
        # closure-call shims
        d = f['def']
        if 'ops::FnOnce::call_once' in d or 'ops::FnMut::call_mut' in d or 'ops::Fn::call' in d or \
           'ops::function::Fn' in d:
            tup = args[1]
            if not isinstance(tup, VAgg):
                raise Unsupported('closure arguments')
            return self.call_value(args[0], list(tup.f), key)
        if f['closure'] and f.get('body'):
            body = self.prog.body(iid)
            if body.spread is None and len(args) == 2 and isinstance(args[1], VAgg) and body.argc != 2:
                args = [args[0]] + list(args[1].f)
            elif len(args) == 2 and isinstance(args[1], VAgg) and body.argc == 2:
                # untuple a one-element argument pack
                pt = self.prog.ty(body.ltys[2])
                at = self.prog.ty(args[1].ty) if args[1].ty in self.prog.types else None
                if at and at['k'] == 'tuple' and len(at['es']) == 1 and not (
                        pt['k'] == 'tuple' and len(pt['es']) == 1 and str(argtys[1] if argtys else '') == body.ltys[2]):
                    args = [args[0], args[1].f[0]]
            # by-value self passed to a by-ref body
            st = self.prog.ty(body.ltys[1])
            if st['k'] == 'ref' and isinstance(args[0], VAgg):
                args = [VRef(Cell(args[0], ('clo', key)))] + list(args[1:])
            c.run.inlined[f['def']] += 1
            return self.call_merged(iid, args, key) if f['krate'] == self.prog.crate else self.call_fn(iid, args, key)
        m = models.find(f)
        if m is not None:
            c.run.modelled[f['path']] += 1
            return m(self, f, args, key, retty if retty is not None else (str(f['body']['locals'][0]['ty']) if f.get('body') else None))
        if f['path'] in CTORS and not f.get('body'):
            adt, var = CTORS[f['path']]
            want = [str(x['ty']) for x in f['args'] if 'ty' in x]
            for i in self.prog.adt_by_name.get(adt, ()):
                if [str(x['ty']) for x in self.prog.ty(i)['args'] if 'ty' in x] == want:
                    return VAgg(i, var, tuple(args))
        if f['stopped'] or not f.get('body'):
            raise Unsupported('external function %s' % f['name'][:160])
        if f['krate'] not in models.INLINE_CRATES and f['krate'] != self.prog.crate:
            raise Unsupported('external crate function %s' % f['name'][:160])
        if f['krate'] in ('core', 'alloc', 'std') and not models.may_inline(f):
            raise Unsupported('unmodelled library function %s' % f['path'][:160])
        c.run.inlined[f['def']] += 1
        if f['krate'] == self.prog.crate:
            return self.call_merged(iid, args, key)
        return self.call_fn(iid, args, key)

    def call_merged(self, iid, args, key):
        """A loop-free local function: its paths with the same result are one path for the caller."""
        c = self.c
        run = c.run
        body = self.prog.body(iid)
        if c.nest is not None or c.pure or body is None or body.headers or run.nomerge.get(iid, 0) > 2:
            return self.call_fn(iid, args, key)
        saved = (dict(c.asserted), c.loc, c.taint, c.note, c.depth, len(c.active), c.steps)
        Cell._n += 1
        n = Nest(Cell._n)
        groups = collections.OrderedDict()
        c.nest = n
        ok = False
        many = 0
        try:
            while n.work:
                many += 1
                if many > 60:
                    raise MergeFail('many paths')
                n.begin(n.work.pop())
                c.asserted = dict(saved[0])
                c.depth = saved[4]
                try:
                    r = self.call_fn(iid, args, key)
                    gk = ('ok', vkey(r))
                    val = ('ok', r)
                except Done:
                    continue
                except Panic as e:
                    gk = val = ('panic', str(e))
                if c.taint is not saved[2]:
                    raise MergeFail('taint')
                groups.setdefault(gk, (val, []))[1].append(zand(*n.conds))
            ok = True
        except (MergeFail, Unsupported):
            run.nomerge[iid] = run.nomerge.get(iid, 0) + 1
        finally:
            c.nest = None
            c.asserted, c.loc, c.taint, c.note, c.depth = saved[0], saved[1], saved[2], saved[3], saved[4]
            del c.active[saved[5]:]
        if not ok:
            return self.call_fn(iid, args, key)
        gs = list(groups.values())
        if not gs:
            raise Done()
        conds = [zor(*g[1]) for g in gs]
        if not n.raw and len(gs) > 1:
            # exhaustive: the longest condition is what the others leave
            i = max(range(len(gs)), key=lambda j: len(gs[j][1]))
            conds[i] = zand(*[znot(x) for j, x in enumerate(conds) if j != i])
        if len(gs) == 1:
            if n.raw:
                c.assume(conds[0])
            val = gs[0][0]
        else:
            val = gs[c.choose(conds)][0]
        if val[0] == 'panic':
            raise Panic(val[1])
        return val[1]

    def call_fn_or_unsup(self, f, args, key):
        for i, g in self.prog.insts.items():
            if g is f and f.get('body'):
                return self.call_fn(i, args, key)
        raise Unsupported('unmodelled library function %s' % f['path'][:160])

    # ------------------------------------------------------------ loops
    def arrive(self, fr, body, header, back):
        c = self.c
        if c.nest is not None and any(not ft.consumed for ft in c.fts):
            raise MergeFail('loop')
        if fr.loops is None:
            fr.loops = {}
        if not back:
            L = LoopInst()
            L.frame = fr
            L.header = header
            L.key = (fr.key, body.iid, header)
            L.count = 0
            L.open = False
            L.mode = 'unroll'
            L.writes = {}
            L.matched = []
            L.roles = {}
            L.copies = {}
            L.name = self.prog.insts[body.iid]['def']
            fr.loops[header] = L
            self.loop_enter(L)
            Cell._n += 1
            L.mark = Cell._n
            c.active.append(L)
        else:
            self.loop_back(fr.loops[header])

    def py_loop_enter(self, key, cells):
        """Loop head of a loop inside a library model (state in the given cells)."""
        c = self.c
        if c.nest is not None:
            raise MergeFail('loop')
        L = LoopInst()
        fr = Frame(key, len(cells), None)
        fr.cells = list(cells)
        L.frame = fr
        L.header = 0
        L.key = (key, 'py', 0)
        L.count = 0
        L.open = False
        L.mode = 'unroll'
        L.writes = {}
        L.matched = []
        L.roles = {}
        L.copies = {}
        L.name = 'iterator'
        self.loop_enter(L)
        Cell._n += 1
        L.mark = Cell._n
        c.active.append(L)
        return L

    def place_val(self, pl):
        return self.c.load(pl[0], pl[1])

    def find_pos(self, v, ft, depth=0):
        """Does value v contain the fold's sequence starting exactly at ft.pos?"""
        if depth > 4:
            return False
        if isinstance(v, VSeq):
            for p in v.p:
                if p[0] == 's' and not ft.text and p[1] is ft.base and self.same(p[2], ft.pos):
                    return True
            return False
        if isinstance(v, VStr):
            return ft.text and len(v.p) == 1 and v.p[0][0] == 't' and self.same(v.p[0][2], ft.pos)
        if isinstance(v, VIter):
            return self.find_pos(v.seq, ft, depth + 1)
        if isinstance(v, VAgg):
            return any(self.find_pos(x, ft, depth + 1) for x in v.f)
        return False

    def same(self, a, b):
        e = zeq(a, b)
        if isinstance(e, bool):
            return e
        return self.c.provable(e)

    def subst_pos(self, v, ft, pos, new):
        if isinstance(v, VSeq):
            return VSeq(tuple(('s', p[1], new, p[3]) if p[0] == 's' and p[1] is ft.base and self.same(p[2], pos) else p for p in v.p))
        if isinstance(v, VStr):
            if len(v.p) == 1 and v.p[0][0] == 't' and self.same(v.p[0][2], pos):
                return VStr((('t', v.p[0][1], new, v.p[0][3]),))
            return v
        if isinstance(v, VIter):
            return VIter(v.kind, self.subst_pos(v.seq, ft, pos, new), v.x)
        if isinstance(v, VAgg):
            return VAgg(v.ty, v.var, tuple(self.subst_pos(x, ft, pos, new) for x in v.f))
        return v

    def mentions_base(self, v, ft, depth=0):
        if depth > 4:
            return False
        if isinstance(v, VSeq):
            return any(p[0] == 's' and not ft.text and p[1] is ft.base for p in v.p)
        if isinstance(v, VStr):
            return ft.text and any(p[0] == 't' for p in v.p)
        if isinstance(v, VIter):
            return self.mentions_base(v.seq, ft, depth + 1)
        if isinstance(v, VAgg):
            return any(self.mentions_base(x, ft, depth + 1) for x in v.f)
        if isinstance(v, VRef):
            try:
                return self.mentions_base(self.c.load(v.cell, v.path), ft, depth + 1)
            except Unsupported:
                return False
        return False

    def loop_enter(self, L):
        c = self.c
        cands = [ft for ft in c.fts if not ft.consumed]
        fr = L.frame
        if ('walk', L.key) in c.run.loopmemo:
            w = self.walk(fr, cands)
            if w is not None:
                cands = [w]
        if not cands:
            return
        memo = c.run.loopmemo.get(L.key)
        if memo is None:
            vals = [x.v for x in fr.cells if x is not None]
            if any(self.mentions_base(v, ft) for ft in cands for v in vals):
                L.mode = 'discover'
            return
        # places written by an iteration (found in earlier runs), and the aggregates they are part of
        for nm in list(memo):
            for k in range(len(nm[1])):
                memo.setdefault((nm[0], nm[1][:k]), {'part', 'pos', 'int', 'copy'} | COUNTERS)
        places = {}
        for nm, role in memo.items():
            pl = self.name_to_place(L, nm)
            if pl is not None:
                places[nm] = (pl, role)
        vals = {}
        for nm, (pl, role) in places.items():
            try:
                vals[nm] = self.place_val(pl)
            except Unsupported:
                vals[nm] = UNDEF
        matched = []
        pos_at = None
        taken = set()
        for ft in reversed(cands):
            held = any(x is not None and self.mentions_base(x.v, ft) for x in fr.cells)
            m = self.match_ft(ft, vals, memo, taken, pos_at, held)
            if m is None and ft.unrolled < 1 and not matched and any(self.mentions_base(v, ft) for v in vals.values()):
                # the first element handled before the loop: unroll the specification once
                out = ft.step(c, ft.pos, ft.acc)
                if out[0] == 'next':
                    ft2pos, ft2acc = ft.pos, ft.acc
                    ft.pos, ft.acc = out[1], out[2]
                    ft.unrolled += 1
                    m = self.match_ft(ft, vals, memo, taken, pos_at)
                    if m is None:
                        ft.pos, ft.acc = ft2pos, ft2acc
                        ft.unrolled -= 1
                else:
                    pass
            if m is not None:
                matched.append((ft, m))
                taken |= set(m)
                pos_at = ft
        if not matched:
            if any(self.mentions_base(v, ft) for ft in cands for v in list(vals.values()) + [x.v for x in fr.cells if x is not None]):
                L.mode = 'discover'
            return
        L.mode = 'cut'
        c.cut = True
        L.label = matched[0][0].name
        if L.label == 'walk':
            c.walked = L.name
        ft0 = matched[0][0]
        p = c.fresh('pos')
        end = TEXT_N if ft0.text else ft0.base.len
        c.assume(z3.And(p >= ft0.pos, p <= end))
        if ft0.text:
            c.assume(f_bound(p))
        L.p = p
        L.matched = matched
        L.entryvals = vals
        oldpos = ft0.pos
        havoc = []
        accs = {}
        for ft, names in matched:
            A = ft.fresh(c)
            ft.consumed = True
            ft.pos, ft.acc = p, A
            for nm in names:
                accs[nm] = (ft, A)
        for nm, (pl, role) in sorted(places.items(), key=lambda kv: repr(kv[0])):
            v = vals[nm]
            r = 'undef'
            new = UNDEF
            if 'part' in memo[nm] and nm not in accs:
                continue
            if any(nm[0] == a[0] and len(a[1]) < len(nm[1]) and nm[1][:len(a[1])] == a[1] for a in accs):
                continue
            if nm in accs:
                r = 'acc'
                new = accs[nm][1]
            elif 'pos' not in memo[nm] and v is not UNDEF and self.find_pos_at(v, ft0, oldpos):
                r = 'pos'
                new = self.subst_pos(v, ft0, oldpos, p)
            elif 'int' not in memo[nm] and isinstance(v, int) and not isinstance(v, bool) and self.same(v, oldpos):
                r = 'int'
                new = p
            elif 'copy' not in memo[nm] and isinstance(v, VSeq) and not ft0.text and not self.mentions_base(v, ft0):
                r = 'copy'
                L.copies[nm] = v
                new = c.seq_norm(v.p + (('s', ft0.base, oldpos, p),))
            elif not COUNTERS <= memo[nm] and (isinstance(v, int) and not isinstance(v, bool) or is_z(v) and z3.is_int(v)):
                # a counter that goes up or down with the position, or with the steps
                r = next(x for x in ('inc', 'dec', 'steps', 'backsteps') if x not in memo[nm] and not (ft0.text and x in ('inc', 'dec')))
                if r in ('inc', 'dec'):
                    d = zsimp(p - oldpos)
                else:
                    if L.copies.get('__steps') is None:
                        k = L.copies['__steps'] = c.fresh('steps')
                        c.assume(z3.And(k >= 0, k <= p - oldpos, (k == 0) == (p == oldpos)))
                    d = L.copies['__steps']
                new = zsimp(v + d) if r in ('inc', 'steps') else zsimp(v - d)
            L.roles[nm] = (r, pl, v)
            havoc.append((pl, new, nm))
        L.copies['__start'] = oldpos
        # a slice that begins at the position does not end before it
        L.copies['__ends'] = ends = []
        if not ft0.text:
            for nm, (r, pl, v) in L.roles.items():
                if r == 'pos':
                    for hi in self.slice_ends(v, ft0, oldpos):
                        if not any(self.same(hi, x) for x in [end] + ends):
                            c.assume(models.zle(oldpos, hi))
                            c.assume(models.zle(p, hi))
                            ends.append(hi)
        for pl, new, nm in havoc:
            c.store(pl[0], pl[1], new)
        for ft, names in matched:
            ft.out = ft.step(c, p, ft.acc)
            if ft.out[0] == 'stop':
                ft.exit = ('acc', p, ft.acc)
            elif ft.out[0] == 'ret':
                ft.exit = ('ret', ft.out[1])
        L.count = 0

    def walk(self, fr, cands):
        """A fold without accumulator for a loop over a list that no fold of the specification is about:
        the loop then says where it is and what it copied."""
        seqs = []

        def look(v, depth=0):
            if depth > 4:
                return
            if isinstance(v, VIter):
                s = v.seq
                if isinstance(s, VIter):
                    look(s, depth + 1)
                elif isinstance(s, VSeq) and len(s.p) == 1 and s.p[0][0] == 's' and is_z(self.c.seq_len(s)):
                    seqs.append(s.p[0])
            elif isinstance(v, VAgg):
                for x in v.f:
                    look(x, depth + 1)
        for x in fr.cells:
            if x is not None and x.v is not None:
                look(x.v)
        seqs = [s for s in seqs if not any(ft.base is s[1] for ft in cands)]
        if not seqs or any(s[1] is not seqs[0][1] for s in seqs):
            return None
        _, base, lo, hi = seqs[0]

        def step(c, p, acc):
            if c.branch(models.zlt(p, base.len)):
                return ('next', zsimp(p + 1), None, 'element')
            return ('stop',)
        return FT('walk', base, lo, None, step, lambda c: None)

    def slice_ends(self, v, ft, pos, depth=0):
        if depth > 4:
            return []
        if isinstance(v, VSeq):
            return [p[3] for p in v.p if p[0] == 's' and p[1] is ft.base and self.same(p[2], pos)]
        if isinstance(v, VIter):
            return self.slice_ends(v.seq, ft, pos, depth + 1)
        if isinstance(v, VAgg):
            return [e for x in v.f for e in self.slice_ends(x, ft, pos, depth + 1)]
        return []

    def find_pos_at(self, v, ft, pos):
        sv = ft.pos
        ft.pos = pos
        try:
            return self.find_pos(v, ft)
        finally:
            ft.pos = sv

    def match_ft(self, ft, vals, memo, taken, other, held=False):
        c = self.c
        if other is not None:
            if not (ft.base is other.base and ft.text == other.text and self.same(ft.pos, other.pos)):
                return None
        haspos = False
        for nm, v in vals.items():
            if v is UNDEF:
                continue
            if 'pos' not in memo[nm] and self.find_pos(v, ft):
                haspos = True
        if not haspos and not ft.text:
            # an index into the list
            haspos = held and any(isinstance(v, int) and not isinstance(v, bool) and 'int' not in memo[nm] and self.same(v, ft.pos)
                                  for nm, v in vals.items())
        if not haspos:
            return None
        accs = []
        if ft.acc is None:
            return accs
        for nm, v in vals.items():
            if v is UNDEF or nm in taken or 'acc' in memo[nm]:
                continue
            if type(v) is not type(ft.acc) and not (is_z(v) and is_z(ft.acc)):
                continue
            if isinstance(v, VAgg) and (len(v.f) != len(ft.acc.f) or v.ty != ft.acc.ty):
                continue
            try:
                e = c.veq(v, ft.acc)
            except Unsupported:
                continue
            if e is True or (e is not False and c.provable(e)):
                accs.append(nm)
        if not accs:
            return None
        return accs

    def name_to_place(self, L, nm):
        cellname, path = nm
        c = self.c
        if cellname[0] == L.frame.key and isinstance(cellname[1], int) and cellname[1] < len(L.frame.cells):
            cell = L.frame.cells[cellname[1]]
            if cell is None:
                return None
            return (cell, path)
        # a cell of an outer frame: found through the references held here
        for x in L.frame.cells:
            if x is None:
                continue
            if x.name == cellname:
                return (x, path)
            r = self.reach(x.v, cellname, 0)
            if r is not None:
                return (r, path)
        return None

    def reach(self, v, cellname, depth):
        if depth > 5:
            return None
        if isinstance(v, VRef):
            if v.cell.name == cellname:
                return v.cell
            try:
                return self.reach(self.c.load(v.cell, v.path), cellname, depth + 1)
            except Unsupported:
                return None
        if isinstance(v, VAgg):
            for x in v.f:
                r = self.reach(x, cellname, depth + 1)
                if r is not None:
                    return r
        if isinstance(v, VIter):
            return self.reach(v.seq, cellname, depth + 1)
        return None

    def changed_places(self, L):
        out = []
        for (cell, path), old in L.writes.items():
            try:
                new = self.c.load(cell, path)
            except Unsupported:
                new = UNDEF
            if new is old:
                continue
            if old is UNDEF:
                out.append((cell.name, path))
                continue
            if new is UNDEF:
                out.append((cell.name, path))
                continue
            try:
                e = self.c.veq(old, new)
                same = e is True or (e is not False and self.c.provable(e))
            except (Unsupported, AttributeError, TypeError):
                same = False
            if not same:
                out.append((cell.name, path))
        # a place covered by a written prefix
        return out

    def loop_back(self, L):
        c = self.c
        if L.mode == 'unroll':
            L.count += 1
            if L.open is not False:
                k = self.open_state(L)
                if k not in L.open:
                    L.open = L.open + (k,)
            if L.count > UNROLL or L.open and len(L.open) > UNROLL_OPEN:
                raise Unsupported('loop in %s not covered by a contract' % L.name)
            return
        memo = c.run.loopmemo.setdefault(L.key, {})
        if L.mode == 'discover':
            ch = self.changed_places(L)
            new = False
            for nm in ch:
                if nm not in memo:
                    memo[nm] = set()
                    new = True
            if new:
                raise Restart()
            if not c.run.nodefer:
                raise Defer()
            L.mode = 'unroll'
            L.open = (self.open_state(L),)
            return
        # cut: close the iteration
        ch = self.changed_places(L)
        new = False
        for nm in ch:
            if not any(nm[0] == o[0] and nm[1][:len(o[1])] == o[1] for o in L.roles) and (nm not in memo or 'part' in memo[nm]):
                memo[nm] = set()
                new = True
        if new:
            raise Restart()
        ft0 = L.matched[0][0]
        lab = L.label
        posn = None
        skipped = False
        for ft, names in L.matched:
            if ft.out[0] != 'next':
                c.run.oblig('%s/continues-only-when-specified' % ft.name)
                c.run.fail(c, '%s/continues-only-when-specified' % ft.name,
                           'refuted' if c.check() == z3.sat else 'unknown', 'the loop goes on where the specification stops (%s)' % (ft.out[0],), None)
                raise Done()
            posn = ft.out[1]
        # positions: after one step of the specification, or after several of them, or inside
        # a stretch the specification skips as a whole (see DESIGN.md, whitespace)
        outs = {id(ft): ft.out for ft, _ in L.matched}
        first = None
        L.copies['__taken'] = 1
        for attempt in range(4):
            okpos, badpos, demote = self.check_positions(L, ft0, posn)
            if first is None:
                first = badpos
            if okpos:
                break
            if attempt == 0 and ft0.skip is not None:
                x = self.skipped_to(L, ft0)
                if x is not None:
                    posn = x
                    for ft, _ in L.matched:
                        outs[id(ft)] = ('next', x, ft.acc, 'whitespace')
                    continue
            if attempt == 3 or any(o[0] != 'next' for o in outs.values()):
                break
            # over a text, further steps only as far as what the code has looked at determines them
            c.pure = ft0.text
            try:
                for ft, _ in L.matched:
                    o = outs[id(ft)]
                    outs[id(ft)] = ft.step(c, o[1], self.settle(o[2]) if ft.acc is not None else None)
            except Unsupported:
                if not c.pure:
                    raise
                break
            finally:
                c.pure = False
            if any(o[0] != 'next' for o in outs.values()):
                break
            posn = outs[id(ft0)][1]
            L.copies['__taken'] += 1
        if okpos:
            for ft, _ in L.matched:
                ft.out = outs[id(ft)]
            for nm, r in demote:
                memo[nm].add(r)
            for nm, _, _ in badpos:
                memo[nm].add('pos')
            demote = bool(demote or badpos)
        else:
            badpos = first
        tag = ft0.out[3] if len(ft0.out) > 3 else ''
        if not okpos:
            if not badpos and demote:
                # the integers taken for the position are not it
                for nm, r in demote:
                    memo[nm].add(r)
                raise Restart()
            nm, now, exp = badpos[0] if badpos else (None, None, None)
            c.run.oblig('%s/step[%s]/position' % (lab, tag))
            c.run.fail(c, '%s/step[%s]/position' % (lab, tag), 'refuted' if c.check() == z3.sat else 'unknown',
                       'next position differs: code %r, specification %r' % (now, exp), None)
            raise Done()
        if demote:
            raise Restart()
        c.run.oblig('%s/step[%s]/position' % (lab, tag))
        c.run.ok('%s/step[%s]/position' % (lab, tag))
        c.reached('%s/step[%s]/position' % (lab, tag))
        c.prove(posn > L.p, '%s/step[%s]/progress' % (lab, tag))
        end = TEXT_N if ft0.text else ft0.base.len
        c.prove(posn <= end, '%s/step[%s]/in-bounds' % (lab, tag))
        for hi in L.copies['__ends']:
            if not c.provable(models.zle(posn, hi)):
                raise Unsupported('the end of a slice is passed in %s' % L.name)
        if ft0.text:
            c.prove(f_bound(posn if is_z(posn) else z3.IntVal(posn)), '%s/step[%s]/char-boundary' % (lab, tag))
        for ft, names in L.matched:
            if ft.acc is None:
                continue
            tag = ft.out[3] if len(ft.out) > 3 else ''
            exp = self.settle(ft.out[2])
            good, bad = [], []
            for nm in names:
                pl = L.roles[nm][1]
                try:
                    now = self.place_val(pl)
                except Unsupported:
                    now = UNDEF
                try:
                    if now is UNDEF:
                        e = False
                    elif isinstance(now, VAgg) and isinstance(exp, VAgg) and len(names) == 1:
                        e = None
                    else:
                        e = c.veq(now, exp)
                except Unsupported:
                    if len(names) == 1:
                        raise
                    e = False
                if e is None or e is True or (e is not False and c.provable(e)):
                    good.append((nm, now))
                else:
                    bad.append((nm, now, e))
            if good:
                if bad:
                    for nm, _, _ in bad:
                        memo[nm].add('acc')
                    raise Restart()
                for nm, now in good:
                    self.prove_value(now, exp, '%s/step[%s]' % (ft.name, tag))
            else:
                if len(bad) > 1:
                    # keep one witness place: the first that still holds a value
                    live = [b for b in bad if b[1] is not UNDEF] or bad
                    bad = live[:1]
                nm, now, e = bad[0]
                if now is UNDEF:
                    raise Unsupported('accumulator of %s is gone' % ft.name)
                self.prove_value(now, exp, '%s/step[%s]' % (ft.name, tag))
        raise Done()

    def open_state(self, L):
        """Where in the input a loop that no fold describes is."""
        return tuple(vkey(x.v) for x in L.frame.cells if x is not None and any(self.mentions_base(x.v, ft) for ft in self.c.fts if not ft.consumed))

    def check_positions(self, L, ft0, posn):
        """Which of the places that carry the position agree with posn."""
        c = self.c
        okpos, badpos, demote, ints = [], [], [], []
        for nm, (r, pl, v0) in L.roles.items():
            if r not in ('pos', 'int', 'copy') and r not in COUNTERS:
                continue
            try:
                now = self.place_val(pl)
            except Unsupported:
                now = UNDEF
            if r == 'pos':
                exp = self.subst_pos(v0, ft0, L.copies['__start'], posn)
            elif r == 'int':
                exp = posn
            elif r in ('inc', 'dec'):
                d = posn - L.copies['__start']
                exp = zsimp(v0 + d) if r == 'inc' else zsimp(v0 - d)
            elif r in ('steps', 'backsteps'):
                d = L.copies['__steps'] + L.copies['__taken']
                exp = zsimp(v0 + d) if r == 'steps' else zsimp(v0 - d)
            else:
                exp = c.seq_norm(L.copies[nm].p + (('s', ft0.base, L.copies['__start'], posn),))
            try:
                e = c.veq(now, exp) if now is not UNDEF else False
                good = e is True or (e is not False and c.provable(e))
            except Unsupported:
                good = False
            if r == 'pos':
                (okpos if good else badpos).append((nm, now, exp))
            elif not good:
                demote.append((nm, r))
            elif r == 'int':
                ints.append((nm, now, exp))
        if not okpos and not badpos:
            okpos = ints
        return okpos, badpos, demote

    def skipped_to(self, L, ft0):
        """The code's position, when it lies in the stretch that may be skipped from here."""
        c = self.c
        for nm, (r, pl, v0) in L.roles.items():
            if r != 'pos' or not isinstance(v0, VStr):
                continue
            try:
                now = self.place_val(pl)
            except Unsupported:
                continue
            if isinstance(now, VStr) and len(now.p) == 1 and now.p[0][0] == 't':
                x = now.p[0][2]
                if c.provable(zand(models.zlt(L.p, x), models.zle(x, ft0.skip(c, L.p)))):
                    return x
        return None

    def settle(self, v):
        """Replace fold placeholders by the value the matched loop produced."""
        return self.c.run.contracts.settle(self, v)

    def prove_value(self, now, exp, label):
        c = self.c
        if isinstance(now, VAgg) and isinstance(exp, VAgg) and now.var == exp.var and len(now.f) == len(exp.f) and \
                now.ty in self.prog.types and self.prog.ty(now.ty)['k'] == 'adt' and self.prog.ty(now.ty)['kind'] == 'Struct' \
                and self.prog.ty(now.ty)['krate'] == self.prog.crate and len(now.f) > 1:
            t = self.prog.ty(now.ty)
            for i, f in enumerate(t['vs'][0]['f']):
                a, b = now.f[i], exp.f[i]
                c.prove(zb(c.veq(a, b)), '%s/%s' % (label, f['n']), 'code %s; specification %s' % (short(a), short(b)))
            return
        c.prove(zb(c.veq(now, exp)), label, 'code %s; specification %s' % (short(now), short(exp)))


def short(v):
    s = repr(v)
    return s if len(s) < 600 else s[:600] + '...'


def zb(x):
    return x


def wrap_int(v, lo, hi):
    m = hi - lo + 1
    return zsimp((v - lo) % m + lo)


_fc = {}


def fconst(bits):
    c = _fc.get(bits)
    if c is None:
        c = _fc[bits] = z3.Const('f32#%08x' % bits, FS)
    return c


def fneg(x):
    if x.decl().name() == 'fneg':
        return x.arg(0)
    n = x.decl().name()
    if n.startswith('f32#'):
        return fconst(int(n[4:], 16) ^ 0x80000000)
    return f_neg(x)


def i2f(v):
    import struct
    if not is_z(v):
        return fconst(struct.unpack('<I', struct.pack('<f', float(v)))[0])
    return f_i2f(v)


_fops = {}
f_val = z3.Function('fval', FS, z3.RealSort())     # the number a float that is not NaN stands for (infinities: +-2^128)
BIG = 1 << 128


def fbits(x):
    n = x.decl().name()
    return int(n[4:], 16) if n.startswith('f32#') else None


def ffloat(bits):
    import struct
    return struct.unpack('<f', struct.pack('<I', bits))[0]


def fval(c, x):
    """fval(x) with the facts that are known about it."""
    from fractions import Fraction
    v = f_val(x)
    k = ('fval', x.get_id())
    if k in c.facts_done:
        return v
    c.memo[k] = x
    b = fbits(x)
    if b is not None:
        f = ffloat(b)
        q = Fraction(BIG if f > 0 else -BIG) if f in (float('inf'), float('-inf')) else Fraction(f)
        c.axiom(k, v == z3.Q(q.numerator, q.denominator))
        return v
    n = x.decl().name()
    if n == 'fneg':
        c.axiom(k, v == -fval(c, x.arg(0)))
    elif n == 'i2f':
        i = x.arg(0)
        r = z3.ToReal(i)
        m = 1 << 24
        c.axiom(k, z3.Implies(z3.And(i >= -m, i <= m), v == r), z3.Implies(i > m, v >= m), z3.Implies(i < -m, v <= -m), v <= BIG, v >= -BIG)
    else:
        c.axiom(k, v >= -BIG, v <= BIG)
    return v


def arithmetic(x):
    """Does the term contain a float operation that is left uninterpreted?"""
    if x.decl().name() in ('fAdd', 'fSub', 'fMul', 'fDiv', 'fRem', 'fun'):
        return True
    return x.sort() == FS and any(arithmetic(y) for y in x.children() if y.sort() == FS)


def fcmp(c, op, a, b):
    """Comparison of floats that are not NaN (they come from digits, or are constants)."""
    x, y = fval(c, a), fval(c, b)
    if op in ('Eq', 'Ne'):
        c.axiom(('feq', a.get_id(), b.get_id()), z3.Implies(z3.And(x == y, x != 0), a == b))
        r = zsimp(x == y)
        return r if op == 'Eq' else znot(r)
    return zsimp({'Lt': lambda: x < y, 'Le': lambda: x <= y, 'Gt': lambda: x > y, 'Ge': lambda: x >= y}[op]())


def fop(c, op, a, b):
    na, nb = a.decl().name(), b.decl().name()
    if op == 'Mul':
        for x, y, ny in ((a, b, nb), (b, a, na)):
            if ny == 'f32#bf800000':
                return fneg(x)
            if ny == 'f32#3f800000':
                return x
    if op == 'Div' and nb == 'f32#3f800000':
        return a
    ba, bb = fbits(a), fbits(b)
    if ba is not None and bb is not None:
        x, y = ffloat(ba), ffloat(bb)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
        r = fcalc(op, x, y)
        if r is not None:
            return r
    bl = op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge')
    if bl and not arithmetic(a) and not arithmetic(b) and not any(x is not None and ffloat(x) != ffloat(x) for x in (ba, bb)):
        return fcmp(c, op, a, b)
    c.tainted('float operation %s treated as uninterpreted' % op)
    f = _fops.get(op)
    if f is None:
        f = _fops[op] = z3.Function('f' + op, FS, FS, z3.BoolSort() if bl else FS)
    return f(a, b)


def fcalc(op, x, y):
    """The f32 operation on constants."""
    import math
    import struct
    try:
        r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x / y, 'Rem': lambda: math.fmod(x, y)}[op]()
        return fconst(struct.unpack('<I', struct.pack('<f', r))[0])       # exact: f64 carries more than twice the precision
    except (ZeroDivisionError, OverflowError, ValueError, KeyError):
        return None


UNINT = ('fAdd', 'fSub', 'fMul', 'fDiv', 'fRem', 'fEq', 'fNe', 'fLt', 'fLe', 'fGt', 'fGe')


def mentions(x, names, seen=None):
    seen = set() if seen is None else seen
    st = [x]
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_app(y) and y.decl().name() in names:
            return True
        st.extend(y.children())
    return False


def float_counterexample(c, cond):
    """The obligation does not follow with float operations uninterpreted: is there a state
    with concrete float operands in which the real operations make it false?"""
    seen = set()
    if c.nest is not None or any(mentions(a, UNINT, seen) for a in c.solver.assertions()):
        return False
    if not is_z(cond) or not mentions(cond, UNINT):
        return True
    atoms = {}

    def collect(x):
        if x.sort() == FS and x.decl().name() not in UNINT and x.decl().name() != 'fneg' and fbits(x) is None:
            atoms[x.get_id()] = x
        elif z3.is_app(x):
            for y in x.children():
                collect(y)
    collect(cond)
    xs = list(atoms.values())
    if len(xs) > 4:
        return False
    import itertools
    import struct
    vals = [3.0, 0.0, 1.0, -7.0, 5000.0, 0.5, -0.25, 1e10]
    for combo in itertools.islice(itertools.product(vals, repeat=len(xs)), 40):
        cs, env = [], {}
        for x, v in zip(xs, combo):
            k = fconst(struct.unpack('<I', struct.pack('<f', v))[0])
            fval(c, k)
            cs.append(x == k)
            env[x.get_id()] = k
        if c.check(*cs) != z3.sat:
            continue
        m = c.solver.model()
        try:
            if feval(cond, env, m) is False:
                return True
        except Unsupported:
            continue
    return False


def feval(x, env, m):
    if x.sort() == FS:
        if x.get_id() in env:
            return env[x.get_id()]
        if fbits(x) is not None:
            return x
        n = x.decl().name()
        ch = [feval(y, env, m) for y in x.children()]
        if n == 'fneg':
            return fneg(ch[0])
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            raise Unsupported('ite')
        r = fcalc(n[1:], ffloat(fbits(ch[0])), ffloat(fbits(ch[1])))
        if r is None:
            raise Unsupported('value')
        return r
    if z3.is_and(x):
        return all(feval(y, env, m) for y in x.children())
    if z3.is_or(x):
        return any(feval(y, env, m) for y in x.children())
    if z3.is_not(x):
        return not feval(x.arg(0), env, m)
    if z3.is_implies(x):
        return not feval(x.arg(0), env, m) or feval(x.arg(1), env, m)
    if z3.is_eq(x) and x.arg(0).sort() == FS:
        return feval(x.arg(0), env, m).eq(feval(x.arg(1), env, m))
    n = x.decl().name()
    if n in UNINT:
        a, b = [ffloat(fbits(feval(y, env, m))) for y in x.children()]
        return {'fEq': a == b, 'fNe': a != b, 'fLt': a < b, 'fLe': a <= b, 'fGt': a > b, 'fGe': a >= b}[n]
    if mentions(x, UNINT):
        raise Unsupported('value')
    v = m.eval(x, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Unsupported('value')
