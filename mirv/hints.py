"""Countermodels turned into texts: what a refuted obligation says about the tokens, options
or bytes it was about, rendered so that the real code can be run on it (the text around it
is random; the differential run decides)."""
import re

import z3

import engine
import spec

LIMIT = 24


def value(m, x):
    """A z3 int or bool under the model; None where the model does not say."""
    if not engine.is_z(x):
        return x
    try:
        v = m.eval(x)
    except z3.Z3Exception:
        return None
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    return None


def number(m, x):
    import interp
    try:
        v = m.eval(interp.f_val(x))
    except z3.Z3Exception:
        return None
    if z3.is_rational_value(v) and abs(v.numerator_as_long()) < 1 << 200:
        return str(float(v.as_fraction()))
    return None


def field(c, m, v):
    if isinstance(v, engine.VAgg):
        return [field(c, m, x) for x in v.f]
    if isinstance(v, engine.VSym):
        t = value(m, v.tag)
        if t is None:
            return None
        return [t] + ([field(c, m, x) for x in v.pay[t].f] if t in v.pay else [])
    if engine.is_z(v) and v.sort() == engine.FS:
        return number(m, v)
    if engine.is_z(v):
        return value(m, v)
    return None


def extract(c, m):
    """The part of a countermodel that texts can be made of."""
    out = {}
    for key in ('tokens', 'options'):
        b = c.bases.get(key)
        if b is None or not b.elems:
            continue
        t = c.prog.ty(b.ety)
        if t['k'] != 'adt' or t['kind'] != 'Enum':
            continue
        el = {}
        for i, v in b.elems:
            k = value(m, i)
            if k is None or not isinstance(v, (engine.VSym, engine.VAgg)):
                continue
            tag = value(m, v.tag) if isinstance(v, engine.VSym) else v.var
            if tag is None or not 0 <= tag < len(t['vs']):
                continue
            pay = v.pay.get(tag) if isinstance(v, engine.VSym) else v
            el[k] = (t['vs'][tag]['n'], [field(c, m, x) for x in pay.f] if pay is not None else [])
        if el:
            ks = sorted(el)
            out[key] = [el[k] for k in ks][:LIMIT]
            out[key + ' at'] = ks[:LIMIT]
            n = value(m, b.len)
            out[key + ' len'] = n
    t = text(c, m)
    if t:
        out['text'] = t
    return out


def text(c, m):
    known, default, spans = {}, None, []
    for d in m.decls():
        if d.name() == 'byte':
            fi = m[d]
            for e in range(fi.num_entries()):
                x = fi.entry(e)
                known[x.arg_value(0).as_long()] = x.value().as_long()
    poss = [m[d].as_long() for d in m.decls() if d.arity() == 0 and re.match(r'pos!\d+$', d.name()) and z3.is_int_value(m[d])]
    n = [m[d].as_long() for d in m.decls() if d.name() == 'text_len' and z3.is_int_value(m[d])]
    if not known or not n:
        return None
    lo = min([p for p in poss if p <= n[0]] or [0])
    if not poss and n[0] > 60:
        return None
    for setkey, f in c.run.span_fns.items():
        fi = m[f]
        if fi is None or not isinstance(fi, z3.FuncInterp):
            continue
        for e in range(fi.num_entries()):
            x = fi.entry(e)
            spans.append((x.arg_value(0).as_long(), x.value().as_long(), setkey))
    hi = min(n[0], lo + 60)
    out = bytearray()
    for k in range(lo, hi):
        b = known.get(k)
        if b is None:
            ok = [set(s[0]) for a, z, s in spans if a <= k < z]
            cand = [x for x in b'aZx1 .\t' if all(x in s for s in ok)]
            if not cand and ok:
                cand = sorted(set.intersection(*ok))
            b = cand[0] if cand else 97
        if b >= 128:
            odd = [x for _, _, sk in spans if isinstance(sk[1], tuple) for x in sk[1][1]]
            out += chr(odd[k % len(odd)] if odd else 0xe9).encode('utf8', 'replace')
        else:
            out.append(b)
    try:
        return out.decode()
    except UnicodeDecodeError:
        return None


WORDS = {t: w for w, t in spec.OBJ_KEYWORDS}
for w_, t_ in spec.MTL_KEYWORDS:
    WORDS.setdefault(t_, w_)


def integer(g, x, rnd):
    return str(x) if isinstance(x, int) and not isinstance(x, bool) and -1 << 31 <= x < 1 << 31 else rnd()


def decimal(g, x):
    if isinstance(x, str):
        return x if '.' in x or 'e' in x else x + '.0'
    return g.float_()


def onoff(g, x):
    return ('on' if x else 'off') if isinstance(x, bool) else g.onoff()


def token(g, t, obj):
    name, f = t
    if name == 'Int':
        return integer(g, f[0] if f else None, g.idx)
    if name == 'Float':
        return decimal(g, f[0] if f else None)
    if name == 'String':
        return g.word(obj) + ('\n' if obj else '')
    if name == 'Slash':
        return '/'
    return WORDS.get(name, name.lower())


def option(g, o):
    name, f = o
    x = f[0] if f else None
    fl = lambda v: v if isinstance(v, str) else g.num()
    if name == 'FileName':
        return g.word(False)
    if name in ('BlendU', 'BlendV', 'Cc', 'Clamp'):
        return {'BlendU': '-blendu', 'BlendV': '-blendv', 'Cc': '-cc', 'Clamp': '-clamp'}[name] + ' ' + onoff(g, x)
    if name == 'TextureRange':
        x = x or [None, None]
        return '-mm %s %s' % (fl(x[0]), fl(x[1]))
    if name in ('Offset', 'Scale', 'Turbulance'):
        w = {'Offset': '-o', 'Scale': '-s', 'Turbulance': '-t'}[name]
        x = x or [None, None, None]
        out = [fl(x[0])]
        for y in x[1:]:
            if y is None and g.p(0.5) or isinstance(y, list) and y and y[0] == 0:
                break
            out.append(fl(y[1] if isinstance(y, list) and len(y) > 1 else None))
        return w + ' ' + ' '.join(out)
    if name == 'TextureRes':
        return '-texres ' + integer(g, x, g.idx)
    if name == 'ImfChan':
        return '-imfchan ' + g.r.choice('rgbmlz')
    if name == 'BumpMultiplier':
        return '-bm ' + fl(x)
    if name == 'Boost':
        return '-boost ' + g.num()
    if name == 'ReflectionType':
        return '-type ' + g.r.choice(['sphere', 'cube_top', 'cube_left', g.word(False)])
    return ''


def render(g, h, obj):
    """One text from a hint."""
    r = g.r
    stmts = lambda n: ''.join((g.st_obj(r.choice(list(OBJ))) if obj else g.st_mtl(r.choice(list(MTL)))) + '\n' for _ in range(r.choice(n)))
    pre = ('' if obj or g.p(0.1) else 'newmtl a\n') + stmts([0, 0, 0, 1, 2, 3])
    post = ('\n' + stmts([0, 0, 1, 2])) if g.p(0.7) else ''
    if h.get('tokens'):
        ks = h['tokens at']
        out, last = [], None
        block = []
        for k, t in zip(ks, h['tokens']):
            if last is not None and k > last + 1 and g.p(0.5):
                gap = min(k - last - 1, 12)
                out += [r.choice([g.idx(), g.num(), g.idx()]) for _ in range(gap)]
            out.append(token(g, t, obj))
            last = k
        n = h.get('tokens len')
        if n is not None and last is not None and n > last + 1 and g.p(0.4):
            out += [r.choice([g.idx(), g.num(), '/', g.idx()]) for _ in range(min(n - last - 1, 40))]
        elif g.p(0.3):
            out += [g.word(obj)] if not obj else [g.idx() for _ in range(r.randint(1, 3))]
        return pre + ' '.join(out).replace('\n ', '\n') + post
    if h.get('options') and not obj:
        kw = r.choice([k for k in MTL if k.startswith('map_') and k != 'map_aat'] + ['disp', 'decal', 'bump', 'refl', 'map_disp'])
        out = [option(g, o) for o in h['options']]
        if not any(o[0] == 'FileName' for o in h['options']) or g.p(0.2):
            out.insert(r.randint(0, len(out)) if g.p(0.3) else len(out), g.word(False))
        return pre + kw + ' ' + ' '.join(x for x in out if x) + post
    if h.get('text'):
        t = h['text']
        kws = list(OBJ if obj else MTL)
        k = r.random()
        if k < 0.35:
            return pre + t + post
        if k < 0.6:
            return pre + r.choice(kws) + ' ' + t + r.choice(['', ' ', '\n', ' 1', ' 2 3\n', ' a\n']) + post
        if k < 0.8:
            return pre + t + ' ' + ' '.join(g.num() for _ in range(r.randint(1, 3))) + post
        if k < 0.9:
            return pre + t + ' ' + g.word(obj) + post
        return pre + (g.st_obj(r.choice(kws)) if obj else g.st_mtl(r.choice(kws))) + t + post
    return pre


OBJ = ['v', 'vn', 'vt', 'vp', 'f', 'l', 'p', 'g', 'o', 's', 'usemtl', 'mtllib', 'usemap', 'maplib', 'bevel', 'c_interp',
       'd_interp', 'lod', 'shadow_obj', 'trace_obj']
MTL = ['newmtl', 'Ka', 'Kd', 'Ks', 'Ke', 'Ns', 'd', 'Tr', 'Tf', 'sharpness', 'Ni', 'illum', 'map_Ka', 'map_Kd', 'map_Ks',
       'map_Ns', 'map_d', 'map_disp', 'disp', 'decal', 'bump', 'refl', 'map_aat']


def kinds(function):
    if function.startswith('material') or '::mtl::' in function:
        return 'm'
    if function.startswith('model') or '::obj::' in function:
        return 'o'
    return 'om'


def collect(reports):
    """(kind, hint) pairs of the refuted obligations, few per function."""
    out = []
    for n, r in sorted(reports.items()):
        seen = set()
        for f in r['failures']:
            h = f.get('hint')
            if f['kind'] != 'refuted' or not h:
                continue
            k = repr(h)
            if k in seen or len(seen) >= 12:
                continue
            seen.add(k)
            for kd in kinds(n):
                out.append((kd, h))
    return out
