"""Names the contracts use for private items, when the code under test calls them something
else. The contracts name functions, types, variants and fields as the pinned tree does; a
renamed or moved private item is recognised by its place among its neighbours (functions),
its shape (types) or its position (variants, fields), and the dumped program is rewritten to
the names of the contracts before anything else happens. A wrong guess cannot make a proof
succeed that should not: what is verified is the code whatever it is called, and public names
cannot change without breaking the users (and tests) of the crate.

   python3-vt mirv/names.py --write    records the names of the current tree"""
import json
import os
import re
import sys

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json')


def functions(d):
    """file -> [(line, path)] of the crate's named functions."""
    out = {}
    ctors = {t['def'] + '::' + v['n'] for t in d['types'].values() if t['k'] == 'adt' for v in t['vs']}
    for f in d['insts'].values():
        if f['krate'] != d['crate'] or not f.get('body') or '{' in f['path'] or '<' in f['path'] or f['kind'] != 'Item':
            continue
        if f['def'] in ctors:
            continue
        m = re.match(r'(.*?\.rs):(\d+):', f['span'])
        if not m or 'macros' in m.group(1) or f['path'].endswith('::inner'):
            continue
        out.setdefault(m.group(1), set()).add((int(m.group(2)), f['path']))
    return {k: [p for _, p in sorted(v)] for k, v in out.items()}


def shapes(d):
    """type -> [[variant, [[field, type], ..]], ..]"""
    out = {}
    for t in d['types'].values():
        if t['k'] == 'adt' and t.get('krate') == d['crate']:
            n = t['def'].split('::', 1)[1]
            out[n] = [[v['n'], [[f['n'], re.sub(r"<'\w+>|'\w+ ", '', d['types'][str(f['t'])]['s'])] for f in v['f']]] for v in t['vs']]
    return out


def pair(old, new):
    """old -> new of the names that differ, where that is clear; old and new are [(name, shape)]."""
    on, nn = {n for n, _ in old}, {n for n, _ in new}
    gone = [(i, n, s) for i, (n, s) in enumerate(old) if n not in nn]
    come = [(i, n, s) for i, (n, s) in enumerate(new) if n not in on]
    if not gone or len(gone) != len(come):
        return {}
    out = {}
    for (i, n, s) in list(gone):
        same = [c for c in come if c[2] == s]
        if len(same) == 1 and len([g for g in gone if g[2] == s]) == 1:
            out[n] = same[0][1]
    gone = [g for g in gone if g[1] not in out]
    come = [c for c in come if c[1] not in out.values()]
    for g, c in zip(gone, come):
        out[g[1]] = c[1]
    return out


def aliases(d):
    """Text replacements (new name -> name of the contracts), and per type the renamed parts."""
    base = json.load(open(FILE))
    rep = {}
    now = shapes(d)
    gone = [n for n in base['types'] if n not in now]
    come = [n for n in now if n not in base['types']]
    for n in gone:
        bare = lambda s: [[v, [f for f, _ in fs]] for v, fs in s]
        c = [m for m in come if m.split('::')[-1] == n.split('::')[-1]] or [m for m in come if bare(now[m])[1:] == bare(base['types'][n])[1:] and len(now[m]) == len(base['types'][n]) and (
            len(now[m]) > 1 and bare(now[m]) == bare(base['types'][n]) or len(now[m]) == 1 and [f for f, _ in now[m][0][1]] == [f for f, _ in base['types'][n][0][1]])]
        if len(c) == 1:
            rep[c[0]] = n
            come.remove(c[0])
    fns = functions(d)
    have = {p for v in fns.values() for p in v}
    unmoved = lambda p: next((p.replace(a, b, 1) for a, b in rep.items() if p.startswith(a + '::')), p)
    known = {p for v in base['functions'].values() for p in v}
    new = {p for p in have if unmoved(p) not in known}
    have = {unmoved(p) for p in have}
    for f, ps in base['functions'].items():
        cur = [unmoved(p) if p not in new else p for p in fns.get(f, ())]
        for i, p in enumerate(ps):
            if p in have:
                continue
            c = [q for q in new if q.split('::')[-1] == p.split('::')[-1] and ('::' not in p or q.split('::')[-2:-1] == p.split('::')[-2:-1] or p.split('::')[-2][:1].islower())]
            if len(c) != 1:
                before = next((q for q in reversed(ps[:i]) if q in cur), None)
                after = next((q for q in ps[i + 1:] if q in cur), None)
                lost = [q for q in ps[(ps.index(before) + 1 if before else 0):(ps.index(after) if after else len(ps))] if q not in have]
                seg = cur[(cur.index(before) + 1 if before else 0):(cur.index(after) if after else len(cur))]
                c = [q for q in seg if q in new]
                if len(c) == len(lost):
                    c = [c[lost.index(p)]]
            if len(c) == 1:
                rep[c[0]] = p
                new.discard(c[0])
    parts = {}
    back = {b: a for a, b in rep.items()}
    for n, s in base['types'].items():
        t = now.get(n) or now.get(back.get(n))
        if t is None:
            continue
        vs = pair([(v, [ty for _, ty in fs]) for v, fs in s], [(v, [ty for _, ty in fs]) for v, fs in t]) if len(s) > 1 else {}
        fs = pair(s[0][1], t[0][1]) if len(s) == 1 and len(t) == 1 else {}
        if vs or fs:
            parts[n] = ({b: a for a, b in vs.items()}, {b: a for a, b in fs.items()})
    return rep, parts


def load(path):
    """The dumped program under the names of the contracts, and what was renamed."""
    text = open(path).read()
    d = json.loads(text)
    if not os.path.exists(FILE):
        return d, []
    rep, parts = aliases(d)
    notes = ['%s is called %s' % (b, a) for a, b in rep.items()]
    if rep:
        for a, b in sorted(rep.items(), key=lambda x: -len(x[0])):
            text = re.sub(r'(?<!\w)%s(?!\w)' % re.escape(a), lambda m: b, text)
        d = json.loads(text)
    for t in d['types'].values():
        if t['k'] == 'adt' and t.get('krate') == d['crate']:
            vs, fs = parts.get(t['def'].split('::', 1)[1], ({}, {}))
            for v in t['vs']:
                if v['n'] in vs:
                    v['n'] = vs[v['n']]
                for f in v['f']:
                    if f['n'] in fs:
                        f['n'] = fs[f['n']]
    notes += ['%s::%s is called %s' % (n, a, b) for n, (vs, fs) in parts.items() for b, a in list(vs.items()) + list(fs.items())]
    return d, notes


if __name__ == '__main__' and '--write' in sys.argv:
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import build
    d = json.load(open(build.dump(build.repo_digest())))
    with open(FILE, 'w') as f:
        json.dump(dict(functions=functions(d), types=shapes(d)), f, indent=1)
        f.write('\n')
    print(json.dumps(functions(d))[:3000])
