"""The check of one property:   python3-vt mirv/check.py P04
   replay of a violation:        python3-vt mirv/check.py P04 --replay FILE

1. dumps the MIR of everything load_obj and load_mtl reach from /repo's working tree,
2. verifies the functions the property depends on against their contracts,
3. runs the real code against the same specification on generated texts (bounded,
   supplementary; finds the input behind a refuted obligation)."""
import argparse
import json
import os
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import cross
import diff
import hints
import props

VERIF = build.VERIF
T0 = time.time()
TRUSTED = [
    'rustc (nightly) and its MIR of the crate and of the generic library code it instantiates (debug assertions and overflow checks on)',
    'mirv: the MIR interpreter and obligation generator in /verif/mirv (engine.py, interp.py)',
    'mirv/models.py: assumed contracts of std (Vec, String, str, HashMap, Option, Result, iterators, number parsing and display) and of nom\'s text comparison',
    'z3 (python binding in python3-vt)',
    'the log crate has no effect on results; error payloads are not compared',
    'f32 values are uninterpreted: decimal text to f32, i32 to f32 and sign change are compared as the same function of the same operands',
]


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a)
    sys.stdout.flush()


class Bg(threading.Thread):
    def __init__(self, fn, *a):
        super().__init__(daemon=True)
        self.fn, self.a = fn, a
        self.out = self.err = None
        self.start()

    def run(self):
        try:
            self.out = self.fn(*self.a)
        except Exception as e:
            self.err = e

    def get(self):
        self.join()
        return self.out


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            if l.startswith('open: property='):
                pid, js = l[len('open: property='):].split(' ', 1)
                d = json.loads(js)
                d['property'] = pid
                out.append(d)
    return out


def shown(want, got):
    """Does the outcome show what the finding describes?"""
    if isinstance(want, dict):
        return isinstance(got, dict) and all(k in got and shown(v, got[k]) for k, v in want.items())
    if isinstance(want, list):
        return isinstance(got, list) and len(want) == len(got) and all(shown(a, b) for a, b in zip(want, got))
    return want == got


def undecided(rep):
    import runner
    return bool(rep['unsupported']) or not rep['instances'] or not rep['obligations'] or bool(runner.vacuous(rep)) or \
        any(f['kind'] != 'refuted' for f in rep['failures'])


def prove(prop, mir, seconds, known, found):
    """Reports per function, plus what had to be done about functions out of reach."""
    import engine
    import contracts
    import runner
    prog = engine.Prog(mir)
    for n in prog.renamed:
        log('name: %s' % n)
    ct = contracts.Contracts(prog)
    names = [n for n in prop.targets if n not in ct.missing]
    missing = {n: ct.missing[n] for n in prop.targets if n in ct.missing}
    end = time.time() + seconds
    reps = runner.verify_many(prog, ct, names, seconds * 0.55)
    strip(reps, known)
    notes = []
    first = dict(reps)
    # functions whose contract is out of reach, or does not hold: their callers are verified with the
    # body in place of the contract
    off = set(missing)
    for round_ in range(3):
        out = {n for n, r in reps.items() if undecided(r)}
        fell = {n for n, r in reps.items() if r['failures']}
        new = {n for n in out | (set() if found else fell) if n not in off and n not in TOPS}
        if not new or time.time() > end - 20:
            break
        off |= new
        ct = contracts.Contracts(prog, disabled=off)
        again = [n for n, r in reps.items() if n not in new and (set(r['used']) & new or n in TOPS and n in out)]
        again = [n for n in again if n not in ct.missing]
        if not again:
            break
        notes.append('verified again with the bodies of %s in place of their contracts: %s' % (sorted(new), sorted(again)))
        log(notes[-1])
        left = (end - time.time()) * 0.8
        r2 = runner.verify_many(prog, ct, again, max(20, min(left, 100) if fell else left))
        strip(r2, known)
        for n, r in r2.items():
            # keep the modular result where the second one is no better (what it assumes then stays open)
            if not undecided(r) or undecided(reps[n]):
                reps[n] = r
    # a contract that was replaced by the body no longer matters when at least one caller was decided
    # that way and no decided result assumes the contract
    open_ = {n for n, r in reps.items() if undecided(r) and n not in off}
    users = [m for m in reps if m not in off]
    for n in off:
        was = n in missing or any(n in first[m]['used'] for m in users)
        if not was or any(n in reps[m]['used'] for m in users) or open_:
            open_.add(n)
    refuted = []
    for n, r in reps.items():
        for f in r['failures']:
            if f['kind'] == 'refuted' and (n not in off or n in open_ or any(reps[m]['failures'] for m in users if n in first[m]['used'])):
                refuted.append((n, f))
    return reps, missing, notes, off, sorted(n for n in open_ if n in missing or undecided(reps[n]) or n not in off), refuted


TOPS = ('model::parse', 'material::parse', 'tokenizer::obj::parse_obj', 'tokenizer::mtl::parse_mtl', 'load_obj', 'load_mtl')


def strip(reps, known):
    """Take the recorded findings out of the reports."""
    for n, r in reps.items():
        keep = []
        hit = set()
        for f in r['failures']:
            if any(k['function'] == n and k['obligation'] == f['label'] for k in known):
                hit.add(f['label'])
            else:
                keep.append(f)
        r['failures'] = keep
        r['known'] = sorted(hit)
        for l in hit:
            r['obligations'].pop(l, None)


def write_replay(prop, d):
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    p = os.path.join(VERIF, 'replays', '%s.json' % prop.id)
    with open(p, 'w') as f:
        json.dump(d, f, indent=1, ensure_ascii=True)
    return p


def replay(prop, path):
    d = json.load(open(path))
    if 'hex' not in d:
        print('the replay file names failed obligations and no input:')
        for o in d['obligations']:
            print('  ', o['function'], '::', o['label'])
        return 0
    real = diff.Real(build.harness(build.repo_digest()))
    t = bytes.fromhex(d['hex'])
    for k, h in d.get('history', []):
        print('text read before:', repr(bytes.fromhex(h).decode()))
        real.run(k, bytes.fromhex(h))
    r = diff.differs(real, d['kind'], t, prop.project)
    real.stop()
    print('text:', repr(t.decode()))
    if r is None:
        print('the real code now gives what the specification gives')
        return 0
    print('specification:', json.dumps(r[0]))
    print('real code:    ', json.dumps(r[1]))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--no-diff', action='store_true', help='only the proof (for development)')
    a = ap.parse_args()
    prop = props.P[a.property]
    if a.replay:
        return replay(prop, a.replay)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    known = known_findings()
    if thorough:
        cross.ON = True
        prop.targets = list(dict.fromkeys(prop.targets + {'o': props.OBJ, 'm': props.MTL}.get(prop.kinds, props.ALL)))
    digest = build.repo_digest()
    log('source digest', digest)
    mirjob = Bg(build.dump, digest)
    harjob = Bg(build.harness, digest)
    exe = harjob.get()
    if exe is None:
        log('no harness: %s' % harjob.err)
    else:
        log('harness built')

    # bounded differential run, while the compiler still works on the MIR
    runs = []

    def search(seconds, sd, workers=8, hs=None):
        if exe is None or a.no_diff and not hs:
            return []
        r = diff.search(exe, sd, prop.focus, prop.kinds, prop.project, seconds, build.REPO, workers, hs)
        runs.append(r)
        for e in r['errors']:
            log('differential worker: %s' % e.strip().splitlines()[-1])
        return r['found']
    found = search(150 if thorough else 8, seed, 8 if thorough else 6)
    log('differential: %d texts, %d differences' % (sum(r['n'] for r in runs), len(found)))

    mir = mirjob.get()
    reps, missing, notes, off, undone, refuted = {}, {}, [], set(), ['everything'], []
    if mir is None:
        log('no MIR: %s' % mirjob.err)
        if exe is None:
            print(mirjob.err, harjob.err, file=sys.stderr)
            return 2
    else:
        log('MIR dumped')
        try:
            reps, missing, notes, off, undone, refuted = prove(prop, mir, (600 if thorough else 120) if found else 1500 if thorough else 330, known, found)
        except Exception:
            log('verifier error: %s' % traceback.format_exc())
    nobl = sum(len(r['obligations']) for r in reps.values())
    viacaller = sorted(n for n in off if n not in undone)
    own = [(n, f) for n, f in refuted if prop.owns(n, f['label'])]
    log('proof: %d functions, %d obligations, refuted %d (own %d), undecided %s' % (len(reps), nobl, len(refuted), len(own), undone))
    for n, r in reps.items():
        for u in sorted(set(r['unsupported']))[:3]:
            log('  out of reach in %s: %s' % (n, u[:300]))
    seen = set()
    for n, f in refuted:
        if (n, f['label']) not in seen and len(seen) < 20:
            seen.add((n, f['label']))
            log('  refuted: %s :: %s -- %s' % (n, f['label'], f['info'][:300]))

    if not found and (refuted or undone or viacaller):
        # look longer for an input
        more = 60 if own else 45
        hs = {}
        for k, h in hints.collect(reps):
            hs.setdefault(k, []).append(h)
        log('searching %d s for an input, %d countermodels as a start' % (more, sum(len(x) for x in hs.values())))
        found = search(more, seed + 77, hs=hs)
    violation = None
    obls = [dict(function=n, label=l) for n, l in sorted({(n, f['label']) for n, f in own})]
    if found:
        best = min(found, key=lambda f: (len(f.get('history', ())), len(f['hex'])))
        past = best.get('history', [])
        again = diff.after(exe, [(k, bytes.fromhex(h)) for k, h in past], best['kind'], bytes.fromhex(best['hex']), prop.project)
        if again is not None:
            path = write_replay(prop, dict(property=prop.id, kind=best['kind'], hex=best['hex'], text=bytes.fromhex(best['hex']).decode(), history=past,
                                           expected=best['expected'], got=best['got'], obligations=obls,
                                           replay='python3-vt /verif/mirv/check.py %s --replay <this file>' % prop.id))
            for k, h in past[:5]:
                log('after the text: %r' % bytes.fromhex(h).decode()[:300])
            log('input: %r' % bytes.fromhex(best['hex']).decode())
            log('specification: %s' % json.dumps(best['expected'])[:1500])
            log('real code:     %s' % json.dumps(best['got'])[:1500])
            violation = 'VIOLATION property=%s replay=%s' % (prop.id, path)
    if violation is None and own:
        path = write_replay(prop, dict(property=prop.id, obligations=[
            dict(function=n, label=f['label'], info=f['info'], where=str(f['loc']), condition=f['cond'], countermodel=f['model']) for n, f in own[:40]]))
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop.id, path)

    # recorded findings
    for k in known:
        if k['property'] != prop.id or exe is None:
            continue
        real = diff.Real(exe)
        o = real.run(k['kind'], k['text'].encode())
        real.stop()
        if 'ok' in o and shown(k['shows'], o['ok']):
            print('KNOWN-FINDING: property=%s %s: %s' % (prop.id, k['obligation'], k['what']))

    evidence(prop, tier, seed, reps, missing, notes, off, undone, viacaller, runs, refuted, violation, known)
    if violation:
        print(violation)
        return 1
    log('held')
    return 0


def evidence(prop, tier, seed, reps, missing, notes, off, undone, viacaller, runs, refuted, violation, known):
    import collections
    fns = []
    inl, mod = collections.Counter(), collections.Counter()
    used = set()
    total = done = 0
    for n, r in sorted(reps.items()):
        o = r['obligations']
        ok = sum(1 for v in o.values() if v[0] == v[1])
        total += len(o)
        done += ok if not r['unsupported'] else 0
        fns.append(dict(function=n, obligations=len(o), discharged=ok, instances=sum(v[0] for v in o.values()), paths=r['paths'],
                        solver_queries=r['queries'], solver_s=round(r['solver_s'], 2), wall_s=round(r['wall_s'], 2)))
        inl.update(r['inlined'])
        mod.update(r['modelled'])
        used |= set(r['used'])
    assumed = sorted(u for u in used if u not in reps)
    proof = bool(reps) and not undone and not refuted
    cov = dict(
        obligations=total, discharged=done,
        checker_cmd='python3-vt mirv/check.py %s' % prop.id,
        trusted_base=TRUSTED,
        backend='z3 through python3-vt' + ('; every unsatisfiable answer also put to cvc5' if tier == 'thorough' else ''),
        second_solver=dict(solver='cvc5', formulas=sum(r.get('cross', 0) for r in reps.values()), confirmed=sum(r.get('cross_ok', 0) for r in reps.values()),
                           contradicted=sum(r.get('cross_bad', 0) for r in reps.values()), unanswered=sum(r.get('cross_open', 0) for r in reps.values()),
                           solver_s=round(sum(r.get('cross_s', 0) for r in reps.values()), 2)) if tier == 'thorough' else None,
        solver_s=round(sum(r['solver_s'] for r in reps.values()), 2),
        solver_queries=sum(r['queries'] for r in reps.values()),
        own_obligations=sum(1 for n, r in reps.items() for l in r['obligations'] if prop.owns(n, l)),
        functions=fns,
        contracts_assumed_here=assumed,
        contracts_missing=missing,
        contracts_replaced_by_bodies=sorted(off),
        undecided=undone,
        notes=notes,
        known_finding_obligations=sorted({'%s' % l for r in reps.values() for l in r.get('known', [])}),
        library_functions_executed_from_mir=len(inl),
        library_functions_modelled=dict(mod.most_common(60)),
        bounded_differential=dict(
            label='bounded: generated texts, supplementary, not counted as proved',
            texts=sum(r['n'] for r in runs), distinct_nontrivial=sum(r['distinct'] for r in runs),
            rule='texts of up to some dozens of statements from a grammar focused on the property, with unusual literals, layout, letter case, repetition and '
                 'malformed statements; non-trivial: at least one statement was parsed from more than two tokens; the projection of the result of the real '
                 'code has to equal that of the specification',
            samples=[s for r in runs for s in r['samples']][:4]))
    level = 'proof' if proof else 'other'
    if not proof:
        cov['explanation'] = 'not every obligation could be discharged on this tree (refuted: %d, out of reach: %s); what is left was covered by the bounded differential run' % (
            len(refuted), undone)
    d = dict(property=prop.id, tier=tier, seed=seed, level=level, coverage=cov,
             assumptions=TRUSTED[2:] + (['contracts of %s, discharged by other checks' % ', '.join(assumed)] if assumed else []),
             wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop.id + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(d, f, indent=1, ensure_ascii=True)
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    sys.exit(main())
