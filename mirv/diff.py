"""Bounded differential runs: the real load_obj / load_mtl against the specification run
on the same text. Supplements the proofs; finds the concrete input behind a refuted
obligation."""
import json
import os
import select
import signal
import subprocess
import sys
import time
import conc
import gen


class Real:
    """The harness process around the real code."""

    def __init__(self, exe, limit=10.0):
        self.exe = exe
        self.limit = limit
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0,
                                  preexec_fn=limits)
        self.buf = b''

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except OSError:
                pass
            self.p = None

    def run(self, kind, data):
        """The outcome on one text: {'ok': ..} | {'err': ..} | {'panic': ..} | {'abort': ..} | {'hang': ..}"""
        if self.p is None:
            self.start()
        msg = kind.encode() + b' ' + data.hex().encode() + b'\n'
        end = time.time() + self.limit
        fd = self.p.stdout.fileno()
        ifd = self.p.stdin.fileno()
        os.set_blocking(ifd, False)
        try:
            while msg:
                _, w, _ = select.select([], [ifd], [], max(0, end - time.time()))
                if not w:
                    self.stop()
                    return {'hang': 'no answer in %g s' % self.limit}
                k = os.write(ifd, msg[:65536])
                msg = msg[k:]
            while b'\n' not in self.buf:
                r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
                if not r:
                    self.stop()
                    return {'hang': 'no answer in %g s' % self.limit}
                b = os.read(fd, 1 << 20)
                if not b:
                    rc = self.p.wait()
                    self.stop()
                    return {'abort': 'the process ended with %s' % rc}
                self.buf += b
        except BrokenPipeError:
            self.stop()
            return {'abort': 'the process ended'}
        line, _, self.buf = self.buf.partition(b'\n')
        return json.loads(line)


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def expect(kind, data):
    return (conc.load_obj if kind == 'o' else conc.load_mtl)(data)


def same_nan(a, b):
    return a == b


def differs(real, kind, data, project):
    """None, or (expected, got) where the projections differ."""
    want, at, toks = expect(kind, data)
    got = real.run(kind, data)
    a, b = project(kind, want), project(kind, got)
    if a == b:
        return None
    return a, b


def shrink(real, kind, data, project, seconds=8.0):
    """A smaller text that still differs."""
    end = time.time() + seconds
    best = data

    def bad(t):
        try:
            t.decode()
        except UnicodeDecodeError:
            return False
        try:
            return differs(real, kind, t, project) is not None
        except Exception:
            return False
    for split in (b'\n', b' ', None):
        parts = best.split(split) if split else [best[i:i + 1] for i in range(len(best))]
        sep = split or b''
        n = 2
        while len(parts) > 1 and time.time() < end:
            step = max(1, len(parts) // n)
            hit = False
            for i in range(0, len(parts), step):
                if time.time() > end:
                    break
                t = parts[:i] + parts[i + step:]
                if t and bad(sep.join(t)):
                    parts = t
                    n = max(n - 1, 2)
                    hit = True
                    break
            if not hit:
                if step == 1:
                    break
                n = min(len(parts), n * 2)
        best = sep.join(parts)
        if len(best) > 400 and split == b' ':
            break
    return best


def after(exe, past, kind, data, project):
    """The difference on a text read by a fresh process that has read the texts of `past` before."""
    real = Real(exe)
    try:
        for k, t in past:
            real.run(k, t)
        return differs(real, kind, data, project)
    except Exception:
        return None
    finally:
        real.stop()


def history(exe, past, kind, data, project, seconds=10.0):
    """A short history after which the text is read differently, or None."""
    end = time.time() + seconds * 3
    if after(exe, past, kind, data, project) is None:
        return None
    end = min(end, time.time() + seconds)
    n = 2
    while past and time.time() < end:
        step = max(1, len(past) // n)
        for i in range(0, len(past), step):
            if time.time() > end:
                break
            t = past[:i] + past[i + step:]
            if after(exe, t, kind, data, project) is not None:
                past = t
                n = max(n - 1, 2)
                break
        else:
            if step == 1:
                break
            n = min(len(past), n * 2)
    return past


SESSIONS = (20, 100, 500, 5000)      # texts read by one process of the real code


def worker(exe, seed, focus, kinds, project, seconds, mined, hints):
    """Run until the time is up or a difference is found."""
    real = Real(exe)
    g = gen.Gen(seed, mined[0], mined[1], focus, mined[2], hints)
    n = 0
    nontriv = set()
    samples = []
    found = []
    past = []
    sess = g.r.choice(SESSIONS)
    end = time.time() + seconds
    try:
        while time.time() < end and not found:
            if real.p is None or len(past) >= sess:
                real.stop()
                past = []
                sess = g.r.choice(SESSIONS)
            kind = kinds[n % len(kinds)]
            t = g.text(kind == 'o').encode()
            if past and g.p(0.06):
                kind, t = g.again(past)
            n += 1
            want, at, toks = expect(kind, t)
            got = real.run(kind, t)
            a, b = project(kind, want), project(kind, got)
            if a != b:
                if after(exe, [], kind, t, project) is not None:
                    small = shrink(real, kind, t, project)
                    d = after(exe, [], kind, small, project)
                    if d is None:
                        small, d = t, (a, b)
                    found.append(dict(kind=kind, hex=small.hex(), expected=d[0], got=d[1]))
                else:
                    h = history(exe, past, kind, t, project)
                    if h is not None:
                        found.append(dict(kind=kind, hex=t.hex(), expected=a, got=b, history=[[k, x.hex()] for k, x in h]))
                    else:
                        real.stop()
            past.append((kind, t))
            if at and len(toks) > 2:
                nontriv.add(hash(t))
            if len(samples) < 2 and at and 20 < len(t) < 300:
                samples.append(dict(kind=kind, text=t.decode()))
    finally:
        real.stop()
    return dict(n=n, distinct=len(nontriv), samples=samples, found=found)


def search(exe, seed, focus, kinds, project, seconds, repo, workers=8, hints=None):
    """The differential run proper, on several processors."""
    mined = gen.mine(repo)
    procs = []
    for w in range(workers):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                o = worker(exe, seed * 1000 + w, focus, kinds, project, seconds, mined, hints)
            except BaseException as e:
                import traceback
                o = dict(n=0, distinct=0, samples=[], found=[], error=traceback.format_exc())
            b = json.dumps(o).encode()
            k = 0
            while k < len(b):
                k += os.write(wr, b[k:])
            os._exit(0)
        os.close(wr)
        procs.append((pid, r))
    outs = []
    end = time.time() + seconds + 60
    for pid, r in procs:
        buf = b''
        while True:
            rd, _, _ = select.select([r], [], [], max(0, end - time.time()))
            if not rd:
                os.kill(pid, signal.SIGKILL)
                break
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
        os.close(r)
        os.waitpid(pid, 0)
        try:
            outs.append(json.loads(buf))
        except ValueError:
            outs.append(dict(n=0, distinct=0, samples=[], found=[], error='lost'))
    return dict(n=sum(o['n'] for o in outs), distinct=sum(o['distinct'] for o in outs),
                samples=[s for o in outs for s in o['samples']][:4],
                found=[f for o in outs for f in o['found']],
                errors=[o['error'] for o in outs if o.get('error')])


def whole(kind, o):
    return o
