"""Verify many functions at once: one process per function, sharing the processors."""
import os, pickle, select, time, signal, sys
import contracts, interp

CPUS = max(2, min(8, os.cpu_count() or 2))


def make_pool(n=CPUS):
    if interp._tokens is None:
        interp.make_tokens(n)


def lost(name, why):
    return dict(name=name, instances=0, obligations={}, failures=[], unsupported=[why], used=[], paths=0, queries=0,
                solver_s=0.0, wall_s=0.0, modelled={}, inlined={}, closed={}, live=set())


def verify_many(prog, ct, names, seconds):
    """name -> report. Every function gets the same wall-clock budget."""
    make_pool()
    jobs = {}
    out = {}
    poll = select.poll()
    for n in names:
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.close(r)
            try:
                rep = contracts.verify(prog, ct, n, seconds)
            except BaseException as e:
                rep = lost(n, 'verifier error: %s: %s' % (type(e).__name__, e))
            b = pickle.dumps(rep)
            k = 0
            while k < len(b):
                k += os.write(w, b[k:])
            os._exit(0)
        os.close(w)
        os.set_blocking(r, True)
        jobs[r] = (n, pid, [])
        poll.register(r, select.POLLIN | select.POLLHUP)
    end = time.time() + seconds + 60
    while jobs:
        ev = poll.poll(1000)
        for fd, _ in ev:
            n, pid, buf = jobs[fd]
            b = os.read(fd, 1 << 20)
            if b:
                buf.append(b)
                continue
            poll.unregister(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            del jobs[fd]
            try:
                out[n] = pickle.loads(b''.join(buf))
            except Exception:
                out[n] = lost(n, 'the verifying process was lost')
        if time.time() > end:
            for fd, (n, pid, buf) in jobs.items():
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                out[n] = lost(n, 'time limit')
            break
    return out


def vacuous(rep):
    """Obligations that no satisfiable state reaches: nothing was decided by discharging them."""
    if rep['failures']:
        return []       # exploration may have been stopped
    return sorted(set(rep['obligations']) - rep['live'])


def clean(rep):
    return bool(rep['instances']) and bool(rep['obligations']) and not rep['failures'] and not rep['unsupported'] and not vacuous(rep)
