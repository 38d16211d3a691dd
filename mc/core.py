"""Bounded explorer: runs every case of a property's finite case space on the real code, in lockstep
with a reference model, and reports the first (simplest) case on which they disagree."""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg, self.key = msg, key


class CaseTimeout(BaseException):
    pass


class Ctx:
    """Collects what one case covered."""

    def __init__(self, tier='quick', keep_log=False):
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.skipped = 0
        self.log_lines = [] if keep_log else None

    def state(self, obj):
        self.states.add(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest())

    def step(self, what=None, n=1):
        self.transitions += n
        if self.log_lines is not None and what is not None:
            self.log_lines.append(str(what))

    def log(self, what):
        if self.log_lines is not None:
            self.log_lines.append(str(what))

    def skip(self):
        self.skipped += 1

    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def eq(self, got, want, what, key=None):
        if not (got == want):
            raise Violation("%s: expected %r, got %r" % (what, want, got), key)

    def close(self, got, want, what, rel=1e-9, abs_=1e-9, key=None):
        try:
            ok = close(got, want, rel, abs_)
        except Exception as e:                                       # not a number
            raise Violation("%s: expected %r, got %r (%s)" % (what, want, got, e), key)
        if not ok:
            raise Violation("%s: expected %r, got %r" % (what, want, got), key)

    def raises(self, exc, fn, what, key=None):
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            raise Violation("%s: expected %s, got %s: %s" % (what, _names(exc), type(e).__name__, e), key)
        raise Violation("%s: expected %s, but it was accepted (%r)" % (what, _names(exc), r), key)


def _names(exc):
    return '/'.join(e.__name__ for e in exc) if isinstance(exc, tuple) else exc.__name__


def close(a, b, rel=1e-9, abs_=1e-9):
    a, b = complex(a), complex(b)
    if a != a or b != b:
        return (a != a) and (b != b)
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


# ---------------------------------------------------------------------------------------------------

def _alarm(signum, frame):
    raise CaseTimeout()


def silence():
    """Send what the code under test prints to /dev/null."""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


def run_one(mod, case, tier, timeout=150, keep_log=False):
    """Returns (ctx, None) or (ctx, (message, key))."""
    ctx = Ctx(tier, keep_log)
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(timeout)
        try:
            mod.run_case(case, ctx)
        finally:
            signal.alarm(0)
        return ctx, None
    except Violation as v:
        return ctx, (v.msg, v.key)
    except CaseTimeout:
        return ctx, ("no answer within %d s" % timeout, None)
    except RecursionError:
        return ctx, ("RecursionError", None)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-5:]))
        return ctx, ("unexpected %s: %s [%s]" % (type(e).__name__, e, where), None)


def _worker(wid, mod, tier, inq, outq):
    silence()
    os.environ['MC_WORKER'] = str(wid)
    while True:
        item = inq.get()
        if item is None:
            break
        states, trans, skipped, fails, n = set(), 0, 0, [], 0
        for idx, case in item:
            ctx, fail = run_one(mod, case, tier)
            n += 1
            states |= ctx.states
            trans += ctx.transitions
            skipped += ctx.skipped
            if fail is not None:
                fails.append((idx, case, fail))
        outq.put((n, states, trans, skipped, fails, [i for i, _ in item]))


class Result:
    def __init__(self):
        self.cases = self.transitions = self.skipped = 0
        self.states = set()
        self.fails = []
        self.complete = True
        self.total = None


def explore(mod, tier, deadline, known_keys, workers=8, progress_timeout=420):
    import multiprocessing as mp
    mpc = mp.get_context('fork')
    res = Result()
    inq, outq = mpc.Queue(), mpc.Queue()
    procs = [mpc.Process(target=_worker, args=(i, mod, tier, inq, outq), daemon=True) for i in range(workers)]
    for p in procs:
        p.start()
    gen = enumerate(mod.cases(tier))
    chunk = getattr(mod, 'CHUNK', 16)
    pending = 0
    exhausted = False
    stop = False
    samples = []
    last = time.time()
    import queue as _q
    while True:
        while not stop and not exhausted and pending < 3 * workers:
            item = []
            for idx, case in gen:
                item.append((idx, case))
                if len(samples) < 400:
                    samples.append(case)
                if len(item) >= chunk:
                    break
            if not item:
                exhausted = True
                break
            inq.put(item)
            pending += 1
        if pending == 0:
            break
        try:
            n, states, trans, skipped, fails, idxs = outq.get(timeout=5)
        except _q.Empty:
            dead = [p for p in procs if not p.is_alive()]
            if dead:
                res.fails.append((-1, None, ("a worker process died (exit code %s) while running the code under "
                                             "test" % dead[0].exitcode, None)))
                break
            if time.time() - last > progress_timeout:
                res.fails.append((-1, None, ("no answer within %d s" % progress_timeout, None)))
                break
            continue
        last = time.time()
        pending -= 1
        res.cases += n
        res.states |= states
        res.transitions += trans
        res.skipped += skipped
        for f in fails:
            res.fails.append(f)
            if f[2][1] not in known_keys or f[2][1] is None:
                stop = True
        if time.time() > deadline and not stop:
            stop = True
            res.complete = False
    if not exhausted:
        res.complete = False
    for p in procs:
        inq.put(None)
    for p in procs:
        p.join(timeout=3)
    for p in procs:
        if p.is_alive():
            p.kill()
    # two ends and the middle of the first cases, as samples
    k = len(samples)
    res.samples = [samples[i] for i in sorted({0, k // 3, 2 * k // 3, k - 1}) if k]
    return res


def load_findings(prop):
    keys = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, text = rest.split(' ', 1)
                assert key.startswith('key=')
                keys[key[4:]] = text
    return keys


def write_evidence(prop, tier, seed, res, wall, mod, nviol):
    cov = {
        'states': len(res.states),
        'transitions': res.transitions,
        'traces_validated_against_impl': res.cases,
        'exhaustive': bool(res.complete),
        'skipped_undefined': res.skipped,
        'rule': getattr(mod, 'RULE', ''),
        'bounds': mod.bounds(tier) if hasattr(mod, 'bounds') else '',
        'samples': res.samples,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(wall, 3), 'violations': nviol}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    out = os.fdopen(os.dup(1), 'w')
    keys = load_findings(prop)
    fail = None
    res = Result()
    res.samples = []
    mod = None
    try:
        import importlib
        mod = importlib.import_module('mc.props.' + prop.lower())
        if hasattr(mod, 'load'):
            mod.load()
    except BaseException as e:
        traceback.print_exc()
        fail = (-1, None, ("the code under test cannot be imported: %s: %s" % (type(e).__name__, e), None))
    if fail is None:
        budget = float(os.environ.get('MC_BUDGET', '600' if tier == 'quick' else '7200'))
        res = explore(mod, tier, t0 + budget, set(keys))
    seen = {}
    for f in sorted(res.fails, key=lambda x: x[0]):
        key = f[2][1]
        if key is not None and key in keys:
            seen[key] = seen.get(key, 0) + 1
        elif fail is None:
            fail = f
    for key in seen:
        out.write("KNOWN-FINDING: property=%s key=%s %s (%d cases)\n" % (prop, key, keys[key], seen[key]))
    wall = time.time() - t0
    write_evidence(prop, tier, seed, res, wall, mod, 0 if fail is None else 1)
    out.write("%s %s: %d traces, %d states, %d transitions, %d undefined skipped, complete=%s, %.1f s\n" % (
        prop, tier, res.cases, len(res.states), res.transitions, res.skipped, res.complete, wall))
    code = 0
    if fail is not None:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (prop, os.getpid()))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'case': fail[1], 'message': fail[2][0],
                       'replay_with': './run.sh replay ' + path}, f, indent=1, default=str)
            f.write('\n')
        out.write("  case: %s\n  %s\n" % (json.dumps(fail[1], default=str)[:1500], str(fail[2][0])[:3000]))
        out.write("VIOLATION property=%s replay=%s\n" % (prop, path))
        code = 1
    out.flush()
    return code


def replay(path):
    import importlib
    d = json.load(open(path))
    mod = importlib.import_module('mc.props.' + d['property'].lower())
    if hasattr(mod, 'load'):
        mod.load()
    so = os.fdopen(os.dup(1), 'w')
    silence()
    runs = [run_one(mod, d['case'], d['tier'], keep_log=True) for _ in range(2)]
    for ctx, fail in runs:
        so.write("-- replay of %s\n" % json.dumps(d['case'])[:3000])
        for l in ctx.log_lines:
            so.write("   %s\n" % l)
        so.write("   => %s\n" % (fail[0] if fail else 'holds'))
    so.flush()
    if (runs[0][1] is None) != (runs[1][1] is None):
        so.write("replays diverge\n")
    so.flush()
    return 1 if runs[0][1] else 0
