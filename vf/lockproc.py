"""
Server for file lock runs with real processes (no simulator in here).

Reads one JSON case per line on stdin, forks the processes it asks for inside
a scratch directory, and answers with one JSON line.  Run as
    lockproc.py REPO SCRATCH
"""
import ctypes
import json
import mmap
import os
import random
import signal
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO, SCRATCH = sys.argv[1:3]
sys.path[:] = [REPO] + [p for p in sys.path if os.path.abspath(p) != HERE]
sys.dont_write_bytecode = True
import logging  # noqa: E402
logging.disable(logging.CRITICAL)
logging.raiseExceptions = False
from aiuti.filelock import FileLock  # noqa: E402
import aiuti.filelock as _fl  # noqa: E402

assert _fl.__file__.startswith(REPO + '/'), _fl.__file__
_src = open(os.path.join(HERE, 'lockforms.py')).read()
_ns = {}
exec(compile(_src, 'lockforms.py', 'exec'), _ns)
DEFAULTS, FORMS, params = _ns['DEFAULTS'], _ns['FORMS'], _ns['params']

libc = ctypes.CDLL(None, use_errno=True)
PREFIX = REPO + '/aiuti/'
E = sys.monitoring.events
TOOL = 3
NSLOT = 64
OFF_CNT = 256
SIZE = 4096


def die_with_parent():
    libc.prctl(1, signal.SIGKILL)      # PR_SET_PDEATHSIG
    if os.getppid() == 1:
        os._exit(3)


class Shared:
    """Shared by all processes of one case."""

    def __init__(self):
        self.m = mmap.mmap(-1, SIZE)

    # byte 0: stop, 1: the victim is dying
    # bytes 16+i: participant i is inside
    def inside(self):
        return [i for i, x in enumerate(self.m[16:16 + NSLOT]) if x]

    def count(self, i):
        o = OFF_CNT + 8 * i
        return int.from_bytes(self.m[o:o + 8], 'little')

    def bump(self, i):
        o = OFF_CNT + 8 * i
        self.m[o:o + 8] = (self.count(i) + 1).to_bytes(8, 'little')


def on_lines(fn, event=E.LINE):
    """Call fn at every line (or instruction) of the package in this process."""
    mon = sys.monitoring

    def cb(code, where):
        if not code.co_filename.startswith(PREFIX):
            return mon.DISABLE
        fn()
    mon.use_tool_id(TOOL, 'vf-lockproc')
    mon.register_callback(TOOL, event, cb)
    mon.set_events(TOOL, event)
    mon.restart_events()


def spell(path, kind):
    d, n = os.path.split(path)
    k = kind % 4
    if k == 1:
        return os.path.relpath(path)
    if k == 2:
        return os.path.join(d, 'alias', n)
    if k == 3:
        return os.path.join(d, '.', '', n)
    return path


class Section:
    """Detects two participants inside at once."""

    def __init__(self, sh, slot, path, victim=None):
        self.sh = sh
        self.slot = slot
        self.marker = path + '.marker'
        self.victim = victim
        self.overlaps = []

    def enter(self):
        sh = self.sh
        sh.m[16 + self.slot] = 1
        others = [i for i in sh.inside() if i != self.slot]
        if self.victim is None:
            try:
                os.close(os.open(self.marker, os.O_CREAT | os.O_EXCL))
            except FileExistsError:
                self.overlaps.append('the marker of another one exists')
        self.look(others)

    def look(self, others=None):
        sh = self.sh
        if others is None:
            others = [i for i in sh.inside() if i != self.slot]
        if self.victim in others and (sh.m[1] or self.slot == self.victim):
            others.remove(self.victim)
        if others and not (self.slot == self.victim and sh.m[1]):
            self.overlaps.append(f'{others} are inside too')

    def leave(self):
        self.look()
        if self.victim is None:
            try:
                os.unlink(self.marker)
            except FileNotFoundError:
                self.overlaps.append('another one removed my marker')
        self.sh.m[16 + self.slot] = 0


def attempt(lock, how, form, default):
    """-> context manager or True on success, None otherwise"""
    a, k, mode, T, poll = params(form, default)
    if how == 2:
        a, k = (), {}
    try:
        if how == 0:
            return lock.acquire(*a, **k) or None
        cm = lock.acquire_ctx(*a, **k) if how == 1 else lock
        cm.__enter__()
        return cm
    except TimeoutError:
        return None


def leave(lock, got, force):
    if got is not True:
        got.__exit__(None, None, None)
    elif force:
        lock.release(force=True)
    else:
        lock.release()


def locks(case, path):
    return [FileLock(spell(path, k), timeout=DEFAULTS[d % 3],
                     reentrant=bool(case['re'])) for d, k in case['objs']]


def rounds(objs, case, sec, todo, rnd, stats, stop=None):
    for gap, o, how, form, hold, nested, force in todo:
        if stop is not None and stop():
            return
        lock = objs[o % len(objs)]
        d = DEFAULTS[case['objs'][o % len(objs)][0] % 3]
        if gap:
            time.sleep(rnd.random() * gap / 1000)
        got = attempt(lock, how % 3, form, d)
        if got is None:
            stats['failed'] += 1
            continue
        sec.enter()
        stats['in'] += 1
        inner = None
        if nested and case['re']:
            inner = attempt(lock, 0, 0, d)
        if hold:
            time.sleep(hold / 10000)
        else:
            os.sched_yield()
        if inner and not (force and got is True):
            lock.release()
            sec.look()
        sec.leave()
        leave(lock, got, force)


def noise(rnd, p):
    def fn():
        if rnd.random() < p:
            x = rnd.random()
            time.sleep(0 if x < 0.5 else x * 1e-3)
    return fn


def child(fn):
    """fork; -> pid, fd on which the child's JSON result arrives"""
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 1
    try:
        os.close(r)
        die_with_parent()
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        res = fn()
        os.write(w, json.dumps(res).encode())
        code = 0
    except BaseException as e:  # noqa
        import traceback
        try:
            os.write(w, json.dumps({'error': repr(e), 'tb':
                                    traceback.format_exc()[-1500:]}).encode())
        except BaseException:  # noqa
            pass
    finally:
        os._exit(code)


def collect(pid, fd, deadline):
    """-> result dict, or None if it did not end in time (killed then)"""
    import select
    data = b''
    while True:
        left = deadline - time.monotonic()
        if left <= 0 or not select.select([fd], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(fd)
            return None
        b = os.read(fd, 65536)
        if not b:
            break
        data += b
    os.waitpid(pid, 0)
    os.close(fd)
    return json.loads(data) if data else {'error': 'died'}


# -- C02: contention ----------------------------------------------------------
def contention(case, path):
    sh = Shared()
    gate = mmap.mmap(-1, 8)
    kids = []
    slot = 0
    for n, proc in enumerate(case['procs']):
        def main(n=n, proc=proc, slot=slot):
            rnd = random.Random(f'{case["seed"]}-{n}')
            objs = locks(case, path)
            sys.setswitchinterval(1e-4)
            stats = {'in': 0, 'failed': 0}
            secs = [Section(sh, slot + i, path) for i in range(len(proc))]
            if case['noise']:
                on_lines(noise(rnd, case['noise'] / 100))
            while not gate[0]:
                time.sleep(0)
            ts = [threading.Thread(target=rounds, args=(
                objs, case, s, todo, rnd, stats))
                for s, todo in zip(secs[1:], proc[1:])]
            for t in ts:
                t.start()
            rounds(objs, case, secs[0], proc[0], rnd, stats)
            for t in ts:
                t.join()
            return dict(stats, overlaps=[o for s in secs for o in s.overlaps])
        slot += len(proc)
        kids.append(child(main))
    gate[0] = 1
    end = time.monotonic() + 60
    res = [collect(pid, fd, end) for pid, fd in kids]
    return {'results': res}


# -- C13: crashes ---------------------------------------------------------------
def victim_main(case, path, sh, slot):
    """Runs the operations; dies at the k-th line."""
    objs = locks(case, path)
    sec = Section(sh, slot, path, victim=slot)
    depth = [0] * len(objs)
    held = []                     # contexts (object, cm)
    rnd = random.Random(1)
    left = [case['k']]

    def tick():
        left[0] -= 1
        if left[0] == 0:
            sh.m[1] = 1
            os.kill(os.getpid(), signal.SIGKILL)
            time.sleep(10)

    def run():
        for o, what, form in case['ops']:
            o %= len(objs)
            lock = objs[o]
            d = DEFAULTS[case['objs'][o][0] % 3]
            if what in (0, 3, 5):
                mode = params(form, d)[2]
                if what == 5:
                    mode = 'block' if d < 0 else 'timed'
                can = not any(depth) or (depth[o] and case['re'])
                if not can and mode == 'block':
                    continue
                inner = any(depth)
                got = attempt(lock, {0: 0, 3: 1, 5: 2}[what], form, d)
                if got is not None:
                    depth[o] += 1
                    if got is not True:
                        held.append((o, got))
                    if not inner:
                        sec.enter()
            elif what == 4:
                for i in range(len(held) - 1, -1, -1):
                    if held[i][0] == o:
                        out(o, False)
                        held.pop(i)[1].__exit__(None, None, None)
                        break
            elif what in (1, 2):
                out(o, what == 2)
                lock.release(**({'force': True} if what == 2 else {}))
            elif what == 6:
                # a helper process which survives the victim
                os.posix_spawn('/bin/sleep', ['sleep', '4'], os.environ)
            elif what == 7:
                time.sleep(form / 1000)

    def out(o, full):
        if depth[o]:
            depth[o] = 0 if full else depth[o] - 1
            if not any(depth):
                sec.leave()

    if case['k']:
        if case.get('unit') == 'instr':
            on_lines(tick, E.INSTRUCTION)
        else:
            on_lines(tick)
    extra = None
    if case.get('thread'):
        # another thread of the victim is at it too, on an object of its own
        other = FileLock(path, reentrant=bool(case['re']))

        def loop():
            while True:
                if other.acquire(True, 0.01, 0.002):
                    other.release()
                time.sleep(0.0003)
        extra = threading.Thread(target=loop, daemon=True)
        extra.start()
    try:
        run()
        if case.get('delay') is not None:
            time.sleep(case['delay'] / 1e6 + 0.05)
    finally:
        sh.m[1] = 1            # may still hold it, and exits now
    return {'overlaps': sec.overlaps, 'ended': True}


def crash(case, path):
    sh = Shared()
    kids = []
    for i, (re, how, form, hold) in enumerate(case['contenders']):
        def main(i=i, re=re, how=how, form=form, hold=hold):
            rnd = random.Random(f'{case["k"]}-{i}')
            c = {'re': re, 'objs': [[0, i + 1]]}
            objs = locks(c, path)
            sec = Section(sh, i, path, victim=NSLOT - 1)
            stats = {'in': 0, 'failed': 0}
            while not sh.m[0]:
                n = stats['in']
                rounds(objs, c, sec, [[0.5, 0, how, form, hold, i, 0]], rnd,
                       stats)
                if stats['in'] > n:
                    sh.bump(i)
                time.sleep(0.0004)
            return dict(stats, overlaps=sec.overlaps)
        kids.append(child(main))
    for i in range(len(kids)):
        t = time.monotonic() + 10
        while not sh.count(i) and time.monotonic() < t:
            time.sleep(0.0003)
    vpid, vfd = child(lambda: victim_main(case, path, sh, NSLOT - 1))
    out = {}
    if case.get('delay') is not None:
        t = time.monotonic() + case['delay'] / 1e6
        while time.monotonic() < t:
            pass
        sh.m[1] = 1
        try:
            os.kill(vpid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    import select
    if not select.select([vfd], [], [], 20)[0]:
        os.kill(vpid, signal.SIGKILL)
        out['stuck'] = 'the victim'
    b = os.read(vfd, 65536)
    os.close(vfd)
    _, st = os.waitpid(vpid, 0)
    t0 = time.monotonic()
    out['killed'] = os.WIFSIGNALED(st)
    out['victim'] = json.loads(b) if b else None
    sh.m[1] = 1
    # the others must get on
    base = [sh.count(i) for i in range(len(kids))]
    slow = None
    for i in range(len(kids)):
        while sh.count(i) < base[i] + 2:
            if time.monotonic() - t0 > 15:
                slow = i
                break
            time.sleep(0.0005)
    sh.m[0] = 1
    end = time.monotonic() + (2 if slow is not None else 20)
    res = [collect(pid, fd, end) for pid, fd in kids]
    out['contenders'] = res
    if slow is not None:
        out['stuck'] = f'contender {slow}'

    # a process which has nothing to do with any of them
    def probe():
        r = []
        for o in (FileLock(path), FileLock(spell(path, 2), reentrant=True)):
            t = time.monotonic()
            ok = o.acquire(False)
            dt = time.monotonic() - t
            if ok:
                o.release()
            else:
                ok2 = o.acquire(True, 3)
                r.append([ok, dt, ok2, time.monotonic() - t])
                continue
            r.append([ok, dt])
        t = time.monotonic()
        with FileLock(path, timeout=3):
            r.append([True, time.monotonic() - t])
        return {'probe': r}
    if 'stuck' not in out:
        pid, fd = child(probe)
        out['probe'] = collect(pid, fd, time.monotonic() + 20)
    return out


def main():
    die_with_parent()
    os.makedirs(SCRATCH, exist_ok=True)
    d = os.path.join(SCRATCH, f'p{os.getpid()}')
    os.mkdir(d)
    os.symlink(d, os.path.join(d, 'alias'))
    os.chdir(d)
    path = os.path.join(d, 'lock')
    for line in sys.stdin:
        case = json.loads(line)
        for f in (path, path + '.marker'):
            if os.path.lexists(f):
                os.unlink(f)
        try:
            res = {'contention': contention, 'crash': crash}[case['kind']](
                case, path)
        except BaseException as e:  # noqa
            import traceback
            res = {'error': repr(e), 'tb': traceback.format_exc()}
        sys.stdout.write(json.dumps(res) + '\n')
        sys.stdout.flush()


if __name__ == '__main__':
    main()
