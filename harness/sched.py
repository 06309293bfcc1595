"""Schedules: calls that overlap in time, switched at chosen lines of the library, and calls broken off at a chosen line.

Each call runs in its own thread; one thread at a time runs, and the turn passes when the running one has executed the number of lines of the
library given for its slice. The same cuts give the same schedule."""
import sys, os, threading, contextlib, io, warnings
import rec

ROOT = os.path.join(rec.REPO, 'wiz') + os.sep


class Cut(BaseException):
    """breaks a call off (as KeyboardInterrupt would)"""


def _tracer(tick):
    def local(frame, event, arg):
        if event == 'line':
            tick()
        return local
    return lambda frame, event, arg: local if frame.f_code.co_filename.startswith(ROOT) else None


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        rec.PLAIN = True
        try:
            yield
        finally:
            rec.PLAIN = False


def lines(f):
    """number of lines of the library that f executes"""
    n = [0]
    def tick(): n[0] += 1
    with quiet():
        sys.settrace(_tracer(tick))
        try:
            f()
        finally:
            sys.settrace(None)
    return n[0]


def broken(f, k):
    """f broken off before its k-th line; whether it was"""
    n = [0]
    def tick():
        n[0] += 1
        if n[0] == k:
            raise Cut()
    with quiet():
        sys.settrace(_tracer(tick))
        try:
            f()
            return False
        except Cut:
            return True
        finally:
            sys.settrace(None)


def overlap(fs, cuts):
    """the calls fs overlapping: the first runs cuts[0] lines, then the next cuts[1], and so on in turn; the last slices run to the end"""
    sems = [threading.Semaphore(0) for _ in fs]
    alive, errors = [True] * len(fs), []
    cuts = list(cuts)
    left = [0]

    def slice_():
        left[0] = cuts.pop(0) if cuts else None

    def following(i):
        for d in range(1, len(fs)):
            if alive[(i + d) % len(fs)]:
                return (i + d) % len(fs)

    def body(i):
        def tick():
            if left[0] is None:
                return
            if left[0] > 0:
                left[0] -= 1
                return
            j = following(i)
            slice_()
            if j is not None:
                sems[j].release()
                sems[i].acquire()
        sems[i].acquire()
        try:
            sys.settrace(_tracer(tick))
            fs[i]()
        except BaseException as e:
            errors.append(e)
        finally:
            sys.settrace(None)
            alive[i] = False
            j = following(i)
            if j is not None:
                slice_()
                sems[j].release()
    with quiet():
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fs))]
        for t in ts: t.start()
        slice_()
        sems[0].release()
        for t in ts: t.join(120)
        if any(t.is_alive() for t in ts):
            raise RuntimeError('overlapping calls do not end')
    if errors:
        raise errors[0]
