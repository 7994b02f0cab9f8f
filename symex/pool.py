"""Runs jobs in forked processes, surviving crashes of native code."""
import json
import mmap
import os
import pickle
import select
import signal
import sys
import time

_NOTE = None
SIZE = 1 << 16


def note(obj):
    """Leave a note for the parent, should this process die."""
    if _NOTE is not None:
        data = json.dumps(obj).encode()
        if len(data) > SIZE - 8:
            data = b'null'
        _NOTE[0:8] = b'%08d' % len(data)
        _NOTE[8:8 + len(data)] = data


def _read_note(mm):
    try:
        n = int(mm[0:8])
        return json.loads(mm[8:8 + n].decode())
    except ValueError:
        return None


def isolated(func, args=(), seconds=20):
    """('ok', value) | ('error', text) | ('signal', n) | ('timeout', None)"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                res = 'ok', func(*args)
            except Exception as e:
                res = 'error', '%s: %s' % (type(e).__name__, e)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.time() + seconds
    res = None
    while True:
        left = end - time.time()
        if left <= 0:
            res = 'timeout', None
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            c = os.read(r, 1 << 16)
            if not c:
                break
            chunks.append(c)
    os.close(r)
    if res:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if res:
        return res
    if os.WIFSIGNALED(status):
        return 'signal', os.WTERMSIG(status)
    try:
        return pickle.loads(b''.join(chunks))
    except Exception:
        return 'error', 'no result'


class Slot:
    __slots__ = 'pid', 'fd', 'chunks', 'job', 'mm', 'started'


def run_jobs(jobs, func, *, workers=None, deadline=None, job_seconds=300):
    """Yields (job, kind, value, note) as jobs end; kinds as in isolated,
    and 'skipped' for jobs not started before the deadline."""
    global _NOTE
    workers = workers or min(8, os.cpu_count() or 1)
    queue = list(jobs)[::-1]
    slots = []
    try:
        while queue or slots:
            while queue and len(slots) < workers:
                if deadline and time.time() > deadline:
                    for j in queue[::-1]:
                        yield j, 'skipped', None, None
                    queue = []
                    break
                job = queue.pop()
                mm = mmap.mmap(-1, SIZE)
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if not pid:
                    code = 1
                    try:
                        os.close(r)
                        for s in slots:
                            os.close(s.fd)
                        _NOTE = mm
                        try:
                            res = 'ok', func(job)
                        except Exception as e:
                            import traceback
                            res = 'error', ''.join(
                                    traceback.format_exception(e))[-3000:]
                        with os.fdopen(w, 'wb') as f:
                            pickle.dump(res, f)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                s = Slot()
                s.pid, s.fd, s.chunks, s.job, s.mm = pid, r, [], job, mm
                s.started = time.time()
                slots.append(s)
            if not slots:
                continue
            ready, _, _ = select.select([s.fd for s in slots], [], [], 0.5)
            now = time.time()
            for s in list(slots):
                done = False
                killed = False
                if s.fd in ready:
                    c = os.read(s.fd, 1 << 16)
                    if c:
                        s.chunks.append(c)
                    else:
                        done = True
                if not done and now - s.started > job_seconds:
                    os.kill(s.pid, signal.SIGKILL)
                    done = killed = True
                if not done:
                    continue
                slots.remove(s)
                os.close(s.fd)
                _, status = os.waitpid(s.pid, 0)
                n = _read_note(s.mm)
                s.mm.close()
                if killed:
                    yield s.job, 'timeout', None, n
                elif os.WIFSIGNALED(status):
                    yield s.job, 'signal', os.WTERMSIG(status), n
                else:
                    try:
                        kind, value = pickle.loads(b''.join(s.chunks))
                    except Exception:
                        kind, value = 'error', 'no result'
                    yield s.job, kind, value, n
    finally:
        for s in slots:
            try:
                os.kill(s.pid, signal.SIGKILL)
                os.waitpid(s.pid, 0)
            except OSError:
                pass
