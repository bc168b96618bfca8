"""Run independent obligations in forked children with hard time limits."""
import multiprocessing as mp
import os
import pickle
import select
import signal
import sys
import time
import traceback


def run_tasks(tasks, fn, workers=None, hard_s=60, deadline=None, log=None):
    """{task: result}; a result is fn's value, or {'status':'timeout'|'crash',...}."""
    workers = workers or min(8, os.cpu_count() or 4)
    pending = list(tasks)[::-1]
    live = {}
    out = {}
    sys.stdout.flush()
    while pending or live:
        while pending and len(live) < workers:
            if deadline and time.time() > deadline:
                t = pending.pop()
                out[t] = {"status": "skipped"}
                continue
            t = pending.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    try:
                        res = fn(t)
                    except BaseException as e:  # reported as crash, never as violation
                        res = {
                            "status": "crash",
                            "error": repr(e)[:300],
                            "trace": traceback.format_exc()[-1500:],
                        }
                    data = pickle.dumps(res)
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = (t, pid, time.time(), [])
        if not live:
            continue
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for r in rd:
            t, pid, t0, buf = live[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            del live[r]
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
            try:
                out[t] = pickle.loads(b"".join(buf))
            except Exception:
                out[t] = {"status": "crash", "error": "no result from child"}
            if isinstance(out[t], dict):
                out[t].setdefault("wall_s", round(time.time() - t0, 2))
            if log:
                log(t, out[t])
        now = time.time()
        for r in list(live):
            t, pid, t0, buf = live[r]
            if now - t0 > hard_s:
                try:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except (ProcessLookupError, ChildProcessError):
                    pass
                os.close(r)
                del live[r]
                out[t] = {"status": "timeout", "wall_s": round(now - t0, 2)}
                if log:
                    log(t, out[t])
    return out
