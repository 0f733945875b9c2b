"""Task scheduler: every task is analysed in its own forked process."""
import os, sys, time, pickle, signal, traceback, select
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)


class Res:
    """outcome of one task"""

    def __init__(self, task):
        self.task = task
        self.obl = 0          # obligations generated
        self.dis = 0          # obligations discharged
        self.paths = 0
        self.funcs = set()
        self.viol = []        # (key, message, location)
        self.err = None
        self.loc = None
        self.skip = None
        self.notes = []
        self.wall = 0.0


def ncpu():
    return max(1, min(8, os.cpu_count() or 1))


def run(tasks, fn, timeout=600, verbose=False, failed=None, grace=100):
    """fn(task) -> Res, each in a child; returns list of Res in task order.  Once a result
    satisfies `failed`, the tasks not finished `grace` seconds later are given up."""
    until = None
    res = [None] * len(tasks)
    live = {}
    nxt = 0
    n = ncpu()
    while nxt < len(tasks) or live:
        while nxt < len(tasks) and len(live) < n:
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                t = time.time()
                try:
                    out = fn(tasks[nxt])
                except BaseException as e:
                    out = Res(tasks[nxt])
                    out.err = "%s: %s" % (type(e).__name__, str(e)[:600])
                    out.loc = getattr(e, "where", None)
                    if os.environ.get("VERIF_TRACE"):
                        out.err += "\n" + traceback.format_exc()
                out.wall = time.time() - t
                try:
                    b = pickle.dumps(out, -1)
                except Exception as e:
                    o2 = Res(tasks[nxt]); o2.err = "result not serialisable: %s" % e
                    b = pickle.dumps(o2, -1)
                with os.fdopen(w, "wb") as f:
                    f.write(b)
                os._exit(0)
            os.close(w)
            live[r] = (nxt, pid, time.time(), [])
            nxt += 1
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            i, pid, t0, buf = live[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            d = b"".join(buf)
            if d:
                res[i] = pickle.loads(d)
            else:
                res[i] = Res(tasks[i]); res[i].err = "analysis process died"
            if verbose:
                q = res[i]
                print("%7.1fs %-60s obl=%d dis=%d%s%s%s" % (q.wall, " ".join(map(str, tasks[i]))[:60], q.obl, q.dis, " SKIP " + q.skip if q.skip else "", " ERR " + q.err[:300] if q.err else "", " VIOL " + str(q.viol[0])[:300] if q.viol else ""), flush=True)
        now = time.time()
        if failed and until is None and rd and any(res[i] is not None and failed(res[i]) for i in range(nxt)):
            until = now + grace
        if until and now > until:
            for r in list(live):
                os.kill(live[r][1], signal.SIGKILL)
                os.waitpid(live[r][1], 0)
                os.close(r)
            for i in range(len(tasks)):
                if res[i] is None:
                    res[i] = Res(tasks[i]); res[i].skip = "given up after a violation elsewhere"
            break
        for r in list(live):
            i, pid, t0, buf = live[r]
            if now - t0 > timeout:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                res[i] = Res(tasks[i]); res[i].err = "analysis exceeded %ds" % timeout
    return res
