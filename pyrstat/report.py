"""Results of a check: obligations, violations, undecided points, evidence."""
import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier="quick"):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.violations = {}
        self.undecided = []
        self.rule = ""
        self.assumptions = []
        self.samples = []
        self.counters = {}

    # one obligation = one question decided about one construct
    def ok(self, what=None, n=1):
        self.obligations += n
        self.discharged += n
        if what is not None and len(self.samples) < 40:
            self.samples.append(str(what))

    def bad(self, key, message):
        """A violation; `key` identifies the construct."""
        self.obligations += 1
        self.violations.setdefault(key, message)

    def skip(self, what):
        self.obligations += 1
        if what not in self.undecided:
            self.undecided.append(what)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def engine(self, e):
        self.count("abstract_calls_interpreted", e.calls)
        self.counters.setdefault("functions_analysed", set()).update(
            e.analysed)
        self.counters.setdefault("call_sites", set()).update(e.callsites)
        self.count("events", len(e.events))


def known_keys(prop):
    path = os.path.join(HERE, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                if rest.startswith("key="):
                    key, _, what = rest[4:].partition(" :: ")
                    out[key] = what
    return out


def finish(rep, level="other", explanation=""):
    known = known_keys(rep.prop)
    new = {k: v for k, v in rep.violations.items() if k not in known}
    cov = {"explanation": explanation or rep.rule, "rule": rep.rule,
           "obligations": rep.obligations, "discharged": rep.discharged,
           "undecided": len(rep.undecided)}
    for k, v in sorted(rep.counters.items()):
        cov[k] = len(v) if isinstance(v, set) else v
    if "functions_analysed" in rep.counters:
        cov["functions"] = sorted(rep.counters["functions_analysed"])
    cov["samples"] = rep.samples[:40]
    if rep.undecided:
        cov["undecided_points"] = rep.undecided[:40]
    if rep.violations:
        cov["violations_found"] = [
            {"construct": k, "what": v, "known": k in known}
            for k, v in rep.violations.items()]
    ev = {"property": rep.prop, "tier": rep.tier,
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": level, "coverage": cov, "assumptions": rep.assumptions,
          "wall_s": round(time.time() - rep.t0, 3), "violations": len(new)}
    d = os.environ.get("PYRSTAT_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, rep.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for k in sorted(rep.violations):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (rep.prop, known[k]))
    for u in rep.undecided[:20]:
        print("UNDECIDED: %s" % u)
    print("%s: %d obligations, %d discharged, %d violations, %d undecided "
          "(%.1fs)" % (rep.prop, rep.obligations, rep.discharged, len(new),
                       len(rep.undecided), time.time() - rep.t0))
    if new:
        p = os.path.join(d, rep.prop + ".violations.txt")
        with open(p, "w") as fh:
            for k, v in new.items():
                fh.write("%s\n    %s\n" % (k, v))
        for k, v in new.items():
            print("  %s\n      %s" % (k, v))
        print("VIOLATION property=%s replay=%s" % (rep.prop, p))
        return 1
    return 0


def _merge(rep, part):
    rep.obligations += part.obligations
    rep.discharged += part.discharged
    for k, v in part.violations.items():
        rep.violations.setdefault(k, v)
    for u in part.undecided:
        if u not in rep.undecided:
            rep.undecided.append(u)
    for s in part.samples:
        if len(rep.samples) < 40 and s not in rep.samples:
            rep.samples.append(s)
    for k, v in part.counters.items():
        if isinstance(v, set):
            rep.counters.setdefault(k, set()).update(v)
        else:
            rep.counters[k] = rep.counters.get(k, 0) + v


class TimeUp(BaseException):
    pass


START = time.time()
BUDGET = 780            # seconds for one check, of the 900 it may take
MEMORY = 3 << 30        # bytes of address space for one task


def _work(job):
    fn, args, prop, tier = job
    import resource
    import signal
    import sys
    import traceback
    from .front import AnalysisBroken
    sys.setrecursionlimit(20000)
    part = Report(prop, tier)
    left = int(START + BUDGET - time.time())
    if left < 2:
        return part, "time", "no time left for this task"

    def up(*a):
        raise TimeUp()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (
            MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
        signal.signal(signal.SIGALRM, up)
        signal.alarm(left)
    except (ValueError, OSError):
        pass
    try:
        fn(part, *args)
        signal.alarm(0)
    except TimeUp:
        return part, "time", "time limit"
    except MemoryError:
        signal.alarm(0)
        return part, "memory", "memory limit"
    except AnalysisBroken as ex:
        return part, "broken", str(ex)
    except RecursionError:
        return part, "crash", "recursion limit"
    except Exception:
        return part, "crash", traceback.format_exc()
    return part, None, None


def _child(conn, job):
    res = _work(job)
    try:
        conn.send(res)
    except Exception as ex:
        conn.send((Report(job[2], job[3]), "crash", "result lost: %r" % ex))
    conn.close()


def _farm(ctx, jobs, n):
    """One process per task; a task that dies loses its own result only."""
    from multiprocessing.connection import wait
    res = [None] * len(jobs)
    todo = list(range(len(jobs)))[::-1]
    live = {}
    while todo or live:
        while todo and len(live) < n:
            k = todo.pop()
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=_child, args=(b, jobs[k]))
            pr.start()
            b.close()
            live[a] = (k, pr)
        for c in wait(list(live), timeout=5):
            k, pr = live.pop(c)
            try:
                res[k] = c.recv()
            except (EOFError, OSError):
                pass
            c.close()
            pr.join()
        if time.time() > START + BUDGET + 15:
            for c, (k, pr) in live.items():
                pr.kill()
                pr.join()
            live, todo = {}, []
    for k, r in enumerate(res):
        if r is None:
            res[k] = (Report(jobs[k][2], jobs[k][3]), "died",
                      "the analysis of this task did not finish")
    return res


def run_tasks(rep, tasks):
    """Run [(function, args)] on all cores; merge their reports."""
    import multiprocessing as mp
    from .front import AnalysisBroken
    jobs = [(fn, args, rep.prop, rep.tier) for fn, args in tasks]
    n = min(len(jobs), os.cpu_count() or 1)
    if n <= 1:
        res = [_work(j) for j in jobs]
    else:
        res = _farm(mp.get_context("fork"), jobs, n)
    failed = []
    for (part, st, msg), (fn, args) in zip(res, tasks):
        _merge(rep, part)
        if st is not None:
            failed.append((fn, args, st, msg))
    for fn, args, st, msg in failed:
        if st == "broken" and len(failed) == len(tasks):
            raise AnalysisBroken(msg)
        rep.skip("%s%r: %s" % (fn.__name__, args, msg.strip().split("\n")[-1]
                               ))
        if os.environ.get("PYRSTAT_DEBUG"):
            print(msg)
    if tasks and len(failed) == len(tasks) and not rep.violations:
        raise AnalysisBroken("every scenario of %s failed: %s" % (
            rep.prop, failed[0][3].strip().split("\n")[-1]))
