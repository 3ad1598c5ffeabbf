"""Explorer driver: exhaustively runs every case of a check's bounded space on
the real glum, in parallel, and reports.

A check module (mc/checks/cXX.py) provides

* ``ID``, ``LEVEL``, ``RULE``
* ``cases(tier)``  -> list of JSON-able case descriptors (simplest first); the
  complete, finite space of the check for that tier;
* ``run(case, ctx)`` -> executes every behaviour of that case on the real code
  and compares each step with the reference; reports through ``ctx``.

Nothing in here is random: VERIF_SEED only permutes the order in which cases
are handed to the workers.
"""

import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = float(os.environ.get("MC_CASE_TIMEOUT", "150"))
SOFT_LIMIT = {"quick": 780.0, "thorough": 6 * 3600.0}
MAX_VIOL = int(os.environ.get("MC_MAX_VIOL", "12"))


def h64(obj):
    if not isinstance(obj, (str, bytes)):
        obj = json.dumps(obj, sort_keys=True, default=str)
    if isinstance(obj, str):
        obj = obj.encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "big")


class Ctx:
    """Collects what one case did."""

    def __init__(self, case=None):
        self.case = case
        self.states = set()  # distinct canonical states visited
        self.outcomes = set()  # distinct observed outcomes
        self.transitions = 0  # operations executed on the real code
        self.traces = 0  # complete real executions compared with the reference
        self.compared = 0  # individual comparisons with the reference
        self.skipped = 0  # executions outside the property's premise
        self.violations = []  # (signature, message)
        self.notes = {}

    def op(self, n=1):
        self.transitions += n

    def state(self, *key):
        self.states.add(h64(key))

    def outcome(self, *key):
        self.outcomes.add(h64(key))

    def trace(self, n=1):
        self.traces += n

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def fail(self, sig, msg=""):
        sig = str(sig)
        if all(sig != s for s, _ in self.violations):  # first witness of each kind
            self.violations.append((sig, str(msg)[:2000]))

    def check(self, ok, sig, msg=""):
        self.compared += 1
        if not ok:
            self.fail(sig, msg() if callable(msg) else msg)
        return bool(ok)

    def pack(self):
        return dict(
            states=self.states,
            outcomes=self.outcomes,
            transitions=self.transitions,
            traces=self.traces,
            compared=self.compared,
            skipped=self.skipped,
            violations=self.violations,
            notes=self.notes,
        )


def run_case(mod, case):
    ctx = Ctx(case)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(case, ctx)
    except Exception as e:  # an operation the model says must succeed raised
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(
            f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-6:])
        )
        ctx.fail(
            f"exception:{type(e).__name__}",
            f"unexpected {type(e).__name__}: {e} at {where}",
        )
    return ctx.pack()


def worker(modname, conn):
    import signal

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mod = importlib.import_module(modname)
    try:
        while True:
            batch = conn.recv()
            if batch is None:
                break
            for i, case in batch:
                conn.send((i, run_case(mod, case)))
    except EOFError:
        pass
    os._exit(0)


class W:
    def __init__(self, modname):
        self.modname = modname
        self.spawn()

    def spawn(self):
        self.conn, child = mp.Pipe()
        self.proc = mp.Process(target=worker, args=(self.modname, child), daemon=True)
        self.proc.start()
        child.close()
        self.pending = []
        self.t0 = time.time()

    def give(self, batch):
        self.pending = list(batch)
        self.t0 = time.time()
        self.conn.send(batch)

    def kill(self):
        self.proc.kill()
        self.proc.join()
        self.conn.close()


def merge(tot, r):
    tot["states"] |= r["states"]
    tot["outcomes"] |= r["outcomes"]
    for k in ("transitions", "traces", "compared", "skipped"):
        tot[k] += r[k]
    for k, v in r["notes"].items():
        tot["notes"][k] = tot["notes"].get(k, 0) + v


def load_known(prop):
    known, path = {}, os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            e = json.loads(line)
            if e.get("kind") == "known" and e["property"] == prop:
                known[(json.dumps(e["case"], sort_keys=True), e["signature"])] = e["what"]
    return known


def explore(mod, prop, tier, seed):
    cases = mod.cases(tier)
    order = list(range(len(cases)))
    random.Random(seed).shuffle(order)
    known = load_known(prop)
    nw = int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    nw = min(nw, getattr(mod, "MAX_WORKERS", nw), max(1, len(cases)))
    bs = max(1, min(getattr(mod, "BATCH", 8), len(cases) // (nw * 8) or 1))
    tot = dict(states=set(), outcomes=set(), transitions=0, traces=0, compared=0,
               skipped=0, notes={})
    viol, found, done, capped = [], [], 0, False
    t0 = time.time()
    limit = SOFT_LIMIT[tier]
    queue = order[::-1]
    workers = [W(mod.__name__) for _ in range(nw)]
    timeout = getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT)

    def take(r, i):
        nonlocal done
        done += 1
        merge(tot, r)
        for sig, msg in r["violations"]:
            k = (json.dumps(cases[i], sort_keys=True), sig)
            if k in known:
                found.append((k, known[k]))
            else:
                viol.append((cases[i], sig, msg))

    active = set()
    for w in workers:
        if queue:
            w.give([(j, cases[j]) for j in (queue.pop() for _ in range(min(bs, len(queue))))])
            active.add(w)
    while active:
        ready = mpc.wait([w.conn for w in active], timeout=1.0)
        now = time.time()
        if len(viol) >= MAX_VIOL:
            break
        if now - t0 > limit:
            capped = True
            break
        for w in list(active):
            if w.conn in ready:
                try:
                    i, r = w.conn.recv()
                except (EOFError, OSError):
                    i, case = w.pending[0]
                    w.proc.join(5)
                    viol.append((case, "crash", f"worker process died (exit {w.proc.exitcode})"))
                    done += 1
                    queue.extend(j for j, _ in w.pending[1:])
                    w.kill()
                    w.spawn()
                    active.discard(w)
                else:
                    assert w.pending[0][0] == i
                    w.pending.pop(0)
                    w.t0 = now
                    take(r, i)
                    if not w.pending:
                        active.discard(w)
            elif now - w.t0 > timeout and w.pending:
                i, case = w.pending[0]
                viol.append((case, "hang", f"no answer within {timeout:.0f} s"))
                done += 1
                queue.extend(j for j, _ in w.pending[1:])
                w.kill()
                w.spawn()
                active.discard(w)
            if w not in active and queue:
                w.give([(j, cases[j]) for j in (queue.pop() for _ in range(min(bs, len(queue))))])
                active.add(w)
    for w in workers:
        w.kill()
    return cases, tot, viol, found, done, capped, time.time() - t0


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    rest = sys.argv[3:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import glum

    want = os.environ.get("MC_REPO", "/repo") + "/src/"
    if not os.path.realpath(glum.__file__).startswith(want):
        sys.path.insert(0, want)
        for m in [m for m in sys.modules if m.split(".")[0] == "glum"]:
            del sys.modules[m]
        import glum
    assert os.path.realpath(glum.__file__).startswith(want), glum.__file__
    import glum._cd_fast
    import glum._functions  # noqa: F401

    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    if rest[:1] == ["--replay"]:
        rep = json.load(open(rest[1]))
        r = run_case(mod, rep["case"])
        for sig, msg in r["violations"]:
            print(f"{sig}: {msg}")
        print("reproduced" if any(s == rep["signature"] for s, _ in r["violations"]) else "not reproduced")
        return 1 if r["violations"] else 0
    if rest[:1] == ["--count"]:
        print(len(mod.cases(tier)))
        return 0

    cases, tot, viol, found, done, capped, explore_s = explore(mod, prop, tier, seed)
    wall = time.time() - t0
    outdir = os.path.join(ROOT, "evidence")
    os.makedirs(outdir, exist_ok=True)
    replay = None
    if viol:
        viol.sort(key=lambda v: cases.index(v[0]) if v[0] in cases else 0)
        os.makedirs(os.path.join(outdir, "replay"), exist_ok=True)
        replay = f"evidence/replay/{prop}.json"
        case, sig, msg = viol[0]
        with open(os.path.join(ROOT, replay), "w") as f:
            json.dump(dict(property=prop, case=case, signature=sig, message=msg,
                           how=f"./check {prop} {tier} --replay {replay}",
                           others=[dict(case=c, signature=s, message=m) for c, s, m in viol[1:MAX_VIOL]]),
                      f, indent=1, default=str)
    k = max(1, len(cases) // 5)
    coverage = dict(
        states=len(tot["states"]),
        transitions=tot["transitions"],
        traces_validated_against_impl=tot["traces"],
        samples=[json.dumps(c) for c in cases[::k][:6]],
        cases_in_space=len(cases),
        cases_completed=done,
        comparisons=tot["compared"],
        distinct_outcomes=len(tot["outcomes"]),
        executions_outside_premise=tot["skipped"],
        exhaustive=bool(not capped and done == len(cases)),
        capped=capped,
        rule=getattr(mod, "RULE", ""),
        notes=tot["notes"],
    )
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking", coverage=coverage,
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2), violations=len(viol),
    )
    with open(os.path.join(outdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} [{tier}] cases {done}/{len(cases)} states={coverage['states']} "
          f"transitions={coverage['transitions']} traces={coverage['traces_validated_against_impl']} "
          f"comparisons={coverage['comparisons']} outcomes={coverage['distinct_outcomes']} "
          f"skipped={coverage['executions_outside_premise']} notes={tot['notes']} wall={wall:.1f}s"
          + (" CAPPED" if capped else ""))
    for what in sorted({w for _, w in found}):
        print(f"KNOWN-FINDING: property={prop} {what}")
    if viol:
        for case, sig, msg in viol[:MAX_VIOL]:
            print(f"  {sig}\n     case={json.dumps(case, default=str)[:600]}\n     {msg[:1200]}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
