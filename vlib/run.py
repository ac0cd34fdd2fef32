"""Runner: spreads the cases of one property over worker processes, collects
verdicts, writes evidence/<id>.json and prints the outcome."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
from multiprocessing import connection as mp_connection
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")


def _alarm(signum, frame):
    raise TimeoutError("case watchdog")


def _init():
    global jax
    sys.stdout = open(os.devnull, "w")
    import jax

    import parametricmatrixmodels as pmm

    assert os.path.realpath(pmm.__file__).startswith("/repo/"), pmm.__file__


class Lines:
    """Records which lines of the code under test ran (each reported once, so
    that watching costs nothing after the first time)."""

    def __init__(self):
        self.new = []
        m = sys.monitoring
        m.use_tool_id(m.COVERAGE_ID, "verif")
        m.register_callback(m.COVERAGE_ID, m.events.LINE, self._line)
        m.set_events(m.COVERAGE_ID, m.events.LINE)

    def _line(self, code, line):
        f = code.co_filename
        if f.startswith("/repo/parametricmatrixmodels/"):
            self.new.append((f[29:], line))
        return sys.monitoring.DISABLE

    def take(self):
        r, self.new = self.new, []
        return r


def run_case(prop, name, idx, seed):
    """Run one case in this process; returns a plain dict."""
    import jax

    from vlib.core import Mon, Skip, Violation, case_rng

    mod = importlib.import_module("checks." + prop.lower())
    sc = next(s for s in mod.R.items if s["name"] == name)
    mon = Mon()
    res = dict(scenario=name, idx=idx, seed=seed, status="ok")
    t0 = time.time()
    jax.config.update("jax_enable_x64", bool(sc["x64"]))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(sc["timeout"])
    try:
        sc["fn"](case_rng(seed, prop, name, idx), mon)
    except Violation as v:
        res.update(status="violation", key=v.key, what=v.what, detail=v.detail)
    except Skip:
        res.update(status="skip")
    except (TimeoutError, MemoryError) as e:
        res.update(status="inconclusive", what=repr(e))
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc()
        frames = traceback.extract_tb(e.__traceback__)
        # on the unchanged tree no case raises: an exception is an observation
        # about the code under test, wherever it surfaces
        site = [f for f in frames if "/verif/" in f.filename]
        where = site[-1].name if site else "?"
        res.update(
            status="violation",
            key="exception",
            what=f"unexpected {type(e).__name__} (in {where})",
            detail=dict(trace=tb[-3000:]),
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    res.update(
        wall=time.time() - t0,
        events=mon.events,
        sig=mon.signature() if mon.sigs else None,
        sigs=mon.sigs[:12],
        desc=mon.desc_[:8],
    )
    return res


def _worker(conn):
    """Runs the cases it is sent until told to stop."""
    lines = Lines()
    _init()
    import jax

    n = 0
    while True:
        args = conn.recv()
        if args is None:
            os._exit(0)
        r = run_case(*args)
        r["lines"] = lines.take()
        conn.send(r)
        n += 1
        if n % 25 == 0:  # compiled programs of earlier cases are not needed again
            jax.clear_caches()


def run_tasks(tasks, nw, deadline):
    """Yields results as they come; gives up at the deadline.  Each worker has
    its own pipe, so that killing one cannot block another."""
    ctx = mp.get_context("spawn")
    todo, busy = list(reversed(tasks)), {}

    def start():
        here, there = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(there,), daemon=True)
        p.start()
        there.close()
        busy[here] = (p, None)
        return here

    def feed(c):
        p, _ = busy[c]
        if todo:
            t = todo.pop()
            c.send(t)
            busy[c] = (p, t)
        else:
            busy.pop(c)
            p.kill()

    try:
        for _ in range(nw):
            feed(start())
        while busy:
            left = deadline - time.time()
            if left <= 0:
                return
            for c in mp_connection.wait(list(busy), timeout=left):
                p, t = busy[c]
                try:
                    r = c.recv()
                except (EOFError, OSError):  # the worker died
                    busy.pop(c)
                    p.kill()
                    yield dict(
                        scenario=t[1], idx=t[2], seed=t[3], status="inconclusive",
                        what="worker process died", events={}, sig=None, sigs=[],
                        desc=[], wall=0,
                    )
                    if todo:
                        feed(start())
                    continue
                feed(c)
                yield r
    finally:
        # SIGKILL: the code under test installs SIGTERM handlers of its own
        for p, _ in busy.values():
            p.kill()


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["known"] if e["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--workers", type=int, default=0)
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    try:
        import parametricmatrixmodels  # noqa: F401
    except Exception:
        traceback.print_exc()
        print("ERROR: the package does not import")
        sys.exit(2)
    mod = importlib.import_module("checks." + prop.lower())

    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        r = run_case(prop, rp["scenario"], rp["idx"], rp["seed"])
        print(json.dumps(r, indent=1, default=str))
        sys.exit(1 if r["status"] == "violation" else 0)

    tasks = []
    for sc in mod.R.items:
        if a.only and sc["name"] != a.only:
            continue
        n = sc[a.tier]
        tasks += [(i / (n + 1), (prop, sc["name"], i, a.seed)) for i in range(n)]
    # one case of every scenario first, then interleaved, so that a time cap
    # cuts all of them evenly
    tasks = [t for _, t in sorted(tasks, key=lambda t: (t[0], t[1][1]))]
    cap = float(os.environ.get("VERIF_CAP", "420" if a.tier == "quick" else "840"))
    nw = a.workers or min(7, os.cpu_count() or 2)
    nw = max(1, min(nw, len(tasks)))
    results = []
    lines = {}
    for r in run_tasks(tasks, nw, t0 + cap):
        for f, n in r.pop("lines", ()):
            lines.setdefault(f, set()).add(n)
        results.append(r)
        # a handful of witnesses is enough
        if sum(r["status"] == "violation" for r in results) >= 8 and len(results) > 20:
            break
    truncated = len(tasks) - len(results)

    known = known_findings(prop)
    viol, kn = [], {}
    for r in results:
        if r["status"] != "violation":
            continue
        m = [
            e
            for e in known
            if e["key"] == r["key"] and e.get("scenario") in (None, r["scenario"])
        ]
        if m:
            kn.setdefault(m[0]["what"], []).append(r)
        else:
            viol.append(r)
    # every listed finding is announced, seen or not in this sample
    for e in known:
        print(f"KNOWN-FINDING: property={prop} {e['what']}")

    events, checks = {}, 0
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
    done = [r for r in results if r["status"] in ("ok", "violation")]
    sigs = {r["sig"] for r in done if r["sig"]}
    per = {}
    for r in results:
        d = per.setdefault(r["scenario"], {})
        d[r["status"]] = d.get(r["status"], 0) + 1
    samples, seen = [], {}
    for r in sorted(done, key=lambda r: (r["scenario"], r["idx"])):
        if seen.get(r["scenario"], 0) < 2:
            seen[r["scenario"]] = seen.get(r["scenario"], 0) + 1
            samples.append(
                dict(
                    scenario=r["scenario"], idx=r["idx"], case=r["sigs"] + r["desc"],
                    monitor_events=r["events"],
                )
            )
    wall = time.time() - t0
    ev = dict(
        property=prop,
        tier=a.tier,
        seed=a.seed,
        level="exploration",
        coverage=dict(
            evaluations=len(done),
            distinct_nontrivial=len(sigs),
            rule=getattr(mod, "RULE", "")
            + " A case counts as distinct by the hash of its generated"
            " configuration (structures, shapes, options, operation sequence), and"
            " as non-trivial only if the monitors evaluated at least one comparison"
            " of observed behaviour against the oracle.",
            samples=samples,
            oracle_comparisons=events.get("checks", 0),
            monitor_events={k: v for k, v in sorted(events.items()) if k != "checks"},
            cases_per_scenario=per,
            not_run_time_cap=truncated,
            repo_lines_executed={f: len(v) for f, v in sorted(lines.items())},
            skipped=sum(r["status"] == "skip" for r in results),
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(viol),
    )
    os.makedirs(EVID, exist_ok=True)
    if os.environ.get("VERIF_LINES"):
        with open(os.path.join(os.environ["VERIF_LINES"], prop + ".json"), "w") as f:
            json.dump({k: sorted(v) for k, v in lines.items()}, f)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")

    errs = [r for r in results if r["status"] in ("error", "inconclusive")]
    if viol:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for i, r in enumerate(sorted(viol, key=lambda r: (r["key"], r["scenario"], r["idx"]))[:5]):
            p = os.path.join(EVID, "replay", f"{prop}-{i}.json")
            with open(p, "w") as f:
                json.dump(r, f, indent=1, default=str)
            print(f"VIOLATION property={prop} replay={p}")
            print(f"  {r['scenario']}#{r['idx']}: [{r['key']}] {r['what']}")
            for k, v in list(r.get("detail", {}).items())[:6]:
                print(f"    {k}: {str(v)[-900:] if k == 'trace' else str(v)[:300]}")
        sys.exit(1)
    summary = (
        f"{prop} tier={a.tier} seed={a.seed}: {len(done)} cases,"
        f" {len(sigs)} distinct, {events.get('checks', 0)} comparisons,"
        f" {truncated} not run, {wall:.0f} s"
    )
    if errs:
        for r in errs[:5]:
            print(f"{r['status']} {r['scenario']}#{r['idx']}: {r['what']}")
    missing = [
        sc["name"]
        for sc in mod.R.items
        if not (a.only and sc["name"] != a.only)
        and sc[a.tier] > 0
        and not any(r["scenario"] == sc["name"] for r in done)
    ]
    if any(r["status"] == "error" for r in errs) or missing or not events.get("checks"):
        print("INCONCLUSIVE", summary, "unreached:", missing)
        sys.exit(2)
    print("HELD on everything observed:", summary)
    sys.exit(0)


if __name__ == "__main__":
    code = 2
    try:
        main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 2
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    for w in mp.active_children():
        w.kill()
    os._exit(code)  # do not wait for the pool's helper threads
