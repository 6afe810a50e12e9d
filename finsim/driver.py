"""Runs many simulated runs of one property, reports violations with a
minimised replay file, and writes the evidence."""
import hashlib
import json
import os
import pickle
import select
import sys
import time
import traceback

from . import boot
boot.setup()
from . import gen, props, rank               # noqa: E402
from .detrng import Rng                      # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("FINSIM_WORKERS", "8"))
GUARD = {"quick": 420.0, "thorough": 7200.0}
CHILD_TIMEOUT = 150


class HarnessError(Exception):
    pass


# --------------------------------------------------------------------------
# one run

def execute(prop, plan, script=None):
    """One run in its own process lifetime(s)."""
    P = props.PROPS[prop]
    P.prewarm(plan)
    if P.driver_side:
        return P.run(plan, script)
    st, val = rank.forked(P.run, (plan, script), CHILD_TIMEOUT)
    if st == "ok":
        return val
    if st == "timeout":
        # the same run again tells a hang from a starved machine
        st, val = rank.forked(P.run, (plan, script), CHILD_TIMEOUT)
        if st == "ok":
            return val
        raise HarnessError("run %s did not finish in %d s: %s" % (plan.get("seed"), CHILD_TIMEOUT, st))
    raise HarnessError("run %s: %s %s" % (plan.get("seed"), st, val))


def make_plan(prop, seed, i, tier):
    rng = Rng(seed, prop, i)
    plan = props.PROPS[prop].gen(i, rng, tier)
    plan["seed"] = "%s/%s/%d" % (seed, prop, i)
    return plan


# --------------------------------------------------------------------------
# minimising

def sig(v):
    return (v["kind"], v["op"])


def shrink(prop, plan, script, viol, budget=40.0):
    """Smaller plan and script with the same kind of violation."""
    P = props.PROPS[prop]
    t0 = time.monotonic()
    tries = [0]

    def bad(p, s):
        if time.monotonic() - t0 > budget or tries[0] > 400:
            return None
        tries[0] += 1
        try:
            r = execute(prop, p, s)
        except Exception:
            return None
        v = r["violation"]
        return r if v is not None and sig(v) == sig(viol) else None

    plan = json.loads(json.dumps(plan))
    script = json.loads(json.dumps(script))
    if bad(plan, script) is None:
        return plan, script, False
    # whole lists at once, then one by one
    for part in ("switches", "faults"):
        if script.get(part):
            s = dict(script, **{part: []})
            if bad(plan, s):
                script = s
    pos = P.positions(plan)
    chunk = max(1, len(pos) // 2)
    while chunk >= 1 and pos:
        i = 0
        while i < len(pos):
            p2 = json.loads(json.dumps(plan))
            for q in pos[i:i + chunk]:
                P.blank(p2, q)
            if bad(p2, script):
                plan = p2
                del pos[i:i + chunk]
            else:
                i += chunk
        chunk //= 2
    for part in ("faults", "switches"):
        items = list(script.get(part, []))
        chunk = max(1, len(items) // 2)
        while chunk >= 1 and items:
            i = 0
            while i < len(items):
                s = dict(script, **{part: items[:i] + items[i + chunk:]})
                if bad(plan, s):
                    items = s[part]
                    script = s
                else:
                    i += chunk
            chunk //= 2
    for p2 in P.simplify(plan):
        if bad(p2, script):
            plan = p2
    return plan, script, True


def write_replay(prop, seed, i, plan, script, viol, digest):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, seed, i))
    with open(path, "w") as f:
        json.dump({"property": prop, "plan": plan, "script": script, "violation": viol, "digest": digest}, f, indent=1)
        f.write("\n")
    return path


def replay(prop, path):
    with open(path) as f:
        rec = json.load(f)
    r = execute(prop, rec["plan"], rec["script"])
    v = r["violation"]
    same = v is not None and sig(v) == sig(rec["violation"])
    if v is not None:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print(json.dumps({k: v[k] for k in ("kind", "op", "msg", "request") if k in v}, indent=1)[:3000])
    print("replay %s, digest %s" % ("reproduces the recorded violation" if same else
                                    "DIFFERS from the recorded violation" if v else "shows no violation",
                                    "identical" if r["digest"] == rec.get("digest") else "differs"))
    return 1 if v is not None else 0


# --------------------------------------------------------------------------
# known findings

def known(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


# --------------------------------------------------------------------------
# many runs

def worker(prop, seed, tier, w, n, fd, deadline):
    P = props.PROPS[prop]

    def tell(*msg):
        data = pickle.dumps(msg)
        data = len(data).to_bytes(8, "little") + data
        while data:
            k = os.write(fd, data)
            data = data[k:]
    try:
        P.start_worker(w, seed, tier)
        for i in range(w, n, WORKERS):
            if time.monotonic() > deadline:
                tell("late", i)
                break
            plan = make_plan(prop, seed, i, tier)
            r = execute(prop, plan)
            v = r["violation"]
            if v is not None:
                # the recorded schedule must show it again before anything is said
                p2, s2, ok = shrink(prop, plan, r["script"], v)
                final = None
                try:
                    final = execute(prop, p2, s2)
                except Exception:
                    pass
                if final is None or final["violation"] is None:
                    raise HarnessError("violation of run %s does not repeat: %s" % (plan["seed"], json.dumps(v)[:1500]))
                path = write_replay(prop, seed, i, p2, s2, final["violation"], final["digest"])
                tell("violation", i, path, final["violation"])
                break
            r["sample"] = P.sample(plan, r) if i < 3 * WORKERS else None
            r.pop("script", None)
            r.pop("outcomes", None)
            tell("run", i, r)
        P.stop_worker()
        tell("end", w)
    except BaseException:
        tell("error", w, traceback.format_exc())
        os._exit(3)
    os._exit(0)


def explore(prop, seed, tier, n):
    deadline = time.monotonic() + GUARD[tier]
    P = props.PROPS[prop]
    P.warm(tier)
    fds, pids = {}, []
    sys.stdout.flush()
    for w in range(WORKERS):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for f in fds:
                os.close(f)
            worker(prop, seed, tier, w, n, wr, deadline)
        os.close(wr)
        fds[r] = [w, bytearray()]
        pids.append(pid)
    runs, viol, errors, late = {}, [], [], False
    ended = set()
    stop = None
    while fds:
        rd, _, _ = select.select(list(fds), [], [], 5)
        for f in rd:
            b = os.read(f, 1 << 20)
            if not b:
                w = fds.pop(f)[0]
                os.close(f)
                if w not in ended:
                    errors.append("worker %d ended early" % w)
                continue
            buf = fds[f][1]
            buf += b
            while len(buf) >= 8:
                k = int.from_bytes(buf[:8], "little")
                if len(buf) < 8 + k:
                    break
                msg = pickle.loads(bytes(buf[8:8 + k]))
                del buf[:8 + k]
                if msg[0] == "run":
                    runs[msg[1]] = msg[2]
                elif msg[0] == "violation":
                    viol.append(msg[1:])
                    if stop is None:
                        stop = time.monotonic() + 20
                elif msg[0] == "late":
                    late = True
                elif msg[0] == "end":
                    ended.add(msg[1])
                elif msg[0] == "error":
                    ended.add(msg[1])
                    errors.append(msg[2])
        if (stop and time.monotonic() > stop and viol) or time.monotonic() > deadline + 120:
            break
    unfinished = [x[0] for x in fds.values() if x[0] not in ended]
    if unfinished and not viol:
        errors.append("workers %s did not finish" % unfinished)
    import signal
    for p in pids:
        try:
            os.kill(p, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(p, 0)
        except ChildProcessError:
            pass
    return runs, sorted(viol), errors, late


def evidence(prop, seed, tier, runs, viol, wall, late, knowns):
    P = props.PROPS[prop]
    faults, counts, sites, digests, fsites = {}, {}, set(), {}, {}
    switches = events = 0
    for i in sorted(runs):
        r = runs[i]
        for k, v in r.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get("counts", {}).items():
            counts[k] = counts.get(k, 0) + v
        sites.update(r.get("sites", ()))
        for s in r.get("fault_sites", ()):
            fsites[s] = fsites.get(s, 0) + 1
        switches += r.get("switches", 0)
        events += r.get("events", 0)
        if P.nontrivial(r):
            digests[r["digest"]] = digests.get(r["digest"], 0) + 1
    samples = [runs[i]["sample"] for i in sorted(runs) if runs[i].get("sample")][:6]
    allp = hashlib.sha256("".join(runs[i]["digest"] for i in sorted(runs)).encode()).hexdigest()
    cov = {
        "evaluations": len(runs),
        "distinct_nontrivial": len(digests),
        "rule": P.rule + "  A run is one seeded plan executed under the simulator; runs are counted distinct by the digest of "
                "their whole event trace (every switch, fault, operation boundary with its step count) together with the plan.",
        "samples": samples or ["no run finished"],
        "simulated_runs": len(runs),
        "seeds_per_hour": int(len(runs) / max(wall, 1e-3) * 3600),
        "simulated_time_steps": events,
        "simulated_time_note": "the library keeps no clock; time is counted in scheduler steps (traced lines, calls into and exits from the layers below)",
        "schedule_switches": switches,
        "faults_injected": faults,
        "fault_sites_reached": len(fsites),
        "library_sites_visited": len(sites),
        "counts": counts,
        "history_digest": allp,
        "stopped_by_guard": late,
        "known_findings_shown": knowns,
        "real_components": P.real,
        "stubbed_components": P.stubbed,
    }
    cov.update(P.extra_evidence(runs))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": P.assumptions, "wall_s": round(wall, 2), "violations": len(viol)}
    cov["violation_list"] = [{"run": i, "replay": path, "kind": v["kind"], "op": v["op"], "msg": v["msg"][:800]} for i, path, v in viol]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    return ev


def seed_of():
    s = os.environ.get("VERIF_SEED", "1")
    try:
        return int(s)
    except ValueError:
        return int.from_bytes(hashlib.sha256(s.encode()).digest()[:4], "big")


def main(argv):
    if argv[:1] == ["--setup"]:
        print("nothing to build: pure Python, checked imports of", boot.REPO)
        return 0
    prop = argv[0]
    if len(argv) > 2 and argv[1] == "--replay":
        try:
            props.PROPS[prop].start_worker(0, 0, "quick")
            return replay(prop, argv[2])
        finally:
            props.PROPS[prop].stop_worker()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    n = props.PROPS[prop].count[tier]
    if len(argv) > 2:
        n = int(argv[2])
    seed = seed_of()
    t0 = time.monotonic()
    shown = []
    try:
        runs, viol, errors, late = explore(prop, seed, tier, n)
        ks = known(prop)
        if ks:
            props.PROPS[prop].start_worker(0, seed, tier)
            for k in ks:
                r = execute(prop, k["plan"], k.get("script", {}))
                v = r["violation"]
                if v is not None and sig(v) == (k["kind"], k["op"]) and k["match"] in v["msg"]:
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                    shown.append(k["what"])
                elif v is not None:
                    path = write_replay(prop, seed, "known", k["plan"], k.get("script", {}), v, r["digest"])
                    viol.append(("known", path, v))
            props.PROPS[prop].stop_worker()
    except HarnessError as ex:
        runs, viol, errors, late = {}, [], [str(ex)], False
    wall = time.monotonic() - t0
    ev = evidence(prop, seed, tier, runs, viol, wall, late, shown)
    c = ev["coverage"]
    print("%s %s seed %d: %d runs in %.1f s, %d steps, %d switches, faults %s, digest %s" % (
        prop, tier, seed, len(runs), wall, c["simulated_time_steps"], c["schedule_switches"],
        json.dumps(c["faults_injected"], sort_keys=True), c["history_digest"][:16]))
    for i, path, v in viol:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  run %s: %s in %s: %s" % (i, v["kind"], v["op"], v["msg"][:600].replace("\n", "\n    ")))
    if viol:
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS ERROR", e[-3000:])
        return 2
    if not runs:
        print("HARNESS ERROR no run finished")
        return 2
    return 0
