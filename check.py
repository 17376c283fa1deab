#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [--tier quick|thorough]

Rebuilds the LLVM IR of the harness crate (which links the real presale code of
/repo's working tree), runs the symbolic engine on every harness registered for
the property in plan.py, replays every solver model natively, and writes
evidence/<PROPERTY>.json.
exit 0: held on everything explored (queries left undecided and runs cut off by
the time limit are printed and recorded in the evidence);
1: violation (line VIOLATION ...), reproduced by the native build;
2: no answer (build failure, engine error, vacuous harness, counterexample that
the native build does not reproduce).
"""
import concurrent.futures as cf
import fcntl, glob, json, os, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(V, "target")
ENGINE = os.path.join(V, "engine/target/release/engine")
REPLAY = os.path.join(T, "replay/debug/replay")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.87.0", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


def sh(cmd, cwd, target, log, timeout=800):
    env = dict(ENV)
    if target:
        env["CARGO_TARGET_DIR"] = target
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    with open(log, "w") as f:
        f.write(r.stdout)
    return r.returncode, r.stdout


def b_engine():
    return sh(["cargo", "build", "--release", "--offline", "-q"], V + "/engine", V + "/engine/target", T + "/engine.log")


def b_ir():
    return sh(["cargo", "rustc", "--offline", "--lib", "--", "--emit=llvm-ir", "-C", "passes=globaldce"],
              V + "/harness", T + "/ir", T + "/ir.log")


def b_replay():
    return sh(["cargo", "build", "--offline"], V + "/replay", T + "/replay", T + "/replay.log")


def build():
    """Returns (path of the IR, future of the replay build)."""
    os.makedirs(T, exist_ok=True)
    ex = cf.ThreadPoolExecutor(3)
    fe, fi, fr = ex.submit(b_engine), ex.submit(b_ir), ex.submit(b_replay)
    for f, n in ((fe, "engine"), (fi, "harness IR")):
        rc, out = f.result()
        if rc != 0:
            print(out[-4000:])
            print(f"ERROR: building the {n} failed")
            sys.exit(2)
    lls = sorted(glob.glob(T + "/ir/debug/deps/harness-*.ll"), key=os.path.getmtime)
    if not lls:
        print("ERROR: no IR")
        sys.exit(2)
    for x in lls[:-1]:
        os.unlink(x)
    return lls[-1], fr


def label(run):
    return run["h"] + "(" + ",".join(f"{k}={v}" for k, v in sorted(run.get("p", {}).items())) + ")"


T0 = time.time()
LIMIT = dict(quick=700, thorough=6 * 3600)


STOP = []
RUNNING = set()


def kill(r):
    try:
        os.killpg(r.pid, signal.SIGKILL)
    except OSError:
        pass


def stop():
    """A violation is confirmed: the other runs need not finish."""
    STOP.append(1)
    for r in list(RUNNING):
        kill(r)


def run_engine(ll, prop, run, out, tier):
    cmd = [ENGINE, ll, run["h"], "--prop", prop, "--out", out]
    for k, v in run.get("p", {}).items():
        cmd += ["--param", f"{k}={v}"]
    o = dict(time=300, decide_s=40) if tier == "quick" else dict(time=3000, decide_s=300)
    o.update(run.get("o", {}))
    left = int(LIMIT[tier] - (time.time() - T0))
    if left < 5:
        return None, "time limit reached"
    o["time"] = min(o["time"], left)
    cmd += ["--time", str(o["time"]), "--decide-s", str(o["decide_s"])]
    if "feas_ms" in o:
        cmd += ["--feas-ms", str(o["feas_ms"])]
    if "max_paths" in o:
        cmd += ["--max-paths", str(o["max_paths"])]
    if os.path.exists(out):
        os.unlink(out)
    if STOP:
        return None, "stopped"
    r = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)
    RUNNING.add(r)
    if STOP:
        kill(r)
    try:
        err = r.communicate(timeout=o["time"] + 60)[1][-2000:]
    except subprocess.TimeoutExpired:
        kill(r)
        return None, "time limit reached"
    finally:
        RUNNING.discard(r)
    if STOP:
        return None, "stopped"
    if not os.path.exists(out):
        return None, "engine died: " + err
    return json.load(open(out)), err


def write_model(path, prop, run, model):
    with open(path, "w") as f:
        f.write(f"harness {run['h']}\nprop {prop}\n")
        for k, v in run.get("p", {}).items():
            f.write(f"param {k} {v}\n")
        for n, v in model:
            f.write(f"input {n} {v}\n")


def replay(run, path):
    r = subprocess.run([REPLAY, run["h"], path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
    return r.stdout.splitlines()


def replay_salted(prop, run, path, model, good):
    """Native replay.  The engine treats sha256 as an uninterpreted injective
    function, so the order of two digests may differ natively: inputs named
    salt* are then varied until the run takes the modelled course."""
    lines = replay(run, path)
    if good(lines) or not any(n.startswith("salt") for n, _ in model):
        return lines, model
    for k in range(1, 200):
        m = [[n, perturb(v, k)] if n.startswith("salt") else [n, v] for n, v in model]
        write_model(path, prop, run, m)
        l2 = replay(run, path)
        if good(l2):
            return l2, m
    write_model(path, prop, run, model)
    return lines, model


def perturb(v, k):
    import hashlib
    return str(int(hashlib.sha256(f"{v}/{k}".encode()).hexdigest()[:16], 16))


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    sys.path.insert(0, V)
    import plan
    runs = plan.runs(prop, tier)
    os.makedirs(T, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    lock = open(T + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    ll, fr = build()
    outdir = f"{T}/out/{prop}"
    os.makedirs(outdir, exist_ok=True)
    for f in glob.glob(outdir + "/*"):
        os.unlink(f)
    fcntl.flock(lock, fcntl.LOCK_SH)
    only = os.environ.get("ONLY")
    if only:
        runs = [r for r in runs if only in label(r)]
    ex = cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "6")))
    runs = sorted(runs, key=lambda r: -r.get("cost", 1))
    futs = [(i, r, ex.submit(run_engine, ll, prop, r, f"{outdir}/{i}.json", tier)) for i, r in enumerate(runs)]
    rc, out = fr.result()
    if rc != 0:
        print(out[-4000:])
        stop()
        print("ERROR: building the native replay failed")
        os._exit(2)
    known = []
    kf = V + "/known-findings.jsonl"
    if os.path.exists(kf):
        known = [json.loads(l) for l in open(kf) if l.strip()]
        known = [k for k in known if k.get("property") == prop and k.get("status") == "known"]
    errors, viol, knownhit, cut = [], [], [], []
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], paths_completed=0, forks=0, queries=0,
               sat=0, unsat=0, unknown=0, decided_by_cached_model=0, solver_s=0.0, assertions_checked=0,
               assertions_by_simplification=0, assertions_by_solver=0, undecided=0, deciders={}, functions_encoded=[],
               harnesses=[], assertions={})
    funcs = set()
    info = {f: (i, r) for i, r, f in futs}
    for fut in cf.as_completed(info):
        i, run = info[fut]
        res, err = fut.result()
        name = label(run)
        if res is None and err == "stopped":
            continue
        if res is None:
            (cut if err.startswith("time limit") else errors).append(f"{name}: {err}")
            continue
        ncut = len(cut)
        if os.environ.get("DEBUG"):
            print(f"{name}: {res['wall_s']}s paths {res['paths']} solver {res['solver_s']} und {len(res['undecided'])} err {len(res['errors'])} viol {len(res['violations'])}", flush=True)
        cov["states"] += res["paths"]
        cov["transitions"] += res["instructions"]
        cov["paths_completed"] += res["paths_completed"]
        for k in ("forks", "queries", "sat", "unsat", "unknown", "solver_s"):
            cov[k] += res[k]
        cov["decided_by_cached_model"] += res["model_hits"]
        for k, v in res["deciders"].items():
            cov["deciders"][k] = cov["deciders"].get(k, 0) + v
        n_assert = 0
        for a in res["asserts"]:
            cov["assertions_checked"] += a["checked"]
            cov["assertions_by_simplification"] += a["simplified"]
            cov["assertions_by_solver"] += a["solver"]
            cov["undecided"] += a["undecided"]
            n_assert += a["checked"]
            cov["assertions"][a["assert"]] = cov["assertions"].get(a["assert"], 0) + a["checked"]
        funcs.update(f for f in res["functions"] if not f.startswith("core::ptr::drop"))
        confirmed = 0
        bad = 0
        for j, v in enumerate(res["violations"]):
            mp = f"{outdir}/{i}.violation{j}.model"
            write_model(mp, prop, run, v["model"])
            lines, v["model"] = replay_salted(prop, run, mp, v["model"], lambda ls: any(l.startswith(("ASSERT-FAIL", "PANIC [")) for l in ls))
            hit = [l for l in lines if l.startswith("ASSERT-FAIL") or l.startswith("PANIC [")]
            if hit:
                confirmed += 1
                w = hit[0]
                k = next((k for k in known if k["harness"] == run["h"] and k["match"] in w
                          and all(str(run.get("p", {}).get(a)) == str(b) for a, b in k.get("params", {}).items())), None)
                if k:
                    knownhit.append(k["what"])
                else:
                    viol.append((name, w, mp, v["msg"]))
            else:
                bad += 1
                errors.append(f"{name}: counterexample to '{v['msg']}' did not reproduce natively: {lines[-3:]} ({mp})")
        if viol and not STOP:
            stop()
        for u in res["undecided"]:
            cut.append(f"{name}: undecided: {u}")
        for e in res["errors"]:
            (cut if "time limit" in e or "path limit" in e else errors).append(f"{name}: {e}")
        labels = {}
        for j, c in enumerate(res["covers"]):
            labels[c["label"]] = c["hits"]
            if c["model"] is None:
                continue
            mp = f"{outdir}/{i}.cover{j}.model"
            write_model(mp, prop, run, c["model"])
            lines, c["model"] = replay_salted(prop, run, mp, c["model"], lambda ls: "COVER " + c["label"] in ls)
            if "COVER " + c["label"] not in lines:
                errors.append(f"{name}: witness for '{c['label']}' did not reproduce natively: {lines[-3:]} ({mp})")
                continue
            obs = [l for l in lines if l.startswith("OBS ")]
            for n, val in c["observes"]:
                if f"OBS {n}={val}" not in obs:
                    errors.append(f"{name}: engine and native run disagree on {n}={val}: {obs} ({mp})")
            cov["traces_validated_against_impl"] += 1
            if len(cov["samples"]) < 12:
                cov["samples"].append({"harness": name, "reached": c["label"], "inputs": dict(c["model"]), "observed": dict(c["observes"])})
        for need in run.get("need", []):
            if not any(need in l for l in labels) and not confirmed and len(cut) == ncut:
                errors.append(f"{name}: vacuous: never reached '{need}'")
        if n_assert == 0 and not confirmed and not run.get("noassert") and len(cut) == ncut:
            errors.append(f"{name}: vacuous: no assertion of {prop} was reached")
        cov["harnesses"].append({"harness": name, "paths": res["paths"], "instructions": res["instructions"], "assertions": n_assert,
                                 "queries": res["queries"], "solver_s": res["solver_s"], "wall_s": res["wall_s"], "reached": labels})
    cov["solver_s"] = round(cov["solver_s"], 2)
    cov["functions_encoded"] = sorted(funcs)
    cov["bounds"] = plan.bounds(prop, tier)
    cov["explanation"] = ("Symbolic execution of the LLVM IR compiled from /repo's current source; states = symbolic paths explored, "
                          "transitions = IR instructions executed symbolically, traces_validated_against_impl = solver models replayed "
                          "against the native build with equal observations.")
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": cov, "assumptions": plan.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if errors:
        cov["errors"] = errors[:50]
    cov["not_decided"] = cut[:50]
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    for k in sorted(set(knownhit)):
        print(f"KNOWN-FINDING: property={prop} {k}")
    if viol:
        rd = f"{V}/replays/{prop}"
        os.makedirs(rd, exist_ok=True)
        for n, (name, w, mp, msg) in enumerate(viol[:5]):
            dst = f"{rd}/{n}.model"
            with open(dst, "w") as f:
                f.write(open(mp).read() + f"# {w}\n")
            if n == 0:
                print(f"VIOLATION property={prop} replay={dst}")
            print(f"  {name}: {w}")
        for e in errors[:10]:
            print("  note:", e)
        sys.exit(1)
    if errors:
        for e in errors[:20]:
            print("ERROR:", e)
        sys.exit(2)
    for e in cut[:20]:
        print("NOT DECIDED:", e)
    print(f"{prop}: held on {cov['states']} paths of {len(runs)} harness runs, {cov['assertions_checked']} assertions, "
          f"{cov['queries']} queries, {cov['solver_s']} s solver, {ev['wall_s']} s wall")


if __name__ == "__main__":
    main()
