"""check / replay / selftest entry points."""
import importlib
import json
import os
import sys

from simvbmc import boot


def _prop(pid):
    return importlib.import_module(f"simvbmc.props.{pid.lower()}")


def known_findings():
    p = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def _matches(entry, viol):
    """A listed finding names the violation kind and words of its detail."""
    if entry.get("kind") != viol["kind"]:
        return False
    return all(w in viol["detail"] for w in entry.get("detail_contains", []))


def cmd_check(pid, tier, seed):
    from simvbmc import runner
    from simvbmc.world import enc_floats

    t0 = runner.MONO()
    mod = _prop(pid)
    spec = mod.TIERS[tier]
    n = spec["n"]
    cap = spec.get("cap", 200 if tier == "quick" else 3600)
    seed0 = seed
    known = [k for k in known_findings() if k["property"] == pid]
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)

    plans = {}
    fixed = list(getattr(mod, "fixed_plans", lambda: [])())

    def make(i):
        if i < len(fixed):
            p = fixed[i]
        else:
            p = mod.gen(runner.plan_rng(pid, seed0, i), tier, i)
        p = json.loads(json.dumps(enc_floats(p)))
        plans[i] = p
        return p

    found = []
    agg = dict(stats={}, faults={}, skipped={}, errors=[], timeouts=0, sim=0.0, runs=0)
    traces = set()
    distinct = set()
    samples = []
    walls = []

    def on_result(i, r, wall):
        agg["runs"] += 1
        walls.append(wall)
        if r.get("timeout"):
            agg["timeouts"] += 1
            if getattr(mod, "HANG_KIND", None):
                found.append((i, {"kind": mod.HANG_KIND, "detail": f"no progress within {getattr(mod, 'TIMEOUT', 120)} s of real time"}))
            return
        if "error" in r:
            agg["errors"].append((i, r["error"]))
            return
        for k, v in r["stats"].items():
            agg["stats"][k] = agg["stats"].get(k, 0) + v
        for k, v in r["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        agg["sim"] += r["sim"]
        traces.update(r["traces"])
        if not r["skipped"]:
            distinct.add("".join(r["traces"]))
        if r["skipped"]:
            agg["skipped"][r["skipped"]] = agg["skipped"].get(r["skipped"], 0) + 1
        if r.get("sample") and len(samples) < 5:
            samples.append(r["sample"])
        for v in r["violations"]:
            if not any(_matches(k, v) for k in known):
                found.append((i, v))
                break

    order = range(n + len(fixed))
    runner.run_many(
        mod,
        ((i, make(i)) for i in order),
        stop=lambda res: len(found) >= 1,
        deadline=t0 + cap,
        on_result=on_result,
    )

    rc = 0
    violations = []
    if found:
        # several may be in flight: take the first plan
        found.sort(key=lambda t: t[0])
        for i, v in found[:1]:
            plan = plans[i]
            kind = v["kind"]
            confirm, _ = runner.run_one(mod, plan, 2 * getattr(mod, "TIMEOUT", 120) if kind == getattr(mod, "HANG_KIND", None) else None)
            hang = kind == getattr(mod, "HANG_KIND", None)
            if (hang and not confirm.get("timeout")) or (not hang and kind not in runner.kinds(confirm)):
                # not reproducible: never a verdict
                agg["errors"].append((i, f"violation {v} did not reproduce: {str(confirm)[:400]}"))
                continue
            tried = 0
            if not hang:
                plan, tried = runner.shrink(mod, plan, kind, 25 if tier == "quick" else 240)
            final, _ = runner.run_one(mod, plan)
            vv = next((x for x in final.get("violations", []) if x["kind"] == kind), v)
            os.makedirs(os.path.join(boot.VERIF, "replays"), exist_ok=True)
            path = os.path.join(boot.VERIF, "replays", f"{pid}-{seed}-{i}.json")
            rec = dict(
                property=pid,
                kind=kind,
                detail=vv["detail"],
                seed=seed,
                index=i,
                tier=tier,
                plan=plan,
                original_plan=plans[i],
                shrink_runs=tried,
                events=final.get("events"),
            )
            with runner.seams.REAL_OPEN(path, "w") as f:
                json.dump(rec, f, indent=1)
            print(f"violation kind: {kind}")
            print(f"detail: {vv['detail'][:500]}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
            violations.append(dict(kind=kind, detail=vv["detail"][:500], replay=path))
            rc = 1
    wall = runner.MONO() - t0
    nerr = len(agg["errors"])
    for i, e in agg["errors"][:3]:
        print(f"harness: plan {i}: {e[-800:]}", file=sys.stderr)
    if rc == 0 and agg["runs"] and (nerr + agg["timeouts"]) > max(2, 0.5 * agg["runs"]):
        print(f"harness: {nerr} errors, {agg['timeouts']} timeouts in {agg['runs']} runs", file=sys.stderr)
        rc = 2
    if agg["runs"] == 0:
        rc = 2
    nsk = sum(agg["skipped"].values())
    cov = dict(
        evaluations=agg["runs"],
        distinct_nontrivial=len(distinct),
        distinct_states=len(traces),
        rule=mod.RULE,
        samples=samples or [str(plans.get(0))[:300]],
        technique="deterministic simulation, seeded search over schedules and fault sequences",
        seeds=f"plans 0..{agg['runs'] - 1} of VERIF_SEED={seed}",
        runs_per_hour=round(3600 * agg["runs"] / max(wall, 1e-9)),  # one seed per run
        simulated_seconds=agg["sim"],
        faults_injected=dict(sorted(agg["faults"].items())),
        distinct_measure=getattr(mod, "MEASURE", "distinct event traces of the executed plans"),
        counters=dict(sorted(agg["stats"].items())),
        skipped=agg["skipped"],
        skipped_runs=nsk,
        harness_errors=nerr,
        timeouts=agg["timeouts"],
        components_real=getattr(mod, "REAL", "pyvbmc (all modules), gpyreg, cma, numpy, scipy, dill, logging"),
        components_stub=getattr(mod, "STUB", "target function, clock, OS entropy, file system calls below the scratch directory (faults decided by the plan, bytes stored for real)"),
    )
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=cov,
        assumptions=getattr(mod, "ASSUMPTIONS", []) + [
            "seeded search over the plan space, not exhaustive",
            "numpy/BLAS with one thread and pinned kernels",
        ],
        wall_s=round(wall, 2),
        violations=violations if isinstance(violations, int) else len(violations),
    )
    if violations:
        ev["coverage"]["violation_reports"] = violations
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(boot.VERIF, "evidence", f".{pid}.tmp")
    with runner.seams.REAL_OPEN(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(boot.VERIF, "evidence", f"{pid}.json"))
    print(
        f"{pid} {tier} seed={seed}: {agg['runs']} runs, {len(traces)} traces, "
        f"{agg['stats'].get('checks', 0)} checks, faults={sum(agg['faults'].values())}, skipped={nsk}, "
        f"errors={nerr}, timeouts={agg['timeouts']}, slowest={max(walls or [0]):.1f}s, wall={wall:.1f}s rc={rc}"
    )
    if agg["skipped"]:
        top = sorted(agg["skipped"].items(), key=lambda t: -t[1])[:4]
        print("  skipped:", "; ".join(f"{v}x {k[:100]}" for k, v in top))
    return rc


def cmd_replay(path):
    from simvbmc import runner

    with runner.seams.REAL_OPEN(path) as f:
        rec = json.load(f)
    mod = _prop(rec["property"])
    r, _ = runner.run_one(mod, rec["plan"])
    if r.get("timeout"):
        hit = rec["kind"] == getattr(mod, "HANG_KIND", None)
    else:
        hit = rec["kind"] in runner.kinds(r)
    if hit:
        v = next((x for x in r.get("violations", []) if x["kind"] == rec["kind"]), None)
        exact = r.get("events") == rec.get("events")
        print(f"reproduced {rec['kind']} (event digest {'identical' if exact else 'differs'})")
        if v:
            print("detail:", v["detail"])
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print("not reproduced", (r.get("error") or "")[-500:])
    return 0


def cmd_selftest(ids, n):
    """Every plan, executed twice in different processes, gives one trace."""
    from simvbmc import runner
    from simvbmc.world import enc_floats

    bad = 0
    for pid in ids:
        mod = _prop(pid)
        items = []
        for i in range(n):
            p = json.loads(json.dumps(enc_floats(mod.gen(runner.plan_rng(pid, 7, i), "quick", i))))
            items += [((i, a), p) for a in (0, 1)]
        res = runner.run_many(mod, items)
        for i in range(n):
            a, b = res[(i, 0)][0], res[(i, 1)][0]
            for r in (a, b):
                r.pop("walls", None)
            if a != b:
                bad += 1
                diff = [k for k in a if a.get(k) != b.get(k)]
                print(f"{pid} plan {i}: not deterministic in {diff}: {str({k: (a.get(k), b.get(k)) for k in diff})[:600]}")
        print(f"{pid}: {n} plans executed twice")
    return 1 if bad else 0


def main():
    boot.ensure_pinned()
    a = sys.argv[1:]
    cmd = a[0] if a else "help"
    boot.load_system()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if cmd == "check":
        pid = a[1]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        if "--seed" in a:
            seed = int(a[a.index("--seed") + 1])
        sys.exit(cmd_check(pid, tier, seed))
    if cmd == "plan":
        from simvbmc import runner
        from simvbmc.world import enc_floats

        mod = _prop(a[1])
        print(json.dumps(enc_floats(mod.gen(runner.plan_rng(a[1], seed, int(a[2])), "quick", int(a[2]))), indent=1))
        sys.exit(0)
    if cmd == "one":
        from simvbmc import runner
        from simvbmc.world import enc_floats

        mod = _prop(a[1])
        p = json.loads(json.dumps(enc_floats(mod.gen(runner.plan_rng(a[1], seed, int(a[2])), "quick", int(a[2])))))
        r, w = runner.run_one(mod, p)
        print(json.dumps(r, indent=1)[:6000], w)
        sys.exit(0)
    if cmd == "replay":
        sys.exit(cmd_replay(a[1]))
    if cmd == "survey":
        # all violations of the first N plans, without stopping
        from simvbmc import runner
        from simvbmc.world import enc_floats

        mod = _prop(a[1])
        lo, hi = [int(x) for x in a[2].split("-")] if "-" in a[2] else (0, int(a[2]))

        def show(i, r, w):
            if r.get("timeout"):
                print(i, "TIMEOUT")
            elif "error" in r:
                print(i, "ERROR", r["error"][-300:])
            elif r["violations"]:
                v = r["violations"][0]
                print(i, v["kind"], v["detail"][:300], flush=True)

        mk = lambda i: json.loads(json.dumps(enc_floats(mod.gen(runner.plan_rng(a[1], seed, i), "quick", i))))
        runner.run_many(mod, ((i, mk(i)) for i in range(lo, hi)), on_result=show)
        sys.exit(0)
    if cmd == "selftest":
        ids = a[1].split(",") if len(a) > 1 else []
        sys.exit(cmd_selftest(ids, int(a[2]) if len(a) > 2 else 4))
    print("usage: check ID [--tier T] [--seed N] | plan ID I | one ID I | replay FILE | selftest IDS N")
    sys.exit(2)


if __name__ == "__main__":
    main()
