#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--only SUB]

Searches for a violation of one property; tier from VERIF_TIER, seed from
VERIF_SEED.  Exit 0 held, 1 violated (VIOLATION line), 2 harness error."""
import os, sys, json, time, subprocess, tempfile, shutil

PY = "/opt/venv/bin/python"
ENV = dict(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
           PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    need = any(os.environ.get(k) != v for k, v in ENV.items()) or "PYTHONPATH" in os.environ \
        or os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != "/opt/venv"
    if need and os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ, VERIF_REEXEC="1", **ENV)
        env.pop("PYTHONPATH", None)
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    reexec()
    sys.path.insert(0, os.path.join(HERE, "lib"))
    import harness
    harness.setup_paths()
    sys.path.insert(0, HERE)
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--worker", nargs=3, metavar=("SUB", "SHARD", "OUT"))
    ap.add_argument("--tier", choices=("quick", "thorough"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    args = ap.parse_args()
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = __import__(f"props.{args.prop}", fromlist=["x"])
    subs = {s.name: s for s in mod.SUBCHECKS}

    if args.worker:
        name, shard, out = args.worker
        res = harness.run_shard(mod, subs[name], int(shard), seed, tier)
        with open(out, "w") as f:
            json.dump(res, f)
        return 0

    if args.replay:
        data = json.load(open(args.replay))
        rec = harness.Recorder()
        try:
            harness.execute(subs[data["sub"]], data["case"], rec)
        except harness.Violation as e:
            print(f"replay fails: {e}")
            print(f"VIOLATION property={args.prop} replay={args.replay}")
            return 1
        except harness.Skip as e:
            print(f"outside the domain: {e}")
            return 2
        print("replay passes")
        return 0

    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_")
    try:
        results = []
        if not args.only:
            # seconds-long replay tier: shrunk cases saved from earlier campaigns
            d = os.path.join(HERE, "replays", args.prop)
            for fn in sorted(os.listdir(d)) if os.path.isdir(d) else []:
                data = json.load(open(os.path.join(d, fn)))
                if data["sub"] not in subs:
                    continue
                rec = harness.Recorder()
                r = dict(sub="replay:" + fn, shard=0, evals=1, skipped=0, nontrivial=[],
                         samples=[], labels={}, known=rec.known, metrics={}, fail=None,
                         error=None, wall=0.0)
                try:
                    harness.execute(subs[data["sub"]], data["case"], rec)
                except harness.Violation as e:
                    r["fail"] = (data["case"], str(e))
                    r["realsub"] = data["sub"]
                except harness.Skip:
                    pass
                results.append(r)
        tasks = []
        for s in mod.SUBCHECKS:
            if args.only and not s.name.startswith(args.only):
                continue
            n = s.shards if tier == "quick" else s.tshards
            tasks += [(s.name, k) for k in range(n)]
        running = []
        pend = list(tasks)
        errors = []
        while pend or running:
            while pend and len(running) < args.jobs:
                name, k = pend.pop(0)
                out = os.path.join(tmp, f"{name}.{k}.json")
                log = open(os.path.join(tmp, f"{name}.{k}.log"), "w")
                p = subprocess.Popen([PY, os.path.abspath(__file__), args.prop, "--tier", tier,
                                      "--worker", name, str(k), out],
                                     stdout=log, stderr=log, env=dict(os.environ, VERIF_REEXEC="1"))
                running.append((p, name, k, out, log))
            time.sleep(0.02)
            for r in list(running):
                p, name, k, out, log = r
                if p.poll() is None:
                    continue
                running.remove(r)
                log.close()
                if p.returncode != 0 or not os.path.exists(out):
                    tail = open(log.name).read()[-3000:]
                    errors.append(f"{name}#{k}: worker ended with {p.returncode}\n{tail}")
                    continue
                res = json.load(open(out))
                if res["error"]:
                    errors.append(f"{name}#{k}: {res['error']}")
                results.append(res)
        return report(args, harness, mod, results, errors, tier, seed, time.time() - t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(args, harness, mod, results, errors, tier, seed, wall):
    known_list = harness.load_known()
    labels, known, metrics, per_sub, samples = {}, {}, {}, {}, []
    nontriv = set()
    evals = skipped = 0
    fails = []
    for r in sorted(results, key=lambda r: (r["sub"], r["shard"])):
        evals += r["evals"]
        skipped += r["skipped"]
        nontriv |= {r["sub"] + h for h in r["nontrivial"]}
        for k, v in r["labels"].items():
            labels[f"{r['sub']}:{k}"] = labels.get(f"{r['sub']}:{k}", 0) + v
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        for k, v in r["metrics"].items():
            k = f"{r['sub']}:{k}"
            metrics[k] = max(metrics.get(k, -1e300), v)
        ps = per_sub.setdefault(r["sub"], dict(cases=0, wall_s=0.0))
        ps["cases"] += r["evals"]
        ps["wall_s"] = round(ps["wall_s"] + r["wall"], 2)
        if r["samples"] and len([s for s in samples if s["subcheck"] == r["sub"]]) < 1:
            samples.append(dict(subcheck=r["sub"], case=r["samples"][0]))
        if r["fail"]:
            fails.append(r)
    # a known finding has to be listed, otherwise it is a violation
    unlisted = [k for k in known if (args.prop, k) not in known_list]
    # expectation: a listed finding is re-demonstrated by its own sub-check
    for k in sorted(known):
        if (args.prop, k) in known_list:
            print(f"KNOWN-FINDING: property={args.prop} {k}: {known_list[(args.prop, k)]}")
    ev = dict(property=args.prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(nontriv),
                            rule=mod.RULE, samples=samples[:12], skipped_out_of_domain=skipped,
                            per_subcheck=per_sub, classes=labels,
                            largest_error_over_tolerance={k: float(f"{v:.3g}") for k, v in sorted(metrics.items())},
                            known_findings_seen=known),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(wall, 2), violations=len(fails) + len(unlisted))
    if not args.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{args.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    if args.only:
        print(json.dumps(dict(labels=labels, metrics=ev["coverage"]["largest_error_over_tolerance"]), indent=1))
    code = 0
    outdir = os.path.join(HERE, "evidence", "replays")
    for r in fails:
        os.makedirs(outdir, exist_ok=True)
        case, msg = r["fail"]
        sub = r.get("realsub", r["sub"])
        path = os.path.join(outdir, f"{args.prop}-{sub}-{r['shard']}.json")
        with open(path, "w") as f:
            json.dump(dict(property=args.prop, sub=sub, case=case, message=msg), f, indent=1)
        print(f"[{r['sub']}] {msg}")
        print(f"  case: {json.dumps(case)}")
        print(f"VIOLATION property={args.prop} replay={path}")
        code = 1
    for k in unlisted:
        print(f"known finding {k!r} is not listed in known-findings.txt")
        print(f"VIOLATION property={args.prop} replay=-")
        code = 1
    if errors and code == 0:
        print("HARNESS ERROR\n" + "\n".join(errors))
        return 2
    print(f"{args.prop} [{tier}, seed {seed}]: {evals} cases, {len(nontriv)} distinct non-trivial, "
          f"{skipped} skipped, {wall:.1f}s, {'VIOLATED' if code else 'held'}")
    return code


if __name__ == "__main__":
    sys.exit(main())
