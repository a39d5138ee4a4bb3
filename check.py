#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] | setup
Builds the monitoring harness against /repo's working tree in several build
configurations, runs the property's engines, writes evidence/<id>.json, and prints
VIOLATION / KNOWN-FINDING lines.  Exit 0: held; 1: violated; 2: no answer."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
CONFIGS = {"hm": "hashed,mutauth", "p": "", "h": "hashed", "m": "mutauth"}
QUICK, ALL = ["hm", "p"], ["hm", "p", "h", "m"]

sys.path.insert(0, VERIF)
from checks_table import PROPS  # noqa: E402


def env():
    e = dict(os.environ)
    home = e.get("RUSTUP_HOME", "/root/.rustup")
    pinned = f"{home}/toolchains/nightly-2022-11-21-x86_64-unknown-linux-gnu/bin"
    for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR", "SPDM_CONFIG", "CARGO_ENCODED_RUSTFLAGS",
              "CARGO_BUILD_TARGET", "RUSTC_WORKSPACE_WRAPPER", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(PATH="/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:" + e.get("PATH", ""), RUSTUP_HOME=home,
             CARGO_HOME=e.get("CARGO_HOME", "/root/.cargo"), RUSTUP_TOOLCHAIN="nightly-2023-06-20",
             RUSTC=pinned + "/rustc", RUSTDOC=pinned + "/rustdoc", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", RUSTC_WORKSPACE_WRAPPER="", RUSTC_WRAPPER="")
    return e


def build(cfg):
    cmd = ["cargo", "build", "--offline", "--release", "--target-dir", f"target.{cfg}"]
    if CONFIGS[cfg]:
        cmd += ["--features", CONFIGS[cfg]]
    r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build_all(cfgs):
    """The configurations share /repo's generated (git-ignored) config.rs, so a parallel
    build that trips over it is repeated alone."""
    with ThreadPoolExecutor(len(cfgs)) as ex:
        res = dict(zip(cfgs, ex.map(build, cfgs)))
    for c in cfgs:
        if res[c][0] != 0:
            res[c] = build(c)
            if res[c][0] != 0:
                print(f"NO-ANSWER: the harness does not build against /repo ({CONFIGS[c] or 'plain'})")
                print("\n".join(l for l in res[c][1].splitlines() if l)[-3000:])
                sys.exit(2)


def known():
    """known findings: lines 'known: property=<id> sig=<regex on the violation message> :: what fails'"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) sig=(.*?) :: (.*)$", l.strip())
        if m:
            out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        build_all(QUICK)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    t0 = time.time()
    cfgs = spec.get("configs", QUICK if tier == "quick" else ALL)
    if tier == "thorough" and "configs" not in spec:
        cfgs = ALL
    build_all(cfgs)
    t_build = time.time() - t0
    secs = spec.get("quick_s", 10) if tier == "quick" else spec.get("thorough_s", 120)
    cases = 10 ** 9 if tier == "thorough" else spec.get("quick_cases", 200000)
    seeds = [seed] if tier == "quick" else [seed, seed + 1000]
    runs, viols, fatal = [], [], None
    for c in cfgs:
        for sd in seeds:
            cmd = [f"target.{c}/release/spdmmon", prop, "--seed", str(sd), "--cases", str(cases), "--secs", str(secs)]
            if tier == "thorough":
                cmd.append("--deep")
            try:
                r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                   timeout=secs * 3 + 240)
            except subprocess.TimeoutExpired:
                fatal = f"{' '.join(cmd)} did not end"
                continue
            line = next((l for l in r.stdout.splitlines() if l.startswith('{"property"')), None)
            if line is None:
                if r.returncode < 0:
                    # the code under test killed the process (stack overflow, abort, bad memory access)
                    viols.append({"sig": "process died", "case": -1, "engine": "?", "cmd": cmd, "config": c, "seed": sd,
                                  "msg": f"process died with signal {-r.returncode}: {r.stderr[-600:]}"})
                else:
                    fatal = f"{' '.join(cmd)} ended with {r.returncode}: {r.stderr[-800:]}"
                continue
            d = json.loads(line)
            runs.append(d)
            for v in d["violations"]:
                v.update(cmd=cmd, config=c, seed=sd)
                viols.append(v)
    # ---- classify
    kf, seen_known, real = known(), {}, []
    for v in viols:
        k = next((k for k in kf if k[0] == prop and k[1].search(v["msg"])), None)
        if k:
            seen_known[k[2]] = seen_known.get(k[2], 0) + 1
        else:
            real.append(v)
    # listed findings are reported whether or not this run's sampling reached them
    for k in kf:
        if k[0] == prop:
            print(f"KNOWN-FINDING: property={prop} {k[2]}")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    lines, by = [], {}
    for v in real:
        by.setdefault(v["sig"], []).append(v)
    for i, (sig, vs) in enumerate(sorted(by.items(), key=lambda x: -len(x[1]))[:5]):
        os.makedirs(rdir, exist_ok=True)
        v = vs[0]
        path = os.path.join(rdir, f"{prop}-{i}.txt")
        with open(path, "w") as f:
            f.write(v["msg"] + f"\n\n{len(vs)} cases with this signature; first: config {v['config']} engine {v['engine']} seed {v['seed']} case {v['case']}\n")
            f.write(f"replay: cd {HARNESS} && SPDMMON_TRACE=1 target.{v['config']}/release/spdmmon {prop} --seed {v['seed']} --only {v['case']} -v\n")
        lines.append(f"VIOLATION property={prop} replay={path}")
        print("  " + v["msg"][:1200])
    for l in lines:
        print(l)
    # ---- evidence
    ev = sum(d["evaluations"] for d in runs)
    dist = sum(d["distinct"] for d in runs)
    counts = {}
    for d in runs:
        for k, n in d["counts"].items():
            counts[k] = max(counts.get(k, 0), n) if k.startswith("max ") else counts.get(k, 0) + n
    samples = []
    for d in runs:
        samples += [s[:1500] for s in d["samples"][:2]]
    other = {}
    for d in runs:
        for k, n in d["other"].items():
            other[k] = [other.get(k, [0, ""])[0] + n[0], n[1][:200]]
    e = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
         "coverage": {"evaluations": ev, "distinct_nontrivial": dist, "rule": spec["rule"], "samples": samples or ["none"],
                      "configurations": {d["config"] + f" seed {d['seed']}": [d["evaluations"], d["distinct"]] for d in runs},
                      "observed": dict(sorted(counts.items())), "observations_of_other_properties": other,
                      "build_s": round(t_build, 1)},
         "assumptions": spec.get("assumptions", []) + ["cryptographic primitives are stand-ins with the same interface (real SHA-2/HMAC/HKDF, toy AEAD, signatures, DH)"],
         "wall_s": round(time.time() - t0, 1), "violations": len(real)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)
    print(f"{prop} {tier}: {ev} cases, {dist} distinct, {len(real)} violations, build {t_build:.0f} s, total {time.time()-t0:.0f} s")
    if real:
        return 1
    if fatal:
        print("NO-ANSWER: " + fatal)
        return 2
    missing = [k for k in spec.get("need", []) if counts.get(k, 0) == 0]
    if ev == 0 or dist < 2 or missing:
        print(f"NO-ANSWER: the monitors observed too little: {ev} cases, {dist} distinct, never seen: {missing}")
        return 2
    return 0


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.exit(main())
