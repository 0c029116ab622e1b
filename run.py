#!/usr/bin/env python3
"""Runs one static check: python3 run.py <property> [quick|thorough]

Builds the rustc driver (analyzer/) if it is not built, compiles /repo's
current tree through it in a scratch target directory (analysis happens inside
the compiler, no code of /repo runs), and turns its findings into
VIOLATION / KNOWN-FINDING lines and evidence/<property>.json.
Exit 0: held on everything analysed.  1: violation.  2: the check could not run.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NORMCHECK_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "lib"))


def die(msg):
    print(f"check error: {msg}")
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"], cwd=HERE).stdout.strip()


def clean_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
            env.pop(k)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def build_driver():
    env = clean_env()
    r = sh(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=os.path.join(HERE, "analyzer"), env=env)
    exe = os.path.join(HERE, "analyzer/target/release/normcheck")
    if r.returncode != 0 or not os.path.exists(exe):
        die("cannot build the analyzer:\n" + r.stdout[-3000:])
    return exe


# seconds after which a run is stopped: what was found until then counts
LIMIT = {"quick": 420, "thorough": 820}
# set once one process of a check has found a violation: the others get a little longer
FOUND = threading.Event()
T0 = time.time()


def run_driver(cmd, tier, features="fzf-v1,fzf-v2", shard=""):
    """Compile the crate through the driver; returns the driver's JSON."""
    exe = build_driver()
    tmp = tempfile.mkdtemp(prefix="normcheck.")
    try:
        out = os.path.join(tmp, "out.json")
        env = clean_env()
        env.update(
            NORMCHECK_CMD=cmd, NORMCHECK_OUT=out, NORMCHECK_TIER=tier, NORMCHECK_SHARD=shard,
            LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
            RUSTC_WORKSPACE_WRAPPER=exe, RUSTFLAGS="-Zmir-opt-level=0 -Awarnings",
            CARGO_TARGET_DIR=os.path.join(tmp, "t"), RUST_MIN_STACK="536870912",
        )
        log = open(os.path.join(tmp, "log"), "w+")
        p = subprocess.Popen(["cargo", "+nightly", "check", "--offline", "-q", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                              "--features", features, "--lib"], env=env, cwd=tmp, text=True, stdout=log, stderr=log, start_new_session=True)
        end, stopped = T0 + LIMIT.get(tier, 420), False
        while p.poll() is None:
            if FOUND.is_set():
                end = min(end, time.time() + 40)
            try:
                p.wait(2 if time.time() - T0 > 20 else 0.05)
            except subprocess.TimeoutExpired:
                if time.time() > end:
                    stopped = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
        if stopped and not os.path.exists(out):
            out += ".part"
            if not os.path.exists(out):
                return {"level": "other", "violations": [], "assumptions": [], "errors": ["a process was stopped before it had a result"],
                        "coverage": {"obligations": 1, "discharged": 0, "undecided": 1, "undecided_list": [], "functions": [], "rules": [], "samples": [], "numbers": {}}}
        if not os.path.exists(out):
            log.seek(0)
            die("the analyzer gave no result:\n" + log.read()[-4000:])
        with open(out) as f:
            res = json.load(f)
        if stopped:
            res["errors"].append("a process was stopped before it had looked at everything")
            res["coverage"]["obligations"] += 1
        if res.get("violations"):
            FOUND.set()
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known():
    """known_findings.txt: 'known: property=<id> key=<exact key> | <what fails>'; 'fixed:' lines suppress nothing."""
    res = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) \| (.*)$", line.strip())
            if m:
                res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import checks
    res = checks.run(prop, tier, globals())
    # res: level, coverage, assumptions, violations: [{key, where, rule, detail}]
    kn = known().get(prop, {})
    new, old = [], []
    for v in res["violations"]:
        (old if v["key"] in kn else new).append(v)
    for v in old:
        print(f"KNOWN-FINDING: property={prop} {kn[v['key']]}")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for e in res.get("errors", []):
        print(f"UNDECIDED property={prop} {e}")
    if res.get("errors"):
        res["coverage"]["not_found"] = res["errors"]
    if not new and not res["coverage"].get("discharged"):
        die("nothing could be decided")
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": res.get("level", "other"), "coverage": res["coverage"],
          "assumptions": res.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = os.path.join("evidence", f"{prop}.violations.json")
        with open(os.path.join(HERE, rp), "w") as f:
            json.dump(new, f, indent=1)
        for v in new:
            print(f"  {v['where']}: [{v['rule']}] {v['key']}\n    {v['detail']}")
        print(f"VIOLATION property={prop} replay=/verif/{rp}")
        sys.exit(1)
    print(f"ok property={prop} {json.dumps(res['coverage'])[:600]}")
    sys.exit(0)


if __name__ == "__main__":
    main()
