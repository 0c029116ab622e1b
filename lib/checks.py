"""The checks: each returns {level, coverage, assumptions, violations}."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# checks whose work is split over processes
SHARDS = {"C13": 8, "C25": 8, "C06": 8, "C11": 8, "C03": 8, "C04": 8, "C20": 8, "C21": 8, "C27": 8, "C26": 8}


def driver(prop, tier, env):
    n = SHARDS.get(prop, 1)
    if n == 1:
        return env["run_driver"]("check " + prop, tier)
    env["build_driver"]()
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda k: env["run_driver"]("check " + prop, tier, shard=f"{k}/{n}"), range(n)))
    r, c = rs[0], rs[0]["coverage"]
    for x in rs[1:]:
        r["violations"] += [v for v in x["violations"] if v["key"] not in {w["key"] for w in r["violations"]}]
        r["errors"] += [e for e in x["errors"] if e not in r["errors"]]
        for k, v in x["coverage"].items():
            if isinstance(v, int):
                c[k] += v
            elif isinstance(v, dict):
                for q, w in v.items():
                    c[k][q] = c[k].get(q, 0) + w
            elif isinstance(v, list):
                c[k] += [e for e in v if e not in c[k]]
    c["samples"] = c["samples"][:12]
    c["processes"] = n
    return r


def run(prop, tier, env):
    if prop == "C05":
        return witnesses("borrow.txt", 19, env, "the witness programs cover the misuse shapes: reuse, overwrite, drop and outliving of the parser, through a query obtained from either parse function, moved, copied or cloned")
    if prop == "C24":
        return values(tier, env)
    r = driver(prop, tier, env)
    c = r["coverage"]
    c["checker_cmd"] = f"normcheck 'check {prop}' as the rustc wrapper of cargo +nightly check"
    c["trusted_base"] = ["rustc's MIR of the crate", "the abstract interpreter in analyzer/", "its models of core/alloc/memchr functions", "the reference tables in analyzer/"]
    c["explanation"] = (f"{c['obligations']} obligations generated from the current MIR: {c['discharged']} discharged, {len(r['violations'])} refuted, "
                        f"{c['obligations'] - c['discharged'] - len(r['violations'])} undecided (listed, never reported as violations); rules: " + "; ".join(c["rules"]))
    return r


# ---------------------------------------------------------------- type-level
def features(env):
    """the crate built with each set of its features; the bodies of one build against those of the other"""
    viol, done, undecided, samples, ref = [], 0, [], [], None
    for f in ["fzf-v1,fzf-v2", "fzf-v1", "fzf-v2", ""]:
        tmp = tempfile.mkdtemp(prefix="normcheck.")
        try:
            e = env["clean_env"]()
            e["CARGO_TARGET_DIR"] = os.path.join(tmp, "t")
            r = env["sh"](["cargo", "+nightly", "check", "--offline", "-q", "--manifest-path", env["REPO"] + "/Cargo.toml", "--features", f, "--lib"], env=e, cwd=tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if r.returncode != 0:
            if ref is None:
                env["die"]("the crate does not compile:\n" + r.stdout[-2000:])
            viol.append({"key": f"features {f or 'none'}", "where": "Cargo.toml", "rule": "the crate builds with each set of its features",
                         "detail": r.stdout[-1200:]})
            continue
        done += 1
        samples.append(f"builds with features {f or 'none'}")
        if not f:
            continue
        got = {k: re.sub(r"alloc\d+", "alloc", v) for k, v in env["run_driver"]("bodies", "quick", features=f).items()}
        if ref is None:
            ref = got
            continue
        for k, v in got.items():
            if ref.get(k) == v:
                done += 1
            else:
                undecided.append(f"{k} with {f} alone is not, word for word, what it is with both")
    return viol, done, undecided, samples


def values(tier, env):
    r = witnesses("threads.txt", 14, env, "the witness programs cover the uses: sharing, moving, cloning, generic code, chained setters")
    d = env["run_driver"]("check C24", tier)
    viol, done, undecided, samples = features(env)
    r["violations"] += d["violations"] + viol
    c = r["coverage"]
    c["obligations"] += d["coverage"]["obligations"] + done + len(undecided) + len(viol)
    c["discharged"] += d["coverage"]["discharged"] + done
    c["undecided"] = d["coverage"]["undecided"] + len(undecided)
    c["undecided_list"] = d["coverage"]["undecided_list"] + undecided
    c["functions"] = d["coverage"]["functions"]
    c["rules"] = d["coverage"]["rules"] + ["legal use compiles", "compile-fail witness", "the crate builds with each set of its features", "a function is the same whichever features are enabled"]
    c["samples"] += samples + d["coverage"]["samples"]
    c["explanation"] += f"; clones keep the settings ({d['coverage']['discharged']} obligations); {done} builds and bodies compared between feature sets"
    r["errors"] = d["errors"]
    return r


def witnesses(file, least, env, cover):
    text = open(os.path.join(HERE, "witness", file)).read()
    blocks = []
    for line in text.splitlines():
        if line.startswith("#"):
            continue
        m = re.match(r"== (\S+) (\S+)$", line)
        if m:
            blocks.append((m.group(1), m.group(2), []))
        elif blocks:
            blocks[-1][2].append(line)
    tmp = tempfile.mkdtemp(prefix="normcheck.")
    try:
        e = env["clean_env"]()
        e["CARGO_TARGET_DIR"] = os.path.join(tmp, "t")
        repo = env["REPO"]
        r = env["sh"](["cargo", "+nightly", "check", "--offline", "-q", "--manifest-path", repo + "/Cargo.toml",
                       "--features", "fzf-v1,fzf-v2", "--lib"], env=e, cwd=tmp)
        found = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(tmp, "t")) for f in fs if f.endswith(".rmeta")]
        metas = [f for f in found if re.match(r"libnorm-.*\.rmeta$", os.path.basename(f))]
        dirs = sorted({os.path.dirname(f) for f in found})
        if r.returncode != 0 or not metas:
            env["die"]("the crate does not compile:\n" + r.stdout[-2000:])
        meta = metas[0]

        def compile(job):
            name, variant, lines = job
            p = os.path.join(tmp, f"{name}.{variant}.rs")
            with open(p, "w") as f:
                f.write("#![allow(unused)]\nuse norm::fzf::{FzfDistance, FzfParser, FzfQuery, FzfV1 as V1, FzfV2 as V2};\n"
                        "use norm::Metric;\npub fn witness() {\n" + "\n".join(lines) + "\n}\n")
            r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w",
                                "--emit", "metadata", "-o", p + ".rmeta", "--error-format", "json", "--extern", "norm=" + meta,
                                *[x for d in dirs for x in ("-L", "dependency=" + d)], p], text=True, capture_output=True, env=e, cwd=tmp)
            codes = []
            for l in r.stderr.splitlines():
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error" and d.get("spans"):
                    codes.append(((d.get("code") or {}).get("code") or "none", d["message"]))
            return name, variant, r.returncode, codes

        jobs = []
        for name, code, lines in blocks:
            twin = [l for l in lines if not l.startswith("BAD ")]
            jobs.append((name, "twin", twin))
            if code != "OK":
                jobs.append((name, "bad", [l[4:] if l.startswith("BAD ") else l for l in lines]))
        with ThreadPoolExecutor(8) as ex:
            results = list(ex.map(compile, jobs))
        want = {n: c for n, c, _ in blocks}
        viol, rejected, accepted, samples = [], 0, 0, []
        for name, variant, rc, codes in results:
            if variant == "twin":
                if rc == 0:
                    accepted += 1
                else:
                    viol.append({"key": f"twin {name}", "where": "witness/" + file, "rule": "legal use compiles",
                                 "detail": f"a legal use of the API no longer compiles: {codes[:2]}"})
            else:
                if rc != 0 and any(c in want[name].split("|") for c, _ in codes):
                    rejected += 1
                    samples.append(f"{name}: rejected with {want[name]}: {codes[0][1]}")
                else:
                    viol.append({"key": f"witness {name}", "where": "witness/" + file, "rule": "compile-fail witness",
                                 "detail": ("the compiler accepts a program that has to be rejected"
                                            if rc == 0 else f"rejected, but not with {want[name]}: {codes[:2]}")})
        if len(blocks) < least:
            env["die"]("witness file truncated")
        return {"level": "proof", "violations": viol,
                "coverage": {"obligations": len(jobs), "discharged": rejected + accepted, "checker_cmd": "rustc +nightly (borrow checker) on witness programs",
                             "trusted_base": ["rustc's borrow checker", "the witness programs are the misuse shapes"],
                             "explanation": f"{rejected} misuse programs rejected by the borrow checker with the expected code, {accepted} legal twins accepted",
                             "samples": samples[:6]},
                "assumptions": [cover]}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
