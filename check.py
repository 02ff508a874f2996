#!/usr/bin/env python3
"""check.py <PROPERTY> [--replay FILE]

Builds the harness against /repo's working tree in several word-size configurations, searches for a
violation of the property with generated inputs, writes evidence/<PROPERTY>.json.

Exit 0: nothing found. Exit 1: "VIOLATION property=<id> replay=<path>". Anything else: the check failed.
"""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
import time

import plan

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

CONFIGS = {
    # name: (extra cargo arguments, RUSTFLAGS, directory below the target directory)
    "native": ([], "", "debug"),
    "i686": (["--target", "i686-unknown-linux-gnu"], "", "i686-unknown-linux-gnu/debug"),
    "bits64": ([], '--cfg force_bits="64"', "debug"),
    "bits32": ([], '--cfg force_bits="32"', "debug"),
    "bits16": ([], '--cfg force_bits="16"', "debug"),
    "native-release": (["--release"], "", "release"),
    "i686-release": (["--release", "--target", "i686-unknown-linux-gnu"], "", "i686-unknown-linux-gnu/release"),
    "bits16-release": (["--release"], '--cfg force_bits="16"', "release"),
    "asan": (["--target", "x86_64-unknown-linux-gnu"], "-Zsanitizer=address --cfg plain_alloc", "x86_64-unknown-linux-gnu/debug"),
    "asan-bits16": (["--target", "x86_64-unknown-linux-gnu"], '-Zsanitizer=address --cfg plain_alloc --cfg force_bits="16"', "x86_64-unknown-linux-gnu/debug"),
    # Coverage-guided: LLVM's coverage callbacks in ibig (see sancov.sh), one thread per process.
    # The 64-bit one is without debug assertions and overflow checks, so that the quick tier has what users ship too.
    "guided": ([], "--cfg guided -C debug-assertions=off -C overflow-checks=off", "debug"),
    "guided-bits16": ([], '--cfg guided --cfg force_bits="16"', "debug"),
    # The edges taken in ibig are counted: the work done, for C29.
    "counted": ([], "--cfg counted -C debug-assertions=off -C overflow-checks=off", "debug"),
    "counted-i686": (["--target", "i686-unknown-linux-gnu"], "--cfg counted -C debug-assertions=off -C overflow-checks=off", "i686-unknown-linux-gnu/debug"),
}
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"


class CheckError(Exception):
    pass


def cargo_env(rustflags, toolchain="1.99.1-x86_64-unknown-linux-gnu"):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_PROFILE") or k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
            del env[k]
    env["HOME"] = "/root"
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["RUSTUP_TOOLCHAIN"] = toolchain
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["RUSTFLAGS"] = rustflags
    env["RUST_BACKTRACE"] = "0"
    return env


def build(config, feature):
    """Returns the path of the harness binary for this configuration."""
    args, flags, sub = CONFIGS[config]
    target = os.path.join(BUILD, config)
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml"),
           "--target-dir", target, "--features", feature] + args
    env = cargo_env(flags, NIGHTLY) if "sanitizer" in flags else cargo_env(flags)
    if config.startswith("guided"):
        env["RUSTC_WRAPPER"] = os.path.join(VERIF, "sancov.sh")
        env["SANCOV"] = "guide"
    if config.startswith("counted"):
        env["RUSTC_WRAPPER"] = os.path.join(VERIF, "sancov.sh")
        env["SANCOV"] = "count"
    own = os.path.join(BUILD, "bin", "%s-%s" % (feature, config))
    os.makedirs(os.path.dirname(own), exist_ok=True)
    # Several properties share the target directory: one at a time, each with a copy of its own.
    with open(own.replace(feature + "-", "lock-", 1), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("build of %s failed:\n%s" % (config, p.stdout[-6000:]))
        subprocess.run(["cp", "--remove-destination", os.path.join(target, sub, "harness"), own], check=True)
    return own


def crash_text(err):
    """The first lines of a sanitizer report, or the end of the text."""
    i = err.find("ERROR: AddressSanitizer")
    return err[i:i + 1500] if i >= 0 else err[-400:]


def save_replay(prop, rec):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(rec, indent=1)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, rec.get("config", "all"), hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


def run_worker(prop, config, binary, threads, opts):
    """Runs one configuration; returns (evidence part, failure or None)."""
    cmd = [binary, "--prop", prop, "--config", config, "--seed", str(SEED), "--threads", str(threads)]
    for k, v in opts.items():
        cmd += ["--" + k, str(v)]
    limit = float(opts.get("secs", 60)) + 150
    env = dict(os.environ)
    if config.startswith("asan"):
        # The shadow memory is reserved address space: no limit on it.
        cmd += ["--memory-mb", "0"]
        env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0"
    tape_file = None
    if config.startswith("guided"):
        tape_file = os.path.join(BUILD, "tape-%s-%s" % (prop, config))
        cmd += ["--tape-file", tape_file]
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit)
        out, code, err = p.stdout, p.returncode, p.stderr
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        code, err = "timeout", ""
    last = [x for x in out.splitlines() if x.startswith("{")]
    part = json.loads(last[-1]) if last else {"config": config, "evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "samples": []}
    base = {"property": prop, "config": config, "seed": SEED}
    if code == 0:
        if not last:
            raise CheckError("%s: no result\n%s" % (config, out[-2000:]))
        return part, None
    if code == 1 and "failure" in part:
        f = part.pop("failure")
        return part, dict(base, **f)
    pre = [x for x in out.splitlines() if x.startswith("PREFAIL ")]
    if pre:
        return part, dict(base, **json.loads(pre[-1][8:]))
    if tape_file and re.search(r"^(HANG|CRASH) ", out, re.M):
        # Guided cases are known by their tape alone.
        with open(tape_file, "rb") as f:
            data = f.read()
        n = int.from_bytes(data[:8], "little")
        tape = [int.from_bytes(data[8 * i + 8:8 * i + 16], "little") for i in range(n)]
        what = "the case does not finish (CPU time limit)" if "\nHANG" in out else "the process died in this case; " + crash_text(err)
        return part, dict(base, case=0, tape=tape, notes=[], message=what)
    m = re.search(r"^HANG case=(\d+)", out, re.M)
    if m:
        return part, dict(base, case=int(m.group(1)), whole_case=True, message="the case does not finish (CPU time limit)")
    m = re.search(r"^CRASH signal=(\d+) case=(\d+)", out, re.M)
    if m and int(m.group(2)) != 2**64 - 1:
        return part, dict(base, case=int(m.group(2)), whole_case=True,
                          message="the process died with signal %d in this case; %s" % (int(m.group(1)), crash_text(err)))
    raise CheckError("%s: worker ended with %s\n%s\n%s" % (config, code, out[-2000:], err[-2000:]))


def known_findings(prop):
    """Open findings: lines 'finding: property=<id> match=<regex> :: <what fails>'."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def finish(prop, started, parts, failures, rule, extra=None, assumptions=None):
    coverage = {
        "evaluations": sum(p.get("evaluations", 0) for p in parts),
        "distinct_nontrivial": sum(p.get("distinct_nontrivial", 0) for p in parts),
        "rule": rule,
        "samples": [s for p in parts for s in p.get("samples", [])][:12],
        "per_configuration": [
            {k: p[k] for k in ("config", "evaluations", "fixed_evaluations", "distinct_nontrivial", "labels", "wall_s") if k in p}
            for p in parts
        ],
    }
    if extra:
        coverage.update(extra)
    known = known_findings(prop)
    new = []
    for f in failures:
        text = f.get("message", "") + " " + " ".join(f.get("notes", []))
        hit = [w for (r, w) in known if re.search(r, text)]
        if not hit:
            new.append(f)
    for _, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    ev = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration",
        "coverage": coverage,
        "assumptions": assumptions or plan.ASSUMPTIONS,
        "wall_s": round(time.time() - started, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for f in new:
        print("%s [%s] %s" % (prop, f.get("config"), f.get("message", "")[:1500]))
        for n in f.get("notes", [])[:40]:
            print("    " + n[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, save_replay(prop, f)))
    print("%s: %d cases, %d distinct non-trivial, %d violations, %.1f s"
          % (prop, coverage["evaluations"], coverage["distinct_nontrivial"], len(new), time.time() - started))
    return 1 if new else 0


MIRI_FLAGS = {"miri": "--cfg plain_alloc", "miri-bits16": '--cfg plain_alloc --cfg force_bits="16"', "miri-be": "--cfg plain_alloc"}
MIRI_TARGETS = {"miri-be": ["--target", "s390x-unknown-linux-gnu"]}  # 64-bit, most significant byte first


def miri_cmd(config, prop, first, count=1):
    env = cargo_env(MIRI_FLAGS[config], NIGHTLY)
    env["MIRIFLAGS"] = "-Zmiri-permissive-provenance -Zmiri-disable-isolation"
    cmd = ["cargo", "miri", "run"] + MIRI_TARGETS.get(config, []) + ["--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml"),
           "--target-dir", os.path.join(BUILD, config), "--features", prop.lower(), "--",
           "--prop", prop, "--config", config, "--seed", str(SEED), "--first", str(first), "--plain", str(count)]
    return cmd, env


def run_miri(prop, config, workers, secs, cases, limit):
    """Single small cases under the interpreter, each in a process of its own with a time limit."""
    end = time.time() + secs
    state = {"next": 0, "done": 0, "slow": 0, "failure": None, "error": None}

    def one(limit):
        case = state["next"]
        state["next"] += 1
        cmd, env = miri_cmd(config, prop, case)
        p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        try:
            out, err = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            state["slow"] += 1
            return
        i = err.find("error: Undefined Behavior")
        if i >= 0 or "FAILS:" in out:
            text = err[i:i + 1500] if i >= 0 else out[-1500:]
            state["failure"] = {"property": prop, "config": config, "seed": SEED, "case": case, "whole_case": True, "message": "under Miri: " + text}
        elif p.returncode != 0:
            state["error"] = "%s: case %d ended with %s\n%s" % (config, case, p.returncode, err[-2000:])
        else:
            state["done"] += 1

    def worker():
        while time.time() < end and state["next"] < cases and not state["failure"] and not state["error"]:
            one(limit)

    one(400)  # builds
    with concurrent.futures.ThreadPoolExecutor(max_workers=workers) as ex:
        for f in [ex.submit(worker) for _ in range(workers)]:
            f.result()
    if state["error"] and not state["failure"]:
        raise CheckError(state["error"])
    part = {"config": config, "evaluations": state["done"], "distinct_nontrivial": 0, "labels": {"given up after %d s" % limit: state["slow"]}, "samples": []}
    return part, state["failure"]


def standard(prop):
    started = time.time()
    p = plan.get(prop, TIER)
    feature = prop.lower()
    parts, failures = [], []
    with concurrent.futures.ThreadPoolExecutor(max_workers=16) as ex:
        builds = {c: ex.submit(build, c, feature) for c in p["configs"]}
        # Start running only when every configuration is built: the machine is shared.
        bins = {c: b.result() for c, b in builds.items()}
        jobs = []
        for c, o in p["configs"].items():
            opts = dict(o)
            threads = opts.pop("threads")
            jobs.append(ex.submit(run_worker, prop, c, bins[c], threads, opts))
        for j in jobs:
            part, failure = j.result()
            parts.append(part)
            if failure:
                failures.append(failure)
    for config in p.get("miri", []):
        part, failure = run_miri(prop, config, 8, *p["miri_limits"])
        parts.append(part)
        if failure:
            failures.append(failure)
    rule = next((x["rule"] for x in parts if x.get("rule")), "see harness/src/props/%s.rs" % feature)
    return finish(prop, started, parts, failures, rule)


def replay(prop, path):
    rec = json.load(open(path))
    if "program" in rec or "transcript" in rec:
        import special
        return special.replay(prop, rec)
    config = rec["config"]
    if config in MIRI_FLAGS:
        cmd, env = miri_cmd(config, prop, rec["case"])
        r = subprocess.run(cmd, env=env)
        print("reproduced" if r.returncode != 0 else "not reproduced")
        return 1 if r.returncode != 0 else 0
    binary = build(config, prop.lower())
    if rec.get("whole_case") or rec.get("fixed"):
        cmd = [binary, "--prop", prop, "--config", config, "--seed", str(rec["seed"]),
               "--first", str(rec.get("case", 0)), "--cases", "0" if rec.get("fixed") else "1"]
    else:
        cmd = [binary, "--prop", prop, "--tape", ",".join(map(str, rec["tape"]))]
    r = subprocess.run(cmd)
    print("reproduced" if r.returncode != 0 else "not reproduced")
    return 1 if r.returncode != 0 else 0


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        # Every check builds what it needs itself; this only shows that the tools are there.
        return subprocess.run(["cargo", "--version"], env=cargo_env("")).returncode
    prop = args[0]
    try:
        if "--replay" in args:
            return replay(prop, args[args.index("--replay") + 1])
        if prop in plan.SPECIAL:
            import special
            return getattr(special, plan.SPECIAL[prop])(prop)
        return standard(prop)
    except CheckError as e:
        print("CHECK ERROR %s: %s" % (prop, e))
        return 3


if __name__ == "__main__":
    sys.exit(main())
