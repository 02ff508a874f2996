"""Checks that need more than one worker process: configurations compared (C24), programs compiled (C27)."""
import concurrent.futures
import json
import os
import random
import re
import subprocess
import sys
import time

import check
import plan
from check import BUILD, SEED, TIER, CheckError, build, cargo_env, finish, run_worker

if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)

# ---------------------------------------------------------------------------------------------------
# C24: the same programs in every configuration


class Server:
    """A harness process answering tapes with transcripts."""

    def __init__(self, prop, binary):
        self.cmd = [binary, "--prop", prop, "--serve", "1"]
        self.p = None

    def ask(self, line):
        """(numbers drawn, transcript)"""
        if self.p is None:
            self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                      text=True, errors="replace")
        timer = __import__("threading").Timer(40, self.p.kill)
        timer.start()
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
            while True:
                out = self.p.stdout.readline()
                if out.startswith("{") or not out:
                    break
        except BrokenPipeError:
            out = ""
        timer.cancel()
        if not out:
            self.close()
            return None, "the process died or did not answer"
        r = json.loads(out)
        return r["used"], r["text"]

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None


def first_difference(a, b):
    la, lb = a.split("\n"), b.split("\n")
    for i in range(max(len(la), len(lb))):
        x = la[i] if i < len(la) else "(ended)"
        y = lb[i] if i < len(lb) else "(ended)"
        if x != y:
            xs, ys = x.split(";"), y.split(";")
            for p, q in zip(xs, ys):
                if p != q:
                    return i, p[:600], q[:600]
            return i, x[:600], y[:600]
    return -1, "", ""


def shrink_pair(s1, s2, tape, budget=25):
    """Greedy reduction of a tape on which two configurations differ."""
    start = time.time()

    def differs(cand):
        if time.time() - start > budget:
            return None
        line = ",".join(map(str, cand))
        u1, t1 = s1.ask(line)
        u2, t2 = s2.ask(line)
        if t1 == t2:
            return None
        used = list(u1 if u1 is not None else u2 if u2 is not None else cand)
        while used and used[-1] == 0:
            used.pop()
        return used

    best = list(tape)
    progress = True
    while progress and time.time() - start < budget:
        progress = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if time.time() - start > budget:
                    return best
                r = differs(best[:i] + best[i + size:])
                if r is not None and (len(r), r) < (len(best), best):
                    best, progress = r, True
                else:
                    i += size
            size //= 2
        i = 0
        while i < len(best):
            if time.time() - start > budget:
                return best
            for v in (0, 1, best[i] // 2, best[i] - 1):
                if 0 <= v < best[i]:
                    r = differs(best[:i] + [v] + best[i + 1:])
                    if r is not None and (len(r), r) < (len(best), best):
                        best, progress = r, True
                        break
            i += 1
    return best


def big_endian(prop, secs, silent):
    """Transcript hashes of programs interpreted for a big-endian machine: {case: hash}, as many as fit into the time."""
    table, slow, lock = {}, [], __import__("threading").Lock()
    cmd, env = check.miri_cmd("miri-be", prop, 0, 0)
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode != 0:
        # The interpreter builds a standard library for that machine first; without it, the evidence says so.
        print("the big-endian machine was not run: " + p.stderr[-600:])
        return {}, -1
    end = time.time() + secs

    def worker(first):
        case = first
        while time.time() < end and case < first + 1000:
            cmd, env = check.miri_cmd("miri-be", prop, case, first + 1000 - case)
            p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
            beat = [time.time()]

            def watch():
                while p.poll() is None:
                    if time.time() > min(beat[0] + silent, end):
                        try:
                            os.killpg(p.pid, 9)
                        except ProcessLookupError:
                            pass
                        return
                    time.sleep(0.2)

            err = []
            drain = __import__("threading").Thread(target=lambda: err.append(p.stderr.read()))
            drain.start()
            w = __import__("threading").Thread(target=watch)
            w.start()
            for line in p.stdout:
                beat[0] = time.time()
                f = line.split()
                if f[:1] == ["CASE"]:
                    case = int(f[1])
                elif f[:1] == ["HASH"]:
                    with lock:
                        table[f[1]] = f[2]
            p.wait()
            w.join()
            drain.join()
            if p.returncode not in (0, -9):
                with lock:
                    table[str(case)] = "ended with %s: %s" % (p.returncode, (err or [""])[0][-1200:])
            elif p.returncode == -9:
                slow.append(case)
            case += 1

    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for j in [ex.submit(worker, 1000 * k) for k in range(8)]:
            j.result()
    return table, len(slow)


def c24(prop):
    started = time.time()
    p = plan.get(prop, TIER)
    configs = p["configs"]
    d = os.path.join(BUILD, "c24")
    os.makedirs(d, exist_ok=True)
    parts, failures = [], []
    with concurrent.futures.ThreadPoolExecutor(max_workers=16) as ex:
        builds = {c: ex.submit(build, c, "c24") for c in configs}
        bins = {c: b.result() for c, b in builds.items()}
        jobs = {}
        for c, o in configs.items():
            opts = dict(o)
            threads = opts.pop("threads")
            opts["transcripts"] = os.path.join(d, c + ".txt")
            if os.path.exists(opts["transcripts"]):
                os.remove(opts["transcripts"])
            jobs[c] = ex.submit(run_worker, prop, c, bins[c], threads, opts)
        for c, j in jobs.items():
            part, failure = j.result()
            parts.append(part)
            if failure:
                failure["message"] = "%s (other configurations go on)" % failure.get("message", "")
                failures.append(failure)
    tables = {}
    for c in configs:
        f = os.path.join(d, c + ".txt")
        if os.path.exists(f):
            tables[c] = dict(line.split() for line in open(f))
    common = sorted(set.intersection(*(set(t) for t in tables.values())), key=int) if len(tables) > 1 else []
    if not failures and not common:
        raise CheckError("no transcripts to compare")
    bad = [k for k in common if len({t[k] for t in tables.values()}) > 1]
    if bad:
        # smallest difference after shrinking among the first few
        case = bad[0]
        groups = {}
        for c, t in tables.items():
            groups.setdefault(t[case], []).append(c)
        order = sorted(groups.values(), key=len, reverse=True)
        ref, dev = order[0][0], order[1][0]
        s1, s2 = Server(prop, bins[ref]), Server(prop, bins[dev])
        used, t1 = s1.ask("case %d %s" % (SEED, case))
        used2, t2 = s2.ask("case %d %s" % (SEED, case))
        tape = used if used is not None else used2
        best = shrink_pair(s1, s2, tape) if tape is not None and t1 != t2 else (tape or [])
        line = ",".join(map(str, best))
        _, t1 = s1.ask(line)
        _, t2 = s2.ask(line)
        s1.close()
        s2.close()
        n, x, y = first_difference(t1, t2)
        failures.append({
            "property": prop, "config": "%s-vs-%s" % (ref, dev), "seed": SEED, "case": int(case), "tape": best,
            "transcript": True, "configs": [ref, dev], "differing_cases": len(bad),
            "message": "%s and %s observe different results (step %d): %s  |  %s" % (ref, dev, n, x, y),
            "notes": ["groups: %s" % order] + [q[:500] for q in t1.split("\n")[max(0, n - 3):n]],
        })
    swapped, slow = big_endian(prop, *((600, 120) if TIER == "thorough" else (50, 15)))
    compared = sorted((k for k in swapped if k in tables.get("native", {})), key=int)
    differ = [k for k in compared if swapped[k] != tables["native"][k]]
    if differ and not failures:
        n, x, y = big_endian_difference(prop, bins["native"], SEED, differ[0])
        failures.append({
            "property": prop, "config": "native-vs-miri-be", "seed": SEED, "case": int(differ[0]), "big_endian": True, "transcript": True,
            "differing_cases": len(differ),
            "message": "the native and a big-endian machine observe different results (step %d): %s  |  %s" % (n, x, y)})
    parts.append({"config": "miri-be", "evaluations": len(compared), "distinct_nontrivial": 0, "labels": {"not run": 1} if slow < 0 else {"given up": slow}, "samples": []})
    rule = next((x["rule"] for x in parts if x.get("rule")), "")
    return finish(prop, started, parts, failures, rule, extra={
        "programs_compared_in_all_configurations": len(common), "programs_compared_with_a_big_endian_machine": len(compared),
        "configurations": sorted(tables) + ["miri-be"]})


def big_endian_difference(prop, binary, seed, case):
    s = Server(prop, binary)
    text = s.ask("case %d %s" % (seed, case))[1]
    s.close()
    cmd, env = check.miri_cmd("miri-be", prop, int(case))
    cmd[cmd.index("--seed") + 1] = str(seed)
    try:
        p = subprocess.run(cmd + ["--show", "1"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
    except subprocess.TimeoutExpired:
        return 0, "native", "the big-endian machine did not finish"
    out = p.stdout.split("\n", 2)
    if p.returncode != 0 or len(out) < 3:
        return 0, "native", p.stderr[-600:]
    return first_difference(text.rstrip("\n"), out[2].rstrip("\n"))


# ---------------------------------------------------------------------------------------------------
# C27: literal programs

DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"


def numeral(n, base):
    if n == 0:
        return "0"
    # through hexadecimal for speed where possible
    out = []
    while n:
        n, r = divmod(n, base)
        out.append(DIGITS[r])
    return "".join(reversed(out))


def big(rng):
    k = rng.random()
    if k < 0.3:
        bits = rng.choice([1, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128])
    elif k < 0.7:
        bits = rng.randrange(1, 200)
    elif k < 0.95:
        bits = rng.randrange(1, 1500)
    else:
        bits = rng.randrange(1, 12000)
    s = rng.random()
    if s < 0.15:
        return (1 << bits) - 1
    if s < 0.3:
        return 1 << bits
    if s < 0.35:
        return rng.randrange(0, 10)
    return rng.getrandbits(bits)


def is_rust_literal(s):
    """Is the text one literal token whatever follows? (integer or exponent-free decimal)"""
    return re.fullmatch(r"[0-9][0-9_]*", s) is not None


def mixed_case(rng, s):
    k = rng.randrange(3)
    if k == 0:
        return s
    if k == 1:
        return s.upper()
    return "".join(c.upper() if rng.random() < 0.5 else c for c in s)


def underscored(rng, s):
    out = [s[0]]
    for c in s[1:]:
        if rng.random() < 0.25:
            out.append("_" * rng.randrange(1, 3))
        out.append(c)
    if rng.random() < 0.2:
        out.append("_")
    return "".join(out)


def literal(rng):
    """(shape, text inside the parentheses without sign, value)"""
    shape = rng.randrange(9)
    n = big(rng)
    zeros = "0" * (rng.randrange(1, 40) if rng.random() < 0.2 else 0)
    if shape == 0:
        n &= (1 << 128) - 1
        return "decimal literal", underscored(rng, zeros + numeral(n, 10)), n
    if shape == 1:
        n &= (1 << 128) - 1
        base, p = rng.choice([(2, "0b"), (8, "0o"), (16, "0x")])
        body = zeros + numeral(n, base)
        if base == 16:
            body = mixed_case(rng, body)
        return "prefixed literal", p + underscored(rng, body), n
    if shape == 2:
        return "underscore decimal", "_" + zeros + numeral(n, 10), n
    if shape == 3:
        base, p = rng.choice([(2, "_0b"), (8, "_0o"), (16, "_0x")])
        return "underscore prefix", p + zeros + mixed_case(rng, numeral(n, base)), n
    base = rng.randrange(2, 37) if rng.random() < 0.8 else rng.choice([2, 4, 8, 10, 16, 32])
    b = rng.choice(["%d", "0x%x", "%du32", "0b{0:b}"]) if rng.random() < 0.15 else "%d"
    bt = b.format(base) if "{" in b else b % base
    text = zeros + numeral(n, base)
    if shape in (4, 5):
        return "underscore base", "_%s base %s" % (mixed_case(rng, text), bt), n
    # digits as they come: an identifier or a literal
    if is_rust_literal(text):
        if text.startswith("0") and len(text) > 1 and text[1] in "box":
            return "underscore base", "_%s base %s" % (text, bt), n
        return "literal base", "%s base %s" % (text, bt), n
    t = mixed_case(rng, text)
    if t[0].isalpha():
        return "identifier base", "%s base %s" % (t, bt), n
    if base > 10:
        # start with a letter, to get an identifier
        d = rng.randrange(10, base)
        n = n + d * base ** len(t)
        t = (DIGITS[d].upper() if rng.random() < 0.3 else DIGITS[d]) + t
        return "identifier base", "%s base %s" % (t, bt), n
    return "underscore base", "_%s base %s" % (t, bt), n


KEYWORDS = ["as", "if", "in", "do", "fn", "let", "mod", "use", "dyn", "true", "false", "self", "super", "crate", "base", "static",
            "b2", "br", "r", "b", "c", "cr", "e5", "u8", "f32", "usize", "str", "union", "raw", "async", "try", "yield", "abstract"]


def cases27(rng, count):
    out = []
    for w in KEYWORDS:
        out.append(("keyword or special identifier", "%s base 36" % w, int(w, 36)))
        out.append(("keyword or special identifier", "_%s base 36" % w, int(w, 36)))
    for text, n in (("0", 0), ("00", 0), ("0x0", 0), ("_0", 0), ("_0x0", 0), ("0 base 2", 0), ("_0b102 base 32", int("0b102", 32)),
                    ("b102 base 32", int("b102", 32)), ("_100ef base 32", int("100ef", 32)), ("0x1f base 36", int("0x1f", 36)),
                    ("0b101 base 12", int("0b101", 12)), ("0o17 base 36", int("0o17", 36)), ("1e5 base 16", 0x1e5),
                    ("2e10 base 15", int("2e10", 15)), ("340282366920938463463374607431768211455", 2 ** 128 - 1),
                    ("_340282366920938463463374607431768211456", 2 ** 128), ("12u8", 12), ) :
        if text == "12u8":
            continue
        out.append(("documented examples and edges", text, n))
    while len(out) < count:
        s, t, n = literal(rng)
        # tokens of the other kinds are not numerals for the macro
        out.append((s, t, n))
    for _ in range(count // 20):
        # a digit outside the base
        base = rng.randrange(2, 36)
        t = numeral(big(rng), base)
        at = rng.randrange(len(t) + 1)
        t = t[:at] + DIGITS[rng.choice([base, base, 35, rng.randrange(base, 36)])] + t[at:]
        out.append(("invalid digit", "%s%s base %d" % ("" if t.isdigit() and (len(t) == 1 or t[0] != "0") else "_", mixed_case(rng, t), base), None))
        base, p = rng.choice([(2, "_0b"), (8, "_0o"), (10, "_")])
        t = numeral(big(rng), base)
        at = rng.randrange(1, len(t) + 1)
        out.append(("invalid digit", p + t[:at] + DIGITS[rng.randrange(base, 36)] + t[at:], None))
    res = []
    for s, t, n in out:
        k = rng.randrange(4)
        scope = rng.choice(SCOPES)
        if k == 0:
            res.append((s, "ubig!(%s)" % t, n, False, scope))
        elif k == 1:
            res.append((s, "ibig!(%s)" % t, n, True, scope))
        else:
            res.append((s, "ibig!(-%s)" % t if rng.random() < 0.8 else "ibig!(- %s)" % t, None if n is None else -n, True, scope))
    return res


# Where the macro is invoked: imported; by path, without an import; in a module that shadows every name the macro could use
# and has no prelude; through a macro that passes tokens, or fragments, on; next to local variables with likely names; as an operand.
SCOPES = ["plain", "plain", "path", "shadowed", "forwarded", "fragments", "locals", "operand"]
TEMPLATES = {"locals": "{ let s = \"7\"; let val = 9u8; let radix = 3u32; let n = (s, val, radix); %s }",
             "operand": "{ let x = %s; if &x * &x == %s.pow(2) { x } else { panic!() } }"}
PREAMBLE = """
macro_rules! fu { ($($t:tt)*) => { ubig!($($t)*) } }
macro_rules! fi { ($($t:tt)*) => { ibig!($($t)*) } }
macro_rules! lu { ($x:literal base $r:literal) => { ubig!($x base $r) }; ($x:literal) => { ubig!($x) };
    ($x:ident base $r:literal) => { ubig!($x base $r) }; ($x:ident) => { ubig!($x) } }
macro_rules! li { (- $x:literal base $r:literal) => { ibig!(- $x base $r) }; (- $x:literal) => { ibig!(- $x) };
    (- $x:ident base $r:literal) => { ibig!(- $x base $r) }; (- $x:ident) => { ibig!(- $x) };
    ($x:literal base $r:literal) => { ibig!($x base $r) }; ($x:literal) => { ibig!($x) };
    ($x:ident base $r:literal) => { ibig!($x base $r) }; ($x:ident) => { ibig!($x) } }
"""
SHADOWS = """#![no_implicit_prelude]
use crate::{u, i};
use ::DEP::{ubig, ibig};
pub struct Option; pub struct Result; pub struct From; pub struct UBig; pub struct IBig; pub struct Some; pub struct Ok;
pub struct TryFrom; pub struct FromStr; pub struct String; pub struct Neg;
type u128 = (); type u32 = (); type i128 = (); type u64 = (); pub mod core {} pub mod std {} pub mod alloc {} pub mod DEP {} pub mod str {}
fn from() {} fn expect() {} fn unwrap_or() {} fn strip_prefix() {}
macro_rules! stringify { ($($t:tt)*) => { "1" } }
macro_rules! concat { ($($t:tt)*) => { "1" } }
macro_rules! panic { ($($t:tt)*) => { () } }
"""


def scoped(text, scope, dep):
    """The expression for an invocation in a scope."""
    if scope == "path":
        return "::%s::%s" % (dep, text)
    if scope in ("forwarded", "fragments"):
        return {"forwarded": "f", "fragments": "l"}[scope] + text[0] + text[4:]
    t = TEMPLATES.get(scope, "%s")
    return t.replace("%s", text)


def write_crate(d, cases, edition, dep="ibig"):
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "literals"\nversion = "0.0.0"\nedition = "%s"\npublish = false\n\n[workspace]\n\n' % edition
                + '[dependencies]\n%s = { package = "ibig", path = "/repo", default-features = false, features = ["std"] }\n\n' % dep
                + '[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n[profile.dev.package."*"]\nopt-level = 1\n')
    lock = os.path.join(check.VERIF, "harness", "Cargo.lock")
    if not os.path.exists(os.path.join(d, "Cargo.lock")) and os.path.exists(lock):
        subprocess.run(["cp", lock, os.path.join(d, "Cargo.lock")], check=True)
    src = ["#![allow(warnings)]", "extern crate %s;" % dep, "use %s::{ibig, ubig, IBig, UBig, ops::UnsignedAbs};" % dep]
    src += PREAMBLE.strip().splitlines()
    src += ["fn u(k: usize, f: fn() -> UBig) { match std::panic::catch_unwind(f) { Ok(x) => show(k, '+', x), Err(_) => println!(\"{} panic\", k) } }",
           "fn i(k: usize, f: fn() -> IBig) { match std::panic::catch_unwind(f) { Ok(x) => { let s = if x < IBig::from(0u8) { '-' } else { '+' }; show(k, s, x.unsigned_abs()) }, Err(_) => println!(\"{} panic\", k) } }",
           "fn show(k: usize, s: char, x: UBig) { let b: Vec<String> = x.to_be_bytes().iter().map(|b| format!(\"{:02x}\", b)).collect(); println!(\"{} {}{}\", k, s, b.concat()); }"]
    chunk = 100
    first = {}
    calls = []
    for where in ("", "path", "shadowed"):
        mine = [k for k, c in enumerate(cases) if (c[4] if c[4] in ("path", "shadowed") else "") == where]
        if where and mine:
            src.append("mod %s {" % where)
            src += (SHADOWS.replace("DEP", dep) if where == "shadowed" else "use crate::{u, i};").strip().splitlines()
        for at in range(0, len(mine), chunk):
            src.append("pub fn c%d() {" % at)
            calls.append((where + "::" if where else "") + "c%d();" % at)
            for k in mine[at:at + chunk]:
                _, t, _, signed, scope = cases[k]
                src.append("%s(%d, || %s);" % ("i" if signed else "u", k, scoped(t, scope, dep)))
                first[len(src)] = k
            src.append("}")
        if where and mine:
            src.append("}")
    src += ["fn main() { std::panic::set_hook(Box::new(|_| {}));"] + calls + ["}"]
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write("\n".join(src) + "\n")
    return first


C27_CONFIGS = {"quick": ["native", "i686", "bits16"], "thorough": ["native", "i686", "bits64", "bits32", "bits16"]}


def run_literals(d, cases, config, edition="2021"):
    """{index: problem} for one configuration."""
    # the dependency under its own and under another name
    lines = write_crate(d, cases, edition, "big" if config == "i686" else "ibig")
    args, flags, sub = check.CONFIGS[config]
    # --cap-lints: the program uses odd numerals on purpose
    cmd = ["cargo", "build", "--offline", "--quiet", "--message-format", "json", "--manifest-path", os.path.join(d, "Cargo.toml"),
           "--target-dir", os.path.join(BUILD, "literals-" + config)] + args
    p = subprocess.run(cmd, env=cargo_env(flags), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        bad = {}
        library = None
        for line in p.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            if m["target"]["name"] != "literals":
                library = m["message"]["rendered"]
                continue
            for s in m["message"]["spans"]:
                while s:
                    if s["file_name"].endswith("main.rs") and s["line_start"] in lines:
                        bad[lines[s["line_start"]]] = "does not compile: " + m["message"]["message"]
                    s = (s.get("expansion") or {}).get("span")
        if library or not bad:
            raise CheckError("literals (%s) do not build:\n%s\n%s" % (config, library, p.stderr[-3000:]))
        return bad
    r = subprocess.run([os.path.join(BUILD, "literals-" + config, sub, "literals")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    got = dict(x.split(" ", 1) for x in r.stdout.splitlines() if re.match(r"\d+ ", x))
    bad = {}
    for k, (_, t, n, _, _) in enumerate(cases):
        g = got.get(str(k))
        if g is None:
            bad[k] = "no answer (exit status %d)" % r.returncode
            continue
        if n is None:
            if g != "panic":
                bad[k] = "has a digit outside its base and evaluates to %s" % g[:300]
            continue
        h = "%x" % abs(n)
        want = ("-" if n < 0 else "+") + ("" if n == 0 else h.zfill((len(h) + 1) // 2 * 2))
        if g != want:
            bad[k] = "evaluates to %s, want %s" % (g[:300], want[:300])
    return bad


def shorter(case):
    """Variants of a literal with fewer digits."""
    s, t, n, signed, scope = case
    if n is None:
        return []
    m = re.fullmatch(r"([ui]big!\()(-? ?)(.*)\)", t)
    head, sign, body = m.groups()
    b = re.fullmatch(r"(\S+)( base (\S+))?", body)
    digits, tail, base = b.groups()
    p = re.match(r"_?(0[box])?" if not base else r"_?", digits).group(0)
    rest = digits[len(p):]
    base = int(re.sub("u32$", "", base), 0) if base else {"b": 2, "o": 8, "x": 16}.get(p[-1:], 10)
    out = []
    k = len(rest)
    for lo, hi in {(0, k // 2), (k // 2, k), (0, k - 1), (1, k), (0, 3 * k // 4), (k // 4, k), (0, 1), (0, 2), (k - 1, k)}:
        d = rest[lo:hi]
        c = d.replace("_", "")
        if not c or (not p and not tail and not d[0].isdigit()) or (p and d.startswith("_")) or (tail and not p and d[0] == "_"):
            continue
        if tail and not p and d[0].isdigit() and not d.isdigit():
            continue
        v = int(c, base)
        out.append((s, "%s%s%s%s%s)" % (head, sign, p, d, tail or ""), -v if "-" in sign else v, signed, scope))
    return [c for c in out if len(c[1]) < len(t)]


def c27(prop):
    started = time.time()
    rng = random.Random(SEED * 1000003 + 27)
    rounds = 1 if TIER != "thorough" else 12
    count = 700 if TIER != "thorough" else 1500
    configs = C27_CONFIGS["thorough" if TIER == "thorough" else "quick"]
    editions = ["2021", "2018", "2015", "2021"]
    parts = {c: {"config": c, "evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "samples": []} for c in configs}
    seen = set()
    failures = []
    for r in range(rounds):
        cases = cases27(rng, count)
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            jobs = {c: ex.submit(run_literals, os.path.join(BUILD, "literals-src-" + c), cases, c, editions[0] if r == 0 else editions[r % 4])
                    for c in configs}
            for c in configs:
                bad = jobs[c].result()
                part = parts[c]
                part["evaluations"] += len(cases)
                for s, t, n, _, scope in cases:
                    for label in (s, "scope: " + scope):
                        part["labels"][label] = part["labels"].get(label, 0) + 1
                    if (c, t) not in seen and abs(n or 99) > 9:
                        seen.add((c, t))
                        part["distinct_nontrivial"] += 1
                part["samples"] += [x[1] for x in cases[60:64] if len(x[1]) < 300][:3] if r == 0 else []
                if bad:
                    failures.append((c, cases, bad, editions[0] if r == 0 else editions[r % 4]))
        if failures:
            break
    out = []
    for c, cases, bad, edition in failures[:2]:
        k = min(bad, key=lambda k: len(cases[k][1]))
        case, why = cases[k], bad[k]
        for _ in range(6):
            cand = shorter(case)
            if not cand:
                break
            b = run_literals(os.path.join(BUILD, "literals-src-" + c), cand, c, edition)
            if not b:
                break
            j = min(b, key=lambda j: len(cand[j][1]))
            case, why = cand[j], b[j]
        out.append({"property": prop, "config": c, "seed": SEED, "program": case[1],
                    "value": None if case[2] is None else str(case[2]) if abs(case[2]) < 10 ** 4000 else hex(case[2]),
                    "shape": case[0], "signed": case[3], "scope": case[4], "edition": edition, "failing": len(bad),
                    "message": "%s (%s) %s" % (case[1][:600], case[4], why), "notes": []})
    return finish(prop, started, list(parts.values()), out,
                  "a literal of one of nine token shapes (decimal or prefixed literal, underscore forms, identifier and literal with a base, "
                  "keywords as digits), bases 2..=36, 1 to 12000 bits, underscores and letter case varied, either sign, in one of seven scopes "
                  "(imported, by path, all names shadowed, through macros, among locals, as operand), or with a digit outside the base; compiled and evaluated, "
                  "compared with the number written; non-trivial: value above 9",
                  assumptions=["Python integers are right", "UBig::to_be_bytes and comparison with zero show the value"])


def replay(prop, rec):
    if "program" in rec:
        d = os.path.join(BUILD, "literals-src-" + rec["config"])
        v = rec["value"]
        cases = [(rec["shape"], rec["program"], None if v is None else int(v, 0), rec["signed"], rec.get("scope", "plain"))]
        bad = run_literals(d, cases, rec["config"], rec["edition"])
        print(bad or "the literal evaluates correctly")
        return 1 if bad else 0
    if rec.get("big_endian"):
        n, x, y = big_endian_difference(prop, build("native", prop.lower()), rec["seed"], rec["case"])
        print("step %d: %s | %s" % (n, x, y) if n >= 0 else "not reproduced")
        return 1 if n >= 0 else 0
    texts = []
    for c in rec["configs"]:
        s = Server(prop, build(c, prop.lower()))
        texts.append(s.ask(",".join(map(str, rec["tape"])))[1])
        s.close()
    if texts[0] == texts[1]:
        print("not reproduced")
        return 0
    print("step %d: %s | %s" % first_difference(*texts))
    print("reproduced")
    return 1
