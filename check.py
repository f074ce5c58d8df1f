#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough].

Builds the engine, regenerates the LLVM IR of /repo together with the harnesses,
runs the symbolic executor on every configuration listed for the property in
checks.py, replays whatever it reports natively and writes evidence/ID.json.

Exit 0: held within the bounds. Exit 1: VIOLATION line on stdout, reproduced
natively. Exit 2: no verdict (build failure, solver unknown, time limit,
missing witness, or a report that native execution does not reproduce).
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import checks  # noqa: E402

TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
LIMIT_S = {"quick": 780, "thorough": 3000}
START = time.time()


class NoVerdict(Exception):
    pass


def left(tier):
    return LIMIT_S[tier] - (time.time() - START)


def run(cmd, **kw):
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    env.update(kw.pop("extra_env", {}))
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, **kw)
    if r.returncode != 0:
        raise NoVerdict("command failed: %s\n%s" % (" ".join(cmd)[:300], r.stderr[-4000:]))
    return r.stdout


def sysroot_bin():
    out = run(["rustc", "--print", "sysroot"]).strip()
    return os.path.join(out, "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def build_engine(work):
    run(["cargo", "build", "--offline", "--release", "--quiet", "--manifest-path", ROOT + "/engine/Cargo.toml"],
        extra_env={"CARGO_TARGET_DIR": ROOT + "/engine/target"})
    # A copy, so that a rebuild does not pull the binary away from a running check.
    shutil.copy2(ROOT + "/engine/target/release/symex", work + "/symex")


def build_ir(work, entries):
    tgt = work + "/sym"
    run(["cargo", "rustc", "--offline", "--quiet", "--lib", "--profile", "sym", "--crate-type", "cdylib",
         "--manifest-path", ROOT + "/harness/Cargo.toml", "--", "--emit=llvm-ir"],
        extra_env={"CARGO_TARGET_DIR": tgt})
    raw = tgt + "/sym/deps/pango_harness.ll"
    # The hash function, the panic entry point and the Unicode tables are
    # summarised by the engine and have to stay calls.
    keep = re.compile(r"^define .*(13DefaultHasher.*6Hasher|9panicking9panic_fmt|12unicode_data.*(6lookup|11lookup_slow))")
    tail = re.compile(r" (#[0-9]+ .*)?\{$")
    p0, p1, p2 = work + "/p0.ll", work + "/p1.ll", work + "/p2.ll"
    with open(raw, encoding="utf-8", errors="surrogateescape") as f, \
            open(p0, "w", encoding="utf-8", errors="surrogateescape") as o:
        for line in f:
            if line.startswith("define ") and keep.match(line):
                line = tail.sub(lambda m: " noinline" + m.group(0), line.rstrip("\n")) + "\n"
            o.write(line)
    shutil.rmtree(tgt, ignore_errors=True)
    b = sysroot_bin()
    run([b + "/opt", "-S", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(sorted(entries)),
         p0, "-o", p1])
    os.remove(p0)
    run([b + "/opt", "-S", "--strip-debug", "-passes=default<O1>", "--vectorize-loops=false", "--vectorize-slp=false",
         p1, "-o", p2])
    os.remove(p1)
    return p2


def build_replay(work):
    names = []
    src = ROOT + "/harness/src"
    for f in sorted(os.listdir(src)):
        if f.endswith(".rs"):
            mod = f[:-3]
            for n in re.findall(r'extern "C" fn (h_\w+)', open(src + "/" + f).read()):
                names.append((mod, n))
    table = work + "/table.rs"
    with open(table, "w") as o:
        o.write("static TABLE: &[(&str, extern \"C\" fn())] = &[\n")
        for mod, n in names:
            o.write('    ("%s", pango_harness::%s::%s),\n' % (n, mod, n))
        o.write("];\n")
    tgt = work + "/rep"
    run(["cargo", "build", "--offline", "--quiet", "--bin", "replay", "--profile", "replay",
         "--manifest-path", ROOT + "/harness/Cargo.toml"],
        extra_env={"CARGO_TARGET_DIR": tgt, "HARNESS_TABLE": table})
    shutil.copy2(tgt + "/replay/replay", work + "/replay")
    shutil.rmtree(tgt, ignore_errors=True)
    return work + "/replay"


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def nums(v):
    return ",".join(str(x) for x in v)


def native(binary, entry, params, inputs, timeout=20, valgrind=False):
    """One native execution: (outcome, notes, shown texts)."""
    cmd = [binary, entry, nums(params), nums(inputs)]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=77", "--leak-check=no"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=timeout * (20 if valgrind else 1), preexec_fn=None if valgrind else limit_memory)
    except subprocess.TimeoutExpired:
        return "HANG", [], []
    lines = r.stdout.splitlines()
    notes = [int(x[5:]) for x in lines if x.startswith("NOTE ")]
    show = [x[5:] for x in lines if x.startswith("SHOW ")]
    if r.returncode == 77:
        return "MEMORY " + r.stderr[:1500], notes, show
    if r.returncode < 0:
        return "SIGNAL %d" % -r.returncode, notes, show
    last = lines[-1] if lines else "NOTHING"
    return last, notes, show


def is_failure(kind, outcome):
    if kind in ("assert", "panic", "abort", "unreachable"):
        return outcome.startswith(("ASSERT", "PANIC", "SIGNAL"))
    if kind == "hang":
        return outcome.startswith(("HANG", "SIGNAL"))
    if kind == "memory":
        return outcome.startswith(("MEMORY", "SIGNAL", "ASSERT", "PANIC"))
    return False


def reproduce(binary, job, v):
    """Native re-execution of a reported violation."""
    entry, params = job[0], job[1]
    # Iteration orders of hash collections differ between runs.
    tries = 1 if v["kind"] == "hang" else 120
    shown = []
    for _ in range(tries):
        out, _, show = native(binary, entry, params, v["inputs"])
        shown = show or shown
        if is_failure(v["kind"], out) or out.startswith(("ASSERT", "PANIC")):
            return out, show
    if v["kind"] in ("memory", "hang"):
        out, _, show = native(binary, entry, params, v["inputs"], valgrind=True)
        if is_failure("memory", out):
            return out, show
    return None, shown


def short(name):
    """Readable form of a mangled function name of the crates under test."""
    parts = []
    i = 0
    while i < len(name):
        m = re.match(r"(?:s[0-9A-Za-z]*_)?(\d+)_?", name[i:])
        if m and int(m.group(1)) > 0:
            j = i + m.end()
            ident = name[j:j + int(m.group(1))]
            if len(ident) == int(m.group(1)) and re.fullmatch(r"[A-Za-z_]\w*", ident):
                parts.append(ident)
                i = j + len(ident)
                continue
        i += 1
    return "::".join(parts[:8])


class Engine:
    def __init__(self, work, ir, tier, seed):
        self.work, self.ir, self.tier, self.seed = work, ir, tier, seed
        self.procs = set()
        self.lock = threading.Lock()
        self.stopped = False

    def job(self, job, max_violations=2, dump=None):
        entry, params = job[0], job[1]
        opts = job[2] if len(job) > 2 else {}
        cmd = [self.work + "/symex", self.ir, "--entry", entry]
        for p in params:
            cmd += ["--param", str(p)]
        steps = opts.get("max_steps", 200_000_000)
        cmd += ["--max-steps", str(steps), "--threads", str(opts.get("threads", min(8, os.cpu_count() or 1))),
                "--max-violations", str(max_violations), "--sample-every", str(opts.get("sample_every", 997)),
                "--max-samples", str(opts.get("samples", 12)),
                "--timeout-ms", str(int(max(5, min(left(self.tier), opts.get("timeout", 10**6))) * 1000))]
        if dump:
            dump = tempfile.mkdtemp(dir=dump)
            cmd += ["--dump", dump, "--dump-every", "400"]
        if self.stopped:
            return None
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        with self.lock:
            self.procs.add(p)
        out, err = p.communicate()
        with self.lock:
            self.procs.discard(p)
        if self.stopped:
            return None
        if p.returncode != 0:
            raise NoVerdict("executor failed on %s %s: rc=%s %s" % (entry, params, p.returncode, err.decode(errors="replace")[-500:]))
        return json.loads(out)

    def stop(self):
        self.stopped = True
        with self.lock:
            for p in self.procs:
                p.kill()


def cross_check(directory):
    """Second opinion on a sample of the queries."""
    solver = shutil.which("cvc5") or "/opt/veriftools/bin/cvc5"
    files = []
    for d, _, names in sorted(os.walk(directory)):
        files += [os.path.join(d, n) for n in sorted(names)]
    agree = different = unknown = 0
    for f in files[:: max(1, len(files) // 60)]:
        want = "unsat" if "unsat" in os.path.basename(f) else "sat"
        try:
            r = subprocess.run([solver, "--tlimit=20000", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=30)
            got = r.stdout.split()[:1]
        except (subprocess.TimeoutExpired, OSError):
            got = []
        if got == [want]:
            agree += 1
        elif got and got[0] in ("sat", "unsat"):
            different += 1
        else:
            unknown += 1
    return agree, different, unknown


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED") or 0)
    conf = checks.PROPERTIES[pid]
    jobs = list(conf["quick"]) if tier == "quick" else list(conf["thorough"])
    known = conf.get("known", [])
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    evidence_file = ROOT + "/evidence/%s.json" % pid
    if os.path.exists(evidence_file):
        os.remove(evidence_file)
    os.makedirs(ROOT + "/build", exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=ROOT + "/build")
    try:
        return decide(pid, tier, seed, conf, jobs, known, work, evidence_file)
    except NoVerdict as e:
        print("NO VERDICT property=%s: %s" % (pid, e))
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def decide(pid, tier, seed, conf, jobs, known, work, evidence_file):
    entries = {j[0] for j in jobs} | {k[0][0] for k in known}
    with cf.ThreadPoolExecutor(3) as ex:
        fe, fi, fr = ex.submit(build_engine, work), ex.submit(build_ir, work, entries), ex.submit(build_replay, work)
        fe.result()
        ir = fi.result()
        binary = fr.result()
    build_s = time.time() - START

    eng = Engine(work, ir, tier, seed)
    dump = None
    if tier == "thorough":
        dump = work + "/queries"
        os.makedirs(dump)
    results, problems, found = [], [], None
    order = sorted(range(len(jobs)), key=lambda i: -(jobs[i][2].get("weight", 1) if len(jobs[i]) > 2 else 1))
    unreproduced = []
    with cf.ThreadPoolExecutor(conf.get("parallel", 4)) as ex:
        futures = {ex.submit(eng.job, jobs[i], 2, dump): i for i in order}
        for f in cf.as_completed(futures):
            i = futures[f]
            try:
                r = f.result()
            except NoVerdict as e:
                problems.append(str(e))
                continue
            if r is None:
                continue
            results.append((jobs[i], r))
            for v in r["violations"]:
                if found:
                    break
                out, show = reproduce(binary, jobs[i], v)
                if out:
                    found = (jobs[i], v, out, show)
                    eng.stop()
                else:
                    unreproduced.append("%s %s: %s %s at %s inputs=%s %s" % (
                        jobs[i][0], jobs[i][1], v["kind"], v["msg"], v["at"][:300], v["inputs"], show))

    # Native re-execution of sampled paths: same observations, same outcome.
    validated, samples = 0, []
    if not found:
        todo = []
        for job, r in results:
            for s in r["samples"]:
                todo.append((job, s))
        todo = todo[:: max(1, len(todo) // 400)]

        def validate(t):
            job, s = t
            want = "DONE" if s["outcome"] == "ok" else "EXPECTED-PANIC"
            out, notes, show = native(binary, job[0], job[1], s["inputs"])
            return job, s, out, (out == want and notes == s["notes"]), notes, show

        with cf.ThreadPoolExecutor(8) as ex:
            for job, s, out, ok, notes, show in ex.map(validate, todo):
                if ok:
                    validated += 1
                    if len(samples) < 12:
                        samples.append({"entry": job[0], "params": job[1], "inputs": s["inputs"],
                                        "texts": show, "observed": notes, "outcome": s["outcome"]})
                elif out.startswith(("ASSERT", "PANIC")) and not found:
                    v = {"kind": "assert", "msg": "native run of a sampled path", "id": 0, "inputs": s["inputs"], "at": ""}
                    found = (job, v, out, show)
                else:
                    problems.append("native run differs from the executor: %s %s inputs=%s: %s %s, expected %s %s" % (
                        job[0], job[1], s["inputs"], out, notes, s["outcome"], s["notes"]))

    def total(k):
        return sum(r[k] for _, r in results)

    reach = {}
    for _, r in results:
        for k, n in r["reach"].items():
            reach[int(k)] = reach.get(int(k), 0) + n
    for job, r in results:
        for k in ("queries_unknown", "solver_errors", "timed_out"):
            if r[k]:
                problems.append("%s %s: %s=%s" % (job[0], job[1], k, r[k]))
        for m, n in r["inconclusive"].items():
            problems.append("%s %s: inconclusive: %s (%d paths)" % (job[0], job[1], m, n))
        if r["violations"] == [] and r["paths_ok"] + r["paths_expected_panic"] == 0:
            problems.append("%s %s: no path reached the end" % (job[0], job[1]))
    missing = [w for w in conf.get("reach", {1, 2}) if w not in reach]
    if missing:
        problems.append("situations never reached: %s" % missing)
    if validated == 0 and not found:
        problems.append("no path was validated natively")

    known_lines = []
    if not found:
        for job, kind, text in known:
            r = eng.job(job, max_violations=1)
            v = [x for x in r["violations"] if x["kind"] == kind]
            if v and reproduce(binary, job, v[0])[0]:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, text))

    second = None
    if dump and not found:
        agree, different, unknown = cross_check(dump)
        second = {"solver": "cvc5", "agree": agree, "different": different, "undecided": unknown}
        if different:
            problems.append("cvc5 disagrees on %d queries" % different)

    funcs = sorted({short(f) for _, r in results for f in r["functions"] if "pango_lexer" in f or "pango_parser" in f})
    funcs = [f for f in funcs if f]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": total("paths_ok") + total("paths_expected_panic") + total("paths_infeasible_assume") + total("paths_bad"),
            "transitions": total("forks"),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "rule": "a state is one explored path, i.e. one class of inputs that follow the same branches; a transition is one branch both sides of which the solver found feasible",
            "bounds": conf["bounds"],
            "configurations": [{"entry": j[0], "params": j[1], "paths": r["paths_ok"] + r["paths_expected_panic"],
                                "queries": r["queries"], "seconds": r["run_s"]} for j, r in results],
            "paths_completed": total("paths_ok"),
            "paths_ending_in_expected_panic": total("paths_expected_panic"),
            "instructions_executed": total("instructions"),
            "assertions": total("asserts"),
            "assertions_decided_by_solver": total("asserts_by_solver"),
            "queries": total("queries"),
            "queries_sat": total("queries_sat"),
            "queries_unsat": total("queries_unsat"),
            "queries_unknown": total("queries_unknown"),
            "solver_seconds": round(total("solver_us") / 1e6, 3),
            "solver": "z3 " + results[0][1]["z3"] if results else "",
            "second_solver": second,
            "witnesses_reached": {str(k): v for k, v in sorted(reach.items())},
            "functions_encoded": len(funcs),
            "functions": funcs[:400],
            "build_seconds": round(build_s, 2),
        },
        "assumptions": checks.ASSUMPTIONS + conf.get("assumptions", []),
        "violations": 1 if found else 0,
        "wall_s": round(time.time() - START, 2),
    }
    with open(evidence_file, "w") as o:
        json.dump(evidence, o, indent=1)

    if found:
        job, v, out, show = found
        os.makedirs(ROOT + "/replays", exist_ok=True)
        path = ROOT + "/replays/%s.json" % pid
        with open(path, "w") as o:
            json.dump({"property": pid, "entry": job[0], "params": job[1], "inputs": v["inputs"], "kind": v["kind"],
                       "message": v["msg"], "at": v["at"], "texts": show, "native": out,
                       "how": "python3 replay.py " + path}, o, indent=1)
        print("%s %s %s: %s; native: %s; %s" % (pid, job[0], job[1], v["msg"], out, " ".join(show)))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if unreproduced:
        problems.append("reported but not reproduced natively: " + "; ".join(unreproduced[:4]))
    if problems:
        raise NoVerdict("\n  ".join(problems[:20]))
    for l in known_lines:
        print(l)
    print("OK property=%s tier=%s paths=%d queries=%d solver_s=%.1f traces=%d wall_s=%.1f" % (
        pid, tier, evidence["coverage"]["states"], total("queries"), total("solver_us") / 1e6, validated, time.time() - START))
    return 0


if __name__ == "__main__":
    sys.exit(main())
