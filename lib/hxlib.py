"""Driver shared by every check: builds the engine and the harness IR from /repo's working tree, runs the
symbolic executor on the harness entries of a property, replays models natively, writes the evidence file."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HX_REPO", "/repo")
BUILD = os.environ.get("HX_BUILD", os.path.join(VERIF, "build"))
LLVM = None
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_CFG_HTTPARSE_DISABLE_SIMD="1", CARGO_INCREMENTAL="0")
for k in ("RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


class Fail(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return r.returncode, r.stdout


def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def tree_hash(root, subs):
    h = hashlib.sha256()
    for s in subs:
        p = os.path.join(root, s)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(os.path.relpath(f, root).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()[:16]


def build_engine():
    with lock("engine"):
        t = os.path.join(BUILD, "engine")
        rc, out = sh(["cargo", "build", "--release", "--offline", "--target-dir", t], cwd=os.path.join(VERIF, "engine"), env=ENV)
        if rc:
            raise Fail("engine build failed:\n" + out[-4000:])
        ld = os.path.join(BUILD, "loader")
        src = os.path.join(VERIF, "lib/loader.c")
        if not os.path.exists(ld) or os.path.getmtime(ld) < os.path.getmtime(src):
            rc, out = sh(["gcc", "-O1", "-rdynamic", "-o", ld, src, "-ldl"])
            if rc:
                raise Fail("loader build failed:\n" + out)
    return os.path.join(t, "release/hx"), ld


def llvm_dis():
    rc, out = sh(["rustc", "--print", "sysroot"], env=ENV)
    return glob.glob(out.strip() + "/lib/rustlib/*/bin/llvm-dis")[0]


ATOMIC = re.compile(r"^(\s+)(?:%[-\w.]+ = )?(?:load atomic|store atomic|atomicrmw|cmpxchg)\b", re.M)


def instrument(ll, so):
    """group par: a scheduling point before every atomic operation; system calls, yields and pauses go to the harness.
    The executor and the native replay use the same instrumented code."""
    s = open(ll).read()
    s = ATOMIC.sub(lambda m: m.group(1).lstrip("\n") + "call void @sx_point()\n" + m.group(0).lstrip("\n"), s)
    s = re.sub(r"^declare .*@(?:syscall|sched_yield|llvm\.x86\.sse2\.pause)\(.*\n", "", s, flags=re.M)
    s = s.replace("i64 (i64, ...) @syscall(", "i64 (i64, ...) @sx_syscall(").replace("@sched_yield(", "@sx_yield(").replace("call void @llvm.x86.sse2.pause()", "call void @sx_pause()")
    open(ll, "w").write(s)
    o = so + ".o"
    rc, out = sh([os.path.join(os.path.dirname(llvm_dis()), "llc"), "-relocation-model=pic", "-filetype=obj", "-O1", ll, "-o", o])
    if rc == 0:
        rc, out = sh(["gcc", "-shared", "-o", so, o, "-lgcc_s", "-lpthread", "-ldl", "-lc"])
    if rc:
        raise Fail("building the instrumented code failed: " + out[-3000:])
    os.unlink(o)


def build_ir(group):
    """fat-LTO bitcode of hyper + the harness group, as text IR, and the shared object made from the same bitcode"""
    with lock("ir"):
        t = os.path.join(BUILD, "ir")
        rh = tree_hash(REPO, ["src", "Cargo.toml"])
        hh = tree_hash(VERIF, ["harness/src", "harness/ir"]) + rh
        stamp = os.path.join(BUILD, "repo.hash")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != rh:
            # do not trust time stamps: force hyper to be compiled again when its text changed
            for d in glob.glob(t + "/release/.fingerprint/hyper-*"):
                shutil.rmtree(d, ignore_errors=True)
        ll, so = os.path.join(BUILD, group + ".ll"), os.path.join(BUILD, group + ".so")
        done = os.path.join(BUILD, group + ".hash")
        if os.path.exists(done) and open(done).read() == hh and os.path.exists(ll) and os.path.exists(so):
            return ll, so, 0.0
        t0 = time.time()
        for f in glob.glob(t + "/release/deps/hxir.*") + glob.glob(t + "/release/deps/libhxir*") + glob.glob(t + "/release/.fingerprint/hxir-*"):
            shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else os.unlink(f)
        env = dict(ENV, RUSTFLAGS="-C save-temps -C no-vectorize-loops -C no-vectorize-slp")
        cwd = os.path.join(VERIF, "harness/ir")
        if REPO != "/repo":
            # development only: same harness against a scratch copy of the repository
            cwd = os.path.join(BUILD, "harness/ir")
            shutil.rmtree(os.path.join(BUILD, "harness"), ignore_errors=True)
            shutil.copytree(os.path.join(VERIF, "harness"), os.path.join(BUILD, "harness"))
            s = open(cwd + "/Cargo.toml").read().replace('"/repo"', '"%s"' % REPO)
            open(cwd + "/Cargo.toml", "w").write(s)
        rc, out = sh(["cargo", "build", "--release", "--offline", "--features", group, "--target-dir", t], cwd=cwd, env=env)
        if rc:
            raise Fail("harness build failed:\n" + out[-6000:])
        open(stamp, "w").write(rh)
        bcs = [f for f in glob.glob(t + "/release/deps/hxir.hxir*cgu.0.rcgu.bc")]
        if len(bcs) != 1:
            raise Fail("expected one bitcode file, got %r" % bcs)
        rc, out = sh([llvm_dis(), bcs[0], "-o", ll + ".tmp"])
        if rc:
            raise Fail("llvm-dis failed: " + out)
        if group == "par":
            instrument(ll + ".tmp", so)
        else:
            shutil.copy(os.path.join(t, "release/libhxir.so"), so)
        os.rename(ll + ".tmp", ll)
        open(done, "w").write(hh)
        return ll, so, time.time() - t0


def native(loader, so, entry, inputs, timeout=20, valgrind=False):
    """run one entry of the real code with concrete inputs; returns (status, events, raw)"""
    vf = os.path.join(BUILD, "values.%d" % os.getpid())
    with open(vf, "w") as f:
        f.write("\n".join(str(v) for _, _, v in inputs) + "\n")
    cmd = [loader, so, entry, vf]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=99"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout * (20 if valgrind else 1))
        rc, out, err = r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, out, err = "timeout", (e.stdout or b"").decode(errors="replace"), ""
    finally:
        os.unlink(vf)
    ev = [l[3:] for l in out.split("\n") if l.startswith("EV ")]
    viol = next((l[5:] for l in out.split("\n") if l.startswith("VIOL ")), None)
    return rc, ev, viol, out + err


def reproduces(loader, so, entry, v):
    rc, ev, viol, raw = native(loader, so, entry, v["inputs"])
    if v["kind"] == "assert":
        return rc == 42 and viol == v["id"], raw
    if v["kind"] == "steps":
        return rc == "timeout", raw
    if v["kind"] in ("panic", "abort"):
        return rc in (-6, -11, -4, 134), raw
    if rc in (-6, -11, -7):
        return True, raw
    rc, ev, viol, raw = native(loader, so, entry, v["inputs"], valgrind=True)
    return rc in (99, -6, -11, -7, 139, 134), raw


def findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def cvc5_check(dump):
    """re-decide sampled solver queries with a second solver"""
    n = bad = 0
    for f in sorted(glob.glob(dump + "/*.smt2"))[:60]:
        want = re.search(r"; expect (\w+)", open(f).read())
        rc, out = sh(["timeout", "60", "cvc5", f])
        got = out.strip().split("\n")[0]
        if got not in ("sat", "unsat") or not want:
            continue
        n += 1
        bad += got != want.group(1)
    return n, bad


def run_check(pid, spec, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    eng, loader = build_engine()
    ll, so, build_s = build_ir(spec["group"])
    known = [k for k in findings() if k["property"] == pid and k["status"] == "known"]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    entries = [e for e in spec["entries"] if tier == "thorough" or not e.get("thorough")]
    budget = 800 if tier == "quick" else 6 * 3600
    res, viols, problems, samples, validated = [], [], [], [], 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    for e in entries:
        left = budget - (time.time() - t0)
        if left < 5:
            problems.append("%s: no time left" % e["entry"])
            break
        out = os.path.join(BUILD, "%s.json" % e["entry"])
        if os.path.exists(out):
            os.unlink(out)
        cmd = [eng, ll, e["entry"], "--out", out, "--threads", str(os.cpu_count() or 4), "--time", str(int(min(left, e.get("time", left)))), "--solver-timeout", "30000" if tier == "quick" else "120000", "--xcheck", "1" if tier == "quick" else "60", "--max-fan", str(e.get("fan", 300)), "--max-steps", str(e.get("steps", 60000000))]
        for k in known:
            cmd += ["--known", k["id"]]
        dump = None
        if tier == "thorough":
            dump = os.path.join(BUILD, "dump-" + e["entry"])
            shutil.rmtree(dump, ignore_errors=True)
            os.makedirs(dump)
            cmd += ["--dump", dump]
        rc, log = sh(cmd)
        if not os.path.exists(out):
            problems.append("%s: engine failed (%s): %s" % (e["entry"], rc, log[-500:]))
            continue
        d = json.load(open(out))
        d["bound"] = e["bound"]
        res.append(d)
        for v in d["violations"]:
            if any(k["id"] == v["id"] for k in known):
                continue
            ok, raw = reproduces(loader, so, e["entry"], v)
            if ok:
                os.makedirs(rdir, exist_ok=True)
                n = len(viols)
                rp = os.path.join(rdir, "%s-%s-%d.json" % (pid, e["entry"], n))
                json.dump({"property": pid, "entry": e["entry"], "group": spec["group"], "violation": v, "native_output": raw[-3000:]}, open(rp, "w"), indent=1)
                viols.append((rp, v, e["entry"]))
            else:
                problems.append("%s: solver counterexample does not reproduce natively: %s %s\n%s" % (e["entry"], v["kind"], v["id"], raw[-500:]))
        if rc == 3 or rc not in (0, 1, 2):
            problems.append("%s: engine exit %s: %s" % (e["entry"], rc, log[-500:]))
        if d["violations"]:
            continue
        for k, n in d["inconclusive"].items():
            problems.append("%s: inconclusive: %s (%d)" % (e["entry"], k, n))
        for c in e["cover"]:
            if not d["cover"].get(c):
                problems.append("%s: vacuity: '%s' not reached" % (e["entry"], c))
        # translator validation: completed paths, replayed in the compiled code, must show the same events
        for s in d["samples"][:24]:
            rc2, ev, viol, raw = native(loader, so, e["entry"], s["inputs"])
            want = [n if v is None else "%s=%d" % (n, v) for n, v in s["events"]]
            if rc2 != 0 or ev != want or "EXTRA-INPUT" in raw:
                problems.append("%s: native run differs from the symbolic path: rc=%s %r != %r" % (e["entry"], rc2, ev, want))
                break
            validated += 1
            if len(samples) < 12 and len(s["inputs"]) > 0:
                samples.append({"entry": e["entry"], "inputs": s["inputs"][:40], "events": want[:40], "instructions": s["steps"]})
        if dump:
            n, bad = cvc5_check(dump)
            d["cvc5_crosschecked"] = n
            if bad:
                problems.append("%s: cvc5 disagrees on %d queries" % (e["entry"], bad))
            shutil.rmtree(dump, ignore_errors=True)
    S = lambda k: sum(d[k] for d in res)
    fns = sorted({f for d in res for f in d["functions"]})
    hy = [f for f in fns if f.startswith("hyper::")]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": S("paths") + S("paths_assumed_away") + S("paths_violating"), "transitions": S("forks"), "traces_validated_against_impl": validated,
            "samples": samples,
            "what": "each state is one complete symbolic path of the harness entry (a class of inputs/schedules); transitions are solver-decided branch or value splits; a trace is a path whose solver model was run in the natively compiled code and showed the same events",
            "entries": [{k: d.get(k) for k in ("entry", "bound", "paths", "paths_assumed_away", "forks", "instructions", "max_symbols", "queries", "by_model", "by_domain", "by_tuples", "by_cache", "by_z3", "z3_s", "z3_max_s", "domain_crosschecked_z3", "cvc5_crosschecked", "asserts", "asserts_symbolic", "wall_s", "cover", "inconclusive")} for d in res],
            "queries": S("queries"), "decided_or_confirmed_by_z3": S("by_z3") + S("domain_crosschecked_z3"), "solver_s": round(S("z3_s"), 2), "assertions_checked": S("asserts"),
            "functions_encoded": len(fns), "hyper_functions_encoded": hy[:400],
            "encoding": "LLVM IR of the fat-LTO build of /repo + harness, regenerated on this run (%.1f s)" % build_s,
            "problems": problems,
        },
        "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for d in res:
        print("%s: %d paths, %d forks, %d queries (%d z3, %d confirmed by z3, %.1f s), %d assertions, %.1f s, cover %s" % (d["entry"], d["paths"], d["forks"], d["queries"], d["by_z3"], d["domain_crosschecked_z3"], d["z3_s"], d["asserts"], d["wall_s"], d["cover"]))
    for rp, v, en in viols:
        print("  %s: %s in %s" % (en, v["msg"], " < ".join(v["stack"][:4])))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    for p in problems:
        print("PROBLEM " + p)
    if viols:
        return 1
    return 2 if problems else 0


COMMON_ASSUMPTIONS = [
    "one thread: concurrency is the interleaving of polls, wake-ups and transport events the harness generates",
    "heap allocation never fails; getrandom returns a constant; the clock is owned by the harness",
    "httparse is built without its SIMD back ends (CARGO_CFG_HTTPARSE_DISABLE_SIMD); no loop/SLP vectorisation",
    "trusted: rustc/LLVM front end, the symbolic executor in /verif/engine (sampled against native runs), z3 4.8.12",
]
