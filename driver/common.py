"""Building from /repo's working tree, running workers, writing evidence, giving the verdict."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
EVIDENCE = os.path.join(VERIF, "evidence")
WORKERS = 8


class Inconclusive(Exception):
    """No verdict: the machinery failed, or observed too little."""


def log(*args):
    print(*args, file=sys.stderr, flush=True)


def cargo_env(lock):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP", "CARGO_TARGET_DIR",
              "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_INCREMENTAL"):
        env.pop(k, None)
    env.update(
        PATH="/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        CARGO_RESOLVER_LOCKFILE_PATH=lock,
    )
    env.setdefault("HOME", "/root")
    return env


def tree_hash(*paths):
    h = hashlib.sha256()
    for path in paths:
        files = [path]
        if os.path.isdir(path):
            files = []
            for root, dirs, names in os.walk(path):
                dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
                files += [os.path.join(root, n) for n in sorted(names)]
        for f in files:
            h.update(f.encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                h.update(b"-")
    return h.hexdigest()


def repo_hash():
    return tree_hash(REPO + "/src", REPO + "/Cargo.toml")


class Build:
    """One target directory, guarded by a lock and rebuilt whenever what it was built from has changed."""

    def __init__(self, name):
        self.dir = os.path.join(BUILD, name)
        os.makedirs(self.dir, exist_ok=True)

    def __enter__(self):
        self.lock = open(os.path.join(self.dir, "lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        return self

    def __exit__(self, *exc):
        self.lock.close()

    def fresh(self, stamp):
        try:
            with open(os.path.join(self.dir, "stamp")) as f:
                return f.read() == stamp
        except OSError:
            return False

    def mark(self, stamp):
        with open(os.path.join(self.dir, "stamp"), "w") as f:
            f.write(stamp)

    def unmark(self):
        try:
            os.remove(os.path.join(self.dir, "stamp"))
        except FileNotFoundError:
            pass

    def cargo(self, args, cwd, lock_from, env=None, packages=("indexer", "rt")):
        # cargo goes by modification times; our own packages are rebuilt whatever theirs say
        lock = os.path.join(self.dir, "locks")
        os.makedirs(lock, exist_ok=True)
        lock = os.path.join(lock, "Cargo.lock")
        shutil.copyfile(lock_from, lock)
        e = cargo_env(lock)
        e.update(env or {})
        target = os.path.join(self.dir, "t")
        for root in (target,):
            for base, dirs, _ in os.walk(root):
                for d in list(dirs):
                    if os.path.basename(base) == ".fingerprint" and d.rsplit("-", 1)[0] in packages:
                        shutil.rmtree(os.path.join(base, d))
                if os.path.basename(base) in ("deps", "build", "incremental"):
                    dirs[:] = []
        r = subprocess.run(["cargo", *args, "--offline", "--target-dir", target], cwd=cwd, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            log(r.stdout[-8000:])
            raise Inconclusive("the build failed")
        return target


def build_rt():
    with Build("rt") as b:
        stamp = repo_hash() + tree_hash(VERIF + "/rt")
        exe = os.path.join(b.dir, "t", "release", "rt")
        if not (b.fresh(stamp) and os.path.exists(exe)):
            b.unmark()
            b.cargo(["build", "--release"], VERIF + "/rt", VERIF + "/rt/Cargo.lock")
            b.mark(stamp)
        return exe


def vendored(where):
    """A directory source: std's own dependencies (rust-src) and every crate in cargo's cache, for -Zbuild-std offline."""
    env = cargo_env("")
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env, capture_output=True, text=True, check=True).stdout.strip()
    std = os.path.join(sysroot, "lib/rustlib/src/rust/library/vendor")
    if not os.path.isdir(std):
        raise Inconclusive("rust-src is not installed")
    cache = os.path.join(env["HOME"], ".cargo/registry")
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    have = set()
    for name in os.listdir(std):
        os.symlink(os.path.join(std, name), os.path.join(where, "std-" + name))
        with open(os.path.join(std, name, "Cargo.toml")) as f:
            m = f.read()
        package = m[m.index("[package]"):]
        have.add(tuple(re.search(rf'^{k}\s*=\s*"([^"]*)"', package, re.M).group(1) for k in ("name", "version")))
    for index in os.listdir(os.path.join(cache, "src")):
        for name in os.listdir(os.path.join(cache, "src", index)):
            crate, version = re.fullmatch(r"(.*?)-(\d+\.\d+\.\d+.*)", name).groups()
            archive = os.path.join(cache, "cache", index, name + ".crate")
            if (crate, version) in have or not os.path.exists(archive) or os.path.exists(os.path.join(where, name)):
                continue
            src, dst = os.path.join(cache, "src", index, name), os.path.join(where, name)
            os.makedirs(dst)
            for f in os.listdir(src):
                if f != ".cargo-checksum.json":
                    os.symlink(os.path.join(src, f), os.path.join(dst, f))
            with open(archive, "rb") as f:
                digest = hashlib.sha256(f.read()).hexdigest()
            with open(os.path.join(dst, ".cargo-checksum.json"), "w") as f:
                json.dump({"files": {}, "package": digest}, f)
    return where


def std_args(b):
    vend = os.path.join(b.dir, "vend")
    if not os.path.isdir(vend):
        vendored(vend)
    return ["--config", 'source.crates-io.replace-with="v"', "--config", f'source.v.directory="{vend}"']


def build_wasm():
    """The wasm32 build of /repo as shipped (release profile), with the indexing entry point."""
    with Build("wasm") as b:
        stamp = repo_hash() + tree_hash(VERIF + "/wasm/Cargo.lock")
        out = os.path.join(b.dir, "t", "wasm32-unknown-unknown", "release", "indexer_lib.wasm")
        if not (b.fresh(stamp) and os.path.exists(out)):
            b.unmark()
            b.cargo(["build", "--lib", "--release", "--target", "wasm32-unknown-unknown", "-Zbuild-std=std,panic_abort",
                     "--features", "indexing", *std_args(b)], REPO, VERIF + "/wasm/Cargo.lock", {"RUSTC_BOOTSTRAP": "1"})
            b.mark(stamp)
        return out


def build_cli():
    """The command-line indexer as shipped (release profile)."""
    with Build("cli") as b:
        stamp = repo_hash() + tree_hash(VERIF + "/wasm/Cargo.lock")
        exe = os.path.join(b.dir, "t", "release", "indexer")
        if not (b.fresh(stamp) and os.path.exists(exe)):
            b.unmark()
            b.cargo(["build", "--release", "--bin", "indexer"], REPO, VERIF + "/wasm/Cargo.lock")
            b.mark(stamp)
        return exe


def build_fault():
    """What is preloaded into the indexer to stop it at a call of its."""
    with Build("fault") as b:
        source, out = os.path.join(VERIF, "cli", "fault.c"), os.path.join(b.dir, "fault.so")
        if not (b.fresh(tree_hash(source)) and os.path.exists(out)):
            b.unmark()
            r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", out, source, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise Inconclusive("the build failed: " + r.stdout[-2000:])
            b.mark(tree_hash(source))
        return out


def build_sanitized(kind):
    """The harness and everything below it, the standard library included, instrumented by a sanitizer."""
    triple = "x86_64-unknown-linux-gnu"
    with Build("rt-" + kind) as b:
        stamp = repo_hash() + tree_hash(VERIF + "/rt")
        exe = os.path.join(b.dir, "t", triple, "release", "rt")
        if not (b.fresh(stamp) and os.path.exists(exe)):
            b.unmark()
            b.cargo(["build", "--release", "--target", triple, "-Zbuild-std", *std_args(b)], VERIF + "/rt", VERIF + "/rt/Cargo.lock",
                    {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": f"-Zsanitizer={kind}"})
            b.mark(stamp)
        return exe


def sanitizer_env(kind):
    env = dict(os.environ)
    if kind == "thread":
        env["TSAN_OPTIONS"] = "exitcode=66 halt_on_error=1 report_signal_unsafe=0"
    else:
        # What initialize loads stays loaded: memory held to the end is no leak here
        env["ASAN_OPTIONS"] = "exitcode=66 detect_leaks=0 detect_stack_use_after_return=1 abort_on_error=0"
    return env


class Result:
    """What the jobs of a check observed together."""

    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.errors = []

    def add_counters(self, counters):
        for k, v in counters.items():
            if k.startswith("max_"):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v

    def merge(self, d, replay=None):
        self.evaluations += d.get("evaluations", 0)
        self.distinct.update(d.get("distinct", []))
        self.add_counters(d.get("counters", {}))
        self.samples += d.get("samples", [])
        for v in d.get("violations", []):
            if replay:
                v["replay_cmd"] = replay(v)
            self.violations.append(v)


def scratch(name):
    d = os.path.join(BUILD, "run", f"{name}.{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def how_it_ended(rc):
    if rc < 0:
        return f"signal {signal.Signals(-rc).name}"
    return f"exit status {rc}"


def run_rt(result, exe, prop, seed, secs, thorough=False, workers=WORKERS, max_cases=None, env=None, grace=120, tag="", first=0, trust=False):
    """Run the native workers of a property; a death inside a case is confirmed by replaying that case alone, unless it
    depends on the schedule and is trusted."""
    d = scratch(f"{prop}{tag}")
    procs = []
    extra = ["--thorough"] if thorough else []
    if max_cases is not None:
        extra += ["--max", str(max_cases)]
    for w in range(workers):
        out, cur, err = (os.path.join(d, f"{w}.{x}") for x in ("json", "current", "err"))
        with open(err, "wb") as eh:
            p = subprocess.Popen([exe, "run", prop, "--seed", str(seed), "--worker", str(first + w), "--secs", str(secs), "--out", out,
                                  "--current", cur, *extra], stdout=subprocess.DEVNULL, stderr=eh, env=env, cwd=d)
        procs.append((p, out, cur, err))
    deadline = time.time() + secs + grace
    stuck = []
    for p, out, cur, err in procs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            stuck.append(read(cur).strip())
            continue
        if p.returncode == 0 and os.path.exists(out):
            with open(out) as f:
                result.merge(json.load(f), lambda v: f"{exe} replay {prop} {v['case_seed']}" + (" --thorough" if thorough else ""))
        elif p.returncode in (3, 101, 2):
            result.errors.append(f"harness error: {read(err)[-600:]}")
        else:
            case = read(cur).strip()
            if p.returncode == -signal.SIGKILL or not case:
                result.errors.append(f"a worker ended with {how_it_ended(p.returncode)}: {read(err)[-600:]}")
                continue
            cmd = [exe, "replay", prop, case] + (["--thorough"] if thorough else [])
            if trust and (p.returncode < 0 or sanitizer(p.returncode)):
                result.violations.append({
                    "case_seed": case, "replay_cmd": " ".join(cmd),
                    "message": f"{report(err)}the process died with {how_it_ended(p.returncode)}",
                    "detail": {"stderr": read(err)[:6000]},
                })
                continue
            try:
                r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=d, timeout=120)
            except subprocess.TimeoutExpired:
                stuck.append(case)
                continue
            if r.returncode < 0 and r.returncode != -signal.SIGKILL or sanitizer(r.returncode):
                result.violations.append({
                    "case_seed": case, "replay_cmd": " ".join(cmd),
                    "message": f"the process died with {how_it_ended(r.returncode)}",
                    "detail": {"first_run": how_it_ended(p.returncode), "stderr": r.stderr.decode(errors="replace")[-3000:]},
                })
            else:
                result.errors.append(f"a worker ended with {how_it_ended(p.returncode)} in case {case}, which alone ended with {how_it_ended(r.returncode)}: {read(err)[-600:]}")
    endless(result, [(c, [exe, "replay", prop, c] + (["--thorough"] if thorough else [])) for c in stuck], env, d)
    shutil.rmtree(d, ignore_errors=True)


def endless(result, stuck, env, d, alone=300):
    """Cases that did not end, each run once more by itself: what takes so long alone, when others take milliseconds, never returns."""
    for case, cmd in stuck[:2]:
        if not case or result.violations:
            result.errors.append(f"a worker did not finish; case {case or 'unknown'}")
            continue
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=d, start_new_session=True)
        try:
            p.wait(timeout=alone)
            if p.returncode == 0:
                # The machine was busy, or the case is large
                result.add_counters({"cases_slow_to_end": 1})
            elif p.returncode == 1:
                result.violations.append({"case_seed": case, "replay_cmd": " ".join(cmd), "message": "a case that was slow to end violates the property when run alone", "detail": None})
            else:
                result.errors.append(f"a worker did not finish; case {case}, which alone ended with {how_it_ended(p.returncode)}")
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            result.violations.append({"case_seed": case, "replay_cmd": " ".join(cmd), "message": f"some call does not return: the case did not end within {alone} s, twice", "detail": None})


def run_wasm(result, prop, seed, secs, thorough=False, workers=WORKERS, grace=120):
    """Run the browser build under node, then check natively the index files it produced."""
    exe, wasm = build_rt(), build_wasm()
    d = scratch(f"{prop}.wasm")
    script = os.path.join(VERIF, "wasm", "run.js")
    procs = []
    for w in range(workers):
        out, cur, err, files = (os.path.join(d, f"{w}.{x}") for x in ("json", "current", "err", "files"))
        with open(err, "wb") as eh:
            p = subprocess.Popen(["node", "--max-old-space-size=3000", script, prop, "--rt", exe, "--wasm", wasm, "--seed", str(seed), "--worker", str(w),
                                  "--secs", str(secs), "--out", out, "--current", cur, "--files", files],
                                 stdout=subprocess.DEVNULL, stderr=eh, cwd=d, start_new_session=True)
        procs.append((p, out, cur, err, files))
    replay = lambda v: f"node {script} {prop} --rt {exe} --wasm {wasm} --case {v['case_seed']}"
    deadline = time.time() + secs + grace
    stuck = []
    for p, out, cur, err, files in procs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            stuck.append(read(cur).strip())
            continue
        if p.returncode == 0 and os.path.exists(out):
            with open(out) as f:
                result.merge(json.load(f), replay)
        else:
            result.errors.append(f"a browser-build worker ended with {how_it_ended(p.returncode)}: {read(err)[-600:]}")
    endless(result, [(c, ["node", "--max-old-space-size=3000", script, prop, "--rt", exe, "--wasm", wasm, "--case", c]) for c in stuck], None, d)
    checks = []
    for p, out, cur, err, files in procs:
        if os.path.exists(files) and os.path.getsize(files):
            checks.append((subprocess.Popen([exe, "verify", "--in", files, "--out", out + ".v", "--current", cur + ".v"],
                                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=d), out + ".v", cur + ".v"))
    for p, out, cur in checks:
        try:
            _, err = p.communicate(timeout=secs + grace)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            result.errors.append("comparing the browser build's files did not finish")
            continue
        if p.returncode == 0:
            with open(out) as f:
                result.merge(json.load(f), replay)
        elif p.returncode < 0 and p.returncode != -signal.SIGKILL:
            result.violations.append({"case_seed": read(cur).strip(), "message": f"loading a file the browser build made ended with {how_it_ended(p.returncode)}"})
        else:
            result.errors.append(f"harness error: {err.decode(errors='replace')[-600:]}")
    shutil.rmtree(d, ignore_errors=True)


def sanitizer(rc):
    return rc == 66


def report(err):
    """The headline of a sanitizer's report."""
    for line in read(err).splitlines():
        if "WARNING: ThreadSanitizer" in line or "ERROR: AddressSanitizer" in line or "panicked" in line:
            return line.strip() + ": "
    return ""


def read(path):
    try:
        with open(path, errors="replace") as f:
            return f.read()
    except OSError:
        return ""


def known_findings(prop):
    """Open findings only; a `fixed:` line suppresses nothing."""
    out = []
    for line in read(os.path.join(VERIF, "known_findings.txt")).splitlines():
        line = line.strip()
        if not line.startswith("{"):
            continue
        d = json.loads(line)
        if d.get("status") == "open" and d.get("property") == prop:
            out.append(d)
    return out


def finish(prop, tier, seed, level, rule, assumptions, result, needed, start):
    """Writes the evidence and turns what was observed into the exit status."""
    os.makedirs(EVIDENCE, exist_ok=True)
    reported = []
    known = known_findings(prop)
    met = set()
    for v in result.violations:
        k = next((k for k in known if k["signature"] == v.get("signature", v["message"])), None)
        if k:
            met.add(k["signature"])
        else:
            reported.append(v)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    missing = [k for k in needed if not result.counters.get(k)]
    coverage = {
        "evaluations": result.evaluations,
        "distinct_nontrivial": len(result.distinct),
        "rule": rule,
        "samples": result.samples[:4],
        "observed": dict(sorted(result.counters.items())),
    }
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
        "assumptions": assumptions, "wall_s": round(time.time() - start, 2), "violations": len(reported),
    }
    if result.errors:
        evidence["errors"] = result.errors[:10]
    path = os.path.join(EVIDENCE, f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(path + ".tmp", path)
    if reported:
        replay = os.path.join(EVIDENCE, f"{prop}.replay.json")
        with open(replay, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "violations": reported[:5]}, f, indent=1, ensure_ascii=False)
        for v in reported[:5]:
            log(f"{prop}: {v['message'][:1500]}")
        print(f"VIOLATION property={prop} replay={replay}", flush=True)
        return 1
    if result.errors:
        for e in result.errors[:5]:
            log(f"{prop}: inconclusive: {e}")
        return 2
    if missing or not result.evaluations or not result.distinct:
        log(f"{prop}: inconclusive: never observed {missing}")
        return 2
    print(f"{prop}: held on {result.evaluations} evaluations ({len(result.distinct)} distinct non-trivial) in {evidence['wall_s']} s")
    return 0
