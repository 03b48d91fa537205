#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Builds the harness from /repo's working tree, runs the monitors of one property in parallel shards,
confirms what they report, and writes /verif/evidence/PROPERTY.json.

Exit codes: 0 the property held on everything that ran; 1 it was violated (with a line
"VIOLATION property=<id> replay=<path>"); 2 the check itself failed.
"""

import array
import concurrent.futures
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPLAYS = os.path.join(VERIF, "replays")
FINDINGS = os.path.join(VERIF, "known-findings.txt")
START = time.time()
NPROC = 8
GB = 1 << 30

LEVELS = {"C24": "fault_enumeration"}

# The properties whose workloads also run in an unoptimised build
DEBUG_TOO = {"C20", "C24", "C25"}

# Reading a text (of at most a few 100 kB, which takes well below a second) for longer than this is a violation of C20
SLOW_S = 20

# What the compiler says of a program which would use something for too long, or from too many places
BORROW_ERRORS = {"E0499", "E0502", "E0503", "E0505", "E0506", "E0515", "E0521", "E0597", "E0716", "E0277", "E0373", "E0382"}

RULES = {
    "default": "cases are pure functions of (seed, shard, probe, index); a case is non-trivial if it reached the "
    "comparison with the oracle on a non-degenerate input, and two cases are distinct if the hashes of their inputs "
    "(or of their whole histories) differ",
}


def log(msg):
    print(f"[{time.time() - START:6.1f}s] {msg}", flush=True)


def fail(msg):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(2)


def env(extra=None):
    e = dict(os.environ)
    for v in ("RUSTC_WRAPPER", "CARGO_BUILD_RUSTC_WRAPPER", "RUSTDOCFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "MIRIFLAGS"):
        e.pop(v, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["HOME"] = "/root"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTFLAGS"] = "-Awarnings"
    e["RUST_BACKTRACE"] = "0"
    e.update(extra or {})
    return e


class Build:
    """One build of a harness, run in the background"""

    def __init__(self, name, crate, args, toolchain="stable", rustflags="", target=None, wrapper=None, dir_name=None):
        self.name = name
        self.dir = os.path.join(VERIF, crate)
        self.target_dir = os.path.join(self.dir, "target", dir_name or name)
        self.bin_name = "bfmon-cc" if crate == "harness-cc" else "bfmon"
        cmd = ["cargo", "+" + toolchain] + (wrapper or ["build"]) + ["--offline", "--locked"] + args
        self.cmd = cmd
        self.extra = {"CARGO_TARGET_DIR": self.target_dir}
        if rustflags:
            self.extra["RUSTFLAGS"] = "-Awarnings " + rustflags
        self.out = tempfile.TemporaryFile("w+")
        self.p = subprocess.Popen(cmd, cwd=self.dir, env=env(self.extra), stdout=self.out, stderr=subprocess.STDOUT, start_new_session=True)
        sub = (target + "/" if target else "") + (args[args.index("--profile") + 1] if "--profile" in args else "debug")
        self.bin = os.path.join(self.target_dir, sub, self.bin_name)

    def wait(self):
        rc = self.p.wait()
        if rc != 0:
            self.out.seek(0)
            text = self.out.read()
            print(text[-6000:])
            fail(f"the harness doesn't build ({self.name}): {' '.join(self.cmd)}")
        log(f"built {self.name}")
        return self


def limits(gb):
    def f():
        if gb:
            resource.setrlimit(resource.RLIMIT_AS, (gb * GB, gb * GB))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    return f


class Shard:
    """One running process of a harness"""

    def __init__(self, prop, build, cmd, args, out, mem_gb, extra_env, timeout):
        self.prop, self.build, self.out, self.args = prop, build, out, args
        self.cmd = cmd
        self.mem_gb = mem_gb
        self.extra_env = extra_env
        self.tmp = out + ".tmpdir"
        os.makedirs(self.tmp, exist_ok=True)
        self.env = env({**extra_env, "TMPDIR": self.tmp})
        self.log = open(out + ".log", "w+")
        self.deadline = time.time() + timeout
        self.p = subprocess.Popen(
            cmd + [prop] + args + ["--out", out], cwd=self.build.dir if self.build else VERIF, env=self.env,
            stdout=self.log, stderr=subprocess.STDOUT, preexec_fn=limits(mem_gb), start_new_session=True)

    def wait(self):
        """Returns the exit code, or None if it had to be stopped"""
        try:
            rc = self.p.wait(max(1, self.deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
            rc = None
        return rc

    def text(self):
        self.log.flush()
        with open(self.out + ".log", errors="replace") as f:
            return f.read()

    def part(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def at(self):
        """The probe (index in the table) and case which were running last"""
        try:
            with open(self.out + ".state") as f:
                a, b = f.read().split()[:2]
                return int(a), int(b)
        except (OSError, ValueError):
            return None

    def probe_names(self):
        r = subprocess.run(self.cmd + [self.prop, "--list"] + [a for a in ("--mem", "--rest") if a in self.args], env=self.env,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=self.build.dir)
        return r.stdout.decode().split("\n")

    def again(self, probe, idx, timeout):
        """Run a single case.  Returns (exit code or None, output)"""
        args = [a for a in self.args]
        cmd = self.cmd + [self.prop] + args + ["--hang", "0", "--only", probe, str(idx)]
        before = resource.getrusage(resource.RUSAGE_CHILDREN)
        try:
            r = subprocess.run(cmd, env=self.env, cwd=self.build.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, preexec_fn=limits(self.mem_gb))
            after = resource.getrusage(resource.RUSAGE_CHILDREN)
            # (no other child is waited for meanwhile)
            self.cpu_s = after.ru_utime + after.ru_stime - before.ru_utime - before.ru_stime
            return r.returncode, r.stdout.decode(errors="replace"), cmd
        except subprocess.TimeoutExpired as e:
            return None, (e.stdout or b"").decode(errors="replace"), cmd


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = tier == "thorough"
        self.violations = []
        self.shards = []
        self.inconclusive = []
        self.known = []
        self.judged = set()
        self.work = tempfile.mkdtemp(prefix=f"bfmon-{prop}-")
        self.instruments = {}

    def start(self, build, cmd, shard, extra_args, label, timeout, mem_gb=4, extra_env=None):
        args = ["--seed", str(self.seed), "--shard", str(shard)] + extra_args
        if self.thorough:
            args.append("--thorough")
        s = Shard(self.prop, build, cmd, args, os.path.join(self.work, f"part{len(self.shards)}.json"), mem_gb, extra_env or {}, timeout)
        s.label, s.shard = label, shard
        self.shards.append(s)
        return s

    # ---- judging ----

    def violation(self, shard, probe, idx, msg, detail, cmd=None):
        for k in self.findings():
            if k[1] in msg:
                if k not in self.known:
                    self.known.append(k)
                    print(f"KNOWN-FINDING: property={self.prop} {k[2]}", flush=True)
                return
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{self.prop}-{re.sub('[^A-Za-z0-9]+', '-', probe)}-{idx}-{shard.label}.json")
        replay_cmd = cmd or (shard.cmd + [self.prop] + shard.args + ["--hang", "0", "--only", probe, str(idx)])
        with open(path, "w") as f:
            json.dump({
                "property": self.prop, "tier": self.tier, "seed": self.seed, "instrument": shard.label, "shard": shard.shard,
                "probe": probe, "case": idx, "what": msg, "detail": detail,
                "replay": replay_cmd,
                "note": "rerun the check with the same VERIF_SEED to rebuild the harness, then run the command above",
            }, f, indent=1)
        self.violations.append((probe, idx, msg, path))
        print(f"VIOLATED [{shard.label}] {probe} #{idx}: {msg[:2000]}")
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)

    def findings(self):
        """The open findings of this property: lines 'known: property=<id> | <part of the message> | <what fails>'"""
        out = []
        try:
            with open(FINDINGS) as f:
                for line in f:
                    if line.startswith("known:"):
                        parts = [x.strip() for x in line[len("known:"):].split("|", 2)]
                        if len(parts) == 3 and parts[0] == f"property={self.prop}" and parts[1]:
                            out.append(tuple(parts))
        except OSError:
            pass
        return out

    def judge(self, s, rc, mem):
        text = s.text()
        part = s.part()
        if mem:
            sanit = self.sanitizer_report(text)
            if sanit:
                where = self.where(s)
                self.violation(s, where[0], where[1], sanit[0], sanit[1])
                return
        if rc == 0 and part:
            return
        if rc == 1 and part and part["violations"]:
            for v in part["violations"]:
                self.violation(s, v["probe"], v["idx"], v["msg"], v["log"][-60:])
            return
        if rc is None:
            # Stopped by us: it reported nothing.  Fine under an interpreter which is just slow
            if mem and s.mem_gb == 0 and not isinstance(s.build, WasmBuild):
                self.instruments[s.label + ": stopped at the time limit"] = self.instruments.get(s.label + ": stopped at the time limit", 0) + 1
                return
            self.confirm(s, "didn't finish", text)
            return
        self.confirm(s, "case hung" if rc == 3 else f"the process died (exit code {rc})", text)

    def where(self, s):
        at = s.at()
        if at is None:
            return ("unknown", 0)
        names = s.probe_names()
        return (names[at[0]] if at[0] < len(names) else "unknown", at[1])

    def sanitizer_report(self, text):
        for pat, name in ((r"error: Undefined Behavior: (.*)", "Miri: undefined behaviour: "), (r"ERROR: AddressSanitizer:? (.*)", "AddressSanitizer: "),
                          (r"ERROR: LeakSanitizer:? (.*)", "LeakSanitizer: "),
                          (r"WARNING: ThreadSanitizer: (.*?) \(pid", "ThreadSanitizer: "),
                          (r"NONUNWINDING PANIC: (.*)", "unsafe precondition: "), (r"(unsafe precondition\(s\) violated.*)", ""),
                          (r"error: (memory leaked.*)", "Miri: "),
                          (r"error: (.*(?:dangling|out-of-bounds|uninitialized|dereferenc|Data race).*)", "Miri: ")):
            m = re.search(pat, text)
            if m:
                return (name + m.group(1)[:300], text[max(0, m.start() - 500):m.start() + 5000].split("\n"))
        return None

    def confirm(self, s, what, text):
        """Something bad happened, apart from an oracle's verdict: does it happen again?"""
        probe, idx = self.where(s)
        if s.at() is None:
            self.inconclusive.append(f"{s.label}: {what} before the first case: {text[-800:]}")
            return
        if self.violations and what in ("case hung", "didn't finish"):
            log(f"{s.label}: {what} in {probe} #{idx}, too")
            return  # There's nothing left to decide, and it takes long
        log(f"{s.label}: {what} in {probe} #{idx}; running that case again")
        left = 880 - (time.time() - START)
        timeout = max(20, min(200, left - 20))
        rc, out, cmd = s.again(probe, idx, timeout)
        if rc == 0 and self.prop == "C20" and what == "case hung" and s.cpu_s > SLOW_S:
            self.violation(s, probe, idx, f"a text takes {s.cpu_s:.0f} s of processor time to read", out[-5000:].split("\n"), cmd)
            return
        if rc == 0 and what in ("case hung", "didn't finish"):
            # Just slow: the other cases of this shard weren't run, and everything that was held
            self.instruments[s.label + ": stopped in a slow case"] = self.instruments.get(s.label + ": stopped in a slow case", 0) + 1
            log(f"{s.label}: it finished on its own")
            return
        if rc == 0:
            self.inconclusive.append(f"{s.label}: {what} in {probe} #{idx}, but not when it ran on its own: {text[-800:]}")
            return
        if rc is None:
            if timeout < 60:
                self.inconclusive.append(f"{s.label}: {probe} #{idx} {what}, but there was no time to confirm it")
                return
            msg = f"a case didn't terminate within {timeout:.0f} s (twice)"
        elif rc == 1:
            msg = next((l for l in out.split("\n") if l.startswith("VIOLATED")), "violated")
        else:
            msg = f"the process died (exit code {rc})"
            m = self.sanitizer_report(out)
            if m:
                msg += ": " + m[0]
            elif "memory allocation of" in out:
                msg += ": memory ran out"
            elif rc == -9:
                self.inconclusive.append(f"{s.label}: {probe} #{idx} was killed")
                return
        self.violation(s, probe, idx, msg, out[-5000:].split("\n"), cmd)

    # ---- evidence ----

    def finish(self, assumptions, mem=False):
        for s in self.shards:
            rc = s.wait()
            if s not in self.judged:
                self.judge(s, rc, mem)
            if len(self.violations) >= 6:
                for t in self.shards:
                    if t.p.poll() is None:
                        os.killpg(t.p.pid, signal.SIGKILL)
                        t.p.wait()
                break
        evaluations, samples, counts, per_probe, sigs, exhausted = 0, [], {}, {}, set(), {}
        for s in self.shards:
            part = s.part()
            if not part:
                continue
            evaluations += part["evaluations"]
            if len(samples) < 24:
                samples += part["samples"][: 24 if s is self.shards[0] else 4]
            for k, v in part["counts"].items():
                counts[k] = counts.get(k, 0) + v
            for p in part["per_probe"]:
                per_probe[p["probe"]] = per_probe.get(p["probe"], 0) + p["cases"]
                exhausted[p["probe"]] = exhausted.get(p["probe"], False) or p["exhausted"]
            self.instruments[s.label] = self.instruments.get(s.label, 0) + part["evaluations"]
            try:
                a = array.array("Q")
                with open(s.out + ".sigs", "rb") as f:
                    a.frombytes(f.read())
                sigs.update(a)
            except OSError:
                pass
        if not samples:
            samples = [f"{s.label}: {s.text()[-300:]}" for s in self.shards[:2]]
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": LEVELS.get(self.prop, "exploration"),
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(sigs),
                "rule": RULES.get(self.prop, RULES["default"]),
                "samples": samples[:24],
                "events_observed": counts,
                "cases_per_probe": per_probe,
                "probes_which_enumerated_their_whole_space": [p for p, e in exhausted.items() if e],
                "cases_per_instrument": self.instruments,
            },
            "assumptions": assumptions,
            "wall_s": round(time.time() - START, 1),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.prop}.json"))
        shutil.rmtree(self.work, ignore_errors=True)
        log(f"{self.prop} {self.tier}: {evaluations} cases, {len(sigs)} distinct, {len(self.violations)} violations")
        if self.violations:
            sys.exit(1)
        if self.inconclusive:
            for i in self.inconclusive:
                print("INCONCLUSIVE: " + i)
            sys.exit(2)
        if evaluations == 0 or not sigs:
            fail("nothing was observed")
        sys.exit(0)


COMMON = [
    "the reference models in harness/src/model.rs say what the documentation means",
    "rustc, the standard library and this machine execute the monitors correctly",
]


def run_standard(prop, tier, crate):
    c = Check(prop, tier)
    builds = [Build("checked", crate, ["--profile", "checked"]), Build("release", crate, ["--profile", "release"])]
    # Without optimisations, recursion isn't turned into loops
    debug = Build("debug", crate, []) if prop in DEBUG_TOO else None
    for b in builds:
        b.wait()
    if crate == "harness-cc":
        n, budget, scale = (4, 60, "1") if tier == "quick" else (8, 600, "1")
    else:
        n, budget, scale = (8, 30, "10") if tier == "quick" else (8, 660, "1")
    hang = ["--hang", "25"] if prop == "C20" else []
    for i in range(n):
        b = builds[i % 2]
        c.start(b, [b.bin], i, ["--budget", str(budget), "--scale", scale] + hang, b.name, timeout=budget + 150)
    if debug:
        debug.wait()
        c.start(debug, [debug.bin], n, ["--budget", str(budget), "--scale", str(float(scale) / 10)] + hang, debug.name, timeout=budget + 150)
    c.finish(COMMON)


def run_mem(prop, tier):
    c = Check(prop, tier)
    asan_target = "x86_64-unknown-linux-gnu"
    asan = Build("asan", "harness", ["--profile", "checked", "--target", asan_target], toolchain="nightly",
                 rustflags="-Zsanitizer=address", target=asan_target)
    checked = Build("checked", "harness", ["--profile", "checked"])
    # Without debug assertions, what was only a `debug_assert!` doesn't stop undefined behaviour
    asan_rel = Build("asan-release", "harness", ["--profile", "release", "--target", asan_target], toolchain="nightly",
                     rustflags="-Zsanitizer=address", target=asan_target)
    # `miri run` builds when it runs, so build first with a run of nothing
    miri_flags = "-Zmiri-disable-isolation"
    miri_extra = {"MIRIFLAGS": miri_flags}
    miri_env = env({**miri_extra, "CARGO_TARGET_DIR": os.path.join(VERIF, "harness", "target", "miri")})
    miri_log = tempfile.TemporaryFile("w+")
    miri_args = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q"]
    miri = subprocess.Popen(miri_args + ["--", "C21", "--list"], cwd=os.path.join(VERIF, "harness"), env=miri_env, stdout=miri_log, stderr=subprocess.STDOUT)
    asan.wait()
    asan_rel.wait()
    checked.wait()
    if miri.wait() != 0:
        miri_log.seek(0)
        print(miri_log.read()[-4000:])
        fail("the harness doesn't build under Miri")
    r = subprocess.run(miri_args + ["--release", "--", "C21", "--list"], cwd=os.path.join(VERIF, "harness"), env=miri_env, stdout=miri_log, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        miri_log.seek(0)
        print(miri_log.read()[-4000:])
        fail("the harness doesn't build under Miri in release mode")
    log("built miri")

    class MiriBuild:
        dir = os.path.join(VERIF, "harness")
        name = "miri"

    mb = MiriBuild()
    budget = 130 if tier == "quick" else 560
    # The interpreters: half of them on the workload which was made for this property
    for i in range(5):
        args = ["--budget", str(budget), "--hang", "0"] + (["--mem"] if i in (0, 2) else ["--mem", "--own"])
        cmd, label = (miri_args + ["--"], "miri") if i < 3 else (miri_args + ["--release", "--"], "miri-release")
        c.start(mb, cmd, 10 + i, args, label, timeout=budget + 120, mem_gb=0,
                extra_env={**miri_extra, "CARGO_TARGET_DIR": os.path.join(VERIF, "harness", "target", "miri")})
    for i, b in enumerate([asan, checked, asan_rel]):
        c.start(b, [b.bin], 20 + i, ["--budget", str(budget), "--mem"], b.name, timeout=budget + 120,
                mem_gb=6 if b is checked else 0, extra_env={"ASAN_OPTIONS": "detect_leaks=1:allocator_may_return_null=0"})
    escapes(c, miri_args, miri_extra)
    c.finish(COMMON[1:] + ["Miri and AddressSanitizer report the undefined behaviour that they see"], mem=True)


def escapes(c, miri_args, miri_extra):
    """Programs of safe code which use something after what it belongs to has gone (see escapes/make.py).  The compiler
    rejects them on a sound interface.  Whichever of them it accepts is run under Miri, and it's a violation only if
    Miri sees undefined behaviour."""
    where = os.path.join(VERIF, "escapes")
    extra = {**miri_extra, "CARGO_TARGET_DIR": os.path.join(where, "target")}
    rejected, accepted, other = set(), set(), set()
    r = subprocess.run(["cargo", "+stable", "check", "--offline", "--locked", "--bins", "--keep-going", "--message-format=json"], cwd=where,
                       env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    for line in r.stdout.decode(errors="replace").split("\n"):
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error" and m["message"].get("code"):
            (rejected if m["message"]["code"]["code"] in BORROW_ERRORS else other).add(m["target"]["name"])
        elif m.get("reason") == "compiler-artifact" and m["target"]["kind"] == ["bin"]:
            accepted.add(m["target"]["name"])
    n = c.instruments
    n["programs of escaping references: rejected by the compiler"] = len(rejected - other)
    n["programs of escaping references: not judged (the interface is another one)"] = len(other)
    n["programs of escaping references: accepted, and run under Miri"] = 0
    for name in sorted(accepted)[:12]:
        cmd = miri_args + ["--bin", name]
        try:
            r = subprocess.run(cmd, cwd=where, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
        except subprocess.TimeoutExpired:
            continue
        n["programs of escaping references: accepted, and run under Miri"] += 1
        seen = c.sanitizer_report(r.stdout.decode(errors="replace"))
        if seen and "leak" not in seen[0]:

            class Program:
                label, shard, args = "miri", 0, []

            c.violation(Program, "escapes/" + name, 0, seen[0] + " in safe code (escapes/src/bin/" + name + ".rs)", seen[1], ["sh", "-c", f"cd {where} && MIRIFLAGS={extra['MIRIFLAGS']} {' '.join(cmd)}"])
        if len(c.violations) >= 3:
            return


def run_threads(prop, tier):
    """Several threads: the comparisons run in ordinary builds, under ThreadSanitizer and under Miri"""
    c = Check(prop, tier)
    target = "x86_64-unknown-linux-gnu"
    # The standard library has to be instrumented as well: otherwise its locks aren't seen
    tsan = Build("tsan", "harness", ["-Zbuild-std", "--profile", "checked", "--target", target], toolchain="nightly",
                 rustflags="-Zsanitizer=thread", target=target)
    builds = [Build("checked", "harness", ["--profile", "checked"]), Build("release", "harness", ["--profile", "release"])]
    miri_extra = {"MIRIFLAGS": "-Zmiri-disable-isolation", "CARGO_TARGET_DIR": os.path.join(VERIF, "harness", "target", "miri")}
    miri_args = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q"]
    with tempfile.TemporaryFile("w+") as miri_log:
        r = subprocess.run(miri_args + ["--", prop, "--list"], cwd=os.path.join(VERIF, "harness"), env=env(miri_extra), stdout=miri_log, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            miri_log.seek(0)
            print(miri_log.read()[-4000:])
            fail("the harness doesn't build under Miri")
    for b in builds + [tsan]:
        b.wait()
    budget, scale = (60, "10") if tier == "quick" else (600, "1")

    class MiriBuild:
        dir = os.path.join(VERIF, "harness")
        name = "miri"

    for i in range(2):
        # Every seed is another schedule
        extra = {**miri_extra, "MIRIFLAGS": miri_extra["MIRIFLAGS"] + f" -Zmiri-seed={c.seed * 2 + i}"}
        c.start(MiriBuild(), miri_args + ["--"], 10 + i, ["--budget", str(budget), "--hang", "0"], "miri", timeout=budget + 150, mem_gb=0, extra_env=extra)
    for i in range(3):
        c.start(tsan, [tsan.bin], 20 + i, ["--budget", str(budget), "--scale", scale], "tsan", timeout=budget + 150, mem_gb=0,
                extra_env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"})
    for i in range(4):
        b = builds[i % 2]
        c.start(b, [b.bin], i, ["--budget", str(budget), "--scale", scale], b.name, timeout=budget + 150)
    c.finish([COMMON[1], "ThreadSanitizer and Miri report the data races in the executions they see"], mem=True)


# Machines which this one isn't: words of 32 bits, and bytes in the other order
MACHINES = {"i686": "i686-unknown-linux-gnu", "s390x": "s390x-unknown-linux-gnu"}


class MiriBuild:
    """The interpreter, being another machine (`target`), or this one (None)"""

    # (Undefined behaviour is C21's matter: here it's the answers which count, and with most of the checks turned off,
    # there are twice as many of them)
    FLAGS = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check"

    def __init__(self, name, target, release=False):
        self.name, self.target = name, target
        self.dir = os.path.join(VERIF, "harness")
        self.extra = {"MIRIFLAGS": self.FLAGS, "CARGO_TARGET_DIR": os.path.join(self.dir, "target", "miri-" + name)}
        if target:
            self.extra["MIRI_SYSROOT"] = os.path.join(self.dir, "target", "miri-sysroot-" + target)
        to = ["--target", target] if target else []
        self.setup = ["cargo", "+nightly", "miri", "setup"] + to
        self.cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q"] + to + (["--release"] if release else []) + ["--"]

    def make(self):
        """Returns None, or why it doesn't work"""
        for cmd in ([self.setup] if self.target else []) + [self.cmd + ["C27", "--list"]]:
            r = subprocess.run(cmd, cwd=self.dir, env=env(self.extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
            if r.returncode != 0:
                return f"{' '.join(cmd)}: {r.stdout.decode(errors='replace')[-4000:]}"
        log(f"built miri-{self.name}")
        return None


class WasmBuild(Build):
    """The harness as a WebAssembly program: a 32-bit machine at full speed"""

    TARGET = "wasm32-unknown-unknown"

    def __init__(self, profile):
        sysroot = self.standard_library()
        self.linker = os.path.join(self.rust, "lib/rustlib/x86_64-unknown-linux-gnu/bin/rust-lld")
        super().__init__("wasm32-" + profile, "harness", ["--profile", profile, "--target", self.TARGET], toolchain="nightly", target=self.TARGET,
                         rustflags=f"-Cpanic=unwind --sysroot {sysroot} -Clinker={self.linker} -Clink-arg=-zstack-size=67108864 -Clink-arg=--import-undefined")
        self.cmd_line = ["node", os.path.join(VERIF, "wasm", "run.mjs"), self.bin + ".wasm"]

    def standard_library(self):
        """Built from the toolchain's own sources (none is installed for WebAssembly)"""
        version = subprocess.run(["rustc", "+nightly", "-vV"], env=env(), stdout=subprocess.PIPE).stdout.decode()
        self.rust = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env(), stdout=subprocess.PIPE).stdout.decode().strip()
        sysroot = os.path.join(VERIF, "harness", "target", "wasm-sysroot")
        stamp = os.path.join(sysroot, "version")
        try:
            with open(stamp) as f:
                if f.read() == version:
                    return sysroot
        except OSError:
            pass
        target_dir = os.path.join(VERIF, "harness", "target", "wasm-std")
        for d in (sysroot, target_dir):
            shutil.rmtree(d, ignore_errors=True)
        vendored = os.path.join(self.rust, "lib/rustlib/src/rust/library/vendor")
        cmd = ["cargo", "+nightly", "build", "--release", "--target", self.TARGET, "-Zbuild-std=std,panic_unwind", "--config", 'source.crates-io.replace-with="vendored"',
               "--config", f'source.vendored.directory="{vendored}"']
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "wasm", "std"), env=env({"CARGO_TARGET_DIR": target_dir, "RUSTFLAGS": "-Awarnings -Cpanic=unwind"}),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        if r.returncode != 0:
            print(r.stdout.decode(errors="replace")[-4000:])
            fail("the standard library doesn't build for WebAssembly")
        lib = os.path.join(sysroot, "lib", "rustlib", self.TARGET, "lib")
        os.makedirs(lib)
        for where, _, files in os.walk(os.path.join(target_dir, self.TARGET, "release")):
            for f in files:
                if f.endswith((".rlib", ".rmeta")) and "wasm_std" not in f and not os.path.exists(os.path.join(lib, f)):
                    shutil.copy(os.path.join(where, f), lib)
        with open(stamp, "w") as f:
            f.write(version)
        log("built the standard library for WebAssembly")
        return sysroot


def run_machines(prop, tier):
    """The same cases in several builds and on several machines: the answers are compared"""
    c = Check(prop, tier)
    # (The same toolchain as the other machines': `Debug` of a string depends on the version of Unicode)
    builds = [Build(name, "harness", args, toolchain="nightly", dir_name="nightly-" + name)
              for name, args in (("release", ["--profile", "release"]), ("checked", ["--profile", "checked"]), ("debug", []))]
    miri = [MiriBuild(name, target) for name, target in MACHINES.items()]
    with concurrent.futures.ThreadPoolExecutor() as pool:
        problems = pool.map(lambda m: m.make(), miri)
        wasm = [WasmBuild("release"), WasmBuild("checked")]
        for problem in problems:
            if problem:
                print(problem)
                fail("the harness doesn't build under Miri")
    for b in builds + wasm:
        b.wait()
    budget, scale = (150, "4") if tier == "quick" else (570, "60")
    asked, rest = {}, []
    i686, s390x = miri
    for i, m in enumerate([i686, s390x, s390x]):
        asked[i] = [c.start(m, m.cmd, i, ["--budget", str(budget), "--hang", "0", "--scale", "60"], "miri-" + m.name, timeout=budget + 100, mem_gb=0, extra_env=m.extra)]
    for i, m in enumerate([i686, s390x]):
        rest.append(c.start(m, m.cmd, 10 + i, ["--budget", str(budget), "--hang", "0", "--rest"], f"miri-{m.name}: other monitors", timeout=budget + 100, mem_gb=0, extra_env=m.extra))
    for i in range(2):
        rest.append(c.start(wasm[i], wasm[i].cmd_line, 20 + i, ["--budget", str(budget), "--hang", "0", "--rest", "--scale", scale], wasm[i].name + ": other monitors",
                            timeout=budget + 60, mem_gb=0))
    for i in asked:
        for b in builds:
            asked[i].append(c.start(b, [b.bin], i, ["--budget", str(budget * 0.45), "--scale", scale], b.name, timeout=budget + 120))
        w = wasm[i % 2]
        asked[i].append(c.start(w, w.cmd_line, i, ["--budget", str(budget * 0.45), "--hang", "0", "--scale", scale], w.name, timeout=budget + 60, mem_gb=0))
    results = {id(s): s.wait() for s in c.shards}
    for i, (first, *others) in asked.items():
        base = others[0]
        for s in others[1:] + [first]:
            compare(c, base, s, results)
    for s in rest:
        judge_elsewhere(c, s, results[id(s)], builds)
    c.judged = set(rest)
    # (What is left to judge is whether the other processes ended as they should)
    c.finish([COMMON[1], "Miri and node run programs as the machines would run them"], mem=True)


def answers_of(s):
    out = {}
    try:
        with open(s.out + ".answers") as f:
            for line in f:
                probe, idx, *answers = line.split()
                out[probe, int(idx)] = answers
    except OSError:
        pass
    return out


def compare(c, base, s, results):
    a, b = answers_of(base), answers_of(s)
    both = sorted(set(a) & set(b))
    k = f"answers compared: {base.label} and {s.label}"
    c.instruments[k] = c.instruments.get(k, 0) + sum(len(a[x]) for x in both)
    different = [x for x in both if a[x] != b[x]]
    for probe, idx in different[:2]:
        if len(c.violations) >= 6:
            return
        log(f"{s.label}: other answers than {base.label}: {probe} #{idx}")
        _, one, cmd_a = base.again(probe, idx, 100)
        _, again, _ = base.again(probe, idx, 100)
        rc, two, cmd_b = s.again(probe, idx, 200)
        lines = [[l for l in t.split("\n") if l.startswith("  ")] for t in (one, two)]
        if one != again or rc is None:
            k = "answers which differ from run to run"
            c.instruments[k] = c.instruments.get(k, 0) + 1
            continue
        for x, y in zip(*lines):
            if x != y:
                question = os.path.commonprefix([x, y]).split(" -> ")[0].strip()
                msg = f"{question}: answered {x.split(' -> ')[-1][:600]!r} by {base.label}, but {y.split(' -> ')[-1][:600]!r} by {s.label}"
                c.violation(s, probe, idx, msg, [cmd_a, x, cmd_b, y], cmd_b)
                break


def judge_elsewhere(c, s, rc, builds):
    """The other properties' monitors on another machine: what fails here as well is a matter for those properties"""
    part = s.part()
    slow = isinstance(s.build, MiriBuild)
    seen = c.sanitizer_report(s.text()) if slow else None
    cases = [(v["probe"], v["idx"], v["msg"], v["log"][-60:]) for v in (part or {}).get("violations", [])]
    if seen:
        cases = [(*c.where(s), seen[0], seen[1])]
    elif rc not in (0, 1, None):
        cases = [(*c.where(s), f"the process died (exit code {rc})", s.text()[-3000:].split("\n"))]
    elif rc is None and not slow:
        cases = [(*c.where(s), "a case doesn't terminate", [])]
    for probe, idx, msg, detail in cases[:4]:
        again, out, _ = s.again(probe, idx, 200)
        if again == 0 or again is None and (slow or rc is not None):
            continue
        if seen:
            host = MiriBuild("host", None)
            if host.make():
                continue
            here = [(host.cmd, host.extra)]
        else:
            here = [([b.bin], {"BFMON_SMALL": "1"} if slow else {}) for b in builds]
        args = [c.prop] + [a for a in s.args] + ["--hang", "0", "--only", probe, str(idx)]
        wrong = 0
        for cmd, extra in here:
            try:
                r = subprocess.run(cmd + args, cwd=s.build.dir, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200, preexec_fn=limits(0 if seen else 4))
                wrong += r.returncode != 0
            except subprocess.TimeoutExpired:
                wrong += 1
        if wrong:
            k = "cases which fail on this machine as well (not judged)"
            c.instruments[k] = c.instruments.get(k, 0) + 1
        else:
            c.violation(s, probe, idx, "only on this machine: " + msg, detail)


def main():
    if len(sys.argv) < 2:
        fail("usage: check.py PROPERTY [quick|thorough]")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        fail(f"unknown tier {tier}")
    if prop == "setup":
        # Checks build for themselves, so this only shows early whether the harness builds at all
        Build("checked", "harness", ["--profile", "checked"]).wait()
        return
    if prop == "C21":
        run_mem(prop, tier)
    elif prop == "C26":
        run_threads(prop, tier)
    elif prop == "C27":
        run_machines(prop, tier)
    elif prop in ("C24", "C25"):
        run_standard(prop, tier, "harness-cc")
    else:
        run_standard(prop, tier, "harness")


if __name__ == "__main__":
    main()
