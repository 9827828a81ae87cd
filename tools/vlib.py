"""Shared by all checks: lanes, harness builds, TLC runs, evidence, verdicts."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
STABLE, NIGHTLY = "1.99.1", "nightly-2026-10-29"
LANES = ["x86_64", "i686", "aarch64", "armv7", "thumbv7neon"]
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
START = time.time()


class ToolError(Exception):
    """The check itself could not do its work (exit 2)."""


def triple(lane):
    return lane + ("-unknown-linux-gnueabihf" if lane in ("armv7", "thumbv7neon") else "-unknown-linux-gnu")


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "/usr/bin:/bin") + ":/usr/local/bin:" + e["HOME"] + "/.cargo/bin"
    e.update(
        CARGO_NET_OFFLINE="true", RUSTUP_AUTO_INSTALL="0", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
        LANG="C.UTF-8", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0",
        CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER="gcc-13",
        CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER="aarch64-linux-gnu-gcc",
        CC_aarch64_unknown_linux_gnu="aarch64-linux-gnu-gcc",
        CARGO_TARGET_ARMV7_UNKNOWN_LINUX_GNUEABIHF_LINKER="arm-linux-gnueabihf-gcc",
        CARGO_TARGET_THUMBV7NEON_UNKNOWN_LINUX_GNUEABIHF_LINKER="arm-linux-gnueabihf-gcc",
        CC_armv7_unknown_linux_gnueabihf="arm-linux-gnueabihf-gcc",
        CC_thumbv7neon_unknown_linux_gnueabihf="arm-linux-gnueabihf-gcc",
    )
    return e


def runner(lane):
    return {
        "aarch64": ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"],
        "armv7": ["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"],
        "thumbv7neon": ["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"],
    }.get(lane, [])


def workdir(name):
    d = os.path.join(VERIF, "work", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def cargo_build(harness, lane, release=False, nightly=False, features=(), rustflags="", tag="", src=None,
                check_only=False, jobs=None, default=True):
    """Build harness/<harness> for a lane against /repo as it is now; returns (ok, bin dir, log)."""
    src = src or os.path.join(VERIF, "harness", harness)
    tdir = os.path.join(TARGET, f"{harness}-{lane}{tag}")
    forget_library(tdir)
    e = env()
    e["CARGO_TARGET_DIR"] = tdir
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    arm = lane in ("armv7", "thumbv7neon")
    tc = NIGHTLY if nightly or arm else STABLE
    cmd = ["cargo", "+" + tc, "check" if check_only else "build", "--offline", "--target", triple(lane)]
    if arm:
        cmd.append("-Zbuild-std")
    if release:
        cmd.append("--release")
    if not default:
        cmd.append("--no-default-features")
    if features:
        cmd += ["-F", ",".join(features)]
    if jobs:
        cmd += ["-j", str(jobs)]
    p = subprocess.run(cmd, cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, os.path.join(tdir, triple(lane), "release" if release else "debug"), p.stdout


def forget_library(tdir):
    """Make cargo rebuild the library whatever the time stamps in /repo say."""
    for base, dirs, _ in os.walk(tdir):
        if os.path.basename(base) == ".fingerprint":
            for d in list(dirs):
                if d.startswith("closure-ffi") or d.startswith("closure_ffi"):
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
            dirs[:] = []


def must(built, what):
    ok, path, log = built
    if not ok:
        raise ToolError(f"cannot build {what}:\n{log[-6000:]}")
    return path


# ---------------------------------------------------------------------------- TLC

def tlc(module, cfg_text, work, extra=(), env_extra=None, workers=1, timeout=800, heap="3g"):
    """Run TLC on a copy of the spec directory; returns (exit status, output)."""
    d = os.path.join(work, "tlc-" + module + "-" + str(len(os.listdir(work))) + "-" + os.urandom(3).hex())
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg_text)
    e = env()
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -XX:+UseParallelGC -XX:ParallelGCThreads=2 -XX:TieredStopAtLevel=4"
    e.update(env_extra or {})
    cmd = ["tlc", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "md"),
           "-config", "run.cfg", *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
    return p.returncode, p.stdout


def cfg(name, **over):
    """Committed configuration, with constants replaced."""
    text = open(os.path.join(SPEC, name + ".cfg")).read()
    for k, v in over.items():
        text, n = re.subn(rf"(?m)^  {k} = .*$", lambda m: f"  {k} = {v}", text)
        if n != 1:
            raise ToolError(f"no constant {k} in {name}.cfg")
    return text


def tla_set(xs):
    return "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x).upper() if isinstance(x, bool) else str(x)
                           for x in xs) + "}"


def states_of(out):
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def model_check(module, text, work, workers=4, timeout=800, extra=(), heap="6g"):
    """Exhaustive check that must pass; returns (distinct states, transitions)."""
    rc, out = tlc(module, text, work, workers=workers, timeout=timeout, extra=extra, heap=heap)
    gen, dist = states_of(out)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError(f"the specification {module} itself does not check:\n{out[-4000:]}")
    return dist, gen


def printed_json(out):
    """Values printed by PrintT(ToJson(..))."""
    res = []
    for line in out.splitlines():
        if line.startswith('"[') or line.startswith('"{'):
            res.append(json.loads(json.loads(line)))
    return res


# ---------------------------------------------------------------------------- verdicts

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.violations = []
        self.known = []
        self.coverage = {}
        self.assumptions = []
        self.work = workdir(prop)
        Check.current = self

    current = None

    def violation(self, what, replay):
        """replay: JSON value that lets somebody run the failing case again."""
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{len(self.violations) + 1}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, **replay}, f, indent=1)
        self.violations.append({"what": what, "replay": path})
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        print(f"  {what}", flush=True)

    def count(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def finish(self):
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.coverage, "assumptions": self.assumptions,
              "wall_s": round(time.time() - START, 1), "violations": self.violations}
        if self.known:
            ev["known_findings"] = self.known
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if not self.violations:
            print(f"{self.prop}: held ({ev['wall_s']} s)")
        return 1 if self.violations else 0


def parallel(fs, n=8):
    with cf.ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(g) for g in fs]]
