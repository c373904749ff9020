#!/usr/bin/env python3
"""Runtime-monitoring checks for IMProject/IMUtility.

  check.py <PROPERTY> [quick|thorough]     decide one property on /repo's working tree
  check.py <PROPERTY> --replay <file>      run the single failing case of a replay file again

Builds the library's sources (list taken from /repo/Makefile) together with the monitors in harness/ in the
configurations the property needs, runs the workloads in 8 processes per configuration and classifies what the
monitors and sanitizers report.  Exit 0: held; 1: VIOLATION; 2: the check itself could not give an answer.
"""
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MON_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
KNOWN = os.path.join(VERIF, "known-findings.txt")
JOBS = 8

NO_UB = "-fno-sanitize=pointer-overflow"
SAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fno-sanitize-recover=all"]
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in "memcpy memmove memset memcmp strlen strnlen strcmp strncmp strcpy strncpy strcat strncat memchr strchr strstr".split())]
# name -> (compiler, flags for the library, flags for the monitors, link flags)
CONFIGS = {
    "native": ("gcc", ["-O2", "-g"], ["-O2", "-g"], []),
    "asan": ("clang", SAN + ["-fsanitize=address,undefined", NO_UB + ",shift-base"], None, ["-fsanitize=address,undefined"]),
    # every kind of undefined behaviour, in the library only
    "ub": ("clang", ["-O0"] + SAN[1:] + ["-fsanitize=address,undefined", NO_UB],
           SAN + ["-fsanitize=address,undefined", NO_UB + ",shift-base"], ["-fsanitize=address,undefined"]),
    "msan": ("clang", SAN + ["-fsanitize=memory", "-fsanitize-memory-track-origins"], None, ["-fsanitize=memory"]),
    "tsan": ("clang", ["-O0", "-g", "-fsanitize=thread"], ["-O1", "-g", "-fsanitize=thread"], ["-fsanitize=thread"]),
    # signed overflow of index arithmetic traps, in the library only
    "ovf": ("clang", ["-O1", "-g", "-fsanitize=signed-integer-overflow,bounds", "-fsanitize-trap=all"], "native", []),
    # misaligned accesses in the library trap
    "align": ("clang", ["-O1", "-g", "-fsanitize=alignment", "-fsanitize-trap=all"], "native", []),
    # coverage and comparison feedback from the library for the guided stage
    "fuzz": ("clang", ["-O1", "-g", "-fno-builtin", "-fsanitize=fuzzer-no-link"], ["-O2", "-g", "-DMON_FUZZ"], ["-fsanitize=fuzzer-no-link"]),
    # stack, heap and system calls of every call
    "cost": ("gcc", ["-O2", "-g"], ["-O2", "-g", "-DMON_COST"], ["-Wl,-z,now"]),
    "cost-O0": ("gcc", ["-O0"], "cost", ["-Wl,-z,now"]),
    # executed edges of the library, bytes handled by libc for it
    "work": ("clang", ["-O0", "-g", "-fno-builtin", "-fsanitize-coverage=edge,trace-pc"], ["-O2", "-g", "-DMON_COST", "-DMON_WORK"], ["-Wl,-z,now"] + WRAP),
    "gcc-O0": ("gcc", ["-O0"], "native", []),
    "gcc-O3-uchar": ("gcc", ["-O3", "-funsigned-char", "-march=x86-64"], "native", []),
    "gcc-Os": ("gcc", ["-Os"], "native", []),
    "gcc-O3-native": ("gcc", ["-O3", "-funroll-loops"], "native", []),
    "clang-O0-uchar": ("clang", ["-O0", "-funsigned-char"], "native", []),
    "clang-O2": ("clang", ["-O2"], "native", []),
    "clang-O3-uchar": ("clang", ["-O3", "-funsigned-char"], "native", []),
    "clang-Os": ("clang", ["-Os"], "native", []),
    "gcc-O1-uchar": ("gcc", ["-O1", "-funsigned-char"], "native", []),
}
# other machines the library is built for (M12): compiler, flags, linker; x86 programs are started, MIPS ones interpreted
MACHINES = {
    "i386-gcc-O2": ("gcc", ["-m32", "-O2", "-fno-pic", "-fno-stack-protector"], ["-m", "elf_i386"]),
    "i386-clang-O1": ("clang", ["-m32", "-O1", "-fno-pic", "-funsigned-char"], ["-m", "elf_i386"]),
    "mips32-big-endian-O2": ("clang", ["-target", "mips-linux-gnu", "-march=mips32", "-O2", "-mno-abicalls", "-fno-pic", "-msoft-float", "-G0"],
                             ["--image-base=0x10000", "-e", "guest_serve"]),
    "mips64-big-endian-Os": ("clang", ["-target", "mips64-linux-gnuabi64", "-march=mips64", "-Os", "-mno-abicalls", "-fno-pic", "-msoft-float", "-G0"],
                             ["--image-base=0x10000", "-e", "guest_serve"]),
}
COMPILE_VARIANTS = ["gcc-O0", "gcc-O3-uchar", "gcc-Os", "gcc-O3-native", "clang-O0-uchar", "clang-O2", "clang-O3-uchar", "clang-Os", "gcc-O1-uchar"]

# property -> [(config, divisor of the sampled groups)]; the first one runs everything
PLAN = {
    "M01": [("native", 1), ("ub", 2)],
    # unoptimised code performs every access of the source
    "M02": [("native", 1), ("gcc-O0", 2), ("asan", 6)],
    "M03": [("native", 1), ("gcc-O0", 2), ("asan", 6)],
    "M04": [("native", 1), ("gcc-O0", 1), ("tsan", 1)],
    "M06": [("native", 1), ("gcc-O0", 2), ("msan", 1)],
    "M07": [("ovf", 1), ("native", 1)],
    "M08": [("native", 1)] + [(c, 1) for c in COMPILE_VARIANTS],
    "M09": [("cost", 1), ("cost-O0", 1)],
    "M10": [("work", 1)],
    "M11": [("native", 1), ("gcc-O3-native", 2), ("align", 2)],
    "M12": [("native", 1)],
    "Q05": [("native", 1), ("asan", 1)],
}
DEFAULT_PLAN = [("native", 1), ("asan", 6)]

# quick tier: how many times the base number of cases the cheap sampled groups run
MUL = {p: 10 for p in ("M08", "N02", "Q01", "Q02", "Q03", "Q04", "M09", "M10")}
MUL.update({p: 7 for p in ("M02", "M06", "C03", "E01", "S01", "J02")})
MUL["M12"] = 3
DEFAULT_MUL = 15

# properties without a guided stage: schedules, multi-GiB memory and a complete enumeration are no inputs to evolve
UNGUIDED = {"M04", "M07", "M09", "M10", "N05"}
GUIDED_TIME = {"quick": 12, "thorough": 1800}
LONGER_GUIDED = {"Q01": 40, "Q02": 20, "Q03": 20, "J01": 20, "J02": 25, "S01": 20, "C01": 18, "C02": 18, "E01": 18, "M02": 20}
GUIDED_RUNS = {"quick": 400000, "thorough": 100000000}

TIME_LIMIT = {"quick": 800, "thorough": 6 * 3600}


def die(msg):
    print("check.py: " + msg, flush=True)
    sys.exit(2)


# ------------------------------------------------------------------------------------------------ build
def repo_sources():
    """Sources and include directories, from the Makefile; every .c below Src if that cannot be read."""
    srcs, defs = [], []
    try:
        text = open(os.path.join(REPO, "Makefile"), encoding="utf-8", errors="replace").read()
        text = text.replace("\\\n", " ")
        for m in re.finditer(r"^\s*IMUTILITY_FILES\s*[:+?]?=\s*(.*)$", text, re.M):
            srcs += [w for w in m.group(1).split() if w.endswith(".c")]
    except OSError:
        pass
    srcs = [s for s in srcs if os.path.isfile(os.path.join(REPO, s))]
    if not srcs:
        srcs = [os.path.relpath(p, REPO) for p in glob.glob(REPO + "/Src/**/*.c", recursive=True)]
    incs = sorted({os.path.dirname(p) for p in glob.glob(REPO + "/Inc/**/*.h", recursive=True)}
                  | {os.path.dirname(p) for p in glob.glob(REPO + "/Src/**/*.h", recursive=True)})
    for v in ("GIT_BRANCH", "GIT_HASH", "GIT_TAG"):
        defs.append('-D%s="x"' % v)
    return sorted(set(srcs)), incs, defs


def constants(outdir, srcs, incs, defs):
    """Numbers and strings in the library's unoptimised machine code: values the workloads should not miss. They only steer
    inputs; those which occur more often than in harness/constants.base, a record of the repository as it was, are tried first."""
    def one(s):
        p = subprocess.run(["gcc", "-std=gnu99", "-w", "-O0", "-S", "-o", "-"] + defs + ["-I" + i for i in incs] + [os.path.join(REPO, s)],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        out, words = Counter(), Counter()
        for line in p.stdout.splitlines():
            line = line.strip()
            m = re.match(r'\.(?:string|ascii)\s+"([\x21\x23-\x5b\x5d-\x7e]+?)(?:\\0)?"$', line)
            if m and len(m.group(1)) < 32:
                words[m.group(1)] += 1
            if line.startswith(".") or "%rsp" in line:
                continue
            for m in re.findall(r"\$(-?\d+)\b", line):
                v = int(m)
                # short strings are compared and copied as one number
                t = (v & (2**64 - 1)).to_bytes(8, "little").rstrip(b"\0").decode("latin-1")
                if len(t) > 2 and re.fullmatch(r"[!#-\[\]-~]+", t):
                    words[t] += 1
                # bit masks say as much as the value behind them
                for x in (v, -v) if v < 0 else (v,):
                    out.update((x & 0xFFFFFFFF, (x + 1) & 0xFFFFFFFF) + ((x & 0xFFFF, x & 0xFF) if x < 0 else ()))
        return out, words
    vals, words = Counter(), Counter()
    with ThreadPoolExecutor(JOBS) as ex:
        for r, w in ex.map(one, srcs):
            vals += r
            words += w
    vals = {v: n for v, n in vals.items() if v > 2}
    lines = {"%d" % v: vals[v] for v in sorted(vals)}
    lines.update(("=" + w.encode().hex(), words[w]) for w in sorted(words))
    record = os.path.join(VERIF, "harness", "constants.base")
    if os.environ.get("MON_RECORD_CONSTANTS"):
        with open(record, "w") as f:
            f.write("".join("%s %d\n" % x for x in lines.items()))
    try:
        base = {k: int(n) for k, n in (x.split() for x in open(record))}
    except OSError:
        base = lines
    fresh = [x for x in lines if lines[x] > base.get(x, 0)]
    out = [x for x in lines if x[0] != "="][:2000] + ["+" + x for x in fresh if x[0] != "="][:256] + [x for x in fresh if x[0] == "="][:64]
    return put_constants(outdir, out), len(vals), len(fresh)


def put_constants(outdir, lines):
    path = os.path.join(outdir, "constants")
    with open(path, "w") as f:
        f.write("\n".join(map(str, lines)) + "\n")
    return path


class BuildError(Exception):
    pass


def fuzzer_runtime():
    d = subprocess.run(["clang", "--print-resource-dir"], stdout=subprocess.PIPE, text=True).stdout.strip()
    f = os.path.join(d, "lib/linux/libclang_rt.fuzzer_no_main-x86_64.a")
    return f if os.path.isfile(f) else None


def build(outdir, configs):
    srcs, incs, defs = repo_sources()
    inc = ["-I" + i for i in incs]
    warn = ["-std=gnu99", "-w"]
    hs = sorted(glob.glob(HARNESS + "/*.c"))
    jobs = []
    objs = {}

    def add(key, cmd, obj):
        objs.setdefault(key, []).append(obj)
        jobs.append(cmd + ["-o", obj])

    done = set()
    for cfg in configs:
        cc, lib, har, _ = CONFIGS[cfg]
        hkey = har if isinstance(har, str) else cfg
        for s in srcs:
            obj = os.path.join(outdir, cfg, "lib", s.replace("/", "__") + ".o")
            os.makedirs(os.path.dirname(obj), exist_ok=True)
            add((cfg, "lib"), [cc] + warn + lib + defs + inc + ["-c", os.path.join(REPO, s)], obj)
        if hkey in done:
            continue
        done.add(hkey)
        hcc, hlib, hflags, _ = CONFIGS[hkey]
        hflags = hlib if hflags is None else hflags
        for s in hs:
            obj = os.path.join(outdir, hkey, "mon", os.path.basename(s) + ".o")
            os.makedirs(os.path.dirname(obj), exist_ok=True)
            add((hkey, "mon"), [hcc] + warn + hflags + inc + ["-I" + HARNESS, "-c", s], obj)
    # longest first
    jobs.sort(key=lambda c: -os.path.getsize(c[c.index("-c") + 1]))

    def run(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])

    exes = {}
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(run, jobs))
        links = []
        for cfg in configs:
            cc, _, har, ld = CONFIGS[cfg]
            hkey = har if isinstance(har, str) else cfg
            exe = os.path.join(outdir, cfg, "mon.exe")
            exes[cfg] = exe
            links.append([cc] + ld + objs[(hkey, "mon")] + objs[(cfg, "lib")] + ([fuzzer_runtime(), "-lstdc++"] if cfg == "fuzz" else []) + ["-lpthread", "-lm", "-o", exe])
        list(ex.map(run, links))
    return exes, srcs


def build_machines(outdir):
    """Programs for other machines: the library, the call catalogue and a small C library. -> {name: path}, notes"""
    srcs, incs, defs = repo_sources()
    parts = [os.path.join(REPO, s) for s in srcs] + [os.path.join(HARNESS, s) for s in ("guest/guest.c", "guest/libc.c", "ops.c", "rng.c", "ref.c", "crc_variants.c")]
    own = {"gcc": subprocess.run(["gcc", "-print-file-name=include"], stdout=subprocess.PIPE, text=True).stdout.strip(),
           "clang": os.path.join(subprocess.run(["clang", "-print-resource-dir"], stdout=subprocess.PIPE, text=True).stdout.strip(), "include")}
    jobs = {}
    for name, (cc, flags, _) in MACHINES.items():
        d = os.path.join(outdir, "machine-" + name)
        os.makedirs(d)
        for s in parts:
            cmd = [cc, "-std=gnu99", "-w"] + flags + defs + ["-I" + i for i in incs] + ["-I" + HARNESS, "-nostdinc", "-isystem", os.path.join(HARNESS, "guest/include"), "-isystem", own[cc]]
            if s.endswith("/guest/libc.c"):
                cmd += ["-fno-builtin"] + (["-fno-tree-loop-distribute-patterns"] if cc == "gcc" else [])
            jobs.setdefault(name, []).append(cmd + ["-c", s, "-o", os.path.join(d, os.path.relpath(s, "/").replace("/", "__") + ".o")])

    def run(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return p.stdout[-1500:] if p.returncode != 0 else None

    done, notes = {}, []
    with ThreadPoolExecutor(JOBS) as ex:
        fut = {name: [ex.submit(run, c) for c in cmds] for name, cmds in jobs.items()}
        for name in jobs:
            errs = [f.result() for f in fut[name] if f.result() is not None]
            exe = os.path.join(outdir, "machine-" + name, "program")
            if not errs:
                e = run(["ld.lld", "-static"] + MACHINES[name][2] + [c[-1] for c in jobs[name]] + ["-o", exe])
                errs = [e] if e else []
            if errs:
                notes.append("no program for %s: %s" % (name, errs[0]))
            else:
                done[name] = exe
    return done, notes


# ------------------------------------------------------------------------------------------------ running
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=86:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=8192:quarantine_size_mb=32",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=86:halt_on_error=1",
    "MSAN_OPTIONS": "exitcode=86:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=86:halt_on_error=1:report_signal_unsafe=0",
}


class Shard:
    def __init__(self, cfg, exe, k, n, args, wd):
        self.cfg, self.k = cfg, k
        self.base = os.path.join(wd, "%s-%d" % (cfg, k))
        self.out = self.base + ".out"
        self.cmd = [exe] + args + ["--shard", "%d/%d" % (k, n), "--sigs", self.base + ".sigs", "--state", self.base + ".state"]
        self.proc = None

    def start(self):
        env = dict(os.environ)
        env.update(SAN_ENV)
        sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
        if sym:
            for k in SAN_ENV:
                env[k] += ":external_symbolizer_path=" + sym
        self.f = open(self.out, "wb")
        self.proc = subprocess.Popen(self.cmd, stdin=subprocess.DEVNULL, stdout=self.f, stderr=subprocess.STDOUT, env=env, start_new_session=True)

    def kill(self):
        if self.proc and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()

    def text(self):
        return open(self.out, "rb").read().decode("utf-8", "replace")

    def position(self):
        try:
            b = open(self.base + ".state", "rb").read(96)
            idx = struct.unpack("<Q", b[:8])[0]
            group = b[8:72].split(b"\0")[0].decode()
            return group, idx
        except (OSError, struct.error):
            return None, None


def verdict(rc, text):
    """-> (kind, message); kind in ok, violation, hang, error"""
    if rc == 0:
        return ("ok", "") if "MON-DONE" in text else ("error", "workload ended without finishing")
    m = re.search(r"^MON-VIOLATION .*$", text, re.M)
    if rc == 77 and m:
        notes = re.findall(r"^MON-NOTE (.*)$", text, re.M)
        return "violation", m.group(0) + ("" if not notes else " [" + "; ".join(notes[-8:]) + "]")
    if rc == 78:
        m = re.search(r"^MON-HANG .*$", text, re.M)
        return "hang", m.group(0) if m else "no progress"
    if rc == 70:
        m = re.search(r"^MON-HARNESS-ERROR.*$", text, re.M)
        return "error", m.group(0) if m else "harness error"
    if rc == 86:
        m = re.search(r"(==\d+==\s*(ERROR|WARNING): .*|^.*runtime error: .*|WARNING: ThreadSanitizer: .*)", text, re.M)
        frames = re.findall(r"^\s*#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", text, re.M)
        where = next(("%s %s" % f for f in frames if REPO + "/" in f[1]), "")
        return "violation", "sanitizer: " + (m.group(0).strip() if m else "report") + (" at " + where if where else "")
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT, signal.SIGTRAP):
        return "violation", "killed by signal %d (%s)" % (-rc, signal.Signals(-rc).name)
    return "error", "unexpected exit status %d: %s" % (rc, text[-600:])


def run_shards(shards, limit, width):
    """Runs the shards, `width` at a time; stops everything at the first bad one. -> list of bad (shard, kind, msg)"""
    pending = list(shards)
    running, bad = [], []
    t0 = time.time()
    while pending or running:
        while pending and len(running) < width:
            s = pending.pop(0)
            s.start()
            running.append(s)
        time.sleep(0.02)
        for s in list(running):
            rc = s.proc.poll()
            if rc is None:
                continue
            running.remove(s)
            s.f.close()
            kind, msg = verdict(rc, s.text())
            if kind != "ok":
                bad.append((s, kind, msg))
        if bad:
            # give the others a moment so that the report is the same on every run of a loaded machine
            for s in running:
                s.kill()
            return bad
        if time.time() - t0 > limit:
            for s in running:
                s.kill()
            s = running[0]
            return [(s, "error", "time limit of %d s reached at %s" % (limit, s.position()))]
    return bad


def single(exe, cfg, args, group, idx, wd, ticks=None):
    s = Shard(cfg, exe, 0, 1, args + ["--group", group, "--idx", str(idx)] + (["--ticks", str(ticks)] if ticks else []), wd)
    s.base += "-one"
    s.out = s.base + ".out"
    s.cmd[s.cmd.index("--sigs") + 1] = s.base + ".sigs"
    s.cmd[s.cmd.index("--state") + 1] = s.base + ".state"
    s.start()
    try:
        rc = s.proc.wait(timeout=700)
    except subprocess.TimeoutExpired:
        s.kill()
        return "hang", "no end after 700 s"
    s.f.close()
    return verdict(rc, s.text())


# ------------------------------------------------------------------------------------------------ findings
def known_findings(prop):
    """lines 'known: property=<id> key=<key> <what fails>' of the committed list"""
    out = []
    try:
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def save_replay(prop, info):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (prop, hashlib.sha1(json.dumps(info, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(info, f, indent=1)
        f.write("\n")
    return os.path.relpath(path, VERIF)


# ------------------------------------------------------------------------------------------------ evidence
def collect(shards):
    groups, events, samples, known = {}, {}, [], {}
    cases = nontrivial = judged = 0
    sigs = set()
    for s in shards:
        for line in s.text().splitlines():
            w = line.split(" ", 1)
            if w[0] == "MON-GROUP":
                n, c = w[1].rsplit(" ", 1)
                groups[n] = groups.get(n, 0) + int(c)
            elif w[0] == "MON-EVENT":
                n, c = w[1].rsplit(" ", 1)
                events[n] = events.get(n, 0) + int(c)
            elif w[0] == "MON-SAMPLE":
                samples.append(w[1])
            elif w[0] == "MON-KNOWN":
                n, c = w[1].rsplit(" ", 1)
                known[n] = known.get(n, 0) + int(c)
            elif w[0] == "MON-DONE":
                m = re.match(r"cases=(\d+) nontrivial=(\d+) judged=(\d+)", w[1])
                cases += int(m.group(1))
                nontrivial += int(m.group(2))
                judged += int(m.group(3))
        try:
            b = open(s.base + ".sigs", "rb").read()
            sigs.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError:
            pass
    return {"groups": groups, "events": events, "samples": samples, "known": known, "cases": cases, "nontrivial": nontrivial, "judged": judged, "sigs": sigs}


def single_input(exe, cfg, args, data, wd, ticks=None):
    f = os.path.join(wd, "one.input")
    with open(f, "wb") as o:
        o.write(data)
    with open(f + "s", "w") as o:
        o.write(f + "\n")
    s = Shard(cfg, exe, 0, 1, args + ["--inputs", f + "s"] + (["--ticks", str(ticks)] if ticks else []), wd)
    s.base += "-in"
    s.out = s.base + ".out"
    s.cmd[s.cmd.index("--sigs") + 1] = s.base + ".sigs"
    s.cmd[s.cmd.index("--state") + 1] = s.base + ".state"
    s.start()
    try:
        rc = s.proc.wait(timeout=700)
    except subprocess.TimeoutExpired:
        s.kill()
        return "hang", "no end after 700 s"
    s.f.close()
    return verdict(rc, s.text())


def guided_workers(prop, exes, base, seed, tier, wd):
    """Inputs evolved by coverage and comparison feedback of the library (libFuzzer drives the same cases and oracles)."""
    workers = []
    guided_time = LONGER_GUIDED.get(prop, GUIDED_TIME[tier]) if tier == "quick" else GUIDED_TIME[tier]
    for k in range(JOBS):
        d = os.path.join(wd, "corpus-%d" % k)
        os.makedirs(d)
        dump = os.path.join(wd, "dump-%d" % k)
        fz = ["-seed=%d" % (seed * 64 + k + 1), "-runs=%d" % (GUIDED_RUNS["thorough" if "MON_GUIDED_TIME" in os.environ else tier]), "-max_total_time=%d" % int(os.environ.get("MON_GUIDED_TIME", guided_time)), "-max_len=%d" % (600 if k % 4 else 4000), "-len_control=0",
              "-verbosity=0", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-timeout=0", "-detect_leaks=0", "-use_value_profile=%d" % (k % 2), "-artifact_prefix=" + dump + "."]
        a = list(base) + ["--guided", d, "--dump", dump]
        for f in fz:
            a += ["--fuzz-arg", f]
        s = Shard("fuzz", exes["fuzz"], k, JOBS, a, wd)
        s.dump, s.corpus = dump, d
        workers.append(s)
    return workers


def guided_violation(prop, pinfo, exes, base, seed, tier, wd, s, kind, msg):
    if kind == "error":
        die("%s worker %d: %s" % (s.cfg, s.k, msg))
    data = open(s.dump, "rb").read() if os.path.exists(s.dump) else None
    again = None
    if data is not None:
        again = single_input(exes[s.cfg], s.cfg, base, data, wd, ticks=60 if kind == "hang" else None)
    if kind == "hang" and (again is None or again[0] not in ("hang", "violation")):
        die("%s worker %d: %s (a repetition of the case ended normally)" % (s.cfg, s.k, msg))
    m = re.search(r"group=(\S+)", msg)
    return {"property": prop, "title": pinfo["title"], "config": s.cfg, "group": m.group(1) if m else None, "idx": None, "seed": seed, "tier": tier, "what": msg,
            "input": data.hex() if data is not None else None, "reproduced_alone": bool(again and again[0] in ("violation", "hang")), "log_tail": s.text()[-6000:]}


def run_kept(prop, pinfo, plan, exes, base, seed, tier, wd, shards, workers):
    """Everything the guided stage kept runs in the other builds too."""
    files = sorted(os.path.join(w.corpus, f) for w in workers for f in os.listdir(w.corpus))
    lst = os.path.join(wd, "inputs")
    with open(lst, "w") as f:
        f.write("".join(x + "\n" for x in files))
    rest = [c for c, _ in plan if c != "native" or prop == "M08"]
    again = []
    for cfg in rest:
        for k in range(JOBS):
            dump = os.path.join(wd, "redump-%s-%d" % (cfg, k))
            a = list(base) + ["--inputs", lst, "--dump", dump]
            if prop == "M08":
                a += ["--digests", os.path.join(wd, "in-%s-%d.dig" % (cfg, k))]
            s = Shard(cfg, exes[cfg], k, JOBS, a, wd)
            s.base += "-kept"
            s.out = s.base + ".out"
            s.cmd[s.cmd.index("--sigs") + 1] = s.base + ".sigs"
            s.cmd[s.cmd.index("--state") + 1] = s.base + ".state"
            s.dump = dump
            again.append(s)
    bad = run_shards(again, TIME_LIMIT[tier], JOBS)
    shards += again
    for s, kind, msg in bad:
        return guided_violation(prop, pinfo, exes, base, seed, tier, wd, s, kind, msg)
    if prop == "M08":
        for cfg in rest[1:]:
            for k in range(JOBS):
                x = open(os.path.join(wd, "in-%s-%d.dig" % (rest[0], k)), "rb").read()
                y = open(os.path.join(wd, "in-%s-%d.dig" % (cfg, k)), "rb").read()
                if len(x) != len(y):
                    die("digest streams of %s and %s differ in length" % (rest[0], cfg))
                if x != y:
                    i = next(i for i in range(0, len(x), 8) if x[i:i + 8] != y[i:i + 8]) // 8
                    data = open(files[k + i * JOBS], "rb").read()
                    return {"property": "M08", "title": pinfo["title"], "config": cfg, "group": None, "idx": None, "seed": seed, "tier": tier, "input": data.hex(),
                            "what": "results of a kept input differ between gcc -O2 (signed char) and " + cfg, "reproduced_alone": False, "log_tail": ""}
    return None


def main():
    if len(sys.argv) < 2:
        die("usage: check.py <PROPERTY> [quick|thorough] | --replay <file>")
    prop = sys.argv[1]
    rest = sys.argv[2:]
    replay = None
    tier = os.environ.get("VERIF_TIER", "quick")
    if rest and rest[0] == "--replay":
        replay = json.load(open(rest[1]))
    elif rest:
        tier = rest[0]
    if tier not in ("quick", "thorough"):
        die("unknown tier " + tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    props = {}
    for line in open(os.path.join(VERIF, "properties.jsonl"), encoding="utf-8"):
        d = json.loads(line)
        props[d["id"]] = d
    if prop not in props:
        die("unknown property " + prop)
    wd = os.path.join(VERIF, "build", "%s-%d" % (prop, os.getpid()))
    os.makedirs(wd)
    try:
        rc = run_check(prop, props[prop], tier, seed, replay, wd, t0)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)


def run_check(prop, pinfo, tier, seed, replay, wd, t0):
    plan = PLAN.get(prop, DEFAULT_PLAN)
    if replay:
        plan = [p for p in plan if p[0] in (replay["config"], "native")]
        seed, tier = replay["seed"], replay["tier"]
    try:
        guided = prop not in UNGUIDED and fuzzer_runtime() is not None and not os.environ.get("MON_NO_GUIDED")
        exes, srcs = build(wd, [c for c, _ in plan] + (["fuzz"] if guided else []))
    except BuildError as e:
        die("build failed:\n" + str(e))
    t_build = time.time() - t0
    if replay and "constants" in replay:
        dict_file, n_dict, n_fresh = put_constants(wd, replay["constants"]), 0, 0
    else:
        dict_file, n_dict, n_fresh = constants(wd, *repo_sources())
    known = known_findings(prop)
    base = ["--dict", dict_file] + ["--prop", prop, "--seed", str(seed)] + (["--thorough"] if tier == "thorough" else ["--mul", os.environ.get("MON_MUL", str(MUL.get(prop, DEFAULT_MUL)))])
    for k, _ in known:
        base += ["--known", k]
    machines = {}
    if prop == "M12":
        machines, notes = build_machines(wd)
        for n in notes:
            print("note: " + n)
        if not machines:
            die("the library builds for none of the other machines")
        for n, f in machines.items():
            base += ["--machine", n + ":" + f]

    if replay:
        if replay.get("group") is None and not replay.get("input"):
            die("replay file names no case: run the check itself")
        if replay["config"] != "native" and prop == "M08":
            return replay_digest(exes, replay, base, wd, prop)
        if replay.get("input"):
            kind, msg = single_input(exes[replay["config"]], replay["config"], base, bytes.fromhex(replay["input"]), wd)
        else:
            kind, msg = single(exes[replay["config"]], replay["config"], base, replay["group"], replay["idx"], wd)
        print("%s: %s" % (kind, msg))
        if kind in ("violation", "hang"):
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(sys.argv[3], VERIF) if os.path.isabs(sys.argv[3]) else sys.argv[3]))
            return 1
        return 0 if kind == "ok" else 2

    shards = []
    for cfg, div in plan:
        for k in range(JOBS):
            a = list(base) + (["--div", str(div)] if div != 1 else [])
            if prop == "M08":
                a += ["--digests", os.path.join(wd, "%s-%d.dig" % (cfg, k))]
            s = Shard(cfg, exes[cfg], k, JOBS, a, wd)
            s.args = base
            shards.append(s)
    if prop == "M07":
        shards.sort(key=lambda s: (s.k - 2) % JOBS)    # the longest cases are in shards 2 and 3
    workers = guided_workers(prop, exes, base, seed, tier, wd) if guided else []
    width = int(os.environ.get("MON_WIDTH", JOBS))
    bad = run_shards(shards + workers, TIME_LIMIT[tier], width)
    violation = None
    for s, kind, msg in bad:
        if s.cfg == "fuzz":
            violation = guided_violation(prop, pinfo, exes, base, seed, tier, wd, s, kind, msg)
            break
        group, idx = s.position()
        m = re.search(r"group=(\S+) idx=(\d+)", msg)
        if m and m.group(1) != "?":
            group, idx = m.group(1), int(m.group(2))
        if kind == "error":
            die("%s shard %d: %s" % (s.cfg, s.k, msg))
        again = None
        if group:
            again = single(exes[s.cfg], s.cfg, base, group, idx, wd, ticks=60 if kind == "hang" else None)
        if kind == "hang" and (again is None or again[0] not in ("hang", "violation")):
            die("%s shard %d: %s (a repetition of the case ended normally)" % (s.cfg, s.k, msg))
        violation = {"property": prop, "title": pinfo["title"], "config": s.cfg, "group": group, "idx": idx, "seed": seed, "tier": tier, "what": msg,
                     "reproduced_alone": bool(again and again[0] in ("violation", "hang")), "log_tail": s.text()[-6000:]}
        break
    if violation is None and prop == "M08":
        violation = compare_digests(plan, wd, seed, tier, pinfo, shards)
    shards += workers
    if violation is None and guided:
        violation = run_kept(prop, pinfo, plan, exes, base, seed, tier, wd, shards, workers)
    if violation:
        violation["constants"] = open(dict_file).read().split()
        path = save_replay(prop, violation)
        print(violation["what"])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    per = {}
    tot = {"cases": 0, "evals": 0}
    sigs = set()
    samples, known_hits = [], {}
    for cfg in [c for c, _ in plan] + (["fuzz"] if guided else []):
        c = collect([s for s in shards if s.cfg == cfg and s.proc is not None])
        per[cfg] = {"cases": c["cases"], "nontrivial_cases": c["nontrivial"], "judged": c["judged"], "groups": c["groups"], "events": c["events"]}
        tot["cases"] += c["cases"]
        tot["evals"] += c["judged"] + c["cases"] - c["nontrivial"]
        sigs |= c["sigs"]
        if len(samples) < 12:
            samples += [x for i, x in enumerate(c["samples"]) if i < 40]
        for k, n in c["known"].items():
            known_hits[k] = known_hits.get(k, 0) + n
    if violation is None:
        for k, what in known:
            if known_hits.get(k, 0):
                print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, what, known_hits[k]))
            else:
                print("note: listed finding %s of %s was not observed in this run" % (k, prop))
    # one sample per group first
    seen, picked = set(), []
    for x in samples:
        g = x.split("#")[0]
        if g not in seen:
            seen.add(g)
            picked.append(x)
    picked += [x for x in samples if x not in picked][:max(0, 10 - len(picked))]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["evals"],
            "distinct_nontrivial": len(sigs),
            "rule": RULES.get(prop, RULE),
            "samples": picked[:16] or ["(no sample: the run stopped at a violation)"],
            "configurations": per,
            "library_sources": len(srcs),
            "constants_from_machine_code": n_dict,
            "constants_not_in_the_record": n_fresh,
            "build_s": round(t_build, 2),
            **({"machines": sorted(machines)} if machines else {}),
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", "%s.json.tmp%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    if violation:
        return 1
    if tot["cases"] == 0:
        die("no case was executed")
    print("ok: %s held in %d cases (%d distinct non-trivial) over %s, %.1f s (build %.1f s)" % (
        prop, tot["cases"], len(sigs), ", ".join([c for c, _ in plan] + (["guided"] if guided else [])), time.time() - t0, t_build))
    return 0


RULE = ("Cases are numbered per workload group (see configurations.*.groups) and derived from VERIF_SEED, the group and the number; groups that enumerate a finite "
        "space run completely. An evaluation is one input or history the oracles judged (a case makes one or many, summed over all configurations). A case is non-trivial when the monitor judged at least one result of the library that an oracle predicted (for histories: at least one "
        "state-changing operation); distinct counts different signatures of the inputs or visited states, over all configurations, each process recording at most 131072.")
RULES = {
    "M08": "As a case, one random documented call sequence is run in each build of the library; its digest covers every returned value and every output byte. Distinct counts different result digests or inputs; a case is non-trivial when it produced at least one result.",
    "M04": "A case is one set of jobs run nested, preempted at instruction boundaries (single-stepping the real code) or in parallel threads; it is non-trivial when another call really ran in between or at the same time; distinct counts (job pair, preemption point class) signatures.",
}


def compare_digests(plan, wd, seed, tier, pinfo, shards):
    ref = "native"
    for cfg, _ in plan:
        if cfg == ref:
            continue
        for k in range(JOBS):
            a = open(os.path.join(wd, "%s-%d.dig" % (ref, k)), "rb").read()
            b = open(os.path.join(wd, "%s-%d.dig" % (cfg, k)), "rb").read()
            if len(a) != len(b):
                die("digest streams of %s and %s differ in length" % (ref, cfg))
            if a != b:
                i = next(i for i in range(0, len(a), 8) if a[i:i + 8] != b[i:i + 8]) // 8
                # position in the shard's schedule -> group and index
                text = next(s for s in shards if s.cfg == ref and s.k == k).text()
                group, idx, pos = None, None, i
                for g, n in re.findall(r"^MON-GROUP (\S+) (\d+)$", text, re.M):
                    if pos < int(n):
                        group, idx = g, k + pos * JOBS
                        break
                    pos -= int(n)
                return {"property": "M08", "title": pinfo["title"], "config": cfg, "group": group, "idx": idx, "seed": seed, "tier": tier,
                        "what": "results of case %s#%s differ between gcc -O2 (signed char) and %s" % (group, idx, cfg), "reproduced_alone": False, "log_tail": ""}
    return None


def replay_digest(exes, replay, base, wd, prop):
    digs = {}
    for cfg in ("native", replay["config"]):
        f = os.path.join(wd, cfg + ".dig")
        if replay.get("input"):
            kind, msg = single_input(exes[cfg], cfg, base + ["--digests", f], bytes.fromhex(replay["input"]), wd)
        else:
            kind, msg = single(exes[cfg], cfg, base + ["--digests", f], replay["group"], replay["idx"], wd)
        if kind != "ok":
            print(kind, msg)
            return 2 if kind == "error" else 1
        digs[cfg] = open(f, "rb").read()
    same = len(set(digs.values())) == 1
    print("digests %s" % ("agree" if same else "differ"))
    if not same:
        print("VIOLATION property=%s replay=%s" % (prop, sys.argv[3]))
    return 0 if same else 1


if __name__ == "__main__":
    main()
