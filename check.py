#!/usr/bin/env python3
"""Decides one property: builds its harness from /repo's working tree, runs it, writes the evidence.

    check.py ID [--tier quick|thorough] [--seed N] [--scale X] [--only PROP] [--keep]
    check.py ID --replay FILE        replays a saved failing case
    check.py --build-all             compiles everything (warms the object cache)

Exit 0: held. Exit 1: 'VIOLATION property=ID replay=FILE' printed. Exit 2: the check itself went wrong.
"""
import argparse
import hashlib
import json
import os
import re
import shlex
import shutil
import struct
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF + "/lib")
from registry import CHECKS  # noqa: E402

JOBS = 8
BUILD = VERIF + "/.build"
OUT = VERIF + "/out"
MPI_INC = "-DOMPI_SKIP_MPICXX -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"
LIBS = "-lfftw3f -lfftw3 -lopenblas -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi -pthread"
COMMON = f"-std=gnu++14 -w -pthread -I{VERIF}/include -I{REPO}/src -I{VERIF}/lib -I{VERIF}/harness {MPI_INC}"
FLAVOURS = {
    # memory errors become visible failures
    "asan": ("g++", "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS"),
    # the same, quickest to compile (falls back to asan where clang does not accept the code)
    "asan0": ("clang++", "-O0 -gline-tables-only -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS"),
    # as the project builds it
    "plain": ("g++", "-O2 -g1"),
    # quick to compile
    "o0": ("g++", "-O0 -g1"),
    "tsan": ("clang++", "-O0 -gline-tables-only -fsanitize=thread"),
    "fuzz": ("clang++", "-O1 -g1 -fsanitize=fuzzer,address -fno-omit-frame-pointer -DPBT_FUZZ -D_GLIBCXX_ASSERTIONS"),
}
# The library's own translation units in this configuration (threading, MPI, FFTW, LAPACK).
LIB_DIRS = ["src/ovxx", "src/ovxx/signal"]
LIB_FILES = ["src/ovxx/mpi/group.cpp", "src/ovxx/mpi/communicator.cpp", "src/ovxx/mpi/service.cpp",
             "src/ovxx/parallel/copy_chain.cpp", "src/ovxx/fftw/fft.cpp"]
LIB_SKIP = {"src/ovxx/huge_page_allocator.cpp"}  # as in src/ovxx/Makefile.in

ENV = dict(os.environ)
ENV.update(
    OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LC_ALL="C",
    OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1",
    OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm="isolated",
    OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
    OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_ess_singleton_isolated="1",
    ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:max_malloc_fill_size=1048576:malloc_fill_byte=190:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0",
    TSAN_OPTIONS="exitcode=97:halt_on_error=1",
)


class CheckError(Exception):
    pass


# ---------------------------------------------------------------------------------------- build
_digest = {}


def digest(path):
    if path not in _digest:
        try:
            with open(path, "rb") as f:
                _digest[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _digest[path] = "-"
    return _digest[path]


def compile_one(src, flavour, defs, optional=False):
    """Compiles src; reuses an object only if every file it was made from has the same content."""
    cxx, fl = FLAVOURS[flavour]
    cmd = f"{cxx} {fl} {defs} {COMMON} -c {src}"
    key = hashlib.sha256(cmd.encode()).hexdigest()[:20]
    base = f"{BUILD}/{os.path.basename(src)}.{flavour}.{key}"
    obj, man = base + ".o", base + ".deps"
    try:
        with open(man) as f:
            deps = json.load(f)
        if os.path.exists(obj) and all(digest(p) == h for p, h in deps.items()):
            return obj
    except (OSError, ValueError):
        pass
    p = subprocess.run(f"{cmd} -MMD -MF {base}.d -o {obj}.tmp", shell=True, capture_output=True, text=True, env=ENV)
    if p.returncode:
        if optional:
            return None
        raise CheckError(f"{src} does not compile:\n{p.stderr[:2500]}")
    text = open(base + ".d").read().replace("\\\n", " ")
    files = [x for x in shlex.split(text.split(":", 1)[1]) if not x.startswith(("/usr/", "/lib/"))]
    os.replace(obj + ".tmp", obj)
    with open(man + ".tmp", "w") as f:
        json.dump({x: digest(x) for x in files}, f)
    os.replace(man + ".tmp", man)
    os.remove(base + ".d")
    return obj


def lib_sources():
    srcs = []
    for d in LIB_DIRS:
        full = f"{REPO}/{d}"
        srcs += [f"{d}/{f}" for f in sorted(os.listdir(full)) if f.endswith(".cpp")]
    srcs += [f for f in LIB_FILES if os.path.exists(f"{REPO}/{f}")]
    # config.hpp's choice, as in the Makefile: vsip/support.cpp is not part of it
    return [s for s in srcs if s not in LIB_SKIP]


def build(check, flavour, main_defs=""):
    if flavour == "asan0":
        try:
            return build1(check, flavour, main_defs)
        except CheckError:
            return build1(check, "asan", main_defs)
    return build1(check, flavour, main_defs)


def generate(check):
    """Units of generated programs: a function of the seed (and of how many the tier asks for)."""
    gen = check.get("gen")
    if not gen:
        return []
    seed, tier = check.get("gen_used", (1, "quick"))
    os.makedirs(BUILD + "/gen", exist_ok=True)
    out = []
    for k in range(gen[tier]):
        out.append(f"{BUILD}/gen/{check['id']}_s{seed}_u{k}.cpp")
        p = subprocess.run([sys.executable, f"{VERIF}/lib/{gen['script']}", str(seed), str(k), str(gen["count"]), out[-1]], capture_output=True, text=True)
        if p.returncode:
            raise CheckError(gen["script"] + ": " + p.stderr[-2000:])
    return out


def build1(check, flavour, main_defs=""):
    """-> (binary, list of optional units that did not compile)"""
    os.makedirs(BUILD, exist_ok=True)
    base = (f"-I{VERIF}/config/{check['config']} " if check.get("config") else "") + check.get("defs", "")  # another configuration's config.hpp comes first
    defs = base + (" -DPBT_MPI" if check.get("mpi") else "") + " " + main_defs
    jobs = []
    units = [(f"{VERIF}/harness/{u}", u in check.get("optional", ())) for u in check["units"]] + [(u, False) for u in generate(check)]
    for u, opt in sorted(units, key=lambda u: -os.path.getsize(u[0])):
        jobs.append((u, flavour, defs, opt))
    if not check.get("nolib"):
        jobs += [(f"{REPO}/{s}", flavour, base, False) for s in lib_sources() if not (check.get("config") == "serial" and "/mpi/" in s)]
    jobs.append((f"{VERIF}/lib/main.cpp", flavour, defs, False))
    for s in check.get("extra", ()):
        jobs.append((f"{REPO}/{s}", flavour, base, False))
    mods = check.get("modules", ())
    for s in mods:
        jobs.append((f"{REPO}/{s}", flavour, base + " -fPIC", False))
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    if mods:
        link_modules(check, flavour, mods, objs[-len(mods):])
        del objs[-len(mods):], jobs[-len(mods):]
    missing = [os.path.basename(j[0]) for j, o in zip(jobs, objs) if o is None]
    objs = [o for o in objs if o]
    cxx, fl = FLAVOURS[flavour]
    h = hashlib.sha256("|".join(objs + [digest_fresh(o) for o in objs]).encode()).hexdigest()[:16]
    exe = f"{BUILD}/{check['id']}.{flavour}.{h}"
    if not os.path.exists(exe):
        cmd = f"{cxx} {fl} -o {exe}.tmp {' '.join(objs)} {check.get('libs', '')} {LIBS}"
        p = subprocess.run(cmd, shell=True, capture_output=True, text=True, env=ENV)
        if p.returncode:
            raise CheckError("link failed:\n" + p.stderr[:2500])
        os.replace(exe + ".tmp", exe)
    return exe, missing


def link_modules(check, flavour, srcs, objs):
    """Extension modules, each a shared object at the place its source has below /repo; the harness finds them by the environment."""
    cxx, fl = FLAVOURS[flavour]
    d = f"{BUILD}/{check['id']}.{flavour}.mods." + hashlib.sha256("|".join([digest_fresh(o) for o in objs] + list(srcs)).encode()).hexdigest()[:16]
    check["env"] = {"PBT_MODULES": d, "PBT_LAWS": f"{VERIF}/harness"}

    def link(j):
        out = f"{d}/{os.path.splitext(j[0])[0]}.so"
        if os.path.exists(out):
            return
        os.makedirs(os.path.dirname(out), exist_ok=True)
        p = subprocess.run(f"{cxx} {fl} -shared -o {out}.tmp {j[1]} {check.get('modlibs', '')}", shell=True, capture_output=True, text=True, env=ENV)
        if p.returncode:
            raise CheckError("link failed:\n" + p.stderr[:2500])
        os.replace(out + ".tmp", out)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(link, zip(srcs, objs)))


def digest_fresh(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


# ---------------------------------------------------------------------------------------- run
def launch(check, exe, args, nproc, scratch, timeout, runner=None):
    """Runs a harness; once more if MPI itself could not start (nothing has been tested then)."""
    rc, text = launch1(check, exe, args, nproc, scratch, timeout, runner)
    if rc not in (0, "timeout") and ("An error occurred in MPI_Init" in text or "orte_init failed" in text):
        time.sleep(1)
        rc, text = launch1(check, exe, args, nproc, scratch, timeout, runner)
    return rc, text


def launch1(check, exe, args, nproc, scratch, timeout, runner=None):
    env = dict(ENV)
    env.update(check.get("env", {}))
    # a session directory of its own: Open MPI processes starting at the same moment race for a shared one
    env["TMPDIR"] = tempfile.mkdtemp(dir=scratch, prefix="t")
    cmd = (runner or []) + [exe] + args
    if check.get("mpi"):
        cmd = ["mpirun", "-np", str(nproc)] + cmd
    log = tempfile.NamedTemporaryFile(dir=scratch, suffix=".log", delete=False)
    p = subprocess.Popen(cmd, cwd=scratch, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log, start_new_session=True)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        rc = "timeout"
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass
    p.wait()
    log.close()
    text = open(log.name, errors="replace").read()
    return rc, text


def read_progress(path):
    try:
        with open(path, "rb") as f:
            prop, idx, n, done = struct.unpack("<4Q", f.read(32))
            c = struct.unpack(f"<{n}Q", f.read(8 * n))
        return prop, idx, list(c), done
    except (OSError, struct.error):
        return None


def why(text, rc):
    for pat in (r"==\d+==ERROR: AddressSanitizer: [^\n]*", r"[^\n]*Assertion [^\n]* failed[^\n]*", r"[^\n]*runtime error[^\n]*",
                r"WARNING: ThreadSanitizer: [^\n]*", r"PBT: case exceeded[^\n]*", r"terminate called[^\n]*(\n[^\n]*what[^\n]*)?"):
        m = re.search(pat, text)
        if m:
            return re.sub(r"^==\d+==", "", m.group(0)).strip()
    tail = [x for x in text.strip().splitlines() if x][-3:]
    return f"process ended with {rc}: " + " | ".join(tail)


class Runner:
    def __init__(self, check, exe, nproc, scratch):
        self.check, self.exe, self.nproc, self.scratch = check, exe, nproc, scratch
        self.k = 0

    def replay(self, prop, choices, allow_known=False, shrink=False):
        """-> None if the case holds, otherwise {prop, choices, msg, case}"""
        self.k += 1
        base = f"{self.scratch}/r{os.getpid()}_{self.nproc}_{self.k}_{id(self)}"
        with open(base, "w") as f:
            f.write(prop + " " + " ".join(map(str, choices)) + "\n")
        args = ["--replay", base, "--out", base + ".out"] + (["--allow-known"] if allow_known else []) + (["--shrink"] if shrink else [])
        rc, text = launch(self.check, self.exe, args, self.nproc, self.scratch, 400)
        if rc == 0:
            return None
        best = None
        for r in [""] + [f".{i}" for i in range(1, self.nproc)]:
            try:
                d = json.load(open(base + ".out" + r))
            except (OSError, ValueError):
                continue
            if best is None or best["msg"].startswith("("):
                best = d
        if best is not None:
            return best
        if rc == 2:
            raise CheckError("replay: " + text[-2000:])
        try:
            notes = open(base + ".out.notes").read() + " ..."
        except OSError:
            notes = ""
        return {"prop": prop, "choices": choices, "msg": why(text, rc), "case": notes, "crash": True, "log": text[-6000:]}

    def shrink_crash(self, prop, choices, budget=40):
        """A case that ends the process: every candidate is a process of its own."""
        c = list(choices)
        cur = self.replay(prop, c)
        if cur is None:
            return None
        if not cur.get("crash"):
            return self.replay(prop, c, shrink=True) or cur
        if "CPU time limit" in cur["msg"]:
            budget = 0
        changed = True
        while changed and budget > 0:
            changed = False
            w = max(1, len(c) // 2)
            while w >= 1 and budget > 0:
                i = 0
                while i < len(c) and budget > 0:
                    for d in (c[:i] + c[i + w:], c[:i] + [0] * len(c[i:i + w]) + c[i + w:]):
                        if d == c or budget <= 0:
                            continue
                        budget -= 1
                        r = self.replay(prop, d)
                        if r is not None and r.get("crash"):
                            c, cur, changed = d, r, True
                            break
                    else:
                        i += w
                        continue
                    if len(d) == len(choices):
                        i += w
                w //= 2
        return cur


def run_shards(check, exe, nproc, scratch, seed, tier, scale, only, cap):
    nsh = max(1, min(JOBS, JOBS // nproc)) if not check.get("shards") else check["shards"]
    results, failures = [], []

    def one(sh):
        base = f"{scratch}/s{nproc}_{sh}"
        args = ["--run", "--seed", str(seed), "--tier", tier, "--shard", str(sh), "--nshards", str(nsh),
                "--progress", base + ".prog", "--out", base + ".json", "--scale", str(scale)]
        if only:
            args += ["--prop", only]
        rc, text = launch(check, exe, args, nproc, scratch, cap)
        return sh, rc, text, base

    with ThreadPoolExecutor(nsh) as ex:
        for sh, rc, text, base in ex.map(one, range(nsh)):
            data = None
            for r in [""] + [f".{i}" for i in range(1, nproc)]:
                try:
                    d = json.load(open(base + ".json" + r))
                except (OSError, ValueError):
                    continue
                if data is None:
                    data = d
                for p, q in zip(d["props"], data["props"]):
                    if "failure" in p and ("failure" not in q or q["failure"]["msg"].startswith("(")):
                        q["failure"] = p["failure"]
            if rc in (0, 1) and data is not None:
                results.append(data)
                for p in data["props"]:
                    if "failure" in p:
                        failures.append(dict(p["failure"], shard=sh, nshards=nsh, nproc=nproc))
                continue
            if rc == "timeout":
                pr = read_progress(base + ".prog")
                raise CheckError(f"no answer within {cap} s (shard {sh}, np {nproc}, at {pr and pr[:2]})\n{text[-2000:]}")
            pr = read_progress(base + ".prog")
            if pr is None or pr[3]:
                if pr and pr[3] and data is not None and rc not in (0, 1):
                    failures.append({"prop": "(shutdown)", "choices": [], "msg": "ended badly after the last case: " + why(text, rc),
                                     "case": "", "shard": sh, "nshards": nsh, "nproc": nproc, "crash": True, "whole": True})
                    continue
                if pr is None and (rc in (97, 98, 134, 136, 139) or rc < 0) and "MPI_Init" not in text and "orte_init" not in text:
                    failures.append({"prop": "(startup)", "choices": [], "msg": "the library ended the process before the first case: " + why(text, rc),
                                     "case": "", "shard": sh, "nshards": nsh, "nproc": nproc, "crash": True, "whole": True})
                    continue
                raise CheckError(f"the harness ended with {rc} before its first case:\n{text[-3000:]}")
            names = [x.split()[0] for x in subprocess.run([exe, "--list"], capture_output=True, text=True, env=ENV).stdout.splitlines()]
            failures.append({"prop": names[pr[0]], "case_no": pr[1], "choices": pr[2], "msg": why(text, rc), "case": "",
                             "shard": sh, "nshards": nsh, "nproc": nproc, "crash": True, "log": text[-4000:]})
    return results, failures


def confirm(check, exe, f, scratch, seed, tier, scale, cap):
    """Replays the case (in a process of its own); if it needs the history before it, its whole shard. A failed oracle, an assertion or a
    sanitizer's report has to come back once in several tries (it may depend on a schedule or on what memory held), anything else, such as
    a case that took too long, most of the times."""
    r = Runner(check, exe, f["nproc"], scratch)
    firm = not f.get("crash") or any(x in f["msg"] for x in ("Sanitizer", "Assertion", "runtime error", "terminate called"))
    tries, need, shards, again_need = (3, 2, 2, 2) if not firm else (24, 1, 6, 1) if check.get("races") else (5, 1, 3, 1)
    if not f.get("whole"):
        if f.get("crash"):
            s = r.shrink_crash(f["prop"], f["choices"])
            if s:
                f = dict(f, **s)
        n, k, last = 0, 0, None
        for k in range(1, tries + 1):
            x = r.replay(f["prop"], f["choices"])
            if x:
                n, last = n + 1, x
            if k >= 3 and n >= need:
                break
        if n >= need:
            if last.get("case"):
                f["case"] = last["case"]
            if not f.get("crash"):
                f["msg"] = last["msg"]
            f["confirmed"] = f"{n}/{k} replays"
            return f
    again = 0
    for k in range(1, shards + 1):
        base = f"{scratch}/again{f['nproc']}_{f['shard']}"
        args = ["--run", "--seed", str(seed), "--tier", tier, "--shard", str(f["shard"]), "--nshards", str(f["nshards"]),
                "--progress", base + ".prog", "--out", base + ".json", "--scale", str(scale)]
        rc, text = launch(check, exe, args, f["nproc"], scratch, cap)
        again += rc not in (0, "timeout") if firm else rc != 0
        if again >= again_need:
            break
    if again >= again_need:
        f["confirmed"] = f"not by itself; the whole run of its shard fails again, {again} times in {k}"
        f["history"] = {"seed": seed, "tier": tier, "shard": f["shard"], "nshards": f["nshards"], "scale": scale}
        return f
    return None


def save(pid, f, k):
    os.makedirs(OUT, exist_ok=True)
    path = f"{OUT}/{pid}-{k}.json"
    keep = {x: f[x] for x in ("unit", "prop", "choices", "msg", "case", "nproc", "flavour", "history", "confirmed", "log", "gen_used") if x in f}
    with open(path, "w") as w:
        json.dump(dict(property=pid, **keep), w, indent=1)
        w.write("\n")
    return path


# ---------------------------------------------------------------------------------------- main
def known_findings(pid):
    try:
        data = json.load(open(VERIF + "/known_findings.json"))
    except OSError:
        return []
    return [e for e in data["findings"] if e["property"] == pid and e["status"] == "open"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--build-all", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.build_all:
        for pid, c in CHECKS.items():
            for part in c["parts"]:
                part = dict(part, id=part.get("id", pid))
                if part.get("kind", "cpp") == "cpp":
                    for fl in part.get("flavours", ["asan"]):
                        build(part, fl)
        return 0
    pid = a.id
    conf = CHECKS[pid]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    scratch = tempfile.mkdtemp(prefix="vf", dir="/tmp")
    cap = 780 if tier == "quick" else 6 * 3600
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": conf.get("level", "exploration")}
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": conf["rule"], "samples": [], "laws": {}, "discarded": 0, "units_not_compiled": []}
    violations = 0
    try:
        if a.replay:
            d = json.load(open(a.replay))
            bad = False
            for part in conf["parts"]:
                part = dict(part, id=part.get("id", pid), gen_used=tuple(d.get("gen_used", (1, "quick"))))
                if d.get("unit") not in (None, part["id"]):
                    continue
                if part.get("kind", "cpp") != "cpp":
                    import pypart
                    bad |= pypart.replay(part, d, scratch)
                    continue
                exe, _ = build(part, d.get("flavour", part.get("flavours", ["asan"])[0]))
                if d.get("history"):
                    h = d["history"]
                    rc, text = launch(part, exe, ["--run", "--seed", str(h["seed"]), "--tier", h["tier"], "--shard", str(h["shard"]),
                                                  "--nshards", str(h["nshards"]), "--scale", str(h["scale"])], d.get("nproc", 1), scratch, cap)
                    print(text[-4000:])
                    bad |= rc != 0
                else:
                    r = Runner(part, exe, d.get("nproc", 1), scratch).replay(d["prop"], d["choices"], allow_known=True)
                    print(json.dumps(r, indent=1) if r else "holds")
                    bad |= r is not None
            return 1 if bad else 0
        open_known = known_findings(pid)
        for part in conf["parts"]:
            part = dict(part, id=part.get("id", pid), gen_used=(a.seed, tier))
            if part.get("kind", "cpp") != "cpp":
                import pypart
                res, fails = pypart.run(part, scratch, a.seed, tier, a.scale)
                for p in res:
                    add_prop(cov, p, part["id"], 1)
                for f in fails:
                    violations += 1
                    f["unit"] = part["id"]
                    print(f"  {f['prop']}: {f['msg']}\n  case: {f.get('case', '')}")
                    print(f"VIOLATION property={pid} replay={save(pid, f, violations)}", flush=True)
                continue
            for fl in part.get("flavours", ["asan"]):
                if tier == "quick" and fl in part.get("thorough_flavours", ()):
                    continue
                tb = time.time()
                exe, missing = build(part, fl)
                print(f"built {part['id']} ({fl}) in {time.time() - tb:.1f} s", flush=True)
                cov["units_not_compiled"] += missing
                for e in open_known:
                    if e.get("unit", pid) != part["id"]:
                        continue
                    r = Runner(part, exe, e.get("nproc", 1), scratch).replay(e["replay"]["prop"], e["replay"]["choices"], allow_known=True)
                    if r and not e.get("_said"):
                        e["_said"] = True
                        print(f"KNOWN-FINDING: property={pid} {e['what']}", flush=True)
                for nproc in (part.get("np", [1]) if tier == "quick" else part.get("np_thorough", part.get("np", [1]))):
                    res, fails = run_shards(part, exe, nproc, scratch, a.seed, tier, a.scale * part.get("scale", {}).get(nproc, 1), a.only, cap)
                    merged = {}
                    for d in res:
                        for p in d["props"]:
                            m = merged.setdefault(p["name"], {"name": p["name"], "ran": 0, "discarded": 0, "nontrivial": 0, "distinct": 0, "secs": 0, "labels": {}, "samples": []})
                            for x in ("ran", "discarded", "nontrivial", "distinct", "secs"):
                                m[x] += p[x]
                            for x, n in p["labels"].items():
                                m["labels"][x] = m["labels"].get(x, 0) + n
                            m["samples"] += p["samples"]
                    for p in merged.values():
                        add_prop(cov, p, fl if nproc == 1 else f"{fl}, {nproc} processes", nproc)
                    seen = set()
                    for f in fails:
                        if f["prop"] in seen or violations >= 3:
                            continue
                        g = confirm(part, exe, f, scratch, a.seed, tier, a.scale * part.get("scale", {}).get(nproc, 1), cap)
                        if g is None:
                            raise CheckError(f"a failure did not repeat: {f['prop']}: {f['msg']} {f['choices'][:50]}")
                        seen.add(f["prop"])
                        violations += 1
                        g["unit"], g["flavour"], g["gen_used"] = part["id"], fl, part["gen_used"]
                        print(f"  {g['prop']}: {g['msg']}\n  case: {g.get('case', '')}\n  ({g['confirmed']})")
                        print(f"VIOLATION property={pid} replay={save(pid, g, violations)}", flush=True)
                    if violations:
                        break
                if tier == "thorough" and part.get("fuzz") and not violations:
                    violations += fuzz(part, pid, cov, scratch, a.seed, part["fuzz"])
            if violations:
                break
        ev["coverage"] = cov
        ev["assumptions"] = conf.get("assumptions", [])
        ev["wall_s"] = round(time.time() - t0, 2)
        ev["violations"] = violations
        cov["samples"] = cov["samples"][:24]
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{pid}.json.tmp", "w") as w:
            json.dump(ev, w, indent=1)
            w.write("\n")
        os.replace(f"{VERIF}/evidence/{pid}.json.tmp", f"{VERIF}/evidence/{pid}.json")
        print(f"{pid}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']} s, {violations} violations")
        return 1 if violations else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def add_prop(cov, p, where, nproc):
    cov["evaluations"] += p["ran"] - p["discarded"]
    cov["discarded"] += p["discarded"]
    cov["distinct_nontrivial"] += p["distinct"]
    cov["laws"][f"{p['name']} ({where})"] = {"cases": p["ran"], "discarded": p["discarded"], "nontrivial": p["nontrivial"], "distinct_nontrivial": p["distinct"],
                                             "cpu_s": round(p["secs"], 2), "classes": dict(sorted(p["labels"].items(), key=lambda x: -x[1])[:60])}
    for s in p["samples"][:2]:
        cov["samples"].append({"law": p["name"], "case": s[:600]})


def fuzz(part, pid, cov, scratch, seed, secs):
    """Coverage-guided search over the same properties (thorough tier)."""
    exe, _ = build(part, "fuzz")
    corpus = scratch + "/corpus"
    os.makedirs(corpus, exist_ok=True)
    env = dict(ENV, PBT_FUZZ_OUT=scratch + "/fuzz.json", TMPDIR=scratch)
    p = subprocess.run([exe, f"-max_total_time={secs}", f"-seed={seed or 1}", "-max_len=400", "-timeout=60", "-rss_limit_mb=3000",
                        f"-artifact_prefix={scratch}/", f"-fork={JOBS}", "-ignore_crashes=0", "-ignore_ooms=1", "-ignore_timeouts=1", corpus], cwd=scratch, env=env, capture_output=True, text=True)
    m = re.findall(r"#(\d+): cov: (\d+)", p.stderr)
    cov["fuzz"] = cov.get("fuzz", []) + [{"unit": part["id"], "seconds": secs, "executions": int(m[-1][0]) if m else 0, "edges": int(m[-1][1]) if m else 0}]
    if m:
        cov["evaluations"] += int(m[-1][0])
    if p.returncode == 0:
        return 0
    try:
        d = json.load(open(scratch + "/fuzz.json"))
    except (OSError, ValueError):
        raise CheckError("fuzzer: " + p.stderr[-3000:])
    fl = part.get("flavours", ["asan"])[0]
    exe, _ = build(part, fl)
    f = confirm(part, exe, dict(d, nproc=1, crash=True, case="", shard=0, nshards=1), scratch, seed, "quick", 1, 600)
    if f is None:
        raise CheckError("a fuzzer failure did not repeat: " + json.dumps(d))
    f["unit"], f["flavour"], f["gen_used"] = part["id"], fl, part["gen_used"]
    print(f"VIOLATION property={pid} replay={save(pid, f, 90)}", flush=True)
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("CHECK ERROR:", e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
