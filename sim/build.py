#!/usr/bin/env python3
"""Builds the simulator against /repo's current tree.  Usage: build.py BINARY FLAVOUR -> prints path."""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, shutil

SIM = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(SIM)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
WIDTHS = [1, 4, 8, 13, 16, 20, 31, 32, 33, 57, 63, 64, 65, 100, 127, 128, 129, 192, 200, 320, 1030]
INST = ["-std=c++20", "-O1", "-g0", "-w", "-fsanitize=thread", "-fsanitize-coverage=trace-pc",
        "-include", "cstdint", "-I" + REPO + "/include", "-fno-pie",
        "-mmemcpy-strategy=libcall:-1:noalign", "-mmemset-strategy=libcall:-1:noalign"]
HOST = ["-std=c++20", "-O2", "-g0", "-w", "-fno-pie", "-include", "cstdint", "-I" + REPO + "/include"]


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hh", ".cc", ".h", ".syms", ".txt", "build.py", ".cpp", ".hpp")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-200000:])


def build(binary, flavour="plain", log=lambda s: None):
    key = tree_hash(SIM, REPO + "/include", REPO + "/src")
    out = os.path.join(BUILD, f"{binary}-{flavour}-{key}")
    exe = os.path.join(out, binary)
    if os.path.exists(exe):
        return exe
    tmp = out + f".tmp{os.getpid()}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    extra = ["-D_GLIBCXX_ASSERTIONS", "-fsanitize=bounds"] if flavour == "assert" else []
    inst, host = [], []
    notes, dropped = [], []

    def add_inst(name, src, defs=()):
        inst.append((os.path.join(tmp, name + ".o"), src, list(defs)))

    def add_host(name, src):
        host.append((os.path.join(tmp, name + ".o"), src))

    if binary == "simops":
        for w in sorted(WIDTHS, reverse=True):
            add_inst(f"w{w}", f"{SIM}/ops/ops_width.cc", [f"-DSIM_W={w}"])
        add_inst("misc", f"{SIM}/ops/ops_misc.cc")
        add_inst("bn", f"{SIM}/ops/ops_bn.cc")
        add_host("main", f"{SIM}/harness/simops.cc")
        add_host("catalog", f"{SIM}/harness/catalog.cc")
    else:
        for g in range(int(os.environ.get("SIM_REG_GROUPS", "14"))):
            add_inst(f"reg{g}", f"{SIM}/regs/regs_types.cc", [f"-DSIM_G={g}"])
        add_host("main", f"{SIM}/regs/simregs.cc")
    src = sorted(f for f in os.listdir(REPO + "/src") if f.endswith((".cc", ".cpp")))
    for f in src:
        add_inst("lib_" + f.replace(".", "_"), f"{REPO}/src/{f}")
    add_inst("strinst", f"{SIM}/rt/strinst.cc")
    add_host("rt", f"{SIM}/rt/rt.cc")
    add_host("first", f"{SIM}/rt/mark_first.cc")
    add_host("last", f"{SIM}/rt/mark_last.cc")

    repo_h = tree_hash(REPO + "/include", REPO + "/src")
    hdr_h = hashlib.sha256(b"".join(open(os.path.join(d, f), "rb").read() for d, _, fs in sorted(os.walk(SIM))
                                    for f in sorted(fs) if f.endswith((".hh", ".syms")))).hexdigest()
    objs = os.path.join(BUILD, "obj")
    os.makedirs(objs, exist_ok=True)

    def cached(o, s, cmd, post):
        k = hashlib.sha256(repr((cmd, repo_h, hdr_h)).encode() + open(s, "rb").read()).hexdigest()[:24]
        c = os.path.join(objs, k + ".o")
        if not os.path.exists(c):
            t = c + f".{os.getpid()}"
            run(cmd + ["-c", s, "-o", t])
            if post:
                run(["objcopy", "--redefine-syms=" + f"{SIM}/rt/redefine.syms", t])
            os.rename(t, c)
        os.link(c, o)

    def comp_inst(t):
        o, s, d = t
        skip = set()
        for attempt in range(6):
            try:
                sk = ["-DSIM_SKIP=" + ",".join(map(str, sorted(skip)))] if skip else []
                cached(o, s, ["g++"] + INST + extra + d + sk, True)
                if skip:
                    notes.append(f"{os.path.basename(o)}: left out operations at lines {sorted(skip)} (do not compile)")
                return
            except BuildError as e:
                if "/ops/" not in s and "/regs/" not in s:
                    raise
                new = {int(x) for x in re.findall(r"(?:vec_ops\.hh|ops_misc\.cc|ops_bn\.cc|reg_types\.hh):(\d+):\d+:\s+(?:required from|error)", str(e))}
                if not new - skip:
                    break
                skip |= new
        notes.append(f"{os.path.basename(o)}: left out completely (does not compile)")
        dropped.append(o)

    def comp_host(t):
        o, s = t
        cached(o, s, ["g++"] + HOST, False)

    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        fs = [ex.submit(comp_host, t) for t in host] + [ex.submit(comp_inst, t) for t in inst]
        errs = []
        for f in fs:
            try:
                f.result()
            except BuildError as e:
                errs.append(str(e))
        if errs:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError(errs[0])
    o = lambda n: os.path.join(tmp, n + ".o")
    left = [t for t in inst if t[0] not in dropped]
    if not any("/ops/" in t[1] or "/regs/" in t[1] for t in left):
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError("no operation compiles against this tree: " + "; ".join(notes))
    rest = [t[0] for t in host if os.path.basename(t[0]) not in ("first.o", "last.o")]
    run(["g++", "-static", "-no-pie", "-o", os.path.join(tmp, binary), o("first")] + [t[0] for t in left] + [o("last")] + rest + ["-lpthread"])
    for f in os.listdir(tmp):
        if f.endswith(".o"):
            os.unlink(os.path.join(tmp, f))
    json.dump(notes, open(os.path.join(tmp, "notes.json"), "w"))
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


if __name__ == "__main__":
    try:
        print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "plain"))
    except BuildError as e:
        print(str(e)[:3000])
        sys.exit(1)
