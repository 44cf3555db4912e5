#!/usr/bin/env python3
"""Build MSTK from /repo's working tree, and harnesses from /verif/harness, into /verif/build.

Objects are cached under a hash of (compiler flags, source text, text of every header), so an object is reused only
when nothing it could depend on has changed; time stamps play no role.  /repo/_build is never used.
"""
import glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
OUT = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 8

BASE = ["-std=c99", "-g", "-DNDEBUG", "-fno-omit-frame-pointer", "-w", "-ftrivial-auto-var-init=pattern"]
ASAN = ["-fsanitize=address", "-fno-sanitize-recover=all"]
# configuration -> (compile flags, uses MPI)
CONFIGS = {
    # The shipped configuration (parallel, METIS, Zoltan, ExodusII) on the simulated MPI.
    "par":     dict(flags=["-O1"] + ASAN, mpi=True, exo=True, markers=False),
    "parmark": dict(flags=["-O1"] + ASAN, mpi=True, exo=True, markers=True),
    "parfast": dict(flags=["-O1"], mpi=True, exo=True, markers=False),
    "parfastmark": dict(flags=["-O1"], mpi=True, exo=True, markers=True),
    # no MPI at all
    "ser":     dict(flags=["-O1"] + ASAN, mpi=False, exo=True, markers=False),
    # library with its memory accesses as scheduling points (harness/fibers.hpp supplies the runtime), not linked with TSan
    "serthr":  dict(flags=["-O1", "-fsanitize=thread"], link=["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock"], mpi=False, exo=True, markers=True),
    "sermark": dict(flags=["-O1"] + ASAN, mpi=False, exo=True, markers=True),
    # two builds in one executable, each with its own globals (markers off and on)
    "twin":    dict(flags=ASAN, twin=dict(off="ser", on="sermark"), mpi=False, exo=True, markers=False),
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(b"%d:" % len(p)); h.update(p)
    return h.hexdigest()[:32]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def write_if_changed(p, data):
    if isinstance(data, str):
        data = data.encode()
    if os.path.exists(p) and rd(p) == data:
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    t = p + ".tmp%d" % os.getpid()
    with open(t, "wb") as f:
        f.write(data)
    os.replace(t, p)


def gen_include(cfg):
    """The configured copy of include/ that CMake would make (MSTK_defines.h is a template)."""
    c = CONFIGS[cfg]
    inc = os.path.join(OUT, "inc-" + cfg)
    os.makedirs(inc, exist_ok=True)
    want = set()
    for h in glob.glob(REPO + "/include/*.h"):
        text = rd(h).decode("utf-8", "replace")
        n = os.path.basename(h)
        want.add(n)
        if n == "MSTK_defines.h":
            ver = dict(re.findall(r"set\s*\(\s*(MSTK_VERSION_(?:MAJOR|MINOR|PATCH))\s+(\d+)",
                                  rd(REPO + "/CMakeLists.txt").decode("utf-8", "replace")))
            text = re.sub(r"@(\w+)@", lambda m: ver.get(m.group(1), "0"), text)

            def cd(m):
                name = m.group(1)
                return "#define " + name if (name == "MSTK_HAVE_MPI" and c["mpi"]) else "/* #undef %s */" % name
            text = re.sub(r"#cmakedefine\s+(\w+)", cd, text)
        write_if_changed(os.path.join(inc, n), text)
    for n in os.listdir(inc):
        if n not in want and not ".tmp" in n:
            os.remove(os.path.join(inc, n))
    return inc


def defines(cfg):
    c = CONFIGS[cfg]
    d = []
    if c["exo"]:
        d.append("-DENABLE_ExodusII")
    if c["mpi"]:
        d += ["-DMETIS_5", "-D_MSTK_HAVE_METIS", "-D_MSTK_HAVE_ZOLTAN"]
    if c["markers"]:
        d.append("-DMSTK_USE_MARKERS")
    return d


def includes(cfg, inc):
    i = ["-I" + inc]
    if CONFIGS[cfg]["mpi"]:
        i.append("-I" + os.path.join(VERIF, "simmpi"))
    return i


def sources(cfg):
    c = CONFIGS[cfg]
    s = []
    dirs = ["base", "hilev", "io", "misc", "util", "mod"] + (["par"] if c["mpi"] else [])
    for d in dirs:
        for f in sorted(glob.glob(REPO + "/src/%s/*.c" % d)):
            b = os.path.basename(f)
            if d == "io" and not c["exo"] and ("ExodusII" in b or "NemesisI" in b):
                continue
            s.append(f)
    return s


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode("utf-8", "replace"))


def compile_objs(jobs):
    """jobs: list of (compiler, flags, source, header digest) -> object paths."""
    od = os.path.join(OUT, "obj")
    os.makedirs(od, exist_ok=True)

    def one(j):
        cc, flags, src, hd = j
        o = os.path.join(od, sha(cc, " ".join(flags), src, rd(src), hd) + ".o")
        if not os.path.exists(o):
            t = o + ".tmp%d.o" % os.getpid()
            run([cc] + flags + ["-c", src, "-o", t])
            os.replace(t, o)
        return o
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, jobs))


def hdr_digest(*dirs):
    parts = []
    for d in dirs:
        for h in sorted(glob.glob(d + "/*.h") + glob.glob(d + "/*.hpp")):
            parts += [os.path.basename(h), rd(h)]
    return sha(*parts)


def build(cfg, harness_srcs, exe, extra=()):
    """Library configuration `cfg` + harness sources -> executable; returns its path."""
    c = CONFIGS[cfg]
    inc = gen_include(cfg)
    lib_hd = hdr_digest(inc, VERIF + "/simmpi")
    har_hd = sha(lib_hd, hdr_digest(VERIF + "/harness"))
    cf = BASE + c["flags"] + defines(cfg) + includes(cfg, inc)
    jobs = [("gcc", cf, s, lib_hd) for s in sources(cfg)]
    nlib = len(jobs)
    xf = (["-std=gnu++17", "-g", "-fno-omit-frame-pointer", "-w", "-O2"] + defines(cfg) +  # harnesses run uninstrumented, their heap buffers still have red zones
          includes(cfg, inc) + ["-I" + VERIF + "/harness", '-DVF_CONFIG="%s"' % cfg] + list(extra))
    hs = list(harness_srcs)
    if "twin" in c:
        return build_twin(c, hs, exe, xf, har_hd)
    if c["mpi"]:
        hs += sorted(glob.glob(VERIF + "/simmpi/*.cpp"))
    # harness sources first: they take longest
    allj = [("g++", xf, s, har_hd) for s in hs] + jobs
    objs = compile_objs(allj)
    hobjs, lobjs = objs[:len(hs)], objs[len(hs):]
    lib = os.path.join(OUT, "lib-%s-%s.a" % (cfg, sha(*lobjs)))
    if not os.path.exists(lib):
        t = lib + ".tmp%d" % os.getpid()
        run(["ar", "rcs", t] + lobjs)
        os.replace(t, lib)
    ed = os.path.join(OUT, "exe")
    os.makedirs(ed, exist_ok=True)
    path = os.path.join(ed, "%s-%s" % (exe, sha(lib, *hobjs)))
    if not os.path.exists(path):
        libs = (["/usr/lib/x86_64-linux-gnu/libexoIIv2c.so"] if c["exo"] else []) + ["-lm", "-lpthread", "-ldl"]
        t = path + ".tmp%d" % os.getpid()
        run(["g++"] + c.get("link", c["flags"]) + hobjs + [lib] + libs + ["-o", t])
        os.replace(t, path)
    return path


def build_twin(c, hs, exe, xf, har_hd):
    """The last source with the library, once per configuration, all symbols local but the entry point; the other sources drive them."""
    objs = compile_objs([("g++", xf, s, har_hd) for s in hs[:-1]])
    ed = os.path.join(OUT, "exe")
    os.makedirs(ed, exist_ok=True)
    for tag, cfg in sorted(c["twin"].items()):
        d, inc = CONFIGS[cfg], gen_include(cfg)
        hd = hdr_digest(inc, VERIF + "/simmpi")
        cf = BASE + d["flags"] + defines(cfg) + includes(cfg, inc)
        o = compile_objs([("g++", [x for x in xf if not x.startswith(("-I", "-D"))] + defines(cfg) + includes(cfg, inc) + ["-I" + VERIF + "/harness", '-DVF_CONFIG="%s"' % cfg], hs[-1], sha(hd, har_hd))] +
                         [("gcc", cf, s, hd) for s in sources(cfg)])
        path = os.path.join(ed, "twin-%s-%s.o" % (tag, sha(*o)))
        if not os.path.exists(path):
            t = path + ".tmp%d" % os.getpid()
            run(["ld", "-r", "--force-group-allocation"] + o + ["-o", t])
            run(["objcopy", "--redefine-sym", "twin_run=twin_run_" + tag, "--redefine-sym", "_ZN2vf4pickEiPKc=twin_choice", t])
            run(["objcopy", "--keep-global-symbol=twin_run_" + tag, t])
            os.replace(t, path)
        objs.append(path)
    path = os.path.join(ed, "%s-%s" % (exe, sha(*objs)))
    if not os.path.exists(path):
        t = path + ".tmp%d" % os.getpid()
        run(["g++"] + c["flags"] + objs + ["/usr/lib/x86_64-linux-gnu/libexoIIv2c.so", "-lm", "-lpthread", "-ldl", "-o", t])
        os.replace(t, path)
    return path


if __name__ == "__main__":
    # warm the cache: compile the library configurations
    for cfg in sys.argv[1:] or ["par"]:
        inc = gen_include(cfg)
        hd = hdr_digest(inc, VERIF + "/simmpi")
        cf = BASE + CONFIGS[cfg]["flags"] + defines(cfg) + includes(cfg, inc)
        compile_objs([("gcc", cf, s, hd) for s in sources(cfg)])
        print("built", cfg)
