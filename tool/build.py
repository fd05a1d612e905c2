#!/usr/bin/env python3
"""Build OSHMPI from /repo's working tree against simmpi (the simulated MPI in /verif/sim).

Nothing is written under /repo.  Output goes to <out>/<key>/ where key is a hash of every
input (repo sources, generator scripts, /verif/sim), so an unchanged tree is not rebuilt.
"""
import hashlib, os, re, shutil, subprocess, sys, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OSHMPI_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")

NPE = 16                   # copies of pe.so

VARIANTS = {
    # name: extra configuration defines
    "default": [],
    # the configurations configure offers besides the one built here
    "dynwin": ["-DOSHMPI_ENABLE_DYNAMIC_WIN=1", "-DSIM_NO_SYMM_ALLOC"],   # one dynamic window for everything; bases differ between PEs
    "lean": ["-DSIM_NO_OP_TRACKING", "-DSIM_NO_STRIDED_CACHE"],   # no tracking of operations, no datatype cache
    "am": ["-DOSHMPI_ENABLE_AM_RMA=1", "-DOSHMPI_ENABLE_AM_AMO=1"],  # everything as active messages
    "direct": ["-DOSHMPI_ENABLE_DIRECT_RMA=1", "-DOSHMPI_ENABLE_DIRECT_AMO=1"],
    "single": ["-DOSHMPI_ENABLE_THREAD_SINGLE=1"],
    "multiple": ["-DSIM_THREADS"],                                   # --enable-threads=multiple, the default of configure
    "async": ["-DSIM_THREADS", "-DSIM_ASYNC"],                       # ... with the asynchronous progress thread
    "ndebug": ["-DOSHMPI_DISABLE_DEBUG=1"],
}
# the thread level a configuration supports, where it is not SERIALIZED
LEVEL = {"single": 0, "multiple": 3, "async": 3}

CFLAGS = ["-g1", "-O0", "-fPIC", "-DOSHMPI_ENABLE_DBG", "-w", "-fno-strict-aliasing", "-Datexit=sim_atexit", "-Dgetenv=sim_getenv", "-Dexit=sim_exit",
          "-include", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim", "prelude.h")]


def repo_files():
    res = []
    for top in ("include", "src", "maint"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                if f.endswith((".o", ".lo", ".la", "~")):
                    continue
                res.append(p)
    return res


def key(variant):
    h = hashlib.sha256()
    h.update(variant.encode())
    for p in repo_files():
        h.update(os.path.relpath(p, REPO).encode())
        with open(p, "rb") as fh:
            h.update(fh.read())
    for p in sorted(x for x in glob.glob(SIM + "/**", recursive=True) if os.path.isfile(x)) + [os.path.abspath(__file__)]:
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout[-6000:])
        raise BuildError(r.stdout[-2000:])
    return r.stdout


class BuildError(Exception):
    pass


def generate(src):
    """Regenerate every typed/sized file from its template, as autogen.sh does."""
    jobs = []
    for tpl in sorted(glob.glob(src + "/include/*.tpl") + glob.glob(src + "/src/shmem/*.tpl")):
        base = os.path.basename(tpl)
        if base == "shmem.h.in.tpl":
            continue
        out = tpl[:-4]
        stem = re.sub(r"\.(c|h)$", "", os.path.basename(out))
        m = re.match(r"(?:shmem_)?(.*)_(typed|sized)$", stem)
        if not m:
            continue
        name, kind = m.groups()
        if kind == "typed":
            tf = f"{src}/maint/{name}_typedef.txt"
            if not os.path.exists(tf):
                continue
            jobs.append(["perl", src + "/maint/build_typed_api.pl", "--typefile", tf, "--tplfile", tpl, "--outfile", out])
        else:
            tf = f"{src}/maint/{name}_sizedef.txt"
            if not os.path.exists(tf):
                continue
            jobs.append(["perl", src + "/maint/build_sized_api.pl", "--sizefile", tf, "--tplfile", tpl, "--outfile", out])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    # shmem.h.in.tpl -> shmem.h
    with open(src + "/include/shmem.h.in.tpl") as fh:
        text = fh.read()
    outl = []
    for line in text.split("\n"):
        outl.append(line)
        m = re.search(r"(SHMEM_\w+_H) start", line)
        if m:
            hdr = f"{src}/include/{m.group(1).lower()[:-2]}.h"
            if os.path.exists(hdr):
                with open(hdr) as fh:
                    outl.append(fh.read())
    text = "\n".join(outl)
    text = re.sub(r"@OSHMPI_VERSION@", "2.1a1", text)
    text = re.sub(r"@OSHMPI_NUMVERSION@", "20100101", text)
    text = re.sub(r"@\w+@", "", text)
    with open(src + "/include/shmem.h", "w") as fh:
        fh.write(text)
    for f in ("shmemx.h",):
        with open(f"{src}/include/{f}.in") as fh:
            t = re.sub(r"@\w+@", "", fh.read())
        with open(f"{src}/include/{f}", "w") as fh:
            fh.write(t)


def sources(src):
    """The source list of the library, from the Makefile.mk fragments."""
    res = []
    cond = []
    for mk in ("src/Makefile.mk", "src/internal/Makefile.mk", "src/internal/util/Makefile.mk",
               "src/shmem/Makefile.mk", "src/shmemx/Makefile.mk", "src/include/Makefile.mk"):
        p = os.path.join(src, mk)
        if not os.path.exists(p):
            continue
        txt = open(p).read().replace("\\\n", " ")
        stack = []
        for line in txt.split("\n"):
            s = line.strip()
            if s.startswith("if "):
                stack.append(False)          # every conditional we know of is off here
                continue
            if s == "else":
                stack[-1] = not stack[-1]
                continue
            if s.startswith("endif"):
                stack.pop()
                continue
            if not all(stack):
                continue
            m = re.match(r"liboshmpi_la_SOURCES\s*\+?=\s*(.*?)(#.*)?$", s)
            if m:
                res += [x.rstrip("#") for x in m.group(1).split() if x.rstrip("#").endswith(".c")]
    return res


def build(variant=None, quiet=True):
    variant = variant or os.environ.get("OSHMPI_VARIANT", "default")
    k = key(variant)
    d = os.path.join(OUT, k)
    if os.path.exists(d + "/ok"):
        os.utime(d)
        return d
    os.makedirs(OUT, exist_ok=True)
    try:                                       # keep the cache small
        for old in sorted((x for x in glob.glob(OUT + "/*") if os.path.isdir(x)), key=os.path.getmtime)[:-24]:
            shutil.rmtree(old, ignore_errors=True)
    except OSError:
        pass
    tmp = f"{d}.{os.getpid()}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    src = tmp + "/src"
    os.makedirs(src)
    for top in ("include", "src", "maint"):
        shutil.copytree(os.path.join(REPO, top), os.path.join(src, top),
                        ignore=shutil.ignore_patterns("*.o", "*.lo", "*.la", ".libs", ".deps", "*~"))
    generate(src)
    inc = ["-I" + SIM, "-I" + SIM + "/conf", "-I" + src + "/include", "-I" + src + "/src/include",
           "-I" + src + "/src/internal", "-I" + src + "/src/internal/util"]
    defs = ["-DONLY_MSPACES", "-DHAVE_CONFIG_H"] + VARIANTS[variant]
    objs = []
    jobs = []
    os.makedirs(tmp + "/o")
    for s in sources(src):
        o = f"{tmp}/o/" + s.replace("/", "_")[:-2] + ".o"
        objs.append(o)
        jobs.append((os.path.getsize(os.path.join(src, s)),
                     ["gcc"] + CFLAGS + defs + inc + ["-c", os.path.join(src, s), "-o", o]))
    for s in ("driver.c", "datastart.c", "dispatch_rma.c", "dispatch_amo.c", "dispatch_coll.c"):
        if not os.path.exists(f"{SIM}/{s}"):
            continue
        o = f"{tmp}/o/drv_{s[:-2]}.o"
        jobs.append((10**9, ["gcc"] + CFLAGS + inc + ["-c", f"{SIM}/{s}", "-o", o]))
        if s == "datastart.c":
            objs.insert(0, o)
        else:
            objs.append(o)
    if os.path.exists(f"{SIM}/simmpi.c"):
        jobs.append((10**9, ["gcc", "-g1", "-O1", "-w", "-I" + SIM, "-c", f"{SIM}/simmpi.c", "-o", tmp + "/o/simmpi.o"]))
    jobs.sort(key=lambda x: -x[0])
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: run(j[1]), jobs))
        if os.path.exists(f"{SIM}/simmpi.c"):
            run(["gcc", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,lazy", "-o", tmp + "/pe.so"] + objs + ["-lm", "-lpthread"])
            run(["gcc", "-rdynamic", "-o", tmp + "/sim", tmp + "/o/simmpi.o", "-ldl", "-lm", "-lpthread"])
            for i in range(NPE):
                shutil.copyfile(tmp + "/pe.so", f"{tmp}/pe{i}.so")
    except BuildError:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    shutil.rmtree(tmp + "/o")
    open(tmp + "/ok", "w").close()
    if os.path.exists(d):
        shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.rename(tmp, d)
    return d


if __name__ == "__main__":
    print(build(*sys.argv[1:2]))
