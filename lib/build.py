"""Compiles the code under test straight from /repo's working tree (never from _build),
plus the harnesses of /verif/harness.  Objects are cached by content hash in /verif/.build,
so a changed source or header always leads to a recompilation."""
import hashlib, os, re, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JOBS = max(2, os.cpu_count() or 8)

class BuildError(Exception):
    pass

def sh(cmd, cwd=None, ok=True):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if ok and p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p

def am_sources(path, var):
    """The .c files of an automake _SOURCES variable."""
    txt = open(path, errors="replace").read()
    txt = re.sub(r"\\\s*\n", " ", txt)
    m = re.search(r"^%s\s*=\s*(.*)$" % re.escape(var), txt, re.M)
    if not m:
        return []
    return [w for w in m.group(1).split() if w.endswith(".c")]

def _hash(*parts):
    h = hashlib.sha1()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p); h.update(b"\0")
    return h.hexdigest()[:20]

def _headers_hash(dirs):
    h = hashlib.sha1()
    for d in dirs:
        for f in sorted(glob.glob(os.path.join(d, "*"))):
            if f.endswith((".h", ".hpp", ".inc")) :
                h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
WARN = ["-w"]

def compile_objs(files, flags, hdr_dirs, cc="gcc"):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    hh = _headers_hash(hdr_dirs)
    def one(f):
        key = _hash(cc, " ".join(flags), hh, f, open(f, "rb").read())
        out = os.path.join(BUILD, "obj", os.path.basename(f) + "." + key + ".o")
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            sh([cc] + flags + WARN + ["-c", f, "-o", tmp])
            os.replace(tmp, out)
        return out
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, files))

def lib_sources():
    """Sources of libplCurve per src/Makefile.am (kascentpermutation.c needs the absent naptable.h)."""
    src = os.path.join(REPO, "src")
    names = am_sources(os.path.join(src, "Makefile.am"), "libplCurve_la_SOURCES")
    out = []
    for n in names:
        if n == "kascentpermutation.c" and not os.path.exists(os.path.join(src, "naptable.h")):
            continue
        p = os.path.join(src, n)
        if os.path.exists(p):
            out.append(p)
    return out

def src_flags(opt="-O1", asan=True, extra=()):
    return [opt, "-g1", "-std=gnu11", "-ffunction-sections", "-DHAVE_CONFIG_H", "-fno-strict-aliasing",
            "-I", os.path.join(VERIF, "lib"), "-I", os.path.join(REPO, "src"),
            "-I", os.path.join(REPO, "judy", "src")] + (ASAN if asan else []) + list(extra)

def build_lib(asan=True, opt="-O1", extra=()):
    return compile_objs(lib_sources(), src_flags(opt, asan, extra),
                        [os.path.join(REPO, "src"), os.path.join(REPO, "judy/src"), os.path.join(VERIF, "lib")])

def build_npl(asan=True):
    src = os.path.join(REPO, "src")
    names = am_sources(os.path.join(src, "Makefile.am"), "libnplCurve_la_SOURCES")
    return compile_objs([os.path.join(src, n) for n in names], src_flags("-O1", asan),
                        [src, os.path.join(VERIF, "lib")])

def build_kperm(asan=True):
    """kascentpermutation.c with a stand-in for the absent naptable.h (the harness supplies the table)."""
    src = os.path.join(REPO, "src")
    if os.path.exists(os.path.join(src, "naptable.h")):
        return []
    return compile_objs([os.path.join(src, "kascentpermutation.c")], src_flags("-O1", asan, ["-I", os.path.join(VERIF, "lib", "naptable")]),
                        [src, os.path.join(VERIF, "lib"), os.path.join(VERIF, "lib", "naptable")])

def build_tools(names, asan=True):
    """Command-line tools, each with its main() renamed vt_NAME_main and every other symbol local."""
    src = os.path.join(REPO, "src"); out = []
    for n in names:
        n, _, redef = n.partition(":")   # "tool:symbol=stand-in" calls the harness's stand-in instead
        # a tool may be spread over several files: those of its _SOURCES which are not in the library
        lib = set(lib_sources()); fs = [os.path.join(src, f) for f in (am_sources(os.path.join(src, "Makefile.am"), n + "_SOURCES") or [n + ".c"])]
        fs = [f for f in fs if f not in lib]
        main = "vt_%s_main" % n
        objs = compile_objs(fs, src_flags("-O1", asan, ["-Dmain=" + main]), [src, os.path.join(VERIF, "lib")])
        one = os.path.join(BUILD, "obj", "tool_%s.%s.o" % (n, _hash(redef, *objs)))
        if not os.path.exists(one):
            tmp = one + ".tmp%d" % os.getpid()
            sh(["ld", "-r", "-o", tmp] + objs); sh(["objcopy", "--keep-global-symbol=" + main] + (["--redefine-sym", redef] if redef else []) + [tmp]); os.replace(tmp, one)
        out.append(one)
    return out

_JUDY_SUFF = {"Cascade":"Cascade","Count":"Count","CreateBranch":"CreateBranch","Decascade":"Decascade",
  "First":"First","FreeArray":"FreeArray","InsertBranch":"InsertBranch","MallocIF":"MallocIF",
  "MemActive":"MemActive","MemUsed":"MemUsed"}

def build_judy(opt="-O0"):
    """Judy is generated code: JudyCommon/*.c compiled once per flavour, as judy/src/*/Makefile.am does."""
    js = os.path.join(REPO, "judy", "src")
    common = os.path.join(js, "JudyCommon")
    allsrc = sorted(glob.glob(os.path.join(js, "*", "*.[ch]")) + glob.glob(os.path.join(js, "*.h")))
    key = _hash(opt, *[f.encode() + open(f, "rb").read() for f in allsrc])
    d = os.path.join(BUILD, "judy." + key)
    done = os.path.join(d, "done")
    if not os.path.exists(done):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        base = [opt, "-g1", "-w", "-std=gnu11", "-DJU_64BIT", "-fno-strict-aliasing", "-fno-aggressive-loop-optimizations",
                "-I", js, "-I", common, "-I", os.path.join(js, "JudyL"), "-I", os.path.join(js, "Judy1")]
        jobs = []
        for fl, D in (("L", "-DJUDYL"), ("1", "-DJUDY1")):
            names = dict(_JUDY_SUFF)
            m = {"Judy%s%s" % (fl, k): ("Judy%s.c" % v, []) for k, v in names.items()}
            if fl == "L":
                m.update({"JudyLDel": ("JudyDel.c", []), "JudyLGet": ("JudyGet.c", []),
                          "JudyLIns": ("JudyIns.c", []), "JudyLInsArray": ("JudyInsArray.c", []),
                          "j__udyLGet": ("JudyGet.c", ["-DJUDYGETINLINE"])})
            else:
                m.update({"Judy1Unset": ("JudyDel.c", []), "Judy1Test": ("JudyGet.c", []),
                          "Judy1Set": ("JudyIns.c", []), "Judy1SetArray": ("JudyInsArray.c", []),
                          "j__udy1Test": ("JudyGet.c", ["-DJUDYGETINLINE"])})
            m["Judy%sNext" % fl] = ("JudyPrevNext.c", ["-DJUDYNEXT"])
            m["Judy%sPrev" % fl] = ("JudyPrevNext.c", ["-DJUDYPREV"])
            m["Judy%sNextEmpty" % fl] = ("JudyPrevNextEmpty.c", ["-DJUDYNEXT"])
            m["Judy%sPrevEmpty" % fl] = ("JudyPrevNextEmpty.c", ["-DJUDYPREV"])
            m["Judy%sByCount" % fl] = ("JudyByCount.c", ["-DNOSMARTJBB", "-DNOSMARTJBU", "-DNOSMARTJLB"])
            # table generator
            gen = os.path.join(d, "Judy%sTablesGen" % fl)
            sh(["gcc"] + base + [D, os.path.join(common, "JudyTables.c"), "-o", gen])
            sh([gen], cwd=d)
            jobs.append((os.path.join(d, "Judy%sTables.c" % fl), [D], os.path.join(d, "Judy%sTables.o" % fl)))
            for o, (src, ex) in m.items():
                jobs.append((os.path.join(common, src), [D] + ex, os.path.join(d, o + ".o")))
        jobs.append((os.path.join(js, "JudySL", "JudySL.c"), [], os.path.join(d, "JudySL.o")))
        jobs.append((os.path.join(js, "JudyHS", "JudyHS.c"), [], os.path.join(d, "JudyHS.o")))
        jobs.append((os.path.join(common, "JudyMalloc.c"), [], os.path.join(d, "JudyMalloc.o")))
        def one(j):
            sh(["gcc"] + base + j[1] + ["-c", j[0], "-o", j[2]])
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, jobs))
        open(done, "w").write("ok")
    return sorted(glob.glob(os.path.join(d, "*.o")))

def build_planarity(asan=True):
    base = os.path.join(REPO, "planarity")
    names = am_sources(os.path.join(base, "Makefile.am"), "libplanarity_la_SOURCES")
    files = [os.path.join(base, n) for n in names]
    return compile_objs(files, ["-O1", "-g1", "-ffunction-sections", "-I", os.path.join(base, "c")] + (ASAN if asan else []),
                        [os.path.join(base, "c")])

def build_planarmap(asan=True):
    base = os.path.join(REPO, "planarmap")
    names = am_sources(os.path.join(base, "Makefile.am"), "libplanarmap_la_SOURCES")
    return compile_objs([os.path.join(base, n) for n in names],
                        ["-O1", "-g1", "-ffunction-sections", "-I", base] + (ASAN if asan else []), [base])

def build_harness(name, objs, asan=True, extra_inc=(), libs=("-lgsl", "-lgslcblas", "-lm"), ldflags=()):
    src = os.path.join(VERIF, "harness", name + ".cpp")
    flags = ["-O1", "-g1", "-std=gnu++17", "-fpermissive", "-DHAVE_CONFIG_H", "-Drestrict=__restrict",
             "-I", os.path.join(VERIF, "lib"), "-I", os.path.join(VERIF, "harness"), "-I", os.path.join(REPO, "src"),
             "-I", os.path.join(REPO, "judy", "src")]
    for i in extra_inc:
        flags += ["-I", i]
    flags += ASAN if asan else []
    o = compile_objs([src], flags, [os.path.join(VERIF, "lib"), os.path.join(VERIF, "harness"), os.path.join(REPO, "src")]
                     + list(extra_inc), cc="g++")
    key = _hash(*(o + list(objs) + list(libs) + list(ldflags)))
    exe = os.path.join(BUILD, "%s.%s" % (name, key))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        sh(["g++"] + (ASAN if asan else []) + ["-o", tmp] + o + list(objs) + ["-Wl,--gc-sections"] + list(ldflags) + list(libs))
        os.replace(tmp, exe)
    return exe
