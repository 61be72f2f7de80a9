"""Builds the library under test from /repo's working tree with sanitizers.

The tree is mirrored by content into /verif/build/src (so that modification
times are meaningful whatever happened to /repo's), configured with the
repository's own CMake files and built with clang + ASan + UBSan.  Harness
programs are compiled directly against the result.
"""
import fcntl, hashlib, os, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(BUILD, "src")
HARN = os.path.join(VERIF, "harness")

SAN = ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
       "-fsanitize=float-cast-overflow "
       "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -Wno-everything")
CXX = "/usr/bin/clang++" if os.path.exists("/usr/bin/clang++") else "clang++"
CC = "/usr/bin/clang" if os.path.exists("/usr/bin/clang") else "clang"
CFGS = {
    "san": dict(cxx=CXX, cc=CC, flags=SAN),
    "plain": dict(cxx=CXX, cc=CC, flags="-O0 -g1 -Wno-everything"),       # for valgrind
    # without sanitizers; what variables hold before they are set differs (C17)
    "zero": dict(cxx=CXX, cc=CC, flags="-O1 -g1 -Wno-everything -ftrivial-auto-var-init=zero"),
    "patt": dict(cxx=CXX, cc=CC, flags="-O1 -g1 -Wno-everything -ftrivial-auto-var-init=pattern"),
}


class BuildError(Exception):
    pass


def run(cmd, cwd=None, log=None, env=None):
    e = dict(os.environ)
    e["LC_ALL"] = "C"
    e.pop("CXXFLAGS", None); e.pop("CFLAGS", None)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    if log:
        with open(log, "w") as f:
            f.write(p.stdout)
    if p.returncode:
        raise BuildError("%s failed (%d):\n%s" % (" ".join(cmd[:6]), p.returncode, p.stdout[-6000:]))
    return p.stdout


def mirror():
    """Copy what differs from REPO to SRC; remove what is gone."""
    keep = set()
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in (".git", "_build")]
        dirs[:] = [d for d in dirs if not os.path.islink(os.path.join(root, d))]
        for f in files:
            s = os.path.join(root, f)
            r = os.path.normpath(os.path.join(rel, f))
            if not os.path.isfile(s):
                continue
            keep.add(r)
            d = os.path.join(SRC, r)
            with open(s, "rb") as fh:
                data = fh.read()
            try:
                with open(d, "rb") as fh:
                    if fh.read() == data:
                        continue
            except OSError:
                pass
            os.makedirs(os.path.dirname(d), exist_ok=True)
            with open(d, "wb") as fh:
                fh.write(data)
    for root, dirs, files in os.walk(SRC):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, SRC) not in keep:
                os.unlink(p)


def _lib(cfg, targets):
    c = CFGS[cfg]
    bdir = os.path.join(BUILD, cfg)
    if not os.path.exists(os.path.join(bdir, "build.ninja")):
        shutil.rmtree(bdir, ignore_errors=True)
        os.makedirs(bdir)
        run(["cmake", "-S", SRC, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
             "-DCMAKE_CXX_COMPILER=" + c["cxx"], "-DCMAKE_C_COMPILER=" + c["cc"],
             "-DCMAKE_CXX_FLAGS=" + c["flags"], "-DCMAKE_C_FLAGS=" + c["flags"],
             "-DUSE_SISL=ON", "-DSTATIC_IGES=ON", "-Wno-dev"],
            log=os.path.join(BUILD, cfg + ".cmake.log"))
    run(["ninja", "-C", bdir] + targets, log=os.path.join(BUILD, cfg + ".ninja.log"))
    return bdir


def _newer(out, deps):
    if not os.path.exists(out):
        return False
    t = os.path.getmtime(out)
    return all(os.path.getmtime(d) <= t for d in deps)


def _find(bdir, name):
    for root, _, files in os.walk(bdir):
        if name in files:
            return os.path.join(root, name)
    raise BuildError("no %s in %s" % (name, bdir))


def build(cfg="san", progs=("vh",), tools=()):
    """Returns {name: path} of harness programs and of repository programs."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        os.makedirs(SRC, exist_ok=True)
        mirror()
        c = CFGS[cfg]
        need_idf = any(p in ("vidf",) for p in progs)
        targets = ["iges_static"] + list(tools)
        if need_idf and "idf2igs" not in targets:
            targets.append("idf2igs")
        # compile harness objects at the same time as the library
        bdir = os.path.join(BUILD, cfg)
        if not os.path.exists(os.path.join(bdir, "build.ninja")):
            _lib(cfg, ["-t", "targets", "depth", "1"])
        odir = os.path.join(BUILD, "obj-" + cfg)
        os.makedirs(odir, exist_ok=True)
        srcs = {}
        for p in progs:
            l = [f for f in sorted(os.listdir(HARN)) if f == p + ".cpp" or f.startswith(p + "_") and f.endswith(".cpp")]
            if not l:
                raise BuildError("no source for harness " + p)
            srcs[p] = l
        incs = ["-I" + os.path.join(bdir, "src"), "-I" + os.path.join(SRC, "src", "include"),
                "-I" + os.path.join(SRC, "src", "idf"), "-I/usr/include"]
        hdr_hash = _hash_headers(bdir)
        for f in sorted(os.listdir(HARN)):
            if f.endswith(".h"):
                with open(os.path.join(HARN, f), "rb") as fh: hdr_hash += hashlib.sha1(fh.read()).digest()
        procs = []
        lib = subprocess.Popen(["ninja", "-C", bdir] + targets, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace",
                               env=dict(os.environ, LC_ALL="C"))
        objs = {}
        for p in progs:
            objs[p] = []
            for s in srcs[p]:
                sp = os.path.join(HARN, s)
                with open(sp, "rb") as f:
                    txt = f.read()
                if p == "vidf":     # includes the converter's source
                    with open(os.path.join(SRC, "src", "idf", "idf2igs.cpp"), "rb") as f: txt += f.read()
                if p in ("vw", "vwg"):      # the same source with the wrappers
                    with open(os.path.join(HARN, "vh.cpp" if p == "vw" else "vg.cpp"), "rb") as f: txt += f.read()
                h = hashlib.sha1(txt + hdr_hash + c["flags"].encode()).hexdigest()[:16]
                o = os.path.join(odir, "%s.%s.o" % (s[:-4], h))
                objs[p].append(o)
                if not os.path.exists(o):
                    cmd = [c["cxx"]] + c["flags"].split() + ["-O0"] + incs + ["-c", sp, "-o", o + ".tmp"]
                    procs.append((o, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                                      text=True, errors="replace")))
        err = []
        for o, pr in procs:
            out, _ = pr.communicate()
            if pr.returncode:
                err.append(out[-4000:])
            else:
                os.rename(o + ".tmp", o)
        out, _ = lib.communicate()
        with open(os.path.join(BUILD, cfg + ".ninja.log"), "w") as f:
            f.write(out)
        if lib.returncode:
            err.append("library build failed:\n" + out[-6000:])
        if err:
            raise BuildError("\n".join(err))
        res = {}
        libs = [_find(bdir, "libiges_static.a")]
        if need_idf:
            try:
                libs.insert(0, _find(bdir, "libidf3.a"))
            except BuildError:
                pass
        for p in progs:
            exe = os.path.join(bdir, "h_" + p)
            if not _newer(exe, objs[p] + libs):
                run([c["cxx"]] + c["flags"].split() + objs[p] + libs + ["-lsisl", "-lm", "-ldl", "-o", exe])
            res[p] = exe
        for t in tools:
            res[t] = _find(bdir, t)
        return res


def _hash_headers(bdir):
    h = hashlib.sha1()
    for base in (os.path.join(SRC, "src"), bdir + "/src"):
        for root, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".h"):
                    with open(os.path.join(root, f), "rb") as fh:
                        h.update(f.encode() + fh.read())
    return h.digest()


def clib(name, flags=("-O1", "-g")):
    """A small shared library (for LD_PRELOAD) or C program from harness/<name>.c."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HARN, name + ".c")
    out = os.path.join(BUILD, name + ".so")
    if not _newer(out, [src]):
        run(["gcc", "-shared", "-fPIC"] + list(flags) + [src, "-ldl", "-o", out])
    return out


LOCALES = [("de_DE", "UTF-8"), ("fr_FR", "UTF-8"), ("ps_AF", "UTF-8"), ("hi_IN", "UTF-8"), ("de_CH", "UTF-8"), ("de_DE", "ISO-8859-1")]
LONG = "de_DE.UTF-8@" + "averylongmodifier" * 6


def locales():
    """Compiles the locales into build/locale (to be given as LOCPATH); the names."""
    d = os.path.join(BUILD, "locale")
    os.makedirs(d, exist_ok=True)
    names = []
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for n, cs in LOCALES:
            name = n + "." + cs
            # the names are normalised when a locale is looked up
            t = os.path.join(d, name)
            if not os.path.exists(os.path.join(t, "LC_NUMERIC")):
                subprocess.run(["localedef", "--no-archive", "-i", n, "-f", cs, t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(os.path.join(t, "LC_NUMERIC")): names.append(name)
        l = os.path.join(d, LONG)
        if "de_DE.UTF-8" in names:
            if not os.path.islink(l): os.symlink("de_DE.UTF-8", l)
            names.append(LONG)
    return d, names
