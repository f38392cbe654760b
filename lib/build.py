"""Build /repo's current working tree (libraries and tools) with sanitizers, and the
conformance drivers of /verif/harness against it.  Everything lands in /verif/build,
keyed by the content of the sources, so a changed tree is always rebuilt."""
import hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SAN = "-fsanitize=address -fsanitize=bounds,null -fno-sanitize-recover=all"
BASE = "-w -g -O1 -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern"


class BuildError(Exception):
    pass


def _walk(roots):
    for root in roots:
        if os.path.isfile(root):
            yield root
            continue
        for d, dirs, files in os.walk(root):
            dirs.sort()
            dirs[:] = [x for x in dirs if x not in (".git", "_build", "build", "__pycache__")]
            for f in sorted(files):
                yield os.path.join(d, f)


def digest(*roots):
    h = hashlib.sha256()
    for f in _walk(roots):
        try:
            with open(f, "rb") as fh:
                h.update(f.encode() + b"\0" + fh.read() + b"\0")
        except OSError:
            pass
    return h.hexdigest()[:16]


def repo_digest():
    return digest(os.path.join(REPO, "src"), os.path.join(REPO, "tools"),
                  os.path.join(REPO, "cmake"), os.path.join(REPO, "CMakeLists.txt"),
                  os.path.join(REPO, "mcc-codes"))


def sh(cmd, cwd=None, what="command", timeout=800):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (what, p.stdout[-4000:]))
    return p.stdout


def _evict(prefix, keep):
    # builds of trees that are gone only waste disk
    if not os.path.isdir(BUILD):
        return
    olds = sorted((d for d in os.listdir(BUILD) if d.startswith(prefix) and d != keep),
                  key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in olds[:-2]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)


def libs(iso8859="boost", san=True):
    """Configure and build the library; returns the build directory."""
    key = "lib-%s-%s-" % (iso8859, "san" if san else "plain")
    name = key + repo_digest()
    out = os.path.join(BUILD, name)
    if os.path.exists(os.path.join(out, ".done")):
        return out
    _evict(key, name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    mcc = os.path.join(out, "mcc.json")
    with open(mcc, "w") as f:
        f.write('[{"mcc":"0742","edited_description":"Veterinary Services"},'
                '{"mcc":"5999","edited_description":"Miscellaneous and Specialty Retail Stores"},'
                '{"mcc":"9999","edited_description":"Last"}]')
    flags = BASE + (" " + SAN if san else "")
    inc = os.path.join(VERIF, "harness", "missing-mcc.cmake")
    args = ["cmake", "-G", "Ninja", "-S", REPO, "-B", out, "-DCMAKE_BUILD_TYPE=Debug",
            "-DMCC_JSON_BUILD_PATH=" + mcc, "-DMCC_JSON_INSTALL_PATH=" + mcc,
            "-DCMAKE_DISABLE_FIND_PACKAGE_Qt5=ON", "-DCMAKE_DISABLE_FIND_PACKAGE_Qt6=ON",
            "-DFETCH_ARGP=OFF", "-DBUILD_TESTING=OFF", "-DBUILD_DOCS=OFF",
            "-DISO8859_IMPL=" + iso8859,
            "-DCMAKE_C_FLAGS=" + flags, "-DCMAKE_CXX_FLAGS=" + flags]
    if os.path.exists(inc):
        args.append("-DCMAKE_PROJECT_emv-utils_INCLUDE=" + inc)
    sh(args, what="cmake")
    sh(["ninja", "-C", out], what="ninja")
    open(os.path.join(out, ".done"), "w").close()
    return out


def find_libs(lib):
    got = {}
    for d, _, files in os.walk(lib):
        for f in files:
            if f.startswith("lib") and f.endswith(".a"):
                got[f[3:-2]] = os.path.join(d, f)
    return got


def find_exe(lib, name):
    for d, _, files in os.walk(lib):
        if name in files and os.access(os.path.join(d, name), os.X_OK):
            return os.path.join(d, name)
    raise BuildError("no executable " + name)


def objects(lib, names):
    """Object files of the tools."""
    found = {}
    for d, dirs, files in os.walk(lib):
        dirs.sort()
        for f in files:
            if f in names:
                found.setdefault(f, os.path.join(d, f))
    if set(found) != set(names):
        raise BuildError("no object files %s" % (names,))
    return [found[n] for n in names]


def driver(src="drv.c", iso8859="boost", san=True, extra=(), objs=(), mains=None, link=(), tag="", exes=None):
    """Compile a harness program against the library; returns the executable.  objs: object files of
    the tools to link; mains: those with a main function, and its new name; exes: macros naming
    executables of the tools."""
    lib = libs(iso8859, san)
    extra = list(extra) + ['-D%s="%s"' % (k, find_exe(lib, v)) for k, v in (exes or {}).items()]
    hsrc = os.path.join(VERIF, "harness")
    key = "drv-%s%s-%s-%s-" % (tag, src.replace(".", "_"), iso8859, "san" if san else "plain")
    name = key + hashlib.sha256((lib + digest(hsrc)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, name)
    exe = os.path.join(out, "drv")
    if os.path.exists(exe):
        return exe
    _evict(key, name)
    os.makedirs(out, exist_ok=True)
    have = find_libs(lib)
    order = [have[n] for n in ("emv_strings", "emv", "iso7816", "iso8825", "iso8859") if n in have]
    rest = [p for n, p in have.items() if p not in order and n not in ("pcsc",)
            and "pcsc" not in n]
    cc = "g++" if src.endswith(".cpp") else "gcc"
    flags = BASE.split() + (SAN.split() if san else [])
    obj = os.path.join(out, "drv.o")
    tmp = exe + ".tmp"
    sh([cc] + flags + ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(lib, "src"),
                       "-I" + hsrc, "-c", os.path.join(hsrc, src), "-o", obj] + list(extra),
       what="compile " + src)
    jsonl = []
    for cand in ("/usr/lib/x86_64-linux-gnu/libjson-c.so", ):
        if os.path.exists(cand):
            jsonl.append(cand)
    wrap = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "strdup")]
    os_ = objects(lib, objs) if objs else []
    for k, (o, sym) in enumerate((mains or {}).items()):
        new = os.path.join(out, "main%d.o" % k)
        sh(["objcopy", "--redefine-sym", "main=" + sym, objects(lib, (o,))[0], new], what="objcopy")
        os_.append(new)
    sh(["g++"] + flags + wrap + list(link) + [obj] + os_ + ["-Wl,--start-group"] + order + rest + ["-Wl,--end-group"] +
       ["-o", tmp] + jsonl + link_extra(lib), what="link " + src)
    os.rename(tmp, exe)
    return exe


def link_extra(lib):
    """External libraries the project itself links (boost, json, ...), as cmake found them."""
    out = []
    try:
        cache = open(os.path.join(lib, "CMakeCache.txt")).read().splitlines()
    except OSError:
        return out
    for line in cache:
        k, _, v = line.partition("=")
        k = k.split(":")[0]
        if v.endswith((".so", ".a")) and os.path.exists(v) and \
                any(w in k.lower() for w in ("boost", "json", "iconv")):
            out.append(v)
    for so in ("boost_locale", "boost_system"):
        p = "/usr/lib/x86_64-linux-gnu/lib%s.so" % so
        if os.path.exists(p):
            out.append(p)
    return list(dict.fromkeys(out))
