"""Builds the three compiled extensions from /repo's current sources, outside /repo, and makes
Python import those builds instead of whatever .so happens to lie in the tree."""
import glob, hashlib, os, shutil, subprocess, sys, sysconfig, importlib.util
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SMT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build", "native")
LIBS = ("idw", "rbf", "rmts")
FLAVORS = {
    "plain": ["-O2", "-g0"],
    "asan": ["-O1", "-g", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
}


class BuildError(Exception):
    pass


def _sources(lib):
    d = os.path.join(REPO, "smt", "src", lib)
    gen = lib + "clib.cpp"
    return [f for f in sorted(glob.glob(d + "/*")) if os.path.isfile(f) and os.path.basename(f) != gen
            and f.endswith((".cpp", ".hpp", ".h", ".pyx", ".pxd", ".cc", ".c"))]


def _hash(lib, flavor):
    h = hashlib.sha256(repr(FLAVORS[flavor]).encode())
    for f in _sources(lib):
        h.update(os.path.basename(f).encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def _build(lib, flavor):
    out = os.path.join(BUILD, "%s-%s-%s" % (lib, flavor, _hash(lib, flavor)))
    so = os.path.join(out, lib + "clib.so")
    if os.path.exists(so):
        return so
    tmp = out + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    srcs = _sources(lib)
    for f in srcs:
        shutil.copy(f, tmp)
    import numpy
    inc = ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include(), "-I" + tmp]

    def run(cmd):
        r = subprocess.run(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("%s failed:\n%s" % (cmd[0], r.stdout.decode(errors="replace")[-3000:]))

    run([sys.executable, "-m", "cython", "--cplus", lib + "clib.pyx", "-o", lib + "clib.cpp"])
    cpps = sorted({os.path.basename(f) for f in srcs if f.endswith((".cpp", ".cc"))} | {lib + "clib.cpp"})
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: run(["g++"] + FLAVORS[flavor] + ["-fPIC", "-fwrapv" if flavor == "plain" else "-fPIC",
                                   "-std=c++11", "-w"] + inc + ["-c", c, "-o", c + ".o"]), cpps))
    run(["g++"] + FLAVORS[flavor] + ["-shared"] + [c + ".o" for c in cpps] + ["-o", lib + "clib.so"])
    for c in cpps:
        os.unlink(os.path.join(tmp, c + ".o"))
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return so


def build(flavor="plain"):
    os.makedirs(BUILD, exist_ok=True)
    with ThreadPoolExecutor(3) as ex:
        return dict(zip(LIBS, ex.map(lambda l: _build(l, flavor), LIBS)))


class _Finder:
    def __init__(self, sos):
        self.sos = {"smt.surrogate_models.%sclib" % l: so for l, so in sos.items()}

    def find_spec(self, name, path=None, target=None):
        if name in self.sos:
            return importlib.util.spec_from_file_location(name, self.sos[name])
        return None


def install(sos):
    """Import smt from REPO, with the freshly built extensions."""
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder(sos))
    import smt
    got = os.path.realpath(smt.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise BuildError("smt imported from %s" % got)


def libasan():
    return [subprocess.check_output(["g++", "-print-file-name=lib%s.so" % n], text=True).strip() for n in ("asan", "ubsan")]
