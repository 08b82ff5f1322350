"""Makes the code under test importable from /repo's *current* working tree.

The Cython extensions are compiled artefacts: when the sources they were built from (by /opt/vp/build.sh) are still the
ones in the tree, /repo itself goes on sys.path; otherwise the package is copied to a scratch directory and the
extensions are rebuilt there.  Nothing tracked in /repo is touched.
"""
import atexit, glob, hashlib, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
EXTS = [("pygsti/tools", "fastcalc", "c"), ("pygsti/objects/opcalc", "fastopcalc", "cpp"),
        ("pygsti/objects/replib", "fastreplib", "cpp"), ("pygsti/io/circuitparser", "fastcircuitparser", "cpp")]


def _sum(root, d):
    """Same digest as /opt/vp/ext.sh."""
    files = []
    for base, _, names in os.walk(os.path.join(root, "pygsti")):
        rel = os.path.relpath(base, root)
        for n in names:
            p = rel + "/" + n
            if n.endswith(".pxd") or (n.endswith((".pyx", ".h")) or n == "fastreps.cpp") and (p.startswith(d + "/")):
                files.append(p)
    # 'sort' in the C.UTF-8 locale: byte order
    files.sort(key=lambda s: s.encode())

    def line(p):
        h = hashlib.sha256(open(os.path.join(root, p), "rb").read()).hexdigest()
        return "%s  %s\n" % (h, p)
    txt = line("setup.py") + "".join(line(p) for p in files)
    return hashlib.sha256(txt.encode()).hexdigest() + "  -"


def ext_current(root):
    for d, name, _ in EXTS:
        if not glob.glob(os.path.join(root, d, name + ".cpython-*.so")):
            return False
        try:
            stamp = open(os.path.join(root, "build/vpstamps", name)).read().strip()
        except OSError:
            return False
        if stamp != _sum(root, d):
            return False
    return True


def prepare():
    """Returns the directory to put first on sys.path."""
    if ext_current(REPO):
        return REPO
    scratch = tempfile.mkdtemp(prefix="verif_build_")
    pid = os.getpid()

    def _rm():
        if os.getpid() == pid:
            shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(_rm)
    dst = os.path.join(scratch, "repo")
    os.mkdir(dst)
    shutil.copytree(os.path.join(REPO, "pygsti"), os.path.join(dst, "pygsti"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "fastcalc.c", "fastopcalc.cpp",
                                                  "fastreplib.cpp", "fastcircuitparser.cpp"))
    for n in ("setup.py", "README.md", "setup.cfg", "MANIFEST.in", "LICENSE"):
        if os.path.exists(os.path.join(REPO, n)):
            shutil.copy(os.path.join(REPO, n), dst)
    env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="0.9.9.2", PYTHONPATH="")
    env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "")
    r = subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace", "-j", "4"], cwd=dst, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for d, name, _ in EXTS:
        if not glob.glob(os.path.join(dst, d, name + ".cpython-*.so")):
            sys.stderr.write(r.stdout[-3000:])
            raise SystemExit("extension %s was not built" % name)
    return dst


if __name__ == "__main__":
    print(ext_current(REPO), prepare())
