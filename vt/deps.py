"""Make hypothesis importable, offline, wherever the check runs."""
import glob, os, sys

_HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _try():
    try:
        import hypothesis  # noqa: F401
        return True
    except Exception:
        return False


def ensure():
    d = os.path.join(_HERE, ".deps")
    if os.path.isdir(os.path.join(d, "hypothesis")) and d not in sys.path:
        sys.path.append(d)
    if _try():
        return
    # fall back: wheels are importable zip archives unless compiled; unpack privately
    import tempfile, zipfile, atexit, shutil
    t = tempfile.mkdtemp(prefix="vt-deps-")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(t, ignore_errors=True))
    tag = "cp%d%d" % sys.version_info[:2]
    for pat in ("hypothesis-*" + tag + "*.whl", "hypothesis-*none-any.whl", "sortedcontainers-*.whl"):
        for w in glob.glob(os.path.join("/opt/veriftools/wheels", pat)):
            zipfile.ZipFile(w).extractall(t)
    sys.path.append(t)
    if _try():
        return
    for d in glob.glob("/opt/veriftools/pyvenv/lib/python3.12/site-packages"):
        sys.path.append(d)
    import hypothesis  # noqa: F401


ensure()
