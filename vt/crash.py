"""Crash injection: run a function in a forked child that dies before its k-th file-system
operation, optionally leaving the file it last opened for writing cut short.

Operations are observed with a Python audit hook, so the injection does not depend on how the
code under test is written: any creation, replacement, removal of files or directories and any
database connection counts, whichever library call leads to it.
"""
from __future__ import annotations

import os
import signal
import sys
import time

OPS = {"os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.truncate", "os.link", "os.symlink", "sqlite3.connect"}
WR = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _is_write_open(args):
    path, mode, flags = (tuple(args) + (None, None, None))[:3]
    if isinstance(flags, int) and flags & WR:
        return True
    return isinstance(mode, str) and any(c in mode for c in "wax+")


def run(fn, kill_at=None, torn=None, timeout=60):
    """Fork, run fn().  Returns (status, n_ops, message): status 'done', 'crashed' or 'error'."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.close(r)
            signal.alarm(timeout)
            st = {"n": 0, "last": None, "on": True}

            def hook(event, args):
                if not st["on"]:
                    return
                if event == "open":
                    if not _is_write_open(args):
                        return
                elif event not in OPS:
                    return
                k = st["n"]
                if kill_at is not None and k == kill_at:
                    st["on"] = False
                    if torn is not None and st["last"] is not None:
                        try:
                            size = os.path.getsize(st["last"])
                            os.truncate(st["last"], int(size * torn))
                        except OSError:
                            pass
                    os.write(w, b"%d crashed" % k)
                    os._exit(7)
                st["n"] += 1
                st["last"] = None
                if event == "open" and isinstance(args[0], (str, bytes)):
                    p = os.fsdecode(args[0])
                    if os.path.isabs(p) and not p.startswith("/dev/") and "sqlite" not in p and not p.endswith(".lock"):
                        st["last"] = p

            sys.addaudithook(hook)
            try:
                fn()
                st["on"] = False
                os.write(w, b"%d done" % st["n"])
                code = 0
            except BaseException as e:  # noqa: BLE001
                st["on"] = False
                os.write(w, ("%d error %s: %s" % (st["n"], type(e).__name__, str(e)[:300])).encode())
                code = 8
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    try:
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    parts = data.decode(errors="replace").split(" ", 2)
    if len(parts) < 2:
        return "error", 0, "child died without a report (timeout?)"
    return parts[1], int(parts[0]), parts[2] if len(parts) > 2 else ""


def fork_call(fn, timeout=60):
    """Run fn() in a forked child, return its picklable result; exceptions come back as instances of RuntimeError."""
    import pickle
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            os.close(r)
            try:
                res = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                res = ("exc", type(e).__name__, str(e)[:500])
            blob = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(blob)
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    try:
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not data:
        return ("exc", "Died", "child died or timed out")
    return pickle.loads(data)
