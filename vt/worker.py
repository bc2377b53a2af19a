"""Runs one driver over cases, each in a forked child (isolation, crash and hang containment)."""
import importlib
import json
import os
import resource
import select
import shutil
import signal
import sys
import time
import traceback


def blame(e):
    """Whose exception is it? Results the harness cannot even read count against the code as well: what a
    conforming tree returns can be read (anything else fails on the unchanged tree)"""
    tb = traceback.extract_tb(e.__traceback__)
    if any(os.environ["VT_REPO"] + "/" in f.filename for f in tb):
        return f"CODE {type(e).__name__}: {e}"[:300]
    if isinstance(e, (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError)):
        return f"CODE unreadable result, {type(e).__name__}: {e} ({tb[-1].name})"[:300]
    return "HARNESS " + "".join(traceback.format_exception(e))[-1800:]


def child(fn, case, root, w):
    os.makedirs(root, exist_ok=True)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        obs = fn(case, root)
        obs.setdefault("error", "")
    except RecursionError:
        obs = {"error": "RecursionError"}
    except MemoryError:
        obs = {"error": "out of memory"}
    except BaseException as e:  # noqa
        obs = {"error": blame(e)}
    data = json.dumps(obs).replace(root, "/R").encode()
    with os.fdopen(w, "wb") as f:
        f.write(data)
    os._exit(0)


def main():
    driver, inp, outp, timeout = sys.argv[1:5]
    timeout = float(timeout)
    sys.setrecursionlimit(3000)
    mod = importlib.import_module("vt.drivers")
    fn = getattr(mod, "drive_" + driver)
    base = os.path.realpath(os.environ["VT_ROOT"])
    with open(inp) as f, open(outp, "w") as out:
        hung = 0
        for n, line in enumerate(f):
            if hung >= 3:      # enough evidence; the remaining cases are not executed
                out.write(json.dumps({"error": "SKIPPED"}) + "\n")
                continue
            case = json.loads(line)
            root = os.path.join(base, f"c{n}")
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(fn, case, root, w)
            os.close(w)
            buf, end = b"", time.time() + timeout
            while True:
                ready, _, _ = select.select([r], [], [], max(0, end - time.time()))
                if not ready:
                    os.kill(pid, signal.SIGKILL)
                    buf = json.dumps({"error": "no termination"}).encode()
                    hung += 1
                    break
                chunk = os.read(r, 1 << 16)
                if not chunk:
                    break
                buf += chunk
            os.close(r)
            os.waitpid(pid, 0)
            if not buf:
                buf = json.dumps({"error": "process died"}).encode()
            out.write(buf.decode() + "\n")
            shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
