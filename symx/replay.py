"""Runs harness cases concretely on the real, uninstrumented code of /repo.

usage: replay.py REPO            reads JSON lines {module, tier, case, assignment}
       replay.py REPO FILE.json  replays one recorded counterexample
"""
import contextlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Hang(BaseException):
    pass


def unprivileged():
    """Whatever the code does to files cannot reach more than scratch directories"""
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)


def plain(o):
    if isinstance(o, dict):
        return {plain(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return sorted((plain(x) for x in o), key=repr)
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    return "<%s>" % type(o).__name__


def run_one(req):
    import importlib

    from symx import api

    mod = importlib.import_module(req["module"])
    if getattr(mod, "UNPRIVILEGED", False):
        unprivileged()
    case = [c for c in mod.cases(req["tier"]) if c.name == req["case"]][0]
    sx = api.ConcreteSX(req["assignment"], req.get("partial", False))
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="sxreplay")
    os.chdir(tmp)

    def hang(*_):
        raise Hang()

    signal.signal(signal.SIGALRM, hang)
    signal.setitimer(signal.ITIMER_REAL, 15)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            case.fn(sx, **case.params)
        res = {"status": "ok"}
    except api.AssumeFailed:
        res = {"status": "assume"}
    except api.Diverged as e:
        res = {"status": "diverged", "message": str(e)}
    except api.CheckFailed as e:
        res = {"status": "violated", "message": str(e)}
    except Hang:
        res = {"status": "violated", "message": "does not terminate (15 s)"}
    except Exception as e:
        res = {
            "status": "violated",
            "message": "unexpected %s: %s" % (type(e).__name__, e),
            "traceback": traceback.format_exc(),
        }
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    res["observations"] = plain(sx.observations)
    return res


def main():
    repo = sys.argv[1]
    sys.dont_write_bytecode = True
    sys.path[:0] = [repo, HERE]
    if sys.argv[2:] == ["--calls"]:
        import importlib

        calls = json.load(sys.stdin)
        with contextlib.redirect_stdout(io.StringIO()):
            out = [getattr(importlib.import_module(m), f)(*a) for m, f, a in calls]
        json.dump(out, sys.stdout)
        return
    if len(sys.argv) > 2:
        with open(sys.argv[2]) as f:
            req = json.load(f)
        print("inputs:", json.dumps(req["assignment"], indent=1))
        res = run_one(req)
        print(res["status"], "-", res.get("message", ""))
        print(res.get("traceback", ""))
        sys.exit(1 if res["status"] == "violated" else 0)
    out = os.fdopen(os.dup(1), "w")
    import importlib

    for line in sys.stdin:
        # a process per run: no run sees the state another left in the library
        req = json.loads(line)
        try:
            importlib.import_module(req["module"])
        except Exception:
            pass
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(run_one(req)))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        out.write((text or json.dumps(dict(
            status="error", message="the run died", observations=[]))) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
