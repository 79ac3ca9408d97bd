"""Runs harnesses with concrete inputs on the real, uninstrumented code.  Reads
one JSON job per line; answers one JSON line per job."""
import importlib
import json
import os
import resource
import signal
import sys
import traceback


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_one(mod, hname, values, tier):
    from sx import api
    for fn, params in api.HARNESSES:
        if fn.__name__ == hname:
            break
    else:
        return {"status": "error", "msg": "no harness " + hname}
    S = api.ConcreteS(tier, params, values)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, 10)
    try:
        fn(S)
        r = {"status": "ok"}
    except api.Skip as e:
        r = {"status": "skip", "msg": str(e)}
    except api.HarnessViolation as e:
        r = {"status": "violation", "msg": str(e)}
    except Timeout:
        r = {"status": "violation", "msg": "does not terminate"}
    except MemoryError:
        r = {"status": "violation", "msg": "does not terminate (memory)"}
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ["%s:%s in %s" % (os.path.basename(f.filename), f.lineno,
                                  f.name) for f in tb[-4:]]
        try:
            es = str(e)
        except Exception:
            es = "?"
        r = {"status": "violation",
             "msg": "unexpected %s: %s" % (type(e).__name__, es[:300]),
             "where": where}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    r["notes"] = S.notes
    r["observed"] = S.observed
    return r


def setup(checkid):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("SX_REPO", "/repo")
    sys.dont_write_bytecode = True
    sys.path.insert(0, here)
    sys.path.insert(0, repo)
    import warnings
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(2000)
    # an optional dependency, which the installation at hand does not have
    sys.modules["dateutil"] = sys.modules["dateutil.parser"] = None
    return importlib.import_module("checks." + checkid)


def main():
    checkid = sys.argv[1]
    resource.setrlimit(resource.RLIMIT_AS, (1 << 31, 1 << 31))
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    mod = setup(checkid)
    for line in sys.stdin:
        job = json.loads(line)
        r = run_one(mod, job["harness"], job["values"], job["tier"])
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
