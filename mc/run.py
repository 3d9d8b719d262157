"""Entry point: run.py <property> [--tier quick|thorough] [--replay FILE]"""
import importlib
import json
import os
import shutil
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.dont_write_bytecode = True


def raised_by(repo, err):
    """Did the code of the repository raise it, or code that it called?"""
    where = [os.path.realpath(f.filename) for f in traceback.extract_tb(err.__traceback__)]
    ours = [i for i, f in enumerate(where) if f.startswith(os.path.realpath(VERIF) + os.sep)]
    theirs = [i for i, f in enumerate(where) if f.startswith(os.path.realpath(repo) + os.sep)]
    return bool(theirs) and (not ours or theirs[-1] > ours[-1])


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
        else:
            raise SystemExit("unknown argument " + a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=base)
    owner = os.getpid()
    code = 2
    try:
        os.environ["HOME"] = scratch
        os.environ["MPLCONFIGDIR"] = scratch
        os.environ["IPYTHONDIR"] = os.path.join(scratch, "ipython")
        os.environ["TMPDIR"] = scratch
        tempfile.tempdir = scratch
        os.chdir(scratch)
        repo = os.environ.get("TRAPPY_REPO", "/repo")
        sys.path.insert(0, VERIF)
        sys.path.insert(0, repo)
        import warnings
        warnings.simplefilter("ignore")
        from mc import core
        ctx = core.Ctx(prop, tier, seed, scratch)
        try:
            mod = importlib.import_module("checks." + prop.lower())
        except Exception:
            # trappy itself failing to import is a break of every property
            tb = traceback.format_exc()
            if "/trappy/" not in tb:
                raise
            ctx.violations.append(({"import": True}, "import", tb))
            class mod(object):
                LEVEL = "other"
                RULE = ""
            ctx.notes["explanation"] = "importing trappy failed"
            code = core.finish(ctx, mod)
            return code
        import trappy
        real = os.path.realpath(os.path.dirname(trappy.__file__))
        if real != os.path.realpath(os.path.join(repo, "trappy")):
            raise core.HarnessError("trappy imported from %s" % real)
        warnings.simplefilter("ignore")
        if replay:
            with open(replay) as f:
                rec = json.load(f)
            ctx.wdir = scratch
            if rec["case"] in ({"explore": True}, {"import": True}):
                rec["case"], mod.replay = ctx, lambda c: mod.explore(c) or core.Res()
            res = core.run_guarded(getattr(mod, "replay", None) or mod.run_case, rec["case"])
            for key, msg in res.fails:
                print("REPRODUCED key=%s\n%s" % (key, msg))
            code = 1 if res.fails else 0
            return code
        try:
            mod.explore(ctx)
        except core.HarnessError:
            raise
        except Exception as e:
            # while the cases were made, the code under test failed, or gave what is no answer
            if isinstance(e, (OSError, MemoryError)) and not raised_by(repo, e):
                raise
            ctx.violations.append(({"explore": True}, "exception:" + type(e).__name__, traceback.format_exc()))
            ctx.caps.append("stopped by an exception")
        code = core.finish(ctx, mod)
        return code
    except BaseException:
        if os.getpid() == owner:
            traceback.print_exc()
        code = 2
        return code
    finally:
        if os.getpid() == owner:
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)
            sys.stdout.flush()
            sys.stderr.flush()


if __name__ == "__main__":
    owner = os.getpid()
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
