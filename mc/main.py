import importlib
import json
import sys
import traceback

import common


def main():
    pid = sys.argv[1]
    replay = None
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            replay = json.load(f)
    mod = importlib.import_module(pid.lower())
    chk = common.Check(pid, mod.LEVEL, mod.RULE, getattr(mod, "ASSUMPTIONS", ()))
    try:
        import inflation
        if not inflation.__file__.startswith("/repo/"):
            raise common.HarnessError(f"wrong package {inflation.__file__}")
    except common.HarnessError:
        raise
    with common.quiet():
        warm = getattr(mod, "warmup", None)
    if warm:
        try:
            with common.quiet():
                warm()
        except Exception as e:
            if common._in_repo(e.__traceback__):
                chk.viol.append(({"warmup": True}, f"exception:{type(e).__name__}",
                                 "the implementation raised on a valid input:\n"
                                 + traceback.format_exc()))
                sys.exit(chk.finish())
            raise
    for func, tasks in mod.plan(common.THOROUGH):
        if replay is not None:
            tasks = [t for t in tasks if common.canon_json(t) == common.canon_json(replay["task"])]
            if not tasks:
                continue
        chk.run(func, tasks, parallel=replay is None)
    fin = getattr(mod, "finalize", None)
    if fin and replay is None:
        fin(chk)
    sys.exit(chk.finish())


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
