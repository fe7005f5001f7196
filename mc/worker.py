"""One worker process of a check: reads work units (JSON lines) and runs them on the real code."""
import importlib, json, os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
out = os.fdopen(int(os.environ["MC_RESULT_FD"]), "w")

from rec import Rec  # noqa: E402


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    try:
        mod = importlib.import_module("checks." + pid.lower())
        if not getattr(mod, "NO_TFC", False):
            import tfc

            tree = os.environ["MC_TREE"]
            assert os.path.realpath(tfc.__file__).startswith(os.path.realpath(tree) + os.sep), tfc.__file__
        if hasattr(mod, "worker_init"):
            mod.worker_init(tier)
    except BaseException:
        out.write(json.dumps({"harness_error": traceback.format_exc()}) + "\n")
        out.flush()
        return
    for line in sys.stdin:
        gi, group = json.loads(line)
        rec = Rec(os.path.join(os.environ["MC_SCRATCH"], f"current.{os.getpid()}"))
        try:
            mod.run(group, rec, tier)
        except BaseException as e:
            tree = os.path.realpath(os.environ["MC_TREE"]) + os.sep
            if any(os.path.realpath(f.filename).startswith(tree) for f in traceback.extract_tb(e.__traceback__)):
                rec.fail("raised", f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2500:], None)
            else:
                out.write(json.dumps({"harness_error": f"group {group}\n" + traceback.format_exc()}) + "\n")
                out.flush()
                return
        out.write(json.dumps(rec.result(), default=str) + "\n")
        out.flush()


main()
