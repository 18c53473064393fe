"""Entry point: run.py PID [--tier quick|thorough] [--seed N] [--only CASE-PREFIX]"""
import argparse, importlib, os, sys, traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from mc import core

    ck = core.Check(a.pid, tier, a.seed, a.only)
    sys.exit(core.supervise(ck, lambda: decide(ck, core)))


def decide(ck, core):
    # The code under test is imported from the working tree of /repo, nothing else.
    try:
        import rigeo
        assert os.path.realpath(rigeo.__file__).startswith("/repo/src/"), rigeo.__file__
    except Exception as e:
        ck.case_key = "import"
        ck.fail("exception", f"import rigeo failed: {e!r}", trace=traceback.format_exc()[-1500:])
        return ck.finish()
    mod = importlib.import_module("mc.checks." + ck.pid.lower())
    try:
        mod.main(ck)
    except core.Stop:
        pass
    except Exception as e:  # an exception of the code under test that escaped a case
        ck.case_key = "driver"
        ck.fail("exception", repr(e), trace=traceback.format_exc()[-2500:])
    return ck.finish()


if __name__ == "__main__":
    main()
