"""Entry point of every check:  main.py <property> <tier>."""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        vlib.ensure_built()
        try:
            vlib.check_import()
        except vlib.MachineryError:
            raise
        mod = importlib.import_module("drivers." + prop.lower())
        ck = vlib.Check(prop, tier)
        mod.run(ck, tier == "thorough")
        rc = ck.finish()
    except vlib.MachineryError as e:
        print("MACHINERY-ERROR", e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
