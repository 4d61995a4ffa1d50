#!/usr/bin/env python3
"""check.py <PROPERTY>: runs the check of one property (see DESIGN.md)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        vlib.TIER, vlib.THOROUGH = sys.argv[2], sys.argv[2] == "thorough"
        os.environ["VERIF_TIER"] = sys.argv[2]
    try:
        c = vlib.Check(pid)
        try:
            getattr(checks, pid)(c)
        except vlib.CodeDied as e:
            c.fail(str(e), {"driver": str(e)})
        except vlib.Enough:
            pass
        except vlib.ToolError as e:
            if not c.violations:
                raise
            print("what followed could not be decided:", e)
        return c.finish()
    except vlib.ToolError as e:
        print("ERROR: the check could not decide:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
