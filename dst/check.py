"""check.py CXX [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--replay FILE]"""
import sys, os
sys.dont_write_bytecode = True
import importlib
import rtl

MODULES = ("checks_stream", "checks_bus", "checks_blocks", "checks_sw", "checks_host")


def registry():
    import core
    out = {}
    here = os.path.dirname(os.path.abspath(__file__))
    for m in MODULES:
        if not os.path.exists(os.path.join(here, m + ".py")):
            continue
        mod = importlib.import_module(m)
        for x in vars(mod).values():
            if isinstance(x, type) and issubclass(x, core.Check) and x.pid and x.__module__ == m:
                out[x.pid] = x
    return out


def main():
    import core
    if len(sys.argv) < 2:
        print("\n".join(sorted(registry())))
        return 2
    pid = sys.argv[1]
    reg = registry()
    if pid not in reg:
        sys.stderr.write("no check %s\n" % pid)
        return 2
    try:
        return core.main(reg[pid](), sys.argv[2:])
    except rtl.BuildError as e:
        sys.stderr.write("BUILD ERROR\n%s\n" % e)
        return 2
    except Exception:
        import traceback
        sys.stderr.write("HARNESS ERROR\n%s" % traceback.format_exc())
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
