"""setup_cmd: checks the toolchain and self-tests the simulator; the designs are built by the checks themselves."""
import os, sys, subprocess
sys.dont_write_bytecode = True


def main():
    for t in ("/usr/bin/yosys", "/usr/bin/clang", "/opt/pypyvenv/bin/python"):
        if not os.path.exists(t):
            sys.stderr.write("missing %s\n" % t)
            return 1
    here = os.path.dirname(os.path.abspath(__file__))
    os.makedirs(os.path.join(os.path.dirname(here), "build"), exist_ok=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
