import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import pbt, build, props


def main():
    pid = sys.argv[1]
    prop = props.PROPS[pid]()

    def bb():
        out = {}
        for fl in ["plain"] + (["asan"] if prop.ASAN else []):
            b = build.Builder(fl)
            try:
                b.build(prop.PROGRAMS, prop.HARNESSES)
            except build.BuildError as e:
                print("BUILD FAILED: %s" % e, file=sys.stderr)
                sys.exit(2)
            out[fl] = b.bin
        return out
    sys.exit(pbt.main(prop, bb))


main()
