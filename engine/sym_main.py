"""python -m engine.sym_main <ID> <tier> <seed> <out.json>: run the deductive part of one contract file."""
import sys, os, importlib
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    prop, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    from engine import harness
    mod = importlib.import_module("contracts." + prop)
    C = harness.Checker(prop, tier, seed, out)
    C.flush()
    harness.load()
    C.run(mod.symbolic)
    C.flush()
    if os.environ.get("VP_DEBUG"):
        for o in C.obs:
            print("%-10s %-60s %6.2fs %s %s" % (o["status"], o["name"], o["time"], o["backend"], "" if o["status"] == "proved" else o["detail"][:700]))
        print(C.blocks)


if __name__ == "__main__":
    main()
