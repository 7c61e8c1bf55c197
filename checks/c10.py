"""C10: arithmetic, indexing and substitution of functions are pointwise."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import fmachine  # noqa: E402


def batch(progs, first):
    out = []
    for k, p in enumerate(progs):
        out += fmachine.run(p, first + k)
    return out


def tasks(thorough):
    num, depth = (6000, 30) if thorough else (700, 22)
    progs, st = common.programs("FunctionMachine", num, depth, common.SEED, env={"CALCULUS": "0", "PIECES": "0"})
    size = 10
    return [(f"programs {i}..", batch, (progs[i:i + size], i)) for i in range(0, len(progs), size)]


def run():
    return common.drive(
        "C10", "model_checking",
        "one observation per operation of the programs generated by the function machine",
        "C10_Algebra", tasks(common.THOROUGH), lanes=16, chunk=20000,
        limit=900 if common.THOROUGH else 200, deadline=9000 if common.THOROUGH else 400)


if __name__ == "__main__":
    common.main(run)
