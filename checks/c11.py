"""C11: derivatives, norms and integrals of functions agree with their analytic definitions."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import fmachine  # noqa: E402


def batch(progs, first):
    import calculus
    out = []
    for k, p in enumerate(progs):
        out += [(lab, o) for lab, o in fmachine.run(p, first + k, calculus) if o["op"] in calculus.OPS]
    return out


def tasks(thorough):
    num, depth = (6000, 30) if thorough else (500, 22)
    progs, st = common.programs("FunctionMachine", num, depth, 1000 + common.SEED, env={"CALCULUS": "1", "PIECES": "0"})
    size = 10
    return [(f"programs {i}..", batch, (progs[i:i + size], i)) for i in range(0, len(progs), size)]


def run():
    return common.drive(
        "C11", "model_checking",
        "one observation per calculus operation of the programs generated by the function machine",
        "C11_Calculus", tasks(common.THOROUGH), lanes=16, chunk=20000,
        limit=900 if common.THOROUGH else 200, deadline=9000 if common.THOROUGH else 400)


if __name__ == "__main__":
    common.main(run)
