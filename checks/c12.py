"""C12: piecewise functions act piece by piece."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402


def batch(progs, first, pieces):
    import pwmachine
    out = []
    for k, p in enumerate(progs):
        out += pwmachine.run(p, first + k, pieces)
    return out


def tasks(thorough):
    num, depth = (2500, 32) if thorough else (120, 24)
    out = []
    size = 6
    for pieces in (1, 2, 3):
        for calc in (0, 1):
            progs, st = common.programs("FunctionMachine", num, depth, 100 * pieces + 10 * calc + common.SEED,
                                        env={"CALCULUS": str(calc), "PIECES": str(pieces)})
            out += [(f"programs {pieces}.{calc}.{i}..", batch, (progs[i:i + size], (1 + calc) * 100000 + i, pieces))
                    for i in range(0, len(progs), size)]
    return out


def run():
    return common.drive(
        "C12", "model_checking",
        "one observation per operation of the programs with piecewise functions generated by the function machine",
        "C12_Piecewise", tasks(common.THOROUGH), lanes=16, chunk=20000,
        limit=900 if common.THOROUGH else 200, deadline=9000 if common.THOROUGH else 400)


if __name__ == "__main__":
    common.main(run)
