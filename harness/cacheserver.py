"""Runs under fsgate.so: forks processes that use the matrix cache, each attached to a controller.

argv: directory to watch.  Requests on stdin: socket path TAB json(element) TAB what; one forked process each.
With argv[2] (an inherited descriptor) the import of symfem itself is the watched process.
"""
import ctypes
import json
import os
import signal
import socket
import sys


def gate():
    return ctypes.CDLL(os.environ["LD_PRELOAD"])


def work(el, what):
    import history
    e = history.make(("E",) + tuple(el))
    if what == "dual":
        a = e.get_dual_matrix()
    elif what == "inverse":
        a = e.get_dual_matrix(inverse=True)
    elif what == "plain":
        a = [e.get_dual_matrix(caching=False), e.get_dual_matrix(inverse=True, caching=False)]
    else:
        a = e.get_basis_functions()
    if what == "plain":
        return [history.digest(history.canon(b)) for b in a]
    return history.digest(history.canon(a))


def report(fd, what, value):
    os.write(fd, (what + "\t" + json.dumps(value) + "\n").encode())


def attached(fd, fn):
    try:
        v = ("result", fn())
    except BaseException as e:
        v = ("failed", type(e).__name__ + ": " + str(e)[:150])
    gate().vp_set(-1, -1, b"")
    report(fd, *v)
    os._exit(0)


def main():
    watch = sys.argv[1].encode()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, os.environ["SYMFEM"])
    if len(sys.argv) > 2:
        fd = int(sys.argv[2])

        def fn():
            import symfem  # noqa: F401
            return work(json.loads(sys.argv[3]), sys.argv[4])
        attached(fd, fn)
    import symfem  # noqa: F401
    import history  # noqa: F401
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    print("ready", flush=True)
    for line in sys.stdin:
        path, el, what = line.rstrip("\n").split("\t")
        if os.fork() == 0:
            s = socket.socket(socket.AF_UNIX)
            s.connect(path)
            fd = s.fileno()
            g = gate()

            def fn():
                if what != "plain":
                    g.vp_set(fd, fd, watch)
                return work(json.loads(el), what)
            attached(fd, fn)


if __name__ == "__main__":
    main()
