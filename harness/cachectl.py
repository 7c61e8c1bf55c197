"""Controls real processes that share a cache directory, one file operation at a time."""
import json
import os
import shutil
import socket
import subprocess
import sys
import tempfile
import time

import common

_SERVER = None
HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def build():
    """Compile the preloaded library into this run's scratch directory."""
    so = os.path.join(common.scratch(), "fsgate.so")
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", so, os.path.join(HERE, "fsgate.c"), "-ldl"],
                       capture_output=True, text=True)
    if r.returncode:
        raise common.MachineryError("fsgate.c: " + r.stderr[-500:])
    return so


def environment(cache):
    e = dict(os.environ)
    e.update(LD_PRELOAD=os.path.join(common.scratch(), "fsgate.so"), XDG_CACHE_HOME=cache, SYMFEM=common.REPO,
             PYTHONDONTWRITEBYTECODE="1")
    return e


class Server:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="cs-", dir=common.scratch())
        self.cache = os.path.join(self.dir, "cache")
        os.mkdir(self.cache)
        self.path = os.path.join(self.dir, "s")
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.bind(self.path)
        self.sock.listen(8)
        self.sock.settimeout(30)
        self.proc = subprocess.Popen([PYTHON, "-B", os.path.join(HERE, "cacheserver.py"), self.cache],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=environment(self.cache), text=True)
        if self.proc.stdout.readline().strip() != "ready":
            raise common.MachineryError("cache server did not start")

    def spawn(self, el, what):
        self.proc.stdin.write(self.path + "\t" + json.dumps(el) + "\t" + what + "\n")
        self.proc.stdin.flush()
        c, _ = self.sock.accept()
        return Process(c)

    def wipe(self):
        for d, _, fs in os.walk(self.cache):
            for f in fs:
                os.unlink(os.path.join(d, f))


def server():
    global _SERVER
    if _SERVER is None:
        _SERVER = Server()
    return _SERVER


class Process:
    """One process: waiting at an operation, running (possibly blocked by another one), or over."""

    def __init__(self, sock, popen=None):
        self.sock, self.buf, self.popen = sock, b"", popen
        self.pending, self.out, self.over, self.killed = None, None, False, False
        self.events = []

    def pump(self, wait):
        """Read what the process says until it waits or is over; False when it is still running."""
        end = time.time() + wait
        while self.pending is None and not self.over:
            k = self.buf.find(b"\n")
            if k >= 0:
                line, self.buf = self.buf[:k].decode(errors="replace"), self.buf[k + 1:]
                f = line.split("\t")
                if f[0] in ("result", "failed"):
                    self.out = (f[0], json.loads(f[1]))
                elif f[0] == "=":
                    self.events[-1]["r"] = int(f[1])
                else:
                    self.pending = f
                continue
            left = end - time.time()
            if left <= 0:
                return False
            self.sock.settimeout(left)
            try:
                data = self.sock.recv(65536)
            except socket.timeout:
                return False
            except ConnectionResetError:
                data = b""
            if not data:
                self.over = True
                self.sock.close()
                if self.popen:
                    self.popen.wait()
            self.buf += data
        return True

    def step(self, a):
        op = self.pending
        self.pending = None
        self.events.append({"op": op[0], "f": op[1], "to": op[2], "n": int(op[3]), "r": 0, "a": a})
        if a == "k":
            self.killed = True
        try:
            self.sock.sendall(a.encode())
        except (BrokenPipeError, ConnectionResetError):
            pass
        return self.events[-1]


CODE = {"go": "g", "half": "g", "kill": "k", "end": "e", "one": "a", "whole": "w"}


def run(procs, schedule, limit=60):
    """Run the processes under a schedule of [process, action]; returns the history of operations."""
    t0 = time.time()
    hist = []
    todo = list(schedule)
    turn = 0
    while True:
        alive = []
        for i, p in enumerate(procs):
            if not p.over:
                if p.pending is None:
                    p.pump(30 if time.time() - t0 < 30 and not getattr(p, "slow", False) else 0.3)
                    p.slow = p.pending is None and not p.over
                if not p.over:
                    alive.append(i)
        if not alive:
            return hist
        if time.time() - t0 > limit:
            for p in procs:
                p.sock.close()
                if p.popen:
                    p.popen.kill()
            return None
        ready = [i for i in alive if procs[i].pending is not None]
        if not ready:
            continue
        if todo:
            q, a = todo.pop(0)
            q = (q - 1) % len(procs)
            if q not in ready:
                q = ready[q % len(ready)]
        else:
            q, a = ready[turn % len(ready)], "go"
            turn += 1
        e = procs[q].step(CODE[a])
        hist.append((q + 1, e))
        # let it perform the operation before anybody else moves
        if a != "kill":
            procs[q].pump(0.5)
        else:
            procs[q].pump(5)
