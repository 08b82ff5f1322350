"""Runs jobs on p ranks (real processes with different hash seeds) against a scheduled stand-in communicator and
records every collective call."""
import os, pickle, socket, struct, subprocess, sys, atexit
import vf

HERE = os.path.dirname(os.path.abspath(__file__))


class World(object):
    def __init__(self, n, rng):
        self.n, self.rng = n, rng
        self.procs = {}
        for r in range(n):
            self.spawn(r)
        for r in range(n):
            self.recv(r)
        atexit.register(self.close)

    def spawn(self, r):
        a, b = socket.socketpair()
        env = dict(os.environ, PYTHONHASHSEED=str(17 + 31 * r), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "mpiworker.py"), str(b.fileno()), str(r)],
                             env=env, pass_fds=[b.fileno()], stdin=subprocess.DEVNULL)
        b.close()
        a.settimeout(240)
        self.procs[r] = (p, a)

    def close(self):
        for p, a in self.procs.values():
            a.close()
            p.kill()
            p.wait()
        self.procs = {}

    def send(self, r, o):
        b = pickle.dumps(o)
        self.procs[r][1].sendall(struct.pack("<I", len(b)) + b)

    def recv(self, r):
        s = self.procs[r][1]

        def rd(n):
            b = b""
            while len(b) < n:
                c = s.recv(n - len(b))
                if not c:
                    raise vf.MachineryError("rank %d died" % r)
                b += c
            return b
        return pickle.loads(rd(struct.unpack("<I", rd(4))[0]))

    def serial(self, name, params):
        self.send(0, (name, params, 0))
        m = self.recv(0)
        if m[0] != "exit":
            raise vf.MachineryError("serial run of %s %r failed: %s\n%s" % (name, params, m[1], m[2]))
        return m[1]

    def restart(self, ranks):
        for r in ranks:
            p, a = self.procs[r]
            a.close()
            p.kill()
            p.wait()
        for r in ranks:
            self.spawn(r)
        for r in ranks:
            self.recv(r)

    def run(self, name, params, p):
        """-> (events, {rank: result}); ranks are numbered from 1 in events"""
        ev = []
        out = {}
        comms = {1: list(range(p))}
        for r in range(p):
            self.send(r, (name, params, p))
        running = set(range(p))
        waiting = {}                      # rank -> (cid, kind, root, n, data)
        stop = False
        while running and not stop:
            for r in self.rng.sample(sorted(running), len(running)):
                m = self.recv(r)
                running.discard(r)
                if m[0] == "call":
                    waiting[r] = m[1:]
                    ev.append(dict(op="call", r=r + 1, c=m[1], k=m[2], root=m[3], n=m[4]))
                elif m[0] == "exit":
                    out[r] = m[1]
                    ev.append(dict(op="exit", r=r + 1))
                else:
                    ev.append(dict(op="raise", r=r + 1, msg=m[1], tb=m[2].splitlines()[-3:]))
                    stop = True
            if stop:
                break
            ready = [c for c in comms if all(waiting.get(r, (None,))[0] == c for r in comms[c])]
            self.rng.shuffle(ready)
            for c in ready:
                mem = comms[c]
                w = [waiting[r] for r in mem]
                if len({x[1:4] for x in w}) > 1:
                    stop = True           # the calls differ: already rejected by the specification
                    break
                kind, root = w[0][1], w[0][2]
                if kind in ("bcast", "Bcast", "scatter"):
                    ans = [w[root][4]] * len(mem)
                elif kind == "barrier":
                    ans = [None] * len(mem)
                elif kind == "Split":
                    groups = {}
                    for i, r in enumerate(mem):
                        groups.setdefault(w[i][4][0], []).append((w[i][4][1], i, r))
                    new = []
                    where = {}
                    for col in sorted(groups):
                        cid = len(comms) + 1
                        comms[cid] = [r for _, _, r in sorted(groups[col])]
                        new.append(dict(c=cid, m=[r + 1 for r in comms[cid]]))
                        for r in comms[cid]:
                            where[r] = (cid, comms[cid])
                    ev.append(dict(op="split", c=c, color=[x[4][0] for x in w], key=[x[4][1] for x in w], new=new))
                    ans = [where[r] for r in mem]
                else:
                    ans = [[x[4] for x in w]] * len(mem)
                for r, a in zip(mem, ans):
                    del waiting[r]
                    self.send(r, a)
                    running.add(r)
        if len(out) < p and not stop:
            ev.append(dict(op="stuck"))
        if len(out) < p:
            self.restart([r for r in range(p) if r in waiting or r in running or r not in out])
        return ev, out
