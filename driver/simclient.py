"""Client of the fork-server simulation binaries: one request = one exactly repeatable execution."""
import hashlib, os, shutil, struct, subprocess, tempfile


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > (256 << 20):
                    return d
            except OSError:
                pass
    return tempfile.gettempdir()


class HarnessError(Exception):
    pass


class Result:
    __slots__ = ("code", "sig", "nops", "allocs", "yields", "switches", "shash", "regions", "overflow", "clocks",
                 "text", "log", "_lines")

    def lines(self):
        return self.text.split("\n")

    def ops(self):
        """[(idx, kind, path, n)]"""
        out = []
        for l in self.lines():
            if l.startswith("O "):
                p = l.split(" ")
                out.append((int(p[1]), p[2], p[3], int(p[4])))
        return out

    def fired(self):
        return [l.split(" ")[2] + ":" + l.split(" ")[3] for l in self.lines() if l.startswith("F ")]

    def outcome(self):
        if self.sig:
            return "signal%d" % self.sig
        return "exit%d" % self.code

    def ok(self):
        return self.sig == 0 and self.code == 0

    def clean_failure(self):
        """Terminated by itself with a failure status."""
        return self.sig == 0 and self.code != 0

    def crashed_by_fault(self):
        return self.sig == 9


class Server:
    def __init__(self, binary):
        self.binary = binary
        self.p = None

    def start(self):
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC"}
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None

    def _read(self, n):
        b = self.p.stdout.read(n)
        if b is None or len(b) != n:
            raise HarnessError("simulation server died")
        return b

    def request(self, spec):
        if self.p is None or self.p.poll() is not None:
            self.start()
        data = spec.encode()
        self.p.stdin.write(struct.pack("<I", len(data)) + data)
        self.p.stdin.flush()
        n = struct.unpack("<I", self._read(4))[0]
        body = self._read(n)
        nl = body.index(b"\n")
        h = body[:nl].decode().split()
        r = Result()
        (r.code, r.sig, r.nops, r.allocs, r.yields, r.switches) = (int(x) for x in h[:6])
        r.shash, r.regions, r.overflow, r.clocks = int(h[6]), int(h[7]), int(h[8]), int(h[9])
        r.text = body[nl + 1:].decode("utf-8", "replace")
        if r.overflow:  # runaway: ended by the simulator's history bound
            r.sig, r.code = 24, 0
        if r.code == 97:
            raise HarnessError("child setup failed")
        return r


DEFAULT_ENV = {"mem": (0, 0), "clock": (0, 0, 1420070400), "omp": (1, 0, 0), "ent": 1, "tz": "UTC"}


class World:
    """A scratch filesystem for one scenario."""

    def __init__(self, servers, base=None):
        self.servers = servers
        self.root = tempfile.mkdtemp(prefix="scisim_dst_", dir=base or scratch_base())

    def reset(self):
        for n in os.listdir(self.root):
            p = os.path.join(self.root, n)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        os.makedirs(os.path.join(self.root, "work"))
        os.makedirs(os.path.join(self.root, "scene"))

    def destroy(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.root, *a)

    def install(self, scene):
        """scene: {xml, script, files}; out directory is created if requested."""
        self.reset()
        self.write("scene/scene.xml", scene["xml"].encode())
        if scene.get("script") is not None:
            self.write("scene/script.py", scene["script"].encode())
        for k, v in (scene.get("files") or {}).items():
            self.write("scene/" + k, v.encode())
        if scene.get("opts", {}).get("o"):
            os.makedirs(self.path("work", "out"), exist_ok=True)

    def write(self, rel, data):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)

    def read(self, rel):
        with open(self.path(rel), "rb") as f:
            return f.read()

    def exists(self, rel):
        return os.path.exists(self.path(rel))

    def tree(self):
        """All simulated files below work/: {relative path: bytes}"""
        out = {}
        w = self.path("work")
        for d, _, fs in os.walk(w):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as h:
                    out[os.path.relpath(p, w)] = h.read()
        return out

    def restore(self, tree):
        w = self.path("work")
        shutil.rmtree(w)
        os.makedirs(os.path.join(w))
        for k, v in tree.items():
            self.write("work/" + k, v)

    def run(self, sim, args, env=None, faults=(), oom=None, cpu=20):
        e = dict(DEFAULT_ENV)
        if env:
            e.update(env)
        log = self.path("log.txt")
        s = ["root " + self.root, "cwd " + self.path("work"), "log " + log, "cpu %d" % cpu,
             "mem %d %d" % tuple(e["mem"]), "clock %d %d %d" % tuple(e["clock"]), "omp %d %d %d" % tuple(e["omp"]),
             "ent %d" % e["ent"], "tz " + e["tz"]]
        for f in faults:
            s.append("fault %d %s %d %d" % (f[0], f[1], f[2], f[3]))
        if oom is not None:
            s.append("oom %d" % oom)
        s += ["arg " + str(a) for a in args]
        r = self.servers[sim].request("\n".join(s) + "\n")
        with open(log, "rb") as f:
            r.log = f.read().decode("utf-8", "replace")
        return r


def start_args(scene):
    o = scene.get("opts", {})
    a = ["../scene/scene.xml"]
    if o.get("e") is not None:
        a += ["-e", o["e"]]
    if o.get("o"):
        a += ["-o", "out"]
    if o.get("i"):
        a += ["-i"]
    if o.get("f") is not None:
        a += ["-f", str(o["f"])]
    if o.get("s") is not None:
        a += ["-s", str(o["s"])]
    return a


def digest(tree):
    h = hashlib.sha256()
    for k in sorted(tree):
        h.update(k.encode() + b"\0" + hashlib.sha256(tree[k]).digest())
    return h.hexdigest()


def history_digest(r):
    """Everything observable of one execution."""
    h = hashlib.sha256()
    h.update(("%d %d %d %d %d\n" % (r.code, r.sig, r.nops, r.switches, r.shash)).encode())
    h.update(r.text.encode())
    return h.hexdigest()
