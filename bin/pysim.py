#!/usr/bin/env python3
"""Simulation of the parser generator script (C14).

The real scripts/generate_antlr_parser.py runs, one forked process per simulated run of the script, over a simulated network
(real urllib and http.client above a simulated connection), a simulated java, a simulated clock, and a scratch folder in which
every file operation is an event that can fail, be cut short, or be the point at which the process or the machine goes down.
Several runs may be in progress at once: a parent hands the baton from one to the other at the events the plan names.
A plan is a JSON document; execution is a function of the plan and the script alone.
"""
import builtins, errno, hashlib, http.client, io, json, os, pathlib, random, select, shutil, signal, socket, ssl, stat, subprocess, sys, tempfile, time, urllib.request, zipfile  # noqa: F401,E501
import atexit, gc, logging, shlex, traceback  # noqa: E401

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRIPT = os.path.join(REPO, "scripts", "generate_antlr_parser.py")
REAL = {n: getattr(os, n) for n in ("open", "read", "write", "close", "stat", "lstat", "rename", "replace", "unlink", "remove", "listdir", "scandir", "mkdir", "rmdir", "fsync",
                                     "fdatasync", "truncate", "ftruncate", "link", "symlink", "chmod", "fstat", "_exit", "getpid", "urandom", "lseek", "access")}
REAL_OPEN, REAL_POPEN = builtins.open, subprocess.Popen
GRAMMARS = ("CqasmLexer", "CqasmParser")
MAXEV = 20000
HARNESS_RC, KILLED_RC, LIMIT_RC = 97, 98, 99


class Harness(Exception):
    pass


# ---------------------------------------------------------------- plans
def jar_bytes(size, seed):
    """A complete download: a well-formed archive of about the given size."""
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_STORED) as z:
        z.writestr(zipfile.ZipInfo("META-INF/MANIFEST.MF"), b"Manifest-Version: 1.0\r\nMain-Class: org.antlr.v4.Tool\r\n")
        z.writestr(zipfile.ZipInfo("org/antlr/v4/Tool.class"), random.Random(seed).randbytes(max(0, size)))
    return b.getvalue()


FAULTS = {  # site -> kinds (weight by repetition)
    "net.connect": ["refused", "gaierror", "timeout", "tls"],
    "net.send": ["reset"],
    "net.status": ["404", "500", "503", "403"],
    "net.recv": ["eof", "eof", "eof", "reset", "reset", "stall", "stall", "slow"],
    "open.w": ["EACCES", "ENOSPC", "EMFILE", "EIO", "EROFS"],
    "open.r": ["EACCES", "EIO", "EMFILE"],
    "write": ["full", "full", "full", "EIO"],
    "fsync": ["EIO", "ENOSPC"],
    "rename": ["EIO", "ENOSPC", "EACCES"],
    "unlink": ["EIO", "EACCES"],
    "mkdir": ["ENOSPC", "EACCES"],
    "java.start": ["missing", "missing", "denied", "nomem", "rc1", "rc2", "sig9", "sig11"],
    "java.write": ["rc1", "rc1", "sig9", "full", "sig6"],
    "java.end": ["rc1", "rc3", "sig9", "rc255", "rc256x"],
}


def gen_plan(rng, counts):
    """counts: how often each site is passed in a quiet run."""
    p = {"seed": rng.getrandbits(48), "jar": rng.choice([0, 10, 300, 5000, 9000, 40000, 150000]), "had_jar": rng.random() < 0.08, "net": {}, "groups": []}
    p["net"] = {"chunk": rng.choice([1 << 20, 65536, 4096, 1000]), "range": rng.random() < 0.7, "redirect": rng.random() < 0.2, "chunked": rng.random() < 0.1, "close": rng.random() < 0.2}
    p["pids"] = rng.random() < 0.5   # process ids come again, as in a container that is started anew
    p["split"] = rng.choice([1 << 20, 65536, 4096, 700])
    p["xdev"] = rng.random() < 0.15
    p["extra"] = rng.random() < 0.5
    p["again"] = rng.random() < 0.35   # later runs generate into the folders of earlier ones
    p["sched"] = []
    silent = rng.random() < 0.2
    if silent:
        p["net"].update(close=True, chunked=False)
    groups = rng.choice([1, 1, 2, 2, 2, 3])
    for _ in range(groups):
        par = rng.choice([1, 1, 1, 2, 2, 3])
        g = []
        for _ in range(par):
            r = {"faults": [], "down": None}
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                site = rng.choice(list(FAULTS))
                n = counts.get(site, 1)
                nth = rng.randrange(max(1, n)) if rng.random() < 0.8 else rng.randrange(max(1, 2 * n))
                a = rng.choice([0, 1, rng.randrange(1 << 20), rng.randrange(300), rng.randrange(1 << 16)])
                r["faults"].append({"site": site, "n": nth, "kind": rng.choice(FAULTS[site]), "a": a})
            if silent and rng.random() < 0.6:   # an answer that ends early without anyone noticing
                r["faults"].append({"site": "net.recv", "n": rng.randrange(max(1, counts.get("net.recv", 1))), "kind": "eof", "a": rng.randrange(1 << 20)})
            if rng.random() < (0.6 if silent else 0.35):
                x = rng.random()
                if x < 0.3 and r["faults"]:   # death shortly after a fault
                    r["down"] = {"site": "fault+", "n": rng.randrange(12), "kind": rng.choice(["kill", "kill", "int", "power", "power"])}
                elif x < 0.65:
                    k = rng.choice(["net.recv", "write", "rename", "unlink", "fsync", "open.w", "java.write", "java.start", "close", "java.end"])
                    r["down"] = {"site": k, "n": rng.randrange(max(1, counts.get(k, 1))), "kind": rng.choice(["kill", "kill", "int", "power", "power"])}
                else:
                    r["down"] = {"site": "*", "n": rng.randrange(max(1, counts.get("*", 50))), "kind": rng.choice(["kill", "kill", "int", "power", "power"])}
            g.append(r)
        p["groups"].append(g)
        if par > 1:
            t, sched = 0, []
            for _ in range(rng.choice([1, 2, 3, 6, 12])):
                t += rng.randrange(1, max(3, counts.get("*", 50) * par // 3))
                sched.append([t, rng.randrange(par)])
            p["sched"].append(sched)
        else:
            p["sched"].append([])
    p["power_after"] = rng.random() < 0.1   # the machine goes down after the last group, before the final run
    return p


# ---------------------------------------------------------------- the simulated process
class Proc:
    """State of the simulated process; lives in the forked child only."""
    def __init__(self, world, run, who, chan):
        self.w, self.run, self.who, self.chan, self.slot = world, run, who, chan, world.slot
        self.count, self.total, self.full = {}, 0, None
        self.fault_t = None   # when the first fault struck
        self.log_fd = world.log_fd
        self.jar = world.jar
        self.now = 1.7e9 + world.clock
        self.fault_map = {}
        for f in run["faults"]:
            self.fault_map.setdefault((f["site"], f["n"]), f)

    def log(self, *a):
        REAL["write"](self.log_fd, (json.dumps([self.who, *a]) + "\n").encode())

    def going_down(self, kind):
        self.log("down", kind)
        if kind == "int":
            raise KeyboardInterrupt()
        REAL["_exit"](KILLED_RC)

    def event(self, site, detail=""):
        """One simulated system call. Returns the fault to inject, if any."""
        if self.chan is not None:
            self.chan.send(b"e")
            if not self.chan.recv(1):
                REAL["_exit"](HARNESS_RC)
        n = self.count.get(site, 0)
        self.count[site] = n + 1
        t = self.total
        self.total += 1
        if t > MAXEV:
            self.log("limit")
            REAL["_exit"](LIMIT_RC)
        self.log("ev", site, detail)
        d = self.run["down"]
        if d and ((d["site"] == "*" and d["n"] == t) or (d["site"] == "fault+" and self.fault_t is not None and t - self.fault_t == d["n"] + 1) or (d["site"] == site and d["n"] == n)):
            self.going_down(d["kind"])
        f = self.fault_map.get((site, n))
        if f:
            self.log("fault", site, f["kind"])
            if self.fault_t is None:
                self.fault_t = t
        return f

    def inside(self, path):
        if isinstance(path, int):
            return True
        try:
            p = os.path.abspath(os.fsdecode(path))
        except (TypeError, ValueError):
            return False
        return p == self.w.root or p.startswith(self.w.root + "/")

    def rel(self, path):
        return os.path.relpath(os.path.abspath(os.fsdecode(path)), self.w.root) if not isinstance(path, int) else "#"


P = None  # the process simulated here


def oserr(name, path=None):
    e = getattr(errno, name)
    return OSError(e, os.strerror(e), path)


def deny(path):
    """A destructive call outside the scratch folder is stopped here."""
    P.log("outside", str(path))
    raise PermissionError(errno.EPERM, "outside the simulation", str(path))


def ino(fd):
    s = REAL["fstat"](fd)
    return s.st_ino, s.st_size


class SimRaw(io.FileIO):
    """A file in the scratch folder: writes are split, can fail, and are durable only once synchronised."""
    def _sim_init(self):
        self._simw = True
        return self

    def write(self, b):
        b = memoryview(b).cast("B")
        b = b[:max(1, P.w.plan["split"])]
        n = disk_room(len(b), "write")
        return super().write(b[:n])

    def close(self):
        if not self.closed and P is not None and getattr(self, "_simw", False):
            P.event("close")
        super().close()


def disk_room(n, site):
    """How many of n bytes the disk takes. Raises when it is full."""
    f = P.event(site)
    if f and f["kind"] == "EIO":
        raise oserr("EIO")
    if f and f["kind"] == "full":
        P.full = f["a"] % (n + 1) if n else 0
    if P.full is not None:
        take = min(n, P.full)
        P.full -= take
        if n and not take:
            raise oserr("ENOSPC")
        return take
    return n


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if P is None or (not isinstance(file, int) and not P.inside(file)):
        if P is not None and any(c in mode for c in "wax+"):
            deny(file)
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wax+")
    if not writing:
        if not isinstance(file, int):
            fault("open.r", file)
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int) and opener is None:
        fault("open.w", file)
    raw = SimRaw(file, mode.replace("b", "").replace("t", ""), closefd, opener)._sim_init()
    if "b" in mode and buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
    if "b" in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def fault(site, path, path2=None):
    f = P.event(site, P.rel(path))
    if f:
        raise oserr(f["kind"], None if isinstance(path, int) else os.fspath(path))


def guarded(name, site, npaths=1):
    real = REAL[name]

    def call(*a, **k):
        paths = a[:npaths]
        if any(k.get(x) is not None for x in ("dir_fd", "src_dir_fd", "dst_dir_fd")):
            return real(*a, **k)
        if not all(P.inside(x) for x in paths):
            deny(paths)
        fault(site, paths[0])
        if npaths == 2 and P.w.plan["xdev"] and name in ("rename", "replace", "link"):
            if any("/include" in os.fsdecode(x) for x in paths) != all("/include" in os.fsdecode(x) for x in paths):
                raise oserr("EXDEV", os.fspath(paths[0]))
        return real(*a, **k)
    call.__name__ = name
    return call


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
        if not P.inside(path):
            deny(path)
        fault("open.w", path)
    elif P.inside(path):
        fault("open.r", path)
    return REAL["open"](path, flags, mode, dir_fd=dir_fd)


def is_ours(fd):
    try:
        s = REAL["fstat"](fd)
    except OSError:
        return False
    return stat.S_ISREG(s.st_mode)


def sim_os_write(fd, data):
    if fd <= 2 or not is_ours(fd):
        return REAL["write"](fd, data)
    n = disk_room(len(data), "write")
    return REAL["write"](fd, memoryview(data).cast("B")[:n])


def sim_fsync(fd):
    fd = fd if isinstance(fd, int) else fd.fileno()
    fault("fsync", fd)
    i, size = ino(fd)
    P.log("sync", i, size)


def sim_stat(path, *a, **k):
    if not isinstance(path, int) and P.inside(path):
        P.event("stat", P.rel(path))
    return REAL["stat"](path, *a, **k)


def sim_listdir(path="."):
    if P.inside(path):
        P.event("listdir", P.rel(path))   # never fails: the library's own helpers (glob) take such a failure for an empty folder
    names = sorted(REAL["listdir"](path))
    random.Random(f"{P.w.plan['seed']}/{len(names)}").shuffle(names)
    return names


def sim_scandir(path="."):
    if P.inside(path):
        P.event("listdir", P.rel(path))   # never fails: the library's own helpers (glob) take such a failure for an empty folder
    return REAL["scandir"](path)


# ---------------------------------------------------------------- network
class NetRaw(io.RawIOBase):
    """The response as it arrives: chunks, slow peers, resets, early ends."""
    def __init__(self, data, conn):
        self.data, self.pos, self.conn, self.ended = data, 0, conn, None

    def readable(self):
        return True

    def readinto(self, b):
        if self.ended == "eof":
            return 0
        if self.ended == "reset":
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        f = P.event("net.recv")
        n = min(len(b), P.w.plan["net"]["chunk"], len(self.data) - self.pos)
        if f:
            k = f["kind"]
            if k in ("eof", "reset"):
                part = f["a"] % (n + 1) if n else 0
                if self.pos + part < len(self.data):   # an end after the last byte is no fault
                    self.ended = k
                    P.log("torn", k)
                n = part
                if n == 0 and self.ended:
                    return self.readinto(b)
            elif k == "stall":
                t = self.conn.timeout
                if t is None or t is socket._GLOBAL_DEFAULT_TIMEOUT:
                    t = socket.getdefaulttimeout()
                P.log("torn", "stall")
                if t is None:   # nobody gives up but the user
                    P.now += 3600
                    P.going_down("int" if f["a"] % 2 else "kill")
                P.now += t
                raise TimeoutError("timed out")
            elif k == "slow":
                P.now += 5
                n = min(n, 1)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class FakeSock:
    def __init__(self, conn):
        self.conn, self.out, self.resp = conn, b"", b""

    def sendall(self, data):
        f = P.event("net.send")
        if f:
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        self.out += bytes(data)
        if b"\r\n\r\n" in self.out:
            head, _, self.out = self.out.partition(b"\r\n\r\n")
            self.resp += self.answer(head.decode("latin-1"))

    def answer(self, head):
        lines = head.split("\r\n")
        method, path = lines[0].split(" ")[:2]
        hd = {k.strip().lower(): v.strip() for k, _, v in (x.partition(":") for x in lines[1:])}
        name = path.split("?")[0].rsplit("/", 1)[-1]
        net = P.w.plan["net"]
        body, status, extra = P.jar, "200 OK", []
        alg = {"sha1": "sha1", "md5": "md5", "sha256": "sha256", "sha512": "sha512"}.get(name.rsplit(".", 1)[-1])
        if alg and name.rsplit(".", 1)[0].endswith(".jar"):
            body = hashlib.new(alg, P.jar).hexdigest().encode()
        elif not name.endswith(".jar"):
            status, body = "404 Not Found", b"<html>not found</html>"
        elif net["redirect"] and "/mirror/" not in path:
            status, body, extra = "302 Found", b"", [f"Location: https://mirror.example/mirror/{name}"]
        f = P.event("net.status", method)
        if f:
            status, body, extra = f["kind"] + " Trouble", b"<html>trouble</html>" * 20, []
        elif "range" in hd and net["range"] and status.startswith("200") and hd["range"].startswith("bytes="):
            lo, _, hi = hd["range"][6:].partition("-")
            lo, hi = int(lo or 0), int(hi) if hi else len(body) - 1
            if lo >= len(body):
                status, extra, body = "416 Range Not Satisfiable", [f"Content-Range: bytes */{len(body)}"], b""
            else:
                extra = [f"Content-Range: bytes {lo}-{min(hi, len(body) - 1)}/{len(body)}"]
                status, body = "206 Partial Content", body[lo:hi + 1]
        length = len(body)
        if method == "HEAD":
            body = b""
        if net["chunked"] and method != "HEAD":
            enc, step = b"", 3000
            for i in range(0, len(body), step):
                enc += b"%x\r\n" % len(body[i:i + step]) + body[i:i + step] + b"\r\n"
            body = enc + b"0\r\n\r\n"
            extra.append("Transfer-Encoding: chunked")
        elif not net.get("close") or status[0] != "2" or alg:
            extra.append(f"Content-Length: {length}")   # otherwise the end of the connection is the end of the file
        return ("HTTP/1.1 " + status + "\r\n" + "".join(x + "\r\n" for x in extra) + "Accept-Ranges: bytes\r\nConnection: close\r\n\r\n").encode() + body

    def makefile(self, mode="rb", buffering=None, **k):
        return io.BufferedReader(NetRaw(self.resp, self.conn), 8192)

    def close(self):
        pass

    def shutdown(self, how):
        pass

    def settimeout(self, t):
        self.conn.timeout = t

    def setsockopt(self, *a):
        pass


def sim_connect(self):
    f = P.event("net.connect", self.host)
    if f:
        P.log("torn", f["kind"])
        raise {"refused": ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused"), "gaierror": socket.gaierror(-3, "Temporary failure in name resolution"),
               "timeout": TimeoutError("timed out"), "tls": ssl.SSLError(1, "handshake failure")}[f["kind"]]
    self.sock = FakeSock(self)


# ---------------------------------------------------------------- the generator
class SimPopen:
    """Stands in for subprocess.Popen: the only program there is, is java."""
    def __init__(self, args, *a, stdout=None, stderr=None, stdin=None, cwd=None, shell=False, text=None, universal_newlines=None, encoding=None, **k):
        if isinstance(args, (str, bytes)):
            args = shlex.split(os.fsdecode(args))
        self.args, self.pid, self.returncode = args, 4242, None
        self.text = text or universal_newlines or encoding
        self.stdin = None
        mk = lambda x: (io.StringIO("") if self.text else io.BytesIO(b"")) if x == subprocess.PIPE else None  # noqa: E731
        self.stdout, self.stderr = mk(stdout), mk(stderr)
        args = [os.fsdecode(x) for x in args]
        prog = os.path.basename(args[0])
        if prog != "java":
            P.log("program", prog)
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), args[0])
        self.rc = self.java(args, cwd or os.getcwd(), shell)

    def java(self, args, cwd, shell):
        """Runs to its end at once as far as the script can tell, but passes events at which others may run."""
        f = P.event("java.start")
        if f:
            k = f["kind"]
            e = {"missing": FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), args[0]), "denied": PermissionError(errno.EACCES, os.strerror(errno.EACCES), args[0]),
                 "nomem": OSError(errno.ENOMEM, os.strerror(errno.ENOMEM))}.get(k)
            if e is not None:
                if shell:
                    return 127 if k == "missing" else 126
                raise e
            return rc_of(k)
        opt = {}
        grammars, i = [], 1
        while i < len(args):
            if args[i] in ("-jar", "-o", "-lib", "-package", "-encoding"):
                opt[args[i]] = args[i + 1] if i + 1 < len(args) else ""
                i += 2
                continue
            (grammars if not args[i].startswith("-") else opt.setdefault("flags", [])).append(args[i])
            i += 1
        jar = opt.get("-jar", "")
        jp = os.path.join(cwd, jar)
        try:
            with REAL_OPEN(jp, "rb") as h:
                half = h.read(max(1, len(P.jar) // 2))
                P.event("java.load")
                got = half + h.read()
        except OSError:
            P.log("java", "nojar")
            return 1
        P.log("java", "complete" if got == P.jar else "incomplete", len(got), len(P.jar))
        if got != P.jar:
            return 1
        flags = opt.get("flags", [])
        out = os.path.join(cwd, opt.get("-o", os.path.dirname(grammars[0]) if grammars else "."))
        if not P.inside(out):
            deny(out)
        for g in grammars:
            gp = os.path.join(cwd, g)
            if not os.path.basename(g).endswith(".g4") or not P.inside(gp):
                return 1
            try:
                with REAL_OPEN(gp, "rb") as h:
                    h.read()
            except OSError:
                return 1
        os.makedirs(out, exist_ok=True) if not P.inside(out) else self.mk(out)
        made = []
        for g in grammars:
            base = os.path.basename(g)[:-3]
            names = [base + x for x in (".h", ".cpp", ".interp", ".tokens")]
            if base.endswith("Parser"):
                for kind, on in (("Visitor", "-visitor" in flags), ("Listener", "-no-listener" not in flags)):
                    if on:
                        names += [base + kind + x for x in (".h", ".cpp")] + [base + "Base" + kind + x for x in (".h", ".cpp")]
            for n in names:
                f = P.event("java.write", n)
                text = f"// {n} made by run {P.who}\n" + n * (len(n) * 7)
                if f:
                    k = f["kind"]
                    with REAL_OPEN(os.path.join(out, n), "w") as h:
                        h.write(text[:f["a"] % len(text)])
                    return rc_of("rc1" if k == "full" else k)
                with REAL_OPEN(os.path.join(out, n), "w") as h:
                    h.write(text)
                made.append(n)
        f = P.event("java.end")
        if f:
            return rc_of(f["kind"])
        P.log("made", os.path.relpath(out, P.w.root), made)
        return 0

    @staticmethod
    def mk(out):
        if not os.path.isdir(out):
            REAL["mkdir"](out)

    def wait(self, timeout=None):
        self.returncode = self.rc
        return self.rc

    def poll(self):
        return self.wait()

    def communicate(self, input=None, timeout=None):
        self.wait()
        e = "" if self.text else b""
        return (e if self.stdout is not None else None, e if self.stderr is not None else None)

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, s):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


def rc_of(kind):
    P.log("java_failed", kind)
    if kind.startswith("sig"):
        return -int(kind[3:])
    return 1 if kind == "rc256x" else int(kind[2:])


def sim_system(cmd):
    try:
        p = SimPopen(cmd, shell=True)
    except FileNotFoundError:
        return 127 << 8
    rc = p.wait()
    return (rc << 8) if rc >= 0 else -rc


# ---------------------------------------------------------------- one run of the script
def install():
    builtins.open = io.open = sim_open
    shutil._USE_CP_SENDFILE = False
    for n, site, k in (("rename", "rename", 2), ("replace", "rename", 2), ("link", "rename", 2), ("unlink", "unlink", 1), ("remove", "unlink", 1), ("mkdir", "mkdir", 1), ("rmdir", "unlink", 1),
                       ("truncate", "write", 1), ("chmod", "chmod", 1)):
        setattr(os, n, guarded(n, site, k))
    os.symlink = lambda src, dst, *a, **k: REAL["symlink"](src, dst, *a, **k) if P.inside(dst) else deny(dst)
    os.open, os.write, os.fsync, os.fdatasync = sim_os_open, sim_os_write, sim_fsync, sim_fsync
    os.stat, os.listdir, os.scandir = sim_stat, sim_listdir, sim_scandir
    os.getpid = lambda: 5000 + (P.slot if P.w.plan.get("pids") else P.who) * 7
    os.urandom = lambda n: P.rng.randbytes(n)
    os.system = sim_system
    for n in ("execv", "execve", "execvp", "execvpe", "spawnv", "spawnvp", "spawnve", "fork", "posix_spawn", "posix_spawnp", "kill", "killpg", "popen"):
        if hasattr(os, n):
            setattr(os, n, lambda *a, _n=n, **k: deny(_n))
    subprocess.Popen = SimPopen
    http.client.HTTPConnection.connect = sim_connect
    http.client.HTTPSConnection.connect = sim_connect
    ssl.SSLContext.load_default_certs = ssl.SSLContext.load_verify_locations = lambda *a, **k: None   # slow, and no peer to verify
    socket.create_connection = lambda *a, **k: deny("network")
    time.sleep = lambda s: (P.event("sleep"), setattr(P, "now", P.now + s))[0]
    time.time = time.monotonic = time.perf_counter = lambda: P.now
    tempfile.tempdir = P.w.tmp
    shutil.which = lambda cmd, *a, **k: "/usr/bin/java" if cmd == "java" else None
    logging.raiseExceptions = False


def audit(name, args):
    """Last line of defence: nothing destructive may leave the scratch folder."""
    if P is None:
        return
    if name == "open":
        path, mode, flags = args
        if not isinstance(path, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and not P.inside(path) and os.fsdecode(path) != "/dev/null":
            REAL["_exit"](HARNESS_RC)
    elif name in ("os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chown", "os.link", "os.symlink"):
        for x in args[:2] if name in ("os.rename", "os.link") else args[1:2] if name == "os.symlink" else args[:1]:
            if isinstance(x, (str, bytes, os.PathLike)) and not P.inside(x):
                REAL["_exit"](HARNESS_RC)
    elif name in ("subprocess.Popen", "os.exec", "os.posix_spawn", "os.fork", "os.forkpty", "os.kill", "os.killpg", "socket.connect", "os.spawn", "os.system", "ctypes.dlopen"):
        REAL["_exit"](HARNESS_RC)


def child(world, run, who, chan, args):
    """Never returns."""
    global P
    try:
        os.chdir(world.root)
        dn = REAL["open"]("/dev/null", os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(dn, fd)
        P = Proc(world, run, who, chan)
        P.rng = random.Random(f"{world.plan['seed']}:{who}")
        random.seed(world.plan["seed"] + who)
        tempfile._name_sequence = None
        tempfile._RandomNameSequence.rng = property(lambda self: P.rng)
        if chan is not None and not chan.recv(1):
            REAL["_exit"](HARNESS_RC)
        install()
        sys.addaudithook(audit)
        os.environ.clear()
        os.environ.update({"PATH": "/usr/bin", "HOME": world.root, "TMPDIR": world.tmp, "LANG": "C.UTF-8"})
        sys.argv = [SCRIPT, *args]
        sys.path.insert(0, os.path.dirname(SCRIPT))
        sys.dont_write_bytecode = True
        rc = 0
        try:
            exec(world.code, {"__name__": "__main__", "__file__": SCRIPT, "__builtins__": builtins})
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            rc &= 0xff
        except KeyboardInterrupt:
            rc = 130
        except Harness as e:
            P.log("harness", str(e))
            REAL["_exit"](HARNESS_RC)
        except BaseException as e:
            P.log("uncaught", type(e).__name__, str(e)[:200], traceback.extract_tb(e.__traceback__)[-1].name)
            rc = 1
        atexit._run_exitfuncs()
        gc.collect()
        P.log("exit", rc)
        REAL["_exit"](rc if rc not in (HARNESS_RC, KILLED_RC, LIMIT_RC) else 1)
    except BaseException:
        try:
            REAL["write"](world.log_fd, (json.dumps([who, "harness", traceback.format_exc()[-1500:]]) + "\n").encode())
        finally:
            REAL["_exit"](HARNESS_RC)


class World:
    """One execution of a plan."""
    def __init__(self, plan, root, code):
        self.plan, self.root, self.code = plan, root, code
        self.tmp = os.path.join(root, "tmp")
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(self.tmp)
        os.makedirs(os.path.join(root, "grammar"))
        for g in GRAMMARS:
            with open(os.path.join(root, "grammar", g + ".g4"), "w") as f:
                f.write("grammar " + g)
        self.jar = jar_bytes(plan["jar"], plan["seed"])
        self.clock, self.who = 0, 0
        self.synced, self.events = {}, []
        self.log_path = os.path.join(os.path.dirname(root), os.path.basename(root) + ".log")
        self.log_fd = REAL["open"](self.log_path, os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600)
        self.pos = 0
        self.stats = {"runs": 0, "events": 0, "switches": 0, "fired": {}, "ops": {}, "sites": {}}
        self.switch_log = []

    def close(self):
        os.close(self.log_fd)
        os.unlink(self.log_path)
        shutil.rmtree(self.root, ignore_errors=True)

    def take_log(self):
        os.lseek(self.log_fd, self.pos, 0)
        data = b""
        while True:
            b = os.read(self.log_fd, 1 << 20)
            if not b:
                break
            data += b
        self.pos += len(data)
        return [json.loads(x) for x in data.decode().splitlines()]

    def power(self, rng):
        """The machine goes down: of what was never synchronised, only some survives."""
        for d, _, names in os.walk(self.tmp):
            for n in sorted(names):
                p = os.path.join(d, n)
                s = os.stat(p)
                keep = self.synced.get(s.st_ino, 0)
                if keep < s.st_size:
                    how = rng.randrange(4)
                    size = keep if how == 0 else keep + rng.randrange(s.st_size - keep + 1)
                    with open(p, "r+b") as f:
                        f.truncate(size)
                        if how == 3 and size > keep:
                            f.seek(keep)
                            f.write(b"\0" * (size - keep))
                    self.synced[s.st_ino] = size

    def prepare(self, who):
        name = self.slot if self.plan.get("again") else who
        src, inc = os.path.join(self.root, f"src{name}"), os.path.join(self.root, f"include{name}")
        os.makedirs(src, exist_ok=True), os.makedirs(inc, exist_ok=True)
        keep = {}
        if self.plan["extra"]:
            for d, names in ((src, ("notes.hpp", "CqasmLexer.h.bak", "h", "readme.hxx", "x.th", "a.h.in", "CMakeCache.txt")), (inc, ("old.h", "semantic.hpp"))):
                for n in names:
                    with open(os.path.join(d, n), "w") as f:
                        f.write("own " + n)
                    keep[os.path.join(os.path.basename(d), n)] = "own " + n
        return src, inc, keep

    def spawn(self, run, par, slot):
        self.slot = slot
        who = self.who
        self.who += 1
        src, inc, keep = self.prepare(who)
        old = set(REAL["listdir"](inc))
        a = b = None
        if par:
            a, b = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            if a:
                a.close()
            signal.alarm(60)
            child(self, run, who, b, [os.path.join(self.root, "grammar"), src, inc])
        if b:
            b.close()
        return {"pid": pid, "who": who, "chan": a, "src": src, "inc": inc, "keep": keep, "old": old, "run": run}

    def group(self, runs, sched):
        """Runs a group of script runs, concurrently if there is more than one."""
        par = len(runs) > 1
        ps = [self.spawn(r, par, k) for k, r in enumerate(runs)]
        if not par:
            _, st = os.waitpid(ps[0]["pid"], 0)
            ps[0]["rc"] = os.waitstatus_to_exitcode(st)
        else:
            alive, cur, t, sw = [True] * len(ps), 0, 0, dict((a, b) for a, b in sched)
            while any(alive):
                if not alive[cur]:
                    cur = next(i for i in range(len(ps)) if alive[i])
                p = ps[cur]
                try:
                    p["chan"].send(b"g")
                    got = p["chan"].recv(1)
                except (BrokenPipeError, ConnectionResetError):
                    got = b""
                if not got:
                    alive[cur] = False
                    _, st = os.waitpid(p["pid"], 0)
                    p["rc"] = os.waitstatus_to_exitcode(st)
                    p["chan"].close()
                    continue
                t += 1
                if t in sw:
                    to = sw[t] % len(ps)
                    if alive[to] and to != cur:
                        self.stats["switches"] += 1
                        self.switch_log.append((t, to))
                        cur = to
        log = self.take_log()
        self.events += log
        for p in ps:
            p["log"] = [e[1:] for e in log if e[0] == p["who"]]
        for e in log:
            if e[1] == "sync":
                self.synced[e[2]] = max(self.synced.get(e[2], 0), e[3])
        self.clock += 1000
        return ps


def judge(w, p, must_succeed):
    """The property, for one run of the script."""
    names = [e[0] for e in p["log"]]
    for e in p["log"]:
        if e[0] == "harness":
            raise Harness(e[1])
        if e[0] == "java" and e[1] == "incomplete":
            return "incomplete-used", f"run {p['who']} started the generator on {e[2]} of the {e[3]} bytes of the download"
        if e[0] == "outside":
            return "outside", f"run {p['who']} tried to change {e[1]}, which is not its own"
    rc = p["rc"]
    if rc == HARNESS_RC:
        raise Harness(f"run {p['who']} left the simulation: {p['log'][-5:]}")
    if rc == LIMIT_RC or (rc < 0 and "down" not in names):
        return "endless", f"run {p['who']} did not end (status {rc})"
    if rc == KILLED_RC:
        return None
    if rc != 0:
        if must_succeed:
            return "no-recovery", f"with nothing failing any more, run {p['who']} still ends with {rc}: {p['log'][-4:]}"
        return None
    made = [e for e in p["log"] if e[0] == "made"]
    if not made or made[-1][1] != os.path.basename(p["src"]):
        return "success-without-generation", f"run {p['who']} ends with 0, but the generator did not finish: {[e for e in p['log'] if e[0] in ('fault', 'torn', 'java_failed', 'java')]}"
    want = made[-1][2]
    for g in GRAMMARS:
        if g + ".cpp" not in want:
            return "not-generated", f"run {p['who']} ends with 0, but nothing was generated for {g}"
    inc = sorted(REAL["listdir"](p["inc"]))
    src = sorted(REAL["listdir"](p["src"]))
    for n in want:
        text = f"// {n} made by run {p['who']}\n" + n * (len(n) * 7)
        d, other = (p["inc"], src) if n.endswith(".h") else (p["src"], inc)
        try:
            with open(os.path.join(d, n)) as f:
                got = f.read()
        except OSError:
            return "misplaced", f"run {p['who']} ends with 0, but {n} is not in {os.path.basename(d)}"
        if got != text:
            return "damaged", f"run {p['who']} ends with 0, but {n} has {len(got)} of {len(text)} bytes or other contents"
        if n in other:
            return "misplaced", f"run {p['who']} ends with 0, but {n} is (also) in the other folder"
    for path, text in p["keep"].items():
        try:
            with open(os.path.join(w.root, path)) as f:
                ok = f.read() == text
        except OSError:
            ok = False
        if not ok:
            return "bystander", f"run {p['who']} ends with 0, but {path}, which it did not generate and which is no header, was moved or changed"
    extra = [n for n in inc if not n.endswith(".h") and n not in p["old"] and f"{os.path.basename(p['inc'])}/{n}" not in p["keep"]]
    if extra:
        return "misplaced", f"run {p['who']} ends with 0, but the include folder holds {extra}"
    return None


QUIET = {"faults": [], "down": None}


def execute(plan, root, code):
    """Returns (violation or None, digest, stats)."""
    w = World(plan, root, code)
    try:
        if plan["had_jar"]:
            # a complete download from an earlier session, wherever the script itself puts it
            w.group([QUIET], [])
            w.power_safe = True
        vio = None
        prng = random.Random(f"power{plan['seed']}")
        for g, s in zip(plan["groups"], plan["sched"]):
            ps = w.group(g, s)
            for p in ps:
                vio = vio or judge(w, p, False)
            if any(e[0] == "down" and e[1] == "power" for p in ps for e in p["log"]):
                w.power(prng)
            if vio:
                break
        if not vio:
            if plan["power_after"]:
                w.power(prng)
            p = w.group([QUIET], [])[0]
            vio = judge(w, p, True)
        dig = hashlib.sha256()
        fired, ops = {}, {}
        for e in w.events:
            if e[1] == "sync":   # inode numbers are the host's
                e = e[:2] + e[3:]
            dig.update(json.dumps(e).encode())
            if e[1] == "fault":
                fired[e[2] + ":" + e[3]] = fired.get(e[2] + ":" + e[3], 0) + 1
            elif e[1] == "down":
                fired["down:" + e[2]] = fired.get("down:" + e[2], 0) + 1
            elif e[1] == "ev":
                ops[e[2]] = ops.get(e[2], 0) + 1
        dig.update(repr((vio, w.switch_log)).encode())
        sites = hashlib.sha256(repr([(e[0], e[1:3]) for e in w.events]).encode()).hexdigest()
        return vio, dig.hexdigest()[:16], {"runs": w.who, "fired": fired, "ops": ops, "events": sum(ops.values()), "switches": w.stats["switches"], "clock": w.clock, "sites": sites,
                                           "sched": hashlib.sha256(repr((w.switch_log, sites)).encode()).hexdigest()}
    finally:
        w.close()


# ---------------------------------------------------------------- search, minimisation, replay
def load_code():
    with open(SCRIPT, "rb") as f:
        return compile(f.read(), SCRIPT, "exec")


def scratch(name):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else os.path.join(VERIF, "build")
    d = os.path.join(base, f"verif-c14-{os.getpid()}-{name}")
    os.makedirs(d, exist_ok=True)
    return d


def minimise(plan, what, root, code, budget=25.0):
    end = time.time() + budget

    def bad(p):
        try:
            v, _, _ = execute(p, root, code)
        except Harness:
            return False
        return v is not None and v[0] == what

    cur = json.loads(json.dumps(plan))
    changed = True
    while changed and time.time() < end:
        changed = False
        cands = []
        for gi in range(len(cur["groups"])):
            c = json.loads(json.dumps(cur))
            del c["groups"][gi], c["sched"][gi]
            cands.append(c)
            for ri in range(len(cur["groups"][gi])):
                if len(cur["groups"][gi]) > 1:
                    c = json.loads(json.dumps(cur))
                    del c["groups"][gi][ri]
                    cands.append(c)
                if cur["groups"][gi][ri]["down"]:
                    c = json.loads(json.dumps(cur))
                    c["groups"][gi][ri]["down"] = None
                    cands.append(c)
                for fi in range(len(cur["groups"][gi][ri]["faults"])):
                    c = json.loads(json.dumps(cur))
                    del c["groups"][gi][ri]["faults"][fi]
                    cands.append(c)
            for si in range(len(cur["sched"][gi])):
                c = json.loads(json.dumps(cur))
                del c["sched"][gi][si]
                cands.append(c)
        for k, v in (("had_jar", False), ("xdev", False), ("extra", False), ("power_after", False), ("pids", False), ("jar", 300), ("split", 1 << 20)):
            if cur.get(k, v) != v:
                cands.append({**cur, k: v})
        for k, v in (("chunk", 1 << 20), ("redirect", False), ("chunked", False), ("range", False), ("close", False)):
            if cur["net"].get(k, v) != v:
                cands.append({**cur, "net": {**cur["net"], k: v}})
        for c in cands:
            if time.time() > end:
                break
            if bad(c):
                cur, changed = c, True
                break
    return cur


def search(seed, worker, seconds, out, known, iterations=0):
    code = load_code()
    d = scratch(f"w{worker}")
    root = os.path.join(d, "world")
    st = {"rc": 0, "runs": 0, "refs": 0, "workloads": 0, "nontrivial": 0, "steps": 0, "events": 0, "switches": 0, "vtime_ns": 0, "fired": {}, "ops": {}, "samples": [], "known_hits": 0,
          "coverage": 0}
    states, scheds = set(), set()
    counts = {}
    try:
        quiet = {"seed": 1, "jar": 9000, "had_jar": False, "net": {"chunk": 4096, "range": True, "redirect": False, "chunked": False}, "split": 4096, "xdev": False, "extra": True,
                 "sched": [], "groups": [], "power_after": False}
        v, _, s = execute(quiet, root, code)
        st["refs"] += 1
        if v and known_hit(known, v):
            st["known_hits"] += 1
        elif v:
            st.update(rc=1, what=v[0], text=v[1], plan=save(out, worker, quiet))
            return st
        counts = dict(s["ops"])
        counts["*"] = s["events"]
        end = time.time() + seconds
        it = 0
        while time.time() < end and (not iterations or it < iterations):
            rng = random.Random(f"{seed}/{worker}/{it}")
            plan = gen_plan(rng, counts)
            it += 1
            v, dig, s = execute(plan, root, code)
            if it % 64 == 1:
                v2, dig2, _ = execute(plan, root, code)
                if dig2 != dig:
                    raise Harness(f"two executions of one plan differ: {json.dumps(plan)}")
            st["workloads"] += 1
            st["runs"] += s["runs"]
            st["events"] += s["events"]
            st["steps"] += s["events"]
            st["switches"] += s["switches"]
            st["vtime_ns"] += s["clock"] * 10**9
            st["nontrivial"] += 1 if s["fired"] or s["switches"] else 0
            for k in ("fired", "ops"):
                for a, b in s[k].items():
                    st[k][a] = st[k].get(a, 0) + b
            states.add(s["sites"])
            scheds.add(s["sched"])
            if len(st["samples"]) < 2 and s["fired"]:
                st["samples"].append({"plan": plan, "faults_fired": s["fired"], "events": s["events"], "digest": dig})
            if v:
                if known_hit(known, v):
                    st["known_hits"] += 1
                    continue
                m = minimise(plan, v[0], root, code)
                a, b = execute(m, root, code), execute(m, root, code)
                if a[0] is None or a[:2] != b[:2]:
                    raise Harness(f"a violation did not repeat: {v} {json.dumps(plan)}")
                st.update(rc=1, what=a[0][0], text=a[0][1], plan=save(out, worker, m))
                return st
    except Harness as e:
        st.update(rc=4)
        print("harness: " + str(e), file=sys.stderr)
    finally:
        st["distinct_states"], st["distinct_schedules"], st["coverage"] = len(states), len(scheds), len(st["ops"])
        shutil.rmtree(d, ignore_errors=True)
    return st


def known_hit(known, v):
    return any(k["what"] == v[0] and k["match"] in v[1] for k in known)


def save(out, worker, plan):
    os.makedirs(out, exist_ok=True)
    p = os.path.join(out, f"C14-w{worker}.json")
    with open(p, "w") as f:
        json.dump({"simulator": "bin/pysim.py", "replay": "python3 bin/pysim.py --replay FILE", **plan}, f, indent=1)
    return p


def replay_plan(path):
    with open(path) as f:
        plan = json.load(f)
    d = scratch("replay")
    try:
        v, dig, s = execute(plan, os.path.join(d, "world"), load_code())
        return {"status": "violation" if v else "clean", "what": v[0] if v else "", "text": v[1] if v else "", "hash": dig}
    except Harness as e:
        return {"status": "error", "text": str(e)}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_replay(path):
    r = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    try:
        return json.loads(r.stdout.decode().splitlines()[-1])
    except (IndexError, ValueError):
        return {"status": "error", "text": r.stderr.decode()[-500:]}


def run(check, seed, secs, workers, work, known):
    """For check.py: (stats per worker, errors, violation, known lines)."""
    out = os.path.join(work, "py")
    os.makedirs(out, exist_ok=True)
    kf = os.path.join(out, "known.json")
    with open(kf, "w") as f:
        json.dump(known, f)
    stats, errors, vio, lines = [], [], None, []
    for k in known:
        r = run_replay(os.path.join(VERIF, k["replay"]))
        if r["status"] == "violation" and r["what"] == k["what"] and k["match"] in r["text"]:
            lines.append(f"KNOWN-FINDING: property={k['property']} {k['desc']}")
    ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), "--search", str(seed), str(w), str(secs), out, kf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
          for w in range(workers)]
    end = time.time() + secs + 150
    for p in ps:
        try:
            o, e = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, e = p.communicate()
            errors.append(f"{check}: a worker did not end")
        try:
            s = json.loads(o.decode().splitlines()[-1])
        except (IndexError, ValueError):
            errors.append(f"{check}: a worker gave no result: {e.decode()[-2000:]}")
            continue
        stats.append(s)
        if s["rc"] == 4:
            errors.append(f"{check}: {e.decode()[-2000:]}")
        if s["rc"] == 1 and vio is None:
            a, b = run_replay(s["plan"]), run_replay(s["plan"])
            if a["status"] == "violation" and a == b and a["what"] == s["what"]:
                dst = os.path.join(VERIF, "replays", f"{check}-py-{seed}.json")
                shutil.copyfile(s["plan"], dst)
                vio = {"replay": dst, "what": a["what"], "text": a["text"], "leg": "py"}
            else:
                errors.append(f"{check}: violation '{s['what']}' did not reproduce in a fresh process: {a} {b}")
    return stats, errors, vio, lines


def main():
    if sys.argv[1] == "--search":
        seed, worker, secs, out, kf = int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), sys.argv[5], sys.argv[6]
        known = json.load(open(kf)) if os.path.exists(kf) else []
        its = int(sys.argv[7]) if len(sys.argv) > 7 else 0
        print(json.dumps(search(seed, worker, secs, out, known, its)))
    elif sys.argv[1] == "--replay":
        r = replay_plan(sys.argv[2])
        print(json.dumps(r))
        sys.exit(1 if r["status"] == "violation" else 0 if r["status"] == "clean" else 2)


if __name__ == "__main__":
    main()
