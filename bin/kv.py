"""Machinery shared by the checks: building the driver from /repo's working
tree, running TLC on models, recording the implementation and checking the
records with TLC against the trace specifications."""
import concurrent.futures as cf
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REAL = ["N <- RealN", "CT1 <- RealCT1", "CT2 <- RealCT2"]


class MachineError(Exception):
    pass


def limits():
    """Of the driver: memory, and the size of a file."""
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (3 << 30, 3 << 30))


def ends(path, size=300000):
    """The first and the last part of a file that may be very long."""
    with open(path, "rb") as f:
        head = f.read(size)
        f.seek(max(f.tell(), os.path.getsize(path) - size))
        return (head + f.read()).decode(errors="replace")


class CodeFailure(Exception):
    """The code under test ended (or hung) the driver that was using it."""
    def __init__(self, what, rep):
        super().__init__(what)
        self.what, self.rep = what, rep


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.scratch = tempfile.mkdtemp(prefix="kv-%s-" % prop)
        os.chmod(self.scratch, 0o755)
        self.spec = os.path.join(self.scratch, "spec")
        shutil.copytree(os.path.join(VERIF, "spec"), self.spec)
        self.env = self._env()
        self.violations = []     # (what, replay data)
        self.known = []
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.pipelines = []
        self.samples = []
        self.notes = []
        self._driver = self._bin = None
        self.n = 0

    def _env(self):
        e = dict(os.environ)
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                e[k.decode()] = v.decode()
        for k in list(e):
            if k.startswith("KRYPTO_"):
                del e[k]
        e["TZ"] = "UTC"
        e.pop("JAVA_TOOL_OPTIONS", None)
        e["JAVA_OPTS"] = "-Xmx4g"
        return e

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def sub(self, name):
        self.n += 1
        d = os.path.join(self.scratch, "%s%d" % (name, self.n))
        os.makedirs(d)
        return d

    # -- building ----------------------------------------------------------
    def driver(self):
        if self._driver:
            return self._driver
        h = os.path.join(self.scratch, "harness")
        shutil.copytree(os.path.join(VERIF, "harness"), h)
        mod = os.path.join(h, "go.mod")
        s = open(mod).read().replace("=> /repo", "=> " + REPO)
        open(mod, "w").write(s)
        out = os.path.join(self.scratch, "driver")
        r = subprocess.run(["go", "build", "-o", out, "."], cwd=h, env=self.env, capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise MachineError("the driver does not build:\n" + r.stdout + r.stderr)
        self._driver = out
        return out

    def program(self):
        if self._bin:
            return self._bin
        out = os.path.join(self.scratch, "krypto431")
        r = subprocess.run(["go", "build", "-o", out, "./cmd/krypto431"], cwd=REPO, env=self.env, capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise MachineError("the program does not build:\n" + r.stdout + r.stderr)
        self._bin = out
        return out

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers="2", extra=(), timeout=800):
        """Runs TLC; returns its output."""
        md = self.sub("md")
        e = dict(self.env)
        e.update(env or {})
        cmd = ["tlc", "-noGenerateSpecTE", "-lncheck", "final", "-workers", str(workers), "-metadir", md, "-config", cfg, *extra, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=self.spec, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired as x:
            raise MachineError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    @staticmethod
    def counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out.replace(",", ",").replace("\u202f", ""))
        m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found[^,]*, ([\d,]+) states left", out)
        if not m:
            return None
        g, d, l = m[-1]
        return tuple(int(x.replace(",", "")) for x in (g, d, l))

    def cfg(self, base, **over):
        """A copy of a configuration with other constants or invariants."""
        s = open(os.path.join(self.spec, base)).read()
        for k, v in over.items():
            if k in ("INVARIANTS", "SPECIFICATION"):
                s = re.sub(r"(?m)^%s .*$" % k, "%s %s" % (k, v), s)
            else:
                s, n = re.subn(r"(?m)^(\s*)%s (=|<-) .*$" % k, r"\g<1>%s = %s" % (k, v), s)
                if n != 1:
                    raise MachineError("no constant %s in %s" % (k, base))
        self.n += 1
        name = "gen%d_%s" % (self.n, base)
        open(os.path.join(self.spec, name), "w").write(s)
        return name

    def model(self, module, cfg=None, workers="8", timeout=800, label=None, **over):
        """Checks a model completely; it must hold."""
        cfg = cfg or module + ".cfg"
        c = self.cfg(cfg, **over) if over else cfg
        t0 = time.time()
        rc, out = self.tlc(module, c, workers=workers, timeout=timeout)
        n = self.counts(out)
        if rc != 0 or "No error has been found" not in out or n is None or n[2] != 0:
            raise MachineError("the model %s (%s %s) does not hold or could not be checked:\n%s" % (module, cfg, over, out[-2500:]))
        self.states += n[1]
        self.transitions += n[0]
        self.models.append({"model": module, "config": cfg, "constants": over, "states": n[1], "transitions": n[0], "wall_s": round(time.time() - t0, 1)})

    def broken_model(self, module, cfg=None, timeout=800, **over):
        """Checks a deliberately wrong model; the properties must notice."""
        cfg = cfg or module + ".cfg"
        c = self.cfg(cfg, **over)
        rc, out = self.tlc(module, c, workers="8", timeout=timeout)
        if "is violated" not in out:
            raise MachineError("the deliberately wrong model %s %s was not noticed:\n%s" % (module, over, out[-3000:]))
        m = re.search(r"(?:Invariant|Action property|property) (\S+) is violated", out)
        self.models.append({"model": module, "config": cfg, "constants": over, "deliberately_wrong": True, "noticed_by": m.group(1) if m else "?"})

    def simulate(self, module, cfg, num, depth, seed, marker, timeout=300, **over):
        """Random behaviours of a model; returns the lines printed with marker."""
        c = self.cfg(cfg, **over) if over else cfg
        rc, out = self.tlc(module, c, workers="1", extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], timeout=timeout)
        if "is violated" in out or "Error:" in out:
            raise MachineError("simulation of %s failed:\n%s" % (module, out[-2500:]))
        got = []
        for line in out.splitlines():
            if line.startswith('"' + marker + " "):
                got.append(json.loads(line)[len(marker) + 1:])
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        if m:
            self.transitions += int(m.group(1).replace(",", ""))
        return got

    # -- recording and checking the implementation --------------------------
    def drive(self, mode, *args, timeout=None, env=None):
        timeout = timeout or (300 if self.quick else 1500)
        d = self.sub("run")
        out = os.path.join(d, "trace.json")
        work = os.path.join(d, "w")
        os.makedirs(work)
        e = dict(self.env)
        e.update(env or {})
        cmd = [self.driver(), "-dir", work, "-out", out, *map(str, args), mode]
        log = open(os.path.join(d, "log"), "w")
        p = subprocess.Popen(cmd, cwd=work, env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT,
                             preexec_fn=limits)
        late = False
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            late = True
            p.send_signal(signal.SIGQUIT)  # makes Go print its stacks
            try:
                p.wait(timeout=20)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        finally:
            if p.poll() is None:
                p.kill()
        log.close()
        if late or p.returncode != 0 or not os.path.exists(out):
            text = ends(log.name)
            what = self.code_failed(text, late)
            if os.path.exists(os.path.join(work, "hang")):
                text = ends(os.path.join(work, "hang"))
                what = self.code_failed(text, True) or "the code does not come to an end"
            if what:
                raise CodeFailure(what, {"driver": {"mode": mode, "args": list(map(str, args))}, "log": text[-6000:]})
            raise MachineError("the driver failed (%s%s): %s\n%s" % (p.returncode, ", late" if late else "", " ".join(cmd), text[-3000:]))
        shutil.rmtree(work, ignore_errors=True)
        return out

    @staticmethod
    def code_failed(text, late):
        """What the code under test did, if the driver failed because of it:
        the first goroutine printed is the one that failed; when the driver is
        late, it is the one that runs or waits in the code under test."""
        if "DRIVER-ERROR" in text:
            return None
        stacks = re.split(r"(?m)^goroutine ", text)[1:]
        if late:
            for st in stacks:
                f = [x for x in re.findall(r"(?m)^(\S+)\(.*\)$", st) if not x.startswith(("runtime.", "runtime/", "sync.", "internal/", "syscall."))]
                lib = [x for x in f if "sa6mwa/krypto431" in x]
                mine = [i for i, x in enumerate(f) if x.startswith("main.")]
                if lib and (not mine or f.index(lib[0]) < mine[0]):
                    return "the code does not come to an end (%s)" % lib[0].split("/")[-1]
            return None
        if not re.search(r"(?m)^(panic|fatal error|SIG[A-Z]+|runtime: )", text) or not stacks:
            return None
        f = re.findall(r"(?m)^(\S+)\(.*\)$", stacks[0])
        lib = [x for x in f if "sa6mwa/krypto431" in x]
        mine = [i for i, x in enumerate(f) if x.startswith("main.")]
        if lib and (not mine or f.index(lib[0]) < mine[0]):
            return "the code crashed (%s)" % lib[0].split("/")[-1]
        return None

    def validate(self, spec, path, how, cfg=None, timeout=800, workers=2):
        """Checks a record against a trace specification. Returns the rules
        broken: (property, what, trace, event)."""
        data = json.load(open(path))
        traces = data["traces"]
        want = sum(len(t["events"]) + 1 for t in traces)
        rc, out = self.tlc(spec, cfg or spec + ".cfg", env={"TRACE": path}, workers=workers, timeout=timeout)
        n = self.counts(out)
        if rc != 0 or n is None or n[1] != want:
            raise MachineError("trace specification %s did not consume the record (%s of %d, %s):\n%s" % (spec, n, want, how, out[-5000:]))
        bad = []
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"([^"]*)",\s*"([^"]*)"\s*>>', out):
            bad.append((m.group(3), m.group(4), int(m.group(1)), int(m.group(2))))
        if out.count('"BAD"') != len(bad):
            raise MachineError("could not read what %s reports:\n%s" % (spec, out[-3000:]))
        return data, n, bad

    def check_traces(self, spec, jobs, cfg=None, parallel=4, timeout=800):
        """jobs: list of (mode, args). Records and checks every one."""
        self.driver()
        t0 = time.time()

        def one(job):
            mode, args = job[0], job[1]
            path = self.drive(mode, *args)
            res = self.validate(spec, path, "%s %s" % (mode, args), cfg=cfg, timeout=timeout)
            os.unlink(path)
            return job, res

        ntr = nev = 0
        kinds = {}
        with cf.ThreadPoolExecutor(parallel) as ex:
            for job, (data, n, bad) in ex.map(one, jobs):
                ntr += len(data["traces"])
                nev += sum(len(t["events"]) for t in data["traces"])
                for t in data["traces"]:
                    for e in t["events"]:
                        kinds[e["op"]] = kinds.get(e["op"], 0) + 1
                self.states += n[1]
                self.transitions += n[0]
                if data["traces"] and len(self.samples) < 2:
                    t = data["traces"][0]
                    self.samples.append({"pipeline": spec, "mode": job[0], "args": job[1], "trace": t.get("name", ""),
                                         "events": [self.show(data, e) for e in t["events"][:3]]})
                for prop, what, ti, ei in bad:
                    if prop != self.prop:
                        continue
                    ev = data["traces"][ti - 1]["events"][ei - 1]
                    rep = {"property": prop, "what": what, "spec": spec, "driver": {"mode": job[0], "args": job[1]},
                           "trace": ti, "name": data["traces"][ti - 1].get("name", ""), "event": ei, "details": self.show(data, ev),
                           "history": [x["op"] for x in data["traces"][ti - 1]["events"][:ei]]}
                    if what.startswith("KNOWN "):
                        self.known.append((what[6:], rep))
                    else:
                        self.violations.append((what, rep))
        self.traces += ntr
        self.events += nev
        self.pipelines.append({"spec": spec, "runs": len(jobs), "traces": ntr, "events": nev, "operations": kinds, "wall_s": round(time.time() - t0, 1)})

    def show(self, data, e):
        """An event with references replaced by text, as far as names tell."""
        strs = data.get("strs", [])

        def text(r):
            if isinstance(r, int) and 1 <= r <= len(strs):
                return "".join(chr(c) if 32 <= c < 0xD800 else "\\u%x" % c for c in strs[r - 1][:200])
            return r
        names = set(data.get("textfields", ["text", "rcpt", "keepers", "from", "ids", "x", "add", "del"]))
        a = {}
        for k, v in e.get("a", {}).items():
            a[k] = ([text(x) for x in v] if isinstance(v, list) else text(v)) if k in names else v
            if isinstance(a[k], (list, str)) and len(a[k]) > 300:
                a[k] = a[k][:300]
        r = {k: (v[:300] if isinstance(v, (list, str)) else v) for k, v in e.get("r", {}).items()}
        return {"op": e["op"], "s": e.get("s"), "a": a, "r": r}
