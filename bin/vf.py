"""Framework of the checks: builds the drivers from /repo's working tree, runs TLC
on the models, makes scenarios from them, replays them in the real code, and lets
TLC decide whether what the code did is a behaviour of the specification."""
import atexit, concurrent.futures, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
NOBODY = 65534


class CheckError(Exception):
    """The check itself could not do its work (never a violation)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        atexit.register(self.cleanup)
        self.states = self.transitions = 0       # of the models
        self.tstates = 0                         # of the trace validations
        self.traces = self.events = 0
        self.models = []
        self.notes = []
        self.samples = []
        self.violations = []
        self.exhaustive = []
        self.assumptions = []
        self.built = {}
        self.trouble = None                      # why a driver did not get to its end
        self.n = 0

    thorough = property(lambda s: s.tier == "thorough")

    def cleanup(self):
        subprocess.call(["chmod", "-R", "u+rwx", self.work], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.work, ignore_errors=True)

    def tmp(self, name):
        self.n += 1
        return os.path.join(self.work, "%d-%s" % (self.n, name))

    # ------------------------------------------------------------- building
    def goenv(self):
        d = os.path.join(self.work, "gomod")
        if not os.path.isdir(d):
            os.mkdir(d)
            mods = [m for m in ("", "/beacon", "/client", "/data", "/dirent", "/frames", "/sarflags", "/timestamp")]
            base = "github.com/charlesetsmith/saratoga"
            ver = "v0.0.0-20231125221206-e3b4c81defea"
            with open(d + "/go.work", "w") as f:
                f.write("go 1.21.4\n\nuse (\n")
                for m in mods:
                    if m == "" or os.path.exists(REPO + m + "/go.mod"):
                        f.write("\t%s%s\n" % (REPO, m))
                f.write("\t%s\n)\n\nreplace (\n" % HARNESS)
                for m in ("frames", "sarflags", "timestamp"):
                    f.write("\t%s/%s %s => %s/%s\n" % (base, m, ver, REPO, m))
                f.write("\tgithub.com/nsf/termbox-go => %s/termbox\n)\n" % HARNESS)
            shutil.copy(HARNESS + "/gowork.sum", d + "/go.work.sum")
            with open(d + "/root.go.mod", "w") as f:
                f.write("module %s\n\ngo 1.21.4\n\nrequire github.com/jroimartin/gocui v0.5.0\n" % base)
            with open(d + "/sarflags.go.mod", "w") as f:
                f.write("module %s/sarflags\n\ngo 1.21.4\n" % base)
            over = {}
            if not os.path.exists(REPO + "/go.mod"):
                over[REPO + "/go.mod"] = d + "/root.go.mod"
            if not os.path.exists(REPO + "/sarflags/go.mod"):
                over[REPO + "/sarflags/go.mod"] = d + "/sarflags.go.mod"
            # linux/amd64 has no syscall.SO_REUSEPORT: same source with its number
            k = 0
            for root, dirs, files in os.walk(REPO):
                dirs[:] = [x for x in dirs if not x.startswith(".")]
                for fn in files:
                    if fn.endswith(".go"):
                        p = os.path.join(root, fn)
                        with open(p, encoding="utf-8", errors="surrogateescape") as fh:
                            src = fh.read()
                        if "syscall.SO_REUSEPORT" in src:
                            k += 1
                            q = "%s/r%d.go" % (d, k)
                            with open(q, "w", encoding="utf-8", errors="surrogateescape") as fh:
                                fh.write(src.replace("syscall.SO_REUSEPORT", "(syscall.SO_REUSEADDR*0 + 0xf)"))
                            over[p] = q
            with open(d + "/overlay.json", "w") as f:
                json.dump({"Replace": over}, f)
            # the node that also shows its tables
            over[REPO + "/saratoga/zz_verif_ctl.go"] = HARNESS + "/nodectl/control.go.txt"
            with open(d + "/overlayctl.json", "w") as f:
                json.dump({"Replace": over}, f)
        e = dict(os.environ)
        e.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK=d + "/go.work",
                 GOFLAGS="-overlay=" + d + "/overlay.json", GOTELEMETRY="off", GONOSUMDB="*", GOFLAGS_EXTRA="")
        e.setdefault("HOME", "/root")
        return e

    def build(self, what, race=False):
        """what: vlib, vtran, ... (commands of the harness), node (the real main) or nodectl (the real main, showing its tables)."""
        key = what + ("-race" if race else "")
        if key in self.built:
            return self.built[key]
        out = os.path.join(self.work, key)
        cmd = ["go", "build", "-o", out] + (["-race"] if race else [])
        env = self.goenv()
        if what == "nodectl":
            env["GOFLAGS"] = env["GOFLAGS"].replace("/overlay.json", "/overlayctl.json")
        if what in ("node", "nodectl"):
            cmd += ["github.com/charlesetsmith/saratoga/saratoga"]
        else:
            cmd += ["./cmd/" + what]
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("build of %s failed:\n%s" % (what, p.stdout[-4000:]))
        self.built[key] = out
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, extra=(), heap="3g", timeout=3000):
        md = self.tmp("md")
        if "\n" in cfg:
            p = self.tmp("gen.cfg")
            with open(p, "w") as f:
                f.write(cfg)
            cfg = p
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, min(workers, 8)), "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + self.work, "-cp", JAR,
               "-DTLA-Library=" + SPEC, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md, "-config", cfg]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return p.returncode, p.stdout.decode("utf-8", "replace")

    @staticmethod
    def counts(out):
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            pass
        if not m:
            m = re.search(r"The number of states generated: ([\d,]+)", out)
            if m:
                return int(m.group(1).replace(",", "")), int(m.group(1).replace(",", ""))
            return 0, 0
        return tuple(int(x.replace(",", "")) for x in m.groups())

    def model(self, module, cfg, name=None, workers=4, timeout=3000, extra=(), exhaustive=True, heap="6g"):
        """Model check the specification itself."""
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, heap=heap)
        gen, dist = self.counts(out)
        ok = rc == 0 and ("No error has been found" in out or "-simulate" in extra)
        if not ok:
            raise CheckError("the model %s does not hold (an error of the specification):\n%s" % (name or module, out[-6000:]))
        self.states += dist
        self.transitions += gen
        self.models.append({"model": name or module, "distinct_states": dist, "states_generated": gen})
        if exhaustive:
            self.exhaustive.append(name or module)
        return out

    def generate(self, module, cfg, extra=(), workers=1, timeout=1200, limit=None, env=None, heap="4g", count=True):
        """Behaviours of the specification, one JSON text per line."""
        rc, out = self.tlc(module, cfg, workers=workers, extra=extra, timeout=timeout, env=env, heap=heap)
        lines = []
        for ln in out.splitlines():
            if ln.startswith('"SCEN '):
                lines.append(json.loads(ln)[5:])
        if rc != 0 or not lines:
            raise CheckError("generation with %s failed:\n%s" % (module, out[-4000:]))
        gen, dist = self.counts(out)
        if count:
            self.states += dist
            self.transitions += gen
        self.models.append({"generator": module, "behaviours": len(lines), "distinct_states": dist})
        lines = sorted(set(lines))
        if limit and len(lines) > limit:
            import random
            random.Random(self.seed).shuffle(lines)
            lines = sorted(lines[:limit])
        p = self.tmp("scen.ndjson")
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        return p

    # -------------------------------------------------------------- drivers
    def drive(self, what, args=(), scen=None, scale=1, timeout=600, race=False, mem_gb=12, env=None, tag="", node=None):
        exe = self.build(what, race)
        # The code under test runs as an unprivileged user with a directory of its own
        top = self.tmp("run")
        d = top + "/dir"
        os.makedirs(d)
        out = top + "/trace%s.ndjson" % tag
        conf = self.work + "/saratoga.json"
        if not os.path.exists(conf):
            shutil.copyfile(REPO + "/saratoga/saratoga.json", conf)
        for p in (top, d):
            os.chown(p, NOBODY, NOBODY)
        for p in (self.work, exe):
            os.chmod(p, 0o755)
        os.chmod(conf, 0o644)
        if scen:
            os.chmod(scen, 0o644)
        cmd = [exe, "-out", out, "-seed", str(self.seed), "-scale", str(scale), "-dir", d, "-conf", conf]
        if scen:
            cmd += ["-scen", scen]
        if node:
            n = self.build(node)
            os.chmod(n, 0o755)
            cmd += ["-node", n] + (["-ctl"] if node == "nodectl" else [])
        cmd += list(args)

        def pre():
            if not race:
                resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.setsid()
            os.umask(0o022)
            if os.geteuid() == 0:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
        logf = self.tmp("driver.log")
        e = dict(os.environ)
        e.update(env or {})
        with open(logf, "wb") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, preexec_fn=pre, env=e, cwd=d)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                rc = None
                p.terminate()        # it writes down what it has
                try:
                    p.wait(timeout=10)
                except subprocess.TimeoutExpired:
                    pass
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        with open(logf, "rb") as lf:
            text = lf.read().decode("utf-8", "replace")
        subprocess.call(["chmod", "-R", "u+rwx", d], stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)
        if rc == 0:
            return out
        # It did not get to the end: what it recorded is still judged, and
        # if that is fine the check has no answer
        if rc is None:
            return self.partial(out, "driver %s %s ran out of time\n%s" % (what, args, text[-2000:]))
        if rc == 98:
            return self.partial(out, "driver %s %s: %s" % (what, args, text[-3000:]))
        # The process died: was it inside a call of the code under test?
        m = None
        try:
            with open(out + ".begin", "rb") as f:
                b = f.read()
            n = struct.unpack("<Q", b[:8])[0]
            if n:
                m = json.loads(b[8:8 + n])
        except (OSError, ValueError, struct.error):
            pass
        if m is None:
            if not self.crashed(text):
                return self.partial(out, "driver %s %s ended with %s outside any call\n%s" % (what, args, rc, text[-3000:]))
            m = {"e": "crashed"}     # no transition of any specification
        m["res"] = "hang" if rc == 97 else "died"
        m["msg"] = text[-1500:]
        self.whole_lines(out)
        with open(out, "a") as f:
            f.write(json.dumps(m) + "\n")
        self.notes.append("driver %s: process %s" % (what, m["res"]))
        return out

    @staticmethod
    def whole_lines(path):
        good = []
        if os.path.exists(path):
            with open(path) as f:
                good = [ln for ln in f if ln.endswith("\n")]
        with open(path, "w") as f:
            f.writelines(good)
        return len(good)

    def partial(self, out, why):
        if not self.whole_lines(out):
            raise CheckError(why)
        self.trouble = why
        return out

    @staticmethod
    def crashed(text):
        """Did a goroutine of the code under test bring the process down?"""
        m = re.search(r"^(panic: |fatal error: )", text, re.M)
        if not m:
            return False
        for ln in text[m.start():].splitlines():
            if re.match(r"^(panic|runtime|sync|internal|time|os|syscall)[./(]", ln) or not re.match(r"^[\w./*()-]+\(.*\)$", ln):
                continue
            return ln.startswith("github.com/charlesetsmith/saratoga")
        return False

    # ----------------------------------------------------------- validation
    def validate(self, module, trace, env=None, cfg="Trace.cfg", chunk=6000, sample=True, jobs=None, timeout=1500, heap="3g"):
        """TLC decides whether the recorded runs are behaviours of the specification.
        The trace is cut at reset events; the parts are checked in parallel."""
        segs, cur = [], []
        with open(trace) as f:
            for ln in f:
                if ln.startswith('{"e":"reset"') or '"e":"reset"' in ln[:4000] and json.loads(ln).get("e") == "reset":
                    if cur:
                        segs.append(cur)
                    cur = []
                cur.append(ln)
        if cur:
            segs.append(cur)
        if not segs:
            raise CheckError("empty trace")
        nev = sum(map(len, segs))
        jobs = jobs or max(1, min(NCPU - 1, 7))
        size = max(1, min(chunk, -(-nev // jobs)))
        parts, part, cnt = [], [], 0
        for s in segs:
            part.append(s)
            cnt += len(s)
            if cnt >= size:
                parts.append(part)
                part, cnt = [], 0
        if part:
            parts.append(part)

        def run(k):
            p = os.path.join(self.work, "part-%s-%d-%d" % (module, id(parts), k))
            with open(p, "w") as f:
                for s in parts[k]:
                    f.writelines(s)
            e = {"TRACE": p, "PROP": self.prop}
            e.update(env or {})
            rc, out = self.tlc(module, cfg, env=e, timeout=timeout, heap=heap)
            os.unlink(p)
            return rc, out
        bad = []
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for k, (rc, out) in enumerate(ex.map(run, range(len(parts)))):
                gen, dist = self.counts(out)
                self.tstates += dist
                if rc == 0 and "No error has been found" in out:
                    continue
                m = re.search(r'<<"REJECT", (\d+)>>', out)
                if not m and re.search(r"StackOverflow|OutOfMemory|Java heap space", out):
                    raise CheckError("TLC ran out of stack or memory on %s:\n%s" % (module, out[-5000:]))
                if not m and "behavior up to this point is" in out:
                    # an event the specification cannot even interpret
                    m = None
                    for m in re.finditer(r"^(?:/\\ )?l = (\d+)", out, re.M):
                        pass
                if not m:
                    raise CheckError("TLC failed on %s:\n%s" % (module, out[-5000:]))
                i = int(m.group(1)) - 1          # index of the rejected event
                for s in parts[k]:
                    if i < len(s):
                        bad.append((s, i, module, out))
                        break
                    i -= len(s)
        self.traces += len(segs)
        self.events += nev
        if sample and len(self.samples) < 4:
            s = segs[len(segs) // 2]
            self.samples.append({"trace_spec": module, "run": [json.loads(x) for x in s[:6]]})
        for s, i, mod, out in bad:
            self.violation(s, i, mod, env, cfg)
        if self.trouble and not bad:
            raise CheckError(self.trouble)
        return not bad

    def violation(self, seg, i, module, env, cfg):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-seed%d-%d.json" % (self.prop, module, self.seed, len(self.violations)))
        ev = json.loads(seg[i])
        with open(path, "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "trace_spec": module, "cfg": cfg,
                       "env": env or {}, "rejected_event": i, "why": "no transition of the specification allows this event after the ones before it",
                       "event": ev, "run": [json.loads(x) for x in seg[:i + 1]]}, f, indent=1)
        self.violations.append(path)
        log("rejected event:", json.dumps(ev)[:1500])

    # -------------------------------------------------------------- results
    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {"states": self.states + self.tstates, "transitions": self.transitions + self.events,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "models": self.models, "exhaustive_models": self.exhaustive, "samples": self.samples, "notes": self.notes}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s %s seed=%d: %d model states, %d runs / %d events validated, %d violations, %.1f s" %
              (self.prop, self.tier, self.seed, self.states, self.traces, self.events, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0
