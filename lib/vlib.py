"""Shared machinery: build the conformance driver, run TLC, validate traces."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
BUILD = os.path.join(VERIF, "build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = dict(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")


class CheckError(Exception):
    """The check could not decide anything (never a verdict about the code)."""


def env():
    e = dict(os.environ)
    e.update(GOENV)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:" + e.get("PATH", "")
    e.pop("JAVA_TOOL_OPTIONS", None)
    return e


def run(cmd, timeout, **kw):
    """Run a command in its own process group; kill the group on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True,
                         env=kw.pop("env", env()), **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise CheckError("timeout after %ss: %s" % (timeout, " ".join(cmd)[:200]))
    return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = os.path.join(BUILD, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.t0 = time.time()
        self.states = self.transitions = self.episodes = self.calls = 0
        self.mc, self.traces, self.samples, self.notes = [], [], [], []
        self.opcount, self.known = {}, {}
        self.exhaustive = True
        self.lock = threading.Lock()

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, q, t):
        return t if self.thorough() else q

    def path(self, *a):
        return os.path.join(self.dir, *a)

    # ------------------------------------------------------------- driver
    @staticmethod
    def cover():
        """With GOCOVERDIR set, measure which statements of gost the drivers reach."""
        return ["-cover", "-coverpkg=./...,github.com/myyrakle/gost/..."] if os.environ.get("GOCOVERDIR") else []

    def driver(self, race=False):
        out = self.path("driver-race" if race else "driver")
        if os.path.exists(out):
            return out
        rc, so, se = run(["go", "build", *(["-race"] if race else []), *self.cover(), "-o", out, "."], 600, cwd=os.path.join(VERIF, "harness"))
        if rc != 0:
            raise CheckError("driver does not build:\n" + se[-4000:])
        return out

    # --------------------------------------------------------------- TLC
    def cfg(self, name, over):
        s = open(os.path.join(SPECS, name)).read()
        for k, v in (over or {}).items():
            s, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), s)
            if n != 1:
                raise CheckError("constant %s not in %s" % (k, name))
        h = hashlib.sha1((name + s).encode()).hexdigest()[:8]
        p = self.path("%s.%s.cfg" % (name[:-4], h))
        open(p, "w").write(s)
        return p

    def tlc(self, module, cfg, workers=1, extra=(), timeout=600, env_extra=None, heap="4g", tag=""):
        meta = self.path("meta-%s-%s-%d" % (module, tag, time.time_ns()))
        fast = [] if module == "MC_BigInt" else self.overrides()
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + self.dir, "-DTLA-Library=" + self.dir, *fast,
               "-cp", CP + (":" + self.path("java") if fast else ""), "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-fpmem", "0.3", "-config", cfg, *extra, module + ".tla"]
        e = env()
        e.update(env_extra or {})
        rc, so, se = run(cmd, timeout, cwd=SPECS, env=e)
        shutil.rmtree(meta, ignore_errors=True)
        return rc, so + se

    def overrides(self):
        """BigIntOverrides evaluates the natural numbers of BigInt.tla natively; see lib/java and MC_BigIntJava."""
        cls = self.path("java", "BigIntOverrides.class")
        src = os.path.join(VERIF, "lib", "java", "BigIntOverrides.java")
        with self.lock:
            if not os.path.exists(cls):
                rc, so, se = run(["javac", "-cp", CP, "-d", self.path("java"), src], 300)
                if rc != 0:
                    raise CheckError("overrides do not compile:\n" + se[-2000:])
        return ["-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigIntOverrides"]

    def model_check(self, module, cfg=None, over=None, workers=4, timeout=800, scripts=False, simulate=None,
                    max_scripts=None, quiet=False):
        """Explore the specification; a failure here is an error of the check,
        never a verdict about the code. Returns the scripts it printed."""
        t = time.time()
        c = self.cfg(cfg or module + ".cfg", over)
        if quiet:          # no scripts wanted
            t_ = open(c).read().replace("ACTION_CONSTRAINT Emit\n", "")
            open(c, "w").write(t_)
        extra = []
        if simulate:
            num, depth = simulate
            extra = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)]
        rc, out = self.tlc(module, c, 1 if (scripts or simulate) else workers, extra, timeout)
        if simulate:
            good = rc == 0 and "Error:" not in out
            m = re.search(r"The number of states generated: (\d+)", out)
            gen = int(m.group(1)) if m else 0
            dist = 0
        else:
            good = rc == 0 and "Model checking completed. No error has been found." in out
            m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
            gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not good:
            tail = "\n".join(l for l in out.splitlines() if not l.startswith('"SCRIPT'))[-3000:]
            raise CheckError("TLC did not accept %s (exit %d):\n%s" % (module, rc, tail))
        res = []
        if scripts:
            for l in out.splitlines():
                if l.startswith('"SCRIPT '):
                    res.append(json.loads(l)[7:])
            if not res:
                raise CheckError("TLC printed no script for " + module)
            if simulate:      # keep only maximal histories
                res = [a for i, a in enumerate(res)
                       if i + 1 == len(res) or not res[i + 1].startswith(a[:-1] + ",")]
            if max_scripts and len(res) > max_scripts:
                import random
                random.Random(self.seed).shuffle(res)
                res = res[:max_scripts]
                self.exhaustive = False
        self.states += dist
        self.transitions += gen
        self.mc.append(dict(module=module, constants=over or {}, mode="simulate" if simulate else "exhaustive",
                            distinct_states=dist, transitions=gen, scripts=len(res), wall_s=round(time.time() - t, 2)))
        return res

    def assume(self, module, timeout=600, over=None):
        """Evaluate a module of ASSUMEs (constant-level laws)."""
        t = time.time()
        rc, out = self.tlc(module, self.cfg(module + ".cfg", over), 1, [], timeout)
        if rc != 0:
            raise CheckError("laws of %s do not hold:\n%s" % (module, out[-3000:]))
        self.mc.append(dict(module=module, mode="assume", wall_s=round(time.time() - t, 2)))

    def same_bigint(self):
        """The native evaluation of BigInt agrees with its definitions."""
        d = open(os.path.join(SPECS, "BigInt.tla")).read().replace("MODULE BigInt ", "MODULE BigIntDef ")
        open(self.path("BigIntDef.tla"), "w").write(d)
        self.assume("MC_BigIntJava", over=dict(Seed=self.seed))

    @staticmethod
    def par(*fs):
        with cf.ThreadPoolExecutor(len(fs)) as ex:
            return [f.result() for f in [ex.submit(f) for f in fs]]

    # ------------------------------------------------------------- traces
    def drive(self, comp, scripts=(), episodes=0, length=40, name=None, args=(), timeout=600, drv=None):
        name = name or comp
        trace = self.path(name + ".ndjson")
        cmd = [drv or self.driver(), "-comp", comp, "-seed", str(self.seed), "-episodes", str(episodes), "-len",
               str(length), "-tier", self.tier, "-dir", self.dir, "-out", trace, *args]
        if scripts:
            sp = self.path(name + ".script")
            with open(sp, "w") as f:
                for s in scripts:
                    f.write((s if isinstance(s, str) else json.dumps(s)) + "\n")
            cmd += ["-script", sp]
        rc, so, se = run(cmd, timeout)
        if rc in (0, 66) and "DRIVER-OK" in so:      # 66: the race runtime reported accesses; the trace counts them
            return trace
        if rc in (3, 66) and "DRIVER-HANG" in se:
            return trace                     # last line of the trace records the hang
        if "HARNESS-ERROR" in se:
            raise CheckError("driver: " + se[-2000:])
        if ("fatal error:" in se or "panic:" in se) and "myyrakle/gost" in se:
            # The code under test brought the process down. Find the call.
            infl = trace + ".inflight"
            rc2, se2 = (rc, se) if "-sync" in cmd else (0, "")
            for _ in range(5):
                if rc2:
                    break
                rc2, so2, se2 = run(cmd + ["-sync"], timeout)
            if rc2 != 0 and rc2 == rc and os.path.exists(infl) and "myyrakle/gost" in se2 and "HARNESS-ERROR" not in se2:
                op = json.load(open(infl))
                with open(trace, "a") as f:
                    f.write(json.dumps(dict(op=op["op"], a=op["a"] or [], k="crash", v=[], s=[])) + "\n")
                return trace
        raise CheckError("driver failed (exit %d): %s" % (rc, se[-2000:]))

    def load(self, trace, first="new"):
        """Split a trace into episodes (each starts with a `first` call)."""
        eps, cur = [], []
        with open(trace) as f:
            for line in f:
                if not line.endswith("}\n"):
                    continue
                op = line[7:line.index('"', 7)]
                self.opcount[op] = self.opcount.get(op, 0) + 1
                if op == first and cur:
                    eps.append(cur)
                    cur = []
                cur.append(line)
        if cur:
            eps.append(cur)
        return eps

    def validate(self, module, trace, cfg="Trace.cfg", comp=None, chunks=None, timeout=800, over=None, silent=False,
                 heap="3g", drive_args=(), replayable=True, drv=None):
        """TLC decides whether the recorded executions are behaviours of the
        specification. Exits with a VIOLATION if one is not."""
        t = time.time()
        eps = self.load(trace)
        ncalls = sum(len(e) for e in eps)
        if not ncalls:
            raise CheckError("empty trace " + trace)
        if chunks is None:
            chunks = max(1, min(6, ncalls // 15000))
        c = self.cfg(cfg, over)
        parts, target, cur, n = [], ncalls / chunks, [], 0
        for e in eps:
            cur.append(e)
            n += len(e)
            if n >= target and len(parts) < chunks - 1:
                parts.append(cur)
                cur, n = [], 0
        if cur:
            parts.append(cur)
        files = []
        for i, p in enumerate(parts):
            fn = "%s.part%d" % (trace, i)
            with open(fn, "w") as f:
                for e in p:
                    f.writelines(e)
            files.append(fn)
        with cf.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda a: self.tlc(module, c, 1, [], timeout, {"TRACE": a[1]}, heap, "t%d" % a[0]),
                               enumerate(files)))
        for fn, p, (rc, out) in zip(files, parts, outs):
            for k in re.findall(r'<<\s*"NOTE",\s*"([^"]*)",\s*([^>]*?)\s*>>', out):
                self.notes.append("%s: %s" % (k[0], re.sub(r"\s+", " ", k[1])))
            for k in re.findall(r'<<"KNOWN", "([^"]*)"', out):
                self.known[k] = self.known.get(k, 0) + 1
            m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
            if '"TRACE_ACCEPTED"' in out and rc == 0:
                self.states += int(m[-1][1])
                self.transitions += int(m[-1][0])
                self.episodes += len(p)
                self.calls += sum(len(e) for e in p)
                os.remove(fn)
                continue
            r = re.search(r'<<"TRACE_REJECTED", (\d+)', out)
            if not r or "Error:" in out.replace("Error: Failed to recover", ""):
                if not r:
                    raise CheckError("TLC failed on %s:\n%s" % (fn, out[-3000:]))
            self.reject(module, fn, p, int(r.group(1)), out, comp, c, timeout, drive_args, replayable, drv)
        self.traces.append(dict(spec=module, component=comp, episodes=len(eps), calls=ncalls,
                                wall_s=round(time.time() - t, 2)))
        if not self.samples or len(self.samples) < 6:
            for e in (eps[len(eps) // 3], eps[-1]):
                self.samples.append([self.short(x) for x in e[:14]])
        return eps

    @staticmethod
    def short(line):
        d = json.loads(line)
        return "%s%s -> %s%s" % (d["op"], d["a"], d["k"], d["v"])

    def reject(self, module, fn, eps, line, out, comp, cfgp, timeout, drive_args, replayable, drv):
        """line (1-based) of fn is the first one no behaviour explains."""
        n = 0
        for e in eps:
            if n + len(e) >= line:
                break
            n += len(e)
        idx = line - n                     # within the episode, 1-based
        ops = [dict(op=d["op"], a=d["a"]) for d in map(json.loads, e)]
        mism = [l for l in out.splitlines() if "MISMATCH" in l and ("MISMATCH\", %d," % line) in l][-3:]
        rep = dict(property=self.prop, component=comp, spec=module, seed=self.seed, history=ops[:idx],
                   logged=json.loads(e[min(idx, len(e)) - 1]), expected=mism, trace=[json.loads(x) for x in e[:idx]])
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        h = hashlib.sha1(json.dumps(ops[:idx]).encode()).hexdigest()[:10]
        rp = os.path.join(BUILD, "replay", "%s-%s.json" % (self.prop, h))
        rep["reproduced"] = None
        if replayable and comp:
            rep["reproduced"] = False
            for _ in range(5):
                try:
                    sub = self.drive(comp, [ops[:idx]], name="replay-" + h, args=drive_args, drv=drv)
                    rc, o2 = self.tlc(module, cfgp, 1, [], timeout, {"TRACE": sub}, "3g", "rep")
                except CheckError:
                    break
                if "TRACE_REJECTED" in o2:
                    rep["reproduced"] = True
                    break
        with open(rp, "w") as f:
            json.dump(rep, f, indent=1)
        print("rejected by %s at call %d of its history: %s" % (module, idx, self.short(e[min(idx, len(e)) - 1])))
        for m in mism:
            print("  " + m[:600])
        print("  history: " + " ; ".join("%s%s" % (o["op"], o["a"]) for o in ops[:idx])[-1500:])
        raise Violation(rp)

    # ----------------------------------------------------------- evidence
    def evidence(self, violations, spec_modules=()):
        ops = set()
        for m in spec_modules:
            s = open(os.path.join(SPECS, m + ".tla")).read()
            ops |= set(re.findall(r'e\.op = "(\w+)"', s))
        for m in spec_modules:
            s = open(os.path.join(SPECS, m + ".tla")).read()
            for grp in re.findall(r'e\.op \\in \{([^}]*)\}', s):
                ops |= set(re.findall(r'"(\w+)"', grp))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.episodes, samples=self.samples[:6],
                                calls_validated=self.calls, model_checking_runs=self.mc, trace_runs=self.traces,
                                calls_by_operation=dict(sorted(self.opcount.items())),
                                operations_never_exercised=sorted(ops - set(self.opcount)),
                                known_findings_seen=self.known, notes=self.notes),
                  assumptions=["calls go through the public API; conformance is shown for the executions recorded in this run",
                               "TLC, the Go toolchain and the driver's codecs are trusted"],
                  wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


class Violation(Exception):
    def __init__(self, path):
        self.path = path


def known_findings():
    """name -> (property, text) of the committed known-findings file."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: (\S+) property=(\S+) (.*)", l)
            if m:
                res[m.group(1)] = (m.group(2), m.group(3))
    return res
