"""Common machinery of the checks: TLC (model checking, script generation, trace validation) and the Go harness."""
import concurrent.futures, glob, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class Failure(Exception):
    """The check could not do its work (an error of the check, never a verdict)."""


def sh(cmd, timeout=None, env=None, cwd=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    f = open(out, "wb") if out else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -999, ""
    finally:
        if out:
            f.close()
    return p.returncode, (o or b"").decode("utf-8", "replace")


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.specs = os.path.join(self.work, "specs")
        shutil.copytree(os.path.join(VERIF, "specs"), self.specs)
        self.bin = None
        self.lock = threading.Lock()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.n = 0
        self.rand = random.Random(self.seed)
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
        self.futures = []
        self.shown = []

    thorough = property(lambda self: self.tier == "thorough")

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def fresh(self, name):
        with self.lock:
            self.n += 1
            d = os.path.join(self.work, "%02d-%s" % (self.n, name))
        os.makedirs(d)
        return d

    # ---------------------------------------------------------------- Go
    def build(self):
        d = self.fresh("build")
        mod = open(os.path.join(VERIF, "harness", "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(os.path.join(d, "go.mod"), "w").write(mod)
        shutil.copy(os.path.join(VERIF, "harness", "go.sum"), d)
        self.bin = os.path.join(d, "harness.test")
        rc, o = sh(["go", "test", "-c", "-tags", "verif", "-modfile", os.path.join(d, "go.mod"), "-o", self.bin, "."],
                   cwd=os.path.join(VERIF, "harness"), env={"GOFLAGS": "-mod=mod"}, timeout=600)
        if rc != 0:
            raise Failure("the harness does not build:\n" + o[-3000:])

    def drive(self, driver, scripts, timeout=420, shards=8, env=None, procs=False, **params):
        """Runs scripts against the real code; returns the lines of the recorded traces, episode by episode."""
        if self.violations:
            return []
        params.setdefault("budget", timeout * 2 // 5)
        d = self.fresh("run-" + driver)
        job = {"Driver": driver, "Scripts": os.path.join(d, "scripts.ndjson"), "Out": d, "Seed": self.seed,
               "Shards": shards, "Params": params}
        with open(job["Scripts"], "w") as f:
            for s in scripts:
                f.write(json.dumps(s) + "\n")
        def one(only):
            path = os.path.join(d, "job%d.json" % only)
            json.dump(dict(job, Only=only), open(path, "w"))
            e = {"VJOB": path}
            e.update(env or {})
            outp = os.path.join(d, "output%d" % only)
            rc, _ = sh([self.bin, "-test.run", "^TestJob$", "-test.timeout", "0", "-test.parallel", str(min(max(shards, 1), 16))], env=e,
                       timeout=timeout, cwd=d, out=outp)
            return rc, open(outp, errors="replace").read()
        # procs: every shard in a process of its own, because it controls scheduling points of the whole process
        with concurrent.futures.ThreadPoolExecutor(16) as ex:
            res = list(ex.map(one, range(shards) if procs else [-1]))
        if any(rc not in (0, 7) and re.search(r"synctest \w+ from outside bubble", out) for rc, out in res):
            # the code keeps channels or timers beyond a server: every script in a process of its own then, as far as time allows
            for p in glob.glob(os.path.join(d, "[0-9]*.ndjson")):
                os.remove(p)
            shards, end = job.__setitem__("Shards", len(scripts)) or len(scripts), time.time() + timeout / 2
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda k: one(k) if time.time() < end else (0, ""), range(len(scripts))))
        lines = []
        for p in sorted(glob.glob(os.path.join(d, "[0-9]*.ndjson"))):
            for l in open(p, errors="replace"):
                if l.endswith("\n"):
                    lines.append(l)
        for rc, out in res:
            if rc == -999 and not lines:
                raise Failure("driver %s did not finish within %d s" % (driver, timeout))
            if rc not in (0, 7, -999):  # 7: a script hung, which is part of its trace
                self.crashed(driver, job, out)
        return lines

    def crashed(self, driver, job, out):
        """The driver died. If code of zyxar/socketio brought the process down, that is what users would see too."""
        m = re.search(r"^(panic: .*|fatal error: .*|.*stack exceeds.*)$", out, re.M)
        first = ""
        if m:
            g = re.search(r"^goroutine \d+.*?$(.*?)(^\s*$|\Z)", out[m.start():], re.M | re.S)
            first = g.group(1) if g else ""
        frames = [l for l in re.findall(r"^(\S+)\(", first, re.M) if not l.startswith(("runtime", "panic", "internal/"))]
        mine = [l for l in frames if l.startswith("github.com/zyxar/socketio")]
        if m and mine and (not frames[0].startswith("verifharness")) and "synctest" not in m.group(1) and "deadlock" not in m.group(1):
            self.violate({"kind": "crash", "message": m.group(1), "stack": first[:4000], "driver": driver,
                          "scripts": job["Scripts"]}, "crash of the process: %s in %s" % (m.group(1), mine[0]))
        else:
            raise Failure("driver %s failed:\n%s" % (driver, out[-6000:]))

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, args, timeout, env=None, workers=4, heap="3g"):
        d = self.fresh("tlc-" + module)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", "%s:%s" % (JAR, os.path.join(os.path.dirname(JAR), "CommunityModules-deps.jar")),
               "tlc2.TLC", "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE", "-config", cfg] + args + [module + ".tla"]
        rc, o = sh(cmd, timeout=timeout, cwd=self.specs, env=env, out=os.path.join(d, "out"))
        o = open(os.path.join(d, "out"), errors="replace").read()
        if rc == -999:
            raise Failure("TLC on %s did not finish within %d s" % (module, timeout))
        return rc, o

    @staticmethod
    def counts(o):
        m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", o, re.M)
        if not m:
            return 0, 0
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

    def variant(self, cfg, sub):
        """A configuration with other constants."""
        if not sub:
            return cfg
        text = open(os.path.join(self.specs, cfg)).read()
        for k, v in sub.items():
            text, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), text)
            if n != 1:
                raise Failure("no constant %s in %s" % (k, cfg))
        with self.lock:
            self.n += 1
            cfg = "x%d_%s" % (self.n, cfg)
        open(os.path.join(self.specs, cfg), "w").write(text)
        return cfg

    def model(self, module, cfg, timeout=800, workers=4, expect=None, heap="4g", sub=None):
        """Model checking. With expect, the model is a deliberately broken variant and TLC must find that violation."""
        cfg = self.variant(cfg, sub)
        rc, o = self.tlc(module, cfg, [], timeout, workers=workers, heap=heap)
        gen, dist = self.counts(o)
        ok = "Model checking completed. No error has been found" in o
        if expect:
            if not re.search(expect, o):
                raise Failure("model %s/%s should violate %s:\n%s" % (module, cfg, expect, o[-3000:]))
        elif not ok:
            raise Failure("model %s/%s does not satisfy its properties:\n%s" % (module, cfg, o[-5000:]))
        with self.lock:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov.setdefault("models", []).append({"module": module, "config": cfg, "distinct_states": dist,
                                                      "transitions": gen, "exhaustive": ok})

    def model_async(self, *a, **k):
        self.futures.append(self.pool.submit(self.model, *a, **k))

    def scripts(self, module, cfg, num=None, depth=100, limit=None, timeout=300, seed=None, sub=None):
        """Environment scripts out of TLC: simulation (num given) or exhaustive enumeration."""
        cfg = self.variant(cfg, sub)
        args = ["-simulate", "num=%d" % num, "-seed", str(self.seed if seed is None else seed), "-depth", str(depth)] if num else []
        rc, o = self.tlc(module, cfg, args, timeout, workers=1 if num else 4)
        if re.search(r"^Error", o, re.M) or "Exception" in o:
            raise Failure("generating with %s/%s:\n%s" % (module, cfg, o[-3000:]))
        seen = {}
        for l in o.splitlines():
            if l.startswith('<<"SCRIPT", '):
                s = json.loads(json.loads(l[len('<<"SCRIPT", '):-2]))
                seen.setdefault(json.dumps(s), s)
        out = list(seen.values()) if num else [seen[k] for k in sorted(seen)]
        if not out:
            raise Failure("no scripts from %s/%s:\n%s" % (module, cfg, o[-3000:]))
        if limit and len(out) > limit:
            out = self.rand.sample(out, limit)
        return out

    def validate(self, module, cfg, lines, what, timeout=600, chunk=60000, context=None):
        """Trace validation: every recorded line must be explained by the specification. Splits at 'reset' events."""
        if not lines and self.violations:
            return
        if not lines:
            raise Failure("nothing was recorded for " + what)
        episodes = []
        for l in lines:
            if '"ev":"reset"' in l or not episodes:
                episodes.append([])
            episodes[-1].append(l)
        chunks, cur = [], []
        for ep in episodes:
            if cur and len(cur) + len(ep) > chunk:
                chunks.append(cur)
                cur = []
            cur = cur + ep if len(ep) > 2000 else cur.__iadd__(ep)
        if cur:
            chunks.append(cur)
        # several TLC processes, each on its share
        if len(chunks) == 1 and len(lines) > 4000:
            k = min(6, len(lines) // 2000)
            per = len(lines) // k + 1
            chunks, cur = [], []
            for ep in episodes:
                if cur and len(cur) + len(ep) > per:
                    chunks.append(cur)
                    cur = []
                cur.extend(ep)
            chunks.append(cur)
        fs = [self.pool.submit(self._validate, module, cfg, c, timeout) for c in chunks]
        nbad = 0
        for c, f in zip(chunks, fs):
            at, n = f.result()
            if at < n:
                nbad += 1
                self.reject(module, c, at, what, context)
        eps = len(episodes) - nbad
        self.cov["traces_validated_against_impl"] += eps
        self.cov.setdefault("trace_events", 0)
        self.cov["trace_events"] += len(lines)
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append({"what": what, "trace": [json.loads(x) for x in episodes[len(episodes) // 2][:40]]})

    def _validate(self, module, cfg, lines, timeout):
        d = self.fresh("trace")
        p = os.path.join(d, "trace.ndjson")
        open(p, "w").writelines(lines)
        rc, o = self.tlc(module, cfg, [], timeout, env={"TRACE": p}, workers=1)
        m = re.search(r'<<"EXPLAINED", (-?\d+), (\d+)>>', o)
        if not m or "Model checking completed. No error" not in o:
            raise Failure("validating with %s:\n%s" % (module, o[max(o.find("Error:"), 0):][:4000]))
        gen, dist = self.counts(o)
        with self.lock:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
        return int(m.group(1)), int(m.group(2))

    def reject(self, module, lines, at, what, context):
        """lines[at] is the first event no behaviour of the specification explains."""
        start = at
        while start > 0 and '"ev":"reset"' not in lines[start]:
            start -= 1
        end = at + 1
        while end < len(lines) and '"ev":"reset"' not in lines[end]:
            end += 1
        ep = [json.loads(l) for l in lines[start:end]]
        rec = {"kind": "trace rejected", "spec": module, "what": what, "rejected_event": ep[at - start],
               "at": at - start, "trace": ep[:4000]}
        if context:
            rec["script"] = context(ep[0])
        self.violate(rec, "%s: event %d of the recorded execution is not allowed by %s: %s" %
                     (what, at - start, module, json.dumps(ep[at - start])[:600]))

    # ---------------------------------------------------------------- verdict
    def violate(self, rec, text):
        self.violations.append(rec)
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, len(self.violations)))
        rec = dict(rec, property=self.prop, seed=self.seed, tier=self.tier,
                   how_to_replay="VERIF_SEED=%d VERIF_TIER=%s python3 /verif/check.py %s" % (self.seed, self.tier, self.prop))
        json.dump(rec, open(path, "w"), indent=1)
        self.shown.append((path, text))

    def finish(self):
        for f in self.futures:
            f.result()
        cov = dict(self.cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for path, text in self.shown[:5]:
            print(text)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if not self.violations:
            print("OK %s: %d states, %d traces (%d events) of the real code validated, %.1f s" %
                  (self.prop, cov["states"], cov["traces_validated_against_impl"], cov.get("trace_events", 0), ev["wall_s"]))
        return 1 if self.violations else 0

    def cleanup(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        else:
            print("kept", self.work)
