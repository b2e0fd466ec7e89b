"""Machinery shared by all checks: builds the driver from /repo, runs cases on the
real code, runs TLC on the specification, compares, reports."""
import json, os, re, resource, shutil, subprocess, sys, time, random, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class ToolError(Exception):
    """The check itself could not do its work (exit 2, never a violation)."""


class Enough(Exception):
    """A violation has been shown and the rest would take long (hangs): stop here."""


def dumps(x):
    return json.dumps(x, ensure_ascii=True, separators=(",", ":"))


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.t0 = time.time()
        base = os.path.join(ROOT, ".work")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="%s-" % pid, dir=base)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.stages = [], {}, []
        self.violations, self.known = [], []
        self._drv = {}
        self._n = 0

    # ---- tiers -------------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %5.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- driver ------------------------------------------------------------
    def driver(self, race=False):
        key = "race" if race else "plain"
        if key not in self._drv:
            out = os.path.join(self.work, "vdrive." + key)
            cmd = ["bash", os.path.join(ROOT, "tools", "build.sh"), out] + (["-race"] if race else [])
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0 or not os.path.exists(out):
                raise ToolError("building the driver failed:\n" + r.stdout[-4000:])
            self._drv[key] = out
        return self._drv[key]

    def enough(self):
        if self.violations and time.time() - self.t0 > self.pick(100, 3600):
            raise Enough()

    def _tmp(self, name):
        self._n += 1
        return os.path.join(self.work, "%03d-%s" % (self._n, name))

    def run_cases(self, cases, race=False, shards=None, limit=20, env=None):
        """Run cases on the real code; returns their observations in order.  A crash or
        hang of the driver is attributed to the case that was running, and the rest goes on."""
        self.enough()
        drv = self.driver(race)
        n = len(cases)
        if n == 0:
            return []
        shards = max(1, min(shards or NPROC, n))
        groups = [list(range(s, n, shards)) for s in range(shards)]
        jobs = []
        for s, idx in enumerate(groups):
            cf, of = self._tmp("cases.ndjson"), self._tmp("obs.ndjson")
            with open(cf, "w") as f:
                for i in idx:
                    f.write(dumps(cases[i]) + "\n")
            jobs.append(dict(idx=idx, cf=cf, of=of, skip=0, extra={}))
        e = dict(os.environ)
        e["VDRIVE_LIMIT"] = str(limit)
        e["GORACE"] = "halt_on_error=1 exitcode=66"
        e.update(env or {})
        for j in jobs:
            j["p"] = self._start(drv, j, e)
        obs = [None] * n
        pending = list(jobs)
        while pending:
            nxt = []
            for j in pending:
                rc = j["p"].wait()
                err = open(j["of"] + ".err").read()
                done = 0
                if os.path.exists(j["of"]):
                    with open(j["of"], "rb") as f:
                        data = f.read()
                    if data and not data.endswith(b"\n"):  # died while writing
                        data = data[:data.rfind(b"\n") + 1]
                        with open(j["of"], "wb") as f:
                            f.write(data)
                    done = data.count(b"\n")
                total = done + len(j["extra"])
                if rc == 4:
                    raise ToolError("driver failed: " + err[-2000:])
                if rc == 0:
                    if total != len(j["idx"]):
                        raise ToolError("driver ended early: %d of %d" % (total, len(j["idx"])))
                    continue
                if rc == 3:  # hang, recorded by the driver itself
                    j["skip"] = total
                    j["hangs"] = j.get("hangs", 0) + 1
                elif rc == -9:
                    raise ToolError("driver was killed")
                else:  # crash: the case after the last recorded one
                    j["extra"][total] = {"k": "crash", "rc": rc, "stack": err[:3000]}
                    j["skip"] = total + 1
                if j["skip"] < len(j["idx"]):
                    if (j.setdefault("restarts", 0) > 25 or j.get("hangs", 0) >= 2):
                        for q in range(j["skip"], len(j["idx"])):
                            j["extra"][q] = {"k": "skipped"}
                        continue
                    j["restarts"] = j.get("restarts", 0) + 1
                    j["p"] = self._start(drv, j, e)
                    nxt.append(j)
            pending = nxt
        for j in jobs:
            lines = []
            if os.path.exists(j["of"]):
                with open(j["of"]) as f:
                    lines = [json.loads(l) for l in f]
            it = iter(lines)
            for pos, i in enumerate(j["idx"]):
                if pos in j["extra"]:
                    obs[i] = j["extra"][pos]
                else:
                    obs[i] = next(it)
                    obs[i].pop("id", None)
            for x in (j["cf"], j["of"], j["of"] + ".err"):
                if os.path.exists(x):
                    os.remove(x)
        return obs

    def _start(self, drv, j, env):
        pre = None
        if not drv.endswith("race"):  # what eats all memory should end as a crash of its own
            def pre():
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        return subprocess.Popen([drv, j["cf"], j["of"], str(j["skip"])], env=env, cwd=self.work, preexec_fn=pre,
                                stdout=subprocess.DEVNULL, stderr=open(j["of"] + ".err", "w"))

    # ---- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=None, timeout=1500, args=(), heap="12g"):
        cf = self._tmp(module + ".cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        out = self._tmp(module + ".out")
        meta = self._tmp("meta")
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Djava.io.tmpdir=" + self.work, "-Dtlc2.tool.queue.DiskStateQueue.BufSize=8000000",  # spilled queues lose non-ASCII characters
                "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Xss512m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-workers", str(workers or NPROC), "-metadir", meta, "-config", cf] + list(args) + [module + ".tla"]
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=SPEC, env=e, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out on " + module)
        shutil.rmtree(meta, ignore_errors=True)
        vec, rest = [], []
        with open(out, encoding="utf-8", errors="surrogateescape") as f:
            for line in f:
                if line.startswith(("Parsing file", "Semantic proc", "Linting of")):
                    continue
                if line.startswith('"{'):
                    vec.append(line)
                else:
                    rest.append(line)
        os.remove(out)
        text = "".join(rest)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return dict(rc=r.returncode, text=text, vec=vec, gen=gen, distinct=dist)

    @staticmethod
    def vec(line):
        return json.loads(json.loads(line))

    @staticmethod
    def cfg(constants=None, invariants=(), properties=(), spec="Spec", extra=""):
        s = "SPECIFICATION %s\n" % spec
        for k, v in (constants or {}).items():
            s += "CONSTANT %s = %s\n" % (k, tla(v))
        for i in invariants:
            s += "INVARIANT %s\n" % i
        for p in properties:
            s += "PROPERTY %s\n" % p
        return s + "CHECK_DEADLOCK FALSE\n" + extra

    def model(self, module, constants=None, invariants=(), properties=(), env=None, name=None, extra="", **kw):
        """Exhaustive model check of the specification; returns exported vectors (lines)."""
        self.enough()
        t = time.time()
        r = self.tlc(module, self.cfg(constants, invariants, properties, extra=extra), env=env, **kw)
        if r["rc"] != 0:
            raise ToolError("model %s does not satisfy its own invariants or failed (rc %d):\n%s"
                            % (module, r["rc"], r["text"][:2000] + "\n...\n" + r["text"][2000:][-2500:]))
        self.states += r["distinct"]
        self.transitions += max(0, r["gen"] - 1)
        self.stage(name or module, model=module, states=r["distinct"], transitions=max(0, r["gen"] - 1),
                   invariants=list(invariants) + list(properties), seconds=round(time.time() - t, 1))
        return r["vec"]

    def validate(self, module, prop, pairs, name=None, **kw):
        """Trace validation: pairs = [(case, observation)].  Returns [(index, why)] of the
        recorded behaviours the specification does not allow."""
        if not pairs:
            return []
        t = time.time()
        f = self._tmp("trace.ndjson")
        with open(f, "w") as fh:
            for i, (c, o) in enumerate(pairs):
                fh.write(dumps({"id": i + 1, "c": c, "o": o}) + "\n")
        r = self.tlc(module, self.cfg({}, ["Report"]), env={"CASES": f, "PROP": prop}, **kw)
        if r["rc"] != 0:
            raise ToolError("trace validation with %s failed (rc %d):\n%s" % (module, r["rc"], r["text"][:2000] + "\n...\n" + r["text"][2000:][-2500:]))
        if r["distinct"] != 2 * len(pairs):
            raise ToolError("trace validation judged %d states for %d traces" % (r["distinct"], len(pairs)))
        os.remove(f)
        self.states += r["distinct"]
        self.transitions += len(pairs)
        self.traces += len(pairs)
        bad = []
        for l in r["vec"]:
            x = self.vec(l)
            bad.append((x["id"] - 1, x["why"]))
        self.stage(name or (module + ":" + prop), traces=len(pairs), rejected=len(bad), seconds=round(time.time() - t, 1))
        return sorted(bad)

    def expected(self, module, prop, case, obs):
        """What the specification expects for one case (for the replay file)."""
        f = self._tmp("one.ndjson")
        with open(f, "w") as fh:
            fh.write(dumps({"id": 1, "c": case, "o": obs}) + "\n")
        r = self.tlc(module, self.cfg({}, ["Report", "Detail"]), env={"CASES": f, "PROP": prop}, workers=1)
        for l in r["vec"]:
            x = self.vec(l)
            if "expected" in x:
                return x["expected"]
        return None

    # ---- the common pipeline -------------------------------------------------
    def conform(self, cases, module="Trace", prop=None, name=None, race=False, limit=20, env=None, sample=2, describe=None, fresh=False):
        """Run cases on the real code and have TLC judge every recorded behaviour.  fresh: each in a process of its own"""
        prop = prop or self.pid
        if fresh:
            obs = []
            for i in range(0, len(cases), NPROC):
                obs += self.run_cases(cases[i:i + NPROC], race=race, shards=NPROC, limit=limit, env=env)
        else:
            obs = self.run_cases(cases, race=race, limit=limit, env=env)
        bad = []
        good = []
        for i, o in enumerate(obs):
            if o.get("k") == "skipped":
                continue
            if o.get("k") != "done":
                bad.append((i, o["k"]))
            else:
                good.append(i)
        rej = self.validate(module, prop, [(cases[i], obs[i]) for i in good], name=name)
        bad += [(good[i], why) for i, why in rej]
        for i in self.rng.sample(range(len(cases)), min(sample, len(cases))):
            if len(self.samples) < 6:
                self.sample({"case": cases[i], "observed": obs[i]})
        self.judge(bad, cases, obs, module, prop, race=race, limit=limit, env=env)
        return obs

    def judge(self, bad, cases, obs, module, prop, race=False, limit=20, env=None, maxrep=3):
        """Confirm suspected violations by running each case once more, alone."""
        for i, why in bad[:40]:
            if len(self.violations) >= maxrep:
                break
            case = cases[i]
            for _ in range(6 if race else 1):
                o = self.run_cases([case], race=race, limit=limit, env=env)[0]
                r = self.validate(module, prop, [(case, o)], name="confirm") if o.get("k") == "done" else []
                if r or o.get("k") != "done":
                    break
            if o.get("k") == "done":
                if not r:
                    self.log("NOT REPRODUCED: case", i, why)
                    self.notes["not_reproduced"] = self.notes.get("not_reproduced", 0) + 1
                    continue
                why = r[0][1]
                exp = self.expected(module, prop, case, o)
            else:
                exp = "a normal return"
            self.violation(case, o, exp, why)
        if bad and not self.violations and self.notes.get("not_reproduced"):
            self.log("suspected violations did not reproduce; not reported")

    def replay_vectors(self, suspects, module, prop):
        self.judge([(i, "vector") for i in range(len(suspects))], suspects, None, module, prop)

    # ---- reporting -----------------------------------------------------------
    def stage(self, name, **kw):
        kw = dict(stage=name, **kw)
        self.stages.append(kw)
        self.log(dumps(kw))

    def sample(self, s):
        txt = dumps(s)
        self.samples.append(s if len(txt) < 6000 else {"truncated": txt[:6000]})

    def violation(self, case, obs, exp, why):
        key = self.known_key(case, why)
        if key:
            self.known.append(key)
            return
        d = os.path.join(ROOT, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "why": why, "case": case, "observed": obs, "expected": exp,
                       "seed": self.seed, "tier": self.tier}, f, indent=1)
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        self.log("why:", str(why)[:600])

    def known_key(self, case, why):
        return None

    def finish(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "samples": self.samples[:6], "stages": self.stages, "notes": self.notes},
            "assumptions": ["TLC and the Go toolchain work as documented",
                            "inputs are valid UTF-8 without characters outside the basic multilingual plane"],
            "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        self.log("done: %d states, %d transitions, %d traces, %d violations"
                 % (self.states, self.transitions, self.traces, len(self.violations)))

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def tla(v):
    if v is True:
        return "TRUE"
    if v is False:
        return "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise ToolError("cannot write %r in TLA+" % (v,))
