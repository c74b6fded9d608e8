"""Driver library: builds the harness, runs TLC on the design specs, replays
scenarios on the real code and has TLC judge the recorded events."""
import concurrent.futures as cf
import hashlib, itertools, json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def env_build():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUST_BACKTRACE", "RUST_LOG", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def build():
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"], cwd=os.path.join(VERIF, "harness"),
                       env=env_build(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise ToolError("harness build failed")
    return os.path.join(BUILD, "target", "debug", "lvh"), time.time() - t


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", f"{prop}-{tier}-{os.getpid()}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.viol, self.notes, self.known_hit, self.designs = [], [], [], {}, []
        self.lvh = None
        self.seq, self.lock = itertools.count(), threading.Lock()
        self.known = load_known(prop)

    def rng(self, name):
        h = hashlib.sha256(f"{self.seed}/{name}".encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def left(self):
        return (840 if self.quick else 6 * 3600) - (time.time() - self.t0)

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, heap="3g", timeout=None, tag="x"):
        meta = os.path.join(self.dir, f"meta-{module}-{tag}")
        e = dict(os.environ)
        e["SPEC_DIR"] = SPEC
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Dfile.encoding=UTF-8",
               "-Dstdout.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", meta, "-workers", str(workers), "-config", cfg, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               encoding="utf-8", errors="replace", timeout=timeout or max(60, self.left()))
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module} {cfg}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    def design(self, module, cfg, consts=None, workers=1, heap="4g", expect_scn=True, env=None):
        """Exhaustive TLC run of a design spec; returns the scenarios it printed."""
        path = os.path.join(SPEC, cfg)
        no = next(self.seq)
        if consts is not None:
            base = open(path).read()
            path = os.path.join(self.dir, f"{module}-{no}.cfg")
            with open(path, "w") as f:
                f.write(base + "\nCONSTANTS\n" + "\n".join(f"  {k} = {v}" for k, v in consts.items()) + "\n")
        t = time.time()
        rc, out = self.tlc(module, path, env=env, workers=workers, heap=heap, tag=str(no))
        scns = []
        for line in out.splitlines():
            if line.startswith('"SCN '):
                scns.append(json.loads(json.loads(line)[4:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if rc != 0 or not m or m.group(3) != "0":
            tail = "\n".join(x for x in out.splitlines() if not x.startswith(('"SCN ', "Parsing", "Semantic proc")))[-2000:]
            raise ToolError(f"design model {module} {cfg}: TLC exit {rc}\n{tail}")
        with self.lock:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
            self.designs.append({"model": module, "constants": consts or {}, "generated": int(m.group(1)),
                                 "distinct": int(m.group(2)), "scenarios": len(scns), "s": round(time.time() - t, 1)})
        if expect_scn and not scns:
            raise ToolError(f"design model {module} produced no behaviours")
        return scns

    def par(self, jobs):
        """run callables in parallel, results in order"""
        with cf.ThreadPoolExecutor(max_workers=6) as ex:
            return [f.result() for f in [ex.submit(j) for j in jobs]]

    # ---- replay + judge ---------------------------------------------------
    def replay(self, suite, scns, name):
        """Run scenarios on the real code -> list of event lines."""
        sf = os.path.join(self.dir, f"{name}.scn")
        ef = os.path.join(self.dir, f"{name}.ev")
        with open(sf, "w") as f:
            for s in scns:
                f.write(json.dumps(s, ensure_ascii=False, separators=(",", ":")) + "\n")
        e = dict(os.environ)
        e["LVH_SCRATCH"] = os.path.join(self.dir, "scratch")
        e["LVH_PROGRESS"] = os.path.join(self.dir, f"{name}.progress")
        os.makedirs(e["LVH_SCRATCH"], exist_ok=True)
        try:
            r = subprocess.run([self.lvh, suite, sf, ef], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                               errors="replace", timeout=max(60, self.left()))
        except subprocess.TimeoutExpired:
            raise ToolError(f"harness timed out in suite {suite}")
        if r.returncode != 0:
            return self.died(suite, scns, name, r, e)
        with open(ef) as f:
            lines = f.readlines()
        os.unlink(ef)
        return lines

    def died(self, suite, scns, name, r, env):
        """The process was killed (abort, stack overflow, out of memory) or hung: find the scenario that does it.
        Nothing the harness does itself ends it this way, so each such scenario is an event to be judged."""
        if r.returncode in (1, 2, 3):
            raise ToolError(f"harness suite {suite} exit {r.returncode}\n{r.stdout[-3000:]}")
        m = re.findall(r"^HUNG (\d+)", r.stdout, re.M)
        try:
            busy = [int(x) for x in open(env["LVH_PROGRESS"]).read().split("\n") if x.strip(" \0")]
        except (OSError, ValueError):
            busy = []
        lines = []
        for sc in [int(x) for x in m] or busy:
            sf, ef = os.path.join(self.dir, f"{name}.one.scn"), os.path.join(self.dir, f"{name}.one.ev")
            with open(sf, "w") as f:
                f.write(json.dumps(scns[sc], ensure_ascii=False) + "\n")
            try:
                one = subprocess.run([self.lvh, suite, sf, ef], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                                     env=dict(env, LVH_LIMIT="40", LVH_PROGRESS=os.devnull), timeout=120)
            except subprocess.TimeoutExpired:
                continue
            if one.returncode not in (0, 1, 2, 3):
                what = "hung" if one.returncode == 5 else f"killed by signal {-one.returncode}" if one.returncode < 0 else f"exit {one.returncode}"
                lines.append(json.dumps({"op": {"a": "PANIC"}, "panic": what, "sc": sc, "i": 0}, separators=(",", ":")) + "\n")
        if not lines:
            raise ToolError(f"harness suite {suite} exit {r.returncode}, not reproduced by one scenario {busy}\n{r.stdout[-3000:]}")
        return lines

    def judge(self, module, suite, scns, name, chunk=4000, env=None, per_event=False):
        """Replay scenarios, let TLC (trace spec `module`) judge all events; collect violations."""
        if not scns:
            raise ToolError(f"no scenarios for {name}")
        lines = self.replay(suite, scns, name)
        self.check_events(module, suite, scns, lines, name, chunk, env)
        return lines

    def check_events(self, module, suite, scns, lines, name, chunk=4000, env=None):
        # cut into chunks at scenario boundaries
        chunks, cur, last = [], [], None
        for ln in lines:
            sc = int(re.search(r'"sc":(\d+)', ln[ln.rfind('"sc":'):]).group(1))
            if len(cur) >= chunk and sc != last:
                chunks.append(cur)
                cur = []
            cur.append(ln)
            last = sc
        if cur:
            chunks.append(cur)

        def one(ix):
            tf = os.path.join(self.dir, f"{name}.{ix}.ndjson")
            vf = os.path.join(self.dir, f"{name}.{ix}.verdict.json")
            with open(tf, "w") as f:
                f.writelines(chunks[ix])
            rc, out = self.tlc(module, "Trace.cfg", env={"TRACE": tf, "VERDICT": vf, **(env or {})}, tag=f"{name}{ix}", heap="3g")
            if rc != 0 and "Error: " in out and not re.search("OutOfMemory|StackOverflow|No space|java.io", out):
                # the recorded event is outside the vocabulary of the specification: it is not one the specification allows
                at = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)]
                if at and at[-1] < len(chunks[ix]):
                    ev = json.loads(chunks[ix][at[-1]])
                    return ix, [{"n": at[-1] + 1, "sc": ev["sc"], "i": ev["i"], "why": ["not-expressible"]}], 1, 1
            if rc != 0 or not os.path.exists(vf):
                raise ToolError(f"trace spec {module} failed on {tf}: exit {rc}\n{out[-4000:]}")
            v = json.load(open(vf))
            if v["done"] != len(chunks[ix]):
                raise ToolError(f"trace spec {module} consumed {v['done']} of {len(chunks[ix])} events")
            m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
            if not v["bad"]:
                os.unlink(tf)
            os.unlink(vf)
            return ix, v["bad"], int(m.group(1)), int(m.group(2))

        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(one, range(len(chunks))))
        nbad = 0
        for ix, bad, gen, dist in res:
            self.transitions += gen
            self.states += dist
            for b in bad:
                nbad += 1
                ev = json.loads(chunks[ix][b["n"] - 1])
                self.violation(suite, module, scns[ev["sc"]], ev, b["why"], env)
        self.traces += len(scns)
        self.events += len(lines)
        if len(self.samples) < 6:
            self.samples.append({"suite": suite, "judge": module, "scenario": trim(scns[len(scns) // 2]),
                                 "event": trim(json.loads(lines[len(lines) // 2]))})
        return nbad

    def violation(self, suite, module, scn, ev, why, env=None):
        for k in self.known:
            if known_matches(k, suite, scn, ev, why):
                self.known_hit.setdefault(k["id"], (k, []))[1].append(ev.get("sc"))
                return
        if len(self.viol) < (20000 if os.environ.get("LVH_HIST") else 200):
            self.viol.append({"suite": suite, "judge": module, "why": why, "scenario": scn, "event": ev, "env": env or {}})
        else:
            self.viol.append(None)

    # ---- end ----------------------------------------------------------------
    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rep = os.path.join(BUILD, "replay")
        os.makedirs(rep, exist_ok=True)
        for old in os.listdir(rep):
            if old.startswith(f"{self.prop}-"):
                os.unlink(os.path.join(rep, old))
        paths = []
        seen = set()
        for i, v in enumerate(self.viol):
            if v is None:
                continue
            sig = (v["suite"], tuple(v["why"]), json.dumps(v["event"].get("op"))[:60], str(v["event"].get("type")))
            if sig in seen or len(paths) >= 12:
                continue
            seen.add(sig)
            pth = os.path.join(rep, f"{self.prop}-{len(paths)}.json")
            with open(pth, "w") as f:
                json.dump(v, f, indent=1, ensure_ascii=False)
            paths.append((pth, v))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "events_judged": self.events,
                           "design_models": self.designs,
                           "rule": "states/transitions: distinct/generated states over all TLC runs of this check (design models and trace specs); "
                                   "a trace is one scenario replayed on the real code whose every event TLC judged",
                           "samples": self.samples[:6], "notes": self.notes[:20],
                           "known_findings_seen": {k: len(x[1]) for k, x in self.known_hit.items()}},
              "violations": len(self.viol), "wall_s": round(time.time() - self.t0, 1)}
        s = json.dumps(ev, indent=1, ensure_ascii=False)
        while len(s) > 60000 and ev["coverage"]["samples"]:
            ev["coverage"]["samples"].pop()
            s = json.dumps(ev, indent=1, ensure_ascii=False)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            f.write(s + "\n")
        if os.environ.get("LVH_HIST"):
            import collections
            with open(os.path.join(BUILD, "all.json"), "w") as fh:
                json.dump([v for v in self.viol if v], fh)
            for k, n in collections.Counter((str(v["event"].get("type")), ",".join(v["why"])) for v in self.viol if v).most_common(30):
                print(n, k)
        for kid, (k, hits) in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']} [{kid}, {len(hits)} case(s)]")
        for pth, v in paths:
            print(f"VIOLATION property={self.prop} replay={pth}")
            print("   " + ",".join(v["why"]) + "  op=" + json.dumps(v["event"].get("op"), ensure_ascii=False)[:240])
        print(f"{self.prop} {self.tier}: {self.traces} traces, {self.events} events, {self.states} states, "
              f"{len(self.viol)} violation(s), {ev['wall_s']} s")
        shutil.rmtree(self.dir, ignore_errors=True)
        return 1 if self.viol else 0


def trim(x, n=1500):
    s = json.dumps(x, ensure_ascii=False)
    return x if len(s) <= n else s[:n] + "..."


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln or ln.startswith("#") or ln.startswith("fixed:"):
                continue
            k = json.loads(ln)
            if k["property"] == prop:
                out.append(k)
    return out


def known_matches(k, suite, scn, ev, why):
    """A finding names the suite, the exact scenario features and the reasons it explains."""
    if k["suite"] != suite or not set(why) <= set(k["why"]):
        return False
    for path, val in k.get("scenario", {}).items():
        if not _match(scn, path, val):
            return False
    for path, val in k.get("event", {}).items():
        if not _match(ev, path, val):
            return False
    return True


def _match(obj, path, val):
    cur = obj
    for p in path.split("."):
        if isinstance(cur, list):
            try:
                cur = cur[int(p)]
            except (ValueError, IndexError):
                return False
        elif isinstance(cur, dict):
            if p not in cur:
                return False
            cur = cur[p]
        else:
            return False
    if isinstance(val, dict) and "in" in val:
        return cur in val["in"]
    if isinstance(val, dict) and "re" in val:
        return isinstance(cur, str) and re.search(val["re"], cur) is not None
    return cur == val
