"""Shared machinery of the checks: building the harness from /repo's working
tree, running TLC, turning the state graph TLC enumerates into walks, running
the harness on them, and reporting."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from collections import defaultdict, deque
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, ".build", "target")
if REPO != "/repo":
    # Development only: the same machinery against a scratch copy.
    TARGET = os.path.join(REPO, ".verif-target")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
COMMUNITY = None


class ToolError(Exception):
    """The check itself could not run (exit 2): not a verdict about /repo."""


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def build_env():
    env = dict(os.environ)
    env.update(
        RUSTUP_TOOLCHAIN="1.91.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="1", RUSTC_WRAPPER="",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only",
    )
    env.setdefault("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.pop("RUSTFLAGS", None)
    return env


def repo_hash():
    h = hashlib.sha256()
    for top in ("src", "crates", "extensions", "support", "Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            try:
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                pass
    return h.hexdigest()


HOOKS = os.path.join(VERIF, "harness_hooks")


def build(package=HARNESS, binary="vh"):
    """Builds the harness (and with it every crate of /repo it links) from the
    current working tree. Crates of /repo are rebuilt whenever the content of
    the tree differs from what was built last, whatever the file times say."""
    t0 = time.time()
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, f"repo-{binary}.sha256")
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != h:
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(r"(ruby-fast-lsp|ruby-analysis|rbs-parser)", d):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    if REPO != "/repo":
        alt = os.path.join(REPO, ".verif-" + os.path.basename(package))
        shutil.rmtree(alt, ignore_errors=True)
        shutil.copytree(package, alt, ignore=shutil.ignore_patterns("target"))
        m = os.path.join(alt, "Cargo.toml")
        text = open(m).read().replace('"/repo', '"' + REPO)
        text = re.sub(r'path = "\.\./', f'path = "{VERIF}/', text)
        open(m, "w").write(text)
        package = alt
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(package, "Cargo.toml")],
                       env=build_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=package)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        raise ToolError("harness build failed")
    with open(stamp, "w") as f:
        f.write(h)
    log(f"[build] {binary} built in {time.time()-t0:.1f}s")
    return os.path.join(TARGET, "debug", binary)


# ----------------------------------------------------------------------- TLC
def tlc(module, cfg, scratch, *, simulate=None, depth=None, seed=None, workers="auto", timeout=600,
        heap="4g", on_line=None, extra=(), check_exit=True, define=None):
    """Runs TLC in a scratch copy of specs/. Emitted lines (PrintT of a string
    starting with @@) go to on_line as decoded JSON. Returns a stats dict."""
    d = tempfile.mkdtemp(prefix="tlc-" + module + "-", dir=scratch)
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPECS, f), d)
    cfgtext = cfg if "\n" in cfg else open(os.path.join(SPECS, cfg)).read()
    for k, v in (define or {}).items():
        cfgtext = re.sub(rf"(?m)^(\s*{re.escape(k)}\s*=\s*).*$", lambda m: m.group(1) + str(v), cfgtext)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfgtext)
    cp = ":".join([TLA_JAR] + [os.path.join("/opt/veriftools/tla", x) for x in os.listdir("/opt/veriftools/tla")
                              if x.endswith(".jar") and x != "tla2tools.jar"])
    if workers == "auto":
        workers = os.environ.get("VERIF_WORKERS", "8")
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, f"-Xmx{heap}", "-Dtlc2.tool.impl.Tool.probabilistic=false", "-cp", cp, "tlc2.TLC",
           "-workers", str(workers), "-config", "run.cfg", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", f"num={simulate}"]
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
    cmd += list(extra) + [module + ".tla"]
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True)
    tail = deque(maxlen=200)
    st = {"states": 0, "distinct": 0, "emitted": 0, "error": None}
    timed_out = [False]

    def kill():
        timed_out[0] = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    import threading
    timer = threading.Timer(timeout, kill)
    timer.start()
    try:
        for line in p.stdout:
            if line.startswith('"@@'):
                st["emitted"] += 1
                if on_line:
                    s = line.rstrip("\n")
                    if not s.endswith('"'):
                        raise ToolError("garbled TLC line: " + s[:200])
                    on_line(json.loads(json.loads(s)[2:]))
                continue
            tail.append(line)
            m = re.search(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct", line)
            if m:
                st["states"], st["distinct"] = int(m.group(1)), int(m.group(2))
            m = re.search(r"The number of states generated: (\d+)", line)
            if m:
                st["states"] = int(m.group(1))
        rc = p.wait()
    finally:
        timer.cancel()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    st["rc"] = rc
    st["wall"] = round(time.time() - t0, 1)
    st["tail"] = "".join(tail)
    shutil.rmtree(d, ignore_errors=True)
    if timed_out[0]:
        if simulate:
            st["timed_out"] = True
            return st
        raise ToolError(f"TLC timed out on {module} after {timeout}s\n" + st["tail"][-2000:])
    if rc != 0 and check_exit:
        raise ToolError(f"TLC failed on {module} ({cfg.splitlines()[0]}) rc={rc}\n" + st["tail"][-5000:])
    return st


# --------------------------------------------------------------------- graphs
class Graph:
    """State graph TLC printed through an ACTION_CONSTRAINT: {f,o,x,t}."""

    def __init__(self):
        self.ids = {}
        self.out = defaultdict(list)   # node -> [(op, obs, node)]
        self.seen = set()
        self.nodes = []

    def node(self, v):
        k = json.dumps(v, sort_keys=True)
        if k not in self.ids:
            self.ids[k] = len(self.ids)
            self.nodes.append(v)
        return self.ids[k]

    def add(self, rec):
        f, t = self.node(rec["f"]), self.node(rec["t"])
        ek = (f, json.dumps(rec["o"], sort_keys=True), json.dumps(rec["x"], sort_keys=True), t)
        if ek in self.seen:
            return
        self.seen.add(ek)
        self.out[f].append((rec["o"], rec["x"], t))

    @property
    def edges(self):
        return len(self.seen)

    def roots(self):
        indeg = set()
        for f, es in self.out.items():
            for (_, _, t) in es:
                if t != f:
                    indeg.add(t)
        r = [n for n in range(len(self.nodes)) if n not in indeg]
        return r or [0]

    def cover(self, max_len=60, rng=None, max_walks=None, root=None):
        """Walks from the initial state that together take every transition."""
        rng = rng or random.Random(0)
        roots = [root] if root is not None else self.roots()
        un = {n: list(range(len(es))) for n, es in self.out.items()}
        for l in un.values():
            rng.shuffle(l)
        # shortest path tree
        parent = {r: None for r in roots}
        q = deque(roots)
        order = []
        while q:
            n = q.popleft()
            order.append(n)
            for i, (_, _, t) in enumerate(self.out.get(n, ())):
                if t not in parent:
                    parent[t] = (n, i)
                    q.append(t)
        remaining = sum(len(un.get(n, ())) for n in order)
        pend = deque(sorted(order, key=lambda n: 0))
        walks = []
        # deepest first so that prefixes are shared by later walks' tree edges
        for n in reversed(order):
            while un.get(n):
                path = []
                c = n
                while parent[c] is not None:
                    pn, i = parent[c]
                    path.append((pn, i))
                    c = pn
                path.reverse()
                steps = []
                for (pn, i) in path:
                    if i in un.get(pn, ()):
                        un[pn].remove(i)
                        remaining -= 1
                    steps.append(self.out[pn][i])
                cur = n
                while len(steps) < max_len and un.get(cur):
                    i = un[cur].pop()
                    remaining -= 1
                    e = self.out[cur][i]
                    steps.append(e)
                    cur = e[2]
                walks.append({"root": c, "init": self.nodes[c], "steps": [{"o": o, "x": x} for (o, x, _) in steps]})
                if max_walks and len(walks) >= max_walks:
                    return walks
        return walks


# -------------------------------------------------------------------- harness
def run_harness(vh, sub, cases, scratch, *, timeout=600, threads=8, extra_env=None, args=()):
    """Replays cases (a list of JSON values, one per line) into the real code.
    Returns (results, crashed). Each failing case comes back with what the
    specification expected and what the code did."""
    inp = os.path.join(scratch, f"{sub}-{time.time_ns()}.ndjson")
    out = inp + ".out"
    prog = inp + ".progress"
    with open(inp, "w") as f:
        for c in cases:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
    env = dict(os.environ)
    sc = os.path.join(scratch, f"h{time.time_ns()}")
    os.makedirs(sc)
    env["VH_SCRATCH"] = sc
    env["RUBY_FAST_LSP_CACHE_DIR"] = os.path.join(sc, "cache")
    env["HOME"] = os.path.join(sc, "home")
    env["RUST_BACKTRACE"] = "0"
    env["XDG_CACHE_HOME"] = os.path.join(sc, "xdg")
    os.makedirs(env["HOME"])
    env.update(extra_env or {})
    try:
        p = subprocess.run([vh, sub, inp, out, "--threads", str(threads), "--progress", prog, *args],
                           env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", cwd=sc)
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired as e:
        raise ToolError(f"harness {sub} exceeded {timeout}s")
    finally:
        shutil.rmtree(sc, ignore_errors=True)
    res = []
    if os.path.exists(out):
        for line in open(out):
            try:
                res.append(json.loads(line))
            except ValueError:
                pass
    done = [r for r in res if r.get("summary")]
    fails = [r for r in res if not r.get("summary") and "answers" not in r]
    answers = {r["i"]: r["answers"] for r in res if "answers" in r}
    for f in fails:
        f["case"] = cases[f["i"]]
    if rc == 3 or (not done and rc >= 0):
        raise ToolError(f"harness {sub} rc={rc}: {err[-3000:]}")
    if not done:
        # killed by a signal: the code under test took the process down
        at = []
        if os.path.exists(prog):
            at = [json.loads(x) for x in open(prog).read().split("\n") if x.strip()]
        if rc == -signal.SIGKILL:
            raise ToolError(f"harness {sub} was killed (memory?)")
        i = at[-1]["i"] if at else 0
        fails.append({"i": i, "case": cases[i], "crash": f"signal {-rc}", "stderr": err[-2000:]})
        done = [{"summary": True, "cases": 0, "steps": 0}]
    s = done[-1]
    s["answers"] = answers
    os.unlink(inp)
    for f in (out, prog):
        if os.path.exists(f):
            os.unlink(f)
    return s, fails


# ------------------------------------------------------------------ reporting
def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop and k.get("status") == "known"]


class Check:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.fails = []
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.quick = tier == "quick"

    def left(self):
        """Seconds left of this run's own budget."""
        return (720 if self.quick else 3600 * 3) - (time.time() - self.t0)

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and isinstance(self.cov.get(k), (int, float)):
                self.cov[k] += v
            else:
                self.cov[k] = v

    def model(self, module, cfg, **kw):
        st = tlc(module, cfg, self.scratch, **kw)
        self.cov["states"] += st["distinct"] or st["states"]
        self.cov["transitions"] += st["states"]
        log(f"[tlc] {module}/{cfg.splitlines()[0][:40]}: {st['states']} generated, {st['distinct']} distinct, "
            f"{st['emitted']} emitted, {st['wall']}s")
        return st

    def graph(self, module, cfg, **kw):
        g = Graph()
        self.model(module, cfg, on_line=g.add, **kw)
        if g.edges == 0:
            raise ToolError(f"{module}/{cfg}: no transition emitted (vacuous)")
        return g

    def sims(self, module, cfg, num, depth, procs=None, timeout=300, keep=None, **kw):
        """Random behaviours of the specification: `procs` TLC simulators with
        seeds derived from the run's seed. Siblings that differ from the
        previous behaviour in their last step only are dropped."""
        procs = procs or 8
        outs = [[] for _ in range(procs)]

        def one(k):
            return tlc(module, cfg, self.scratch, simulate=max(1, num // procs), depth=depth,
                       seed=self.seed * 1000003 + 7919 * k + 17, on_line=outs[k].append, workers=1, timeout=timeout,
                       heap="2g", **kw)
        with ThreadPoolExecutor(procs) as ex:
            sts = list(ex.map(one, range(procs)))
        st = {"states": sum(s["states"] for s in sts)}
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["states"]
        res = []
        for o in outs:
            last = None
            for b in o:
                k = json.dumps(b["steps"][:-1], sort_keys=True)
                if k != last:
                    res.append(b)
                last = k
        log(f"[tlc] {module}/{cfg.splitlines()[0]} simulation: {st['states']} states, {len(res)} behaviours, {max(s['wall'] for s in sts)}s")
        if not res:
            raise ToolError(f"{module}/{cfg}: simulation emitted nothing\n" + sts[0]["tail"][-3000:])
        return res

    def replay(self, vh, sub, cases, **kw):
        if not cases:
            raise ToolError(f"{sub}: nothing to replay")
        t = time.time()
        s, fails = run_harness(vh, sub, cases, self.scratch, **kw)
        self.cov["traces_validated_against_impl"] += s.get("cases", 0)
        self.cov["impl_steps_compared"] = self.cov.get("impl_steps_compared", 0) + s.get("steps", 0)
        for k, v in s.get("counts", {}).items():
            c = self.cov.setdefault("impl_counts", {})
            c[k] = c.get(k, 0) + v
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append({"harness": sub, "case": trim(cases[0])})
        log(f"[impl] {sub}: {s.get('cases')} cases, {s.get('steps')} steps, {len(fails)} disagreements, {time.time()-t:.1f}s")
        for f in fails:
            f["harness"] = sub
        self.fails += fails
        return s, fails

    def sessions(self, vh, cases, judge, **kw):
        """Editor sessions: the harness collects the answers, `judge` compares
        them with what the specification prescribes."""
        if not cases:
            raise ToolError("no session to run")
        t = time.time()
        slim = [{k: v for k, v in c.items() if k != "want"} for c in cases]
        s, fails = run_harness(vh, "session", slim, self.scratch, **kw)
        ans = s.pop("answers")
        n = 0
        for i, c in enumerate(cases):
            if i in ans:
                n += len(ans[i])
                d = judge(c, ans[i])
                if d:
                    fails.append({"i": i, "disagreement": d, "case": c})
        self.cov["traces_validated_against_impl"] += len(ans)
        self.cov["impl_steps_compared"] = self.cov.get("impl_steps_compared", 0) + n
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append({"harness": "session", "case": trim(cases[len(cases) // 2])})
        log(f"[impl] sessions: {len(ans)} sessions, {n} answers, {len(fails)} disagreements, {time.time()-t:.1f}s")
        for f in fails:
            f["harness"] = "session"
        self.fails += fails
        return fails

    def collect(self, vh, cases, **kw):
        """The answers of sessions that serve as reference, by key."""
        keys = list(cases)
        s, fails = run_harness(vh, "session", [{k: v for k, v in cases[x].items() if k != "want"} for x in keys], self.scratch, **kw)
        for f in fails:
            f["harness"] = "session"
        self.fails += fails
        return {keys[i]: a for i, a in s["answers"].items()}

    def programs(self, module, cfg, **kw):
        """Every program (initial state) of a specification, with its answers."""
        out = []
        self.model(module, cfg, on_line=out.append, **kw)
        if not out:
            raise ToolError(f"{module}/{cfg}: no program emitted")
        out.sort(key=lambda x: json.dumps(x, sort_keys=True))
        return out

    def drawn(self, module, cfg, procs=None, **kw):
        """Programs drawn at random by several TLC processes at a time."""
        procs = procs or min(6, int(os.environ.get("VERIF_WORKERS", "8")))
        outs = [[] for _ in range(procs)]
        with ThreadPoolExecutor(procs) as ex:
            for f in [ex.submit(self.model, module, cfg, on_line=outs[k].append, workers=1, extra=("-seed", str(self.seed * 1000003 + 7919 * k + 17)), **kw) for k in range(procs)]:
                f.result()
        out = list({json.dumps(x, sort_keys=True): x for o in outs for x in o}.items())
        if not out:
            raise ToolError(f"{module}/{cfg}: no program emitted")
        return [x for _, x in sorted(out)]

    def finish(self):
        known = known_findings(self.prop)
        new, hits = [], {}
        for f in self.fails:
            sig = json.dumps(f, sort_keys=True)
            k = next((k for k in known if all(m in sig for m in k["match"])), None)
            if k:
                hits[k["id"]] = k
            else:
                new.append(f)
        for k in known:
            log(f"KNOWN-FINDING: property={self.prop} {k['what']}" + ("" if k["id"] in hits else " (not reached by this run)"))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if new:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, f"{self.prop}.json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "disagreements": len(new), "first": new[:5]}, f, indent=1)
            log(json.dumps({k: v for k, v in new[0].items() if k != "case"}, indent=1)[:3000])
            log("case: " + json.dumps(new[0].get("case"))[:3000])
            log(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        log(f"[{self.prop}] held on everything explored: {self.cov['traces_validated_against_impl']} traces replayed, "
            f"{self.cov['states']} model states, {ev['wall_s']}s")
        return 0


def trim(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else {"truncated": s[:n]}
