"""One function per property: which specifications are model checked, which
behaviours are generated from them, and which harness driver replays them."""
from vlib import *
import consts, editor, projects, rich, locals_, methods, arity

# Properties decided with the harness built with the guarded hooks.
HOOKED = {"P05"}


def P01(c, vh):
    g = c.graph("Scheduler", "Scheduler_graph.cfg")
    walks = g.cover(max_len=40, rng=random.Random(c.seed))
    c.add(exhaustive=True, graph_transitions_replayed=g.edges)
    c.replay(vh, "scheduler", walks)
    c.replay(vh, "scheduler", c.sims("SchedulerSim", "Scheduler_sim.cfg", 800 if c.quick else 40000, 41,
                                     timeout=400 if c.quick else 1500))
    if not c.quick:
        c.model("Scheduler", "Scheduler_mc.cfg", timeout=1500)
        c.model("Scheduler", "Scheduler_live.cfg", timeout=1500)


def P02(c, vh):
    g = c.graph("Governor", "Governor_graph.cfg")
    lim = dict(cpu=2, task=2, mem=2, io=1)
    walks = g.cover(max_len=40, rng=random.Random(c.seed))
    for w in walks:
        w["limits"] = lim
    c.add(exhaustive=True, graph_transitions_replayed=g.edges)
    c.replay(vh, "governor", walks)
    c.replay(vh, "governor", c.sims("GovernorSim", "Governor_sim.cfg", 300 if c.quick else 20000, 37,
                                    timeout=400 if c.quick else 1500))
    c.replay(vh, "governor", c.sims("GovernorSim", "Governor_threads.cfg", 240 if c.quick else 8000, 37,
                                    timeout=400 if c.quick else 1500))
    if not c.quick:
        c.model("Governor", "Governor_mc.cfg", timeout=2000)


def P03(c, vh):
    for variant, e, w in (("bounded", 1, 5), ("ephemeral", 0, 0), ("plain", 1000, 1000)):
        g = c.graph("SingleFlight", "SingleFlight_graph.cfg", define=dict(MaxEntries=e, MaxWeight=w))
        cases = [dict(w_, variant=variant, entries=e, weight=w) for w_ in g.cover(max_len=40, rng=random.Random(c.seed))]
        c.replay(vh, "flight", cases)
    g = c.graph("SingleFlight", "SingleFlight_graph.cfg", define=dict(MaxEntries=1, MaxWeight=5, Abandonable="FALSE"))
    c.replay(vh, "flight_blocking", [dict(w_, variant="blocking", entries=1, weight=5) for w_ in g.cover(max_len=40)])
    c.add(exhaustive=True)
    n = 400 if c.quick else 20000
    sims = c.sims("SingleFlightSim", "SingleFlight_sim.cfg", n, 31)
    c.replay(vh, "flight", [dict(s, variant="bounded", entries=2, weight=7) for s in sims])
    sims = c.sims("SingleFlightSim", "SingleFlight_sim.cfg", n, 31, define=dict(Abandonable="FALSE"))
    c.replay(vh, "flight_blocking", [dict(s, variant="blocking", entries=2, weight=7) for s in sims])
    c.replay(vh, "flight_stress", [dict(variant=v, rounds=400 if c.quick else 5000) for v in ("plain", "bounded") for _ in range(4)], threads=2)
    c.model("SingleFlight", "SingleFlight_live.cfg")


def P04(c, vh):
    for define in (dict(), dict(MaxGen=1, MaxSeq=4, Phases="{2, 3, 4, 5, 6, 7, 8, 9, 10, 11}"), dict(MaxGen=4, MaxSeq=6, Phases="{5, 11}")):
        g = c.graph("IndexStatusMC", "IndexStatus_graph.cfg", define=define)
        c.add(graph_transitions_replayed=g.edges)
        c.replay(vh, "status", g.cover(max_len=60, rng=random.Random(c.seed)))
    c.add(exhaustive=True)
    c.replay(vh, "status", c.sims("IndexStatusSim", "IndexStatus_sim.cfg", 400 if c.quick else 20000, 41))


def P05(c, vh):
    for define in (dict(), dict(Keys='{"a", "b", "c"}', MaxGen=1, MaxTickets=1)):
        g = c.graph("NavDemand", "NavDemand_graph.cfg", define=define)
        c.add(graph_transitions_replayed=g.edges)
        c.replay(vh, "demand", g.cover(max_len=50, rng=random.Random(c.seed)))
    c.add(exhaustive=True)
    c.replay(vh, "demand", c.sims("NavDemandSim", "NavDemand_sim.cfg", 80 if c.quick else 20000, 61))
    fill = open(os.path.join(SPECS, "NavDemand_sim.cfg")).read().replace("NEXT SimNext", "NEXT FillNext").replace("Depth = 50", "Depth = 70")
    c.replay(vh, "demand", c.sims("NavDemandSim", fill, 160 if c.quick else 4000, 81))


def P06(c, vh):
    def go(cases, e, b):
        c.replay(vh, "cache", [dict(w, entries=e, bytes=b) for w in cases], timeout=900)
    damages = '{"truncate", "lastbyte", "empty", "flip", "fliphead", "fliplast", "grow", "zero"}'
    g = c.graph("DiskCache", "DiskCache_graph.cfg", define=dict(MaxClock=3 if c.quick else 5))
    c.add(graph_transitions_replayed=g.edges)
    go(g.cover(max_len=60, rng=random.Random(c.seed)), 100, 1000)
    for define in (dict(MaxEntries=2, MaxBytes=4, Weights="{1, 3}"), dict(MaxEntries=1, MaxBytes=100), dict(MaxEntries=3, MaxBytes=5, Weights="{1, 2}")):
        d = dict(Procs="{1}", Waiting="FALSE", Single="TRUE", Keys='{"k1", "k2", "k3", "k4"}' if not c.quick else '{"k1", "k2", "k3"}', Damages="{}", MaxClock=5)
        d.update(define)
        g = c.graph("DiskCache", "DiskCache_graph.cfg", define=d)
        c.add(graph_transitions_replayed=g.edges)
        go(g.cover(max_len=60, rng=random.Random(c.seed)), d["MaxEntries"], d["MaxBytes"])
    c.add(exhaustive=True)
    c.model("DiskCache", open(os.path.join(SPECS, "DiskCache_graph.cfg")).read().replace("ACTION_CONSTRAINT EmitT", ""),
            define=dict(Crashes="TRUE", MaxClock=5 if c.quick else 7))
    n = 160 if c.quick else 4000
    go(c.sims("DiskCacheSim", "DiskCache_sim.cfg", n, 31, define=dict(Damages=damages, Keys='{"k1", "k2", "k3", "k4"}', Procs="{1, 2, 3}")), 100, 1000)
    go(c.sims("DiskCacheSim", "DiskCache_sim.cfg", n, 31, define=dict(Damages='{"flip", "fliphead", "fliplast", "zero"}', Keys='{"k1", "k2", "k3", "k4", "k5"}', Procs="{1}",
       Waiting="FALSE", Single="TRUE", MaxEntries=3, MaxBytes=6, Weights="{1, 2, 3}")), 3, 6)
    c.replay(vh, "cache_bytes", [dict(len=l, part=p, parts=8) for l in ((40, 700) if c.quick else (1, 40, 700, 9000)) for p in range(8)])
    shim = os.path.join(c.scratch, "crash.so")
    p = subprocess.run(["cc", "-shared", "-fPIC", "-O1", "-o", shim, os.path.join(HARNESS, "shim", "crash.c"), "-ldl"], capture_output=True, text=True)
    if p.returncode:
        raise ToolError("shim: " + p.stderr)
    c.replay(vh, "cache_crash", [dict(at=at, torn=torn, len=l) for at in range(1, 25) for torn in (False, True) for l in ((3000, 200000) if c.quick else (1, 3000, 200000, 3000000))],
             extra_env=dict(VH_SHIM=shim))


def const_programs(c):
    out = c.drawn("Const", "Const.cfg", define=dict(Sample=700 if c.quick else 6000), timeout=3000)
    out += c.drawn("Const", "Const.cfg", define=dict(Sample=100 if c.quick else 2000, NBlocks=4, MaxOpen=3), timeout=3000)
    rng = random.Random(c.seed)
    return [consts.spelled(a, rng) for a in out]


def P07(c, vh):
    rng = random.Random(c.seed)
    c.sessions(vh, [consts.resolution_case(a, rng) for a in const_programs(c)], consts.judge_resolution)
    c.sessions(vh, consts.pinned_cases(), consts.judge_resolution)


def P08(c, vh):
    rng = random.Random(c.seed)
    c.sessions(vh, [x for x in (consts.usage_case(a, rng) for a in const_programs(c)) if x], consts.judge_usage)


def P09(c, vh):
    g = c.graph("Editor", "Editor_graph.cfg")
    c.add(graph_transitions_replayed=g.edges)
    cases = []
    walks = g.cover(max_len=30, rng=random.Random(c.seed), root=g.ids[json.dumps([{"a": 0, "b": 0}, {"a": 99, "b": 99}, True], sort_keys=True)])
    for w in walks:
        cases.append(editor.history_case(w["init"][0], w["steps"], save_event=len(cases) % 2 == 0))
    for h in c.sims("EditorSim", "Editor_sim.cfg", 200 if c.quick else 6000, 20):
        cases.append(editor.history_case(h["steps"][0]["x"]["disk"], h["steps"][1:], save_event=len(cases) % 2 == 0))
    c.sessions(vh, cases, editor.judge)


def P10(c, vh):
    rng = random.Random(c.seed)
    hs = c.sims("EditorSim", "Editor_sim.cfg", 360 if c.quick else 6000, 20)
    worlds = {i: rich.FIXED if i % 4 == 0 else rich.world(rng) for i in range(len(hs))}
    cases = [rich.history_case(worlds[i], i if i % 4 else 0, h["steps"][0]["x"]["disk"], h["steps"][1:], 2 if c.quick else 3, i % 2 == 0) for i, h in enumerate(hs)]
    cases = [x for x in cases if x]
    against_fresh(c, vh, cases)
    # known finding F12: an ancestor disappears
    steps = [{"o": {"a": "external", "ch": {"a": 0}}, "x": {"fresh": True, "open": [], "auth": {"a": 0, "b": 2, "c": 0}}},
             {"o": {"a": "open", "f": "b", "t": 2}, "x": {"fresh": True, "open": ["b"], "auth": {"a": 0, "b": 2, "c": 0}}}]
    against_fresh(c, vh, [dict(rich.history_case(rich.FIXED, 0, {"a": 1, "b": 2, "c": 0}, steps, 1, True, None), pinned="F12")], None)
    # known finding F24: the types of block variables of a file opened as it was indexed
    t = "def go\n  [Client.new].each { |item| item.helper }\nend\n"
    pre = [{"op": "watch", "changes": [["app/0.rb", "created"], ["app/c.rb", "created"]]}]
    pinned = lambda st: {"roots": ["app/"], "files": dict([rich.SKELETON, ("app/c.rb", t)]), "steps": pre + st + [rich.references(("app/c.rb", 1, 34))], "want": []}
    ref = c.collect(vh, {"x": pinned([{"op": "open", "f": "app/c.rb", "t": t}])})
    edited = pinned([{"op": "open", "f": "app/c.rb", "t": "\n"}, {"op": "change", "f": "app/c.rb", "t": t}])
    c.sessions(vh, [dict(edited, pinned="F24")], lambda case, a: None if a[0] == ref["x"][0] else {"what": ["references", "item.helper"], "after this history": a[0], "a fresh server": ref["x"][0]})


def against_fresh(c, vh, cases, skeleton=rich.SKELETON):
    keys = {rich.key(w["world"], w["auth"], w["open"]): (x["T"], w) for x in cases for w in x["want"]}
    fresh = c.collect(vh, {k: rich.fresh_case(T, w["auth"], w["open"], skeleton) for k, (T, w) in sorted(keys.items())})
    c.sessions(vh, cases, rich.judge_against(fresh))


def P11(c, vh):
    rng = random.Random(c.seed)
    progs = c.programs("Locals", "Locals.cfg", define=dict(MaxLen=7 if c.quick else 8), timeout=3000)
    two = c.programs("Locals", "Locals.cfg", define=dict(Names='{"x", "y"}', MaxLen=6 if c.quick else 7, MaxDepth=3 if c.quick else 4), timeout=3000, heap="12g")
    progs += rng.sample(two, min(len(two), 4000 if c.quick else 150000))
    for k in range(0, len(progs), 20000):
        c.sessions(vh, [locals_.case(a, rng) for a in progs[k:k + 20000]], locals_.judge, timeout=3000)


def P12(c, vh):
    rng = random.Random(c.seed)
    for d in ("FALSE", "TRUE"):
        c.model("Overlap", "Overlap_model.cfg", define=dict(Debounce=d))
        hs = c.sims("Overlap", "Overlap_sim.cfg", (1500 if d == "FALSE" else 400) if c.quick else 12000, 26, define=dict(Debounce=d))
        c.sessions(vh, [editor.overlap_case(h["steps"][0]["x"]["disk"], h["steps"][1:], rng, d == "TRUE") for h in hs], editor.judge)


def P13(c, vh):
    rng = random.Random(c.seed)
    for prof in ("mix", "ext", "vis", "override"):
        ps = c.programs("Methods", "Methods.cfg", define=dict(Profile=f'"{prof}"'))
        ps = rng.sample(ps, min(len(ps), 2000 if c.quick else 20000))
        c.sessions(vh, [methods.case(a, rng, rng.choice([1, 2])) for a in ps], methods.judge)


def P14(c, vh):
    rng = random.Random(c.seed)
    by = {}
    for p in c.programs("Arity", "Arity.cfg"):
        by.setdefault(json.dumps(p["m"], sort_keys=True), []).append(p)
    if not c.quick:
        for p in c.programs("Arity", "Arity.cfg", define=dict(MaxReq=2, MaxOpt=2, MaxPos=6), timeout=3000, heap="12g"):
            by.setdefault(json.dumps(p["m"], sort_keys=True), []).append(p)
    cases = [arity.case(rng.sample(g, min(len(g), 54)), rng) for _, g in sorted(by.items()) for _ in range(6 if c.quick else 15)]
    c.add(calls_judged=sum(len(x["want"][0]["calls"]) for x in cases))
    c.sessions(vh, cases, arity.judge)


def P15(c, vh):
    rng = random.Random(c.seed)
    hs = c.sims("ProjectsSim", "Projects_sim.cfg", 320 if c.quick else 8000, 14)
    c.sessions(vh, [projects.case(h, rng, False) for h in hs], projects.judge)
    hs = c.sims("ProjectsSim", "Projects_folders.cfg", 80 if c.quick else 1600, 8)
    c.sessions(vh, [projects.case(h, rng, True) for h in hs], projects.judge)
    c.sessions(vh, [projects.nested_case()], projects.judge)
    if not c.quick:
        c.model("Projects", "Projects_mc.cfg", timeout=2000)
