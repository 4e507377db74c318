"""Editor.tla histories as editor sessions."""
from ruby import *

SEM = {1: ("P", "PQ"), 2: ("Q", "P"), 3: ("PQ", "Q"), 4: ("", "PQ")}


def text(f, t):
    """(text, {name: definition start}, {name: (constant use, method use)})"""
    F = Files()
    F.w(f, "# text %d\n" % t + "\n" * t)
    defs, uses = {}, {}
    for n in SEM[t][0]:
        defs[n] = F.at(f)
        F.w(f, f"class {n}\n  def m_{n.lower()}\n  end\nend\n")
    F.w(f, "def use_%s\n" % f.replace("/", "_").replace(".", "_"))
    for n in SEM[t][1]:
        F.w(f, "  x = ")
        c = F.tok(f, n)
        F.w(f, ".new\n  x.")
        m = F.tok(f, f"m_{n.lower()}")
        F.w(f, "\n")
        uses[n] = (c, m)
    F.w(f, "end\n")
    return F.t[f], defs, uses


def path(f):
    return f"app/{f}.rb"


def ev(f, old, new):
    return [path(f), "deleted" if new == 0 else "created" if old == 0 else "changed"]


def history_case(init, steps, watch="watch", save_event=True):
    """init: {file: text number} on disk at start; steps: [{o, x}]."""
    want = []
    c = run_case(init, steps, lambda f, t: text(path(f), t)[0],
                 lambda i, x, st: observe(x, st, want, steps[i]["o"]), watch, save_event)
    c["want"] = want
    return c


def run_case(init, steps, body, look, watch="watch", save_event=True):
    files = {path(f): body(f, t) for f, t in init.items() if t}
    st = []
    if files:
        st.append({"op": "watch", "changes": [[p, "created"] for p in sorted(files)]})
    disk = dict(init)
    for i, s in enumerate(steps):
        o = s["o"]
        a = o["a"]
        if a in ("open", "change"):
            st.append({"op": a, "f": path(o["f"]), "t": body(o["f"], o["t"])})
        elif a == "save":
            st.append({"op": "write", "f": path(o["f"]), "t": body(o["f"], o["t"])})
            st.append({"op": "save", "f": path(o["f"])})
            if save_event:
                st.append({"op": watch, "changes": [ev(o["f"], disk[o["f"]], o["t"])]})
            disk[o["f"]] = o["t"]
        elif a == "close":
            st.append({"op": "close", "f": path(o["f"])})
        elif a == "external":
            ch = []
            for f, t in sorted(o["ch"].items()):
                st.append({"op": "write", "f": path(f), "t": body(f, t)} if t else {"op": "delete", "f": path(f)})
                ch.append(ev(f, disk[f], t))
                disk[f] = t
            st.append({"op": watch, "changes": ch})
        look(i, s["x"], st)
    return {"roots": ["app/"], "files": files, "steps": st}


def observe(x, st, want, o):
    auth = x["auth"]
    T = {f: text(path(f), t) for f, t in auth.items() if t}
    decl = {n: sorted(list(T[f][1][n]) for f in x["declared"][n]) for n in "PQ"}
    mdecl = {n: [[p, l + 1, c + 2] for p, l, c in decl[n]] for n in "PQ"}
    for f in sorted(x["open"]):
        for n, (c, m) in sorted(T[f][2].items()):
            st.append(definition(c))
            want.append({"k": "definition", "after": o, "of": n, "at": list(c), "starts": decl[n]})
            st.append(definition(m))
            want.append({"k": "method definition", "after": o, "of": f"m_{n.lower()}", "at": list(m), "starts": mdecl[n]})
            if not decl[n]:
                continue  # a name nobody declares has no references to list
            st.append(references(c))
            want.append({"k": "references", "after": o, "of": n, "at": list(c), "fresh": x["fresh"], "own": [list(c)],
                         "starts": sorted([list(T[g][2][n][0]) for g in x["uses"][n]] + [[p, l, cc + 6] for p, l, cc in decl[n]])})
        st.append(outline(path(f)))
        want.append({"k": "outline", "after": o, "of": path(f), "starts": sorted(
            [[n, l] for n, (_, l, c) in T[f][1].items()] + [[f"{n}/m_{n.lower()}", l + 1] for n, (_, l, c) in T[f][1].items()]
            + [["use_" + path(f).replace("/", "_").replace(".", "_"), T[f][0].split("\n").index("def use_" + path(f).replace("/", "_").replace(".", "_"))]])})
    for n in "PQ":
        st.append(symbols(n))
        want.append({"k": "symbols", "after": o, "of": n, "starts": decl[n]})
    st.append({"op": "diags"})
    want.append({"k": "diags", "after": o, "files": {path(f): sorted(T[f][2][n][0][1] for n in x["unresolved"][f]) for f in x["open"]}})


def outlined(nodes, outer):
    """Each name of an outline behind its enclosing ones, with its line."""
    for s in nodes:
        yield [outer + s["name"], s["range"]["start"]["line"]]
        yield from outlined(s.get("children") or [], outer + s["name"] + "/")


def judge(case, answers):
    for w, a in zip(case["want"], answers):
        d = None
        if w["k"] in ("definition", "method definition", "references"):
            got = [list(z) for z in starts(a)]
            if w.get("fresh", True):
                if got != w["starts"]:
                    d = got
            elif not all(z in w["starts"] for z in got) or not all(z in got for z in w["own"]):
                # between full resolutions: nothing that is not there, and at
                # least the uses in the file itself
                d = got
        elif w["k"] == "outline":
            got = sorted(outlined(a or [], ""))
            if got != w["starts"]:
                d = got
        elif w["k"] == "symbols":
            got = sorted([s["location"]["uri"][2:], s["location"]["range"]["start"]["line"], s["location"]["range"]["start"]["character"]]
                         for s in (a or []) if s["name"] == w["of"])
            if got != w["starts"]:
                d = got
        else:
            got = {f: sorted(set(z[0] for z in diags(a, f, "unresolved-constant"))) for f in w["files"]}
            if got != w["files"]:
                d = got
        if d is not None:
            return {"what": w["k"], "after": w["after"], "of": w.get("of"), "at": w.get("at"), "expected": w.get("starts", w.get("files")), "got": d}
    return None


def overlap_case(init, steps, rng, debounce=False):
    """Handlers in flight together; answers are judged whenever all are done."""
    files = {path(f): text(path(f), t)[0] for f, t in init.items() if t}
    st, want, disk, h, inflight = [], [], dict(init), 0, 0
    if files:
        st.append({"op": "watch", "changes": [[p, "created"] for p in sorted(files)]})
    for s in steps + [{"o": {"a": "settle"}, "x": steps[-1]["x"]}]:
        o = s["o"]
        a = o["a"]
        if a == "advance":
            st.append({"op": "advance", "h": o["h"], "n": rng.choice([1, 1, 2, 5])})
            continue
        if a == "elapse":
            st.append({"op": "elapse"})
            continue
        if a == "settle":
            st.append({"op": "settle"})
            # a save or a change on disk may have been resolved before an edit
            observe(dict(s["x"], fresh=False), st, want, "settled")
            continue
        h += 1
        if a in ("open", "change"):
            do = {"op": a, "f": path(o["f"]), "t": text(path(o["f"]), o["t"])[0]}
        elif a == "save":
            st.append({"op": "write", "f": path(o["f"]), "t": text(path(o["f"]), o["t"])[0]})
            disk[o["f"]] = o["t"]
            do = {"op": "save", "f": path(o["f"])}
        elif a == "close":
            do = {"op": "close", "f": path(o["f"])}
        else:
            ch = []
            for f, t in sorted(o["ch"].items()):
                st.append({"op": "write", "f": path(f), "t": text(path(f), t)[0]} if t else {"op": "delete", "f": path(f)})
                if debounce and disk[f] and t and rng.random() < 0.4:
                    ch += [ev(f, disk[f], 0), ev(f, 0, t)]  # replaced: one report, two events
                else:
                    ch.append(ev(f, disk[f], t))
                disk[f] = t
            do = {"op": "watchn" if debounce else "watch", "changes": ch}
        st.append({"op": "start", "h": h, "do": do})
    return {"roots": ["app/"], "files": files, "steps": st, "want": want}
