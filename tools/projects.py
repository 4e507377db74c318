"""Projects.tla histories as editor sessions over several folders."""
from ruby import *
import editor

EXTERNAL = ["vendor", "vendor", ".bundle", "node_modules", "tmp", "log", "coverage", ".ruby-lsp", ".ruby-fast-lsp"]
DIRS = dict(a="w", b="w/s", c="w/x", d="w/s/x", e="v", f="o", g="w/s/t", h="v/t")
# Directory names; one may be the beginning of another.
SPELLINGS = [dict(w="shop", s="api", v="shop2", o="out"), dict(w="a", s="a", v="b", o="ab"), dict(w="app", s="engine", v="ap", o="app.old"),
             dict(w="tmp", s="vendored", v="log", o="tmp2")]


def layout(rng):
    n = dict(rng.choice(SPELLINGS), t=rng.choice(["lib", "deep/er", "spec"]))
    ext = rng.choice(EXTERNAL)
    def d(p):
        return "/".join(n[k] if k != "x" else rng.choice([ext] + EXTERNAL) + rng.choice(["", "/bundle", "/x"]) for k in p.split("/"))
    return {f: f"{d(p)}/{f}.rb" for f, p in DIRS.items()}, {k: "/".join(ext if q == "x" else n[q] for q in p.split("/")) + "/" for k, p in dict(w="w", s="w/s", v="v", t="w/s/t", y="w/x").items()}


def case(h, rng, live):
    """live: folders are announced as an editor does, and indexed; otherwise
    they are registered and the files reported as created."""
    P, D = layout(rng)
    start = h["steps"][0]
    body = {}
    T = lambda f, t: body.setdefault((f, t), editor.text(P[f], t))
    files = {P[f]: T(f, t)[0] for f, t in start["x"]["disk"].items() if t}
    for d in D.values():
        files[d + "README"] = ""
    for g in start["o"]["gem"]:
        files[D[g] + "Gemfile"] = ""
    disk = dict(start["x"]["disk"])
    glob = lambda fs: [f"**/{f}.rb" for f in sorted(fs)]
    st, want = [{"op": "policy", "inc": glob(start["o"]["pol"]["inc"]), "exc": glob(start["o"]["pol"]["exc"])}], []
    fs = sorted(D[k] for k in start["o"]["folders"])
    rng.shuffle(fs)
    if live:
        st.append({"op": "folders", "add": fs, "rm": []})
        want.append({"k": "indexed", "after": start["o"], "roots": sorted("$/" + D[r] for r in start["x"]["roots"])})
    else:
        st += [{"op": "addfolder", "f": f} for f in fs]
        ch = [[P[f], "created"] for f, t in sorted(disk.items()) if t]
        if ch:
            st.append({"op": "watch", "changes": ch})
    observe(T, P, start["x"], st, want, start["o"])
    for s in h["steps"][1:]:
        o = s["o"]
        a = o["a"]
        if a in ("open", "change"):
            st.append({"op": a, "f": P[o["f"]], "t": T(o["f"], o["t"])[0]})
        elif a == "save":
            f = o["f"]
            st += [{"op": "write", "f": P[f], "t": T(f, o["t"])[0]}, {"op": "save", "f": P[f]},
                   {"op": "watch", "changes": [[P[f], "changed" if disk[f] else "created"]]}]
            disk[f] = o["t"]
        elif a == "close":
            st.append({"op": "close", "f": P[o["f"]]})
        elif a == "external":
            (f, t), = o["ch"].items()
            st.append({"op": "write", "f": P[f], "t": T(f, t)[0]} if t else {"op": "delete", "f": P[f]})
            st.append({"op": "watch", "changes": [[P[f], "deleted" if not t else "changed" if disk[f] else "created"]]})
            disk[f] = t
        elif a == "folders":
            st.append({"op": "folders", "add": sorted(D[k] for k in o["add"]), "rm": sorted(D[k] for k in o["rm"])})
            want.append({"k": "indexed", "after": o, "roots": None})
        observe(T, P, s["x"], st, want, o)
    return {"roots": [], "files": files, "steps": st, "want": want}


def observe(T, P, x, st, want, o):
    B = {f: T(f, t) for f, t in x["now"].items() if t}
    for f in sorted(x["open"]):
        for n, (c, m) in sorted(B[f][2].items()):
            decl = sorted(list(B[g][1][n]) for g in x["declared"][f][n])
            st.append(definition(c))
            want.append({"k": "definition", "after": o, "of": n, "at": list(c), "starts": decl})
            st.append(definition(m))
            want.append({"k": "method definition", "after": o, "of": n, "at": list(m), "starts": [[p, l + 1, q + 2] for p, l, q in decl]})
            if not decl:
                continue
            st.append(references(c))
            want.append({"k": "references", "after": o, "of": n, "at": list(c), "fresh": f in x["fresh"], "own": [list(c)] if x["owned"][f] else [],
                         "starts": sorted([list(B[g][2][n][0]) for g in x["uses"][f][n]] + [[p, l, q + 6] for p, l, q in decl])})
            st.append(rename(c, "Zz"))
            want.append({"k": "rename", "after": o, "of": n, "at": list(c),
                         "may": sorted(P[g] for g in x["now"] if x["owner"][g] == x["owner"][f] and (x["owned"][g] or x["owner"][g] == "none"))})
    for n in "PQ":
        st.append(symbols(n))
        want.append({"k": "symbols", "after": o, "of": n, "starts": sorted(list(B[f][1][n]) for f in x["symbols"][n])})
    st.append({"op": "diags"})
    want.append({"k": "diags", "after": o, "files": {P[f]: sorted(B[f][2][n][0][1] for n in x["unresolved"][f])
                                                 for f in x["open"] if f in x["fresh"] or f == o.get("f")}})


def judge(case, answers):
    rest = []
    for w, a in zip(case["want"], answers):
        if w["k"] == "indexed":
            # every project that came is indexed to the end
            if any(p != "ready" for _, p in a) or w["roots"] is not None and sorted(r for r, _ in a) != w["roots"]:
                return {"what": "indexed", "after": w["after"], "expected": w["roots"], "got": a}
            continue
        if w["k"] != "rename":
            rest.append((w, a))
            continue
        got = sorted({e[0] for e in edits(a)})
        if not set(got) <= set(w["may"]):
            return {"what": "rename", "after": w["after"], "of": w["of"], "at": w["at"], "expected": ["only in"] + w["may"], "got": got}
    return editor.judge({"want": [w for w, _ in rest]}, [a for _, a in rest])


def nested_case():
    """F42: a folder inside another folder, both of them projects."""
    a, b = "shop/a.rb", "shop/api/b.rb"
    ta, tb = "class A\n  def m\n    Klass\n  end\nend\n", "class Klass\nend\n"
    return {"roots": [], "files": {a: ta, b: tb}, "pinned": "F42",
            "steps": [{"op": "folders", "add": ["shop/", "shop/api/"], "rm": []}, {"op": "open", "f": a, "t": ta}, definition((a, 2, 4))],
            "want": [{"k": "indexed", "after": {}, "roots": ["$/shop/", "$/shop/api/"]},
                     {"k": "definition", "after": {"a": "open"}, "of": "Klass", "at": [a, 2, 4], "starts": []}]}
