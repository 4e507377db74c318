"""Arity.tla: calls and the argument lists their methods take."""
from ruby import *

FILE, SITE = "app/a.rb", "app/s.rb"


def params(m, rng):
    p = [rng.choice(["a%d", "a%d", "(a%d, z%d)"]).replace("%d", str(i)) for i in range(m["req"])]
    p += ["b%d = %s" % (i, rng.choice(["1", "nil", "{}"])) for i in range(m["opt"])]
    if m["rest"] and m["krest"] and not m["post"] and not m["req"] and not m["kreq"] and not m["kopt"] and rng.random() < .4:
        return "(" + ", ".join(p + ["..."]) + ")\n"
    if m["rest"]:
        p.append(rng.choice(["*r", "*"]))
    p += ["c%d" % i for i in range(m["post"])]
    k = [x + ":" for x in m["kreq"]] + [x + ": 1" for x in m["kopt"]]
    rng.shuffle(k)
    p += k
    if m["krest"]:
        p.append(rng.choice(["**o", "**"]))
    if rng.random() < .2:
        p.append(rng.choice(["&blk", "&"]))
    style = rng.random()
    if style < .08 and p and p[0][0] != "(" and p[-1] not in ("*", "**", "&") and not p[-1].endswith(":"):
        return " " + ", ".join(p) + "\n"
    if style < .16 and p:
        return "(\n      " + ", # é\n      ".join(p) + "\n    )\n"
    return "(" + ", ".join(p) + ")" + rng.choice(["\n", "\n", "\n", ";", " # (a, b)\n"])


MIDDLE = ["nil", "[1, 2]", "\"s, t\"", ":y", "->(q, r) { q }", "{ k: 1 }", "[*[1]]", "(1; 2)", "-1", "1..2", "%w[a b]", "proc { |q, r| q }", "\"é😀#{1}\"", "/a,b/", "self"]
LAST = ["nil", "[1, 2]", "\"s, t\"", ":y", "-1", "1..2", "%w[a b]", "\"é😀\"", "/a,b/", "3.5", "true"]


def args(c, rng, m=None):
    a = [str(i) for i in range(c["pos"])]
    for i in range(len(a)):
        if rng.random() < .3:
            a[i] = rng.choice(LAST if i == len(a) - 1 else MIDDLE)
    if c["splat"]:
        a.insert(rng.randrange(len(a) + 1), "*ss")
    k = ["%s: 1" % x if rng.random() < .7 else ":%s => 1" % x if rng.random() < .5 else "\"%s\": 1" % x for x in c["kws"]]
    # a key that is no symbol is as good as an undeclared keyword where there is none or a rest of them
    if m and "z" in c["kws"] and (m["krest"] or not (m["kreq"] or m["kopt"])):
        k[c["kws"].index("z")] = rng.choice(["z: 1", "\"z\" => 1", "3 => 4", "[1] => 2", "nil => 1"])
    if c["ksplat"]:
        k.append("**kk")
    rng.shuffle(k)
    if rng.random() < .1:
        k.append("&bb")
    return a + k


# how the method is defined and called: (definition head, call head, argument list in front)
WAYS = ["bare", "self", "new", "class", "initialize", "send", "super", "inherited", "module", "local", "safe", "alias", "reopened", "mixin", "eigen", "public_send", "__send__", "prepended", "overriding", "extended"]


def case(group, rng):
    m = group[0]["m"]
    way = rng.choice(WAYS)
    two = rng.random() < .5
    F = Files()
    d, s = FILE, SITE if two else FILE
    sig = params(m, rng)
    rng.shuffle(group)
    want = []

    def call(head, g, first=()):
        at = F.tok(s, head[-1]) if isinstance(head, list) else None
        F.w(s, "")
        l = list(first) + args(g["c"], rng, m)
        style = rng.random() * (.79 if anon else 1)
        if style < .8:  # k: stands for k: k
            l = [x[:-2] if len(x) > 2 and x[-3:] == ": 1" and x[0] != '"' and rng.random() < .15 else x for x in l]
        if anon:
            l = [{"*ss": "*", "**kk": "**", "&bb": "&"}.get(x, x) for x in l]
        sep = ", " if rng.random() < .9 else ",\n" + ind + "  "
        F.w(s, "(" + sep.join(l) + ")" if style < .8 or not l or l[0][0] in "{[-/(%" else " " + sep.join(l))
        if style < .8 and rng.random() < .15 and not (l and l[-1] in ("&bb", "&")):
            F.w(s, rng.choice([" { 1 }", " do |q| q end"]))
        F.w(s, "\n")
        return at

    anon = rng.random() < .15
    own = "(k = 1, l = 2, z = 3, *, **, &)" if anon else "(ss, kk, bb, k = 1, l = 2, z = 3)"
    other = rng.choice(["", "()", "(*)", "(a, b, c, d, e, f)", "(q:)", "(a = 1)"])
    name = "initialize" if way == "initialize" else "m"
    if way == "module":
        F.w(d, f"module A\n  def self.m{sig}  end\nend\n")
    elif way == "class":
        F.w(d, f"class A\n  def self.m{sig}  end\nend\n")
    elif way == "alias":
        F.w(d, f"class A\n  def n{sig}  end\n  {rng.choice(['alias m n', 'alias_method :m, :n'])}\nend\n")
    elif way == "mixin":
        F.w(d, f"module M\n  def m{sig}  end\nend\nclass A\n  include M\nend\n")
    elif way == "eigen":
        F.w(d, f"class A\n  class << self\n    def m{sig}    end\n  end\nend\n")
    elif way == "prepended":
        F.w(d, f"module M\n  def m{sig}  end\nend\nclass A\n  prepend M\n  def m{other}\n  end\nend\n")
    elif way == "overriding":
        F.w(d, f"class Z\n  def m{other}\n  end\nend\nclass A < Z\n  def m{sig}  end\nend\n")
    elif way == "extended":
        F.w(d, f"module M\n  def m{sig}  end\nend\nclass A\n  extend M\n  def m{other}\n  end\nend\n")
    elif way == "reopened":
        F.w(d, f"class A\nend\nclass A\n  def m{sig}  end\nend\n")
    else:
        F.w(d, f"class A\n  def {name}{sig}  end\nend\n")
    pre, ind, post = "", "", ""
    if way in ("bare", "self"):
        pre, ind, post = f"class A\n  def go{own}\n", "    ", "  end\nend\n"
    elif way == "super":
        pre, ind, post = f"class B < A\n  def m{own}\n", "    ", "  end\nend\n"
    elif way == "inherited":
        pre, ind, post = f"class B < A\nend\ndef go{own}\n", "  ", "end\n"
    else:
        pre, ind, post = f"def go{own}\n", "  ", "end\n"
    F.w(s, pre)
    if way == "local":
        F.w(s, ind + "v = A.new\n")
    for g in group:
        F.w(s, ind)
        first = []
        if way == "self":
            F.w(s, "self.")
        elif way in ("new", "safe", "send", "public_send", "__send__", "alias", "reopened", "mixin", "prepended", "overriding"):
            F.w(s, "A.new" + ("&." if way == "safe" else "."))
        elif way in ("class", "module", "initialize", "eigen", "extended"):
            F.w(s, "A.")
        elif way == "inherited":
            F.w(s, "B.new.")
        elif way == "local":
            F.w(s, "v.")
        head = {"initialize": "new", "send": "send", "public_send": "public_send", "__send__": "__send__", "super": "super"}.get(way, "m")
        line = F.at(s)[1]
        F.w(s, head)
        call(head, g, [rng.choice([":m", '"m"'])] if "send" in way else [])
        want.append({"line": line, "end": F.at(s)[1], "settled": g["settled"] and way != "alias", "hopeless": g["hopeless"], "wrong": g["wrong"], "missing": sorted(g["missing"]), "unknown": sorted(g["unknown"]), "c": g["c"], "got": g["got"],
                     "takes": str(g["low"]) + ("+" if g["high"] == 99 else "" if g["high"] == g["low"] else f"..{g['high']}")})
    F.w(s, post)
    st = [{"op": "watch", "changes": [[f, "created"] for f in sorted(F.t)]}]
    st += [{"op": "open", "f": f, "t": t} for f, t in sorted(F.t.items())]
    st.append({"op": "save", "f": s})
    st.append({"op": "diags"})
    return {"roots": ["app/"], "files": dict(F.t), "steps": st, "want": [{"site": s, "way": way, "calls": want, "sig": sig}]}


CODES = ("wrong-arity", "missing-kwarg", "unknown-kwarg")


def judge(case, answers):
    w, ds = case["want"][0], answers[-1] or {}
    by = {}
    for u, l in ds.items():
        for d in l:
            if d.get("code") in CODES:
                by.setdefault((u[2:], d["range"]["start"]["line"]), []).append((d["code"], d["message"]))
    text = case["files"][w["site"]].split("\n")
    for c in w["calls"]:
        got = [x for l in range(c["line"], c["end"]) for x in by.pop((w["site"], l), [])]
        codes = sorted(x for x, _ in got)
        exp = None
        if c["settled"]:
            exp = sorted(["wrong-arity"] * c["wrong"] + ["missing-kwarg"] * bool(c["missing"]) + ["unknown-kwarg"] * len(c["unknown"]))
            bad = codes != exp
            for code, msg in got:
                if code == "missing-kwarg":
                    bad |= sorted(msg.split(": ", 1)[1].replace("`", "").replace(":", "").split(", ")) != c["missing"]
                if code == "wrong-arity":
                    bad |= not msg.endswith(f"(expected {c['takes']}, got {c['got']})")
            bad |= sorted(msg.split("`")[1][:-1] for code, msg in got if code == "unknown-kwarg") != c["unknown"]
        else:
            exp = "nothing" if not c["hopeless"] else "anything"
            bad = codes and not c["hopeless"]
        if bad:
            return {"what": w["way"], "def": w["sig"], "call": text[c["line"]], "expected": exp, "got": got}
    if by:
        return {"what": "reported where there is no call", "got": str(by)}
