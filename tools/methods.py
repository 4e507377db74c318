"""Methods.tla programs as editor sessions."""
from ruby import *


# Where a call may stand.
CALLS = ["{}"] * 6 + ["x = {}", "foo({})", "[{}]", "{}.foo", "if {} then 1 end", "\"#{{{}}}\"", "-> {{ {} }}", "{} {{ |q| q }}", "{}()", "foo k: {}", "{} && 1",
                      "x ||= {}", "1 unless {}", "case {} when 1 then 1 end", "(1; {})", "{}.foo.bar", "not {}", "begin {} end", "{} rescue 1", "foo(*{})"]
NAMES = ["m", "m", "run", "m?", "m!", "go_m", "é", "called"]
SPELLINGS = [("A", "B", "M", "N"), ("A", "B", "M", "N"), ("Foo", "FooBar", "FooM", "Mod"), ("FooBar", "Foo", "Walk", "Walker"), ("HTTP2", "HTTP", "É", "Éa"), ("N", "M", "B", "A")]


def render(a, rng, nfiles=1):
    """Ruby text, {owner: start of its def m}, [(kind, class, call position)]."""
    p = a["p"]
    F = Files()
    names = ["app/m%d.rb" % i for i in range(nfiles)]
    m_ = rng.choice(NAMES)
    W = dict(zip("ABMN", rng.choice(SPELLINGS)))

    def site(f, kind, c, before, name):
        """A call standing somewhere."""
        pre, post = rng.choice(CALLS).format("\0").split("\0")
        if name == "super" and post[:3] == " { ":
            post = ""
        F.w(f, pre + before)
        sites.append((kind, c, F.tok(f, name)))
        F.w(f, post + "\n")
    defs, sites, odd = {}, [], set()

    def ind(n):
        return "  " * n

    def say(f, o, k):
        for v in (p[k].get(o, []) if k in p else []):
            F.w(f, "  %s %s\n" % (v, rng.choice([":" + m_, f'"{m_}"', ":" + m_])))

    def meth(f, o, vis, call_super):
        if vis != "-":
            say(f, o, "pre")
            own(f, o, vis, call_super)
        say(f, o, "post")

    def other(f, o, i, inline, eigen=""):
        """m without def."""
        how = rng.choice(["attr", "define", "alias"])
        sym = rng.choice([":" + m_, f'"{m_}"'])
        odd.add(eigen + o)
        if how == "attr":
            if not m_[-1].isalpha():
                odd.discard(eigen + o)
                return False
            k = rng.choice(["attr_reader", "attr_accessor", "attr_reader :other,"])
            F.w(f, k + " ")
            defs[eigen + o] = F.at(f)
            F.w(f, sym + rng.choice(["", "", ", :more"]) + "\n")
        elif how == "define":
            F.w(f, "define_method" + rng.choice("( "))
            paren = F.t[f][-1] == "("
            defs[eigen + o] = F.at(f)
            F.w(f, sym + (")" if paren else "") + rng.choice([" { 1 }" if paren else " do 1 end", " do\n" + i + "  2\n" + i + "end"]) + "\n")
        else:
            if inline:
                odd.discard(eigen + o)
                return False
            F.w(f, f"def old_one\n{i}end\n{i}")
            defs[eigen + o] = F.at(f)
            F.w(f, rng.choice([f"alias {m_} old_one", f"alias :{m_} :old_one", f"alias_method {sym}, :old_one", f"alias_method({sym}, \"old_one\")"]) + "\n")
        return True

    def own(f, o, vis, call_super):
        style = rng.choice(["name", "section", "inline"]) if vis != "public" else "plain"
        i = ind(1)
        if style == "section":
            F.w(f, f"{i}{vis}\n")
        F.w(f, i)
        if style == "inline":
            F.w(f, vis + " ")
        if rng.random() < .3 and other(f, o, i, style == "inline"):
            pass
        else:
            defs[o] = F.at(f)
            F.w(f, f"def {m_}\n")
            if call_super:
                F.w(f, ind(2))
                site(f, "sup", o, "", "super")
            F.w(f, i + "end\n")
        if style == "name":
            F.w(f, f"{i}{vis} :{m_}\n")
        if style == "section":
            F.w(f, f"{i}public\n")

    def smeth(f, o, vis):
        if vis == "-":
            return
        i = ind(1)
        style = rng.choice(["self", "eigen", "section"]) if vis == "public" else rng.choice(["self", "eigen"])
        if style == "section":
            # says nothing about methods of the class itself
            F.w(f, f"{i}{rng.choice(['private', 'protected'])}\n")
        if style != "eigen":
            F.w(f, i)
            defs["s" + o] = F.at(f)
            F.w(f, f"def {rng.choice(['self', W[o]])}.{m_}\n{i}end\n")
            if style == "section":
                F.w(f, f"{i}public\n")
            if vis == "private":
                F.w(f, f"{i}private_class_method :{m_}\n")
        else:
            F.w(f, f"{i}class << self\n")
            if vis == "private":
                F.w(f, f"{i}  private\n")
            F.w(f, i + "  ")
            if not (rng.random() < .3 and other(f, o, i + "  ", False, "s")):
                defs["s" + o] = F.at(f)
                F.w(f, f"def {m_}\n{i}  end\n")
            F.w(f, f"{i}end\n")

    def mix(f, l):
        # include P, Q first includes Q
        l, k = list(l), 0
        while k < len(l):
            n = 1
            while k + n < len(l) and l[k + n][0] == l[k][0] and rng.random() < .5:
                n += 1
            F.w(f, ind(1) + l[k][0] + " " + ", ".join(W[m] for _, m in reversed(l[k:k + n])) + "\n")
            k += n

    for m in "MN":
        f = rng.choice(names)
        F.w(f, f"module {W[m]}\n")
        if m == "N":
            mix(f, p["mixN"])
        meth(f, m, p["def"][m], False)
        F.w(f, "end\n")
    for c in "AB":
        f = rng.choice(names)
        F.w(f, f"class {W[c]}" + (" < " + W["A"] if c == "B" and p["sup"] else "") + "\n")
        mix(f, p["mix" + c])
        mix(f, [("extend", m) for m in p["ext" + c]])
        parts = ["m", "s", "go", "sgo"]
        rng.shuffle(parts)
        for k in parts:
            if rng.random() < .15:
                F.w(f, "end\n")
                f = rng.choice(names)
                F.w(f, f"class {W[c]}\n")
            if k == "m":
                meth(f, c, p["def"][c], True)
            elif k == "s":
                smeth(f, c, p["sdef"][c])
            elif k == "go":
                F.w(f, "  def go\n    ")
                site(f, "bare", c, "", m_)
                F.w(f, "    ")
                site(f, "bare", c, "self.", m_)
                F.w(f, "  end\n")
            else:
                F.w(f, "  def self.sgo\n    ")
                site(f, "sbare", c, "", m_)
                F.w(f, "  end\n")
        F.w(f, "end\n")
    f = names[-1]

    def call(kind, c, recv):
        style = rng.choice(["direct", "local"]) if recv.endswith(".new") else "direct"
        if style == "local":
            v = "v%d" % len(sites)
            F.w(f, f"    {v} = {recv}\n    ")
            recv = v
        else:
            F.w(f, "    " + (rng.choice(NOISE) if rng.random() < .15 else ""))
        site(f, kind, c, recv + rng.choice((".", ".", ".", "&.", "::")), m_)
    F.w(f, f"class {W['A']}\n  def ga\n")
    for c in "AB":
        call("fromA", c, W[c] + ".new")
    F.w(f, "  end\nend\n")
    for c in "AB":
        call("new", c, W[c] + ".new")
        call("cls", c, W[c])
    return F, defs, sites, odd


def case(a, rng, nfiles=1):
    F, defs, sites, odd = render(a, rng, nfiles)
    st = [{"op": "watch", "changes": [[f, "created"] for f in sorted(F.t)]}]
    st += [{"op": "open", "f": f, "t": t} for f, t in sorted(F.t.items())]
    want = []
    sure, silent = [], []
    for kind, c, at in sites:
        o = a["calls"][c][kind]
        if o == "?":
            continue
        st.append(definition(at))
        want.append({"k": kind, "of": c, "at": list(at), "starts": [list(defs[o])] if o != "-" else [], "odd": o in odd})
        if o != "-":
            silent.append(list(at))
        elif a["calls"][c]["none"] and (kind in ("new", "fromA", "sup") or kind == "bare" and not line(F, at)[:at[2]].endswith("self.")):
            sure.append(list(at))
    for o, d in sorted(defs.items()):
        runs = sorted(list(at) for kind, c, at in sites if kind != "sup" and a["calls"][c][kind] == o)
        if a["p"]["def"].get(o) == "protected" or o in odd:
            continue
        l = line(F, d)
        at = l.index("def ") + 4
        st.append(references((d[0], d[1], l.index(".") + 1 if "." in l[at:] else at)))
        want.append({"k": "references", "of": o, "at": list(d), "runs": runs})
    st.append({"op": "diags"})
    want.append({"k": "diagnostics", "sure": sure, "silent": silent})
    return {"roots": ["app/"], "files": dict(F.t), "steps": st, "want": want}


def line(F, at):
    return F.t[at[0]].split("\n")[at[1]]


def judge(case, answers):
    for w, a in zip(case["want"], answers):
        if w["k"] == "diagnostics":
            got = [[u[2:], d["range"]["start"]["line"], d["range"]["start"]["character"]]
                   for u, ds in sorted((a or {}).items()) for d in ds if d.get("code") == "unresolved-method"]
            for at in w["sure"]:
                if got.count(at) != 1:
                    return {"what": "missing method not reported once", "at": at, "got": got}
            for at in w["silent"]:
                if at in got:
                    return {"what": "existing method reported missing", "at": at, "got": got}
            continue
        got = [list(z) for z in starts(a)]
        if w["k"] == "references":
            lost = [z for z in w["runs"] if z not in got]
            if lost or len(got) != len({tuple(z) for z in got}):
                return {"what": "references", "of": w["of"], "at": w["at"], "expected": w["runs"], "got": got}
        elif got != w["starts"] and not (w["odd"] and [[z[0], z[1], z[2] - 1] for z in got] == w["starts"]):
            return {"what": w["k"], "of": w["of"], "at": w["at"], "expected": w["starts"], "got": got}
