"""Locals.tla programs as Ruby text; variable answers against the bindings."""
from ruby import *

FILE = "app/l.rb"
W_NEW = ["{} = 1", "{} = foo(1)", "{} ||= 1", "{}, qq = 1, 2", "qq, *{} = 1, 2", "if ({} = bar) then 1 end", "for {} in [1] do 1 end",
         "begin\n  zap\nrescue => {}\n  1\nend", "{} = nil", "{} = []",
         "case [1]\nin [{}] then 1\nend", "case foo\nin {{ k: {} }} then 1\nend", "foo => {}", "foo in [*{}]", "foo in {{ k: 1, **{} }}", "foo in [Integer => {}, *]",
         "foo.bar, {} = 1, 2", "for qq, {} in foo do 1 end", "begin\n  zap\nrescue Foo, Bar => {}\n  1\nend", "*{}, qq = foo", "foo[0], {} = 1, 2", "until ({} = bar) do 1 end", "foo({} = 1)", "foo && ({} = 1)", "(1; {} = 2)", "while ({} = bar) do 1 end", "(qq, {}), rr = [1, 2], 3"]
W_OLD = W_NEW + ["{} += 1", "{} &&= 2", "{} <<= 1"]
R_VAR = ["{}", "{}.to_s", "p({})", "\"#{{{}}}\"", "[{}]", "{{ a: {} }}", "{} + 1", "foo.bar({})", "if {} then 1 end", "{}[0]", "foo(a: {})", "1 if {}", "class << {}\n  1\nend", "def {}.zz\n  1\nend",
         "class Kz < {}\n  1\nend", "return {}", "foo(*{})", "foo(&{})", "<<~T\n  #{{{}}}\nT", "->(zz = {}) {{ zz }}", "def zz\n  1\nend if {}",
         "->(zz: {}) {{ zz }}", "foo {{ |zz, yy = {}| zz }}", "case foo\nin ^{} then 1\nend", "case foo\nwhen {} then 1\nend", "case {}\nwhen 1 then 1\nend", "begin\n  1\nensure\n  {}\nend", "begin\n  1\nrescue {}\n  1\nend",
         "while {} do break end", "defined?({})", "foo[{}] = 1", "{}.bar = 1", "{}.bar += 1", "{}[0] ||= 1", "/#{{{}}}/", "`#{{{}}}`", ":\"#{{{}}}\"", "{}&.foo", "!{}", "-> {{ {} }}", "{}..1", "foo ? {} : 1", "unless {} then 1 end",
         "{} and 1", "[*{}]", "{{ **{} }}", "foo(**{})", "foo {}", "{}.each {{ 1 }}", "not {}", "foo({}) {{ |zz| zz }}", "foo rescue {}", "%W[a #{{{}}}]", "foo.bar.({})", "@iv = {}", "@iv ||= {}", "CC = {}", "$gg = {}", "qq = {}", "qq += {}", "rr, ss = {}, 1",
         "1.then {{ [{}] }}", "[1, {}, 2].sum", "{{ {} => 1 }}", "while true do foo({}) end", "{}::Foo", "if foo then 1 elsif {} then 2 else 3 end", "case foo\nin Integer if {} then 1\nend", "case foo\nin {{ k: ^{} }} then 1\nend", "break {} while foo"]
R_CALL = ["{}", "p({})", "[{}]", "\"#{{{}}}\""]
DEF = ["def m{k}({x})", "def m{k}({x} = 1)", "def m{k}(*{x})", "def m{k}(&{x})", "def m{k}(**{x})", "def self.m{k}({x})", "def m{k}(aa, {x}, bb = 2)", "def m{k}((aa, {x}))", "def m{k}({x}:)", "def m{k}({x}: 1)"]
DEF0 = ["def m{k}", "def m{k}()", "def self.m{k}", "def m{k}(aa)"]
BLK = [("[1].each do |{x}|", "end"), ("[1].map {{ |{x}|", "}}"), ("lambda do |{x}|", "end"), ("->({x}) {{", "}}"), ("proc {{ |aa, {x}|", "}}"), ("foo.bar(1) do |{x} = 1|", "end"),
       ("foo do |*{x}|", "end"), ("foo do |(aa, {x})|", "end"), ("foo do |aa; {x}|", "end"), ("foo do |&{x}|", "end"), ("foo do |{x}:|", "end"), ("foo do |aa, {x}: 2|", "end"), ("->(aa, *{x}) do", "end")]
BLK0 = [("loop do", "end"), ("[1].each {{", "}}"), ("-> {{", "}}"), ("foo do |aa|", "end")]


# Spellings of the names x and y; each may be a part of the other.
SPELLINGS = [("x", "y"), ("item", "items"), ("items", "item"), ("value", "_value"), ("été", "ét"), ("_", "__"), ("x1", "x"), ("日本", "日"),
             ("\U0001d499", "\U0001d499\U0001d499"), ("fooBar", "foo_bar"), ("klass", "self_"), ("nil_", "x")]
CLASS = ["class K{k}", "class K{k}", "module K{k}", "class << self", "class K{k} < Struct.new(:a)", "class Foo::K{k}", "class << foo"]


def units(n):
    return sum(2 if ord(c) > 0xFFFF else 1 for c in n)


def render(a, rng, plain=False, spell=("x", "y")):
    F = Files()
    word = dict(zip(("x", "y"), spell), **{"-": "-"})
    occ, ends, k = [], [], 0
    vis = a["bind"]

    def put(form, name):
        """Writes one statement, returns the position of the name in it."""
        ind = "  " * len(ends)
        if not plain and rng.random() < .15:
            ind += rng.choice(NOISE)
        pre, post = form.split("\0")
        F.w(FILE, ind + pre.split("\n")[0] + "".join("\n" + "  " * len(ends) + x for x in pre.split("\n")[1:]))
        ind = "  " * len(ends)
        p = F.tok(FILE, name)
        F.w(FILE, post.replace("\n", "\n" + ind) + "\n")
        return p

    def pick(forms):
        return forms[0] if plain else rng.choice(forms)
    for e in a["prog"]:
        n = word[e["n"]]
        if e["e"] == "w":
            old = vis[len(occ)] != len(occ) + 1
            occ.append(put(pick(W_OLD if old else W_NEW).format("\0"), n))
        elif e["e"] == "r":
            var = vis[len(occ)] != 0
            occ.append(put(pick(R_VAR if var else R_CALL).format("\0"), n))
        elif e["e"] == "end":
            x = ends.pop()
            F.w(FILE, "  " * len(ends) + x + "\n")
        elif e["e"] == "class":
            k += 1
            F.w(FILE, "  " * len(ends) + pick(CLASS).format(k=k) + "\n")
            ends.append("end")
        else:
            k += 1
            if e["e"] == "def":
                h, t = pick(DEF if n != "-" else DEF0), "end"
            else:
                h, t = pick(BLK if n != "-" else BLK0)
                t = t.format()
            if n == "-":
                F.w(FILE, "  " * len(ends) + h.format(k=k) + "\n")
            else:
                occ.append(put(h.format(k=k, x="\0"), n))
            ends.append(t)
    return F.t[FILE], occ


def case(a, rng, plain=False):
    spell = SPELLINGS[0] if plain or rng.random() < .4 else rng.choice(SPELLINGS)
    s, occ = render(a, rng, plain, spell)
    lens = [units(dict(zip(("x", "y"), spell))[e["n"]]) for e in a["prog"] if e["e"] in "wr" or e["n"] != "-"]
    if not plain and rng.random() < .1:
        s = s.replace("\n", "\r\n")
    st = [{"op": "open", "f": FILE, "t": s}]
    want = []
    for i, p in enumerate(occ):
        b = a["bind"][i]
        same = [list(occ[j]) for j in range(len(occ)) if a["bind"][j] == b] if b else []
        all_ = [list(o) for j, o in enumerate(occ) if a["bind"][j]]
        d = list(occ[b - 1]) if b else None
        w = {"at": list(p), "same": sorted(same), "vars": all_, "decl": d, "is": b, "self": i + 1, "len": lens[i]}
        p = (p[0], p[1], p[2] + (0 if rng.random() < .6 else rng.randrange(lens[i])))
        for kind, q in (("definition", definition(p)), ("references", references(p)), ("highlight", highlight(p)), ("rename", rename(p, "renamed"))):
            st.append(q)
            want.append(dict(w, k=kind))
    return {"roots": ["app/"], "files": {FILE: s}, "steps": st, "want": want}


def judge(case, answers):
    for w, a in zip(case["want"], answers):
        k = w["k"]
        if k == "rename":
            got = [(f, s, e) for f, s, e, n in edits(a)]
            if any(n != "renamed" for f, s, e, n in edits(a)):
                return {"what": "rename to something else", "at": w["at"], "got": edits(a)}
        elif k == "highlight":
            got = [(FILE, (x["range"]["start"]["line"], x["range"]["start"]["character"]), (x["range"]["end"]["line"], x["range"]["end"]["character"])) for x in (a or [])]
        else:
            got = locs(a)
        full = sorted(got)
        got = sorted([f, s[0], s[1]] for f, s, e in got)
        if w["is"] == 0:
            # a method call: no occurrence of a variable has to do with it
            bad = [g for g in got if g in w["vars"]]
            exp = "no variable"
        elif k == "definition":
            exp = [w["decl"]]
            bad = got != exp
        else:
            exp = w["same"]
            bad = got != exp or any(e != (s[0], s[1] + w["len"]) for f, s, e in full)
        if bad:
            return {"what": k, "at": w["at"], "expected": exp, "got": full, "text": case["files"][FILE]}
    return None
