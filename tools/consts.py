"""Const.tla programs as editor sessions."""
import re
from ruby import *

# Where a reference may stand: @ is the reference, # a fresh number. None of
# them changes what encloses it, except by a class that declares nothing.
PLACES = """
v# = @
puts(@)
def m#
  @
end
def self.s#
  v# = @
end
def d#(a = @)
end
def k#(b: @)
end
def e# = @
[1].each { |q| v# = @ }
1.then do |z|
  @
end
class << self
  def t#
    v# = @
  end
end
begin
  1
rescue @ => e#
  2
end
begin
  1
rescue ArgumentError, @
  2
ensure
  3
end
begin
  1
ensure
  @
end
case 1
when @ then 2
end
case 1
when Integer, @
  2
else
  3
end
case 1
in @ then 2
end
case 1
in { k: @ }
  2
end
"a#{@}b"
:"a#{@}"
/a#{@}/
x# = <<~T
  a #{@}
T
x# = [@, 1]
x# = { k: @ }
x# = { @ => 1 }
x# = 1 if @
x# = 1 unless @
if @
  1
elsif 2
  3
end
if 1
  2
else
  @
end
while @
  break
end
until @
  break
end
for i# in [@]
end
l# = -> { @ }
l# = ->(a = @) { a }
l# = lambda { |a| @ }
l# = proc do |a|
  @
end
y# ||= @
y# += @
@@y# = @
@y# ||= @
$y# = @
@.foo
@.new(1)
@.new(1).bar { |x| x }
@.foo = 1
@.foo += 1
@&.foo
@[1]
@ == 1
1 + @
!@
not @
@ && 1
@ || 1
foo(*@)
foo(**@)
foo(k: @)
foo(&@)
foo(1, @)
foo @, 1
foo { @ }
x#, y# = @, 1
x# = @ ? 1 : 2
x# = 1 ? @ : 2
x# = @..1
x# = 1 rescue @
W# = @
W# ||= @
W#, V# = @, 1
(@)
[*@]
raise @, "a"
raise @.new
def y#
  yield @
end
def u#
  super(@)
end
def r#
  return @
end
def w#
  return 1, @ if 2
end
class S# < @
end
class S#
  include @
end
class S#
  extend @
end
class S#
  prepend @
end
module S#
  include @
end
BEGIN_# = @
private_constant @
alias_it :a, @
attr_x @, :b
x# = begin
  @
end
%w[a b].include?(@)
%W[a #{@}]
`ls #{@}`
""".strip("\n")


def places():
    out, cur = [], []
    for l in PLACES.split("\n"):
        cur.append(l)
        t = "\n".join(cur)
        if l[0] != " " and (re.search(r"^(end|T)$", l) if re.match(r"(def (?!e#)|class|module|begin|case|if |while|until|for|1\.then|l# = proc|x# = (<<|begin))", t) else True):
            out.append(t)
            cur = []
    assert not cur, cur
    return out


PLACES = places()


def place(F, f, tpl, n, indent, write_ref, noise=""):
    i = "  " * indent
    text = "\n".join(i + l for l in tpl.replace("#{", "\0").replace("@@", "\1").replace("@y", "\2y").split("\n")).replace("#", str(n)).replace("\0", "#{")
    a, b = text.split("@")
    back = lambda s: s.replace("\1", "@@").replace("\2", "@")
    F.w(f, back(a))
    if noise and "<<~" not in a and not re.search(r"(\.|<|rescue|in|when|, |include|extend|prepend|\*|&|%W.*|private_constant|alias_it|attr_x|raise|foo|k:|yield|return) *$|[`/]", a):
        F.w(f, "(" + noise)
        write_ref()
        F.w(f, ")")
    else:
        write_ref()
    F.w(f, back(b) + "\n")


def target(F, f, t, toks=None):
    """Writes a target; the positions of its names."""
    if t["abs"]:
        F.w(f, "::")
    out = []
    for j, n in enumerate(t["parts"]):
        if j:
            F.w(f, "::")
        out.append(F.tok(f, n))
    if toks is not None:
        toks += out
    return out


def render(a, rng, certain=False):
    """The program's files; where each occurrence starts and where its names are.
    certain: only references of which everything is known."""
    F = Files()
    nf = rng.choice((1, 2, 3))
    site = "app/s.rb"
    start, names, end = {}, {}, {}
    kind = {}
    occ = {(o["b"], o["k"]): tuple(o["fqn"]) for o in a["occs"]}

    def opening(f, b, k, t, ind):
        fqn = occ[(b, k)]
        F.w(f, "  " * ind + (rng.choice(NOISE) if rng.random() < .1 else ""))
        start[(b, k)] = F.at(f)
        F.w(f, kind.setdefault(fqn, rng.choice(("class ", "module "))))
        if ind == 0 and rng.random() < .1 and not t["abs"]:
            F.w(f, "::")
        names[(b, k)] = target(F, f, t)
        F.w(f, rng.choice(("\n", "\n", ";\n", " # note\n")))

    def value(f, b, t, ind):
        F.w(f, "  " * ind)
        style = rng.choice(("=", "=", "||=", "multi")) if len(t["parts"]) == 1 and not t["abs"] else rng.choice(("=", "=", "||="))
        if style == "multi":
            F.w(f, rng.choice(("q, ", "*q, ", "")))
        start[(b, 0)] = F.at(f)
        names[(b, 0)] = target(F, f, t)
        F.w(f, {"=": " = 1\n", "||=": " ||= 1\n", "multi": ", r = 1, 2\n"}[style])

    order = list(range(1, len(a["blocks"]) + 1))
    rng.shuffle(order)
    for i in order:
        b = a["blocks"][i - 1]
        f = f"app/d{rng.randrange(nf)}.rb"
        F.w(f, "# block\n" if rng.random() < .3 else "")
        for k, t in enumerate(b["open"]):
            opening(f, i, k + 1, t, k)
        if b["val"]["parts"]:
            value(f, i, b["val"], len(b["open"]))
        for k in reversed(range(len(b["open"]))):
            F.w(f, "  " * k + "end\n")
    sb = len(a["blocks"]) + 1
    F.w(site, "# frozen_string_literal: true\n")
    for k, t in enumerate(a["site"]):
        opening(site, sb, k + 1, t, k)
    refs = [r for r in a["refs"] if len(r["parts"]) < 3 or rng.random() < .3]
    rng.shuffle(refs)
    if certain:
        st = status_of(a)
        refs = [r for r in refs if all(st[(r["abs"], tuple(r["parts"][:n]))][0] != "unknown" for n in range(1, len(r["parts"]) + 1))]
    rpos = []
    for n, r in enumerate(refs):
        toks = []
        tpl = rng.choice(PLACES)
        if not a["site"] and "self" in tpl:
            tpl = "v# = @"
        place(F, site, tpl, n, len(a["site"]), lambda: target(F, site, r, toks), rng.choice(NOISE) if rng.random() < .15 else "")
        rpos.append((r, toks))
    for k in reversed(range(len(a["site"]))):
        F.w(site, "  " * k + "end\n")
    return F, site, occ, start, names, rpos


SPELLINGS = [("A", "B", "X"), ("Foo", "FooBar", "FOO"), ("FooBar", "Foo", "Bar"), ("Order", "OrderItem", "Item"), ("HTTP2", "HTTP", "MAX_1"),
             ("Éa", "Éab", "É"), ("N_", "N", "N__"), ("Z日本A", "Z日", "Z"), ("Self", "New", "Nil"), ("APIClient", "Api", "API")]


def spelled(a, rng):
    """The same program with other names."""
    m = dict(zip(("A", "B", "X"), rng.choice(SPELLINGS) if rng.random() < .6 else SPELLINGS[0]))
    def go(x):
        if isinstance(x, dict):
            return {k: [m.get(y, y) for y in v] if k in ("parts", "fqn") else go(v) for k, v in x.items()}
        return [go(y) for y in x] if isinstance(x, list) else x
    return go(a)


def status_of(a):
    return {(r["abs"], tuple(r["parts"])): (r["status"], tuple(r["fqn"])) for r in a["refs"]}


def load_steps(F, site, rng):
    """The project reaches the server one way or another."""
    if rng.random() < .1:
        F.t = {f: t.replace("\n", "\r\n") for f, t in F.t.items()}
    fs = sorted(F.t)
    mode = rng.choice(["watch", "watch", "open", "mixed"])
    steps = []
    order = list(fs)
    rng.shuffle(order)
    if mode == "watch":
        steps.append({"op": "watch", "changes": [[f, "created"] for f in order]})
        steps.append({"op": "open", "f": site, "t": F.t[site]})
    elif mode == "open":
        for f in order:
            steps.append({"op": "open", "f": f, "t": F.t[f]})
        steps.append({"op": "save", "f": order[-1]})
    else:
        for f in order:
            steps.append({"op": "watch", "changes": [[f, "created"]]})
        steps.append({"op": "open", "f": site, "t": F.t[site]})
    return steps


def resolution_case(a, rng):
    F, site, occ, start, names, rpos = render(a, rng)
    steps = load_steps(F, site, rng)
    opened = {s["f"] for s in steps if s["op"] == "open"}
    st = status_of(a)
    decl = {}
    for o, f in occ.items():
        decl.setdefault(f, []).append(list(start[o]))
    want = []

    def ask(p, label, fqn):
        steps.append(definition(p, rng.choice((0, 0, 1 if rng.random() < .5 else 0))))
        want.append({"kind": "def", "ref": label, "at": p, "starts": sorted(decl[fqn]) if fqn else []})
    unknown, none = [], []
    for r, toks in rpos:
        for j, p in enumerate(toks):
            s, fqn = st[(r["abs"], tuple(r["parts"][:j + 1]))]
            if s == "unknown":
                unknown.append(p[1])
                continue
            if s == "none":
                none.append(p[1])
            ask(p, ("::" if r["abs"] else "") + "::".join(r["parts"][:j + 1]), fqn if s == "found" else None)
    # the names in headers and assignments
    for o, toks in names.items():
        if toks[0][0] in opened:
            for j, p in enumerate(toks):
                fqn = occ[o] if j == len(toks) - 1 else occ[o][:j + 1]
                if o[1]:
                    ask(p, "header of " + "::".join(fqn), fqn)
    steps.append({"op": "save", "f": site})
    steps.append({"op": "diags"})
    want.append({"kind": "diags", "file": site, "unknown_lines": unknown, "lines": sorted(set(none))})
    return {"roots": ["app/"], "files": F.t, "steps": steps, "want": want}


def judge_resolution(case, answers):
    for w, a in zip(case["want"], answers):
        if w["kind"] == "def":
            got = [list(x) for x in starts(a)]
            if got != w["starts"]:
                return {"what": f"go to definition of {w['ref']}", "at": w["at"], "expected": w["starts"], "got": got}
        else:
            got = sorted(set(d[0] for d in diags(a, w["file"], "unresolved-constant")) - set(w["unknown_lines"]) - extra_lines(case, w["file"]))
            if got != sorted(set(w["lines"]) - set(w["unknown_lines"]) - extra_lines(case, w["file"])):
                return {"what": "unresolved constants reported", "expected_lines": w["lines"], "got_lines": got}
    return None


def extra_lines(case, f):
    """Lines with constants of Ruby itself, which these projects do not have."""
    return {i for i, l in enumerate(case["files"][f].split("\n")) if re.search(r"\b(Integer|ArgumentError)\b", l)}


def usage_case(a, rng):
    """References, highlights and rename of every constant."""
    F, site, occ, start, names, rpos = render(a, rng, True)
    st = status_of(a)
    by = {}
    span = lambda p, n: [p[0], p[1], p[2] + len(n)]
    for o, f in occ.items():
        by.setdefault(f, {"defs": [], "refs": [], "ns": o[1] > 0})
    for o, toks in names.items():
        f = occ[o]
        by[f]["defs"].append(span(toks[-1], f[-1]))
        t = a["blocks"][o[0] - 1] if o[0] <= len(a["blocks"]) else {"open": a["site"]}
        t = t["open"][o[1] - 1] if o[1] else t["val"]
        for j, p in enumerate(toks[:-1]):
            by[tuple(t["parts"][:j + 1])]["refs"].append(span(p, t["parts"][j]))
    for r, toks in rpos:
        for j, t in enumerate(toks):
            s, fqn = st[(r["abs"], tuple(r["parts"][:j + 1]))]
            if s == "found":
                by[fqn]["refs"].append(span(t, r["parts"][j]))
    steps = load_steps(F, site, rng)
    opened = {s["f"] for s in steps if s["op"] == "open"}
    steps += [{"op": "open", "f": f, "t": F.t[f]} for f in sorted(F.t) if f not in opened]
    steps.append({"op": "save", "f": site})
    want = []
    for fqn, u in sorted(by.items()):
        allu = sorted(u["defs"] + u["refs"])
        for e in rng.sample(allu, min(2, len(allu))):
            p = (e[0], e[1], e[2] - len(fqn[-1]))
            steps.append(references(p))
            want.append({"kind": "refs", "fqn": list(fqn), "at": p, "ends": sorted(u["refs"]), "decls": u["defs"]})
            steps.append(highlight(p))
            want.append({"kind": "highlight", "fqn": list(fqn), "at": p, "ends": sorted(x[1:] for x in u["refs"] if x[0] == p[0]), "decls": [x[1:] for x in u["defs"] if x[0] == p[0]]})
            steps.append(rename(p, "Zed"))
            want.append({"kind": "rename", "fqn": list(fqn), "at": p, "edits": sorted([x[0], x[1], x[2] - len(fqn[-1]), x[1], x[2], "Zed"] for x in allu)})
    return {"roots": ["app/"], "files": F.t, "steps": steps, "want": want}


def judge_usage(case, answers):
    for w, a in zip(case["want"], answers):
        if w["kind"] == "refs":
            # the declarations themselves may or may not be listed
            got = [x for x in (list(x) for x in ends(a)) if x not in w["decls"]]
            if got != w["ends"]:
                return {"what": "references of " + "::".join(w["fqn"]), "at": w["at"], "expected_ends": w["ends"], "got_ends": got}
        elif w["kind"] == "highlight":
            got = sorted([x["range"]["end"]["line"], x["range"]["end"]["character"]] for x in (a or []) if [x["range"]["end"]["line"], x["range"]["end"]["character"]] not in w["decls"])
            if got != w["ends"]:
                return {"what": "highlights of " + "::".join(w["fqn"]), "at": w["at"], "expected_ends": w["ends"], "got_ends": got}
        else:
            got = [[f, s[0], s[1], t[0], t[1], n] for f, s, t, n in edits(a)]
            if got != w["edits"]:
                return {"what": "rename of " + "::".join(w["fqn"]), "at": w["at"], "expected": w["edits"], "got": got}
    return None


def pinned_cases():
    """Known findings: programs outside what Const.tla draws (or about whose
    references it says "unknown"), with what Ruby does."""
    def case(pin, text, at, starts_, lines):
        f = "app/s.rb"
        steps = [{"op": "open", "f": f, "t": text}, {"op": "save", "f": f}, definition((f,) + at), {"op": "diags"}]
        return {"roots": ["app/"], "files": {f: text}, "steps": steps, "pinned": pin,
                "want": [{"kind": "def", "ref": pin, "at": [f, *at], "starts": sorted([f, *x] for x in starts_)},
                         {"kind": "diags", "file": f, "unknown_lines": [], "lines": lines}]}
    return [
        # module A::B opens A::B only: X is not looked up in A
        case("F26", "module A\n  X = 1\n  module B\n  end\nend\nmodule A::B\n  X\nend\n", (6, 2), [], [6]),
        # a relative path names what its first name denotes
        case("F27", "module A\n  module B\n  end\nend\nmodule C\n  class A::B::D\n  end\nend\nA::B::D\n", (8, 6), [(5, 2)], []),
        # what encloses it does not declare X, its superclass does
        case("F28", "class P\n  X = 1\nend\nclass Q < P\n  X\nend\n", (4, 2), [(1, 2)], []),
        # a constant behind another name of its namespace
        case("F29", "module A\n  X = 1\nend\nB = A\nB::X\n", (4, 3), [(1, 2)], []),
    ]
