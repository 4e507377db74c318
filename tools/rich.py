"""Editor.tla histories over richer texts, judged against a fresh server.

Editor.tla says that answers are a function of the authoritative texts. So a
server that went through a history must answer every request as a server does
that has only ever seen the final texts."""
import re
import gen
from ruby import *

# Always there, so that no ancestor ever disappears: that is the known finding
# below, and every other consequence of a history must show without it.
SKELETON = ("app/0.rb", """class Object
end
module Kernel
end
class Struct
end
class Root
end
class Base
end
module Util
  class Thing
  end
end
module Other
end
module Wrap
end
class Derived
end
class Client
end
""")

T = {
 "a": {
  1: """module Util
  LIMIT = 10
  def helper(n)
    n
  end
  def shared
    "util"
  end
end
class Base
  include Util
  attr_reader :size
  def run
    helper(LIMIT)
    step
  end
  def step
    1
  end
end
""",
  2: """# moved

module Util
  LIMIT = "ten"
  def shared
    [1]
  end
  private

  def helper(n)
    n
  end
end
class Base
  extend Util
  def step
    "text"
  end
  def run
    step
  end
  private :run
end
""",
  3: """class Root
  def shared
    :root
  end
end
class Base < Root
  def self.build
    new
  end
  def step
    nil
  end
end
module Other
  def shared
    2.5
  end
end
""",
  4: """class Base
  def run(x
    step
  end
""",
 },
 "b": {
  1: """class Derived < Base
  KIND = LIMIT
  def step
    super
    shared
  end
  def go
    run
    helper(KIND)
  end
end
""",
  2: """module Wrap
  def step
    super
  end
end
class Derived < Base
  prepend Wrap
  def go
    step
    shared
  end
  def own
    @state = 1
    @state
  end
end
""",
  3: """class Derived
  include Other
  def go
    shared
  end
  alias went go
end
class Base
  def extra
    3
  end
end
""",
  4: """# nothing is declared here
value = 1
""",
 },
 "c": {
  1: """Derived.new.go
Derived.new.step
Derived.new.shared
Derived.new.missing
Base.new.run
Base.new.extra
""",
  2: """class Client < Derived
  def call(list)
    list.each { |item| item }
    go
    own
    step
  end
end
Client.new.call([Derived.new])
Base.build
Util::LIMIT
""",
  3: """include Util
helper(1)
Derived.new.own
Derived.new.went
Root.new.shared
Wrap
Nope
""",
  4: """class Derived
  def free
    go
  end
end
$g = Derived
$g
free
""",
 },
}
FIXED = T
METHODS = ("textDocument/hover", "textDocument/signatureHelp")


def path(f):
    return f"app/{f}.rb"


def world(rng, ancestors=False):
    """Four texts for each of the three files."""
    return {f: {t: gen.text(rng, ancestors=ancestors) for t in (1, 2, 3, 4)} for f in "abc"}


def tokens(f, s):
    out = []
    for i, l in enumerate(s.split("\n")):
        for m in re.finditer(r"[$@]{0,2}[A-Za-z_]\w*", l.split("#")[0]):
            # (where a variable other than a local one is assigned is known for values of known type only)
            if m.group(0) not in ("class", "module", "def", "end", "self", "nil") and m.group(0)[0] not in "$@":
                out.append(((path(f), i, m.start()), m.group(0)))
    return out


def battery(T, auth, opened, dense=True):
    """Requests and what each is called."""
    st, what = [], []

    def q(x, label):
        st.append(x)
        what.append(label)
    for f in sorted(opened):
        s = T[f][auth[f]]
        for k, (p, name) in enumerate(tokens(f, s)):
            if re.search(r"\b(item|error|value)\.$", s.split("\n")[p[1]][:p[2]]):
                continue  # the receiver's type is inferred: known finding F24
            q(definition(p), ("definition", p))
            q(references(p), ("references", p))
            if name[0].isupper():
                if not name.isupper():
                    q(hover(p), ("hover", p))
                # answered behind the requests about its first item
                st.append(req("textDocument/prepareTypeHierarchy", pos(p)))
                st.append({"op": "then", "m": "typeHierarchy/supertypes"})
                st.append({"op": "then", "m": "typeHierarchy/subtypes"})
                what += [("supertypes", p), ("subtypes", p), ("type hierarchy", p)]
                q(implementation(p), ("implementation", p))
            elif k % 3 == 0:
                st.append(req("textDocument/prepareCallHierarchy", pos(p)))
                st.append({"op": "then", "m": "callHierarchy/incomingCalls"})
                st.append({"op": "then", "m": "callHierarchy/outgoingCalls"})
                what += [("incoming", p), ("outgoing", p), ("call hierarchy", p)]
                q(implementation(p), ("implementation", p))
                q(highlight(p), ("highlight", p))
        td = {"textDocument": {"uri": "$/" + path(f)}}
        q(outline(path(f)), ("outline", f))
        q(req("textDocument/semanticTokens/full", td), ("semantic tokens", f))
        q(req("textDocument/codeLens", td), ("code lenses", f))
        q(req("textDocument/foldingRange", td), ("folding", f))
    for n in ("Base", "step", "Util", "go", "LIMIT", "Inner"):
        q(symbols(n), ("workspace symbols", n))
    q(req("ruby/namespaceTree", {"uri": "$/app/"}), ("namespace tree", ""))
    q({"op": "diags"}, ("diagnostics", sorted(opened)))
    return st, what


def norm(a, what, opened):
    if what[0] == "diagnostics":
        a = {path(f): sorted(json_(d) for d in (a or {}).get("$/" + path(f), [])) for f in sorted(opened)}
    if what[0] in ("type hierarchy", "supertypes", "subtypes"):
        return sorted(x["name"] for x in a or [])
    if isinstance(a, list):
        return sorted(json_(x) for x in a)
    return a


def json_(x):
    import json
    return json.dumps(x, sort_keys=True)


def start(skeleton):
    """Both servers get to know the files in the same order, empty at first:
    which of several declarations counts may depend on that order only."""
    files = {path(f): "" for f in "abc"}
    files.update([skeleton] if skeleton else [])
    return files, [{"op": "watch", "changes": [[p, "created"] for p in sorted(files)]}]


def fresh_case(T, auth, opened, skeleton=SKELETON):
    files, st = start(skeleton)
    ev = []
    for f, t in sorted(auth.items()):
        st.append({"op": "write", "f": path(f), "t": T[f][t]} if t else {"op": "delete", "f": path(f)})
        ev.append([path(f), "changed" if t else "deleted"])
    st.append({"op": "watch", "changes": ev})
    for f in sorted(opened):
        st.append({"op": "open", "f": path(f), "t": T[f][auth[f]]})
    # once every file is known, one more resolution of everything
    for f in sorted(opened):
        st.append({"op": "save", "f": path(f)})
    q, what = battery(T, auth, opened)
    return {"roots": ["app/"], "files": files, "steps": st + q, "want": []}


def key(w, auth, opened):
    return json_([w, auth, sorted(opened)])


def history_case(T, w, init, steps, points, save_event, skeleton=SKELETON):
    """The history with the battery at up to `points` of its fresh states."""
    import editor
    fresh = [i for i, s in enumerate(steps) if s["x"]["fresh"] and s["x"]["open"]]
    pick = set(fresh[-1:] + fresh[:-1][:: max(1, len(fresh) // max(1, points - 1))][: points - 1]) if fresh else set()
    if not pick:
        return None
    want = []

    def observe(i, x, st):
        if i in pick:
            q, what = battery(T, x["auth"], x["open"])
            st += q
            want.append({"world": w, "auth": x["auth"], "open": sorted(x["open"]), "n": len(what), "step": i})
    c = editor.run_case(init, steps[: max(pick) + 1], lambda f, t: T[f][t], observe, save_event=save_event)
    texts = c["files"]
    c["files"], pre = start(skeleton)
    for f in "abc":
        pre.append({"op": "write", "f": path(f), "t": texts[path(f)]} if path(f) in texts else {"op": "delete", "f": path(f)})
    if c["steps"] and c["steps"][0]["op"] == "watch":
        c["steps"].pop(0)
    c["steps"] = pre + [{"op": "watch", "changes": [[path(f), "changed" if path(f) in texts else "deleted"] for f in "abc"]}] + c["steps"]
    c["want"] = want
    c["T"] = T
    return c


def judge_against(fresh):
    def judge(case, answers):
        at = 0
        for w in case["want"]:
            _, what = battery(case["T"], w["auth"], w["open"])
            ref = fresh.get(key(w["world"], w["auth"], w["open"]))
            if ref is None:
                return None  # the reference session itself failed, and is reported
            for k, lab in enumerate(what):
                a, b = norm(answers[at + k], lab, w["open"]), norm(ref[k], lab, w["open"])
                if a != b:
                    return {"what": lab, "after step": w["step"], "texts": w["auth"], "open": w["open"], "after this history": a, "a fresh server": b}
            at += w["n"]
        return None
    return judge
