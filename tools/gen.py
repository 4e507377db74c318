"""Random Ruby texts over a small vocabulary, touching every kind of fact the
server keeps: declarations, mixins, visibility, aliases, constants, variables,
generated methods, documented types, references of all kinds."""

CLASSES = ["Base", "Derived", "Client", "Root"]
MODULES = ["Util", "Other", "Wrap"]
METHODS = ["step", "go", "run", "helper", "shared", "own"]
CONSTS = ["LIMIT", "KIND", "TABLE"]


class Gen:
    def __init__(self, rng, ancestors=True):
        self.r = rng
        self.ancestors = ancestors
        self.out = []
        self.ind = 0

    def c(self, *xs):
        return self.r.choice(xs if len(xs) > 1 else xs[0])

    def w(self, s):
        for l in s.split("\n"):
            self.out.append("  " * self.ind + l if l else "")

    def block(self, head, body):
        self.w(head)
        self.ind += 1
        body()
        self.ind -= 1
        self.w("end")

    def expr(self, d=0):
        m, k, t = self.c(METHODS), self.c(CLASSES), self.c(CONSTS)
        return self.c([
            lambda: "1", lambda: '"text"', lambda: ":sym", lambda: "nil", lambda: "[1, 2]", lambda: "{ a: 1 }",
            lambda: m, lambda: f"self.{m}", lambda: f"{k}.new.{m}", lambda: f"{k}.{m}", lambda: f"{k}.new",
            lambda: t, lambda: f"{k}::{t}", lambda: f"Util::{t}", lambda: f"::{k}", lambda: "@state", lambda: "@@count", lambda: "$g",
            lambda: f"{m}({self.expr(d + 1) if d < 2 else 1})", lambda: f"{k}.new&.{m}", lambda: "missing", lambda: f"{k}.new.missing(1)",
            lambda: f"[{k}.new].each {{ |item| item.{m} }}", lambda: f"({self.expr(d + 1) if d < 2 else 2} || 3)",
            lambda: "Inner", lambda: f"::Util::Thing.new.{m}", lambda: "Nope", lambda: f"send(:{m})", lambda: f"method(:{m})", lambda: "Point", lambda: "Alias"])()

    def stmt(self):
        k, m = self.c(CLASSES), self.c(METHODS)
        e = self.expr
        x = self.r.randrange(14)
        if x < 5:
            self.w(e())
        elif x == 5:
            self.w(f"value = {self.c('1', k + '.new', '[1, 2]', 'nil')}\nvalue.{m}")
        elif x == 6:
            self.w(f"@state = {e()}")
        elif x == 7:
            self.w(f"$g = {e()}")
        elif x == 8:
            self.w(f"if {e()}\n  {e()}\nelse\n  {e()}\nend")
        elif x == 9:
            self.w(f"case {e()}\nwhen {k} then {e()}\nelse {e()}\nend")
        elif x == 10:
            self.w(f"begin\n  {e()}\nrescue {k} => error\n  error.{m}\nend")
        elif x == 11:
            self.w(f"list.each do |item|\n  item.{m}\n  {e()}\nend")
        elif x == 12:
            self.w("@@count = 1")
        else:
            self.w(f"x = {k}.new\nx.{m}")

    def method(self, receiver=""):
        n = self.c(METHODS)
        if self.r.random() < .2:
            self.w(self.c("# Does it.", f"# @return [{self.c(CLASSES + ['String', 'Integer'])}]", "# @param n [String] what", f"#: (Integer) -> {self.c(CLASSES)}"))
        args = self.c("", "", "", "(n)", "(n = 1)", "(*list)", "(k: 1)", "(k:)", "(a, b)", "(&blk)", "(list)")
        pre = self.c("", "", "", "", "", "", "private ", "protected ") if not receiver else ""

        def body():
            for _ in range(self.r.randrange(3)):
                self.stmt()
            if self.r.random() < .15 and not receiver:
                self.w("super")
            if self.r.random() < .1:
                self.w("yield 1")
        if self.r.random() < .1:
            self.w(f"{pre}def {receiver}{n}{args or '()'} = {self.expr()}")
        else:
            self.block(f"{pre}def {receiver}{n}{args}", body)

    def member(self, kind, depth):
        m, n, mod = self.c(METHODS), self.c(METHODS), self.c(MODULES)
        x = self.r.randrange(36)
        if x < 10:
            self.method()
        elif x == 10:
            self.method("self.")
        elif x == 11:
            self.block("class << self", lambda: [self.method() for _ in range(2)] and (self.w(f"private :{m}") if self.r.random() < .3 else None))
        elif x == 12:
            self.w(self.c("attr_reader", "attr_accessor", "attr_writer") + f" :{self.c('size', m)}")
        elif x in (13, 14) and (self.ancestors or kind == "class"):
            self.w(f"{self.c('include', 'include', 'prepend', 'extend')} {mod}")
        elif x == 15:
            self.w(self.c("private", "protected", "public"))
        elif x in (16, 17):
            self.w(f"{self.c('private', 'public', 'protected')} :{m}")
        elif x == 18:
            self.w(f"alias {self.c('went', 'again')} {m}")
        elif x == 19:
            self.w(f"alias_method :{self.c('went', n)}, :{m}")
        elif x in (20, 21):
            self.w(f"{self.c(CONSTS)} = {self.expr()}")
        elif x == 22:
            self.w(f"define_method(:{m}) {{ |n| n }}")
        elif x == 23 and depth < 2:
            self.block(f"class Inner{self.c('', ' < Base', ' < Root')}", lambda: [self.member("class", depth + 1) for _ in range(2)])
        elif x == 24 and depth < 2:
            self.block("module Deep", lambda: [self.member("module", depth + 1) for _ in range(2)])
        elif x == 25:
            self.w(self.c(f"private_class_method :{m}", f"private_constant :{self.c(CONSTS)}", f"module_function" if kind == "module" else f"public"))
        elif x == 26:
            self.w("Point = Struct.new(:x, :y)")
        elif x == 27:
            self.w(f"undef {m}" if self.r.random() < .3 else f"delegate :{m}, to: :size")
        elif x == 28:
            self.block("def method_missing(name, *args)", lambda: self.w("super"))
        elif x == 30:
            self.w(self.c(f"private attr_reader :{m}", f"protected attr_accessor :{m}, :{n}", f"private(def {m}\nend)" , f"private_class_method def self.{m}\nend", f"private *[:{m}]"))
        elif x == 31 and (self.ancestors or kind == "class"):
            self.w(self.c(f"include {mod}, {self.c(MODULES)}", f"extend {mod}, {self.c(MODULES)}", "extend self", f"prepend(::{mod})"))
        elif x == 32:
            t, u = self.c(CONSTS), self.c(CONSTS)
            self.w(self.c(f"{t} ||= {self.expr()}", f"{t}, {u} = 1, 2", f"Util::{t} = {self.expr()}", f"::{t} = 3", f"{t} = {u} = 1", f"Util::{t} ||= 1"))
        elif x == 33:
            self.w(self.c(f"module_function :{m}" if kind == "module" else f"public_class_method :{m}", f"class << self; attr_accessor :{m}; end", f"self.class.{m}", f"remove_method :{m}", f"public def {m} = 1", f"attr_writer :{m}"))
        elif x == 34:
            self.w(self.c(f"{m} {self.expr()}, {self.expr()}", f"{m} do |a, (b, c), *d, e: 1, &f|\n  a.{n}\nend", f"-> (a, b = {self.c(CONSTS)}) {{ a.{n} }}", f"{self.c(CLASSES)}.new.then {{ it.{m} }}", f"{self.c(CLASSES)}.new => found"))
        else:
            self.stmt()

    def top(self):
        k, mod, m = self.c(CLASSES), self.c(MODULES), self.c(METHODS)
        x = self.r.randrange(27)
        body = lambda kind: lambda: [self.member(kind, 1) for _ in range(self.r.randrange(1, 5))]
        if x < 7:
            sup = self.c("", "", " < Base" if k != "Base" else " < Root", " < Root" if k != "Root" else "") if self.ancestors else {"Derived": " < Base", "Client": " < Root"}.get(k, "") if self.r.random() < .6 else ""
            self.block(f"class {k}{sup}", body("class"))
        elif x < 11:
            self.block(f"module {mod}", body("module"))
        elif x == 11:
            self.block(f"class Util::Thing{self.c('', ' < Base')}", body("class"))
        elif x == 12:
            self.w(f"include {mod}")
        elif x == 13:
            self.block("class Object", body("class"))
        elif x == 14:
            self.block("module Kernel", body("module"))
        elif x == 15:
            self.method()
        elif x == 16:
            self.w(f"Alias = {k}")
        elif x == 17:
            self.w(f"{self.c(CONSTS)} = {self.expr()}")
        elif x == 18:
            self.w(f"Made = Class.new({k}) do\n  def {m}\n  end\nend")
        elif x == 19:
            self.w(f"def {k}.{m}\nend" if self.r.random() < .5 else f"{k}.class_eval do\n  def {m}\n  end\nend")
        elif x == 24:
            self.w(self.c(f"Util::{self.c(CONSTS)} = {self.expr()}", f"A1, {self.c(CONSTS)} = {k}, {self.expr()}", f"{self.c(CONSTS)} ||= {k}", f"::{self.c(CONSTS)} = {k}.new"))
        elif x == 25:
            self.block(self.c("module ::Util", "class ::Client", "class Util::Deep::Leaf", "module Util::Deep"), body("module"))
        elif x == 26:
            self.w(self.c(f"class << {k}\n  def {m}\n  end\nend", f"{k}.define_method(:{m}) {{ 1 }}", f"Made = Struct.new(:{m}) do\n  def {self.c(METHODS)}\n  end\nend", f"Data1 = Data.define(:{m})", f"BEGIN {{ {m} }}", f"alias $old $g"))
        else:
            self.stmt()


def text(rng, n=None, ancestors=True):
    g = Gen(rng, ancestors)
    if rng.random() < .1:
        g.w("# é😀 comment")
    for _ in range(n or rng.randrange(1, 6)):
        g.top()
    t = "\n".join(g.out) + "\n"
    if rng.random() < .06:
        t += rng.choice(["class Base\n  def run(x\n    step\n  end\n", "def go\n", "Derived.new.\n", "x = [1,\n", "\"open"])
    return t
