"""Rendering of abstract programs as Ruby text with known positions, and the
reading of protocol answers back into those positions."""


# characters of one and two UTF-16 units, of two to four bytes
NOISE = ['"é😀"; ', "'𝒳日本'; ", '"ü" "😀😀"; ']


class Files:
    """Text of several files; at() gives the position the next text will have."""

    def __init__(self):
        self.t = {}

    def w(self, f, text):
        self.t[f] = self.t.get(f, "") + text

    def at(self, f):
        t = self.t.get(f, "")
        line = t.count("\n")
        col = len(t) - (t.rfind("\n") + 1)
        # columns are UTF-16 units
        tail = t[len(t) - col:] if col else ""
        return (f, line, sum(2 if ord(c) > 0xFFFF else 1 for c in tail))

    def tok(self, f, text):
        """Writes a token, returns its start."""
        p = self.at(f)
        self.w(f, text)
        return p


def pos(p, d=0):
    return {"textDocument": {"uri": "$/" + p[0]}, "position": {"line": p[1], "character": p[2] + d}}


def req(m, p):
    return {"op": "req", "m": m, "p": p}


def definition(p, d=0):
    return req("textDocument/definition", pos(p, d))


def implementation(p):
    return req("textDocument/implementation", pos(p))


def references(p, decl=True):
    q = pos(p)
    q["context"] = {"includeDeclaration": decl}
    return req("textDocument/references", q)


def rename(p, new):
    q = pos(p)
    q["newName"] = new
    return req("textDocument/rename", q)


def highlight(p):
    return req("textDocument/documentHighlight", pos(p))


def hover(p):
    return req("textDocument/hover", pos(p))


def symbols(q=""):
    return req("workspace/symbol", {"query": q})


def outline(f):
    return req("textDocument/documentSymbol", {"textDocument": {"uri": "$/" + f}})


def is_error(a):
    return isinstance(a, dict) and set(a) == {"error"}


def _rng(r):
    return (r["start"]["line"], r["start"]["character"]), (r["end"]["line"], r["end"]["character"])


def locs(a):
    """[(file, start, end)] of a definition/reference answer; no answer is []."""
    if a is None or is_error(a):
        return []
    if isinstance(a, dict):
        a = [a]
    out = []
    for x in a:
        u = x.get("uri") or x.get("targetUri")
        r = x.get("range") or x.get("targetRange")
        s, e = _rng(r)
        out.append((u[2:] if u.startswith("$/") else u, s, e))
    return out


def starts(a):
    return sorted((f,) + s for f, s, e in locs(a))


def ends(a):
    return sorted((f,) + e for f, s, e in locs(a))


def edits(a):
    """{(file, start, end): text} of a workspace edit."""
    out = []
    if a is None or is_error(a):
        return out
    for u, es in (a.get("changes") or {}).items():
        for e in es:
            s, t = _rng(e["range"])
            out.append((u[2:], s, t, e["newText"]))
    for dc in a.get("documentChanges") or []:
        for e in dc.get("edits", []):
            s, t = _rng(e["range"])
            out.append((dc["textDocument"]["uri"][2:], s, t, e["newText"]))
    return sorted(out)


def apply_edits(files, es):
    """Applies edits to {file: text} (ASCII positions)."""
    out = dict(files)
    by = {}
    for f, s, t, n in es:
        by.setdefault(f, []).append((s, t, n))
    for f, l in by.items():
        text = out[f]
        offs = [0]
        for i, c in enumerate(text):
            if c == "\n":
                offs.append(i + 1)
        for s, t, n in sorted(l, reverse=True):
            a, b = offs[s[0]] + s[1], offs[t[0]] + t[1]
            text = text[:a] + n + text[b:]
        out[f] = text
    return out


def diags(a, f, code=None):
    return sorted((d["range"]["start"]["line"], d["range"]["start"]["character"], d["range"]["end"]["line"], d["range"]["end"]["character"])
                  for d in (a or {}).get("$/" + f, []) if code is None or d.get("code") == code)
