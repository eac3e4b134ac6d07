"""Vyper side of the binding: uniform trees -> vyper style AST JSON, and printed text -> tokens."""
import re

STR = {
    "plain": "abc", "space": "a b  c", "empty": "", "quote": "say \"hi\" it's", "backslash": "a\\b\\\\n\\x41", "newline": "l1\nl2",
    "tab": "t\tt\r", "ctrl": "\x01\x08\x0b\x0c\x1f\x7f", "hash": "# not a comment", "long": " ".join("word%d" % i for i in range(40)),
    "docq": '"""not doc"""', "latin": "caf\u00e9",
}
BYTES = {"plain": b"abc", "empty": b"", "quote": b"'\"", "binary": b"\xff\x00\xfeA\n", "space": b"a b # c", "backslash": b"a\\x41"}
DOC = {
    "one": "@notice does a thing", "two": "\n    @dev first line\n    @param x the x\n        deeper\n    ", "long": " ".join("word%d" % i for i in range(60)),
    "quotes": 'it says """hi""" \\n and ends with "', "multi": "@title T\n\n  # not a comment\n\n@author A",
}
LISTS = {"body", "orelse", "keywords", "elements", "values", "keys", "decorator_list", "defaults"}
BOOLS = {"is_public", "is_constant", "is_immutable", "is_transient"}
# optional members that vyper writes as null
NULLS = {"FunctionDef": ["returns", "doc_string"], "Module": ["doc_string"], "AnnAssign": ["value"], "VariableDecl": ["value"],
         "Return": ["value"], "Raise": ["exc"], "Assert": ["msg"], "Import": ["alias"], "ImportFrom": ["alias"], "Call": [], "StructDef": ["doc_string"]}
INTERNAL = {"content", "str", "doc", "operator"}


def pct(b):
    return "".join(chr(c) if (48 <= c < 58 or 65 <= c < 91 or 97 <= c < 123) else "%%%02X" % c for c in b)


def norm_doc(s):
    return "doc:" + " ".join(s.split())


def prepare(n):
    if not isinstance(n.get("a"), dict):
        n["a"] = {}
    if not isinstance(n.get("k"), dict):
        n["k"] = {}
    a, t = n["a"], n["t"]
    if "content" in a:
        c = a["content"]
        if t == "Str":
            a["str"] = "str:" + pct(STR[c].encode())
        elif t == "Bytes":
            a["str"] = "bytes:" + pct(BYTES[c])
        else:
            a["doc"] = norm_doc(DOC[c])
    for r in n["k"]:
        for c in n["k"][r]:
            prepare(c)
    return n


def for_spec(n):
    return {"t": n["t"], "a": n["a"], "k": {r: [for_spec(c) for c in n["k"][r]] for r in n["k"]}}


class Json:
    def __init__(self):
        self.next = 0

    def base(self, t):
        o = {"ast_type": t, "node_id": self.next, "lineno": 1, "col_offset": 0, "src": "%d:1:0" % self.next}
        self.next += 1
        return o

    def conv(self, n):
        t, a, k = n["t"], n["a"], n["k"]
        o = self.base(t)
        for x in NULLS.get(t, []):
            o[x] = None
        for x, v in a.items():
            if x not in INTERNAL:
                o[x] = (v == "true") if x in BOOLS else v
        if "content" in a:
            if t == "Str":
                o["value"] = STR[a["content"]]
            elif t == "Bytes":
                o["value"] = "0x" + BYTES[a["content"]].hex()
            else:
                d = self.base("DocStr")
                d["value"] = DOC[a["content"]]
                o["doc_string"] = d
        if t == "Int":
            o["value"] = int(a["value"])
        elif t == "NameConstant":
            o["value"] = {"True": True, "False": False, "None": None}[a["value"]]
        elif t == "Import":
            o["name"] = ".".join(c["a"]["v"] for c in k["nm"])
            o["alias"] = a["alias"] or None
            return o
        elif t == "ImportFrom":
            o["module"] = ".".join(c["a"]["v"] for c in k["mod"]) or None
            o["alias"] = a["alias"] or None
            o["level"] = int(a["level"])
            return o
        elif t == "AnnAssign":
            o["simple"] = 1
        if "operator" in a:
            o["op"] = self.base(a["operator"])
        for r in k:
            kids = [self.conv(c) for c in k[r]]
            o[r] = kids if r in LISTS and (t, r) not in (("IfExp", "body"), ("IfExp", "orelse")) or (r == "args" and t != "FunctionDef") else kids[0]
        return o


def to_json(tree):
    return {"contract_name": "c.vy", "ast": Json().conv(tree)}


# ---------------------------------------------------------------------------------------------
TOK = re.compile(r"""
  (?P<ws>[ \t\r\f]+)
 |(?P<nl>\n)
 |(?P<doc>\"\"\"(?:[^\\]|\\.)*?\"\"\")
 |(?P<comment>\#[^\n]*)
 |(?P<bytes>b'(?:\\x[0-9a-fA-F]{2})*'|b"(?:[^"\\\n]|\\.)*")
 |(?P<str>"(?:[^"\\\n]|\\.)*")
 |(?P<num>0[xX][0-9a-fA-F]+|\d+\.\d+|\d+)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<op>\*\*=|//=|<<=|>>=|->|\*\*|//|<<|>>|==|!=|<=|>=|\+=|-=|\*=|/=|%=|\|=|&=|\^=|[-+*/%&|^~<>=:,.(){}\[\]@'])
 |(?P<bad>.)
""", re.X | re.S)
SIMPLE = {"\\": b"\\", "'": b"'", '"': b'"', "n": b"\n", "r": b"\r", "t": b"\t", "a": b"\a", "b": b"\b", "f": b"\f", "v": b"\v", "\n": b""}


def unescape(body, raw_ok):
    out = bytearray()
    i = 0
    while i < len(body):
        c = body[i]
        if c != "\\":
            if not raw_ok and ord(c) < 32 or ord(c) == 127 and not raw_ok:
                return None
            out += c.encode()
            i += 1
            continue
        e = body[i + 1]
        if e in SIMPLE:
            out += SIMPLE[e]
        elif e == "x" and re.fullmatch(r"[0-9a-fA-F]{2}", body[i + 2:i + 4]):
            v = int(body[i + 2:i + 4], 16)
            out += chr(v).encode() if not raw_ok or v < 128 else bytes([v])
            i += 2
        else:
            return None
        i += 2
    return bytes(out)


def lex(text, in_comment=False):
    """-> (tokens, comments); a comment is (number of tokens before it, text)."""
    toks, comments = [], []
    stack = [0]
    depth = 0
    pos, n = 0, len(text)
    fresh = True           # at the start of a logical line
    col = 0
    pending = []           # comment lines since the last code: (column, text)

    def layout(col):
        """Emit indentation changes for code at this column, with the pending comments where their column puts them."""
        def flush():
            for _, t in pending:
                comments.append((len(toks), t))
            pending.clear()
        c = pending[0][0] if pending else None
        if col > stack[-1]:
            if c is not None and c <= stack[-1]:
                flush()
            stack.append(col)
            toks.append("<IN>")
        else:
            while col < stack[-1]:
                if c is not None and c >= stack[-1]:
                    flush()
                stack.pop()
                toks.append("<DE>")
            if col != stack[-1]:
                toks.append("<BADINDENT>")
        flush()

    while pos < n:
        if in_comment and text[pos] == "'":
            toks.append("'")
            pos += 1
            continue
        m = TOK.match(text, pos)
        kind, s = m.lastgroup, m.group(0)
        start = pos
        pos = m.end()
        if kind == "ws":
            continue
        if kind == "nl":
            if not in_comment and depth == 0 and not fresh:
                toks.append("<NL>")
                fresh = True
            continue
        if not in_comment and fresh and depth == 0:
            col = start - (text.rfind("\n", 0, start) + 1)
            if kind == "comment":
                pending.append((col, s[1:]))
                continue
            layout(col)
            fresh = False
        if kind == "comment":
            comments.append((len(toks), s[1:]))
        elif kind == "doc":
            b = unescape(s[3:-3], True)
            toks.append("bad:doc" if b is None else norm_doc(b.decode("utf-8", "replace")))
        elif kind == "str":
            b = unescape(s[1:-1], False)
            toks.append("badstr:" + pct(s.encode()) if b is None else "str:" + pct(b))
        elif kind == "bytes":
            b = unescape(s[2:-1], True)
            toks.append("bad:bytes" if b is None else "bytes:" + pct(b))
        elif kind == "bad":
            toks.append("bad:" + pct(s.encode("utf-8", "replace")))
        elif s == "@":
            toks.append("@@")
        else:
            if s in "([{":
                depth += 1
            elif s in ")]}":
                depth = max(0, depth - 1)
            toks.append(s)
    if not in_comment:
        if not fresh:
            toks.append("<NL>")
        layout(0)
    return toks, comments
