"""Solidity side of the binding: uniform trees -> solc style AST JSON, and printed text -> tokens."""
import re

# contents named by the generator, spelled out here
STR = {
    "plain": b"abc", "space": b"a b  c", "empty": b"", "quote": b'say "hi" it\'s', "backslash": b"a\\b\\\\n",
    "newline": b"l1\nl2", "tab": b"t\tt\r", "ctrl": b"\x01\x08\x0b\x0c\x1f\x7f", "latin": "caf\u00e9".encode(),
    "wide": "\u4f60\U0001F600z".encode(), "binary": b"\xff\x00\xfeA", "nul": b"\x00x1", "slashes": b"// not /* a */ comment",
    "long": b" ".join(b"word%d" % i for i in range(40)), "digits": b"\xe9" + b"1f2",
}
DOC = {
    "one": " @notice does a thing", "two": " @dev first line\n @param x the x\n second", "long": " " + " ".join("word%d" % i for i in range(60)),
    "wide": " caf\u00e9 " + " ".join("\u4f60\u597d%d" % i for i in range(50)), "asm": '@solidity memory-safe-assembly',
    "multi": " a\n\n b  c",
}

LIST_ROLES = {
    ("ParameterList", "parameters"), ("YulFunctionDefinition", "parameters"), ("YulFunctionDefinition", "returnVariables"),
    ("OverrideSpecifier", "overrides"),
}
LIST_NAMES = {"nodes", "statements", "arguments", "names", "options", "components", "declarations", "literals",
              "symbolAliases", "baseContracts", "modifiers", "members", "functionList", "clauses", "flags",
              "variables", "variableNames", "cases"}
BOOL_ATTRS = {"constant", "stateVariable", "indexed", "prefix", "isInlineArray", "virtual", "implemented", "abstract",
              "anonymous", "global", "isPure"}
INTERNAL = {"content", "str", "doc", "type", "num"}


def is_list(t, role):
    return role in LIST_NAMES or (t, role) in LIST_ROLES


def pct(b):
    return "".join(chr(c) if (48 <= c < 58 or 65 <= c < 91 or 97 <= c < 123) else "%%%02X" % c for c in b)


def norm_doc(s):
    return "doc:" + " ".join(s.split())


STR_KINDS = {"string": "str", "unicodeString": "ustr", "hexString": "hex"}


def numeral(v):
    """The decimal value of a Solidity number literal written without a decimal point, or None."""
    v = v.replace("_", "")
    if v[:2] in ("0x", "0X"):
        return str(int(v, 16))
    m = re.fullmatch(r"(\d+)(?:[eE](\d+))?", v)
    if not m:
        return None
    return str(int(m.group(1)) * 10 ** int(m.group(2) or 0))


def prepare(n):
    """Spell out named contents: returns the tree that the specification reads."""
    if not isinstance(n.get("a"), dict):
        n["a"] = {}
    if not isinstance(n.get("k"), dict):
        n["k"] = {}
    a, t = n["a"], n["t"]
    if t == "Literal" and a.get("kind") in STR_KINDS:
        b = STR[a["content"]]
        if a["kind"] == "unicodeString":
            try:
                b.decode()
            except UnicodeDecodeError:
                a["kind"] = "hexString"
        a["str"] = STR_KINDS[a["kind"]] + ":" + pct(b)
    elif t == "Literal" and a.get("kind") == "number":
        v = numeral(a["value"])
        if v is not None:
            a["num"] = v
    elif t == "YulLiteral" and a.get("kind") == "string":
        a["str"] = "str:" + pct(STR[a["content"]])
    elif t in ("StructuredDocumentation", "InlineAssembly") and "content" in a:
        a["doc"] = norm_doc(DOC[a["content"]])
    elif t == "ImportDirective":
        a["str"] = "str:" + pct(a["file"].encode())
    elif t == "InlineAssembly":
        pass
    if t == "InlineAssembly":
        for f in n["k"].get("flags", []):
            f["a"]["str"] = "str:" + pct(f["a"]["v"].encode())
    if t == "PragmaDirective":
        # the scanner's tokens: 0.8.13 is the number 0.8 followed by the number .13
        n["raw"] = [x["a"]["v"] for x in n["k"]["literals"]]
    for r in n["k"]:
        for c in n["k"][r]:
            prepare(c)
    return n


def for_spec(n):
    """Drop helper members that are not part of the uniform tree."""
    return {"t": n["t"], "a": n["a"], "k": {r: [for_spec(c) for c in n["k"][r]] for r in n["k"]}}


EXPRS = {"Literal", "FunctionCall", "Identifier", "BinaryOperation", "UnaryOperation", "Assignment", "MemberAccess",
         "IndexAccess", "IndexRangeAccess", "TupleExpression", "Conditional", "FunctionCallOptions", "NewExpression",
         "ElementaryTypeNameExpression"}
TYPES = {"ElementaryTypeName", "UserDefinedTypeName", "Mapping", "ArrayTypeName", "FunctionTypeName", "VariableDeclaration"}
# parts that compilers write as null when they are absent
NULLS = {"Return": ["expression"], "IfStatement": ["falseBody"], "ForStatement": ["initializationExpression", "condition", "loopExpression"],
         "VariableDeclaration": ["value", "overrides", "documentation"], "VariableDeclarationStatement": ["initialValue"],
         "ArrayTypeName": ["length"], "FunctionDefinition": ["body", "documentation", "overrides", "superFunction"],
         "ModifierDefinition": ["documentation", "overrides", "body"], "ContractDefinition": ["documentation"], "EventDefinition": ["documentation"],
         "ModifierInvocation": ["arguments"], "InheritanceSpecifier": ["arguments"], "UsingForDirective": ["typeName"],
         "TryCatchClause": ["parameters"], "YulVariableDeclaration": ["value"], "IndexRangeAccess": ["startExpression", "endExpression"],
         "Literal": ["subdenomination"], "SourceUnit": ["license"]}


class Json:
    """The JSON that a compiler writes for a tree, with the members that carry no program text."""

    def __init__(self, first=1):
        self.next = first
        self.n = 0

    def rnd(self, n):
        self.n += 1
        return (self.n * 2654435761 >> 13) % n

    def conv(self, n, parent=None, role=None):
        t, a, k = n["t"], n["a"], n["k"]
        if t == "null":
            return None
        if t == "#":
            return a["v"]
        o = {}
        if t != "{}":
            if not t.startswith("Yul"):
                o["id"] = self.next
                self.next += 1
            o["nodeType"] = t
            o["src"] = "%d:1:0" % self.next
        for x, v in a.items():
            if x in INTERNAL:
                continue
            o[x] = (v == "true") if x in BOOL_ATTRS else v
        ty = a.get("type")
        if ty is not None:
            o["typeDescriptions"] = {"typeIdentifier": "t_" + re.sub(r"\W", "_", ty), "typeString": ty}
        if t in ("Literal", "YulLiteral"):
            if "content" in a:
                b = STR[a["content"]]
                o["hexValue"] = b.hex()
                try:
                    o["value"] = b.decode()
                except UnicodeDecodeError:
                    o.pop("value", None)
            else:
                o["hexValue"] = a["value"].encode().hex()
        elif t == "StructuredDocumentation":
            o["text"] = DOC[a["content"]]
        elif t == "InlineAssembly":
            if "content" in a:
                o["documentation"] = DOC[a["content"]]
            o["evmVersion"] = "london"
            o["externalReferences"] = []
        elif t == "SourceUnit":
            o["absolutePath"] = "c.sol"
            o["exportedSymbols"] = {"C": [3]}
        elif t == "FunctionCall":
            o["tryCall"] = (parent == "TryStatement" and role == "externalCall")
        elif t == "ImportDirective":
            o["absolutePath"] = a["file"] if self.rnd(2) else "/root/" + a["file"]
            o.update(scope=1, sourceUnit=self.rnd(90), nameLocation="-1:-1:-1")
        elif t == "MemberAccess":
            o["memberLocation"] = "5:2:0"
            if self.rnd(2):
                o["referencedDeclaration"] = self.rnd(400)
        elif t == "BinaryOperation":
            ct = a.get("type") or "uint256"
            o["commonType"] = {"typeIdentifier": "t_" + re.sub(r"\W", "_", ct), "typeString": ct}
        elif t in ("FunctionDefinition", "ModifierDefinition", "EventDefinition", "ErrorDefinition", "StructDefinition", "EnumDefinition"):
            o["nameLocation"] = "9:3:0"
            if t == "FunctionDefinition":
                o["scope"] = 1 + self.rnd(9)
                if a.get("visibility") in ("public", "external") and self.rnd(2):
                    o["functionSelector"] = "%08x" % self.rnd(1 << 30)
                if "overrides" in k:
                    o["baseFunctions"] = [self.rnd(50)]
            elif t in ("StructDefinition", "EnumDefinition"):
                o["canonicalName"] = "C." + a["name"]
                if t == "StructDefinition":
                    o.update(scope=3, visibility="public")
        elif t == "ContractDefinition":
            o["canonicalName"] = a["name"]
            o["nameLocation"] = "4:1:0"
            o["usedErrors"] = [self.rnd(90)] if self.rnd(2) else []
            o["contractDependencies"] = []
            o["fullyImplemented"] = True
            o["linearizedBaseContracts"] = [o["id"]]
            o["scope"] = 1
        elif t == "Identifier":
            o["overloadedDeclarations"] = [-18, -18] if a.get("name") == "require" else [] if self.rnd(3) else [4, 6]
            o["referencedDeclaration"] = -18 if a.get("name") == "require" else -15 - self.rnd(30) if self.rnd(5) == 0 else 4 + self.rnd(300)
        elif t == "YulCase" and "value" not in k:
            o["value"] = "default"
        elif t == "VariableDeclaration":
            o["scope"] = 2
            o["nameLocation"] = "1:1:0"
            if a.get("stateVariable") == "true" and a.get("visibility") == "public":
                o["functionSelector"] = "%08x" % self.rnd(1 << 30)
        elif t == "UserDefinedTypeName":
            o["referencedDeclaration"] = 7
        if t == "PragmaDirective":
            o["literals"] = list(n["raw"])
            return o
        if t in EXPRS:
            c = self.rnd(2) == 0
            o.setdefault("isPure", t == "Literal" or self.rnd(3) == 0)
            o.update(isConstant=t == "Identifier" and self.rnd(4) == 0, isLValue=c and t in ("Identifier", "MemberAccess", "IndexAccess"),
                     lValueRequested=role in ("leftHandSide", "subExpression") and c)
            if role == "expression" and parent == "FunctionCall":
                o["argumentTypes"] = [{"typeIdentifier": "t_uint256", "typeString": "uint256"}] * self.rnd(3)
        if t in TYPES and "typeDescriptions" not in o:
            o["typeDescriptions"] = {"typeIdentifier": "t_" + a.get("name", "x"), "typeString": a.get("name", "x")}
        for r in NULLS.get(t, ()):
            if r not in k and r not in a and self.rnd(3) == 0:
                o[r] = None
        for r in k:
            kids = [self.conv(c, t, r) for c in k[r]]
            o[r] = kids if is_list(t, r) else kids[0]
        return o


def to_json(tree):
    return Json().conv(tree)


# ---------------------------------------------------------------------------------------------
TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<sdoc>/\*\*(?P<sdt>.*?)\*/)
 |(?P<block>/\*.*?\*/)
 |(?P<ldoc>///(?P<ldt>[^\n]*))
 |(?P<line>//(?P<lt>[^\n]*))
 |(?P<str>(?:unicode|hex)?"(?:[^"\\\n]|\\(?:.|\n))*"|(?:unicode|hex)?'(?:[^'\\\n]|\\(?:.|\n))*')
 |(?P<num>0[xX][0-9a-fA-F_]+|(?:\d[\d_]*(?:\.\d[\d_]*)?|\.\d[\d_]*)(?:[eE]-?\d+)?)
 |(?P<id>[A-Za-z_$][\w$]*)
 |(?P<op>>>>=|<<=|>>=|>>>|\*\*|\+\+|--|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\|=|&=|\^=|=>|->|:=|<<|>>|[-+*/%&|^~!<>=?:;,.(){}\[\]'])
 |(?P<bad>.)
""", re.X | re.S)


def decode_string(tok, kind):
    body = tok[tok.index(tok[-1]) + 1:-1]
    if kind == "hex":
        h = body.replace("_", "")
        if not re.fullmatch(r"(?:[0-9a-fA-F]{2})*", h):
            return None
        return bytes.fromhex(h)
    out = bytearray()
    i = 0
    while i < len(body):
        c = body[i]
        if c != "\\":
            if kind == "str" and not (32 <= ord(c) < 127):
                return None          # only printable ASCII may appear unescaped
            out += c.encode()
            i += 1
            continue
        e = body[i + 1]
        if e in "\\'\"":
            out += e.encode()
        elif e == "n":
            out += b"\n"
        elif e == "r":
            out += b"\r"
        elif e == "t":
            out += b"\t"
        elif e == "\n":
            pass
        elif e == "x":
            h = body[i + 2:i + 4]
            if not re.fullmatch(r"[0-9a-fA-F]{2}", h):
                return None
            out.append(int(h, 16))
            i += 2
        elif e == "u":
            h = body[i + 2:i + 6]
            if not re.fullmatch(r"[0-9a-fA-F]{4}", h):
                return None
            out += chr(int(h, 16)).encode("utf-8", "surrogatepass")
            i += 4
        else:
            return None              # not an escape sequence of current compilers
        i += 2
    return bytes(out)


def strtok(s, yul=False):
    kind = "ustr" if s.startswith("unicode") else "hex" if s.startswith("hex") else "str"
    b = decode_string(s, kind)
    if b is None:
        return "badstr:" + pct(s.encode())
    return kind + ":" + pct(b)


def lex(text, in_comment=False):
    """-> (tokens, comments); a comment is (number of tokens before it, text)."""
    toks, comments = [], []
    if in_comment:      # a quoted line of documentation has lost its line end
        text = re.sub(r"///\s*" + r"\s+".join(map(re.escape, DOC["asm"].split())), "/** */", text)
    last_ldoc = None
    pos = 0
    n = len(text)
    while pos < n:
        if in_comment and text[pos] == "'":
            toks.append("'")
            pos += 1
            continue
        m = TOK.match(text, pos)
        kind = m.lastgroup
        pos = m.end()
        # lastgroup is the last matched *named* group; inner groups of docs come last
        if kind == "ws":
            continue
        if kind in ("sdoc", "sdt"):
            body = "\n".join(re.sub(r"^\s*\*", "", l) for l in m.group("sdt").split("\n"))
            toks.append(norm_doc(body))
            last_ldoc = None
        elif kind == "block":
            comments.append((len(toks), m.group(0)[2:-2]))
        elif kind in ("ldoc", "ldt"):
            if last_ldoc == len(toks) and toks and toks[-1].startswith("doc:"):
                toks[-1] = norm_doc(toks[-1][4:] + " " + m.group("ldt"))
            else:
                toks.append(norm_doc(m.group("ldt")))
                last_ldoc = len(toks)
        elif kind in ("line", "lt"):
            c = m.group("lt")
            sp = re.fullmatch(r"\s*SPDX-License-Identifier:\s*(.*?)\s*", c)
            if sp:
                toks.append("spdx:" + sp.group(1))
            else:
                comments.append((len(toks), c))
        elif kind == "str":
            toks.append(strtok(m.group(0)))
        elif kind == "bad":
            toks.append("bad:" + pct(m.group(0).encode("utf-8", "replace")))
        else:
            s = m.group(0)
            if s == "pragma":
                j = text.find(";", pos)
                j = n if j < 0 else j
                toks.append("pragma")
                toks += re.findall(r"\d+(?:\.\d+)?|\.\d+|[A-Za-z_$][\w$]*|[<>]=|\|\||\S", text[pos:j])
                pos = j
                continue
            toks.append(s)
    return toks, comments
