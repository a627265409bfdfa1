"""Reference recogniser of the supported schema language.

Decides, from the token sequence alone and independently of the program,
whether a schema is of the language (grammar, resolution of names, values and
defaults).  Where the language definition leaves it open the answer is None.

Grammar (FlatBuffers, as far as butte supports it):
  schema   = include* ( namespace | table | enum | union | root | service )*
  include  = "include" string ";"
  namespace= "namespace" ident ( "." ident )* ";"
  table    = "table" ident [meta] "{" ( ident ":" type [ "=" value ] [meta] ";" )* "}"
  enum     = "enum" ident ":" type [meta] "{" variant ( "," variant )* [","] "}"
  union    = "union" ident [meta] "{" member ( "," member )* [","] "}"
  root     = "root_type" path ";"
  service  = "rpc_service" ident "{" ( ident "(" path ")" ":" path [meta] ";" )+ "}"
  meta     = "(" [ ident [ ":" value ] ( "," ident [ ":" value ] )* ] ")"
Structs, file_extension, file_identifier, attributes and objects are not supported."""
import re
import schemas, families as F

class Reject(Exception): pass
class Open(Exception): pass

RESERVED = set(F.SCALARS) | {"string", "true", "false", "nan", "inf", "infinity", "table", "struct", "enum", "union", "namespace", "include", "root_type", "rpc_service", "attribute", "file_extension", "file_identifier"}
DECLS = {"table", "enum", "union", "namespace", "root_type", "rpc_service"}

class P:
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def next(self):
        x = self.peek()
        if x[0] is None: raise Reject("end")
        self.i += 1; return x
    def isp(self, ch): return self.peek() == ("p", ch)
    def expect(self, ch):
        if self.next() != ("p", ch): raise Reject(ch)
    def opt(self, ch):
        if self.isp(ch): self.i += 1; return True
        return False
    def docs(self):
        n = 0
        while self.peek()[0] == "doc": self.i += 1; n += 1
        return n
    def ident(self):
        k, s = self.next()
        if k == "abs": return s[1:-1]
        if k == "word":
            if s in RESERVED: raise Open("reserved word as a name")
            return s
        raise Reject("identifier")
    def path(self):
        r = [self.ident()]
        while self.opt("."): r.append(self.ident())
        return tuple(r)
    def type(self):
        if self.opt("["):
            x = self.type(); self.expect("]"); return ("vec", x)
        k, s = self.peek()
        if k == "word" and (s in F.SCALARS or s == "string"):
            if self.peek(1) == ("p", "."): raise Open("path that begins like a type")
            self.i += 1; return ("base", s)
        return ("ref", self.path())
    def value(self):
        k, s = self.next()
        if k == "num": return num(s)
        if k == "sgn": return ("float", s)
        if k == "str": return ("str", s)
        if k == "word" and s in ("true", "false"): return ("bool", s)
        if k == "word" and s in ("nan", "inf", "infinity"): return ("float", s)
        if k == "abs": return ("id", s[1:-1])
        if k == "word":
            if s in RESERVED: raise Open("reserved word as a value")
            return ("id", s)
        raise Reject("value")
    def meta(self):
        if not self.opt("("): return {}
        m = {}
        if self.opt(")"): return m
        while True:
            k = self.ident(); v = None
            if self.opt(":"):
                v = self.value()
                if v[0] == "id": raise Open("identifier as metadata value")
            if k in m: raise Open("repeated metadata")
            m[k] = v
            if self.opt(","): continue
            self.expect(")"); return m

def num(s):
    t = s.lstrip("+-")
    if re.fullmatch(r"\d+", t): return ("int", int(s))
    if re.fullmatch(r"0[xX][0-9a-fA-F]+", t): return ("int", int(s, 16))
    if re.fullmatch(r"(\d+\.\d*|\.\d+|\d+)([eE][+-]?\d+)?", t): return ("float", s)
    if re.fullmatch(r"0[xX](([0-9a-fA-F]+\.[0-9a-fA-F]*|\.[0-9a-fA-F]+)([pP][+-]?\d+)?|[0-9a-fA-F]+[pP][+-]?\d+)", t): return ("float", s)
    raise Open("number " + s)

def parse(toks):
    p = P(toks); decls = []; ns = ()
    while p.peek() == ("word", "include"):
        p.next()
        if p.next()[0] != "str": raise Reject("include")
        p.expect(";")
    while p.peek()[0] is not None:
        d = p.docs()
        k, s = p.next() if p.peek()[0] else (None, None)
        if k is None: raise Open("documentation of nothing")
        if k == "doc": raise Open("documentation")
        if k != "word" or s not in DECLS:
            if d: pass
            raise Reject("declaration")
        if s == "namespace":
            ns = p.path(); p.expect(";")
        elif s == "table":
            n = p.ident(); p.meta(); p.expect("{"); fs = []
            while True:
                d = p.docs()
                if p.isp("}"):
                    if d: raise Open("documentation of nothing")
                    p.next(); break
                f = p.ident(); p.expect(":"); t = p.type(); v = p.value() if p.opt("=") else None; m = p.meta(); p.expect(";")
                fs.append((f, t, v, m))
            decls.append(("table", ns, n, fs))
        elif s in ("enum", "union"):
            n = p.ident(); base = None
            if s == "enum":
                p.expect(":"); base = p.type()
            p.meta(); p.expect("{"); vs = []
            while True:
                d = p.docs()
                if p.isp("}"):
                    if d: raise Open("documentation of nothing")
                    if not vs: raise Reject("empty")
                    p.next(); break
                v = (p.ident(),) if s == "enum" else p.path()
                if s == "union" and p.isp(":"): raise Open("named union member")
                x = None
                if p.opt("="):
                    x = p.value()
                    if x[0] != "int": raise Reject("value of a variant")
                vs.append((v, x[1] if x else None))
                if p.opt(","): continue
                d = p.docs()
                if d: raise Open("documentation")
                p.expect("}"); break
            decls.append((s, ns, n, base, vs))
        elif s == "root_type":
            decls.append(("root", ns, p.path())); p.expect(";")
        else:
            n = p.ident(); p.expect("{"); ms = []
            while True:
                d = p.docs()
                if p.isp("}"):
                    if d: raise Open("documentation of nothing")
                    if not ms: raise Open("service without methods")
                    p.next(); break
                m = p.ident(); p.expect("("); a = p.path(); p.expect(")"); p.expect(":"); b = p.path(); mt = p.meta(); p.expect(";")
                ms.append((m, a, b, mt))
            decls.append(("rpc", ns, n, ms))
    return decls

def snake(s):
    import compmodels as cm
    return cm.heck_str("to_snake_case", s)

def check(decls):
    types = {}
    for d in decls:
        if d[0] in ("table", "enum", "union"):
            k = d[1] + (d[2],)
            if k in types: raise Reject("declared twice")
            types[k] = d
    def find(ns, path):
        r = types.get(tuple(path)) if len(path) > 1 else types.get(tuple(ns) + tuple(path))
        if len(path) > 1 and r is None and types.get(tuple(ns) + tuple(path)): raise Open("relative path")
        if r is None:
            if len(path) == 1 and ns and types.get(tuple(path)): raise Open("enclosing namespace")
            raise Reject("undefined")
        return r
    for d in decls:
        ns = d[1]
        if d[0] == "table":
            names = []
            for f, t, v, m in d[3]:
                r = None; u = t; vec = False
                while u[0] == "vec": u = u[1]; vec = True
                if u[0] == "ref": r = find(ns, u[1])
                if r and r[0] == "union":
                    if vec: raise Reject("vector of unions")
                    names.append(snake(f) + "_type")
                names.append(snake(f))
                if v is not None:
                    if t[0] == "vec" or t == ("base", "string") or (r and r[0] != "enum"): raise Reject("default")
                    if r:
                        if v[0] != "id" or v[1] not in [x[0][0] for x in r[4]]: raise Reject("default")
                    elif t[1] in F.INTS:
                        if v[0] != "int" or not F.INTS[t[1]][1] <= v[1] <= F.INTS[t[1]][2]: raise Reject("default")
                    elif t[1] in F.FLOATS:
                        if v[0] not in ("int", "float"): raise Reject("default")
                    elif t[1] == "bool" and v[0] != "bool": raise Reject("default")
                if m.get("required", 0) not in (0, None): raise Open("value of required")
                if "required" in m and v is not None: raise Open("required with a default")
            if len(set(names)) != len(names): raise Reject("field twice")
            if any(not x.strip("_") for x in names): raise Open("name")
        elif d[0] == "enum":
            b = d[3]
            if b[0] == "ref":
                find(ns, b[1]); raise Reject("base type")
            if b[0] != "base" or b[1] not in F.INTS: raise Reject("base type")
            x = -1; seen = set(); ns_ = set()
            for n, v in d[4]:
                x = x + 1 if v is None else v
                if not F.INTS[b[1]][1] <= x <= F.INTS[b[1]][2] or x in seen or n in ns_: raise Reject("value")
                seen.add(x); ns_.add(n)
        elif d[0] == "union":
            x = 0; seen = set(); nm = set()
            for n, v in d[4]:
                r = find(ns, n)
                if r[0] != "table": raise Reject("member")
                x = x + 1 if v is None else v
                if not 1 <= x <= 255 or x in seen or n in nm: raise Reject("kind")
                if n[-1] == "None": raise Reject("member named like the absent kind")
                if n[-1] in [y[-1] for y in nm]: raise Open("members of one name")
                if len(n) > 1: raise Open("qualified member")
                seen.add(x); nm.add(n)
        elif d[0] == "root":
            if find(ns, d[2])[0] != "table": raise Reject("root")
        elif d[0] == "rpc":
            for m, a, b, mt in d[3]:
                for z in (a, b):
                    if find(ns, z)[0] != "table": raise Reject("rpc")
                if "streaming" in mt:
                    s = mt["streaming"]
                    if s is None or s[0] != "str" or s[1] not in ('"server"', '"client"', '"bidi"', '"none"'): raise Reject("streaming")
                    if s[1] == '"none"': raise Open("streaming none")
            if len({m[0] for m in d[3]}) != len(d[3]): raise Open("method twice")
    rp = [(d[1], d[2]) for d in decls if d[0] == "rpc"]
    if len(set(rp)) != len(rp): raise Open("service twice")

def accepts(toks):
    """True, False or None (open)"""
    if isinstance(toks, str): toks = schemas.lex(toks)
    try:
        check(parse(toks)); return True
    except Reject: return False
    except Open: return None
