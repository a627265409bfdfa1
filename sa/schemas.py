"""Classes of schemas the compiler is analysed on.

A schema class is a token sequence in which identifiers in back quotes stand
for *any* identifier (pairwise different, not singled out by the program), and
which is laid out with atoms for *any* white space and *any* comment text."""
import re
from comp import Atom, Text

TOK = re.compile(r"""\s*(?:(?P<doc>///[^\n]*\n)|(?P<num>[+-]?(?:0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*(?:[pP][+-]?[0-9]+)?|[0-9]+\.?[0-9]*(?:[eE][+-]?[0-9]+)?|\.[0-9]+(?:[eE][+-]?[0-9]+)?)(?![0-9A-Za-z_]))|(?P<sgn>[+-](?:nan|infinity|inf)(?![A-Za-z0-9_]))|(?P<str>"(?:[^"\\]|\\.)*")|(?P<abs>`\w+`)|(?P<word>[A-Za-z_]\w*)|(?P<junk>%%)|(?P<p>.))""", re.S)

class Ids:
    def __init__(self): self.d = {}; self.n = 0
    def fresh(self): self.n += 1; return self.n
    def ident(self, name):
        if name not in self.d:
            i = self.fresh()
            t = [Atom("H", i, name[0])] + ([Atom("T", i, name[1:])])
            self.d[name] = t
        return self.d[name]

def lex(src):
    out = []
    src = src.rstrip()
    i = 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m or m.end() == i: raise ValueError("cannot lex %r" % src[i:i + 30])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

HOSTILE = " true false nan inf infinity table enum { } ; = \" ' `int` (required) :: * / /* */ \u00e9 \u4e2d"

def layout(toks, how, ids):
    """pieces of the text of the tokens"""
    out = []
    def sp(kind):
        if kind == "sp": out.append(Atom("Sp", ids.fresh(), " "))
        elif kind == "sp2": out.append(Atom("Sp", ids.fresh(), "\r\n\t "))
        elif kind in ("cm", "crlf"):
            out.append("//"); out.append(Atom("C", ids.fresh(), " some text")); out.append("\n" if kind == "cm" else "\r\n")
        elif kind == "cmsp":
            sp("sp"); sp("cm"); sp("sp"); sp("cm"); sp("sp")
        elif kind == "hostile":
            out.append(" //" + HOSTILE + "\n")
    if how != "tight": sp(how)
    prev = None
    for k, s in toks:
        w = k in ("num", "sgn", "abs", "word", "str")
        if prev is not None:
            if how == "tight":
                if prev and w: out.append(" ")
            else: sp(how)
        if k == "abs": out += ids.ident(s[1:-1])
        elif k == "junk": out.append(Atom("J", ids.fresh(), "%"))
        elif k == "doc":
            t = s[3:-1]
            if t.startswith("~"): out += ["///", Atom("L", "doc" + t, " any text" + t[1:]), "\n"]
            else: out.append(s)
        else: out.append(s)
        prev = w
    if how != "tight": sp(how)
    return out

def text(src, how="tight", drop_last=False):
    ids = Ids()
    toks = lex(src) if isinstance(src, str) else src
    for k, s in toks:            # identifiers are numbered independently of the layout
        if k == "abs": ids.ident(s[1:-1])
    return Text(layout(toks, how, ids))

LAYOUTS = ("tight", "sp", "sp2", "cm", "crlf", "cmsp", "hostile")
