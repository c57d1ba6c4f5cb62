"""xml.etree.ElementTree: element objects, serialisation as an opaque document."""
import xml.etree.ElementTree as real
import re
from ..core import Sym, SymInt, And, Or, Not, Unsupported, ctx
from ..seq import SymStr, SymBytes, View, Ch, Tok, TextBase, in_ranges, sx_typename, utf8_pieces, FillBase
from ..containers import SxDict
from ..rt import FmtBase, opaque_str

ParseError = real.ParseError
LEGAL = ((9, 10), (13, 13), (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF))
NAME = re.compile(r"^(\{[^}]*\})?[A-Za-z_À-ÖØ-öø-˿Ͱ-ͽͿ-῿‌-‍⁰-↏"
                  r"Ⰰ-⿯、-퟿豈-﷏ﷰ-�\U00010000-\U000EFFFF]"
                  r"[-.0-9A-Za-z_·À-ÖØ-öø-˿̀-ͯͰ-ͽͿ-῿‌-‍"
                  r"‿-⁀⁰-↏Ⰰ-⿯、-퟿豈-﷏ﷰ-�\U00010000-\U000EFFFF]*$")


def legal(s):
    """Condition: every character may occur in an XML 1.0 document."""
    ps = SymStr.of(s)
    conds = []
    for p in ps:
        if isinstance(p, str):
            for c in p:
                if not any(lo <= ord(c) <= hi for lo, hi in LEGAL):
                    return False
        elif isinstance(p, Ch):
            conds.append(in_ranges(p.code, LEGAL) if isinstance(p.code, SymInt)
                         else any(lo <= p.code <= hi for lo, hi in LEGAL))
        elif isinstance(p, View):
            if isinstance(p.base, FillBase):
                conds.append(any(lo <= ord(p.base.ch) <= hi for lo, hi in LEGAL))
    return And(*conds)


class Element:
    def __init__(self, tag, attrib=None, **extra):
        if attrib is None:
            attrib = {}
        if not isinstance(attrib, dict):
            raise TypeError("attrib must be dict, not %s" % type(attrib).__name__)
        self.tag = tag
        self.attrib = SxDict(attrib)
        for k, v in extra.items():
            self.attrib[k] = v
        self.text = None
        self.tail = None
        self._children = []

    def __len__(self): return len(self._children)
    def __bool__(self): return len(self._children) != 0
    def __getitem__(self, i): return self._children[i]
    def __iter__(self): return iter(list(self._children))
    def append(self, e):
        if not isinstance(e, Element):
            raise TypeError("expected an Element, not %s" % type(e).__name__)
        self._children.append(e)
    def extend(self, es):
        for e in es:
            self.append(e)
    def insert(self, i, e): self._children.insert(i, e)
    def remove(self, e): self._children.remove(e)
    def clear(self):
        self.attrib.clear()
        self._children = []
        self.text = self.tail = None
    def get(self, k, default=None): return self.attrib.get(k, default)
    def set(self, k, v): self.attrib[k] = v
    def keys(self): return self.attrib.keys()
    def items(self): return self.attrib.items()

    def iter(self, tag=None):
        if tag is None or tag == "*" or self.tag == tag:
            yield self
        for c in self._children:
            yield from c.iter(tag)

    def findall(self, path):
        cur = [self]
        for step in path.split("/"):
            if step == ".":
                continue
            if not (step == "*" or NAME.match(step)):
                raise Unsupported("xpath %s" % path)
            cur = [c for e in cur for c in e._children if step == "*" or c.tag == step]
        return cur

    def find(self, path):
        r = self.findall(path)
        return r[0] if r else None

    def iterfind(self, path):
        return iter(self.findall(path))


def SubElement(parent, tag, attrib=None, **extra):
    e = Element(tag, attrib, **extra)
    parent.append(e)
    return e


def check_str(v):
    if not isinstance(v, (str, SymStr)):
        raise TypeError("cannot serialize %r (type %s)" % (v, sx_typename(v)))


def check_tree(e):
    check_str(e.tag)
    for k, v in e.attrib.items():
        check_str(k)
        check_str(v)
    for t in (e.text, e.tail):
        if t is not None:
            check_str(t)
    for c in e._children:
        check_tree(c)


def clone(e, parsing=False):
    n = Element(e.tag)
    for k, v in e.attrib.items():
        if parsing:
            name_ok(k)
            if not legal(v):
                raise ParseError("not well-formed (invalid token)")
        n.attrib[k] = v
    for t in ("text", "tail"):
        s = getattr(e, t)
        if s is not None and parsing:
            if not legal(s):
                raise ParseError("not well-formed (invalid token)")
            s = newline_norm(s)
        if parsing and s == "":
            s = None
        setattr(n, t, s)
    if parsing:
        name_ok(e.tag)
    n._children = [clone(c, parsing) for c in e._children]
    return n


def newline_norm(s):
    """Character data: a literal CR is read back as LF."""
    if isinstance(s, str):
        return s.replace("\r\n", "\n").replace("\r", "\n")
    return s.replace("\r\n", "\n").replace("\r", "\n")


def name_ok(k):
    if isinstance(k, SymStr):
        if not all(isinstance(p, View) and type(p.base) is TextBase for p in k.pieces):
            raise Unsupported("symbolic XML name")
        return
    if not NAME.match(k):
        raise ParseError("not well-formed (invalid token)")


class ElementTree:
    def __init__(self, element=None, file=None):
        self._root = element

    def getroot(self): return self._root
    def iter(self, tag=None): return self._root.iter(tag)
    def find(self, path): return self._root.find(path)
    def findall(self, path): return self._root.findall(path)

    def write(self, f, encoding=None, xml_declaration=None, default_namespace=None, method=None, **k):
        if isinstance(f, str):
            raise Unsupported("ElementTree.write(path)")
        s = tostring(self._root, encoding or "us-ascii")
        f.write(s)


def tostring(element, encoding=None, method=None, **k):
    check_tree(element)
    s = opaque_str("xml", clone(element))
    if encoding == "unicode":
        return s
    return SymBytes.make(utf8_pieces(s))


def fromstring(s, parser=None):
    if isinstance(s, SymBytes):
        s = s.decode()
    if isinstance(s, SymStr):
        if len(s.pieces) == 1 and isinstance(s.pieces[0], View) and isinstance(s.pieces[0].base, FmtBase) \
                and s.pieces[0].base.kind == "xml" and s.pieces[0].full():
            return clone(s.pieces[0].base.payload, True)
        raise Unsupported("parsing symbolic XML")
    return conv(real.fromstring(s))


def conv(e):
    n = Element(e.tag, dict(e.attrib))
    n.text, n.tail = e.text, e.tail
    n._children = [conv(c) for c in e]
    return n


def install(world, out, resets, module):
    et = module("xml.etree.ElementTree", Element=Element, SubElement=SubElement, ElementTree=ElementTree,
                tostring=tostring, fromstring=fromstring, XML=fromstring, ParseError=ParseError,
                iselement=lambda e: isinstance(e, Element), register_namespace=lambda *a: None)
    out["xml.etree.ElementTree"] = et
    out["xml.etree"] = module("xml.etree", ElementTree=et)
    out["xml"] = module("xml", etree=out["xml.etree"])
