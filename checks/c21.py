"""C21: Table rendering never fails, respects its limits and escapes HTML."""
from lib import attempt

BOUNDS = {"quick": "cut texts of 0..2000 characters under any column width 7..400 and display width 10..400 or none; tables of up to "
                   "3 rows and 3 columns with cells of 1..60 characters under any display width; tables of 0..7 rows under any "
                   "row limit, and of 150 under 8 limits; tables of 0..6 columns; cells, row names, captions and links of three arbitrary characters in HTML; "
                   "any integer given to a limit setting; layers, lists and query results of 2 nodes with any of 3 fields set, cell by cell; nodes, layers, node lists, node spans, fields, queries and documents "
                   "under the default, smallest and no limits",
          "thorough": "tables of up to 4 columns with any cell lengths, up to 12 rows, four arbitrary characters"}
OUTSIDE = ("cells and captions with line breaks in text mode; rows with another number of cells than the header, tables without a "
           "header; the HTML that a TableCell is given is taken as it is; wide characters")
ASSUMPTIONS = ["The continuation mark and the caption do not count as part of the width of a line; max_columns is stored but does "
               "not limit what is shown."]


def RESET(H):
    o = H.load("docria.printout").options
    o.max_rows, o.max_columns, o.max_column_width, o.max_display_width = 100, 8, 30, 120


def limit(cw, dw):
    """characters a cell may take"""
    return None if cw is None else cw if dw is None else (cw if cw < dw else dw)


def setting(H, o, name, default, lo, hi):
    """leaves the default, removes the limit or sets any value"""
    k = H.choose(name + "?", ["default", "none", "any"])
    if k == "default":
        return default
    v = None if k == "none" else H.int(name, lo, hi)
    setattr(o, name, v)
    return v


# ---------------------------------------------------------------------------------------- settings
MINIMUM = {"max_rows": 1, "max_columns": 1, "max_column_width": 7, "max_display_width": 10}
DEFAULT = {"max_rows": 100, "max_columns": 8, "max_column_width": 30, "max_display_width": 120}


def settings(H, name):
    p = H.load("docria.printout")
    o = p.options if H.choose("global", [False, True]) else p.PrintOptions()
    want = dict(DEFAULT)
    check(H, o, want)
    for i in range(3):
        v = H.int("v%d" % i, -10 ** 6, 10 ** 6) if H.choose("n%d" % i, [True, False]) else None
        ok, e = attempt(lambda: setattr(o, name, v))
        if v is None:
            H.check(ok, "no limit is refused")
            want[name] = None
        else:
            H.check(ok == bool(v >= MINIMUM[name]), "a limit is wrongly accepted or refused")
            if ok:
                want[name] = v
            else:
                H.check(isinstance(e, ValueError), "a limit is refused with %s" % type(e).__name__)
        check(H, o, want)


def check(H, o, want):
    for k, v in want.items():
        x = getattr(o, k)
        H.check((x is None) == (v is None), "a limit does not read back as set")
        if v is not None:
            H.check(x == v, "a limit does not read back as set")


def screen(H):
    p = H.load("docria.printout")
    p.set_large_screen()
    check(H, p.options, dict(DEFAULT, max_column_width=200, max_display_width=200))
    H.check(p.truncate("x" * 200) == "x" * 200, "large screen")


# ---------------------------------------------------------------------------------------- cells
def cut(H, hi):
    """the text of a cell in a table of one cell"""
    p = H.load("docria.printout")
    cw = setting(H, p.options, "max_column_width", 30, 7, 400)
    dw = setting(H, p.options, "max_display_width", 120, 10, 400)
    t = H.text("t", 0, hi)
    n = H.length(t)
    lim = limit(cw, dw)
    s = p.truncate(t)
    shown(H, s, t, n, lim)
    H.observe("length", H.length(s))


def shown(H, s, t, n, lim):
    if lim is None or n <= lim:
        H.check(s == t, "a text that is short enough is not shown whole")
        return
    H.check(H.length(s) <= lim, "a cell is wider than allowed")
    parts = s.split(" ... ")
    H.check(len(parts) == 2, "a text that is too long has no ellipsis")
    a, b = H.length(parts[0]), H.length(parts[1])
    H.check(H.And(a >= 1, b >= 1), "the beginning or end of a text is not shown")
    H.check(parts[0] == t[:a], "the beginning of a text")
    H.check(parts[1] == t[n - b:], "the end of a text")


def cells(H, parts, t, n, lim):
    """the words of a line that one cell gives, taken from the front of parts"""
    if lim is None or n <= lim:
        H.check(len(parts) >= 1, "a cell is missing")
        H.check(parts[0] == t, "a text that is short enough is not shown whole")
        return parts[1:], n
    H.check(len(parts) >= 3 and parts[1] == "...", "a text that is too long has no ellipsis")
    a, b = H.length(parts[0]), H.length(parts[2])
    H.check(H.And(a >= 1, b >= 1), "the beginning or end of a text is not shown")
    H.check(parts[0] == t[:a], "the beginning of a text")
    H.check(parts[2] == t[n - b:], "the end of a text")
    H.check(a + b + 5 <= lim, "a cell is wider than allowed")
    return parts[3:], a + b + 5


# ---------------------------------------------------------------------------------------- text tables
class T:
    """A table and what it should show. cells[0] is the header; texts have no spaces and are not empty."""

    def __init__(self, H, cells, caption, names, padding, hide_index, hide_header):
        self.H = H
        self.p = p = H.load("docria.printout")
        self.cells, self.caption, self.padding = cells, caption, padding
        self.hide_index, self.hide_header = hide_index, hide_header
        k = {}
        if padding != 2:
            k["style"] = p.TableStyle(padding=padding)
        self.table = p.Table(caption, hide_index=hide_index, hide_headers=hide_header, **k)
        self.table.set_header(*cells[0])
        self.names = []
        for i, row in enumerate(cells[1:]):
            if names == "some" and i % 2 == 1 or names == "all":
                self.names.append("n%d" % (i + 70))
                self.table.add_body(p.TableRow(*row, index="n%d" % (i + 70)))
            else:
                self.names.append("%d" % i)
                self.table.add_body(*row) if i % 3 else self.table.add_body(p.TableRow(*row))

    def rows(self):
        """indices of the rows to show, None for the elision"""
        n, m = len(self.cells) - 1, self.p.options.max_rows
        if m is None or n <= m:
            return list(range(n)), None
        return None, self.H.concrete(m)

    def text(self):
        H, o = self.H, self.p.options
        lim = limit(o.max_column_width, o.max_display_width)
        s = self.table.render_text()
        H.check(isinstance(s, str), "the text is not a string")
        lines = [l for l in s.split("\n") if l.strip() != ""]
        ncol = len(self.cells[0])
        if ncol == 0:
            return
        if self.caption is not None and len(self.caption) > 0:
            self.captioned(lines.pop(0), lim)
        whole, m = self.rows()
        count = len(whole) if m is None else m + 1
        per = count + (0 if self.hide_header else 1)
        if per == 0:
            H.check(len(lines) == 0, "lines that belong to nothing")
            return
        H.check(len(lines) > 0 and len(lines) % per == 0, "number of lines")
        chunks = [lines[i:i + per] for i in range(0, len(lines), per)]
        lens = [[H.length(t) for t in row] for row in self.cells]
        order = self.order(chunks[0], count)
        start = 0
        widths = None
        for ci, chunk in enumerate(chunks):
            last = ci == len(chunks) - 1
            end, ws = self.chunk(chunk, order, start, lim, lens, last)
            dw = o.max_display_width
            total = ws[0]
            for w in ws[1:]:
                total = total + w
            if dw is None:
                H.check(last, "columns are wrapped although there is no limit")
            else:
                H.check(H.Or(total <= dw, end - start == 1), "a line is wider than the display limit")
                if ci > 0:
                    # the first column of this line did not fit on the line above
                    H.check(widths + ws[1] > dw, "columns are wrapped too early")
            widths = total
            start = end
        H.check(start == ncol, "a column is missing")

    def captioned(self, line, lim):
        t = self.caption
        rest, _ = cells(self.H, line.split(), t, self.H.length(t), lim)
        self.H.check(len(rest) == 0, "the caption line has something else")

    def order(self, chunk, count):
        """what the lines of a chunk show: row numbers (0 is the header), None for the elision"""
        H = self.H
        out = [] if self.hide_header else [0]
        whole, m = self.rows()
        if m is None:
            return out + [i + 1 for i in whole]
        body = chunk[len(out):]
        at = [i for i, l in enumerate(body) if l.strip() == "..."]
        H.check(len(at) == 1, "not exactly one elision mark")
        up, n = at[0], len(self.cells) - 1
        low = m - up
        H.check(up >= 1 and low >= 0 and (low >= 1 or m == 1), "the first or last rows are not shown")
        return out + [i + 1 for i in range(up)] + [None] + [n - low + i + 1 for i in range(low)]

    def chunk(self, lines, order, start, lim, lens, last):
        """the end of the columns shown on these lines, and the widths of index and columns"""
        H = self.H
        ncol = len(self.cells[0])
        parts = []
        for l, r in zip(lines, order):
            if r is None:
                H.check(l.strip() == "...", "elision mark")
                parts.append(None)
                continue
            ws = l.split()
            if r == 0:
                H.check((len(ws) > 0 and ws[-1] == "\\") == (not last), "continuation mark")
                if not last:
                    ws = ws[:-1]
            if not self.hide_index:
                name = "#" if r == 0 else self.names[r - 1]
                H.check(len(ws) > 0 and ws[0] == name, "name of a row")
                ws = ws[1:]
            parts.append(ws)
        width = [0]
        if not self.hide_index:
            width = [max(len("#" if r == 0 else self.names[r - 1]) for r in order if r is not None) + 2 * self.padding]
        c = start
        while c < ncol and any(p for p in parts if p is not None):
            w = 0
            for j, r in enumerate(order):
                if r is not None:
                    parts[j], n = cells(H, parts[j], self.cells[r][c], lens[r][c], lim)
                    w = H.Ite(n > w, n, w)
            width.append(w + 2 * self.padding)
            c += 1
        H.check(all(not p for p in parts), "a line shows something else")
        H.check(c > start, "an empty line")
        return c, width


def widths(H, rows, cols, hide_index, hide_header, hi, dlo=10):
    """the lengths of cells and the display width decide where lines are wrapped"""
    p = H.load("docria.printout")
    cells = [[H.text("c%d_%d" % (r, c), 1, hi) for c in range(cols)] for r in range(rows + 1)]
    setting(H, p.options, "max_display_width", 120, dlo, 200)
    if H.choose("cut", [False, True]):
        p.options.max_column_width = None
    t = T(H, cells, None, "none", 2, hide_index, hide_header)
    t.text()
    H.observe("length", H.length(t.table.render_text()))


def rows(H, n):
    """how many rows are shown, and which"""
    p = H.load("docria.printout")
    if n > 20:
        p.options.max_rows = H.choose("max_rows", [100, None, 1, 2, 99, n - 1, n, n + 1])
    else:
        setting(H, p.options, "max_rows", 100, 1, n + 3)
    hide_index = H.choose("hide_index", [False, True])
    hide_header = H.choose("hide_header", [False, True])
    names = H.choose("names", ["none", "some", "all"])
    cells = [["a", "b"]] + [["r%d" % i, "s%d" % i] for i in range(n)]
    if H.choose("caption", [False, True]):
        t = T(H, cells, "caption", names, 2, hide_index, hide_header)
    else:
        t = T(H, cells, None, names, 2, hide_index, hide_header)
    if H.choose("narrow", [False, True]):
        p.options.max_display_width = 10
    t.text()
    html(H, t)


def columns(H, n):
    """how many columns, and how wide"""
    p = H.load("docria.printout")
    setting(H, p.options, "max_display_width", 120, 10, 60)
    setting(H, p.options, "max_column_width", 30, 7, 40)
    cells = [["h%d" % i * (3 * i + 1) for i in range(n)], ["v%d" % i * (12 - 2 * i) for i in range(n)]]
    cap = H.choose("caption", [None, "", "c", "caption" * 8])
    pad = H.choose("padding", [2, 0, 1, 5])
    if pad == 0:
        # without padding neighbouring cells cannot be told apart; it still has to work
        t = T(H, cells, cap, "none", pad, False, False)
        H.check(isinstance(t.table.render_text(), str), "the text is not a string")
        html(H, t)
        return
    t = T(H, cells, cap, "none", pad, H.choose("hide_index", [False, True]), H.choose("hide_header", [False, True]))
    t.text()
    html(H, t)


def odd(H):
    """cells that are empty, None, numbers, or have spaces"""
    p = H.load("docria.printout")
    p.options.max_column_width = H.choose("cw", [None, 7, 30])
    p.options.max_display_width = H.choose("dw", [None, 10, 120])
    p.options.max_rows = H.choose("mr", [None, 1, 2])
    vals = ["", None, 5, -1.5, "a b", " ", True, b"x", [1, 2], p.get_representation(None), p.get_representation([]),
            p.get_representation(["q"])]
    t = p.Table("cap", hide_index=H.choose("hide_index", [False, True]), hide_headers=H.choose("hide_header", [False, True]))
    k = H.choose("k", range(0, len(vals), 3))
    row = vals[k:k + 3]
    t.set_header("", "x y", 3)
    for i in range(3):
        t.add_body(*row)
    s = t.render_text()
    H.check(isinstance(s, str), "the text is not a string")
    for v in row:
        if isinstance(v, p.TableCell):
            H.check("NIL" in s, "a missing value is not shown")
        elif len(str(v)) <= 7:
            H.check(str(v) in s, "a value is not shown")
    events(H, t.render_html())


# ---------------------------------------------------------------------------------------- HTML
ENTITIES = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "#39": "'", "#x27": "'", "#x22": '"', "#x26": "&", "#x3c": "<", "#x3e": ">"}
NAME = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def known(c):
    """a character that is not symbolic"""
    return isinstance(c, str) and c.isascii()


class Chars:
    """Reads HTML. A symbolic character must not be one that could be taken as markup."""

    def __init__(self, H, s):
        self.H = H
        self.s = [c for c in s]
        self.i = 0

    def data(self, until):
        """characters up to one of until; entities decoded"""
        out = []
        H = self.H
        while self.i < len(self.s):
            c = self.s[self.i]
            for u in until:
                if c == u:
                    return out
            if c == "&":
                j = self.i + 1
                name = ""
                while j < len(self.s) and len(name) < 8 and not (self.s[j] == ";"):
                    name += "?" if not self.s[j] in NAME + "#" else self.s[j]
                    j += 1
                H.check(j < len(self.s) and name in ENTITIES, "an ampersand that is not escaped")
                out.append(ENTITIES[name])
                self.i = j + 1
                continue
            out.append(c)
            self.i += 1
        return out


def events(H, s):
    """[("start", tag, {attribute: value}), ("end", tag), ("data", text)] of well-formed, properly nested HTML"""
    H.check(isinstance(s, str), "the HTML is not a string")
    r = Chars(H, s)
    out, stack = [], []
    while r.i < len(r.s):
        d = r.data("<")
        if d:
            out.append(("data", "".join(d)))
        if r.i >= len(r.s):
            break
        tag = "".join(r.data(" >"))[1:]
        if tag[:1] == "/":
            H.check(len(stack) > 0 and stack[-1] == tag[1:], "HTML elements are not nested")
            stack.pop()
            out.append(("end", tag[1:]))
        else:
            attrs = {}
            while r.i < len(r.s) and r.s[r.i] == " ":
                r.i += 1
                k = "".join(r.data("= >"))
                H.check(r.i + 1 < len(r.s) and r.s[r.i] == "=", "an attribute without value")
                q = r.s[r.i + 1]
                H.check(q == "'" or q == '"', "an attribute value without quotes")
                r.i += 2
                H.check(k not in attrs, "an attribute twice")
                attrs[k] = "".join(r.data(q))
                r.i += 1
            stack.append(tag)
            out.append(("start", tag, attrs))
        H.check(r.i < len(r.s) and r.s[r.i] == ">", "a tag does not end")
        r.i += 1
    H.check(len(stack) == 0, "an HTML element is not closed")
    return out


def parse(H, s):
    """(caption, header cells, [row cells]); a cell is (text, link); an elided row has one cell"""
    ev = events(H, s)
    H.check(ev[0][:2] == ("start", "table"), "not a table")
    rows, part = [], None
    cell = None
    for e in ev:
        if e[0] == "start":
            H.check(e[1] in ("table", "thead", "tbody", "tr", "th", "td", "a", "em"), "unexpected markup")
            if e[1] in ("thead", "tbody"):
                part = e[1]
            elif e[1] == "tr":
                rows.append((part, []))
            elif e[1] in ("th", "td"):
                cell = ["", None, e[2].get("colspan")]
            elif e[1] == "a":
                H.check(cell is not None and cell[1] is None and sorted(e[2]) == ["href"], "a link with something else")
                cell[1] = e[2]["href"]
        elif e[0] == "end":
            if e[1] in ("th", "td"):
                rows[-1][1].append(tuple(cell))
                cell = None
        else:
            H.check(cell is not None, "text outside a cell")
            cell[0] = cell[0] + e[1]
    head = [c for p, c in rows if p == "thead"]
    body = [c for p, c in rows if p == "tbody"]
    caption = None
    if len(head) == 2:
        H.check(len(head[0]) == 1, "caption")
        caption = head.pop(0)[0][0]
    H.check(len(head) == 1, "header")
    return caption, head[0], body


def html(H, t):
    """a table without special characters; indices and headers are always shown"""
    o = t.p.options
    caption, head, body = parse(H, t.table.render_html())
    lim = limit(o.max_column_width, o.max_display_width)
    n = len(t.cells) - 1
    ncol = len(t.cells[0])
    if t.caption is None:
        H.check(caption is None, "a caption that was not given")
    else:
        H.check(caption is not None and caption == t.caption, "caption")
    H.check(len(head) == ncol + 1, "number of columns")
    whole, m = t.rows()
    order = whole
    if m is not None:
        at = [i for i, r in enumerate(body) if len(r) == 1 and r[0][2] is not None]
        H.check(len(at) == 1, "not exactly one elision mark")
        up = at[0]
        low = m - up
        H.check(up >= 1 and (low >= 1 or m == 1), "the first or last rows are not shown")
        order = list(range(up)) + [None] + list(range(n - low, n))
    H.check(len(body) == len(order), "number of rows")
    for cs, r in zip([head] + body, [-1] + order):
        if r is None:
            continue
        H.check(len(cs) == ncol + 1, "number of cells")
        H.check(cs[0][0] == ("#" if r == -1 else t.names[r]), "name of a row")
        for (s, link, _), x in zip(cs[1:], t.cells[r + 1]):
            shown(H, s, x, H.length(x), lim)
            H.check(link is None, "a link that does not belong")


def escaping(H, where, n):
    """any characters anywhere are shown as they are"""
    p = H.load("docria.printout")
    s = H.chars("c", n, 0, 0x10ffff)
    cells = [["a", "b"], ["c", "d"]]
    caption, name = "cap", None
    if where == "cell":
        cells[1][1] = s
    elif where == "middle":
        cells[1][1] = "x<" + s + "&lt;y"
    elif where == "header":
        cells[0][0] = s
    elif where == "caption":
        caption = s
    elif where == "name":
        name = s
    elif where == "object":
        cells[1][1] = Obj(s)
    t = p.Table(caption)
    t.set_header(*cells[0])
    t.add_body(p.TableRow(*cells[1], index=name))
    cap, head, body = parse(H, t.render_html())
    H.check(len(body) == 1, "number of rows")
    H.check(cap == caption, "caption")
    got = [head, body[0]]
    want = [["#"] + cells[0], [name if name is not None else "0"] + cells[1]]
    for g, w in zip(got, want):
        H.check(len(g) == 3, "number of cells")
        for (x, link, _), y in zip(g, w):
            y = y.s if isinstance(y, Obj) else y
            H.check(x == y, "a text is not shown as it is")
            H.check(link is None, "a link that does not belong")


class Obj:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def links(H, kind, n, wide=True):
    """cells that are URNs"""
    p = H.load("docria.printout")
    if wide:
        p.options.max_column_width = 60
    s = H.chars("c", n, 0, 0x24f)
    if not wide:
        s = "Q" * 30 + s
        n += 30
    cell = {"wikidata": "urn:wikidata:", "wikipedia": "urn:wikipedia:", "upper": "urn:WikiData:", "other": "urn:x:", "second": "urn:wikipedia:sv:",
            "prefix": ""}[kind] + s
    if kind == "prefix":
        cell = s + "urn:wikidata:Q1"
    t = p.Table()
    t.set_header("a")
    t.add_body(cell)
    H.check(isinstance(t.render_text(), str), "the text is not a string")
    cap, head, body = parse(H, t.render_html())
    H.check(cap is None and len(body) == 1 and len(body[0]) == 2, "cells")
    x, link, _ = body[0][1]
    shown(H, x, cell, len(cell), p.options.max_column_width) if not wide else H.check(x == cell, "a text is not shown as it is")
    if link is not None:
        H.check(link.startswith("https://"), "a link to something else")
        if kind == "second":
            H.check(link == "https://sv.wikipedia.org/wiki/" + s, "target of a link")
        elif kind in ("wikidata", "upper"):
            H.check(link == "https://www.wikidata.org/wiki/" + s, "target of a link")
        else:
            H.check(kind == "wikipedia", "a link that does not belong")
            k = [i for i in range(n) if s[i] == ":"]
            H.check(len(k) >= 1 and link == "https://" + s[:k[0]] + ".wikipedia.org/wiki/" + s[k[0] + 1:], "target of a link")
    else:
        # a line break ends a URN
        H.check(kind not in ("second", "wikidata", "upper") or any(s[i] == "\n" for i in range(n)), "a link is missing")


# ---------------------------------------------------------------------------------------- docria's own objects
NAMES = ["tok", "100%", "%s%d", "<b>&'\"", "%", "a%%b"]


def objects(H):
    m = H.load("docria.model")
    p = H.load("docria.printout")
    T = m.DataTypes
    lim = H.choose("limits", ["default", "none", "small"])
    if lim == "none":
        p.options.max_rows = p.options.max_column_width = p.options.max_display_width = None
    elif lim == "small":
        p.options.max_rows, p.options.max_column_width, p.options.max_display_width = 1, 7, 10
    name = H.choose("name", NAMES)
    where = H.choose("where", ["layer", "field", "text", "value", "prop"])
    l = name if where == "layer" else "tok"
    f = name if where == "field" else "f"
    t = name if where == "text" else "main"
    doc = m.Document(**{name if where == "prop" else "k": name})
    doc.add_text(t, name + "<i>text" if where == "value" else "some text")
    L = doc.add_layer(l, **{f: T.string, "v": T.int32(None), "s": T.span(t), "r": T.noderef(l), "m": T.noderef_many(l),
                            "q": T.nodespan(l), "b": T.binary})
    v = name if where == "value" else "val"
    nodes = [L.add(**{f: v, "v": i, "s": doc.texts[t][i:i + 2], "b": b"x"}) for i in range(3)]
    nodes[0]["r"] = nodes[1]
    nodes[1]["m"] = [nodes[0], nodes[2]]
    nodes[2]["m"] = []
    nodes[2]["q"] = m.NodeSpan(nodes[0], nodes[1])
    bare = L.add()
    E = doc.add_layer("empty")
    dangling = m.Node(v=1)
    what = {"document": doc, "layer": L, "empty layer": E, "node": nodes[0], "node 1": nodes[1], "node 2": nodes[2], "bare node": bare,
            "dangling": dangling, "list": L.to_list(), "empty list": m.NodeList([]), "mixed list": m.NodeList([nodes[0], nodes[2]]),
            "span": m.NodeSpan(nodes[0], nodes[2]), "field": L[f], "field v": L["v"], "field s": L["s"], "query": L[L["v"] > 0],
            "query field": L[L["v"] > 0]["v"], "text": doc.texts[t], "text span": doc.texts[t][1:3]}
    for k, x in what.items():
        s = str(x)
        H.check(isinstance(s, str), "str of a " + k)
        H.check(isinstance(repr(x), str), "repr of a " + k)
        if hasattr(x, "_repr_html_"):
            h = x._repr_html_()
            ev = events(H, h)
            H.check(all(e[0] != "start" or e[1] in ("table", "thead", "tbody", "tr", "th", "td", "a", "em", "h3", "pre") for e in ev),
                    "unexpected markup for a " + k)
        if lim == "none" and k in ("layer", "list", "span", "node"):
            # everything is shown
            H.check(repr(v) in s, "a value is missing in " + k)
            H.check(f in s, "a field is missing in " + k)
        if lim == "none" and k in ("layer", "field v", "query", "query field"):
            H.check(s.count("\n") >= 2, "rows are missing in " + k)


def grid(H, n):
    """Every node has its row and every field its column, whichever of the fields have a value."""
    m = H.load("docria.model")
    T = m.DataTypes
    doc = m.Document()
    doc.maintext = "abcdef"
    L = doc.add_layer("tok", c=T.span(), a=T.int32(None), b=T.float64(None))
    vals = {"a": lambda i: 7 + i, "b": lambda i: i + 0.5, "c": lambda i: doc.maintext[i:i + 2]}
    rows = []
    for i in range(n):
        v = {f: fn(i) for f, fn in vals.items() if H.bool("%s%d" % (f, i))}
        L.add(**v)
        rows.append([repr(v[f]) if f in v else "NIL" for f in sorted(vals)])
    for k, o, fields in (("layer", L, "abc"), ("list", L.to_list(), "abc"), ("query", L[L["a"] >= 0], "abc"), ("part", L.to_list()[1:], "abc")):
        want = rows
        if k == "query":
            want = [r for r in rows if r[0] != "NIL"]
        elif k == "part":
            want = rows[1:]
        caption, head, body = parse(H, o._repr_html_())
        H.check([c[0] for c in head] == ["#"] + list(fields), "columns of a " + k)
        H.check([[c[0] for c in r[1:]] for r in body] == want, "cells of a " + k)
        lines = [x.split() for x in str(o).split("\n") if x.strip()]
        at = [i for i, w in enumerate(lines) if w == list(fields)]
        H.check(len(at) == 1, "header of a " + k)
        got = [w for w in lines[at[0] + 1:] if w[0].strip("-=_")]
        H.check([" ".join(w) for w in got[:len(want)]] == [" ".join(r) for r in want], "lines of a " + k)
    node = L.to_list()[0]
    caption, head, body = parse(H, node._repr_html_())
    H.check(sorted([c[0] for c in r[1:]] for r in body) == [[f, r] for f, r in zip(sorted(vals), rows[0]) if r != "NIL"], "cells of a node")


def stale(H, n, op):
    """Values that refer to nodes that were removed, moved or lack a text can still be printed."""
    m = H.load("docria.model")
    T = m.DataTypes
    doc = m.Document()
    doc.maintext = "abcdef"
    L = doc.add_layer("tok", text=T.span(), v=T.int32(None))
    R = doc.add_layer("ref", r=T.noderef("tok"), m=T.noderef_many("tok"), q=T.nodespan("tok"))
    nodes = [L.add(**({"text": doc.maintext[i:i + 1], "v": H.int("v%d" % i, -1, 1) if n == 2 or op == "sort" else 1 - i} if n > 2 or H.bool("t%d" % i) else {"v": i}))
             for i in range(n)]
    a, b = nodes[H.choose("a", list(range(n)))], nodes[H.choose("b", list(range(n)))]
    H.assume(a.i <= b.i)
    sp = m.NodeSpan(a, b)
    x = R.add(r=a, m=[a, b, nodes[-1]], q=sp)
    y = R.add(m=[b], q=sp)
    z = R.add(m=m.NodeList([a, b]))
    lst = m.NodeList([a, b])
    query = L[L["v"] >= 0]
    if op == "remove":
        L.remove([k for i, k in enumerate(nodes) if H.bool("r%d" % i)])
    elif op == "sort":
        L.sort(lambda k: k["v"])
    elif op == "extra":
        a["text"] = None
    for k, o in {"span": sp, "layer": L, "referring layer": R, "node": x, "node 1": y, "node 2": z, "list": lst, "query": query,
                 "query field": query["text"], "field r": R["r"], "field m": R["m"], "field q": R["q"], "document": doc, "left": a,
                 "right": b}.items():
        H.check(isinstance(str(o), str), "str of a " + k)
        H.check(isinstance(repr(o), str), "repr of a " + k)
        if hasattr(o, "_repr_html_"):
            events(H, o._repr_html_())


def JOBS(tier):
    th = tier == "thorough"
    js = [("settings", {"name": k}) for k in MINIMUM] + [("screen", {}), ("cut", {"hi": 2000})]
    for hi, hh in ((False, False), (True, False), (False, True)):
        js.append(("widths", {"rows": 1, "cols": 2, "hide_index": hi, "hide_header": hh, "hi": 60}))
    js.append(("widths", {"rows": 2, "cols": 1, "hide_index": False, "hide_header": False, "hi": 60}))
    js.append(("widths", {"rows": 0, "cols": 3, "hide_index": False, "hide_header": False, "hi": 60}))
    if th:
        js.append(("widths", {"rows": 1, "cols": 3, "hide_index": True, "hide_header": True, "hi": 200}))
        js.append(("widths", {"rows": 0, "cols": 4, "hide_index": False, "hide_header": False, "hi": 60}))
        js.append(("widths", {"rows": 2, "cols": 2, "hide_index": True, "hide_header": False, "hi": 60}))
    js += [("rows", {"n": n}) for n in ((0, 1, 2, 3, 4, 7) if not th else range(13))]
    js.append(("rows", {"n": 150}))
    js += [("columns", {"n": n}) for n in ((6, 4, 2, 1, 0) if th else (5, 3, 2, 1, 0))]
    js += [("odd", {})]
    js += [("escaping", {"where": w, "n": 4 if th else 3}) for w in ("cell", "middle", "header", "caption", "name", "object")]
    js += [("links", {"kind": k, "n": 3 if th else 2}) for k in ("wikidata", "wikipedia", "upper", "other", "second", "prefix")]
    js += [("links", {"kind": k, "n": 2, "wide": False}) for k in ("wikidata", "second")]
    js.append(("objects", {}))
    js.append(("grid", {"n": 3 if th else 2}))
    js += [("stale", {"n": n, "op": op}) for n in (2, 3) for op in ("none", "remove", "sort", "extra")]
    return js
