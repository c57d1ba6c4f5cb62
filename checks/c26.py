"""C26: Validity queries agree with what encoding accepts."""
import c03
from lib import attempt

BOUNDS = {"quick": "every declared type against every kind of value (as C03: integers of any size up to 70 bits, floats, texts and bytes of up to 40, "
                   "spans, references, lists and node spans, right, foreign, removed, moved or junk), asked of the type, the node, the layer, and "
                   "node lists, slices, node spans and queries holding the node; two fields of any types, each with a good or bad value or none, in any "
                   "of 3 nodes; removed, detached and never added nodes; 3 changes of 8 kinds to the nodes that a valid node refers to (thorough: 4); one of 140 nodes with a value of 4 kinds",
          "thorough": "as quick, with every pair of kinds of values (other than moved nodes) in two fields"}
OUTSIDE = "EXT fields; undeclared fields (which these queries do not judge); node spans in a node reference list field"
ASSUMPTIONS = c03.ASSUMPTIONS


def views(m, L, n):
    """collections that hold the node"""
    out = [L.to_list(), L[0:], m.NodeList([n], fieldtypes=L.schema.fields), m.NodeSpan(L.first(), L.last()), m.NodeSpan(n, n)]
    out.append(L[lambda k: k is n])
    out.append(L.to_list()[1:])
    return out


def agree(H, m, L, n, want, what):
    r = attempt(lambda: n.is_valid())
    H.check(r[0], what + ": is_valid raised an error")
    H.check(H.Iff(r[1], want), what + ": is_valid")
    r = attempt(lambda: n.is_valid(noexcept=True))
    H.check(r[0] and H.Iff(r[1], want), what + ": is_valid without exceptions")
    r = attempt(lambda: n.is_valid(noexcept=False))
    if r[0]:
        H.check(H.And(want, r[1]), what + ": is_valid with exceptions raised none")
    else:
        H.check(H.Not(want), what + ": is_valid with exceptions raised one")
    r = attempt(lambda: L.validate(n))
    if r[0]:
        H.check(H.And(want, r[1]), what + ": validate of the layer raised nothing")
    else:
        H.check(H.Not(want), what + ": validate of the layer raised an error")
    for k, x in enumerate(views(m, L, n)):
        r = attempt(lambda: x.validate())
        H.check(H.Iff(r[0], want), what + ": validate of a collection")
        H.check(r[0] or isinstance(r[1], AssertionError), what + ": validate of a collection: kind of error")


def verdict(H, t, kind):
    m, doc = c03.base(H)
    T = c03.dtype(m, t)
    L = doc.add_layer("tok", x=T)
    a, n, b = L.add(), L.add(), L.add()
    agree(H, m, L, n, True, "no value")
    v = c03.value(H, m, doc, kind, "v")
    want = c03.acceptable(H, t, kind, v)
    n["x"] = v
    skip = (t, kind) in c03.SKIP
    r = attempt(lambda: n.is_valid())
    H.check(r[0], "is_valid raised an error")
    enc = attempt(lambda: c03.encode(H, doc, "msgpack"))
    if skip:
        want = enc[0]
        H.check(H.Iff(r[1], want) if t != "many" else True, "is_valid against encoding")
    else:
        H.check(H.Iff(enc[0], want), "encoding")
        r = attempt(lambda: T.is_valid(v))
        H.check(r[0], "is_valid of the type raised an error")
        H.check(H.Iff(r[1], want), "is_valid of the type")
        agree(H, m, L, n, want, "value")
        H.check(a.is_valid() and b.is_valid(), "another node is not valid")
        H.check(attempt(lambda: m.NodeList([a, b], fieldtypes=L.schema.fields).validate())[0], "other nodes are not valid")
    H.check(n["x"] is v, "the value changed")
    del n["x"]
    agree(H, m, L, n, True, "value removed")


GOOD = {"i32": "int", "i64": "int", "f64": "float", "bool": "bool", "str": "str", "bin": "bytes", "span": "span", "ref": "ref", "many": "list",
        "nspan": "nspan"}


def pairs(H, t1, t2, kinds):
    """two fields: the node is valid iff both values are"""
    m, doc = c03.base(H)
    L = doc.add_layer("tok", x=c03.dtype(m, t1), y=c03.dtype(m, t2))
    ns = [L.add(), L.add(), L.add()]
    at = H.concrete(H.int("at", 0, 2))
    n = ns[at]
    gone = doc["ref"].add(k=9)
    gone.detach()
    want = True
    for f, t in (("x", t1), ("y", t2)):
        k = H.choose(f, ["", GOOD[t]] + kinds)
        if k:
            if (t, k) in c03.SKIP:
                H.assume(False)
            v = gone if k == "ref_removed" else c03.value(H, m, doc, k, "v" + f)
            n[f] = v
            want = H.And(want, c03.acceptable(H, t, k, v))
    for i, k in enumerate(ns):
        r = attempt(lambda: k.is_valid())
        H.check(r[0], "is_valid raised an error")
        H.check(H.Iff(r[1], want) if i == at else r[1], "is_valid of one of several")
    for f, x in enumerate((L.to_list(), L[0:2], m.NodeSpan(ns[1], ns[2]))):
        has = f == 0 or (f == 1 and at < 2) or (f == 2 and at > 0)
        H.check(H.Iff(attempt(lambda: x.validate())[0], want if has else True), "validate of a collection of several")
    H.check(H.Iff(attempt(lambda: c03.encode(H, doc, "msgpack"))[0], want), "encoding")


def wide(H, n, t):
    """many nodes, of which one has any value of the wrong or right kind"""
    m, doc = c03.base(H)
    L = doc.add_layer("tok", x=c03.dtype(m, t))
    at = H.choose("at", sorted({0, n // 2, n - 1}))
    good = c03.value(H, m, doc, GOOD[t], "g")
    H.assume(c03.acceptable(H, t, GOOD[t], good))
    kind = H.choose("kind", ["int", "str", "list_other", "ref_removed"])
    v = c03.value(H, m, doc, kind, "v") if (t, kind) not in c03.SKIP else H.assume(False)
    ns = [L.add(**({} if i % 3 == 1 or i == at else {"x": good})) for i in range(n)]
    ns[at]["x"] = v
    want = c03.acceptable(H, t, kind, v)
    for i in sorted({0, at, n - 1, max(at - 1, 0), n // 3}):
        H.check(H.Iff(ns[i].is_valid(), want if i == at else True), "is_valid of one of many")
    for x, has in ((L.to_list(), True), (m.NodeSpan(ns[0], ns[-1]), True), (L[0:], True), (m.NodeSpan(ns[1], ns[-2]), 0 < at < n - 1)):
        H.check(H.Iff(attempt(lambda: x.validate())[0], want if has else True), "validate of a collection of many")
    H.check(H.Iff(attempt(lambda: c03.encode(H, doc, "msgpack"))[0], want), "encoding")


def dangling(H, t):
    """a node of no layer is dangling and not valid; the others are neither"""
    m, doc = c03.base(H)
    L = doc.add_layer("tok", x=c03.dtype(m, t))
    ns = [L.add(), L.add(), L.add()]
    v = c03.value(H, m, doc, GOOD[t], "v")
    H.assume(c03.acceptable(H, t, GOOD[t], v))
    new = m.Node(x=v)
    how = H.choose("how", ["remove", "detach", "retain", "del"])
    i = H.concrete(H.int("i", 0, 2))
    ns[i]["x"] = v
    H.check(not any(n.is_dangling() for n in ns) and all(n.is_valid() for n in ns), "before")
    if how == "remove":
        L.remove(ns[i])
    elif how == "detach":
        ns[i].detach()
    elif how == "retain":
        L.retain([n for k, n in enumerate(ns) if k != i])
    else:
        del L[ns[i]]
    for n in (new, ns[i]):
        H.check(n.is_dangling(), "a node of no layer is not dangling")
        r = attempt(lambda: n.is_valid())
        H.check(r[0], "is_valid of a node of no layer raised an error")
        H.check(not r[1], "a node of no layer is valid")
        H.check(not attempt(lambda: n.is_valid(noexcept=False))[0], "a node of no layer is valid without an exception")
    for k, n in enumerate(ns):
        if k != i:
            H.check(not n.is_dangling() and n.is_valid(), "another node")
    L.add_many([new])
    H.check(not new.is_dangling() and new.is_valid(), "after adding")
    L.add(ns[i])
    H.check(not ns[i].is_dangling() and ns[i].is_valid(), "after adding again")


def later(H, t, steps):
    """the verdict follows what happens to the nodes a valid node refers to"""
    m, doc = c03.base(H)
    L = doc.add_layer("tok", x=c03.dtype(m, t))
    ref, oth = doc["ref"], doc["other"]
    a, b, c = [n for n in ref][:3]
    v = {"ref": b, "many": [a, b], "nspan": m.NodeSpan(a, b)}[t]
    z, n = L.add(), L.add(x=v)
    agree(H, m, L, n, True, "at first")
    for k in range(steps):
        op = H.choose("op%d" % k, ["remove", "move", "reverse", "back", "append", "pop", "more", "mirror"])
        if op == "remove" and b.collection is not None:
            b.detach()
        elif op == "move" and b.collection is not oth:
            if b.collection is not None:
                b.detach()
            oth.add_many([b])
        elif op == "reverse":
            ref.sort(lambda x: -x["k"])
        elif op == "back" and b.collection is not ref:
            if b.collection is not None:
                b.detach()
            ref.add(b)
        elif op == "append" and t == "many":
            v.append(oth.first())
        elif op == "pop" and t == "many" and v:
            v.pop()
        elif op == "more":
            ref.add(k=7)
        elif op == "mirror" and t == "nspan":
            n["x"] = v = m.NodeSpan(b, b) if b.collection is ref else m.NodeSpan(a, a)
        if t == "ref":
            want = b.collection is ref
        elif t == "many":
            want = all(x.collection is ref for x in v)
        else:
            order = [x for x in ref]
            want = all(x.collection is ref for x in (v.left, v.right)) and \
                [i for i, x in enumerate(order) if x is v.left][0] <= [i for i, x in enumerate(order) if x is v.right][0]
        agree(H, m, L, n, want, op)
        H.check(z.is_valid(), "the other node")
    H.check(attempt(lambda: c03.encode(H, doc, "msgpack"))[0] == want, "encoding")
    agree(H, m, L, n, want, "after encoding")


def JOBS(tier):
    js = [("verdict", {"t": t, "kind": k}) for t in c03.TYPES for k in c03.KINDS]
    js += [("dangling", {"t": t}) for t in c03.TYPES]
    js += [("later", {"t": t, "steps": 3 if tier == "quick" else 4}) for t in ("ref", "many", "nspan")]
    js += [("wide", {"n": 140, "t": t}) for t in c03.TYPES]
    few = ["int", "ref_removed", "list_other"] if tier == "quick" else [k for k in c03.KINDS if "moved" not in k and k not in ("list_removed", "nspan_removed", "nspan_reversed")]
    js += [("pairs", {"t1": a, "t2": b, "kinds": few}) for a in c03.TYPES for b in c03.TYPES]
    return js
