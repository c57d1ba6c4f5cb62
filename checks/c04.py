"""C04: Layer contents and node indices stay consistent over any edit history."""
from lib import attempt

BOUNDS = {"quick": "from layers of 0, 1 and 3 nodes: every sequence of 2 operations out of 22 kinds (symbolic positions, "
                   "subsets, sort keys), 3 operations from a reduced set; from a layer of 17..20 nodes (crossing the "
                   "25% compaction threshold): any removed block, then any operation; layers of 140 nodes with blocks of chosen "
                   "sizes and places removed, then one of 10 operations",
          "thorough": "as quick with sequences of 3 operations (4 from the reduced set), up to 4 initial nodes, and two "
                      "operations after the block removal"}
OUTSIDE = "longer histories, other layers of over 20 nodes"
ASSUMPTIONS = ["Nodes carry one 32-bit integer field with a symbolic value (the sort key)."]

KINDS = ["add", "add_node", "add_two", "add_many0", "add_many", "add_gen", "remove", "detach", "del", "remove_list", "remove_iter",
         "remove_none", "retain", "retain_rev", "retain_dup", "sort", "compact",
         "remove_foreign", "remove_list_foreign", "retain_foreign", "add_foreign", "add_many_foreign", "remove_dangling",
         "retain_dangling", "remove_dup"]
SMALL = ["add", "add_many", "remove", "remove_list", "retain", "sort", "compact"]


class State:
    """The layer under test and the nodes it should hold."""

    def __init__(self, H, n):
        self.H = H
        self.m = H.load("docria.model")
        T = self.m.DataTypes
        self.doc = self.m.Document()
        self.L = self.doc.add_layer("tok", v=T.int32(None))
        self.O = self.doc.add_layer("other", v=T.int32(None))
        self.foreign = self.O.add(v=7)
        self.nodes, self.gone = [], []
        self.count = 0
        for _ in range(n):
            self.nodes.append(self.L.add(v=self.val()))

    def val(self):
        self.count += 1
        return self.H.int("v%d" % self.count, -100, 100)

    def new(self):
        return self.m.Node(v=self.val())

    def pick(self, name, at_least=0):
        """A subset of the nodes, in layer order."""
        H = self.H
        if len(self.nodes) > 5:
            a = H.choose(name + "a", [0, len(self.nodes) // 2, len(self.nodes) - 1])
            b = H.choose(name + "b", sorted({a, min(a + 2, len(self.nodes)), len(self.nodes)}))
            return self.nodes[a:b]
        return [n for i, n in enumerate(self.nodes) if H.bool("%s%d" % (name, i))]

    def one(self, name):
        H = self.H
        if not self.nodes:
            return None
        if len(self.nodes) > 5:
            return self.nodes[H.choose(name, [0, len(self.nodes) // 2, len(self.nodes) - 1])]
        return self.nodes[H.concrete(H.int(name, 0, len(self.nodes) - 1))]

    def drop(self, ns):
        self.nodes = [n for n in self.nodes if not any(n is x for x in ns)]
        self.gone += ns

    def resync(self, extra=()):
        """After a refusal part of the operation may have been done; adopt the contents, if they are possible."""
        H = self.H
        got = [n for n in self.L]
        may = self.nodes + list(extra)
        for x in got:
            H.check(any(x is y for y in may), "a refused operation brought in another node")
        kept = [y for y in may if any(x is y for x in got)]
        H.check(len(kept) == len(got), "a refused operation duplicated or lost a node")
        for x, y in zip(got, kept):
            H.check(x is y, "a refused operation changed the order")
        for y in self.nodes:
            if not any(x is y for x in got):
                self.gone.append(y)
        self.nodes = got

    def apply(self, k, kind):
        H, L, nm = self.H, self.L, "o%d" % k
        if kind == "add":
            self.nodes.append(L.add(v=self.val()))
        elif kind == "add_node":
            n = self.new()
            L.add(n)
            self.nodes.append(n)
        elif kind == "add_two":
            ns = [self.new(), self.new()]
            L.add(*ns)
            self.nodes += ns
        elif kind == "add_many0":
            L.add_many([])
        elif kind == "add_many":
            ns = [self.new(), self.new()]
            L.add_many(ns, default_fill=H.choose(nm + "d", [True, False]), full_validation=H.choose(nm + "f", [True, False]))
            self.nodes += ns
        elif kind == "add_gen":
            ns = [self.new(), self.new()]
            L.add_many(n for n in ns)
            self.nodes += ns
        elif kind in ("remove", "detach", "del"):
            n = self.one(nm)
            if n is None:
                return
            if kind == "remove":
                L.remove(n)
            elif kind == "detach":
                n.detach()
            else:
                del L[n]
            self.drop([n])
        elif kind in ("remove_list", "remove_iter", "remove_none"):
            ns = self.pick(nm)
            if kind == "remove_list":
                L.remove(ns)
            elif kind == "remove_iter":
                L.remove(n for n in L if any(n is x for x in ns))
            else:
                L.remove([None] + ns)
            self.drop(ns)
        elif kind in ("retain", "retain_rev", "retain_dup"):
            ns = self.pick(nm)
            keep = ns if kind == "retain" else ns[::-1] if kind == "retain_rev" else ns + ns
            L.retain(keep if kind != "retain_rev" else iter(keep))
            self.drop([n for n in self.nodes if not any(n is x for x in ns)])
        elif kind == "sort":
            L.sort(lambda n: n["v"])
            self.resort()
        elif kind == "compact":
            L.compact()
            for i, n in enumerate(self.nodes):
                H.check(n.i == i, "index after compact")
        elif kind == "remove_foreign":
            self.refused(lambda: L.remove(self.foreign), "remove of a foreign node")
        elif kind == "remove_dangling":
            n = self.gone[-1] if self.gone else self.new()
            self.refused(lambda: L.remove(n), "remove of a dangling node")
        elif kind in ("remove_list_foreign", "remove_dup"):
            ns = self.pick(nm)
            at = H.choose(nm + "p", [0, len(ns)])
            bad = ns[:at] + [self.foreign] + ns[at:] if kind == "remove_list_foreign" else ns + ns
            if kind == "remove_dup" and not ns:
                return
            self.refused(lambda: L.remove(bad), "remove of a list with a node that is not in the layer")
        elif kind in ("retain_foreign", "retain_dangling"):
            ns = self.pick(nm)
            at = H.choose(nm + "p", [0, len(ns)])
            x = self.foreign if kind == "retain_foreign" else self.new()
            self.refused(lambda: L.retain(ns[:at] + [x] + ns[at:]), "retain with a node that is not in the layer")
        elif kind == "add_foreign":
            n = self.new()
            self.refused(lambda: L.add(n, self.foreign), "add of a node of another layer", [n])
            if self.nodes:
                self.refused(lambda: L.add(self.nodes[0]), "add of a node already in the layer")
        elif kind == "add_many_foreign":
            a, b = self.new(), self.new()
            self.refused(lambda: L.add_many([a, self.foreign, b]), "add_many with a node of another layer", [a, b])
        else:
            raise ValueError(kind)

    def refused(self, fn, what, extra=()):
        ok, e = attempt(fn)
        self.H.check(not ok, what + " was accepted")
        self.resync(extra)
        self.H.check(self.foreign.collection is self.O and self.O[self.foreign.i] is self.foreign
                     and len(self.O) == 1, what + " changed the other layer")

    def resort(self):
        """The contents are the same nodes, in stable key order."""
        H = self.H
        out = []
        for n in self.nodes:
            k = len(out)
            while k > 0 and bool(out[k - 1]["v"] > n["v"]):
                k -= 1
            out.insert(k, n)
        self.nodes = out

    def verify(self):
        H, L, ns = self.H, self.L, self.nodes
        got = [n for n in L]
        H.check(len(got) == len(ns), "number of nodes of the iteration")
        for x, y in zip(got, ns):
            H.check(x is y, "nodes of the iteration")
        H.check(len(L) == len(ns), "length")
        H.check(L.first() is (ns[0] if ns else None), "first")
        H.check(L.last() is (ns[-1] if ns else None), "last")
        lst = L.to_list()
        H.check(len(lst) == len(ns) and all(x is y for x, y in zip(lst, ns)), "to_list")
        sl = L[:]
        H.check(len(sl) == len(ns) and all(x is y for x, y in zip(sl, ns)), "slice of everything")
        col = L["v"].to_list()
        H.check(len(col) == len(ns) and len(L["v"]) == len(ns), "length of a field column")
        for c, n in zip(col, ns):
            H.check(H.eq(c, n["v"]), "field column")
        prev = -1
        for k, n in enumerate(ns):
            H.check(n.collection is L and not n.is_dangling(), "a contained node is dangling")
            H.check(n.i > prev, "indices are not in order")
            prev = n.i
            H.check(L[n.i] is n and L[n] is n and n in L, "looking up the index of a node gives another one")
        if ns:
            j = len(ns) // 2
            part = L[ns[j].i:]
            H.check(len(part) == len(ns) - j and all(x is y for x, y in zip(part, ns[j:])), "slice of the last nodes")
            part = L[:ns[j].i]
            H.check(len(part) == j and all(x is y for x, y in zip(part, ns)), "slice of the first nodes")
        for n in self.gone:
            H.check(n.is_dangling() and not (n in L), "a removed node is not dangling")
            ok, e = attempt(lambda: L[n])
            H.check(not ok, "a removed node is found")
            repr(n)
        H.observe("ids", [n.i for n in ns])


def history(H, n, ops, kinds=None, first=None):
    s = State(H, n)
    s.verify()
    for k in range(ops):
        kind = first if k == 0 and first is not None else H.choose("op%d" % k, kinds or KINDS)
        s.apply(k, kind)
        s.verify()


def block(H, n, ops, how):
    """Removes a block of any length at any place of a larger layer (crossing the compaction threshold)."""
    s = State(H, 0)
    for i in range(n):
        s.nodes.append(s.L.add(v=i * 7 % 5))
    a, k = H.int("a", 0, n - 1), H.int("k", 0, 7)
    H.assume(H.Or(a <= 1, a == n // 2, a + k == n))
    ns = [x for i, x in enumerate(s.nodes) if H.And(a <= i, i < a + k)]
    if how == "list":
        s.L.remove(ns)
    else:
        for x in ns:
            s.L.remove(x)
    s.drop(ns)
    s.verify()
    for j in range(ops):
        s.apply(j, H.choose("op%d" % j, KINDS))
        s.verify()


def wide(H, n, op):
    """A large layer: a block of any kind of length removed, then an operation; one node has any value."""
    s = State(H, 0)
    at = H.choose("at", [0, n // 2, n - 1])
    for i in range(n):
        s.nodes.append(s.L.add(v=s.val() if i == at else i * 7 % 5))
    k = H.choose("k", [0, 1, n // 4, n // 4 + 1, n - 2])
    a = H.choose("a", sorted({0, (n - k) // 2, n - k}))
    ns = s.nodes[a:a + k]
    if H.choose("how", ["list", "iter"]) == "list":
        s.L.remove(ns)
    else:
        s.L.remove(x for x in ns)
    s.drop(ns)
    s.verify()
    if op == "most" and s.nodes:
        keep = s.nodes[1:] + s.nodes[-1:]
        s.L.retain(keep)
        s.drop(s.nodes[:1] if len(s.nodes) > 1 else [])
    elif op == "most":
        s.L.retain([])
    elif op == "many":
        new = [s.m.Node(v=i) for i in range(n)]
        s.L.add_many(new)
        s.nodes += new
    else:
        s.apply(0, op)
    s.verify()


def sorting(H, n):
    """Stable order for every assignment of keys, whatever was removed first."""
    s = State(H, n)
    gone = s.pick("g")
    s.L.remove(gone)
    s.drop(gone)
    s.L.sort(lambda x: x["v"])
    s.resort()
    s.verify()
    s.apply(1, "add")
    s.L.sort(lambda x: -x["v"])
    out = []
    for x in s.nodes:
        k = len(out)
        while k > 0 and bool(out[k - 1]["v"] < x["v"]):
            k -= 1
        out.insert(k, x)
    s.nodes = out
    s.verify()


def refused_sort(H, n):
    """A sort whose keys cannot be compared (a missing value) is refused without touching contents and indices."""
    s = State(H, 0)
    for i in range(n):
        s.nodes.append(s.L.add(v=s.val()) if H.bool("has%d" % i) else s.L.add())
    gone = s.one("g")
    s.L.remove(gone)
    s.drop([gone])
    key = H.choose("key", ["missing", "raises"])
    if key == "missing":
        ok, e = attempt(lambda: s.L.sort(lambda x: x.get("v")))
    else:
        ok, e = attempt(lambda: s.L.sort(lambda x: x["v"]))
    full = all("v" in x for x in s.nodes)
    if full:
        H.check(ok, "sorting nodes that all have the key was refused")
        s.resort()
    elif key == "raises" or len(s.nodes) > 1:
        H.check(not ok, "sorting by keys that cannot be compared was accepted")
    col = s.L["v"].to_list()
    got = [x for x in s.L]
    H.check(len(got) == len(s.nodes) and len(s.L) == len(s.nodes), "number of nodes after a refused sort")
    for x, y in zip(got, s.nodes):
        H.check(x is y, "a refused sort changed the order")
    for x, c in zip(s.nodes, col):
        H.check(s.L[x.i] is x and x.collection is s.L, "looking up the index of a node gives another one")
        H.check(H.eq(c, x.get("v")), "field column")
    for a, b in zip(s.nodes, s.nodes[1:]):
        H.check(a.right is b and b.left is a, "neighbours after a refused sort")


def JOBS(tier):
    js = []
    q = tier == "quick"
    for f in KINDS:
        js.append(("history", {"n": 3, "ops": 2 if q else 3, "first": f}))
    for n in (0, 1):
        js.append(("history", {"n": n, "ops": 2}))
    for f in SMALL:
        js.append(("history", {"n": 2, "ops": 3 if q else 4, "kinds": SMALL, "first": f}))
    for n in (16, 17, 20):
        for how in ("list", "single"):
            js.append(("block", {"n": n, "ops": 1 if q else 2, "how": how}))
    for op in ("add", "remove", "remove_list", "retain", "sort", "compact", "many", "add_many", "retain_dup", "most"):
        js += [("wide", {"n": n, "op": op}) for n in ((140,) if q else (65, 140, 270))]
    for n in range(2, 4 if q else 5):
        js.append(("sorting", {"n": n}))
    for n in (2, 5):
        js.append(("refused_sort", {"n": n if q else n + 1}))
    return js
