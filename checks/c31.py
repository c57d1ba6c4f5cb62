"""C31: A layer of the Java port is the ordered set of the nodes added and not removed."""
JAVA = True
BOUNDS = {"quick": "layers of up to 3 nodes and 3 operations of twelve kinds, layers of 4 nodes and 2 operations, in every order and on any nodes; layers of 16 to 22 "
                   "nodes of which a run of any place and length is removed in either of three ways, followed by another operation; sort keys any 32-bit "
                   "integers; node spans over all pairs (of layers with more than 6 nodes: over every fifth node)",
          "thorough": "4 operations on up to 3 nodes, 3 on 4"}
OUTSIDE = "longer histories; changes made while iterating; equality and hash codes of nodes that belong to no layer; custom node factories"
ASSUMPTIONS = ["fastutil and msgpack-java are not installed: they are replaced by plain functional stand-ins in /verif/java."]
ADD, REMOVE, DISCARD, REMOVEALL, RETAINALL, SORT, COMPACT, CLEAR, ADDALL, OTHER, FOREIGN, MIXED, COMPILE = range(13)


def expect(H, cur, total, values, op, x):
    """(what is returned or -2, the nodes afterwards)"""
    some = [i for i in range(total) if x >> i & 1]
    if op == ADD:
        return (-2, cur) if x in cur else (1, cur + [x])
    if op == REMOVE:
        return (1, [i for i in cur if i != x]) if x in cur else (-2, cur)
    if op == DISCARD:
        return int(x in cur), [i for i in cur if i != x]
    if op == REMOVEALL:
        return int(any(i in cur for i in some)), [i for i in cur if i not in some]
    if op == RETAINALL:
        # nodes of no layer are refused, and nothing is changed then
        if any(i not in cur for i in some):
            return -2, cur
        return int(len(some) < len(cur)), [i for i in cur if i in some]
    if op == SORT:
        out = []
        for i in cur:
            at = len(out)
            while at > 0 and values[out[at - 1]] > values[i]:
                at -= 1
            out.insert(at, i)
        return 0, out
    if op == CLEAR:
        return 0, []
    if op == ADDALL:
        out = list(cur)
        for i in some:
            if i in cur:
                return -2, out
            out.append(i)
        return int(bool(some)), out
    if op == OTHER:
        return 0, cur
    if op in (FOREIGN, MIXED):
        return -2, cur
    return 0, cur


def verify(H, got, total, start, values, ops, args):
    cur, at = list(range(start)), 0
    for op, x in zip(ops, args):
        r, cur = expect(H, cur, total, values, op, x)
        H.check(got[at] == r, "what operation %d returns" % op)
        H.check(got[at + 1] == -1, "ways to look at the layer disagree")
        k = got[at + 2]
        H.check(k == len(cur), "size after operation %d" % op)
        H.check(list(got[at + 3:at + 3 + len(cur)]) == cur, "nodes after operation %d" % op)
        at += 3 + len(cur)
    H.check(len(got) == at, "too many results")


def history(H, n, spare, first, second, k):
    """all short histories"""
    total = n + spare
    values = [H.int("x%d" % i, -2 ** 31, 2 ** 31 - 1) for i in range(total)]
    ops, args = [first], []
    if second is not None:
        ops.append(second)
    while len(ops) < k:
        ops.append(H.choose("op%d" % len(ops), range(13)))
    for i, op in enumerate(ops):
        if op in (ADD, REMOVE, DISCARD):
            args.append(H.choose("a%d" % i, range(total)))
        elif op in (REMOVEALL, RETAINALL, ADDALL):
            args.append(H.choose("a%d" % i, range(1 << total)))
        else:
            args.append(0)
    got = H.java("layer", values, n, ops, args, 0)
    verify(H, got, total, n, values, ops, args)
    H.observe("got", len(got))


def bigger(H, n, how):
    """layers that are compacted by themselves"""
    lo = H.choose("lo", range(n))
    cnt = H.choose("n", range(1, n + 1))
    if lo + cnt > n:
        H.assume(False)
    values = [(i * 7) % 5 for i in range(n + 1)]
    if how == REMOVEALL:
        ops, args = [how], [((1 << cnt) - 1) << lo]
    elif how == RETAINALL:
        ops, args = [how], [((1 << n) - 1) & ~(((1 << cnt) - 1) << lo)]
    else:
        ops, args = [how] * cnt, list(range(lo, lo + cnt))
    ops.append(H.choose("then", [ADD, SORT, COMPACT, CLEAR, COMPILE]))
    args.append(n if ops[-1] == ADD else 0)
    ops += [ADD, REMOVE]
    args += [lo, n if n in args else lo]
    got = H.java("layer", values, n, ops, args, len(ops) - 4)
    verify(H, got, n + 1, n, values, ops, args)
    H.observe("got", len(got))


def JOBS(tier):
    q = tier == "quick"
    js = []
    for op in range(13):
        for op2 in range(13):
            js.append(("history", {"n": 2, "spare": 1, "first": op, "second": op2, "k": 3 if q else 4}))
            js.append(("history", {"n": 3, "spare": 1, "first": op, "second": op2, "k": 2 if q else 3}))
        js.append(("history", {"n": 0, "spare": 2, "first": op, "second": None, "k": 3}))
    for n in (16, 17, 22) if q else (16, 17, 18, 22, 30):
        for how in (REMOVE, REMOVEALL, RETAINALL):
            js.append(("bigger", {"n": n, "how": how}))
    return js
