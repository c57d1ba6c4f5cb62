"""Translates JVM bytecode to Python functions over concrete or symbolic values.

Every operand stack slot and local variable becomes a Python local; every basic block a branch of a dispatch loop. Integer
results are wrapped to 32 or 64 bits; comparisons of symbolic values fork (through SymBool.__bool__)."""
import struct
from .classfile import split_desc

CAT2 = ("J", "D")


def cat(d):
    return 2 if d in CAT2 else 1


CMP = {"eq": "==", "ne": "!=", "lt": "<", "ge": ">=", "gt": ">", "le": "<="}
NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def decode(code):
    """{pc: (op, operands, next pc)}"""
    out = {}
    pc = 0
    n = len(code)
    while pc < n:
        op = code[pc]
        p = pc + 1
        a = None
        if op in (0x10, 0xbc):                                     # bipush newarray
            a = struct.unpack(">b", code[p:p + 1])[0]
            p += 1
        elif op in (0x11,) or 0x99 <= op <= 0xa8 or op in (0xc6, 0xc7):   # sipush, branches
            a = struct.unpack(">h", code[p:p + 2])[0]
            p += 2
        elif op == 0x12:
            a = code[p]
            p += 1
        elif op in (0x13, 0x14) or 0xb2 <= op <= 0xb8 or op in (0xbb, 0xbd, 0xc0, 0xc1):
            a = struct.unpack(">H", code[p:p + 2])[0]
            p += 2
        elif op in (0xb9, 0xba):
            a = struct.unpack(">H", code[p:p + 2])[0]
            p += 4
        elif 0x15 <= op <= 0x19 or 0x36 <= op <= 0x3a or op == 0xa9:
            a = code[p]
            p += 1
        elif op == 0x84:
            a = (code[p], struct.unpack(">b", code[p + 1:p + 2])[0])
            p += 2
        elif op == 0xc4:                                           # wide
            o2 = code[p]
            i = struct.unpack(">H", code[p + 1:p + 3])[0]
            p += 3
            if o2 == 0x84:
                a = (i, struct.unpack(">h", code[p:p + 2])[0])
                p += 2
            else:
                a = i
            op = o2
        elif op == 0xc5:
            a = (struct.unpack(">H", code[p:p + 2])[0], code[p + 2])
            p += 3
        elif op in (0xc8, 0xc9):
            a = struct.unpack(">i", code[p:p + 4])[0]
            p += 4
            op = 0xa7 if op == 0xc8 else 0xa8
        elif op in (0xaa, 0xab):
            q = (p + 3) & ~3
            d = struct.unpack(">i", code[q:q + 4])[0]
            if op == 0xaa:
                lo, hi = struct.unpack(">ii", code[q + 4:q + 12])
                offs = struct.unpack(">%di" % (hi - lo + 1), code[q + 12:q + 12 + 4 * (hi - lo + 1)])
                tab = [(lo + i, pc + o) for i, o in enumerate(offs)]
                p = q + 12 + 4 * len(offs)
            else:
                k = struct.unpack(">i", code[q + 4:q + 8])[0]
                tab = [(struct.unpack(">i", code[q + 8 + 8 * i:q + 12 + 8 * i])[0],
                        pc + struct.unpack(">i", code[q + 12 + 8 * i:q + 16 + 8 * i])[0]) for i in range(k)]
                p = q + 8 + 8 * k
            a = (tab, pc + d)
        out[pc] = (op, a, p)
        pc = p
    return out


def is_branch(op):
    return 0x99 <= op <= 0xa6 or op in (0xc6, 0xc7)


def ends(op):
    return op in (0xa7, 0xaa, 0xab, 0xbf) or 0xac <= op <= 0xb1


class Translator:
    def __init__(self, vm, m):
        self.vm, self.m, self.cf = vm, m, m.cls
        self.ns = {}
        self.n = 0

    def name(self, v, prefix="k"):
        self.n += 1
        k = "%s%d" % (prefix, self.n)
        self.ns[k] = v
        return k

    def run(self):
        m, vm = self.m, self.vm
        ins = decode(m.code)
        # block starts
        starts = {0}
        for pc, (op, a, nx) in ins.items():
            if is_branch(op):
                starts.update((pc + a, nx))
            elif op == 0xa7:
                starts.add(pc + a)
                starts.add(nx)
            elif op in (0xaa, 0xab):
                starts.update(t for _, t in a[0])
                starts.add(a[1])
                starts.add(nx)
            elif ends(op):
                starts.add(nx)
        for s, e, h, c in m.handlers:
            starts.update((s, e, h))
        starts = sorted(x for x in starts if x in ins)
        num = {pc: i for i, pc in enumerate(starts)}
        self.num = num
        # argument names
        args, ret = split_desc(m.desc)
        names = []
        i = 0
        if not m.static:
            names.append("l0")
            i = 1
        for d in args:
            names.append("l%d" % i)
            i += cat(d)
        # stack shapes at block entries
        entry = {0: ()}
        for s, e, h, c in m.handlers:
            entry[h] = (1,)
        bodies = {}
        todo = [0] + [h for _, _, h, _ in m.handlers]
        while todo:
            b = todo.pop()
            if b in bodies:
                continue
            lines, outs = self.block(b, list(entry[b]), ins, num)
            bodies[b] = lines
            for t, st in outs:
                if t not in entry:
                    entry[t] = tuple(st)
                todo.append(t)
        order = [b for b in starts if b in bodies]
        src = ["def F(%s):" % ", ".join(names)]
        simple = len(order) == 1 and not m.handlers and not any(l.strip().startswith(("b =", "continue")) for l in bodies[0])
        if simple:
            src += ["  " + l for l in bodies[0]] or ["  pass"]
        else:
            src.append("  b = 0")
            src.append("  while True:")
            pad = "    "
            if m.handlers:
                src.append("    try:")
                pad = "      "
            self.tree(src, pad, order, num, bodies)
            if m.handlers:
                tab = {}
                for b in order:
                    hs = [(None if c == 0 else self.cf.cname(c), num[h]) for s, e, h, c in m.handlers if s <= b < e]
                    if hs:
                        tab[num[b]] = hs
                hn = self.name(tab, "h")
                self.ns["JX"] = vm.JX
                self.ns["catch"] = vm.catch
                src.append("    except JX as ex:")
                src.append("      b, s0 = catch(%s.get(b), ex)" % hn)
        text = "\n".join(src) + "\n"
        self.ns.update(vm.helpers)
        try:
            code = compile(text, "<%s.%s%s>" % (self.cf.name, m.name, m.desc), "exec")
        except SyntaxError as e:
            raise RuntimeError("%s\n%s" % (e, text))
        exec(code, self.ns)
        fn = self.ns["F"]
        fn.__name__ = m.name.replace("<", "").replace(">", "")
        return fn

    def tree(self, src, pad, order, num, bodies):
        if len(order) == 1:
            src += [pad + l for l in bodies[order[0]]]
            return
        k = len(order) // 2
        src.append("%sif b < %d:" % (pad, num[order[k]]))
        self.tree(src, pad + " ", order[:k], num, bodies)
        src.append(pad + "else:")
        self.tree(src, pad + " ", order[k:], num, bodies)

    # ------------------------------------------------------------------------------------------------ one block
    def block(self, b, st, ins, num):
        out = []
        outs = []
        pc = b
        cf, vm = self.cf, self.vm
        lazy = vm.lazy
        emit = out.append

        def push(c):
            st.append(c)
            return "s%d" % (len(st) - 1)

        def pop():
            st.pop()
            return "s%d" % len(st)

        def top(i=0):
            return "s%d" % (len(st) - 1 - i)

        def goto(t, ind=""):
            outs.append((t, list(st)))
            emit("%sb = %d" % (ind, num[t]))
            emit("%scontinue" % ind)

        while True:
            op, a, nx = ins[pc]
            if op == 0:
                pass
            elif op == 1:
                emit("%s = None" % push(1))
            elif 2 <= op <= 8:
                emit("%s = %d" % (push(1), op - 3))
            elif op in (9, 10):
                emit("%s = %d" % (push(2), op - 9))
            elif 11 <= op <= 13:
                emit("%s = %d.0" % (push(1), op - 11))
            elif op in (14, 15):
                emit("%s = %d.0" % (push(2), op - 14))
            elif op in (0x10, 0x11):
                emit("%s = %d" % (push(1), a))
            elif op in (0x12, 0x13, 0x14):
                v = cf.const(a)
                if isinstance(v, int):
                    emit("%s = %d" % (push(2 if op == 0x14 else 1), v))
                elif isinstance(v, float):
                    emit("%s = %s" % (push(2 if op == 0x14 else 1), self.name(v)))
                elif isinstance(v, str):
                    emit("%s = %s" % (push(1), self.name(v)))
                elif v[0] == "class":
                    emit("%s = %s" % (push(1), self.name(vm.mirror(v[1]))))
                else:
                    emit("%s = %s" % (push(1), self.name(v)))
            elif 0x15 <= op <= 0x19:
                emit("%s = l%d" % (push(2 if op in (0x16, 0x18) else 1), a))
            elif 0x1a <= op <= 0x2d:
                k, i = divmod(op - 0x1a, 4)
                emit("%s = l%d" % (push(2 if k in (1, 3) else 1), i))
            elif 0x2e <= op <= 0x35:
                i = pop()
                r = pop()
                h = {0x33: "bload"}.get(op, "aload")
                emit("%s = %s(%s, %s)" % (push(2 if op in (0x2f, 0x31) else 1), h, r, i))
            elif 0x36 <= op <= 0x3a:
                emit("l%d = %s" % (a, pop()))
            elif 0x3b <= op <= 0x4e:
                k, i = divmod(op - 0x3b, 4)
                emit("l%d = %s" % (i, pop()))
            elif 0x4f <= op <= 0x56:
                v, i, r = pop(), pop(), pop()
                h = {0x54: "bstore", 0x53: "astore", 0x55: "cstore", 0x56: "sstore"}.get(op, "store")
                emit("%s(%s, %s, %s)" % (h, r, i, v))
            elif op == 0x57:
                pop()
            elif op == 0x58:
                if st[-1] == 1:
                    pop()
                pop()
            elif 0x59 <= op <= 0x5f:
                self.stackop(op, st, emit)
            elif 0x60 <= op <= 0x73:
                self.arith(op, st, emit)
            elif 0x74 <= op <= 0x77:
                c = st[-1]
                t = top()
                emit("%s = %s" % (t, {0x74: "w32(-%s)", 0x75: "w64(-%s)"}.get(op, "fneg(%s)") % t))
            elif 0x78 <= op <= 0x7d:
                n = pop()
                t = top()
                emit("%s = %s(%s, %s)" % (t, ("shl32", "shl64", "shr32", "shr64", "ushr32", "ushr64")[op - 0x78], t, n))
            elif 0x7e <= op <= 0x83:
                n = pop()
                t = top()
                emit("%s = %s(%s, %s)" % (t, ("band", "band", "bor", "bor", "bxor", "bxor")[op - 0x7e], t, n))
            elif op == 0x84:
                emit("l%d = w32(l%d + %d)" % (a[0], a[0], a[1]))
            elif 0x85 <= op <= 0x93:
                src = pop()
                f, c = {0x85: ("%s", 2), 0x86: ("i2d(%s)", 1), 0x87: ("i2d(%s)", 2), 0x88: ("w32(%s)", 1), 0x89: ("i2d(%s)", 1),
                        0x8a: ("i2d(%s)", 2), 0x8b: ("d2i(%s)", 1), 0x8c: ("d2l(%s)", 2), 0x8d: ("%s", 2), 0x8e: ("d2i(%s)", 1),
                        0x8f: ("d2l(%s)", 2), 0x90: ("d2f(%s)", 1), 0x91: ("i2b(%s)", 1), 0x92: ("i2c(%s)", 1),
                        0x93: ("i2s(%s)", 1)}[op]
                d = push(c)
                emit("%s = %s" % (d, f % src))
            elif 0x94 <= op <= 0x98:
                y, x = pop(), pop()
                nop, na, nnx = ins.get(nx, (None, None, None))
                if nop is not None and 0x99 <= nop <= 0x9e and nx not in num:
                    c = CMP[("eq", "ne", "lt", "ge", "gt", "le")[nop - 0x99]]
                    if op == 0x94:
                        cond = "%s %s %s" % (x, c, y)
                    else:
                        cond = "fcmp(%s, %s, %r, %d)" % (x, y, c, -1 if op in (0x95, 0x97) else 1)
                    emit("if %s:" % cond)
                    goto(nx + na, " ")
                    goto(nnx)
                    return out, outs
                d = push(1)
                if op == 0x94:
                    emit("%s = lcmp(%s, %s)" % (d, x, y))
                else:
                    emit("%s = dcmp(%s, %s, %d)" % (d, x, y, -1 if op in (0x95, 0x97) else 1))
            elif 0x99 <= op <= 0x9e:
                x = pop()
                emit("if %s %s 0:" % (x, CMP[("eq", "ne", "lt", "ge", "gt", "le")[op - 0x99]]))
                goto(pc + a, " ")
                goto(nx)
                return out, outs
            elif 0x9f <= op <= 0xa4:
                y, x = pop(), pop()
                emit("if %s %s %s:" % (x, CMP[("eq", "ne", "lt", "ge", "gt", "le")[op - 0x9f]], y))
                goto(pc + a, " ")
                goto(nx)
                return out, outs
            elif op in (0xa5, 0xa6):
                y, x = pop(), pop()
                emit("if %ssame(%s, %s):" % ("" if op == 0xa5 else "not ", x, y))
                goto(pc + a, " ")
                goto(nx)
                return out, outs
            elif op in (0xc6, 0xc7):
                x = pop()
                emit("if %s %s None:" % (x, "is" if op == 0xc6 else "is not"))
                goto(pc + a, " ")
                goto(nx)
                return out, outs
            elif op == 0xa7:
                goto(pc + a)
                return out, outs
            elif op in (0xaa, 0xab):
                x = pop()
                emit("sw = conc(%s)" % x)
                tab = self.name({k: num[t] for k, t in a[0]}, "w")
                for k, t in a[0]:
                    outs.append((t, list(st)))
                outs.append((a[1], list(st)))
                emit("b = %s.get(sw, %d)" % (tab, num[a[1]]))
                emit("continue")
                return out, outs
            elif 0xac <= op <= 0xb0:
                emit("return %s" % pop())
                return out, outs
            elif op == 0xb1:
                emit("return")
                return out, outs
            elif op in (0xb2, 0xb3):
                c, n, d = cf.ref(a)
                k = self.name(None, "g")
                self.ns[k] = vm.lazy_static(self.ns, k, c, n)
                at = vm.static_attr(n)
                if op == 0xb2:
                    emit("%s = %s().%s" % (push(cat(d)), k, at))
                else:
                    emit("%s().%s = %s" % (k, at, pop()))
            elif op in (0xb4, 0xb5):
                c, n, d = cf.ref(a)
                at = vm.field_attr(c, n)
                if op == 0xb4:
                    o = pop()
                    emit("%s = %s.%s" % (push(cat(d)), o, at))
                else:
                    v, o = pop(), pop()
                    emit("%s.%s = %s" % (o, at, v))
            elif 0xb6 <= op <= 0xb9:
                c, n, d = cf.ref(a)
                args, ret = split_desc(d)
                vs = [pop() for _ in args][::-1]
                if op == 0xb8:
                    k = self.name(None, "c")
                    self.ns[k] = lazy(self.ns, k, c, n, d, True)
                    e = "%s(%s)" % (k, ", ".join(vs))
                else:
                    o = pop()
                    if op == 0xb7 and n == "<init>" and c == "java/lang/String":
                        # strings are values here: the constructor gives one, in place of the object that stands on the stack
                        e = "%s = strnew(%s)" % (top(), ", ".join([repr(d)] + vs))
                    elif op == 0xb7:
                        k = self.name(None, "c")
                        self.ns[k] = lazy(self.ns, k, c, n, d, False)
                        e = "%s(%s)" % (k, ", ".join([o] + vs))
                        if n != "<init>":
                            e = "%s(%s)" % (k, ", ".join(["nn(%s)" % o] + vs))
                    else:
                        rcv = "V(%s)" % o if c in vm.open_types or c.startswith("[") else "%s.vt" % o
                        e = "%s[%r](%s)" % (rcv, n + d, ", ".join([o] + vs))
                emit(e if ret == "V" else "%s = %s" % (push(cat(ret)), e))
            elif op == 0xba:
                bsm, sargs, (n, d) = cf.indy(a)
                args, ret = split_desc(d)
                vs = [pop() for _ in args][::-1]
                f = self.name(vm.indy(bsm, sargs, n, d, self.cf.name), "d")
                emit("%s = %s(%s)" % (push(cat(ret)), f, ", ".join(vs)))
            elif op == 0xbb and cf.cname(a) == "java/lang/String":
                emit("%s = None" % push(1))
            elif op == 0xbb:
                k = self.name(None, "n")
                self.ns[k] = vm.lazy_new(self.ns, k, cf.cname(a))
                emit("%s = %s()" % (push(1), k))
            elif op == 0xbc:
                t = top()
                emit("%s = newarr(%r, %s)" % (t, {4: "[Z", 5: "[C", 6: "[F", 7: "[D", 8: "[B", 9: "[S", 10: "[I", 11: "[J"}[a], t))
            elif op == 0xbd:
                t = top()
                c = cf.cname(a)
                emit("%s = newarr(%r, %s)" % (t, "[" + (c if c.startswith("[") else "L" + c + ";"), t))
            elif op == 0xbe:
                t = top()
                emit("%s = alen(%s)" % (t, t))
            elif op == 0xbf:
                emit("throw(%s)" % pop())
                return out, outs
            elif op == 0xc0:
                t = top()
                emit("checkcast(%s, %r)" % (t, cf.cname(a)))
            elif op == 0xc1:
                t = top()
                emit("%s = 1 if instof(%s, %r) else 0" % (t, t, cf.cname(a)))
            elif op in (0xc2, 0xc3):
                pop()
            elif op == 0xc5:
                vs = [pop() for _ in range(a[1])][::-1]
                emit("%s = multi(%r, [%s])" % (push(1), cf.cname(a[0]), ", ".join(vs)))
            else:
                raise NotImplementedError("opcode %#x" % op)
            pc = nx
            if pc in num:
                goto(pc)
                return out, outs

    def stackop(self, op, st, emit):
        """dup family: permutes variables according to the categories of the operands"""
        n = len(st)
        v = lambda i: "s%d" % (n - 1 - i)
        if op == 0x59:                                             # dup
            emit("s%d = %s" % (n, v(0)))
            st.append(st[-1])
        elif op == 0x5f:                                           # swap
            emit("%s, %s = %s, %s" % (v(0), v(1), v(1), v(0)))
            st[-1], st[-2] = st[-2], st[-1]
        else:
            # number of stack entries duplicated, and how many below they go
            if op == 0x5a:
                k, d = 1, 1
            elif op == 0x5b:
                k, d = 1, (1 if st[-2] == 2 else 2)
            elif op == 0x5c:
                k, d = (1 if st[-1] == 2 else 2), 0
            elif op == 0x5d:
                k = 1 if st[-1] == 2 else 2
                d = 1
            else:
                k = 1 if st[-1] == 2 else 2
                d = 1 if st[-1 - k] == 2 else 2
            topv = st[n - k:]
            mid = st[n - k - d:n - k]
            src = ["s%d" % i for i in range(n - k, n)] + ["s%d" % i for i in range(n - k - d, n - k)] + ["s%d" % i for i in range(n - k, n)]
            dst = ["s%d" % i for i in range(n - k - d, n + k)]
            emit("%s = %s" % (", ".join(dst), ", ".join(src)))
            st[n - k - d:] = topv + mid + topv

    def arith(self, op, st, emit):
        st.pop()
        y = "s%d" % len(st)
        x = "s%d" % (len(st) - 1)
        k, t = divmod(op - 0x60, 4)                                # add sub mul div rem; int long float double
        if t < 2:
            w = ("w32", "w64")[t]
            if k < 3:
                emit("%s = %s(%s %s %s)" % (x, w, x, "+-*"[k], y))
            else:
                emit("%s = %s(%s(%s, %s))" % (x, w, ("idiv", "irem")[k - 3], x, y))
        else:
            e = ("%s + %s", "%s - %s", "%s * %s", "fdiv(%s, %s)", "frem(%s, %s)")[k] % (x, y)
            emit("%s = %s" % (x, "d2f(%s)" % e if t == 2 else e))
