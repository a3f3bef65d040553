"""Interpreter for LLVM IR (as clang emits it without optimisation) over symbolic doubles.

Doubles are numbers of the engine (exact reals) or Python floats; integers, booleans and pointers are concrete: a
comparison of doubles forks the path.  Memory is a set of objects; every access outside an object, to a released object or
of an uninitialised cell raises MemoryFault."""
import math
import os
import re
import struct
import subprocess
import tempfile

from . import engine as E


class MemoryFault(Exception):
    """The C++ code accesses memory it must not access."""
    repo_fault = True


class Obj:
    __slots__ = ("size", "cells", "alive", "name", "heap")

    def __init__(self, size, name, heap=False):
        self.size, self.cells, self.alive, self.name, self.heap = size, {}, True, name, heap


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def key(self):
        return (id(self.obj), self.off)


NULL = Ptr(None, 0)
_tok = re.compile(r'\s*("(?:[^"])*"|%"[^"]*"|@"[^"]*"|[%@][-\w.$]+|![\w.]*|#\d+|0x[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[\w.$]+|\.\.\.|.)')
_ATTR = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "noalias", "signext", "zeroext", "inreg", "returned",
         "inbounds", "nsw", "nuw", "exact", "tail", "musttail", "notail", "fastcc", "ccc", "dso_local", "local_unnamed_addr",
         "unnamed_addr", "volatile", "nneg", "immarg", "noinline", "captures", "disjoint", "samesign", "internal", "linkonce_odr",
         "weak_odr", "comdat", "hidden", "private", "noreturn", "nounwind", "swiftself", "allocptr", "writable", "dead_on_unwind"}


def toks(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = _tok.match(s, i)
        t = m.group(1)
        i = m.end()
        if t == ";":
            break
        out.append(t)
    return out


class Parser:
    def __init__(self, ts):
        self.t, self.i = ts, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise E.Unsupported("LLVM IR: expected %r in %s" % (x, " ".join(self.t)))

    def attrs(self):
        while True:
            p = self.peek()
            if p in _ATTR:
                self.next()
                if self.peek() == "(":
                    self.skip_paren()
            elif p == "align":
                self.next()
                if self.peek() == "(":
                    self.skip_paren()
                else:
                    self.next()
            elif p in ("dereferenceable", "dereferenceable_or_null", "range", "sret", "byval", "memory", "initializes", "nofpclass",
                       "allocsize", "addrspace"):
                self.next()
                if self.peek() == "(":
                    self.skip_paren()
            else:
                return

    def skip_paren(self):
        d = 0
        while True:
            x = self.next()
            d += x == "("
            d -= x == ")"
            if d == 0:
                return

    def type(self):
        t = self.next()
        if t == "{":
            fs = []
            while not self.eat("}"):
                fs.append(self.type())
                self.eat(",")
            return ("struct", tuple(fs))
        if t == "[":
            n = int(self.next())
            self.need("x")
            e = self.type()
            self.need("]")
            return ("array", n, e)
        if t == "<":
            raise E.Unsupported("LLVM IR: vector type")
        if t[0] == "%":
            return ("named", t)
        if re.fullmatch(r"i\d+", t):
            return ("int", int(t[1:]))
        if t in ("double", "float", "ptr", "void", "label", "metadata", "x86_fp80"):
            return (t,)
        raise E.Unsupported("LLVM IR: type %s" % t)

    def value(self, ty):
        t = self.next()
        if t[0] == "%":
            return ("r", t)
        if t[0] == "@":
            return ("g", t)
        if t == "null":
            return ("c", NULL)
        if t in ("true", "false"):
            return ("c", t == "true")
        if t in ("undef", "poison"):
            return ("undef", None)
        if t == "zeroinitializer":
            return ("zero", ty)
        if ty == ("double",):
            if t.startswith("0x"):
                return ("c", struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0])
            return ("c", float(t))
        if ty[0] == "int":
            v = int(t)
            return ("c", bool(v) if ty[1] == 1 else v)
        if t == "{":
            fs = []
            for f in ty[1]:
                ft = self.type()
                fs.append(self.value(ft))
                self.eat(",")
            self.need("}")
            return ("agg", fs)
        raise E.Unsupported("LLVM IR: constant %s" % t)

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


class Fn:
    def __init__(self, name):
        self.name, self.params, self.blocks, self.entry = name, [], {}, None


class Module:
    """Parsed IR; ctx-independent, so it is parsed once per process."""

    def __init__(self, text):
        self.fns, self.types, self.globals, self.decl = {}, {}, {}, set()
        self.parsed = {}
        lines = text.splitlines()
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("%") and " = type " in ln:
                n, d = ln.split(" = type ", 1)
                if d.strip() != "opaque":
                    self.types[n.strip()] = Parser(toks(d)).type()
            elif ln.startswith("define"):
                p = Parser(toks(ln))
                while p.peek()[0] != "@":
                    p.next()
                f = Fn(p.next())
                p.need("(")
                while not p.eat(")"):
                    if p.eat("..."):
                        continue
                    ty = p.type()
                    p.attrs()
                    f.params.append((ty, p.next()))
                    p.eat(",")
                i += 1
                cur, body = None, []
                while not lines[i].startswith("}"):
                    s = lines[i].strip()
                    m = re.match(r'^([-\w.$]+|"[^"]*"):', s)
                    if m and not lines[i].startswith(" "):
                        cur = "%" + m.group(1)
                        f.blocks[cur] = body = []
                    elif s:
                        if cur is None:
                            cur = "%entry0"
                            f.blocks[cur] = body = []
                        if f.entry is None:
                            f.entry = cur
                        body.append(s)
                        if s.startswith("switch") and s.endswith("["):
                            while "]" not in lines[i]:
                                i += 1
                                body[-1] += " " + lines[i].strip()
                    i += 1
                self.fns[f.name] = f
            elif ln.startswith("declare"):
                m = re.search(r"@[-\w.$]+", ln)
                if m:
                    self.decl.add(m.group(0))
            elif ln.startswith("@"):
                self.globals[ln.split(" ", 1)[0]] = ln
            i += 1

    def size(self, ty):
        k = ty[0]
        if k == "int":
            return 1 if ty[1] <= 8 else 2 if ty[1] <= 16 else 4 if ty[1] <= 32 else 8 if ty[1] <= 64 else 16
        if k in ("double", "ptr"):
            return 8
        if k == "float":
            return 4
        if k == "array":
            return ty[1] * self.size(ty[2])
        if k == "named":
            if ty[1] not in self.types:
                raise E.Unsupported("LLVM IR: opaque type %s" % ty[1])
            return self.size(self.types[ty[1]])
        if k == "struct":
            o, a = 0, 1
            for f in ty[1]:
                al = self.align(f)
                o = (o + al - 1) // al * al + self.size(f)
                a = max(a, al)
            return (o + a - 1) // a * a
        raise E.Unsupported("LLVM IR: size of %s" % (ty,))

    def align(self, ty):
        if ty[0] == "named":
            return self.align(self.types[ty[1]])
        if ty[0] == "array":
            return self.align(ty[2])
        if ty[0] == "struct":
            return max([1] + [self.align(f) for f in ty[1]])
        return self.size(ty)

    def field(self, ty, i):
        """Offset and type of element i."""
        if ty[0] == "named":
            return self.field(self.types[ty[1]], i)
        if ty[0] == "array":
            return i * self.size(ty[2]), ty[2]
        o = 0
        for j, f in enumerate(ty[1]):
            al = self.align(f)
            o = (o + al - 1) // al * al
            if j == i:
                return o, f
            o += self.size(f)
        raise E.Unsupported("LLVM IR: field")

    def block(self, fn, name):
        k = (fn.name, name)
        if k not in self.parsed:
            self.parsed[k] = [self.instr(s) for s in fn.blocks[name]]
        return self.parsed[k]

    def instr(self, s):
        p = Parser(toks(s))
        dst = None
        if p.peek()[0] == "%" and p.peek(1) == "=":
            dst = p.next()
            p.next()
        p.attrs()
        op = p.next()
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fcmp", "select", "phi", "call"):
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
                raise E.Unsupported("LLVM IR: relaxed floating point")
        p.attrs()
        if op == "alloca":
            ty = p.type()
            n = ("c", 1)
            if p.eat(",") and p.peek() != "align":
                n = p.tv()[1]
            return (op, dst, ty, n)
        if op == "load":
            ty = p.type()
            p.need(",")
            return (op, dst, ty, p.tv()[1])
        if op == "store":
            ty, v = p.tv()
            p.need(",")
            return (op, None, ty, v, p.tv()[1])
        if op == "getelementptr":
            ty = p.type()
            p.need(",")
            base = p.tv()[1]
            idx = []
            while p.eat(","):
                if p.peek()[0] == "!":
                    break
                idx.append(p.tv()[1])
            return (op, dst, ty, base, idx)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul",
                  "fdiv", "frem"):
            p.attrs()
            ty, a = p.tv()
            p.need(",")
            return (op, dst, ty, a, p.value(ty))
        if op == "fneg":
            ty, a = p.tv()
            return (op, dst, ty, a)
        if op in ("icmp", "fcmp"):
            p.attrs()
            pred = p.next()
            ty, a = p.tv()
            p.need(",")
            return (op, dst, pred, ty, a, p.value(ty))
        if op in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fpext", "fptrunc", "freeze"):
            p.attrs()
            ty, a = p.tv()
            to = ty
            if op != "freeze":
                p.need("to")
                to = p.type()
            return (op, dst, ty, a, to)
        if op == "br":
            if p.eat("label"):
                return (op, None, None, p.next(), None)
            p.next()
            c = p.value(("int", 1))
            p.need(",")
            p.need("label")
            a = p.next()
            p.need(",")
            p.need("label")
            return (op, None, c, a, p.next())
        if op == "switch":
            ty, v = p.tv()
            p.need(",")
            p.need("label")
            d = p.next()
            p.need("[")
            cases = []
            while not p.eat("]"):
                cv = p.tv()[1]
                p.need(",")
                p.need("label")
                cases.append((cv[1], p.next()))
            return (op, None, ty, v, d, cases)
        if op == "ret":
            if p.eat("void"):
                return (op, None, None)
            return (op, None, p.tv()[1])
        if op == "phi":
            ty = p.type()
            inc = []
            while True:
                p.need("[")
                v = p.value(ty)
                p.need(",")
                inc.append((p.next(), v))
                p.need("]")
                if not p.eat(",") or p.peek() != "[":
                    break
            return (op, dst, inc)
        if op == "select":
            c = p.tv()[1]
            p.need(",")
            a = p.tv()[1]
            p.need(",")
            return (op, dst, c, a, p.tv()[1])
        if op in ("call", "invoke"):
            p.attrs()
            ty = p.type()
            if p.peek() == "(":
                p.skip_paren()
            fn = p.next()
            p.need("(")
            args = []
            while not p.eat(")"):
                ty = p.type()
                p.attrs()
                if ty == ("metadata",):
                    raise E.Unsupported("LLVM IR: metadata argument")
                args.append(p.value(ty))
                p.eat(",")
            to = None
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.next()
                p.need("label")
                to = p.next()
            return ("call", dst, fn, args, to)
        if op == "extractvalue":
            ty, a = p.tv()
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return (op, dst, a, idx)
        if op == "insertvalue":
            ty, a = p.tv()
            p.need(",")
            b = p.tv()[1]
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return (op, dst, ty, a, b, idx)
        if op == "unreachable":
            return (op, None)
        raise E.Unsupported("LLVM IR: instruction %s" % s[:80])


def _signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def _isnan(v):
    return isinstance(v, float) and math.isnan(v)


def _fdiv(a, b):
    if not E.issym(a) and not E.issym(b) and b == 0:
        if a == 0 or _isnan(a):
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


class Machine:
    def __init__(self, mod, max_steps=3000000):
        self.m, self.steps, self.max_steps = mod, 0, max_steps
        self.globals, self.depth = {}, 0
        self.called = set()

    # memory
    def array(self, vals, name):
        """A new object holding doubles."""
        o = Obj(8 * len(vals), name, True)
        for i, v in enumerate(vals):
            o.cells[8 * i] = (8, v)
        return Ptr(o, 0)

    def doubles(self, p, n):
        return [self.load(("double",), Ptr(p.obj, p.off + 8 * i)) for i in range(n)]

    def check(self, p, size, what):
        if not isinstance(p, Ptr) or p.obj is None:
            raise MemoryFault("%s through a null or wild pointer" % what)
        if not p.obj.alive:
            raise MemoryFault("%s of released memory (%s)" % (what, p.obj.name))
        if p.off < 0 or p.off + size > p.obj.size:
            raise MemoryFault("%s outside of %s (offset %d, size %d of %d)" % (what, p.obj.name, p.off, size, p.obj.size))

    def load(self, ty, p):
        if ty[0] in ("struct", "named", "array"):
            n = len(self.m.types[ty[1]][1]) if ty[0] == "named" else ty[1] if ty[0] == "array" else len(ty[1])
            out = []
            for i in range(n):
                o, t = self.m.field(ty, i)
                out.append(self.load(t, Ptr(p.obj, p.off + o)))
            return out
        s = self.m.size(ty)
        self.check(p, s, "read")
        c = p.obj.cells.get(p.off)
        if c is not None and c[0] == s:
            v = c[1]
            if v is None:
                raise MemoryFault("read of an undefined value in %s" % p.obj.name)
            if ty == ("double",) and not (isinstance(v, float) or E.issym(v)):
                if isinstance(v, int) and v == 0:
                    return 0.0
                if E.is_num(v):
                    return float(v)
                raise E.Unsupported("LLVM IR: reinterpreted memory")
            if ty == ("ptr",) and not isinstance(v, Ptr):
                if v == 0:
                    return NULL
                raise E.Unsupported("LLVM IR: reinterpreted memory")
            if ty[0] == "int" and ty[1] == 1:
                return bool(v & 1)
            if ty[0] == "int" and (isinstance(v, float) or E.issym(v)):
                raise E.Unsupported("LLVM IR: reinterpreted memory")
            return v
        bs = [p.obj.cells.get(p.off + i) for i in range(s)]
        if all(b == (1, 0) for b in bs):
            return 0.0 if ty == ("double",) else NULL if ty == ("ptr",) else 0
        if all(b is None for b in bs):
            raise MemoryFault("read of uninitialised memory (%s)" % p.obj.name)
        raise E.Unsupported("LLVM IR: access of part of a cell")

    def wipe(self, p, s):
        cells = p.obj.cells
        for o in range(p.off - 7, p.off + s):
            c = cells.get(o)
            if c is not None and o + c[0] > p.off:
                if o < p.off or o + c[0] > p.off + s:
                    raise E.Unsupported("LLVM IR: write of part of a cell")
                del cells[o]

    def store(self, ty, v, p):
        if ty[0] in ("struct", "named", "array"):
            for i, x in enumerate(v):
                o, t = self.m.field(ty, i)
                self.store(t, x, Ptr(p.obj, p.off + o))
            return
        s = self.m.size(ty)
        self.check(p, s, "write")
        c = p.obj.cells.get(p.off)
        if c is None or c[0] != s:
            self.wipe(p, s)
        if ty[0] == "int" and isinstance(v, bool):
            v = int(v)
        p.obj.cells[p.off] = (s, v)

    def copy(self, d, s, n):
        if n == 0:
            return
        self.check(s, n, "read")
        self.check(d, n, "write")
        got = []
        o = s.off
        while o < s.off + n:
            c = s.obj.cells.get(o)
            if c is None:
                o += 1
                continue
            if o + c[0] > s.off + n:
                raise E.Unsupported("LLVM IR: copy of part of a cell")
            got.append((o - s.off, c))
            o += c[0]
        self.wipe(d, n)
        for o, c in got:
            d.obj.cells[d.off + o] = c

    # evaluation
    def glob(self, g):
        if g in self.globals:
            return self.globals[g]
        ln = self.m.globals.get(g)
        if ln is None:
            raise E.Unsupported("LLVM IR: global %s" % g)
        m = re.match(r"\S+ = (?:\w+ )*?(?:global|constant) (.*)", ln)
        p = Parser(toks(m.group(1)))
        ty = p.type()
        o = Obj(self.m.size(ty), g)
        self.globals[g] = Ptr(o, 0)
        if p.peek() == "c":
            for i in range(o.size):
                o.cells[i] = (1, 0)
        elif ty[0] in ("int", "double", "ptr"):
            self.store(ty, self.val({}, p.value(ty)), Ptr(o, 0))
        elif p.peek() == "[":
            p.next()
            for i in range(ty[1]):
                et = p.type()
                self.store(et, self.val({}, p.value(et)), Ptr(o, i * self.m.size(et)))
                p.eat(",")
        elif p.peek() == "zeroinitializer":
            for i in range(o.size):
                o.cells[i] = (1, 0)
        else:
            raise E.Unsupported("LLVM IR: global %s" % g)
        return self.globals[g]

    def zero(self, ty):
        if ty[0] == "named":
            ty = self.m.types[ty[1]]
        if ty[0] == "struct":
            return [self.zero(f) for f in ty[1]]
        if ty[0] == "array":
            return [self.zero(ty[2]) for _ in range(ty[1])]
        return 0.0 if ty == ("double",) else NULL if ty == ("ptr",) else 0

    def val(self, env, v):
        k = v[0]
        if k == "r":
            return env[v[1]]
        if k == "c":
            return v[1]
        if k == "g":
            if v[1] in self.m.fns or v[1] in self.m.decl:
                return v
            return self.glob(v[1])
        if k == "undef":
            return None
        if k == "zero":
            return self.zero(v[1])
        if k == "agg":
            return [self.val(env, x) for x in v[1]]
        raise E.Unsupported("LLVM IR: value")

    def call(self, name, args):
        f = self.m.fns.get(name)
        if f is None:
            return self.extern(name, args)
        self.called.add(name)
        self.depth += 1
        if self.depth > 200:
            raise E.Unsupported("LLVM IR: recursion")
        env = {n: a for (_, n), a in zip(f.params, args)}
        local = []
        blk, prev = f.entry, None
        try:
            while True:
                nxt = None
                ins = self.m.block(f, blk)
                phis = {}
                for k, x in enumerate(ins):
                    if x[0] != "phi":
                        break
                    for b, v in x[2]:
                        if b == prev:
                            phis[x[1]] = self.val(env, v)
                env.update(phis)
                for x in ins:
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise E.Unsupported("LLVM IR: more than %d steps" % self.max_steps)
                    op = x[0]
                    if op == "phi":
                        continue
                    if op == "br":
                        nxt = x[3] if x[2] is None or self.val(env, x[2]) else x[4]
                        break
                    if op == "ret":
                        return None if x[2] is None else self.val(env, x[2])
                    if op == "switch":
                        v = self.val(env, x[3])
                        nxt = x[4]
                        for c, lab in x[5]:
                            if int(c) == int(v):
                                nxt = lab
                                break
                        break
                    if op == "unreachable":
                        raise MemoryFault("unreachable code reached in %s" % name)
                    if op == "alloca":
                        o = Obj(self.m.size(x[2]) * int(self.val(env, x[3])), x[1])
                        local.append(o)
                        env[x[1]] = Ptr(o, 0)
                    elif op == "call":
                        fn = self.val(env, ("r", x[2])) if x[2][0] == "%" else ("g", x[2])
                        if not (isinstance(fn, tuple) and fn[0] == "g"):
                            raise E.Unsupported("LLVM IR: indirect call")
                        r = self.call(fn[1], [self.val(env, a) for a in x[3]])
                        if x[1] is not None:
                            env[x[1]] = r
                        if x[4] is not None:
                            nxt = x[4]
                            break
                    else:
                        r = self.step(env, x)
                        if x[1] is not None:
                            env[x[1]] = r
                prev, blk = blk, nxt
                if nxt is None:
                    raise E.Unsupported("LLVM IR: block without terminator")
        finally:
            self.depth -= 1
            for o in local:
                o.alive = False

    def step(self, env, x):
        op, V = x[0], lambda v: self.val(env, v)
        if op == "load":
            return self.load(x[2], V(x[3]))
        if op == "store":
            return self.store(x[2], V(x[3]), V(x[4]))
        if op == "getelementptr":
            b = V(x[3])
            if not isinstance(b, Ptr):
                raise MemoryFault("address computed from an undefined pointer")
            off, ty = b.off, x[2]
            for k, i in enumerate(x[4]):
                i = int(V(i))
                if k == 0:
                    off += i * self.m.size(ty)
                else:
                    o, ty = self.m.field(ty, i)
                    off += o
            return Ptr(b.obj, off)
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = V(x[3]), V(x[4])
            if a is None or b is None:
                raise MemoryFault("arithmetic on an undefined value")
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fmul":
                return a * b
            return _fdiv(a, b)
        if op == "fneg":
            return -V(x[3])
        if op == "fcmp":
            a, b, pred = V(x[4]), V(x[5]), x[2]
            nan = _isnan(a) or _isnan(b)
            if pred in ("true", "false"):
                return pred == "true"
            if pred == "ord":
                return not nan
            if pred == "uno":
                return nan
            if nan:
                return pred[0] == "u"
            r = {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b,
                 "ge": lambda: a >= b}[pred[1:]]()
            return bool(r)
        if op == "icmp":
            a, b, pred, ty = V(x[4]), V(x[5]), x[2], x[3]
            if a is None or b is None:
                raise MemoryFault("comparison of an undefined value")
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                a = NULL if a == 0 else a
                b = NULL if b == 0 else b
                if pred in ("eq", "ne"):
                    return (a.obj is b.obj and a.off == b.off) == (pred == "eq")
                if a.obj is not b.obj:
                    raise MemoryFault("comparison of pointers to different objects")
                a, b, w = a.off, b.off, 64
            else:
                a, b = int(a), int(b)
                w = ty[1]
            if pred[0] == "u":
                a, b = a & ((1 << w) - 1), b & ((1 << w) - 1)
            elif pred[0] == "s":
                a, b = _signed(a, w), _signed(b, w)
            else:
                a, b = a & ((1 << w) - 1), b & ((1 << w) - 1)
                return (a == b) == (pred == "eq")
            p = pred[1:]
            return a < b if p == "lt" else a <= b if p == "le" else a > b if p == "gt" else a >= b
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a, b, w = V(x[3]), V(x[4]), x[2][1]
            if a is None or b is None:
                raise MemoryFault("arithmetic on an undefined value")
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                    return a.off - b.off
                raise E.Unsupported("LLVM IR: arithmetic on addresses")
            if w == 1:
                a, b = bool(a), bool(b)
                return {"and": a and b, "or": a or b, "xor": a != b, "add": a != b}[op]
            if op == "add":
                r = a + b
            elif op == "sub":
                r = a - b
            elif op == "mul":
                r = a * b
            elif op in ("sdiv", "srem"):
                a, b = _signed(a, w), _signed(b, w)
                if b == 0:
                    raise MemoryFault("division by zero")
                q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
                r = q if op == "sdiv" else a - q * b
            elif op in ("udiv", "urem"):
                a, b = a & ((1 << w) - 1), b & ((1 << w) - 1)
                if b == 0:
                    raise MemoryFault("division by zero")
                r = a // b if op == "udiv" else a % b
            elif op == "shl":
                r = a << b
            elif op == "lshr":
                r = (a & ((1 << w) - 1)) >> b
            elif op == "ashr":
                r = _signed(a, w) >> b
            else:
                r = a & b if op == "and" else a | b if op == "or" else a ^ b
            return _signed(r, w)
        if op in ("sext", "zext", "trunc"):
            a, w, to = V(x[3]), x[2][1], x[4][1]
            if a is None:
                return None
            if op == "zext":
                return int(a) & ((1 << w) - 1)
            if op == "sext":
                return (-1 if a else 0) if w == 1 else _signed(a, w)
            return bool(a & 1) if to == 1 else _signed(a, to)
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze", "fpext", "fptrunc"):
            if op in ("fpext", "fptrunc"):
                raise E.Unsupported("LLVM IR: single precision")
            v = V(x[3])
            if op == "bitcast" and x[2] != x[4]:
                raise E.Unsupported("LLVM IR: reinterpretation of a number")
            return v
        if op in ("sitofp", "uitofp"):
            a = V(x[3])
            return float(int(a) if op == "sitofp" else int(a) & ((1 << x[2][1]) - 1))
        if op == "fptosi":
            a = V(x[3])
            if E.issym(a):
                raise E.Unsupported("LLVM IR: conversion of a symbolic number")
            return int(a)
        if op == "select":
            return V(x[3]) if V(x[2]) else V(x[4])
        if op == "extractvalue":
            v = V(x[2])
            for i in x[3]:
                v = v[i]
            return v
        if op == "insertvalue":
            v = V(x[3])
            if v is None:
                t = x[2]
                t = self.m.types[t[1]] if t[0] == "named" else t
                v = [None] * (t[1] if t[0] == "array" else len(t[1]))
            v = list(v)
            if len(x[5]) != 1:
                raise E.Unsupported("LLVM IR: nested insertvalue")
            v[x[5][0]] = V(x[4])
            return v
        raise E.Unsupported("LLVM IR: %s" % op)

    def extern(self, name, a):
        n = name[1:]
        if n in ("_Znam", "_Znwm", "malloc", "_ZnamRKSt9nothrow_t", "_ZnwmRKSt9nothrow_t"):
            return Ptr(Obj(int(a[0]), "allocated memory", True), 0)
        if n == "calloc":
            o = Obj(int(a[0]) * int(a[1]), "allocated memory", True)
            for i in range(o.size):
                o.cells[i] = (1, 0)
            return Ptr(o, 0)
        if n in ("_ZdaPv", "_ZdlPv", "free", "_ZdaPvm", "_ZdlPvm"):
            if a[0].obj is None:
                return None
            if not a[0].obj.heap or not a[0].obj.alive or a[0].off:
                raise MemoryFault("release of memory that is not allocated")
            a[0].obj.alive = False
            return None
        if n.startswith(("llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.dbg", "llvm.donothing")):
            return None
        if n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove"):
            self.copy(a[0], a[1], int(a[2]))
            return a[0]
        if n.startswith("llvm.memset") or n == "memset":
            s = int(a[2])
            if s:
                self.check(a[0], s, "write")
                if int(a[1]) != 0:
                    raise E.Unsupported("LLVM IR: memset")
                self.wipe(a[0], s)
                for i in range(s):
                    a[0].obj.cells[a[0].off + i] = (1, 0)
            return a[0]
        if n.startswith("llvm.ctlz"):
            w = int(n.rsplit(".i", 1)[1])
            return w - (int(a[0]) & ((1 << w) - 1)).bit_length()
        if n.startswith(("llvm.umul.with.overflow", "llvm.uadd.with.overflow", "llvm.smul.with.overflow", "llvm.sadd.with.overflow")):
            w = int(n.rsplit(".i", 1)[1])
            x, y = int(a[0]), int(a[1])
            if n[5] == "u":
                x, y = x & ((1 << w) - 1), y & ((1 << w) - 1)
                r = x * y if "mul" in n else x + y
                return [_signed(r, w), r >> w != 0]
            r = x * y if "mul" in n else x + y
            return [_signed(r, w), _signed(r, w) != r]
        if n.startswith(("llvm.smax", "llvm.smin")):
            return (max if "max" in n else min)(int(a[0]), int(a[1]))
        if n.startswith(("llvm.umax", "llvm.umin", "llvm.usub.sat")):
            w = int(n.rsplit(".i", 1)[1])
            x, y = (int(v) & ((1 << w) - 1) for v in a[:2])
            return _signed(max(x, y) if "umax" in n else min(x, y) if "umin" in n else max(0, x - y), w)
        if n in ("fabs",) or n.startswith("llvm.fabs"):
            return abs(a[0])
        if n in ("fmin", "fmax") or n.startswith(("llvm.minnum", "llvm.maxnum")):
            lo = n == "fmin" or n.startswith("llvm.minnum")
            if _isnan(a[0]) or _isnan(a[1]):
                return a[1] if _isnan(a[0]) else a[0]
            return a[0] if bool((a[0] < a[1]) if lo else (a[0] > a[1])) else a[1]
        if n.startswith("llvm.fmuladd") or n == "fma" or n.startswith("llvm.fma."):
            return a[0] * a[1] + a[2]
        if n == "abs" or n.startswith("llvm.abs"):
            return abs(int(a[0]))
        raise E.Unsupported("LLVM IR: call of %s" % n)


_mods = {}


def module(repo):
    """The IR of the repository's violations.h, compiled now (once per process and content)."""
    with open(os.path.join(repo, "violations.h"), "rb") as f:
        key = f.read()
    if key not in _mods:
        d = tempfile.mkdtemp(prefix="vfll")
        try:
            src, ll = os.path.join(d, "v.cpp"), os.path.join(d, "v.ll")
            with open(src, "w") as f:
                f.write('#include "%s/violations.h"\nextern "C" void vf_all(double*l,double*r,int k,int n,int m,double*v)'
                        '{computeAllViolations(l,r,k,n,m,v);}\n' % repo)
            r = subprocess.run(["clang++", "-S", "-emit-llvm", "-O0", "-ffp-contract=off", "-fno-exceptions", "-fno-discard-value-names",
                                "-o", ll, src], capture_output=True, text=True)
            if r.returncode:
                raise E.Unsupported("clang cannot compile violations.h: " + r.stderr[-300:])
            with open(ll) as f:
                _mods[key] = Module(f.read())
        finally:
            for n in ("v.cpp", "v.ll"):
                if os.path.exists(os.path.join(d, n)):
                    os.remove(os.path.join(d, n))
            os.rmdir(d)
    return _mods[key]
