"""The wrapper violations.pyx as Python: declarations are dropped, and a call of the C++ function gets the addresses taken."""
import os
import re

from . import engine as E


class Addr:
    def __init__(self, arr, idx):
        self.arr, self.idx = arr, idx


class _Take:
    def __init__(self, arr):
        self.arr = arr

    def __getitem__(self, idx):
        return Addr(self.arr, idx if isinstance(idx, tuple) else (idx,))


_CT = r"(?:const\s+)?(?:unsigned\s+)?(?:int|long|double|float|Py_ssize_t|size_t|bint|object)"


def translate(text):
    out, skip = [], None
    for ln in text.splitlines():
        ind = len(ln) - len(ln.lstrip())
        s = ln.strip()
        if skip is not None:
            if s and ind <= skip:
                skip = None
            else:
                continue
        if re.match(r"cdef\s+extern\b", s):
            skip = ind
            continue
        if s.startswith(("cimport ", "from libc", "from cython", "# distutils", "# cython")) or re.match(r"from\s+\S+\s+cimport", s):
            continue
        if s.startswith("@cython"):
            continue
        ln = re.sub(r"&\s*([A-Za-z_]\w*)\s*\[", r"_take(\1)[", ln)
        m = re.match(r"(\s*)(?:cpdef|cdef|def)\s+(?:inline\s+)?(?:%s\s+|void\s+)?(\w+)\s*\((.*)\)\s*(?:nogil|noexcept|except[^:]*)?\s*:(.*)$" % _CT, ln)
        if m:
            # commas inside brackets belong to a memoryview type
            parts, d, cur = [], 0, ""
            for ch in m.group(3):
                d += ch in "[("
                d -= ch in "])"
                if ch == "," and d == 0:
                    parts.append(cur)
                    cur = ""
                else:
                    cur += ch
            parts.append(cur)
            names = []
            for p in parts:
                p = re.sub(r"^\s*%s\s*(\[[^\]]*\])?\s*\*?\s+(?=\w)" % _CT, "", p.strip())
                p = re.sub(r"^\s*%s\s*\[[^\]]*\]\s*" % _CT, "", p)
                p = re.sub(r"^\s*np\.ndarray(\[[^\]]*\])?\s+", "", p)
                p = re.sub(r"\s+not\s+None", "", p)
                names.append(p)
            ln = "%sdef %s(%s):%s" % (m.group(1), m.group(2), ", ".join(names), m.group(4))
        else:
            m = re.match(r"(\s*)cdef\s+%s\s*(\[[^\]]*\])?\s*\*?\s*(\w+)\s*(=.*)?$" % _CT, ln)
            if m:
                ln = "%s%s %s" % (m.group(1), m.group(3), m.group(4)) if m.group(4) else "%spass" % m.group(1)
            elif re.match(r"\s*cdef\s+%s\s*(\[[^\]]*\])?\s+\w+(\s*,\s*\w+)+\s*$" % _CT, ln):
                ln = " " * ind + "pass"
            elif re.match(r"\s*with\s+nogil\s*:", ln):
                ln = " " * ind + "if True:"
            elif s.startswith(("cdef", "ctypedef", "cpdef")):
                raise E.Unsupported("violations.pyx: %s" % s)
        out.append(ln)
    return "\n".join(out) + "\n"


def load(repo, np, call):
    """compute_all_violations of the wrapper; call(name, args) stands for the C++ function."""
    path = os.path.join(repo, "violations.pyx")
    with open(path) as f:
        text = f.read()
    names = re.findall(r"^\s+void\s+(\w+)\s*\(", text, re.M)
    ns = {"__name__": "violations", "_take": _Take}
    for n in names:
        ns[n] = (lambda n: lambda *a: call(n, a))(n)
    src = translate(text)
    src = re.sub(r"^import numpy as (\w+)$", "", src, flags=re.M)
    m = re.search(r"^import numpy as (\w+)$", text, re.M)
    ns[m.group(1) if m else "np"] = np
    try:
        code = compile(src, path, "exec")
    except SyntaxError as e:
        raise E.Unsupported("violations.pyx: %s" % e)
    exec(code, ns)
    return ns["compute_all_violations"]


def _flat(arr):
    import itertools
    return [arr[i] for i in itertools.product(*[range(d) for d in arr.shape])]


def _offset(arr, idx):
    off = 0
    for d, i in zip(arr.shape, idx):
        i = int(i)
        off = off * d + (i + d if i < 0 else i)
    return off


def on_machine(machine, fn="@vf_all"):
    """call(...) for load(): the C++ function runs on an interpreter of its LLVM IR."""
    import itertools
    from . import llvm

    def call(name, args):
        objs, vals = {}, []
        for a in args:
            if isinstance(a, Addr):
                if id(a.arr) not in objs:
                    objs[id(a.arr)] = (machine.array(_flat(a.arr), "the array of %d doubles" % len(_flat(a.arr))), a.arr)
                p = objs[id(a.arr)][0]
                vals.append(llvm.Ptr(p.obj, 8 * _offset(a.arr, a.idx)))
            else:
                vals.append(int(a))
        machine.call(fn, vals)
        for p, arr in objs.values():
            out = machine.doubles(p, p.obj.size // 8)
            for i, v in zip(itertools.product(*[range(d) for d in arr.shape]), out):
                if v is not arr[i]:
                    arr[i] = v
    return call


def compiled(lib):
    """call(...) for load(): the compiled C++ function (real numpy arrays)."""
    import ctypes
    P = ctypes.POINTER(ctypes.c_double)

    def call(name, args):
        vals = []
        for a in args:
            if isinstance(a, Addr):
                base = ctypes.addressof(a.arr.ctypes.data_as(P).contents) + 8 * _offset(a.arr, a.idx)
                vals.append(ctypes.cast(base, P))
            else:
                vals.append(int(a))
        lib.vf_all(*vals)
    return call
