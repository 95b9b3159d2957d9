# -*- coding: utf-8 -*-
"""
Symbolic interpreter for the LLVM IR of QuakeMigrate's C kernels.

The IR is produced by clang from /repo's current C source on every run (-O0, OpenMP
on).  Integers are exact (overflow of a signed operation is an assertion), doubles are
reals (NaN/inf only appear through a division by zero, which is made explicit), `exp`,
`log`, ... are uninterpreted.  Every load and store is checked against the extent of the
object it touches.  OpenMP parallel regions are run thread by thread with static (or
dispatched) schedules; all accesses to shared memory are logged per thread, so that
`races()` can ask the solver for two threads touching the same element.
"""

import ctypes
import math
import os
import re
import subprocess
import tempfile
from fractions import Fraction

import numpy as np

from qmv import sym
from qmv.sym import Sym, Inconclusive, is_sym, lift, z3, mkbool

SRC = os.environ.get("QMV_REPO", "/repo") + "/quakemigrate/core/src"
UNDEF = object()

TYPE_SIZE = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "double": 8, "float": 4, "ptr": 8}


class MemoryError_(Exception):
    pass


class Region:
    """A contiguous object: `size` bytes, elements of `esz` bytes."""

    def __init__(self, name, esz, elems, shared=True):
        self.name = name
        self.esz = esz
        self.elems = elems
        self.shared = shared
        self.owner = None

    @property
    def count(self):
        return len(self.elems)

    @property
    def size(self):
        return self.esz * self.count


class BigRegion(Region):
    """An object of symbolic length whose contents are unconstrained."""

    def __init__(self, name, esz, count, integer=None):
        super().__init__(name, esz, [])
        self._count = count
        self.integer = integer
        self.n = 0

    @property
    def count(self):
        return self._count

    def fresh(self):
        self.n += 1
        nm = f"{self.name}#{self.n}"
        if self.integer:
            return sym.CTX.int(nm, *self.integer)
        return sym.CTX.real(nm, -1000, 1000)


class Ptr:
    __slots__ = ("reg", "off")

    def __init__(self, reg, off=0):
        self.reg = reg
        self.off = off


NULL = Ptr(None, 0)


def tysize(t, structs):
    t = t.strip()
    if t in TYPE_SIZE:
        return TYPE_SIZE[t]
    if t.startswith("%"):
        return struct_layout(t, structs)[1]
    m = re.match(r"\[(\d+) x (.*)\]$", t)
    if m:
        return int(m.group(1)) * tysize(m.group(2), structs)
    m = re.match(r"i(\d+)$", t)
    if m:
        return (int(m.group(1)) + 7) // 8
    raise Inconclusive(f"IR type {t}")


def struct_layout(t, structs):
    offs, off, align = [], 0, 1
    for f in structs[t]:
        s = tysize(f, structs)
        a = min(s, 8)
        align = max(align, a)
        off = (off + a - 1) // a * a
        offs.append(off)
        off += s
    return offs, (off + align - 1) // align * align


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "([{<":
            depth += 1
        elif ch in ")]}>":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


ATTRS = {
    "noundef", "nonnull", "noalias", "nocapture", "readonly", "signext", "zeroext",
    "writeonly", "returned", "immarg", "inreg", "readnone",
}


def parse_typed(s):
    """'ptr noundef nonnull align 8 dereferenceable(8) %x' -> ('ptr', '%x')"""
    s = re.sub(r"dereferenceable(_or_null)?\(\d+\)", "", s)
    s = re.sub(r"align \d+", "", s)
    toks = s.split()
    ty = toks[0]
    rest = toks[1:]
    if ty.startswith("[") and not ty.endswith("]"):
        while not ty.endswith("]"):
            ty += " " + rest.pop(0)
    rest = [t for t in rest if t not in ATTRS]
    return ty, " ".join(rest)


class Module:
    def __init__(self, text):
        self.structs = {}
        self.funcs = {}
        self.globals = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.splitlines()
        i = 0
        while i < len(lines):
            ln = lines[i]
            m = re.match(r"(%[\w.\"]+) = type \{ (.*) \}", ln)
            if m:
                self.structs[m.group(1)] = split_args(m.group(2))
            m = re.match(r"(@[\w.\"$]+) = ", ln)
            if m:
                self.globals[m.group(1)] = ln
            if ln.startswith("define"):
                m = re.match(r"define .*?(\S+) @([\w.$]+)\((.*)\)", ln)
                ret, name, args = m.groups()
                # argument list ends at the matching parenthesis
                start = ln.index("@" + name) + len(name) + 2
                depth, j = 1, start
                while depth:
                    if ln[j] == "(":
                        depth += 1
                    elif ln[j] == ")":
                        depth -= 1
                    j += 1
                args = ln[start : j - 1]
                params = [parse_typed(a) for a in split_args(args)]
                blocks, cur, order = {}, None, []
                i += 1
                while lines[i] != "}":
                    l = lines[i].split(";")[0].rstrip() if not lines[i].strip().startswith(";") else ""
                    if l and not l.startswith(" "):
                        cur = l.rstrip().rstrip(":")
                        cur = cur.strip('"')
                        blocks[cur] = []
                        order.append(cur)
                    elif l.strip():
                        if cur is None:
                            cur = "entry"
                            blocks[cur] = []
                            order.append(cur)
                        s = l.strip()
                        # drop metadata
                        s = re.sub(r"(, )?![\w.]+ !\d+", "", s)
                        blocks[cur].append(s)
                    i += 1
                self.funcs[name] = (ret, params, blocks, order)
            i += 1


def compile_ir(workdir=None):
    """clang -> IR of all the C sources, from the current tree."""
    d = workdir or tempfile.mkdtemp(prefix="qmv_ir_")
    text = []
    mods = []
    for f in sorted(os.listdir(SRC)):
        if not f.endswith(".c"):
            continue
        out = os.path.join(d, f + ".ll")
        r = subprocess.run(
            ["/usr/bin/clang-18", "-fopenmp", "-S", "-emit-llvm", "-O0",
             "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
             "-I", SRC, "-o", out, os.path.join(SRC, f)],
            capture_output=True, text=True,
        )
        if r.returncode:
            raise Inconclusive(f"clang failed: {r.stderr[-500:]}")
        with open(out) as fh:
            mods.append(Module(fh.read()))
    m = mods[0]
    for o in mods[1:]:
        m.structs.update(o.structs)
        m.funcs.update(o.funcs)
        m.globals.update(o.globals)
    return m


_MOD = None


def module():
    global _MOD
    if _MOD is None:
        _MOD = compile_ir()
    return _MOD


LIBM = {"exp", "log", "log10", "sqrt", "fabs", "floor", "ceil", "log1p"}


class Interp:
    """Executes IR functions on Regions under the current symbolic context."""

    MAX_STEPS = 400000

    def __init__(self, mod, threads=1, assert_mem=True):
        self.mod = mod
        self.steps = 0
        self.thread = None
        self.log = []  # (region, elem index, is_write, thread, epoch)
        self.threads = threads
        self.epoch = 0
        self.entered = set()
        self.omp_range = None  # force the iterations a parallel loop runs
        self.locks = ()

    # -- values
    def ctx(self):
        return sym.CTX

    def const(self, tok, ty):
        tok = tok.strip()
        if ty == "double" or ty == "float":
            if tok.startswith("0x"):
                import struct

                return Fraction(struct.unpack(">d", bytes.fromhex(tok[2:].zfill(16)))[0])
            if tok in ("undef", "poison"):
                return UNDEF
            return Fraction(tok)
        if ty == "ptr":
            if tok == "null":
                return NULL
            if tok.startswith("@"):
                return ("global", tok[1:])
            if tok in ("undef", "poison"):
                return UNDEF
        if tok == "true":
            return True
        if tok == "false":
            return False
        if tok in ("undef", "poison"):
            return UNDEF
        if tok == "zeroinitializer":
            return 0
        return int(tok)

    def val(self, env, tok, ty):
        tok = tok.strip()
        if tok.startswith("%"):
            v = env[tok]
            return v
        return self.const(tok, ty)

    def use(self, v):
        if v is UNDEF:
            self.ctx().check(False, "no read of uninitialised memory")
            raise Inconclusive("undefined value used")
        return v

    # -- memory
    def _elem(self, p, size, what):
        if not isinstance(p, Ptr) or p.reg is None:
            self.ctx().check(False, "no null/invalid pointer dereference")
            raise Inconclusive("bad pointer")
        reg = p.reg
        if size != reg.esz:
            # struct / differently typed access
            raise Inconclusive(f"access size {size} to {reg.name} with elements {reg.esz}")
        off = p.off
        if is_sym(off):
            idx = Sym(off.e / reg.esz)
            ok = (off >= 0) & (off <= (reg.count - 1) * reg.esz)
            self.ctx().check(ok, f"{what} stays inside its array")
            self.ctx().check(off % reg.esz == 0, f"{what} is aligned")
        else:
            ok = (0 <= off) & (off <= (reg.count - 1) * reg.esz)
            self.ctx().check(ok, f"{what} stays inside its array")
            if off % reg.esz:
                raise Inconclusive("misaligned access")
            idx = off // reg.esz
        return reg, idx

    def load(self, p, ty):
        reg, idx = self._elem(p, tysize(ty, self.mod.structs), "read")
        if reg.shared and self.thread is not None and reg.owner != self.thread:
            self.log.append((reg, idx, False, self.thread, self.epoch, self.locks))
        if isinstance(reg, BigRegion):
            return reg.fresh()
        if is_sym(idx):
            es = reg.elems
            if any(e is UNDEF for e in es):
                raise Inconclusive("symbolic index into partly undefined region")
            v = es[-1]
            for k in range(len(es) - 2, -1, -1):
                v = sym.CTX.ite(idx == k, es[k], v)
            return v
        return reg.elems[idx]

    def store(self, p, v, ty):
        reg, idx = self._elem(p, tysize(ty, self.mod.structs), "write")
        if reg.shared and self.thread is not None and reg.owner != self.thread:
            self.log.append((reg, idx, True, self.thread, self.epoch, self.locks))
        if isinstance(reg, BigRegion):
            return
        if is_sym(idx):
            for k in range(len(reg.elems)):
                reg.elems[k] = sym.CTX.ite(idx == k, v, reg.elems[k])
        else:
            reg.elems[idx] = v

    # -- execution
    def call(self, name, args):
        if name not in self.mod.funcs:
            return self.intrinsic(name, args)
        self.entered.add(name)
        ret, params, blocks, order = self.mod.funcs[name]
        env = {}
        for (ty, pn), a in zip(params, args):
            env[pn] = a
        prev, cur = None, order[0]
        while True:
            nxt = None
            phis = []
            for ins in blocks[cur]:
                self.steps += 1
                if self.steps > self.MAX_STEPS:
                    raise Inconclusive("IR step bound hit")
                r = self.step(env, ins, prev, phis)
                if r is None:
                    continue
                if r[0] == "br":
                    nxt = r[1]
                    break
                if r[0] == "ret":
                    return r[1]
            prev, cur = cur, nxt

    def fnum(self, v):
        return v

    def step(self, env, ins, prev, phis):
        m = re.match(r"(%[\w.\"-]+) = (.*)", ins)
        dst = None
        if m:
            dst, ins = m.groups()
        op = ins.split(None, 1)[0]
        if op in ("tail", "notail", "musttail"):
            ins = ins.split(None, 1)[1]
            op = "call"
        rest = ins[len(op):].strip()
        if op == "alloca":
            parts = split_args(rest)
            ty = parts[0]
            n = 1
            for p in parts[1:]:
                if not p.startswith("align"):
                    t2, v2 = parse_typed(p)
                    n = self.val(env, v2, t2)
                    n = int(n)
            mm = re.match(r"\[(\d+) x (.*)\]$", ty)
            if mm:
                ty, n = mm.group(2), int(mm.group(1)) * n
            if ty in self.mod.structs:
                raise Inconclusive("struct on the stack")
            reg = Region(dst, tysize(ty, self.mod.structs), [UNDEF] * n)
            reg.owner = self.thread  # private to the thread that allocates it
            reg.shared = True
            env[dst] = Ptr(reg, 0)
            return
        if op == "load":
            rest = rest.replace("volatile ", "")
            parts = split_args(rest)
            ty = parts[0]
            _, pv = parse_typed(parts[1])
            env[dst] = self.load(self.use(self.val(env, pv, "ptr")), ty)
            return
        if op == "store":
            rest = rest.replace("volatile ", "")
            parts = split_args(rest)
            ty, v = parse_typed(parts[0])
            _, pv = parse_typed(parts[1])
            self.store(self.use(self.val(env, pv, "ptr")), self.val(env, v, ty), ty)
            return
        if op == "getelementptr":
            rest = re.sub(r"^(inbounds|nuw|nusw)\s+", "", rest)
            parts = split_args(rest)
            ty = parts[0]
            _, pv = parse_typed(parts[1])
            p = self.use(self.val(env, pv, "ptr"))
            idxs = [self.use(self.val(env, parse_typed(x)[1], parse_typed(x)[0])) for x in parts[2:]]
            off = p.off + idxs[0] * tysize(ty, self.mod.structs)
            t = ty
            for ix in idxs[1:]:
                if t in self.mod.structs:
                    offs, _ = struct_layout(t, self.mod.structs)
                    off = off + offs[ix]
                    t = self.mod.structs[t][ix]
                else:
                    mm = re.match(r"\[(\d+) x (.*)\]$", t)
                    t = mm.group(2)
                    off = off + ix * tysize(t, self.mod.structs)
            env[dst] = Ptr(p.reg, off)
            return
        if op == "br":
            mm = re.match(r"label %([\w.\"-]+)", rest)
            if mm:
                return ("br", mm.group(1).strip('"'))
            mm = re.match(r"i1 (\S+), label %([\w.\"-]+), label %([\w.\"-]+)", rest)
            c = self.use(self.val(env, mm.group(1), "i1"))
            return ("br", (mm.group(2) if bool(c) else mm.group(3)).strip('"'))
        if op == "switch":
            mm = re.match(r"(\S+) (\S+), label %([\w.]+) \[(.*)\]", rest)
            raise Inconclusive("switch")
        if op == "ret":
            if rest == "void":
                return ("ret", None)
            ty, v = parse_typed(rest)
            return ("ret", self.val(env, v, ty))
        if op == "unreachable":
            raise Inconclusive("unreachable executed")
        if op in ("add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "and", "or", "xor", "shl", "ashr", "lshr"):
            flags = []
            while rest.split()[0] in ("nsw", "nuw", "exact", "disjoint"):
                f, rest = rest.split(None, 1)
                flags.append(f)
            parts = split_args(rest)
            ty, a = parse_typed(parts[0])
            a = self.use(self.val(env, a, ty))
            b = self.use(self.val(env, parts[1], ty))
            env[dst] = self.iop(op, a, b, ty, flags)
            return
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            rest = re.sub(r"^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*", "", rest)
            parts = split_args(rest)
            ty, a = parse_typed(parts[0])
            a = self.use(self.val(env, a, ty))
            b = self.use(self.val(env, parts[1], ty))
            env[dst] = self.fop(op, a, b)
            return
        if op == "fneg":
            ty, a = parse_typed(rest)
            env[dst] = -self.use(self.val(env, a, ty))
            return
        if op == "icmp":
            pred, rest = rest.split(None, 1)
            parts = split_args(rest)
            ty, a = parse_typed(parts[0])
            a, b = self.use(self.val(env, a, ty)), self.use(self.val(env, parts[1], ty))
            env[dst] = self.cmp(pred, a, b)
            return
        if op == "fcmp":
            rest = re.sub(r"^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*", "", rest)
            pred, rest = rest.split(None, 1)
            parts = split_args(rest)
            ty, a = parse_typed(parts[0])
            a, b = self.use(self.val(env, a, ty)), self.use(self.val(env, parts[1], ty))
            nan = any(isinstance(v, float) and v != v for v in (a, b))
            if nan:
                env[dst] = pred.startswith("u")
            else:
                env[dst] = self.cmp({"eq": "eq", "ne": "ne", "lt": "slt", "gt": "sgt", "le": "sle", "ge": "sge", "d": "ord"}[pred[1:] if pred[0] in "ou" and len(pred) > 2 else "d"], a, b)
            return
        if op == "select":
            parts = split_args(rest)
            _, c = parse_typed(parts[0])
            ty, a = parse_typed(parts[1])
            _, b = parse_typed(parts[2])
            c = self.use(self.val(env, c, "i1"))
            av, bv = self.val(env, a, ty), self.val(env, b, ty)
            if is_sym(c) and ty != "ptr" and not isinstance(av, float) and not isinstance(bv, float):
                env[dst] = sym.CTX.ite(c, av, bv)
            else:
                env[dst] = av if bool(c) else bv
            return
        if op == "phi":
            ty, lst = rest.split(None, 1)
            for v, b in re.findall(r"\[ ([^,]+), %([\w.\"-]+) \]", lst):
                if b.strip('"') == prev:
                    env[dst] = self.val(env, v, ty)
                    return
            raise Inconclusive("phi without predecessor")
        if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fpext", "fptrunc", "bitcast", "freeze"):
            mm = re.match(r"(?:nneg |nsw |nuw )*(\S+) (\S+)(?: to (\S+))?", rest)
            ty, v, to = mm.groups()
            v = self.use(self.val(env, v, ty))
            if op in ("sext", "zext"):
                if isinstance(v, (bool, sym.SymBool)):
                    v = int(v) if isinstance(v, bool) else Sym(lift(v))
                    v = -v if op == "sext" else v
                elif op == "zext" and ty != "i1":
                    bits = int(ty[1:])
                    v = v % (1 << bits) if not is_sym(v) else v
                    if is_sym(v):
                        v = sym.CTX.ite(v < 0, v + (1 << bits), v)
                env[dst] = v
            elif op == "trunc":
                bits = int(to[1:])
                if is_sym(v):
                    ok = (v >= -(1 << (bits - 1))) & (v < (1 << (bits - 1)))
                    sym.CTX.check(ok, "no value lost in an integer conversion")
                    env[dst] = v
                else:
                    v &= (1 << bits) - 1
                    if bits == 1:
                        env[dst] = bool(v)
                    else:
                        env[dst] = v - (1 << bits) if v >> (bits - 1) else v
            elif op == "sitofp" or op == "uitofp":
                env[dst] = Sym(sym._real(v.e)) if is_sym(v) else Fraction(v)
            elif op == "fptosi":
                env[dst] = v.trunc() if is_sym(v) else int(v)
            else:
                env[dst] = v
            return
        if op == "call":
            mm = re.match(r"(.*?)@([\w.$]+)\((.*)\)", rest)
            if not mm:
                raise Inconclusive(f"indirect call: {ins}")
            name = mm.group(2)
            args = []
            for a in split_args(mm.group(3)):
                if a.startswith("metadata"):
                    continue
                ty, v = parse_typed(a)
                args.append(self.val(env, v, ty))
            r = self.call(name, args)
            if dst:
                env[dst] = r
            return
        if op == "fence":
            return
        raise Inconclusive(f"IR instruction: {op} {rest[:60]}")

    def iop(self, op, a, b, ty, flags):
        bits = int(ty[1:])
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = a * b
        elif op in ("sdiv", "srem"):
            if not is_sym(a) and not is_sym(b):
                if b == 0:
                    sym.CTX.check(False, "no integer division by zero")
                q = abs(a) // abs(b)
                q = q if (a >= 0) == (b >= 0) else -q
                r = q if op == "sdiv" else a - q * b
            else:
                if is_sym(b):
                    sym.CTX.check(b != 0, "no integer division by zero")
                q = Sym(sym._real(lift(a)) / sym._real(lift(b))).trunc()
                r = q if op == "sdiv" else a - q * b
        elif is_sym(a) or is_sym(b):
            raise Inconclusive(f"symbolic {op}")
        else:
            r = {"and": a & b, "or": a | b, "xor": a ^ b, "shl": a << b if op == "shl" else 0,
                 "ashr": a >> b if op == "ashr" else 0, "lshr": (a % (1 << bits)) >> b if op == "lshr" else 0,
                 "udiv": (a % (1 << bits)) // (b or 1), "urem": (a % (1 << bits)) % (b or 1)}[op]
        if isinstance(r, bool):
            return r
        if is_sym(r):
            ok = (r >= -(1 << (bits - 1))) & (r < (1 << (bits - 1)))
            if "nsw" in flags:
                sym.CTX.check(ok, "no signed integer overflow")
            elif sym.CTX._check(z3.Not(sym.lb(ok))):
                raise Inconclusive("wrapping symbolic integer")
            return r
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if not lo <= r <= hi:
            if "nsw" in flags:
                sym.CTX.check(False, "no signed integer overflow")
            r = (r - lo) % (1 << bits) + lo
        return r

    def fop(self, op, a, b):
        if op == "fadd":
            return a + b
        if op == "fsub":
            return a - b
        if op == "fmul":
            return a * b
        if op == "fdiv":
            if not is_sym(a) and not is_sym(b):
                if isinstance(a, float) or isinstance(b, float):
                    return float("nan") if (a != a or b != b) else (float(a) / float(b) if b else float("nan"))
                if b == 0:
                    return float("nan") if a == 0 else float("inf") * (1 if a > 0 else -1)
                return Fraction(a) / Fraction(b)
            return a / b
        raise Inconclusive(op)

    def cmp(self, pred, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            same = (a.reg is b.reg) and a.off == b.off
            return same if pred == "eq" else not same
        if pred == "ord":
            return True
        if pred in ("eq",):
            return a == b
        if pred == "ne":
            return a != b
        if pred[0] == "u":
            if (is_sym(a) or is_sym(b)):
                ca = mkbool(z3.And(lift(a) >= 0, lift(b) >= 0))
                if is_sym(ca):
                    if not bool(ca):
                        raise Inconclusive("unsigned compare of negative")
                elif not ca:
                    raise Inconclusive("unsigned compare of negative")
            elif a < 0 or b < 0:
                a, b = a % (1 << 64), b % (1 << 64)
        return {"lt": lambda: a < b, "gt": lambda: a > b, "le": lambda: a <= b, "ge": lambda: a >= b}[pred[1:]]()

    # -- library / OpenMP runtime
    def intrinsic(self, name, args):
        if name in LIBM or (name.startswith("llvm.") and name.split(".")[1] in LIBM):
            n = name if name in LIBM else name.split(".")[1]
            x = self.use(args[0])
            if isinstance(x, float) and not math.isfinite(x):
                return sym.libm(n, x)
            if n == "fabs":
                return abs(x)
            if not is_sym(x):
                if getattr(sym.CTX, "plain_floats", False):
                    return sym.libm(n, float(x))
                x = Sym(lift(x))
            return getattr(x, n)()
        if name.startswith("llvm.fmuladd"):
            return args[0] * args[1] + args[2]
        if name.startswith("llvm.smax") or name.startswith("llvm.maxnum") or name in ("fmax",):
            return sym.CTX.ite(args[0] > args[1], args[0], args[1])
        if name.startswith("llvm.smin") or name.startswith("llvm.minnum") or name in ("fmin",):
            return sym.CTX.ite(args[0] < args[1], args[0], args[1])
        if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg"):
            return None
        if name.startswith("llvm.memset"):
            p, v, n = args[0], args[1], args[2]
            if v != 0:
                raise Inconclusive("memset non-zero")
            for k in range(int(n) // p.reg.esz):
                self.store(Ptr(p.reg, p.off + k * p.reg.esz), 0,
                           {8: "i64", 4: "i32", 1: "i8"}[p.reg.esz])
            return None
        if name.startswith("llvm.memcpy") or name in ("memcpy",):
            d, s, n = args[0], args[1], args[2]
            t = {8: "i64", 4: "i32", 1: "i8"}[d.reg.esz]
            for k in range(int(n) // d.reg.esz):
                self.store(Ptr(d.reg, d.off + k * d.reg.esz), self.load(Ptr(s.reg, s.off + k * s.reg.esz), t), t)
            return None
        if name == "__kmpc_global_thread_num":
            return self.thread or 0
        if name == "omp_get_thread_num":
            return self.thread or 0
        if name in ("omp_get_num_threads", "omp_get_max_threads"):
            return self.threads
        if name == "__kmpc_push_num_threads":
            n = args[2]
            self.threads = int(n)
            return None
        if name == "__kmpc_fork_call":
            fn = args[2][1]
            n = max(1, self.threads)
            saved = self.thread
            self.epoch += 1
            for t in range(n):
                self.thread = t
                self.dispatch = None
                gt = Region("gtid", 4, [t])
                gt.owner = t
                bt = Region("btid", 4, [t])
                bt.owner = t
                self.call(fn, [Ptr(gt), Ptr(bt)] + list(args[3:]))
            self.thread = saved
            return None
        if name.startswith("__kmpc_for_static_init_"):
            ty = "i32" if name[-2] == "4" or name.endswith("_4") else "i64"
            ty = "i32" if "_4" in name[-3:] else "i64"
            sched, plast, plb, pub, pst, incr, chunk = args[2], args[3], args[4], args[5], args[6], args[7], args[8]
            if self.omp_range is not None:
                self.store(plb, self.omp_range[0], ty)
                self.store(pub, self.omp_range[1], ty)
                return None
            lb, ub = int(self.load(plb, ty)), int(self.load(pub, ty))
            n, t = max(1, self.threads), self.thread or 0
            trip = (ub - lb) // incr + 1
            if sched == 33:  # static chunked
                self.store(pst, chunk * incr * n, ty)
                self.store(plb, lb + t * chunk * incr, ty)
                self.store(pub, lb + t * chunk * incr + (chunk - 1) * incr, ty)
                return None
            small, extra = divmod(trip, n)
            start = t * small + min(t, extra)
            cnt = small + (1 if t < extra else 0)
            self.store(plb, lb + start * incr, ty)
            self.store(pub, lb + (start + cnt - 1) * incr, ty)
            self.store(pst, trip * incr, ty)
            return None
        if name.startswith("__kmpc_dispatch_init_"):
            lb, ub, st, chunk = args[3], args[4], args[5], args[6]
            self.dispatch = (int(lb), int(ub), int(st), max(1, int(chunk)), 0)
            return None
        if name.startswith("__kmpc_dispatch_next_"):
            ty = "i32" if "_4" in name[-3:] else "i64"
            lb, ub, st, chunk, k = self.dispatch
            n, t = max(1, self.threads), self.thread or 0
            c = t + k * n
            start = lb + c * chunk * st
            if start > ub:
                return 0
            self.dispatch = (lb, ub, st, chunk, k + 1)
            self.store(args[3], start, ty)
            self.store(args[4], min(ub, start + (chunk - 1) * st), ty)
            self.store(args[5], st, ty)
            return 1
        if name.startswith("__kmpc_for_static_fini") or name.startswith("__kmpc_dispatch_deinit") or name.startswith("__kmpc_dispatch_fini"):
            return None
        if name in ("__kmpc_barrier",):
            raise Inconclusive("OpenMP barrier inside a parallel region")
        if name in ("__kmpc_critical",):
            self.locks = self.locks + ("critical",)
            return None
        if name in ("__kmpc_end_critical",):
            self.locks = self.locks[:-1]
            return None
        raise Inconclusive(f"call to {name}")

    # -- data races
    def races(self, ctx, label):
        """No element is written by one thread and touched by another."""
        by = {}
        for reg, idx, w, t, ep, lk in self.log:
            by.setdefault((id(reg), ep), []).append((reg, idx, w, t, lk))
        for (_, _), acc in by.items():
            seen = {}
            for reg, idx, w, t, lk in acc:
                k = idx if not is_sym(idx) else ("s", str(idx.e))
                if (k, w, t, lk) in seen:
                    continue
                seen[k, w, t, lk] = (idx, w, t, lk)
            acc = list(seen.values())
            conds = []
            for x in range(len(acc)):
                for y in range(x + 1, len(acc)):
                    i1, w1, t1, l1 = acc[x]
                    i2, w2, t2, l2 = acc[y]
                    if t1 == t2 or not (w1 or w2) or (l1 and l2):
                        continue
                    ne = i1 != i2
                    if ne is False:
                        ctx.check(False, label)
                    elif is_sym(ne):
                        conds.append(ne)
            ctx.check(ctx.all(conds), label)


# -------------------------------------------------------------- ctypes-level stand-in
class SymLib:
    """Replaces the loaded `qmlib`: calls run the IR of the current C source."""

    def __init__(self, real=None, record=None):
        self.__dict__["real"] = real
        self.__dict__["record"] = record if record is not None else []

    def _esizes(self, name, n):
        at = getattr(getattr(self.real, name, None), "argtypes", None) or [None] * n
        return [getattr(getattr(t, "_dtype_", None), "itemsize", None) for t in at]

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)

        def f(*args):
            from qmv.npsym import plain

            mod = module()
            if name not in mod.funcs:
                raise AttributeError(f"undefined symbol: {name}")
            params = mod.funcs[name][1]
            esizes = self._esizes(name, len(params))
            it = Interp(mod)
            conv, writeback = [], []
            for (ty, pn), a in zip(params, args):
                if ty == "ptr":
                    arr = a
                    if arr.dtype.names:
                        vals = [int(arr[0][n]) for n in arr.dtype.names]
                        reg = Region(pn, 4, vals)
                    else:
                        flat = np.asarray(plain(arr)).reshape(-1)
                        reg = Region(pn, esizes[len(conv)] or arr.dtype.itemsize, list(flat))
                        if arr.dtype != object and arr.dtype.itemsize != reg.esz:
                            raise TypeError(f"array dtype {arr.dtype} does not match the C prototype")
                    writeback.append((reg, arr))
                    conv.append(Ptr(reg))
                else:
                    v = a.value if hasattr(a, "value") else a
                    conv.append(int(v) if not is_sym(v) else v)
            it.call(name, conv)
            for reg, arr in writeback:
                if arr.dtype.names:
                    continue
                if arr.dtype == object:
                    flat = np.empty(len(reg.elems), dtype=object)
                    for i, v in enumerate(reg.elems):
                        flat[i] = v
                    arr[...] = flat.reshape(arr.shape)
                else:
                    for i, v in enumerate(reg.elems):
                        if is_sym(v):
                            raise Inconclusive("symbolic value in a numeric output array")
                        arr.reshape(-1)[i] = v
            self.record.append(it)

        f.argtypes = None
        return f


# ------------------------------------------------------------------- native rebuild
def build_native(out, asan=False, opt="-O0"):
    """Compile the current C source to a scratch shared library."""
    srcs = [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith(".c")]
    cmd = ["gcc", "-shared", "-fPIC", "-fopenmp", opt, "-g", "-I", SRC, "-o", out] + srcs + ["-lm"]
    if asan:
        cmd[1:1] = ["-fsanitize=address"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Inconclusive(f"C sources do not compile: {r.stderr[-400:]}")
    return out
