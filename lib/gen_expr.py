"""Writes a harness unit of generated expression programs: gen_expr.py SEED UNIT COUNT OUTFILE

Each program is one typed expression over views of fixed kinds, assigned (=, +=, -=, *=) to a view of a fixed kind; sizes, strides and
values are drawn at run time. Magnitudes are tracked so that every intermediate value is exact in its type, so that the same scalar
expression, evaluated element by element, is the exact oracle.
"""
import random
import sys

CPP = {"f": "float", "d": "double", "i": "int", "F": "std::complex<float>", "D": "std::complex<double>"}
REAL_OF = {"F": "f", "D": "d"}
MANT = {"f": 22, "d": 50, "i": 28, "F": 22, "D": 50}
KINDS = {1: [1, 2, 4, 8, 16, 32, 64], 2: [1, 2, 4, 8, 16, 32, 64, 128], 3: [1, 2, 4, 8, 16, 32]}
WITH = {1: "with_vector", 2: "with_matrix", 3: "with_tensor"}


class Too(Exception):
    pass


class E:
    """view text, scalar text, type, magnitude bound (log2), fractional bits, is it a view"""
    def __init__(self, v, s, t, mag, frac=0, view=True):
        self.v, self.s, self.t, self.mag, self.frac, self.view = v, s, t, mag, frac, view
        if mag + frac > MANT[t]:
            raise Too()


class Program:
    def __init__(self, r):
        self.r = r
        self.dim = r.choice([1, 1, 2, 2, 3])
        self.leaves = []  # (type, kind, divisor)
        self.nscal = 0
        self.scal = []

    def leaf(self, t, div=False):
        same = [k for k, (u, _, d) in enumerate(self.leaves) if u == t and d == div]
        if same and self.r.random() < 0.3:
            k = self.r.choice(same)
        else:
            if len(self.leaves) >= 4:
                if not same:
                    raise Too()
                k = self.r.choice(same)
            else:
                k = len(self.leaves)
                self.leaves.append((t, self.r.choice(KINDS[self.dim]), div))
        return E(f"x{k}.view", f"a{k}.v[e]", t, 2 if not div else 2)

    def scalar(self, t, div=False):
        k = len(self.scal)
        self.scal.append((t, div))
        return E(f"s{k}", f"s{k}", t, 2, view=False)

    def promo(self, a, b):
        if a == b:
            return a
        if {a, b} == {"i", "f"}:
            return "f"
        if {a, b} == {"i", "d"} or {a, b} == {"f", "d"}:
            return "d"
        for c, x in REAL_OF.items():
            if {a, b} == {c, x}:
                return c
        raise Too()

    def gen(self, t, depth, need_view=True):
        r = self.r
        if depth == 0 or r.random() < 0.12:
            if not need_view and r.random() < 0.3:
                return self.scalar(t)
            return self.leaf(t)
        c = t in REAL_OF
        ops = ["+", "+", "-", "-", "*", "*", "div", "neg", "add", "sub", "mul", "ma", "am", "msb", "sbm", "ite", "user"]
        if not c:
            ops += ["max", "min", "sq"]
        if t in ("f", "d"):
            ops += ["magsq", "real", "imag", "abs"]
        if c:
            ops += ["conj", "conj", "jmul", "cmplx"]
        op = r.choice(ops)
        T = CPP[t]
        if op in ("+", "-", "*", "add", "sub", "mul", "max", "min", "jmul"):
            ta = tb = t
            if op not in ("max", "min", "jmul") and r.random() < 0.25:
                o = {"f": "i", "d": r.choice("if"), "F": "f", "D": "d"}.get(t)
                if o:
                    if r.random() < 0.5:
                        ta = o
                    else:
                        tb = o
            a = self.gen(ta, depth - 1, need_view=False)
            b = self.gen(tb, depth - 1, need_view=not a.view)
            pa, pb = f"({T})({a.s})", f"({T})({b.s})"
            sym = {"add": "+", "sub": "-", "mul": "*"}.get(op, op)
            if sym in "+-":
                m, fr = max(a.mag, b.mag) + 1, max(a.frac, b.frac)
            elif sym in ("max", "min"):
                m, fr = max(a.mag, b.mag), max(a.frac, b.frac)
            else:
                m, fr = a.mag + b.mag + (1 if c else 0), a.frac + b.frac
            if op in "+-*":
                v = f"({a.v} {op} {b.v})"
            else:
                if op in ("max", "min", "jmul") and not (a.view and b.view):
                    # the same type on both sides
                    pass
                v = f"vsip::{op}({a.v}, {b.v})"
            s = {"max": f"std::max<{T}>({pa}, {pb})", "min": f"std::min<{T}>({pa}, {pb})", "jmul": f"({pa} * std::conj({pb}))"}.get(op) or f"({T})({pa} {sym} {pb})"
            return E(v, s, t, m, fr)
        if op == "div":
            a = self.gen(t, depth - 1, need_view=False)
            b = self.leaf(t, True) if not c and (not a.view or r.random() < 0.5) else self.scalar(t if not c else REAL_OF[t], True)
            if not a.view and not b.view:
                raise Too()
            rhs = f"({T})({b.s})" if not c else b.s
            return E(f"({a.v} / {b.v})", f"({T})(({T})({a.s}) / {rhs})", t, a.mag, a.frac + (2 if t != "i" else 0))
        if op == "neg":
            a = self.gen(t, depth - 1)
            return E(r.choice([f"(-{a.v})", f"vsip::neg({a.v})", f"(+{a.v})"]), "", t, a.mag, a.frac).fix(a)
        if op == "sq":
            a = self.gen(t, depth - 1)
            return E(f"vsip::sq({a.v})", f"({T})({a.s} * {a.s})", t, 2 * a.mag, 2 * a.frac)
        if op == "abs":
            a = self.gen(t, depth - 1)
            return E(f"vsip::mag({a.v})", f"std::abs({a.s})", t, a.mag, a.frac)
        if op == "conj":
            a = self.gen(t, depth - 1)
            return E(f"vsip::conj({a.v})", f"std::conj({a.s})", t, a.mag, a.frac)
        if op in ("magsq", "real", "imag"):
            C = {"f": "F", "d": "D"}[t]
            a = self.gen(C, depth - 1)
            if op == "magsq":
                return E(f"vsip::magsq({a.v})", f"std::norm({a.s})", t, 2 * a.mag + 1, 2 * a.frac)
            return E(f"vsip::{op}({a.v})", f"std::{op}({a.s})", t, a.mag, a.frac)
        if op == "cmplx":
            a, b = self.gen(REAL_OF[t], depth - 1), self.gen(REAL_OF[t], depth - 1)
            if a.v.startswith("x") != b.v.startswith("x"):  # cmplx takes two views of one template
                raise Too()
            return E(f"vsip::cmplx({a.v}, {b.v})", f"{T}({a.s}, {b.s})", t, max(a.mag, b.mag), max(a.frac, b.frac))
        if op in ("ma", "am", "msb", "sbm"):
            es = [self.gen(t, depth - 1, need_view=False) for _ in range(2)]
            es.append(self.gen(t, depth - 1, need_view=not (es[0].view or es[1].view)))
            a, b, d = es
            x, y, z = f"({T})({a.s})", f"({T})({b.s})", f"({T})({d.s})"
            s = {"ma": f"({x} * {y} + {z})", "am": f"(({x} + {y}) * {z})", "msb": f"({x} * {y} - {z})", "sbm": f"(({x} - {y}) * {z})"}[op]
            mc = 1 if c else 0
            if op in ("ma", "msb"):
                m, fr = max(a.mag + b.mag + mc, d.mag) + 1, max(a.frac + b.frac, d.frac)
            else:
                m, fr = max(a.mag, b.mag) + 1 + d.mag + mc, max(a.frac, b.frac) + d.frac
            return E(f"vsip::{op}({a.v}, {b.v}, {d.v})", f"({T}){s}", t, m, fr)
        if op == "ite":
            u = "f" if t in "fF" else "d" if t in "dD" else "i"
            p, q = self.gen(u, depth - 2 if depth > 1 else 0), self.gen(u, 0, need_view=False)
            a = self.gen(t, depth - 1, need_view=False)
            b = self.gen(t, depth - 1, need_view=False)
            k = r.choice(["<", ">", "<=", ">=", "==", "!="])
            return E(f"vsip::ite({p.v} {k} {q.v}, {a.v}, {b.v})", f"(({p.s} {k} {q.s}) ? ({T})({a.s}) : ({T})({b.s}))", t, max(a.mag, b.mag), max(a.frac, b.frac))
        if op == "user":
            a = self.gen(t, depth - 1)
            return E(f"vsip::unary<{T}>(ufn<{T}>(), {a.v})", f"ufn<{T}>()({a.s})", t, a.mag + 2, a.frac)
        raise AssertionError(op)


def _fix(self, a):
    self.s = f"({CPP[self.t]})(-({a.s}))" if not self.v.startswith("(+") else a.s
    return self


E.fix = _fix


def emit(name, r):
    while True:
        p = Program(random.Random(r.getrandbits(48)))
        q = p.r
        t = q.choice("ffdiFFD")
        try:
            e = p.gen(t, q.choice([1, 2, 2, 3, 3, 4]))
            # the destination: any type the value converts to exactly
            td = t
            if t in "fi" and q.random() < 0.3:
                td = {"f": q.choice("dF"), "i": q.choice("fd")}[t]
            how = q.choice(["=", "=", "=", "=", "+=", "-=", "*=", "ctor", "get", "part", "alias"])
            if how in ("+=", "-=", "*=") and td != t:
                td = t
            if how == "alias":
                td = t
                e = E(f"(d.view + {e.v})", f"({CPP[t]})(old.v[e] + ({e.s}))", t, e.mag + 1, e.frac)
            if how == "*=":
                E("", "", td, e.mag + 2 + 1, e.frac)
            elif how in ("+=", "-="):
                E("", "", td, e.mag + 1, e.frac)
        except Too:
            continue
        break
    D = CPP[td]
    dim = p.dim
    kd = q.choice(KINDS[dim])
    sz = {1: "n[0]", 2: "n[0], n[1]", 3: "n[0], n[1], n[2]"}[dim]
    hi = {1: [64], 2: [12, 12], 3: [6, 6, 6]}[dim]
    o = [f"PROP({name}, 240, 4000)", "{"]
    o.append(f"  size_t n[3] = {{{', '.join(f'g.len(1, {h})' for h in hi)}}}; g.note() << \"{e.v.replace(chr(34), '')} [{how}] on \" << n[0] << 'x' << n[1] << 'x' << n[2] << ' '; if (n[0] * {'n[1]' if dim > 1 else '1'} > 1) g.nontrivial();")
    for k, (u, dv) in enumerate(p.scal):
        val = "g.pick<int>({1, -1, 2, -2, 4})" if dv else "(int)g.range(-3, 3)"
        o.append(f"  {CPP[u]} s{k} = ({CPP[u]})({CPP[u] if u in 'fdi' else ('float' if u == 'F' else 'double')}){val};")
    for k, (u, kind, dv) in enumerate(p.leaves):
        o.append(f"  auto a{k} = leafdata<{CPP[u]}>(g, {sz}, {'true' if dv else 'false'});")
    close = ""
    for k, (u, kind, dv) in enumerate(p.leaves):
        o.append(f"  {WITH[dim]}<{CPP[u]}, {kind}>(g, {sz}, [&](auto &x{k}) {{ x{k}.set(a{k});")
        close += " });"
    S = CPP[t]
    o.append(f"  Arr<{D}> old = leafdata<{D}>(g, {sz}, false), want(old);")
    conv = f"({D})({S})" if td != "F" or t == "F" else f"({D})(float)({S})"
    body = {"=": f"w = {conv}({e.s})", "ctor": f"w = {conv}({e.s})", "get": f"w = {conv}({e.s})", "part": f"w = {conv}({e.s})", "alias": f"w = {e.s}", "+=": f"w = ({D})(old.v[e] + ({D})({e.s}))", "-=": f"w = ({D})(old.v[e] - ({D})({e.s}))", "*=": f"w = ({D})(old.v[e] * ({D})({e.s}))"}[how]
    o.append(f"  for (size_t e = 0; e < want.v.size(); ++e) {{ {D} {body}; want.v[e] = w; }}")
    V = {1: "Vector", 2: "Matrix", 3: "Tensor"}[dim]
    if how == "ctor":
        o.append(f"  {V}<{D}> d({e.v}); same(g, d, want);  {V}<{D}> d2({sz}); d2 = {e.v}; same(g, d2, want);")
    elif how == "get":
        o.append(f"  auto ex = {e.v}; auto fx = ex; for (int twice = 0; twice < 2; ++twice) same(g, fx, want);")
    elif how == "part":
        if dim == 1:
            o.append(f"  Part p = part_of(g, n[0]); auto ex = {e.v}; Vector<{D}> d(p.dom.size()); d = ex(p.dom); for (size_t i = 0; i < d.size(); ++i) cmp(g, d.get(i), want.at(p.dom.impl_nth(i)));")
        elif dim == 2:
            sel = q.choice(["row", "col", "transpose", "dom", "diag"])
            if sel == "row":
                o.append(f"  size_t i = g.draw(n[0]); auto ex = {e.v}; Vector<{D}> d(n[1]); d = ex.row(i); for (size_t j = 0; j < n[1]; ++j) cmp(g, d.get(j), want.at(i, j));")
            elif sel == "col":
                o.append(f"  size_t j = g.draw(n[1]); auto ex = {e.v}; Vector<{D}> d(n[0]); d = ex.col(j); for (size_t i = 0; i < n[0]; ++i) cmp(g, d.get(i), want.at(i, j));")
            elif sel == "transpose":
                o.append(f"  auto ex = {e.v}; Matrix<{D}, Dense<2, {D}, {q.choice(['row2_type', 'col2_type'])}>> d(n[1], n[0]); d = ex.transpose(); for (size_t i = 0; i < n[0]; ++i) for (size_t j = 0; j < n[1]; ++j) cmp(g, d.get(j, i), want.at(i, j));")
            elif sel == "diag":
                o.append(f"  auto ex = {e.v}; size_t l = std::min(n[0], n[1]); Vector<{D}> d(l); d = ex.diag(); for (size_t i = 0; i < l; ++i) cmp(g, d.get(i), want.at(i, i));")
            else:
                o.append(f"  Part p = part_of(g, n[0]), q = part_of(g, n[1]); auto ex = {e.v}; Matrix<{D}> d(p.dom.size(), q.dom.size()); d = ex(Domain<2>(p.dom, q.dom)); for (size_t i = 0; i < d.size(0); ++i) for (size_t j = 0; j < d.size(1); ++j) cmp(g, d.get(i, j), want.at(p.dom.impl_nth(i), q.dom.impl_nth(j)));")
        else:
            sel = q.choice(["dom", "slice", "slice2"])
            if sel == "dom":
                o.append(f"  Part p = part_of(g, n[0]), q = part_of(g, n[1]), r = part_of(g, n[2]); auto ex = {e.v}; Tensor<{D}> d(p.dom.size(), q.dom.size(), r.dom.size()); d = ex(Domain<3>(p.dom, q.dom, r.dom)); for (size_t i = 0; i < d.size(0); ++i) for (size_t j = 0; j < d.size(1); ++j) for (size_t k = 0; k < d.size(2); ++k) cmp(g, d.get(i, j, k), want.at(p.dom.impl_nth(i), q.dom.impl_nth(j), r.dom.impl_nth(k)));")
            elif sel == "slice":
                o.append(f"  size_t i = g.draw(n[1]); auto ex = {e.v}; Matrix<{D}> d(n[0], n[2]); d = ex(whole_domain, i, whole_domain); for (size_t a = 0; a < n[0]; ++a) for (size_t b = 0; b < n[2]; ++b) cmp(g, d.get(a, b), want.at(a, i, b));")
            else:
                o.append(f"  size_t i = g.draw(n[0]), j = g.draw(n[2]); auto ex = {e.v}; Vector<{D}> d(n[1]); d = ex(i, whole_domain, j); for (size_t a = 0; a < n[1]; ++a) cmp(g, d.get(a), want.at(i, a, j));")
    else:
        op = "=" if how == "alias" else how
        o.append(f"  {WITH[dim]}<{D}, {kd}>(g, {sz}, [&](auto &d) {{ d.set(old); d.view {op} {e.v}; d.holds(g, want, \"the assigned view\"); }});")
    for k in range(len(p.leaves)):
        o.append(f"  x{k}.holds(g, a{k}, \"an operand\");")
    o.append(close)
    o.append("}")
    return "\n".join(o)


def main():
    seed, unit, count, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    r = random.Random(f"expr {seed} {unit}")
    text = '#include "c03_expr.hpp"\n' + "\n".join(emit(f"expr_s{seed}_u{unit}_{k}", r) for k in range(count)) + "\n"
    try:
        if open(out).read() == text:
            return
    except OSError:
        pass
    with open(out + ".tmp", "w") as w:
        w.write(text)
    import os
    os.replace(out + ".tmp", out)


main()
