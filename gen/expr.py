#!/usr/bin/env python3
"""Generates a translation unit of random expression programs (vectors or matrices) with
their reference evaluation.  Every value in a program is exactly representable, so the
oracle demands equality."""
import argparse, random

ap = argparse.ArgumentParser()
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--tier", default="quick")
ap.add_argument("--out", required=True)
ap.add_argument("--kind", choices=["v", "m"], required=True)
ap.add_argument("--part", type=int, default=0)
ap.add_argument("--n", type=int, default=40)
a = ap.parse_args()
R = random.Random(a.seed * 1000003 + a.part * 101 + (7 if a.kind == "m" else 3))
LIM = 22  # total bits of any intermediate value


class Stop(Exception):
    pass


class X:
    """an expression: C++ text, reference text, shape, element kind, magnitude/fraction bits, elementwise-only"""

    def __init__(self, cpp, ref, shape, isint, mag, frac, ew, ops, basis=None, lay=None):
        self.cpp, self.ref, self.shape, self.isint, self.mag, self.frac, self.ew, self.ops, self.basis, self.lay = cpp, ref, shape, isint, mag, frac, ew, ops, basis, lay
        if mag + frac > LIM:
            raise Stop()


MD = [1, 2, 3, 4, 5] * 3 + [7, 10]


class Prog:
    def __init__(self):
        self.leaves = []
        self.scalars = []
        self.types = R.choice([["int"], ["double"], ["float"], ["double"], ["int", "double", "float"], ["float", "double"], ["int", "double"], ["long", "int"]])
        self.bases = [R.choice(["row_basis", "col_basis"])] if R.random() < .85 else ["row_basis", "col_basis"]
        self.layouts = [R.choice(["row_major", "col_major"])] if R.random() < .6 else ["row_major", "col_major"]
        self.vstor = R.choice([["fixed"], ["dynamic"], ["fixed", "dynamic", "external", "externald"], ["fixed", "external"], ["dynamic", "externald"], ["fixed", "dynamic", "external", "externald", "cexternal", "cexternald"]])
        self.mstor = R.choice([["fixed"], ["dynamic"], ["fixed", "dynamic", "external", "externald"], ["fixed", "external"], ["dynamic", "externald"]])
        self.budget = R.choice([2, 3, 4, 5, 6, 8, 10])

    # leaves -----------------------------------------------------------
    def vleaf(self, n):
        k = len(self.leaves)
        E = R.choice(self.types)
        s = R.choice(self.vstor)
        T = {"fixed": "vector<%s, fixed<%d>>" % (E, n), "dynamic": "vector<%s, dynamic<>>" % E,
             "external": "vector<%s, external<%d>>" % (E, n), "externald": "vector<%s, external<>>" % E,
             "cexternal": "vector<const %s, external<%d>>" % (E, n), "cexternald": "vector<const %s, external<>>" % E}[s]
        cat = R.choice(["lv", "lv", "clv", "mv", "pr"])
        if s.startswith("c") and cat in ("mv", "pr"):
            cat = "lv"
        if s.startswith("external") and cat == "pr":
            cat = "mv"
        h = "h%d" % k
        self.leaves.append(dict(k=k, m=False, E=E, T=T, s=s, cat=cat, n=n))
        cpp = {"lv": h + ".v", "clv": "std::as_const(%s.v)" % h, "mv": "std::move(%s.v)" % h, "pr": "rx::mkv<L%d>(x%d)" % (k, k)}[cat]
        return X(cpp, "r%d" % k, (n,), E in ("int", "long"), 3, 0, True, 0)

    def mleaf(self, r, c):
        k = len(self.leaves)
        E = R.choice(self.types)
        s = R.choice(self.mstor)
        B = R.choice(self.bases)
        L = R.choice(self.layouts)
        st = {"fixed": "fixed<%d, %d>" % (r, c), "dynamic": "dynamic<>", "external": "external<%d, %d>" % (r, c), "externald": "external<>"}[s]
        T = "matrix<%s, %s, %s, %s>" % (E, st, B, L)
        cat = R.choice(["lv", "lv", "clv", "mv", "pr"])
        if s.startswith("external") and cat in ("mv", "pr"):
            cat = R.choice(["lv", "clv"])
        h = "h%d" % k
        self.leaves.append(dict(k=k, m=True, E=E, T=T, s=s, cat=cat, r=r, c=c))
        cpp = {"lv": h + ".m", "clv": "std::as_const(%s.m)" % h, "mv": "std::move(%s.m)" % h, "pr": "rx::mkm<L%d>(x%d)" % (k, k)}[cat]
        return X(cpp, "r%d" % k, (r, c), E in ("int", "long"), 3, 0, True, 0, B, L)

    def scalar(self, div):
        k = len(self.scalars)
        T = R.choice(self.types)
        lit = R.random() < .4
        self.scalars.append(dict(k=k, T=T, div=div))
        cpp = "s%d" % k if not lit else "%s(s%d)" % (T, k)
        if R.random() < .2:
            cpp = "std::as_const(s%d)" % k
        return cpp, "ld(s%d)" % k, T in ("int", "long")

    def take(self):
        self.budget -= 1
        return self.budget >= 0

    # vectors ----------------------------------------------------------
    def vec(self, n, d):
        if d <= 0 or not self.take():
            return self.vleaf(n)
        ops = ["neg", "pos", "add", "add", "sub", "sub", "smul", "smulr", "sdiv", "had", "subv", "row", "col", "basis", "mv", "vm"]
        if n == 3:
            ops += ["cross", "cross", "cross"]
        for _ in range(6):
            o = R.choice(ops)
            keep = (list(self.leaves), list(self.scalars), self.budget)
            try:
                return self.vop(o, n, d)
            except Stop:
                self.leaves[:], self.scalars[:], self.budget = keep[0], keep[1], keep[2]
        return self.vleaf(n)

    def vop(self, o, n, d):
        if o in ("neg", "pos"):
            e = self.vec(n, d - 1)
            return X("(%s%s)" % ("-" if o == "neg" else "+", e.cpp), "rx::neg(%s)" % e.ref if o == "neg" else e.ref, e.shape, e.isint, e.mag, e.frac, e.ew, e.ops + 1)
        if o in ("add", "sub", "had", "cross"):
            l, r = self.vec(n, d - 1), self.vec(n, d - 1)
            f = max(l.frac, r.frac)
            mag, frac = (max(l.mag, r.mag) + 1, f)
            if o in ("had", "cross"):
                mag, frac = l.mag + r.mag + (o == "cross"), l.frac + r.frac
            cpp = {"add": "(%s + %s)", "sub": "(%s - %s)", "had": "cml::hadamard(%s, %s)", "cross": "cml::cross(%s, %s)"}[o] % (l.cpp, r.cpp)
            return X(cpp, "rx::%s(%s, %s)" % (o, l.ref, r.ref), (n,), l.isint and r.isint, mag, frac, l.ew and r.ew and o != "cross", l.ops + r.ops + 1)
        if o in ("smul", "smulr"):
            e = self.vec(n, d - 1)
            s, rs, si = self.scalar(False)
            cpp = "(%s * %s)" % ((s, e.cpp) if o == "smul" else (e.cpp, s))
            return X(cpp, "rx::smul(%s, %s)" % (e.ref, rs), (n,), e.isint and si, e.mag + 3, e.frac, e.ew, e.ops + 1)
        if o == "sdiv":
            e = self.vec(n, d - 1)
            s, rs, si = self.scalar(True)
            ii = e.isint and si
            return X("(%s / %s)" % (e.cpp, s), "rx::sdiv(%s, %s, %s)" % (e.ref, rs, "true" if ii else "false"), (n,), ii, e.mag, e.frac + (0 if ii else 2), e.ew, e.ops + 1)
        if o == "subv":
            e = self.vec(n + 1, d - 1)
            i = R.randint(0, n)
            cpp = "cml::subvector(%s, %d)" % (e.cpp, i) if R.random() < .5 else "(%s).subvector(%d)" % (e.cpp, i)
            return X(cpp, "rx::skip(%s, %d)" % (e.ref, i), (n,), e.isint, e.mag, e.frac, False, e.ops + 1)
        if o in ("row", "col", "basis"):
            k = R.choice([1, 2, 3, 4] * 3 + [7])
            if o == "basis":
                m = self.mat(k, n, d - 1)
                if m.basis in (None, "mixed"):
                    raise Stop()
                if m.basis == "col_basis":
                    m = X("cml::transpose(%s)" % m.cpp, "rx::tp(%s)" % m.ref, (n, k), m.isint, m.mag, m.frac, False, m.ops + 1, m.basis, m.lay)
                fn = "row" if m.basis == "row_basis" else "col"
            else:
                m = self.mat(k, n, d - 1) if o == "row" else self.mat(n, k, d - 1)
                fn = o
            i = R.randint(0, k - 1)
            return X("cml::%s(%s, %d)" % (o, m.cpp, i), "rx::%s(%s, %d)" % (fn, m.ref, i), (n,), m.isint, m.mag, m.frac, False, m.ops + 1)
        if o in ("mv", "vm"):
            k = R.choice([2, 3, 4] * 3 + [8])
            m = self.mat(n, k, d - 1) if o == "mv" else self.mat(k, n, d - 1)
            v = self.vec(k, d - 1)
            cpp = "(%s * %s)" % ((m.cpp, v.cpp) if o == "mv" else (v.cpp, m.cpp))
            ref = "rx::mv(%s, %s)" % (m.ref, v.ref) if o == "mv" else "rx::vm(%s, %s)" % (v.ref, m.ref)
            return X(cpp, ref, (n,), m.isint and v.isint, m.mag + v.mag + (2 if k <= 4 else 3), m.frac + v.frac, False, m.ops + v.ops + 1)
        raise AssertionError(o)

    # matrices ---------------------------------------------------------
    def mat(self, r, c, d):
        if d <= 0 or not self.take():
            return self.mleaf(r, c)
        for _ in range(6):
            o = R.choice(["neg", "pos", "add", "add", "sub", "sub", "smul", "smulr", "sdiv", "had", "tp", "tp", "outer", "mm", "mm"])
            keep = (list(self.leaves), list(self.scalars), self.budget)
            try:
                return self.mop(o, r, c, d)
            except Stop:
                self.leaves[:], self.scalars[:], self.budget = keep[0], keep[1], keep[2]
        return self.mleaf(r, c)

    @staticmethod
    def bprom(x, y):
        if x == y:
            return x
        if x is None or y is None or "mixed" in (x, y):
            return (x or y) if (x is None or y is None) and "mixed" not in (x, y) else "mixed"
        return "mixed"

    def mop(self, o, r, c, d):
        sh = (r, c)
        if o in ("neg", "pos"):
            e = self.mat(r, c, d - 1)
            return X("(%s%s)" % ("-" if o == "neg" else "+", e.cpp), "rx::neg(%s)" % e.ref if o == "neg" else e.ref, sh, e.isint, e.mag, e.frac, e.ew, e.ops + 1, e.basis, e.lay)
        if o in ("add", "sub", "had"):
            l, rr = self.mat(r, c, d - 1), self.mat(r, c, d - 1)
            mag, frac = (max(l.mag, rr.mag) + 1, max(l.frac, rr.frac))
            if o == "had":
                mag, frac = l.mag + rr.mag, l.frac + rr.frac
            cpp = {"add": "(%s + %s)", "sub": "(%s - %s)", "had": "cml::hadamard(%s, %s)"}[o] % (l.cpp, rr.cpp)
            return X(cpp, "rx::%s(%s, %s)" % (o, l.ref, rr.ref), sh, l.isint and rr.isint, mag, frac, l.ew and rr.ew, l.ops + rr.ops + 1, self.bprom(l.basis, rr.basis), self.bprom(l.lay, rr.lay))
        if o in ("smul", "smulr"):
            e = self.mat(r, c, d - 1)
            s, rs, si = self.scalar(False)
            return X("(%s * %s)" % ((s, e.cpp) if o == "smul" else (e.cpp, s)), "rx::smul(%s, %s)" % (e.ref, rs), sh, e.isint and si, e.mag + 3, e.frac, e.ew, e.ops + 1, e.basis, e.lay)
        if o == "sdiv":
            e = self.mat(r, c, d - 1)
            s, rs, si = self.scalar(True)
            ii = e.isint and si
            return X("(%s / %s)" % (e.cpp, s), "rx::sdiv(%s, %s, %s)" % (e.ref, rs, "true" if ii else "false"), sh, ii, e.mag, e.frac + (0 if ii else 2), e.ew, e.ops + 1, e.basis, e.lay)
        if o == "tp":
            e = self.mat(c, r, d - 1)
            return X("cml::transpose(%s)" % e.cpp, "rx::tp(%s)" % e.ref, sh, e.isint, e.mag, e.frac, False, e.ops + 1, e.basis, e.lay)
        if o == "outer":
            l, rr = self.vec(r, d - 1), self.vec(c, d - 1)
            return X("cml::outer(%s, %s)" % (l.cpp, rr.cpp), "rx::outer(%s, %s)" % (l.ref, rr.ref), sh, l.isint and rr.isint, l.mag + rr.mag, l.frac + rr.frac, False, l.ops + rr.ops + 1, None)
        if o == "mm":
            k = R.choice([1, 2, 3, 4] * 3 + [8])
            l, rr = self.mat(r, k, d - 1), self.mat(k, c, d - 1)
            b = self.bprom(l.basis, rr.basis)
            y = self.bprom(l.lay, rr.lay)
            if b in (None, "mixed") or y in (None, "mixed"):
                raise Stop()   # rejected at compile time by the library
            return X("(%s * %s)" % (l.cpp, rr.cpp), "rx::mm(%s, %s)" % (l.ref, rr.ref), sh, l.isint and rr.isint, l.mag + rr.mag + (2 if k <= 4 else 3), l.frac + rr.frac, False, l.ops + rr.ops + 1, b, y)
        raise AssertionError(o)


def program(idx):
    while True:
        p = Prog()
        d = R.choice([1, 2, 2, 3, 3, 4, 4, 5])
        try:
            e = p.vec(R.choice([2, 3, 3, 3, 4, 5, 6, 2, 3, 3, 4, 9, 14]), d) if a.kind == "v" else p.mat(R.choice(MD), R.choice(MD), d)
        except Stop:
            continue
        if e.ops >= R.choice([1, 2, 2, 3, 3]) and e.basis != "mixed":
            break
    vec = a.kind == "v"
    o = []
    o.append("// %s" % e.cpp)
    o.append("static void prog_%d(Rng& g) {" % idx)
    for l in p.leaves:
        if l["m"]:
            o.append("  typedef %s L%d; auto x%d = zoo::rmat<%s>(g, %d, %d, 7); auto r%d = rx::ref(x%d);" % (l["T"], l["k"], l["k"], l["E"], l["r"], l["c"], l["k"], l["k"]))
        else:
            o.append("  typedef %s L%d; auto x%d = zoo::rvec<%s>(g, %d, 7); auto r%d = rx::ref(x%d);" % (l["T"], l["k"], l["k"], l["E"], l["n"], l["k"], l["k"]))
    for s in p.scalars:
        if s["div"]:
            o.append("  %s s%d = %s(1 << g.i(0, 2)) * (g.coin() ? 1 : -1);" % (s["T"], s["k"], s["T"]))
        else:
            o.append("  %s s%d = zoo::small<%s>(g, 7);" % (s["T"], s["k"], s["T"]))
        o.append("  mon::mixd(double(s%d));" % s["k"])
    o.append("  const auto want = %s;" % e.ref)
    o.append('  mon::note("%s");' % e.cpp)
    decl = " ".join(("zoo::MH<L%d> h%d(x%d);" if l["m"] else "zoo::VH<L%d> h%d(x%d);") % (l["k"], l["k"], l["k"]) for l in p.leaves if l["cat"] != "pr")
    same = " ".join('%s(h%d.%s, r%d, "operand-changed");' % ("rx::seem" if l["m"] else "rx::seev", l["k"], "m" if l["m"] else "v", l["k"]) for l in p.leaves if l["cat"] in ("lv", "clv"))
    see = "rx::seev" if vec else "rx::seem"
    n = e.shape[0]
    r, c = (e.shape if not vec else (0, 0))
    forms = []
    # deferred
    forms.append('auto e = %s; rx::clobber(); %s(e, want, "deferred"); %s(e, want, "deferred-again"); %s' % (e.cpp, see, see, same))
    cp = 'auto e = %s; rx::clobber(); auto f = e; auto k = std::move(f); rx::clobber(); %s(k, want, "copied-node"); %s(e, want, "node-after-copy"); %s' % (e.cpp, see, see, same)
    forms.append(cp)
    E = R.choice(["int", "long", "double"]) if e.isint else "double"
    if vec:
        tt = ["vector<%s, fixed<%d>>" % (E, n), "vector<%s, dynamic<>>" % E]
        te = ["vector<%s, external<%d>>" % (E, n), "vector<%s, external<>>" % E]
        T = R.choice(tt)
        forms.append('%s t(%s); %s(t, want, "construct"); %s' % (T, e.cpp, see, same))
        T = R.choice(tt + te)
        pre = "std::vector<%s> z(%d, %s(-99)); zoo::VH<%s> q(z);" % (E, R.randint(1, 7) if "dynamic" in T else n, E, T)
        tv, key = "q.v", "v"
        forms.append('%s auto& b = (q.v = %s); %s(q.v, want, "assign"); mon::check(&b == &q.v, "assign-returns-target"); %s' % (pre, e.cpp, see, same))
        T = R.choice(tt + te)
        forms.append('auto w = zoo::rvec<%s>(g, %d, 7); zoo::VH<%s> q(w); q.v += %s; %s(q.v, rx::add(rx::ref(w), want), "plus-assign"); %s' % (E, n, T, e.cpp, see, same))
        forms.append('auto w = zoo::rvec<%s>(g, %d, 7); zoo::VH<%s> q(w); q.v -= %s; %s(q.v, rx::sub(rx::ref(w), want), "minus-assign"); %s' % (E, n, R.choice(tt + te), e.cpp, see, same))
        if 2 * (e.mag + e.frac) + 3 <= LIM:
          forms.append('mon::cke((%s).length_squared(), rx::sum2(want), "length_squared"); %s' % (e.cpp, same))
        if e.mag + e.frac + 6 <= 24:
          forms.append('auto w = zoo::rvec<double>(g, %d, 7); zoo::VH<%s> q(w); ld s = 0; for(int i = 0; i < %d; ++i) s += ld(w[i]) * want[i]; mon::cke(cml::dot(%s, q.v), s, "dot"); %s' % (n, R.choice(tt + te).replace("<%s," % E, "<double,"), n, e.cpp, same))
        forms.append('auto t = [&]() { %s return %s; }; (void) t; std::vector<double> w(want.begin(), want.end()); zoo::VH<vector<double, dynamic<>>> q(w); { mon::check(%s == q.v, "equal-to-result"); } %s' % ("", "0", e.cpp, same))
    else:
        B = R.choice(["row_basis", "col_basis"])
        L = R.choice(["row_major", "col_major"])
        tt = ["matrix<%s, fixed<%d, %d>, %s, %s>" % (E, r, c, B, L), "matrix<%s, dynamic<>, %s, %s>" % (E, B, L)]
        te = ["matrix<%s, external<%d, %d>, %s, %s>" % (E, r, c, B, L), "matrix<%s, external<>, %s, %s>" % (E, B, L)]
        forms.append('%s t(%s); %s(t, want, "construct"); %s' % (R.choice(tt), e.cpp, see, same))
        T = R.choice(tt + te)
        zr, zc = (R.randint(1, 5), R.randint(1, 5)) if "dynamic" in T else (r, c)
        pre = "zoo::RM<%s> z(%d, %d); for(auto& y : z.a) y = %s(-99); zoo::MH<%s> q(z);" % (E, zr, zc, E, T)
        forms.append('%s auto& b = (q.m = %s); %s(q.m, want, "assign"); mon::check(&b == &q.m, "assign-returns-target"); %s' % (pre, e.cpp, see, same))
        forms.append('auto w = zoo::rmat<%s>(g, %d, %d, 7); zoo::MH<%s> q(w); q.m += %s; %s(q.m, rx::add(rx::ref(w), want), "plus-assign"); %s' % (E, r, c, R.choice(tt + te), e.cpp, see, same))
        forms.append('auto w = zoo::rmat<%s>(g, %d, %d, 7); zoo::MH<%s> q(w); q.m -= %s; %s(q.m, rx::sub(rx::ref(w), want), "minus-assign"); %s' % (E, r, c, R.choice(tt + te), e.cpp, see, same))
        forms.append('zoo::RM<double> w(%d, %d); for(size_t i = 0; i < w.a.size(); ++i) w.a[i] = double(want.a[i]); zoo::MH<matrix<double, dynamic<>, %s, %s>> q(w); mon::check(%s == q.m, "equal-to-result"); %s' % (r, c, B, L, e.cpp, same))
        if r == c:
            forms.append('ld s = 0; for(int i = 0; i < %d; ++i) s += want(i, i); mon::cke(cml::trace(%s), s, "trace"); %s' % (r, e.cpp, same))
    # aliased target, element-wise programs only
    if e.ew:
        al = [l for l in p.leaves if l["cat"] == "lv" and not l["s"].startswith("c") and l["m"] == (not vec) and (l["E"] == "double" or (e.isint and l["E"] == "int"))]
        if al:
            l = R.choice(al)
            h = "h%d.%s" % (l["k"], "v" if vec else "m")
            op = R.choice(["=", "+=", "-="])
            w = {"=": "want", "+=": "rx::add(r%d, want)" % l["k"], "-=": "rx::sub(r%d, want)" % l["k"]}[op]
            others = " ".join('%s(h%d.%s, r%d, "operand-changed");' % ("rx::seem" if x["m"] else "rx::seev", x["k"], "m" if x["m"] else "v", x["k"]) for x in p.leaves if x["cat"] in ("lv", "clv") and x is not l)
            forms.append('%s %s %s; %s(%s, %s, "aliased-target"); %s mon::bin("form/aliased");' % (h, op, e.cpp, see, h, w, others))
    pick = [forms[0]] + R.sample(forms[1:], min(3, len(forms) - 1))
    if len(forms) > 9 and forms[-1] not in pick and "aliased" in forms[-1]:
        pick.append(forms[-1])
    for f in pick:
        o.append("  { %s %s }" % (decl, f))
    for l in p.leaves:
        o.append('  mon::bin("leaf/%s/%s/%s/%s");' % ("matrix" if l["m"] else "vector", l["s"], l["E"], l["cat"]))
    for w in ("hadamard", "cross", "subvector", "row(", "col(", "basis(", "transpose", "outer"):
        if "cml::" + w in e.cpp or "." + w in e.cpp:
            o.append('  mon::bin("op/%s");' % w.strip("("))
    o.append('  mon::bin("operators/%d");' % min(e.ops, 9))
    o.append("}")
    return "\n".join(o)


out = ['#include "exprlib.h"', "using mon::Rng; using mon::ld; using namespace zoo;", ""]
for i in range(a.n):
    out.append(program(i))
out.append("int main(int argc, char** argv) {\n  mon::init(argc, argv);")
for i in range(a.n):
    out.append('  mon::group("prog%02d", 40, prog_%d);' % (i, i))
out.append("  return mon::finish();\n}")
open(a.out, "w").write("\n".join(out) + "\n")
