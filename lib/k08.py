"""K08: symbolic matrix expressions.  Expressions are built through the repository's operators and, at
the same time, written out on matrices of integers modulo a prime; whatever the repository makes of
them is evaluated from the text it renders."""
import os, re, sys, types
from . import build as B
from .pbt import Src, req, Fail

P = (1 << 61) - 1
HALF = pow(2, -1, P)

def load():
    """the repository's modules, from its current tree"""
    if B.REPO not in sys.path:
        sys.path.insert(0, B.REPO)
    import core.ekf.ekf_gen.symb_matrix as sm, core.ekf.ekf_gen.symb_algebra as sa, core.ekf.ekf_gen.symb_block_matrix as sb
    assert sm.__file__.startswith(B.REPO + "/"), sm.__file__
    return sm, sa, sb

class M:
    """a matrix, or a scalar when r is None; arithmetic modulo P with sizes checked"""
    def __init__(self, v, r=None, c=None):
        self.v, self.r, self.c = v, r, c
    @property
    def scalar(self): return self.r is None
    def same(self, o): return (self.r, self.c) == (o.r, o.c) and self.v == o.v
    def __add__(self, o):
        o = lift(o)
        if (self.r, self.c) != (o.r, o.c): raise Fail("text adds sizes %sx%s and %sx%s" % (self.r, self.c, o.r, o.c))
        if self.scalar: return M((self.v + o.v) % P)
        return M([[(a + b) % P for a, b in zip(x, y)] for x, y in zip(self.v, o.v)], self.r, self.c)
    def __neg__(self):
        if self.scalar: return M(-self.v % P)
        return M([[-a % P for a in x] for x in self.v], self.r, self.c)
    def __sub__(self, o): return self + -lift(o)
    def __radd__(self, o): return lift(o) + self
    def __mul__(self, o):
        o = lift(o)
        if self.scalar and o.scalar: return M(self.v * o.v % P)
        if self.scalar: return M([[self.v * a % P for a in x] for x in o.v], o.r, o.c)
        if o.scalar: return M([[o.v * a % P for a in x] for x in self.v], self.r, self.c)
        if self.c != o.r: raise Fail("text multiplies %sx%s by %sx%s" % (self.r, self.c, o.r, o.c))
        return M([[sum(self.v[i][k] * o.v[k][j] for k in range(self.c)) % P for j in range(o.c)] for i in range(self.r)], self.r, o.c)
    def __rmul__(self, o): return lift(o) * self
    @property
    def T(self): return self.transpose()
    def transpose(self):
        if self.scalar: raise Fail("text transposes a number")
        return M([list(x) for x in zip(*self.v)] if self.r and self.c else [[] for _ in range(self.c)], self.c, self.r)

def lift(x):
    if isinstance(x, M): return x
    if isinstance(x, bool): raise Fail("text")
    if isinstance(x, int): return M(x % P)
    if isinstance(x, float):
        n, d = x.as_integer_ratio()
        return M(n * pow(d, -1, P) % P)
    raise Fail("text has %r" % (x,))

# sizes: fixed ones and variable ones with their present and largest value
class Dim:
    def __init__(self, sym, n, mx): self.sym, self.n, self.mx = sym, n, mx
    def __eq__(self, o): return self.sym == o.sym
    def __hash__(self): return hash(self.sym)
    def __repr__(self): return str(self.sym)

class World:
    """the symbols of one case"""
    def __init__(self, s):
        self.s = s
        self.sm, self.sa, self.sb = load()
        self.explicit = s.chance(0.5)        # every block with explicit maximum sizes, as generated code has them
        dims = []
        for i in range(s.irange(1, 3)):
            if s.chance(0.35):
                mx = s.irange(1, 4)
                dims.append(Dim("n%d" % i, s.irange(0, mx), mx))
            else:
                n = s.irange(1, 4)
                if not any(d.sym == n for d in dims):
                    dims.append(Dim(n, n, n))
        self.dims = dims
        self.syms, self.vals, self.fresh = {}, {}, 0
        self.seedv = s.draw(10 ** 9)
        self.all = []       # (object, value, rows, cols) of everything built
    def rnd(self, name, r, c):
        """values of a symbol: a fixed function of its name"""
        h = hash_str("%d/%s" % (self.seedv, name))
        out = []
        for i in range(r):
            row = []
            for j in range(c):
                h = (h * 6364136223846793005 + 1442695040888963407) % (1 << 64)
                row.append((h >> 8) % P)
            out.append(row)
        return out
    def sized(self, name, r, c):
        if not self.explicit and not isinstance(r.sym, str) and not isinstance(c.sym, str) and not (r.n == 1 and c.n == 1):
            return self.sm.ConstBlock(name, r.sym, c.sym)
        return self.sm.ConstBlock(name, r.sym, c.sym, r.mx, c.mx)
    def leaf(self, r, c):
        s = self.s
        k = s.weighted([6, 2, 2])
        if k == 1:
            return self.sized("0", r, c), M([[0] * c.n for _ in range(r.n)], r.n, c.n)
        if k == 2 and r == c:
            return self.sized("I", r, c), M([[int(i == j) for j in range(c.n)] for i in range(r.n)], r.n, c.n)
        # few names, so that terms coincide
        name = "m%d_%s_%s" % (s.draw(2), r, c)
        if name not in self.vals:
            self.vals[name] = M(self.rnd(name, r.n, c.n), r.n, c.n)
        return self.sized(name, r, c), self.vals[name]
    def scalar(self, depth):
        s = self.s
        k = s.weighted([4, 2, 2, 1, 1, 1, 1]) if depth > 0 else s.weighted([4, 2, 2])
        C = self.sm.ConstBlock
        if k == 0:
            name = s.pick(["dt", "ds"])
            if name not in self.vals:
                self.vals[name] = M(self.rnd(name, 1, 1)[0][0])
            return C(name, 1, 1), self.vals[name]
        if k == 1:
            n = s.irange(2, 3)
            return C(str(n), 1, 1), M(n)
        if k == 2:
            return C("0.5", 1, 1), M(HALF)
        a, va = self.scalar(depth - 1)
        if k == 3:
            b, vb = self.scalar(depth - 1)
            return a * b, va * vb
        if k == 4:
            b, vb = self.scalar(depth - 1)
            return a + b, va + vb
        if k == 5:
            return -a, -va
        return a.T, va
    def expr(self, r, c, depth):
        o, v = self.expr_(r, c, depth)
        self.all.append((o, v, r, c))
        return o, v
    def expr_(self, r, c, depth):
        s = self.s
        if depth <= 0:
            return self.leaf(r, c)
        k = s.weighted([1, 3, 1, 3, 3, 2, 1, 1, 2, 8])
        if k == 9:
            return self.shared(r, c, depth)
        if k == 0:
            return self.leaf(r, c)
        if k == 1 or k == 2:
            a, va = self.expr(r, c, depth - 1)
            b, vb = self.expr(r, c, depth - 1)
            return (a + b, va + vb) if k == 1 else (a - b, va - vb)
        if k == 3:
            m = s.pick(self.dims)
            a, va = self.expr(r, m, depth - 1)
            b, vb = self.expr(m, c, depth - 1)
            return a * b, va * vb
        if k == 4:
            a, va = self.expr(r, c, depth - 1)
            x, vx = self.scalar(s.draw(2))
            return (a * x, va * vx) if s.chance(0.5) else (x * a, vx * va)
        if k == 5:
            a, va = self.expr(c, r, depth - 1)
            return a.T, va.T
        if k == 6:
            a, va = self.expr(r, c, depth - 1)
            return -a, -va
        if k == 7:
            # something built before, again
            same = [(o, v) for o, v, r2, c2 in self.all if r2 == r and c2 == c]
            if same:
                return s.pick(same)
            return self.leaf(r, c)
        a, va = self.expr(r, c, depth - 1)
        f = s.pick(["reduce", "combine_factors", "factor_scalars", "factor_first_term", "factor_last_term"])
        return getattr(self.sa, f)(a), va

    def shared(self, r, c, depth):
        """a sum whose terms have factors in common"""
        s = self.s
        m = s.pick(self.dims)
        common = self.expr(r, m, s.draw(1)), self.expr(m, c, s.draw(1)), self.scalar(s.draw(1)), self.expr(r, c, s.draw(1))
        (a, va), (b, vb), (x, vx), (t, vt) = common
        out = None
        for _ in range(s.irange(2, 4)):
            k = s.weighted([2, 2, 2, 2, 1, 1])
            d = s.draw(min(2, depth - 1))
            if k == 0:
                o, v = self.expr(m, c, d)
                o, v = a * o, va * v
            elif k == 1:
                o, v = self.expr(r, m, d)
                o, v = o * b, v * vb
            elif k == 2:
                o, v = self.expr(r, c, d)
                o, v = (x * o, vx * v) if s.chance(0.5) else (o * x, v * vx)
            elif k == 3:
                o, v = t, vt
            elif k == 4:
                o, v = a * b, va * vb
            else:
                o, v = self.expr(r, c, d)
            if s.chance(0.3):
                y, vy = (x, vx) if s.chance(0.5) else self.scalar(1)
                o, v = o * y, v * vy
            if out is None:
                out = (o, v)
            elif s.chance(0.3):
                out = (out[0] - o, out[1] - v)
            else:
                out = (out[0] + o, out[1] + v)
        return out

    def value(self, text, r=None, c=None):
        """the value of rendered code (transpose() or .T)"""
        req("--" not in text and "+ +" not in text, "text with a doubled sign: %s", text)
        dims = {str(d): d for d in self.dims}
        dims["1"] = Dim(1, 1, 1)
        env = dict(self.vals)
        def const(m):
            k, a, b = m.group(1), dims.get(m.group(2)), dims.get(m.group(3))
            req(a is not None and b is not None, "text has a matrix of unknown size: %s", text)
            nm = "K%s_%s_%s" % (k, m.group(2), m.group(3))
            env[nm] = M([[int(k == "I" and i == j) for j in range(b.n)] for i in range(a.n)], a.n, b.n)
            return nm
        t = re.sub(r"(?<![A-Za-z0-9_])([0I])_([A-Za-z0-9]+?)x([A-Za-z0-9]+)", const, text)
        try:
            return lift(eval(t, {"__builtins__": {}}, env))
        except (NameError, SyntaxError, AttributeError, TypeError) as e:
            raise Fail("text %s cannot be evaluated: %s" % (text, e))

def hash_str(t):
    h = 1469598103934665603
    for ch in t.encode():
        h = ((h ^ ch) * 1099511628211) % (1 << 64)
    return h

def show(o):
    return o.render()[:300]

def check_object(w, o, v, r, c, what):
    got = w.value(o.render())
    req(got.same(v), "%s: text %s has another value than the expression written out", what, show(o))
    if r is not None:
        req((o.rows, o.cols) == (r.sym, c.sym), "%s: size is %s, not %s", what, (o.rows, o.cols), (r.sym, c.sym))
        req((o.max_rows, o.max_cols) == (r.mx, c.mx), "%s: largest size is %s, not %s", what, (o.max_rows, o.max_cols), (r.mx, c.mx))
        req(o.shape == (r.sym, c.sym) and o.max_shape == (r.mx, c.mx), "%s: shape", what)
        req(o.is_variable() == (isinstance(r.sym, str) or isinstance(c.sym, str)), "%s: is_variable() is %s", what, o.is_variable())
    if o.is_zero:
        req(v.same(v * M(0)), "%s: %s counts as zero", what, show(o))
    if o.is_identity and r is not None:
        one = M([[int(i == j) for j in range(c.n)] for i in range(r.n)], r.n, c.n)
        req(v.same(one), "%s: %s counts as identity", what, show(o))

def named_value(w, o):
    """the value of the expression's name, in which identities and zeros carry no size"""
    return o.name

def simplification(s):
    w = World(s)
    r, c = s.pick(w.dims), s.pick(w.dims)
    o, v = w.expr(r, c, s.irange(1, 5))
    built = [(x, vx, rx, cx, x.render()) for x, vx, rx, cx in w.all]
    for x, vx, rx, cx, _ in built:
        check_object(w, x, vx, rx, cx, "built")
    fs = ["reduce", "combine_factors", "factor_scalars", "factor_first_term", "factor_last_term"]
    changed = 0
    for f in s.shuffle(fs)[:s.irange(1, 5)]:
        q = getattr(w.sa, f)(o)
        check_object(w, q, v, r, c, f)
        changed += q.render() != o.render()
        if s.chance(0.3):
            o = q
        if s.chance(0.2):
            t = q.T
            check_object(w, t, v.T, c, r, f + " transposed")
            check_object(w, -q, -v, r, c, f + " negated")
    if isinstance(o, w.sm.Add):
        check_object(w, w.sa.factor(o), v, r, c, "factor")
    for x, vx, rx, cx, text in built:
        req(x.render() == text, "simplifying changed an expression it was given: %s is now %s", text, show(x))
    s.note("%s = %s" % (built[-1][4][:200], w.sa.reduce(o).render()[:200]))
    if changed:
        s.nontrivial()
        s.label("rewritten")

def equality(s):
    """expressions which compare equal have equal values and hashes"""
    w = World(s)
    r, c = s.pick(w.dims), s.pick(w.dims)
    n = s.irange(2, 6)
    for _ in range(n):
        # shallow ones, so that equal ones occur
        w.expr(r, c, s.irange(0, 2))
    for _ in range(s.draw(2)):
        x, v = w.scalar(2)
        w.all.append((x, v, None, None))
    eq = 0
    for i, (a, va, ra, ca) in enumerate(w.all):
        req(a == a and hash(a) == hash(a), "%s differs from itself", show(a))
        req(not (a == 3) and not (a == a.render()), "%s equals something which is no expression", show(a))
        for b, vb, rb, cb in w.all[:i]:
            req((a == b) == (b == a), "equality of %s and %s is not symmetric", show(a), show(b))
            if a == b:
                eq += a is not b and a.render() != b.render()
                req(va.same(vb) and (a.rows, a.cols) == (b.rows, b.cols), "%s and %s compare equal but have different values", show(a), show(b))
                req(hash(a) == hash(b), "equal expressions %s and %s have different hashes", show(a), show(b))
    s.note("%d expressions of %sx%s, %d equal ones written differently" % (len(w.all), r, c, eq))
    if len(w.all) > 2:
        s.nontrivial()
    if eq:
        s.label("equal, written differently")

class BM:
    """reference block matrix: values and sizes"""
    def __init__(self, v, rd, cd): self.v, self.rd, self.cd = v, rd, cd
    def mul(self, o):
        return BM([[sum_m([self.v[i][k] * o.v[k][j] for k in range(len(self.cd))]) for j in range(len(o.cd))] for i in range(len(self.rd))], self.rd, o.cd)

def sum_m(xs):
    t = xs[0]
    for x in xs[1:]:
        t = t + x
    return t

def check_blocks(w, o, ref, what):
    req((o.rows, o.cols) == (len(ref.rd), len(ref.cd)) and o.shape() == (o.rows, o.cols), "%s: %sx%s blocks", what, o.rows, o.cols)
    for i, r in enumerate(ref.rd):
        for j, c in enumerate(ref.cd):
            check_object(w, o[i, j], ref.v[i][j], r, c, "%s, block %d,%d" % (what, i, j))
            req(o.row(i)[j] is o[i, j] and o.col(j)[i] is o[i, j], "%s: row or column", what)
    # sizes of the whole
    def total(ds):
        return sum(d.n for d in ds)
    fr, fc = o.full_shape()
    env = {d.sym: d.n for d in w.dims if isinstance(d.sym, str)}
    for got, ds in ((fr, ref.rd), (fc, ref.cd)):
        n = eval(str(got), {"__builtins__": {}}, env)
        req(n == total(ds), "%s: full shape %s", what, got)

def gen_blocks(w, rd, cd, depth):
    s = w.s
    ob, vb = [], []
    dens = s.pick([1, 4, 9])
    for r in rd:
        orow, vrow = [], []
        for c in cd:
            if s.draw(9) > dens:
                o, v = w.sized("0", r, c), M([[0] * c.n for _ in range(r.n)], r.n, c.n)
            else:
                o, v = w.expr(r, c, s.draw(depth))
            orow.append(o)
            vrow.append(v)
        ob.append(orow)
        vb.append(vrow)
    return w.sb.SymBlockMatrix(ob), BM(vb, rd, cd)

def blocks(s):
    w = World(s)
    def some():
        return [s.pick(w.dims) for _ in range(s.irange(1, 3))]
    rd, cd = some(), some()
    o, ref = gen_blocks(w, rd, cd, 2)
    check_blocks(w, o, ref, "built")
    n = s.irange(1, 5)
    ops = []
    for _ in range(n):
        if max(len(show(b)) for row in o._block_list for b in row) >= 300:
            break
        keep, kref, ktext = o, ref, repr_text(o)
        k = s.weighted([3, 2, 3, 2, 2, 2, 1, 1])
        if k in (0, 1):
            p, pr = gen_blocks(w, ref.rd, ref.cd, 1)
            pt = repr_text(p)
            o = o + p if k == 0 else o - p
            ref = BM([[a + b if k == 0 else a - b for a, b in zip(x, y)] for x, y in zip(ref.v, pr.v)], ref.rd, ref.cd)
            what = "sum" if k == 0 else "difference"
            req(repr_text(p) == pt, "%s changes its operand", what)
        elif k == 2:
            left = s.chance(0.5)
            ds = some()
            p, pr = gen_blocks(w, ds, ref.rd, 1) if left else gen_blocks(w, ref.cd, ds, 1)
            o, ref, what = (p * o, pr.mul(ref), "product") if left else (o * p, ref.mul(pr), "product")
        elif k == 3:
            x, vx = w.scalar(1)
            o, ref, what = o * x, BM([[a * vx for a in r] for r in ref.v], ref.rd, ref.cd), "multiple"
        elif k == 4:
            o = o.T
            ref, what = BM([[ref.v[i][j].T for i in range(len(ref.rd))] for j in range(len(ref.cd))], ref.cd, ref.rd), "transpose"
        elif k == 5:
            o, what = o.reduce(), "reduced"
            keep = None
        elif k == 6:
            p, pr = gen_blocks(w, some(), ref.cd, 1)
            o, ref, what = w.sb.vstack(o, p), BM(ref.v + pr.v, ref.rd + pr.rd, ref.cd), "stacked"
        else:
            p, pr = gen_blocks(w, ref.rd, some(), 1)
            o, ref, what = w.sb.hstack([o, p]), BM([a + b for a, b in zip(ref.v, pr.v)], ref.rd, ref.cd + pr.cd), "put side by side"
        ops.append(what)
        check_blocks(w, o, ref, " then ".join(ops))
        if keep is not None:
            req(repr_text(keep) == ktext, "%s changes its operand", what)
    fixed_r = all(not isinstance(d.sym, str) for d in ref.rd)
    fixed_c = all(not isinstance(d.sym, str) for d in ref.cd)
    if fixed_r and fixed_c:
        i, j = s.draw(len(ref.rd)), s.draw(len(ref.cd))
        if i < len(ref.rd) or True:
            tl = o.top_left_corner(i, j)
            req(tl == (sum(d.n for d in ref.rd[:i]), sum(d.n for d in ref.cd[:j])), "block %d,%d starts at %s", i, j, tl)
    check_blocks(w, o.reduce(), ref, "reduced at last")
    s.note("%s of %sx%s blocks: %s" % (" then ".join(ops), len(ref.rd), len(ref.cd), repr_text(o)[:300]))
    if len(ref.rd) * len(ref.cd) > 1:
        s.nontrivial()

def repr_text(o):
    return "|".join(b.render() for row in o._block_list for b in row)

def refused(s):
    """operands whose sizes do not fit are refused"""
    w = World(s)
    dims = w.dims + [Dim(7, 7, 7), Dim("n9", 2, 5)]
    r, c, r2, c2 = (s.pick(dims) for _ in range(4))
    a = w.sized("m0", r, c)
    b = w.sized("m1", r2, c2)
    def stops(f):
        try:
            f()
        except (RuntimeError, ValueError, RuntimeWarning):
            return True
        return False
    if (r, c) != (r2, c2):
        req(stops(lambda: a + b), "%sx%s + %sx%s is accepted", r, c, r2, c2)
        req(stops(lambda: a - b), "%sx%s - %sx%s is accepted", r, c, r2, c2)
        s.nontrivial()
    if c != r2:
        req(stops(lambda: a * b), "%sx%s * %sx%s is accepted", r, c, r2, c2)
        S = w.sb.SymBlockMatrix
        req(stops(lambda: S([[a]]) * S([[b]])), "block product %sx%s * %sx%s is accepted", r, c, r2, c2)
        s.nontrivial()
    if r != c:
        req(stops(lambda: w.sized("I", r, c)), "a %sx%s identity is accepted", r, c)
    S = w.sb.SymBlockMatrix
    if r != r2:
        req(stops(lambda: S([[a, b]])), "blocks of %s and %s rows side by side are accepted", r, r2)
    if c != c2:
        req(stops(lambda: S([[a], [b]])), "blocks of %s and %s columns on top of each other are accepted", c, c2)
    s.note("%sx%s and %sx%s" % (r, c, r2, c2))

FNS = {"simplification": simplification, "equality": equality, "blocks": blocks, "refused": refused}
N = {"simplification": (60000, 800000), "equality": (15000, 150000), "blocks": (30000, 300000), "refused": (5000, 20000)}

def check(ctx):
    from . import pbt
    for name, fn in FNS.items():
        ctx.results.append(pbt.run("K08", name, fn, N[name][0 if ctx.tier == "quick" else 1], ctx.seed))
