"""Reduced ordered decision diagrams: the canonical form of path predicates.

This is only a data structure that makes two predicates over the same branch atoms comparable
(same function <=> same node); nothing is solved or searched.
"""


class Blowup(Exception):
    """More nodes than the caller allows."""


class Bdd:
    F, T = 0, 1

    def __init__(self, limit=None):
        self.limit = limit
        self.var = [1 << 60, 1 << 60]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.unique = {}
        self.memo = {}
        self.names = []      # var index -> atom key
        self.index = {}      # atom key -> var index

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.unique.get(k)
        if n is None:
            n = len(self.var)
            if self.limit and n > self.limit:
                raise Blowup()
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.unique[k] = n
        return n

    def atom(self, key):
        v = self.index.get(key)
        if v is None:
            v = len(self.names)
            self.names.append(key)
            self.index[key] = v
        return self.mk(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        var, lo, hi = self.var, self.lo, self.hi
        v = min(var[f], var[g], var[h])
        f0, f1 = (lo[f], hi[f]) if var[f] == v else (f, f)
        g0, g1 = (lo[g], hi[g]) if var[g] == v else (g, g)
        h0, h1 = (lo[h], hi[h]) if var[h] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def not_(self, f):
        return self.ite(f, 0, 1)

    def and_(self, f, g):
        if f == g:
            return f
        if f > g:
            f, g = g, f
        return self.ite(f, g, 0)

    def or_(self, f, g):
        if f == g:
            return f
        if f > g:
            f, g = g, f
        return self.ite(f, 1, g)

    def xor(self, f, g):
        return self.ite(f, self.not_(g), g)

    def all(self, fs):
        r = 1
        for f in fs:
            r = self.and_(r, f)
        return r

    def any(self, fs):
        r = 0
        for f in fs:
            r = self.or_(r, f)
        return r

    def restrict(self, f, v, val):
        """f with the atom v fixed."""
        if f < 2 or self.var[f] > v:
            return f
        if self.var[f] == v:
            return self.hi[f] if val else self.lo[f]
        k = ("x", f, v, val)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.mk(self.var[f], self.restrict(self.lo[f], v, val), self.restrict(self.hi[f], v, val))
        return r

    def implies(self, f, g):
        return self.and_(f, self.not_(g)) == 0

    def constrain(self, f, c):
        """A predicate equal to f wherever c holds (generalised cofactor, 'restrict' variant)."""
        if c == 0:
            return 0
        if c == 1 or f < 2:
            return f
        k = ("r", f, c)
        r = self.memo.get(k)
        if r is not None:
            return r
        vf, vc = self.var[f], self.var[c]
        if vc < vf:
            r = self.constrain(f, self.or_(self.lo[c], self.hi[c]))
        else:
            c0, c1 = (self.lo[c], self.hi[c]) if vc == vf else (c, c)
            f0, f1 = self.lo[f], self.hi[f]
            if c0 == 0:
                r = self.constrain(f1, c1)
            elif c1 == 0:
                r = self.constrain(f0, c0)
            else:
                r = self.mk(vf, self.constrain(f0, c0), self.constrain(f1, c1))
        self.memo[k] = r
        return r

    def given(self, f, c):
        """f without the variables whose value c settles (the same for every variable order)."""
        if c < 2 or f < 2:
            return f
        for v in sorted(self.support(f)):
            x = self.mk(v, 0, 1)
            if self.implies(c, x):
                f = self.restrict(f, v, True)
            elif self.implies(c, self.not_(x)):
                f = self.restrict(f, v, False)
        return f

    def size(self, fs):
        seen, st = set(), list(fs)
        while st:
            n = st.pop()
            if n > 1 and n not in seen:
                seen.add(n)
                st.append(self.lo[n])
                st.append(self.hi[n])
        return len(seen)

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            out.add(self.var[n])
            st.append(self.lo[n])
            st.append(self.hi[n])
        return sorted(out)

    def exists(self, f, vs):
        vs = frozenset(vs)
        memo = {}

        def go(n):
            if n < 2:
                return n
            r = memo.get(n)
            if r is None:
                a, b = go(self.lo[n]), go(self.hi[n])
                r = self.or_(a, b) if self.var[n] in vs else self.ite(self.mk(self.var[n], 0, 1), b, a)
                memo[n] = r
            return r

        return go(f)

    def subst(self, f, m):
        """Replace variable v by node m[v] (variables not in m stay)."""
        memo = {}

        def go(n):
            if n < 2:
                return n
            r = memo.get(n)
            if r is None:
                v = self.var[n]
                g = m[v] if v in m else self.mk(v, 0, 1)
                r = self.ite(g, go(self.hi[n]), go(self.lo[n]))
                memo[n] = r
            return r

        return go(f)

    def isop(self, f):
        """An irredundant sum of products (canonical for a given variable order)."""
        memo = {}

        def go(lo_, up):
            if lo_ == 0:
                return 0, []
            if up == 1:
                return 1, [()]
            k = (lo_, up)
            if k in memo:
                return memo[k]
            v = min(self.var[lo_], self.var[up])
            l0, l1 = (self.lo[lo_], self.hi[lo_]) if self.var[lo_] == v else (lo_, lo_)
            u0, u1 = (self.lo[up], self.hi[up]) if self.var[up] == v else (up, up)
            g0, c0 = go(self.and_(l0, self.not_(u1)), u0)
            g1, c1 = go(self.and_(l1, self.not_(u0)), u1)
            ld = self.or_(self.and_(l0, self.not_(g0)), self.and_(l1, self.not_(g1)))
            gd, cd = go(ld, self.and_(u0, u1))
            x = self.mk(v, 0, 1)
            g = self.or_(gd, self.ite(x, g1, g0))
            r = (g, [((v, False),) + c for c in c0] + [((v, True),) + c for c in c1] + cd)
            memo[k] = r
            return r

        return go(f, f)[1]

    def cubes(self, f, limit=64):
        """A sum of products for printing."""
        out = []

        def go(n, acc):
            if len(out) >= limit or n == 0:
                return
            if n == 1:
                out.append(list(acc))
                return
            acc.append((self.var[n], True))
            go(self.hi[n], acc)
            acc.pop()
            acc.append((self.var[n], False))
            go(self.lo[n], acc)
            acc.pop()

        go(f, [])
        return out
