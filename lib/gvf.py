"""Gated value-flow analysis over the type-checked program (MIR facts).

Forward dataflow over the control-flow graph of a function, in topological order, one visit per block
(two for a loop: a representative iteration and the exit).  The abstract value of a place is a term over
the function's inputs; where control flow joins, the values of the incoming edges are gated by the
predicate of the edge (gated SSA).  Predicates over branch atoms are kept in a canonical form, so two
spellings of the same decision are the same predicate.  Workspace callees and closures are analysed in
the context of their caller; combinators of std have summaries (models.py).  The result is, for every
effect (a call of a sink, a store through an outside reference, a return), what it depends on: the
argument terms and the predicate under which it happens.  Nothing is executed and no path is enumerated.
"""
import hashlib, re, sys
from bdd import Bdd, Blowup

sys.setrecursionlimit(20000)


class GvfError(Exception):
    pass


class T:
    __slots__ = ("op", "a", "id", "gated", "_txt")

    def __repr__(self):
        return f"<{self.op} {self.id}>"


OPTION = "std::option::Option"
RESULT = "std::result::Result"
BUILTIN_ADTS = {
    OPTION: ["Some", "None"],
    RESULT: ["Ok", "Err"],
    "std::task::Poll": ["Ready", "Pending"],
}


def strip_generics(s):
    out, depth, i = [], 0, 0
    while i < len(s):
        c = s[i]
        if c == "<":
            depth += 1
        elif c == ">" and s[i - 1] != "-":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return re.sub(r"(::)+", "::", "".join(out)).strip(":")


def split_top(s, sep):
    """Split at the first top-level occurrence of sep."""
    depth = 0
    for i in range(len(s)):
        c = s[i]
        if c in "<([":
            depth += 1
        elif c in ">)]" and not (c == ">" and i and s[i - 1] == "-"):
            depth -= 1
        elif depth == 0 and s.startswith(sep, i):
            return s[:i], s[i + len(sep):]
    return None


def split_all(s, sep):
    out = []
    while (x := split_top(s, sep)) is not None:
        out.append(x[0])
        s = x[1]
    return out + [s]


_short = {}


def short(path):
    """Normalised name of a callee: the last two segments, without generics; a method of a trait is Trait::method."""
    r = _short.get(path)
    if r is not None:
        return r
    p = path
    # find the last top-level <...> segment that is an impl or a qualified path
    m = re.match(r"^(.*?)(<impl |<)", p)
    tail = p.rsplit("::", 1)[-1]
    head = p[: -len(tail) - 2] if "::" in p else ""
    owner = None
    if head.endswith(">"):
        depth = 0
        j = len(head) - 1
        while j >= 0:
            if head[j] == ">" and head[j - 1] != "-":
                depth += 1
            elif head[j] == "<":
                depth -= 1
                if depth == 0:
                    break
            j -= 1
        inner = head[j + 1:-1]
        if inner.startswith("impl "):
            t = split_top(inner[5:], " for ")
            owner = t[0] if t else inner[5:]
        elif j == 0:
            t = split_top(inner, " as ")
            owner = t[1] if t else inner
        else:
            owner = head[:j].rstrip(":")
    else:
        owner = head
    owner = owner.strip()
    while owner.startswith("&"):
        owner = re.sub(r"^&('\w+ )?(mut )?", "", owner).strip()
    if owner.startswith("["):
        owner = "slice"
    owner = strip_generics(owner)
    own = owner.split("::")[-1] if owner else ""
    r = f"{own}::{tail}" if own else tail
    _short[path] = r
    return r


def base_type(t):
    """Type text without references, lifetimes and generics."""
    t = t.strip()
    while True:
        n = re.sub(r"^&('\w+ )?(mut )?", "", t).strip()
        if n == t:
            break
        t = n
    return strip_generics(t) if not t.startswith(("[", "(")) else t


def trait_of(b):
    """The trait an impl method belongs to, without generics."""
    t = b.get("trait") or ""
    if t.startswith("<") and t.endswith(">"):
        x = split_top(t[1:-1], " as ")
        t = x[1] if x else t
    return strip_generics(t)


class Program:
    """All bodies and type definitions of the crates under analysis."""

    def __init__(self, facts):
        self.bodies, self.adts, self.by_name = {}, {}, {}
        self._flags = None
        self.impls, self.trait_impls = {}, {}
        self.tops = {c: {x.split("::")[1] for x in [b["key"] for b in d["bodies"]] + [p for p in d["adts"] if p.startswith(c + "::")] if "::" in x} for c, d in facts.items()}
        self._canon, self._pat = {}, {}
        for cname, d in facts.items():
            types = d["types"]
            for b in d["bodies"]:
                b["types"] = types
                b["crate"] = cname
                self.bodies[b["key"]] = b
                self.by_name.setdefault(b["name"], []).append(b)
                if b.get("trait"):
                    self.impls.setdefault((trait_of(b), b["name"].rsplit("::", 1)[-1]), []).append(b)
                    self.trait_impls.setdefault(self.canon(trait_of(b), cname), []).append(b)
            for p, a in d["adts"].items():
                if p not in self.adts or a.get("local"):
                    self.adts[p] = a
        self.from_impls = {}
        for (tr, m), bs in self.impls.items():
            if tr == "std::convert::From" and m == "from":
                for b in bs:
                    src = b["types"][b["locals"][1][0]]
                    dst = b["types"][b["locals"][0][0]]
                    self.from_impls[(norm_ty(src), norm_ty(dst))] = b
        self._prep = {}
        self._touch, self._reach = {}, {}

    def canon(self, text, crate):
        """A type as printed inside a crate, with that crate's name in front of its own paths."""
        r = self._canon.get((text, crate))
        if r is None:
            tops = self.tops.get(crate, ())
            r = self._canon[(text, crate)] = re.sub(r"(?<![\w:'])[A-Za-z_]\w*", lambda m: f"{crate}::{m.group()}" if m.group() in tops else m.group(), text)
        return r

    def localise(self, text, crate):
        return re.sub(r"(?<![\w:])" + crate + "::", "", text)

    def impl_pattern(self, b):
        """What `Self` and the trait arguments of an impl look like, with its type parameters as groups."""
        r = self._pat.get(b["key"])
        if r is None:
            gens = b.get("gen") or []
            x = split_top(b["trait"][1:-1], " as ") if b["trait"].startswith("<") else None
            tr = x[1] if x else b["trait"]
            m = re.match(r"^[^<]*<(.*)>$", tr)
            sides = [b["self"]] + ([t for t in split_all(m.group(1), ", ") if not t.startswith("'")] if m else [])
            seen, out = set(), []
            for t in sides:
                t = no_lifetimes(self.canon(t, b["crate"]))

                def sub(m):
                    n = m.group()
                    if n in seen:
                        return f"(?P={n})"
                    seen.add(n)
                    return f"(?P<{n}>.+)"
                names = [g for g in gens if g.isidentifier()]
                parts = re.split(r"(?<![\w:])(" + "|".join(map(re.escape, names)) + r")(?![\w:])", t) if names else [t]
                out.append("".join(re.escape(x) if i % 2 == 0 else sub(re.match(r"\w+", x)) for i, x in enumerate(parts)))
            bare = bool(re.fullmatch(r"\(\?P<\w+>\.\+\)", out[0]))
            try:
                r = None if bare else [re.compile(x) for x in ["\0".join(out)]][0]
            except re.error:
                r = None
            self._pat[b["key"]] = r = (r, len(out), [g for g in gens if g in seen], gens)
        return r

    def flags(self):
        """Flags whose bit another flag of the same set has as well."""
        if self._flags is None:
            by = {}
            def walk(x):
                if isinstance(x, dict):
                    if "ck" in x and "bits" in x and "t" in x:
                        by.setdefault((x["t"], x["bits"]), {})[x["ck"]] = x["cp"]
                    for y in x.values():
                        walk(y)
                elif isinstance(x, list):
                    for y in x:
                        walk(y)
            self._flags = {}
            for b in self.bodies.values():
                if b["kind"] == "AssocConst" and b["key"].endswith("::FLAGS"):
                    by.clear()
                    walk(b["blocks"])
                    walk(b.get("promoted") or b.get("prom") or [])
                    for (t, bits), names in by.items():
                        if len(names) > 1:
                            for ck in names:
                                self._flags[ck, bits] = "=".join(sorted(n.rsplit("::", 1)[-1] for n in names.values()))
        return self._flags

    def impl_method(self, trait, method, ga, crate):
        """The body that runs for a trait method once `Self` is known: (body, types of its parameters), or None."""
        hit, has_impl = None, False
        for b in self.trait_impls.get(self.canon(strip_generics(trait), crate), ()):
            pat, n, groups, gens = self.impl_pattern(b)
            if pat is None or len(ga) < n:
                continue
            m = pat.fullmatch("\0".join(no_lifetimes(self.canon(t, crate)) for t in ga[:n]))
            if not m:
                continue
            has_impl = True
            if b["name"].rsplit("::", 1)[-1] != method:
                continue
            if hit and len(groups) == hit[2]:
                return None, False
            if hit and len(groups) > hit[2]:
                continue
            own = [g for g in gens if g not in groups]
            env = {g: self.localise(m.group(g), b["crate"]) for g in groups}
            env.update((g, self.localise(self.canon(t, crate), b["crate"])) for g, t in zip(own, ga[n:]))
            hit = (b, env, len(groups))
        return hit[:2] if hit else None, has_impl

    def reads(self, b):
        """The locals of a body whose values are looked at."""
        r = b.get("_reads")
        if r is None:
            r = b["_reads"] = {0}

            def walk(x):
                if isinstance(x, list):
                    if x and isinstance(x[0], int):
                        r.add(x[0])
                    for y in x:
                        walk(y)
                elif isinstance(x, dict):
                    for y in x.values():
                        walk(y)
            for blk in b["blocks"]:
                if blk is None:
                    continue
                for s in blk["s"]:
                    walk(s[1:])
                    if len(s[0]) > 1:
                        walk(s[0])
                t = blk["t"]
                if t[0] == "call":
                    walk(t[1])
                    walk(t[2])
                    if len(t[3]) > 1:
                        walk(t[3])
                elif t[0] != "drop":
                    walk(t[1:])
        return r

    def _scan(self, key):
        """Field names one body mentions and the local bodies it refers to."""
        r = self._touch.get(key)
        if r is None:
            b = self.bodies[key]
            names, refs = set(), set()
            work = [b["blocks"], b["locals"], b.get("promoted")]
            while work:
                x = work.pop()
                if isinstance(x, list):
                    if len(x) == 3 and x[0] == "f" and isinstance(x[1], str):
                        names.add(x[1])
                    work.extend(x)
                elif isinstance(x, dict):
                    work.extend(x.values())
                elif isinstance(x, str) and x in self.bodies and x != key:
                    refs.add(x)
            r = self._touch[key] = (names, refs)
        return r

    def touched(self, key):
        """Field names read or written by a body and everything it can reach."""
        r = self._reach.get(key)
        if r is None:
            seen, work, names = {key}, [key], set()
            while work:
                n, refs = self._scan(work.pop())
                names |= n
                for x in refs - seen:
                    seen.add(x)
                    work.append(x)
            r = self._reach[key] = names
        return r

    def variants(self, path):
        if path in BUILTIN_ADTS:
            return BUILTIN_ADTS[path]
        a = self.adts.get(path)
        if a and a["kind"] == "enum":
            return [v["name"] for v in a["variants"]]
        return None

    def prep(self, b):
        k = id(b)
        p = self._prep.get(k)
        if p is None:
            p = self._prep[k] = Prep(b)
        return p


def norm_ty(t):
    t = re.sub(r"'\w+ ?", "", t)
    t = t.replace("<>", "").replace(" ", "")
    t = re.sub(r"<,+", "<", t)
    return t


# calls that give back the receiver they were made on
FLUENT = {"Span::record", "Span::record_all"}
WIDTH = {"u8": ("u", 8), "u16": ("u", 16), "u32": ("u", 32), "u64": ("u", 64), "usize": ("u", 64), "u128": ("u", 128), "i8": ("i", 8), "i16": ("i", 16), "i32": ("i", 32), "i64": ("i", 64), "isize": ("i", 64), "i128": ("i", 128), "f32": ("f", 32), "f64": ("f", 64)}
UNSIGNED = ("u8", "u16", "u32", "u64", "u128", "usize")


def no_lifetimes(t):
    return re.sub(r"<>", "", re.sub(r"(for<[^<>]*> )|(, )?'\w+(?=>)|'\w+,? ", "", t))


PANIC = re.compile(r"panic|_failed$|unreachable|_fail$")


class Prep:
    """Control-flow structure of one body: region tree in topological order."""

    def __init__(self, b):
        bl = b["blocks"]
        n = len(bl)
        self.unreach = {i for i in range(n) if bl[i] is None or bl[i]["t"][0] == "unreach"}
        self.succ = [[] for _ in range(n)]
        for i in range(n):
            if i in self.unreach:
                continue
            t = bl[i]["t"]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                s = [t[2]]
            elif k == "call":
                s = [t[4 - 0]] if t[4] is not None else []
            elif k == "assert":
                s = [t[4]]
            elif k == "yield":
                s = [t[2]]
            else:
                s = []
            seen = []
            for x in s:
                if x not in seen and x not in self.unreach:
                    seen.append(x)
            self.succ[i] = seen
        # blocks that reach a return
        pred = [[] for _ in range(n)]
        for i in range(n):
            for s in self.succ[i]:
                pred[s].append(i)
        self.live = set()
        st = [i for i in range(n) if i not in self.unreach and bl[i]["t"][0] == "ret"]
        while st:
            i = st.pop()
            if i in self.live:
                continue
            self.live.add(i)
            st.extend(pred[i])
        reach, st = set(), [0]
        while st:
            i = st.pop()
            if i in reach:
                continue
            reach.add(i)
            st.extend(self.succ[i])
        # blocks that set what the function returns
        self.sets_value = set()
        self.left = {}
        if b["types"][b["locals"][0][0]] != "()":
            for i in range(n):
                if i in self.unreach:
                    continue
                if any(x[0][0] == 0 for x in bl[i]["s"]) or bl[i]["t"][0] == "call" and bl[i]["t"][3][0] == 0:
                    self.sets_value.add(i)
        self.region = self.build(reach, 0, set())
        self.wide = self.widenings(b, reach, pred)

    def after(self, k, blocks):
        seen, st = set(), [k]
        while st:
            i = st.pop()
            if i in seen or i in blocks:
                continue
            seen.add(i)
            st.extend(s for s in self.succ[i] if s in self.live)
        return seen

    def leaves(self, k, d0, blocks):
        """Does an exit of a loop to block k leave the function with a value of its own, past what follows the loop (block d0)?"""
        key = (k, d0, blocks)
        r = self.left.get(key)
        if r is None:
            r = self.left[key] = bool((self.after(k, blocks) - self.after(d0, blocks)) & self.sets_value)
        return r

    def widenings(self, b, reach, pred):
        """{J: D}: every path from D that does not panic passes J, and some path from D panics."""
        bl = b["blocks"]

        def panics(i):
            t = bl[i]["t"]
            return t[0] == "call" and t[4] is None and isinstance(t[1], dict) and PANIC.search(t[1].get("fn", "")) is not None

        dead = {i for i in reach if not self.succ[i] and bl[i]["t"][0] not in ("ret",) and (bl[i]["t"][0] != "call" or panics(i))}
        if not dead:
            return {}
        work = list(dead)
        while work:
            i = work.pop()
            for q in pred[i]:
                if q in reach and q not in dead and all(s in dead for s in self.succ[q]):
                    dead.add(q)
                    work.append(q)
        live = [i for i in sorted(reach) if i not in dead]
        if 0 in dead:
            return {}
        idx = {x: k for k, x in enumerate(live)}
        full = (1 << len(live)) - 1
        dom = {x: full for x in live}
        dom[0] = 1 << idx[0]
        chg = True
        while chg:
            chg = False
            for x in live:
                if x == 0:
                    continue
                m = full
                for q in pred[x]:
                    if q in dom:
                        m &= dom[q]
                m |= 1 << idx[x]
                if m != dom[x]:
                    dom[x], chg = m, True
        pdom = {x: full for x in live}
        exits = {x for x in live if not self.succ[x]}
        chg = True
        while chg:
            chg = False
            for x in reversed(live):
                m = full if x not in exits else 0
                for q in self.succ[x]:
                    if q in pdom:
                        m &= pdom[q]
                m |= 1 << idx[x]
                if m != pdom[x]:
                    pdom[x], chg = m, True
        nest = {}

        def walk(region, loop):
            for n in region:
                if isinstance(n, tuple):
                    heads.add(n[0])
                    walk(n[2], n[0])
                else:
                    nest[n] = loop
        heads = set()
        walk(self.region, None)
        out = {}
        for j in live:
            if j in heads or j == 0:
                continue
            cand = [x for x in live if x != j and dom[j] >> idx[x] & 1 and nest.get(x) == nest.get(j)]
            if not cand:
                continue
            d = max(cand, key=lambda x: dom[x].bit_count())
            if not pdom[d] >> idx[j] & 1:
                continue
            seen, st, hit = set(), [d], False
            while st and not hit:
                x = st.pop()
                if x in seen or x == j:
                    continue
                seen.add(x)
                hit = x in dead
                st.extend(self.succ[x])
            if hit:
                out[j] = d
        return out

    def build(self, nodes, entry, cut):
        """Topologically ordered list of block numbers and loops (header, blocks, region)."""
        order = scc_order(nodes, entry, self.succ, cut)
        out = []
        for comp in order:
            if len(comp) == 1:
                x = next(iter(comp))
                if not (x in self.succ[x] and (x, x) not in cut):
                    out.append(x)
                    continue
            hs = [x for x in comp if x == entry] or None
            if hs is None:
                hs = [x for x in comp if any(x in self.succ[y] and (y, x) not in cut for y in nodes if y not in comp)]
            h = hs[0]
            cut2 = cut | {(y, h) for y in comp if h in self.succ[y]}
            out.append((h, frozenset(comp), self.build(comp, h, cut2)))
        return out


def scc_order(nodes, entry, succ, cut):
    index, low, on, stack, comps = {}, {}, set(), [], []
    counter = [0]

    def visit(v):
        work = [(v, iter([s for s in succ[v] if s in nodes and (v, s) not in cut]))]
        index[v] = low[v] = counter[0]
        counter[0] += 1
        stack.append(v)
        on.add(v)
        while work:
            u, it = work[-1]
            adv = False
            for s in it:
                if s not in index:
                    index[s] = low[s] = counter[0]
                    counter[0] += 1
                    stack.append(s)
                    on.add(s)
                    work.append((s, iter([x for x in succ[s] if x in nodes and (s, x) not in cut])))
                    adv = True
                    break
                elif s in on:
                    low[u] = min(low[u], index[s])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[u])
            if low[u] == index[u]:
                c = set()
                while True:
                    x = stack.pop()
                    on.discard(x)
                    c.add(x)
                    if x == u:
                        break
                comps.append(c)

    visit(entry)
    for v in sorted(nodes):
        if v not in index:
            visit(v)
    return comps[::-1]


class Event:
    __slots__ = ("kind", "name", "args", "pc", "where", "line", "file")


FMT_RET = ("std::result::Result<(), std::fmt::Error>", "()")


KNOWN = ("adt", "c", "b", "tup", "seq", "fmt")


class Engine:
    def __init__(self, prog, stop=(), sinks=(), opaque=(), smooth=(), steps=(), max_depth=60, budget=400000):
        self.p = prog
        self.table = {}
        self.bdd = Bdd()
        self._group_ix = None
        self.groups = {}       # (term, adt) -> {value: var}
        self.var_atom = []     # var -> atom key
        self.nid = 0
        self.stop = [re.compile(x) for x in stop]
        self.sinks = [re.compile(x) for x in sinks]
        self.opaque = [re.compile(x) for x in opaque]
        self.stepping = [re.compile(x) for x in steps]     # calls that consume part of what a parameter refers to
        self.smooth = [re.compile(x) for x in smooth]   # effects whose failure is not of interest: they give Ok(())
        self.labels = {}
        self.max_depth = max_depth
        self.budget = budget
        self.steps = 0
        self.frame = 0
        self.st = {}
        self.pc = 1
        self.mute = 0
        self.events = []
        self.slots = {}
        self.drops = {}
        self.stack, self._envpat = [], {}
        self.unsigned = False
        self.loops = []
        self.depth = 0
        self.over, self.contrib = {}, ()
        self.active = []
        self.opq = {}
        self.analysed = set()
        self.calls_seen = 0
        self._match = {}
        self.aliases, self.alias_used = {}, set()
        self.lets = {}
        self.pcout = {}
        self._wt = {}
        self.inds = {}
        self.UNDEF = self.mk("undef")
        self.UNIT = self.mk("tup")
        self.TRUE = self.mk("b", 1)
        self.FALSE = self.mk("b", 0)
        self.known_memo, self.elems_memo = {}, {}
        self.made, self.driven = [], frozenset()
        self.outs = {}
        self.NONE = self.mk("adt", OPTION, "None", ())
        from models import MODELS, PREFIX_MODELS, flags_contains
        globals()['flags_contains'] = flags_contains
        self.models = MODELS
        self.pmodels = PREFIX_MODELS

    # ---------------------------------------------------------------- terms
    def mk(self, op, *a):
        k = (op,) + a
        t = self.table.get(k)
        if t is None:
            t = T()
            t.op, t.a, t.id, t._txt = op, a, self.nid, None
            self.nid += 1
            g = op in ("cs", "seq", "it") or (op == "b" and a[0] > 1)
            if not g:
                for x in a:
                    if isinstance(x, T):
                        if x.gated:
                            g = True
                            break
                    elif isinstance(x, tuple):
                        if any(isinstance(y, T) and y.gated for y in x):
                            g = True
                            break
            t.gated = g
            self.table[k] = t
        return t

    def const(self, v):
        if v is True:
            return self.TRUE
        if v is False:
            return self.FALSE
        return self.mk("c", type(v).__name__, v)

    def some(self, x):
        return self.mk("adt", OPTION, "Some", ("0",), x)

    def ok(self, x):
        return self.mk("adt", RESULT, "Ok", ("0",), x)

    def err(self, x):
        return self.mk("adt", RESULT, "Err", ("0",), x)

    def tup(self, *xs):
        return self.mk("tup", *xs)

    def call(self, name, *args):
        cs = [i for i, a in enumerate(args) if a.op == "cs"]
        if len(cs) == 1 and len(args[cs[0]].a) <= 3 and name != "rec":
            i = cs[0]
            return self.cases([(c, self.call(name, *args[:i], l, *args[i + 1:])) for c, l in args[i].a])
        if len(args) == 2 and args[0].op == "call" and len(args[0].a) == 3:
            # Setters of an external builder: the order of two different ones does not matter.
            m, m0 = name.rsplit("::", 1)[-1], args[0].a[0].rsplit("::", 1)[-1]
            if m.startswith("with_") and m0.startswith("with_") and m < m0:
                return self.call(args[0].a[0], self.call(name, args[0].a[1], args[1]), args[0].a[2])
        return self.mk("call", name, *args)

    def boolt(self, n):
        return self.mk("b", n)

    def fmt(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, T):
                if p.op == "c" and p.a[0] in ("str", "int"):
                    p = str(p.a[1])
                elif p.op == "cs" and (len(pieces) > 1 or out):
                    p = self.common(p)
                if isinstance(p, T) and p.op == "fmt":
                    for q in p.a[0]:
                        if isinstance(q, str) and out and isinstance(out[-1], str):
                            out[-1] += q
                        else:
                            out.append(q)
                    continue
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        if not out:
            return self.const("")
        if len(out) == 1 and isinstance(out[0], str):
            return self.const(out[0])
        return self.mk("fmt", tuple(out))

    # ---------------------------------------------------------------- gating
    def leaves(self, t):
        """(predicate, leaf) partition of a gated term."""
        if t.op == "cs":
            return t.a
        return ((1, t),)

    def cases(self, parts):
        """Gated choice; parts: [(predicate, term)] with disjoint predicates."""
        if len(parts) > 1 and any(t.op == "fmt" for _, t in parts):
            r = self.factor(parts)
            if r is not None:
                return r
        acc = {}
        for c, t in parts:
            if c == 0 or t is self.UNDEF:
                continue
            for c2, l in self.leaves(t):
                cc = self.bdd.and_(c, c2)
                if cc != 0:
                    acc[l] = self.bdd.or_(acc.get(l, 0), cc)
        if not acc:
            return self.UNDEF
        if len(acc) == 1:
            return next(iter(acc))
        ls = list(acc)
        if all(l.op == "b" for l in ls):
            r = 0
            for l in ls:
                r = self.bdd.or_(r, self.bdd.and_(acc[l], l.a[0]))
            return self.boolt(r)
        sq = [l for l in ls if l.op == "seq"]
        if len(sq) > 1:
            tot = self.bdd.any([acc[l] for l in sq])
            m = self.merge_seqs([(acc[l], l) for l in sq])
            for l in sq:
                del acc[l]
            acc[m] = self.bdd.or_(acc.get(m, 0), tot)
            if len(acc) == 1:
                return m
        ls = list(acc)
        cn = [l for l in ls if l.op == "count"]
        if cn and (len(cn) > 1 or any(l.op == "c" and l.a == ("int", 0) for l in ls)) and all(len(l.a) == len(cn[0].a) for l in cn):
            tot, args = 0, [0] * len(cn[0].a)
            for l in ls:
                if l in cn:
                    args = [self.bdd.or_(a, self.bdd.and_(acc[l], x.a[0])) for a, x in zip(args, l.a)]
                elif not (l.op == "c" and l.a == ("int", 0)):
                    continue
                tot = self.bdd.or_(tot, acc.pop(l))
            acc[self.mk("count", *[self.boolt(a) for a in args])] = tot
            if len(acc) == 1:
                return next(iter(acc))
        st = {}
        for l in acc:
            k = self.str_stem(l)
            if k is not None:
                st.setdefault(k, []).append(l)
        for k, g in st.items():
            if len(g) < 2 or all(self.str_tail(l) is None for l in g):
                continue
            tot = self.bdd.any([acc[l] for l in g])
            m = self.merge_seqs([(acc[l], self.str_tail(l) or self.mk("seq")) for l in g])
            for l in g:
                del acc[l]
            n = self.fmt(list(k) + [self.call("concat", m)])
            acc[n] = self.bdd.or_(acc.get(n, 0), tot)
        if len(acc) == 1:
            return next(iter(acc))
        # structural merge of single-constructor aggregates (structs, tuples)
        ls = list(acc)
        if all(l.op == "tup" and len(l.a) == len(ls[0].a) for l in ls):
            if len(ls[0].a) == 0:
                return ls[0]
            return self.tup(*[self.cases([(acc[l], l.a[i]) for l in ls]) for i in range(len(ls[0].a))])
        if all(l.op == "adt" and l.a[:3] == ls[0].a[:3] for l in ls) and len(ls[0].a) > 3:
            return self.mk("adt", *ls[0].a[:3], *[self.cases([(acc[l], l.a[i]) for l in ls]) for i in range(3, len(ls[0].a))])
        if all(l.op == "clo" and l.a[0] == ls[0].a[0] for l in ls) and len(ls[0].a) > 1:
            return self.mk("clo", ls[0].a[0], *[self.cases([(acc[l], l.a[i]) for l in ls]) for i in range(1, len(ls[0].a))])
        return self.mk("cs", *sorted(((c, l) for l, c in acc.items()), key=lambda x: x[1].id))

    def common(self, t):
        """A gated text inside a longer one: what all its alternatives start or end with is taken out, so that it does not matter where the branches began."""
        memo = self.__dict__.setdefault("_common", {})
        r = memo.get(t)
        if r is None:
            r = t
            if all(l.op == "fmt" or l.op == "c" and l.a[0] == "str" for _, l in t.a):
                r = self.factor(t.a, True) or t
            memo[t] = r
        return r

    def factor(self, parts, whole=False):
        """Alternatives of one string that start alike: the common start, then a gated rest."""
        ps = []
        for c, t in parts:
            if c == 0 or t is self.UNDEF:
                continue
            if t.op == "fmt":
                ps.append((c, list(t.a[0])))
            elif t.op == "c" and t.a[0] == "str":
                ps.append((c, [t.a[1]] if t.a[1] else []))
            elif t.op == "cs" and all(l.op == "fmt" or l.op == "c" and l.a[0] == "str" for _, l in t.a):
                ps.append((c, [t]))
            elif t in self.outs.values():
                ps.append((c, [t]))
            else:
                return None
        if len(ps) < 2:
            return None
        pre = []
        while all(p for _, p in ps):
            a = ps[0][1][0]
            if isinstance(a, T):
                if any(p[0] is not a for _, p in ps):
                    break
                pre.append(a)
                for _, p in ps:
                    p.pop(0)
                continue
            if any(not isinstance(p[0], str) for _, p in ps):
                break
            n = min(len(p[0]) for _, p in ps)
            k = 0
            while k < n and all(p[0][k] == a[k] for _, p in ps):
                k += 1
            if k == 0:
                break
            pre.append(a[:k])
            stop = False
            for _, p in ps:
                if len(p[0]) == k:
                    p.pop(0)
                else:
                    p[0] = p[0][k:]
                    stop = True
            if stop:
                break
        suf = []
        while all(p for _, p in ps):
            a = ps[0][1][-1]
            if isinstance(a, T):
                if any(p[-1] is not a for _, p in ps):
                    break
                suf.insert(0, a)
                for _, p in ps:
                    p.pop()
                continue
            if any(not isinstance(p[-1], str) for _, p in ps):
                break
            n = min(len(p[-1]) for _, p in ps)
            k = 0
            while k < n and all(p[-1][-1 - k] == a[-1 - k] for _, p in ps):
                k += 1
            if k == 0:
                break
            suf.insert(0, a[len(a) - k:])
            stop = False
            for _, p in ps:
                if len(p[-1]) == k:
                    p.pop()
                else:
                    p[-1] = p[-1][:len(p[-1]) - k]
                    stop = True
            if stop:
                break
        if not (pre or suf) if whole else not any(isinstance(x, T) for x in pre + suf):
            return None
        tot = self.bdd.any([c for c, _ in ps])
        mid = self.cases([(c if tot == 1 else self.bdd.constrain(c, tot), self.fmt(p)) for c, p in ps])
        return self.fmt(pre + [mid] + suf)

    def str_tail(self, l):
        if l.op == "fmt" and isinstance(l.a[0][-1], T) and l.a[0][-1].op == "call" and l.a[0][-1].a[0] == "concat" and l.a[0][-1].a[1].op == "seq":
            return l.a[0][-1].a[1]
        return None

    def str_stem(self, l):
        if l.op == "c" and l.a[0] == "str":
            return (l.a[1],) if l.a[1] else ()
        if l.op == "fmt":
            return tuple(l.a[0][:-1]) if self.str_tail(l) is not None else tuple(l.a[0])
        return None

    def ite(self, b, x, y):
        if b == 1 or x is y:
            return x
        if b == 0:
            return y
        return self.cases([(b, x), (self.bdd.not_(b), y)])

    def merge_seqs(self, parts):
        B = self.bdd
        base = parts[0][1].a
        n = len(base)
        for _, s in parts[1:]:
            k = 0
            while k < n and k < len(s.a) and s.a[k] == base[k]:
                k += 1
            n = k
        out = list(base[:n])
        pre = self.mk("seq", *base[:n])
        order = {}
        for c, s in parts:
            for cc, e in s.a[n:]:
                cc = B.and_(c, cc)
                # a set or map that already holds the key is unchanged by the insertion
                key = e.a[0] if e.op == "tup" and len(e.a) == 2 else e
                for k in (key, e):
                    at = B.index.get(("contains", pre, k))
                    if at is not None and cc > 1:
                        cc = B.restrict(cc, at, False)
                if e in order:
                    order[e] = B.or_(order[e], cc)
                    continue
                if e.op == "tup" and len(e.a) == 2:
                    for e0, c0 in order.items():
                        if e0.op == "tup" and len(e0.a) == 2 and e0.a[0] is e.a[0] and B.and_(c0, cc) == 0:
                            tot = B.or_(c0, cc)
                            ne = self.tup(e.a[0], self.cases([(B.constrain(c0, tot), e0.a[1]), (B.constrain(cc, tot), e.a[1])]))
                            order = {(ne if x is e0 else x): (tot if x is e0 else y) for x, y in order.items()}
                            break
                    else:
                        order[e] = cc
                    continue
                order[e] = cc
        out += [(c, e) for e, c in order.items()]
        return self.mk("seq", *out)

    def seq_push(self, s, e, cond=1):
        out = list(s.a)
        for c, l in self.leaves(e):
            c = self.bdd.and_(c, cond)
            if c == 0:
                continue
            for i, (c0, e0) in enumerate(out):
                if e0 is l:
                    out[i] = (self.bdd.or_(c0, c), l)
                    break
            else:
                out.append((c, l))
        return self.mk("seq", *out)

    # ---------------------------------------------------------------- predicates
    def atom(self, key):
        n = self.bdd.atom(key)
        return n

    def valatom(self, x, adt, v):
        """x has exactly the value v, among mutually exclusive values."""
        g = self.groups.setdefault((x, adt), {})
        if v not in g:
            g[v] = self.bdd.atom(("val", x, adt, v))
        r = g[v]
        for o, n in g.items():
            if o == v:
                break
            r = self.bdd.and_(r, self.bdd.not_(n))
        return r

    def is_(self, x, adt, v):
        if x.op == "cs":
            return self.bdd.any([self.bdd.and_(c, self.is_(l, adt, v)) for c, l in x.a])
        if x.op == "adt":
            return 1 if x.a[1] == v else 0
        if x.op == "undef":
            return 0
        if x.op == "with":
            return self.is_(x.a[0], adt, v)
        if x.op == "entry" and v in ("Occupied", "Vacant"):
            s = self.contains(x.a[0], x.a[1])
            return s if v == "Occupied" else self.bdd.not_(s)
        if adt == OPTION:
            s = None
            if x.op == "call":
                n = x.a[0]
                if n in ("get", "get_mut", "map_remove", "map_insert", "get_key_value"):
                    s = self.contains(x.a[1], x.a[2])
                elif n in ("first", "last", "max", "min", "reduce", "max_by_key", "min_by_key", "pop"):
                    s = self.has(x.a[1])
            if s is not None:
                return s if v == "Some" else self.bdd.not_(s)
        vs = self.p.variants(adt)
        if vs is None or v not in vs:
            return self.valatom(x, adt, v)
        if v == vs[-1]:
            r = 1
            for o in vs[:-1]:
                r = self.bdd.and_(r, self.bdd.not_(self.is_(x, adt, o)))
            return r
        # the chain over declared order keeps the last variant implied
        g = self.groups.setdefault((x, adt), {})
        r = 1
        for o in vs:
            if o not in g:
                g[o] = self.bdd.atom(("val", x, adt, o))
            if o == v:
                return self.bdd.and_(r, g[o])
            r = self.bdd.and_(r, self.bdd.not_(g[o]))

    def is_some(self, x):
        return self.is_(x, OPTION, "Some")

    def is_ok(self, x):
        return self.is_(x, RESULT, "Ok")

    def has(self, x):
        if x.op == "cs":
            return self.bdd.any([self.bdd.and_(c, self.has(l)) for c, l in x.a])
        if x.op == "seq":
            return self.bdd.any([c for c, _ in x.a])
        if x.op == "arr":
            return 1 if len(x.a) else 0
        if x.op == "c" and x.a[0] == "str":
            return 1 if x.a[1] else 0
        if x.op == "fmt":
            if any(isinstance(p, str) for p in x.a[0]):
                return 1
            return self.bdd.any([self.has(p) for p in x.a[0]])
        if x.op == "call" and x.a[0] == "concat" and x.a[1].op == "seq":
            return self.bdd.any([self.bdd.and_(c, self.has(e)) for c, e in x.a[1].a])
        if x.op == "adt" and x.a[0] == OPTION:
            return 1 if x.a[1] == "Some" else 0
        if x.op == "undef":
            return 0
        while x.op == "call" and x.a[0] == "rev":
            x = x.a[1]
        return self.atom(("has", x))

    def contains(self, coll, x):
        if coll.op == "cs":
            return self.bdd.any([self.bdd.and_(c, self.contains(l, x)) for c, l in coll.a])
        if coll.op == "arr" and all(e.op == "c" for e in coll.a):
            return self.bdd.any([self.eq(x, e) for e in coll.a])
        if x.op == "cs":
            return self.bdd.any([self.bdd.and_(c, self.contains(coll, l)) for c, l in x.a])
        return self.atom(("contains", coll, x))

    def truth(self, t):
        """The predicate of a boolean term."""
        if t.op == "b":
            return t.a[0]
        if t.op == "cs":
            return self.bdd.any([self.bdd.and_(c, self.truth(l)) for c, l in t.a])
        if t.op == "undef":
            return 0
        if t.op == "c":
            return 1 if t.a[1] else 0
        return self.atom(("t", t))

    def eq(self, a, b):
        B = self.bdd
        if a is b:
            return 1
        if a.op == "cs":
            return B.any([B.and_(c, self.eq(l, b)) for c, l in a.a])
        if b.op == "cs":
            return B.any([B.and_(c, self.eq(a, l)) for c, l in b.a])
        if a.op == "undef" or b.op == "undef":
            return 0
        if a.op == "b" or b.op == "b":
            return B.not_(B.xor(self.truth(a), self.truth(b)))
        if a.op == "c" and b.op == "c":
            return 1 if a.a == b.a else 0
        if a.op == "c":
            a, b = b, a
        if b.op == "c" and a.op == "op" and a.a[0] == "BitAnd" and b.a[0] == "int" and b.a[1] != 0:
            m = next((t.a[1] for t in a.a[1:] if t.op == "c" and t.a[0] == "int"), None)
            if m is not None and m > 0:
                if b.a[1] & ~m:
                    return 0
                if m & (m - 1) == 0:
                    return B.not_(self.eq(a, self.const(0)))
        if b.op == "adt" and a.op != "adt":
            a, b = b, a
        if a.op == "adt":
            path, v, names = a.a[:3]
            enum = self.p.variants(path)
            if b.op == "adt" and (b.a[1] != v or b.a[2] != names):
                return 0
            if enum or b.op == "adt" or names:
                r = self.is_(b, path, v) if enum else 1
                for i, n in enumerate(names):
                    if r == 0:
                        break
                    r = B.and_(r, self.eq(a.a[3 + i], self.field(b, v if enum else None, n)))
                return r
        if a.op == "tup" or b.op == "tup":
            if b.op == "tup" and a.op != "tup":
                a, b = b, a
            r = 1
            for i in range(len(a.a)):
                r = B.and_(r, self.eq(a.a[i], self.field(b, None, str(i))))
            return r
        if a.op == "c":
            a, b = b, a
        if b.op == "c":
            if a.op == "call" and a.a[0] == "len" and b.a[0] == "int" and b.a[1] == 0:
                return B.not_(self.has(a.a[1]))
            if a.op == "count" and b.a[0] == "int" and b.a[1] == 0:
                return B.not_(B.any([x.a[0] for x in a.a]))
            if b.a == ("str", ""):
                return B.not_(self.has(a))
            return self.valatom(a, None, b.a)
        if b.id < a.id:
            a, b = b, a
        return self.atom(("eq", a, b))

    def lt(self, a, b):
        B = self.bdd
        if a is b:
            return 0
        if a.op == "cs":
            return B.any([B.and_(c, self.lt(l, b)) for c, l in a.a])
        if b.op == "cs":
            return B.any([B.and_(c, self.lt(a, l)) for c, l in b.a])
        if a.op == "b" or b.op == "b":
            return B.and_(B.not_(self.truth(a)), self.truth(b))
        if a.op == "c" and b.op == "c" and a.a[0] == b.a[0]:
            return 1 if a.a[1] < b.a[1] else 0
        if a.op == "ind" and b.op == "call" and b.a[0] == "len":
            self.ind_elem(a, b.a[1])
            return self.has(b.a[1])
        if a.op == "c" and a.a[0] == "int":
            if b.op == "call" and b.a[0] == "len" and a.a[1] == 0:
                return self.has(b.a[1])
            if b.op == "count" and a.a[1] == 0:
                return B.any([x.a[0] for x in b.a])
            return B.not_(self.lt(b, self.const(a.a[1] + 1)))
        if b.op == "c" and b.a[0] == "int" and a.op == "count" and b.a[1] in (0, 1):
            return 0 if b.a[1] == 0 else B.not_(B.any([x.a[0] for x in a.a]))
        if b.op == "c" and b.a[0] == "int" and a.op == "call" and a.a[0] == "len":
            if b.a[1] == 1:
                return B.not_(self.has(a.a[1]))
            if b.a[1] == 0:
                return 0
        if self.unsigned and b.op == "c" and b.a[0] == "int" and b.a[1] in (0, 1):
            return 0 if b.a[1] == 0 else self.eq(a, self.const(0))
        return self.atom(("lt", a, b))

    # ---------------------------------------------------------------- structure
    def field(self, x, variant, name):
        if x.op == "cs":
            return self.cases([(c, self.field(l, variant, name)) for c, l in x.a])
        if x.op == "adt":
            if variant is not None and x.a[1] is not None and x.a[1] != variant:
                return self.UNDEF
            if name in x.a[2]:
                return x.a[3 + x.a[2].index(name)]
            return self.UNDEF
        if x.op == "undef":
            return x
        if x.op == "with":
            base, key, val = x.a
            return val if key == (variant, name) else self.field(base, variant, name)
        if x.op == "tup":
            i = int(name) if name.isdigit() else -1
            return x.a[i] if 0 <= i < len(x.a) else self.UNDEF
        if x.op == "clo" and name.startswith("^"):
            return x.a[1 + int(name.split("^")[1])]
        if variant == "Some" and name == "0" and x.op == "call" and x.a[0] in ("get", "get_mut") and len(x.a) == 3:
            return self.idx(x.a[1], x.a[2])
        return self.mk("f", x, variant, name)

    def payload(self, x):
        return self.field(x, "Some", "0")

    def ind_elem(self, i, x):
        e = self.inds.get((i, x))
        if e is None:
            e = self.inds[(i, x)] = self.new_elem(x)
        return e

    def new_elem(self, x):
        """The representative element of a new iteration over x."""
        n = sum(1 for y in self.active if y is x)
        self.active.append(x)
        while n < 4 and self.known(self.mk("elem", x, n)):
            n += 1
        e = self.mk("elem", x, n)
        self.made.append(e)
        return e

    def known(self, e):
        """Does the current predicate say of the representative e that some (not every) element is like it?"""
        if self.pc < 2:
            return False
        k = (self.pc, e)
        r = self.known_memo.get(k)
        if r is None:
            B = self.bdd
            vs = [v for v in B.support(self.pc) if e in self.elems_var(v)]
            r = False
            if vs:
                h = self.has(e.a[0])
                inner = vs + [v for v in B.support(h) if v not in vs]
                empty = B.exists(B.and_(self.pc, B.not_(h)), inner)
                need = B.and_(self.pc, B.not_(empty))
                r = bool(set(B.support(need)) & set(vs)) if need else False
            self.known_memo[k] = r
        return r

    def elems_var(self, v):
        r = self.elems_memo.get(-1 - v)
        if r is None:
            self.elems_memo[-1 - v] = frozenset()
            r = self.elems_memo[-1 - v] = self.elems_in(self.bdd.names[v])
        return r

    def elems_in(self, xs):
        out = frozenset()
        for x in xs:
            if isinstance(x, T):
                out = out | self.elems(x)
            elif type(x) is tuple:
                out = out | self.elems_in(x)
        return out

    def elems_cond(self, f):
        return frozenset().union(*[self.elems_var(v) for v in self.bdd.support(f)]) if f > 1 else frozenset()

    def elems(self, t):
        """The representative elements a term mentions, also in its predicates."""
        r = self.elems_memo.get(t.id)
        if r is None:
            if t.op in ("cs", "seq"):
                r = frozenset()
                for c, l in t.a:
                    r = r | self.elems(l) | self.elems_cond(c)
            elif t.op == "b":
                r = self.elems_cond(t.a[0])
            else:
                r = self.elems_in(t.a)
                if t.op == "elem" or t.op == "call" and t.a[0] == "first":
                    r = r | {t}
            self.elems_memo[t.id] = r
        return r

    def rename(self, t, sub, memo):
        """The term with representative elements replaced."""
        if t in sub:
            return sub[t]
        if not self.elems(t) & sub.keys():
            return t
        r = memo.get(t)
        if r is None:
            if t.op == "cs":
                r = self.cases([(self.rename_cond(c, sub, memo), self.rename(l, sub, memo)) for c, l in t.a])
            elif t.op == "seq":
                r = self.mk("seq", *[(self.rename_cond(c, sub, memo), self.rename(l, sub, memo)) for c, l in t.a])
            elif t.op == "b":
                r = self.boolt(self.rename_cond(t.a[0], sub, memo))
            elif t.op == "it":
                r = t
            else:
                r = self.mk(t.op, *[self.rename_in(x, sub, memo) for x in t.a])
            memo[t] = r
        return r

    def rename_in(self, x, sub, memo):
        if isinstance(x, T):
            return self.rename(x, sub, memo)
        if type(x) is tuple:
            return tuple(self.rename_in(y, sub, memo) for y in x)
        return x

    def rename_cond(self, f, sub, memo):
        if f < 2:
            return f
        r = memo.get(f)
        if r is None:
            B = self.bdd
            v = B.var[f]
            lo, hi = self.rename_cond(B.lo[f], sub, memo), self.rename_cond(B.hi[f], sub, memo)
            r = memo[f] = B.ite(self.rename_var(v, sub, memo), hi, lo)
        return r

    def rename_var(self, v, sub, memo):
        B = self.bdd
        key = B.names[v]
        if not self.elems_var(v) & sub.keys():
            return B.mk(v, 0, 1)
        if key[0] == "val":
            x = self.rename_in(key[1], sub, memo)
            return self.is_(x, key[2], key[3])
        return self.atom(tuple(self.rename_in(x, sub, memo) for x in key))

    def idx(self, x, i):
        if i.op == "ind" and x.op not in ("cs", "seq"):
            return self.ind_elem(i, x)
        if x.op == "cs":
            return self.cases([(c, self.idx(l, i)) for c, l in x.a])
        if i.op == "pos" and i.a[0].op == "elem" and i.a[0].a[0] is x:
            return i.a[0]
        if i.op == "c" and i.a[0] == "int":
            if x.op == "arr" and i.a[1] < len(x.a):
                return x.a[i.a[1]]
            if i.a[1] == 0:
                return self.payload(self.call("first", x))
        if x.op == "ixset":
            return x.a[2] if x.a[1] is i else self.idx(x.a[0], i)
        return self.mk("ix", x, i)

    def len_(self, x):
        if x.op == "cs":
            return self.cases([(c, self.len_(l)) for c, l in x.a])
        if x.op == "arr":
            return self.const(len(x.a))
        if x.op == "c" and x.a[0] == "str":
            return self.const(len(x.a[1].encode()))
        if x.op == "seq" and not x.a:
            return self.const(0)
        if x.op == "seq":
            if all(c == 1 and not self.has_elem(e) for c, e in x.a):
                return self.const(len(x.a))
            return self.mk("count", *[self.boolt(c) for c, _ in x.a])
        return self.call("len", x)

    def has_elem(self, t):
        if t.op == "elem":
            return True
        return any(self.has_elem(y) for x in t.a for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, T))

    # ---------------------------------------------------------------- memory
    def getcell(self, cell):
        v = self.st.get(cell)
        if v is None:
            if cell[0] == "o":
                return cell[1]
            return self.UNDEF
        return v

    def get_path(self, v, path):
        for k in path:
            if k[0] == "f":
                v = self.field(v, k[1], k[2])
            else:
                v = self.entry_of(v, k[1])
        return v

    def entry_of(self, v, i):
        if v.op == "seq":
            for c, e in v.a:
                if e.op == "tup" and len(e.a) == 2 and e.a[0] is i:
                    return e.a[1]
        if v.op == "cs" and any(l.op == "seq" for _, l in v.a):
            return self.cases([(c, self.entry_of(l, i)) for c, l in v.a])
        return self.idx(v, i)

    def set_path(self, v, path, val):
        if not path:
            return val
        k, rest = path[0], path[1:]
        if k[0] == "f":
            if v.op == "cs" and len(v.a) <= 8:
                return self.cases([(c, self.set_path(l, path, val)) for c, l in v.a])
            inner = val if not rest else self.set_path(self.field(v, k[1], k[2]), rest, val)
            if v.op == "adt" and k[2] in v.a[2] and (k[1] is None or v.a[1] in (None, k[1])):
                i = 3 + v.a[2].index(k[2])
                return self.mk("adt", *v.a[:i], inner, *v.a[i + 1:])
            if v.op == "tup" and k[2].isdigit() and int(k[2]) < len(v.a):
                i = int(k[2])
                return self.tup(*v.a[:i], inner, *v.a[i + 1:])
            if v.op == "clo" and k[2].startswith("^"):
                i = 1 + int(k[2].split("^")[1])
                return self.mk("clo", *v.a[:i], inner, *v.a[i + 1:])
            base = v
            if v.op == "with" and v.a[1] == (k[1], k[2]):
                base = v.a[0]
            return self.mk("with", base, (k[1], k[2]), inner)
        if v.op == "cs" and any(l.op == "seq" for _, l in v.a):
            return self.cases([(c, self.set_path(l, path, val)) for c, l in v.a])
        inner = val if not rest else self.set_path(self.entry_of(v, k[1]), rest, val)
        if v.op == "seq":
            for j, (c, e) in enumerate(v.a):
                if e.op == "tup" and len(e.a) == 2 and e.a[0] is k[1]:
                    return self.mk("seq", *v.a[:j], (c, self.tup(k[1], inner)), *v.a[j + 1:])
        if v.op == "ixset" and v.a[1] is k[1]:
            v = v.a[0]
        return self.mk("ixset", v, k[1], inner)

    def read(self, r):
        """Value behind a reference term (a shared reference is its value)."""
        if r.op == "refm":
            return self.get_path(self.getcell(r.a[0]), r.a[1])
        if r.op == "cs":
            return self.cases([(c, self.read(l)) for c, l in r.a])
        v = self.st.get(("o", r))
        return v if v is not None else r

    def val(self, r):
        for _ in range(4):
            if r.op == "refm":
                r = self.read(r)
            elif r.op == "cs" and any(l.op == "refm" for _, l in r.a):
                r = self.read(r)
            else:
                return r
        return r

    def write(self, r, v, note=True):
        """Store through a &mut reference term."""
        if r.op == "cs":
            if any(l.op == "refm" and l.a[0][0] == "slot" for _, l in r.a):
                for c, l in r.a:
                    self.under(c, lambda: (self.write(l, v, note), self.UNIT)[1])
                return
            for c, l in r.a:
                old = self.read(l)
                self.write(l, self.ite(c, v, old), note)
            return
        if r.op == "refm":
            cell, path = r.a
        else:
            cell, path = ("o", r), ()
        if note and cell[0] in ("o", "p"):
            self.emit("store", self.mk("loc", cell, path), [v])
        self.st[cell] = self.set_path(self.getcell(cell), path, v)
        if cell[0] == "slot" and cell in self.slots:
            e = self.slots[cell]
            if e.pc == self.pc:
                e.args = (e.args[0], self.tup(e.args[1].a[0], self.st[cell]))
            else:
                i = self.mk("loc", ("o", self.idx(e.args[0], e.args[1].a[0])), path)
                self.emit("store", i, [v])

    def slot(self, coll, k, v):
        """A reference to what a map has for a key, after v was put there if it had nothing."""
        has = self.contains(coll, k)
        old = self.mk("refm", ("o", self.idx(coll, k)), ())
        no = self.bdd.and_(self.pc, self.bdd.not_(has))
        if no == 0:
            return old
        self.frame += 1
        cell = ("slot", self.frame)
        n = len(self.events)
        self.under(self.bdd.not_(has), lambda: (self.emit("mut", "insert", [coll, self.tup(k, v)]), self.UNIT)[1])
        if len(self.events) > n:
            self.slots[cell] = self.events[n]
        self.st[cell] = v
        return self.cases([(has, old), (self.bdd.not_(has), self.mk("refm", cell, ()))])

    def follow(self, r):
        """The innermost place behind references to references."""
        while r.op == "refm":
            v = self.read(r)
            if v.op != "refm":
                break
            r = v
        return r

    def append_text(self, r, x, c=1):
        """Adds text to the output behind r, a formatter or string that the analysed function was given."""
        r = self.follow(r)
        v = self.read(r)
        self.outs.setdefault(self.place(r), v)
        self.write(r, self.cases([(c, self.fmt([v, x])), (self.bdd.not_(c), v)]), note=False)

    def place(self, r):
        return r.a if r.op == "refm" else (("o", r), ())

    def writers(self, args):
        """The arguments that are text outputs."""
        out = []
        for a in args:
            if a.op == "cs" or a.op in ("c", "b", "fmt", "seq", "adt", "tup"):
                continue
            p = self.place(self.follow(a))
            if p in self.outs or p[0][0] in ("p", "o") and not p[1] and self.formatter(p[0][1]):
                out.append(a)
        return out

    def formatter(self, x):
        return x == "Formatter" or isinstance(x, T) and x.op == "p" and x.a[0] == "Formatter"

    def fresh(self, r):
        """Is the collection behind r one whose content is tracked?"""
        v = self.val(r)
        return v.op == "seq"

    # ---------------------------------------------------------------- events
    def emit(self, kind, name, args, line=None):
        if self.mute or self.pc == 0:
            return
        e = Event()
        e.kind, e.name, e.args, e.pc = kind, name, tuple(args), self.pc
        e.where = self.stack[-1][0] if self.stack else ""
        e.line = line if line is not None else (self.stack[-1][1] if self.stack else 0)
        self.events.append(e)

    # ---------------------------------------------------------------- control
    def split(self, c, f, g):
        """Value of `if c {f()} else {g()}` in the current state."""
        B = self.bdd
        c = B.and_(self.pc, c)
        n = B.and_(self.pc, B.not_(c))
        if self.pc == 0:
            return self.UNDEF
        if n == 0:
            return f()
        if c == 0:
            return g()
        st0 = self.st
        self.st, self.pc = dict(st0), c
        x = f()
        s1, p1 = self.st, self.pc
        self.st, self.pc = st0, n
        y = g()
        s2, p2 = self.st, self.pc
        self.pc, self.st = self.merge_states([(p1, s1), (p2, s2)])
        if p1 == 0:
            return y
        if p2 == 0:
            return x
        return self.cases([(self.bdd.constrain(p1, self.pc), x), (self.bdd.constrain(p2, self.pc), y)])

    def under(self, c, f):
        return self.split(c, f, lambda: self.UNDEF)

    def merge_states(self, parts):
        parts = [(c, s) for c, s in parts if c != 0]
        if not parts:
            return 0, {}
        if len(parts) == 1:
            return parts[0]
        B = self.bdd
        tot = B.any([c for c, _ in parts])
        conds = [B.constrain(c, tot) for c, _ in parts]
        # make the gates disjoint and total where they are not (edges of one block are disjoint)
        keys = set()
        for _, s in parts:
            keys.update(s)
        out = {}
        for k in keys:
            vs = []
            same = True
            first = None
            for i, (_, s) in enumerate(parts):
                v = s.get(k)
                if v is None:
                    if k[0] == "o":
                        v = k[1]
                    elif k[0] == "pushed":
                        v = self.const(0)
                    else:
                        continue
                if first is None:
                    first = v
                elif v is not first:
                    same = False
                vs.append((conds[i], v))
            out[k] = first if same else self.cases(vs)
        return tot, out

    # ---------------------------------------------------------------- function bodies
    def body_key(self, f):
        k = f.get("rk") or f.get("fk")
        return k

    def run_body(self, b, args, promoted=None):
        """Analyse a body on argument terms; returns the return term (state and predicate are updated)."""
        if self.pc == 0:
            return self.UNDEF
        self.frame += 1
        fid = self.frame
        prep = self.p.prep(b)
        if b.get("key") and promoted is None:
            self.analysed.add(b["key"])
        for i, a in enumerate(args):
            self.st[(fid, i + 1)] = a
        rets = []
        pending = {0: [(self.pc, self.st)]}
        nact = len(self.active)
        self.run_region(b, prep, fid, prep.region, pending, rets, None)
        del self.active[nact:]
        if not rets:
            self.pc = 0
            self.st = {}
            return self.UNDEF
        tot, st = self.merge_states(rets) if len(rets) > 1 else rets[0]
        ret = st.get((fid, 0), self.UNIT)
        for i in range(len(b["locals"])):
            st.pop((fid, i), None)
        self.pc, self.st = tot, st
        return ret

    def run_region(self, b, prep, fid, region, pending, rets, loop):
        for n in region:
            if isinstance(n, tuple):
                self.run_loop(b, prep, fid, n, pending, rets)
                continue
            ins = pending.pop(n, None)
            if not ins:
                continue
            self.pc, self.st = self.merge_states(ins) if len(ins) > 1 else ins[0]
            if self.pc == 0:
                continue
            d = prep.wide.get(n)
            if d is not None:
                pc = self.pcout.get((fid, d))
                if pc is not None and self.bdd.implies(self.pc, pc):
                    self.pc = pc
            self.run_block(b, prep, fid, n, pending, rets, loop)

    def run_loop(self, b, prep, fid, lp, pending, rets):
        h, blocks, region = lp
        ins = pending.pop(h, None)
        if not ins:
            return
        entry = self.merge_states(ins) if len(ins) > 1 else ins[0]
        if entry[0] == 0:
            return
        nact = len(self.active)
        ctx = {"h": h, "blocks": blocks, "backs": [], "more": False, "exit": False}
        for _ in range(12):
            above, self.depth = self.depth, self.nesting()
            post = self.loop_pass(b, prep, fid, region, pending, rets, ctx, h, entry)
            self.depth = above
            if post is None:
                entry = None
                break
            entry = post
            if not ctx["more"]:
                break
        if entry is not None and entry[0] != 0:
            ctx["exit"], ctx["backs"] = True, []
            ctx["taken"] = False
            self.loops.append(ctx)
            self.mute += 1
            pending[h] = [entry]
            self.run_region(b, prep, fid, region, pending, rets, ctx)
            self.mute -= 1
            self.loops.pop()
            for x in blocks:
                pending.pop(x, None)
        del self.active[nact:]

    def nesting(self):
        """In how many iterations the current one is: loops, and closures that run per element."""
        own = [e.a[0] for l in self.loops for e in l.get("elems", ()) if e.op == "elem"]
        return len(self.loops) + sum(1 for e in self.active if not any(e is x for x in own))

    def loop_pass(self, b, prep, fid, region, pending, rets, ctx, h, entry):
        """One representative iteration in the steady state of the loop; the state at the back edge, or None."""
        pend0 = {k: [(c, dict(s)) for c, s in v] for k, v in pending.items()}
        nr, ne, na = len(rets), len(self.events), len(self.active)
        ind = self.mk("ind", self.depth)
        st0, pc0 = entry[1], entry[0]
        blocks = ctx["blocks"]
        ctx["c"], ctx["drv"] = None, None

        def one(st, mode=0, pc=pc0, reset=True):
            if reset:
                for k in [k for k in self.inds if k[0] is ind]:
                    del self.inds[k]
                pending.clear()
                pending.update({k: [(c, dict(s)) for c, s in v] for k, v in pend0.items()})
                del rets[nr:]
                del self.events[ne:]
                del self.active[na:]
            ctx["backs"], ctx["more"], ctx["mode"] = [], False, mode
            self.loops.append(ctx)
            pending[h] = [(pc, dict(st))]
            self.run_region(b, prep, fid, region, pending, rets, ctx)
            self.loops.pop()
            ctx["exits"], ctx["stops"] = exits()
            return self.merge_states(ctx["backs"]) if ctx["backs"] else None

        def exits():
            """When an iteration leaves the loop: at all, and to go on with what follows it."""
            B, f, g, c0 = self.bdd, 0, 0, ctx["c"]
            if c0 is None:
                return 0, 0
            new = [(k, c) for k, v in pending.items() if k not in blocks and k in prep.live for c, _ in v[len(pend0.get(k, ())):]]
            for k, c in new:
                if c and not B.and_(c, c0):
                    ctx["d0"] = k
            d0 = ctx.get("d0")
            for k, c in new:
                f = B.or_(f, c)
                if d0 is None or not prep.leaves(k, d0, blocks):
                    g = B.or_(g, c)
            for c, _ in rets[nr:]:
                f = B.or_(f, c)
            es = ctx.get("elems", ())
            return self.stop_of(B.and_(f, c0), es, pc0), self.stop_of(B.and_(g, c0), es, pc0)

        def close(head, pc, st):
            """What carried counters and strings are once the loop is over, also where an iteration leaves it early."""
            r = self.reached(ctx["stops"])
            for k, v in base.items():
                w = st.get(k)
                if w is None or w is head.get(k) and head.get(k) is v:
                    continue
                n = self.closed(st0.get(k), head.get(k), w, pc, pc0, r)
                if n is None:
                    continue
                st[k] = n
                if w is not head.get(k) and head[k].op == "ind":
                    for q, v in pending.items():
                        if q not in blocks:
                            for _, s in v[len(pend0.get(q, ())):]:
                                if s.get(k) is head[k]:
                                    s[k] = n
            return pc, st

        back = one(st0)
        es, c0 = ctx.get("elems") or (), ctx["c"]
        plain = len(es) == 1 and es[0].op == "elem" and c0 is not None and self.bdd.and_(c0, pc0) == self.bdd.and_(self.has(es[0].a[0]), pc0)
        self.over[self.depth] = es[0] if plain else None
        if back is None or back[0] == 0:
            self.gate_events(ne, ctx["exits"])
            return back
        base = st0
        si = self.widen_state(base, back, "ind")
        if si is not None:
            base = si
            back = one(base) or back
        sa = self.widen_state(base, back, "seq")
        if sa is None and self.widen_state(base, back, "all") is None:
            self.gate_events(ne, ctx["exits"])
            return close(base, back[0], dict(back[1]))
        c0 = ctx["c"]
        mode = 0 if c0 is None else 1
        head = base
        if sa is not None:
            sa = self.gate_state(base, sa, ctx["stops"])
            head = sa
            back = one(sa, mode) or back
        self.driven = frozenset(ctx.get("elems", ()))
        sb = self.widen_state(head, back, "all")
        self.driven = frozenset()
        back2 = None
        if sb is not None or sa is None:
            back2 = one(sb or head, mode)
        more = ctx["more"]
        self.gate_events(ne, ctx["exits"])
        pc, st = back
        st = dict(self.gate_state(head, st, ctx["stops"]))
        if sb is not None and back2 is not None and back2[0]:
            for k, v in sb.items():
                if v is head.get(k) or k not in st or k not in back2[1]:
                    continue
                if self.is_machine(head.get(k), st[k], back2[1][k]):
                    st[k] = self.ite(self.bdd.constrain(back2[0], pc), back2[1][k], st[k])
                else:
                    st[k] = self.latest(head.get(k), st[k], back2[1][k], back2[0], ctx.get("elems", ()))
            again = self.gate_state(head, back2[1], ctx["stops"])
            for k, v in head.items():
                if k in st and k in again:
                    # what is collected is what every iteration adds, not only the first
                    st[k] = self.added(v, st[k], again[k])
        back = close(head, pc, st)
        if c0 is not None:
            z = self.bdd.and_(pc0, self.bdd.not_(c0))
            if z:
                ex = ctx["exit"], ctx.get("taken")
                self.mute += 1
                zb = one(st0, 2, z, False)
                self.mute -= 1
                if zb is not None and zb[0]:
                    back = self.merge_states([back, zb])
        ctx["more"] = more
        return back

    def stop_of(self, f, elems, pc):
        """The predicate that says of one element that the iteration, done under pc, ends with it."""
        B = self.bdd
        f = B.and_(f, pc)
        if f < 2:
            return 0
        f = B.given(f, pc)
        for e in elems:
            if e.op == "elem":
                h = self.has(e.a[0])
                if h > 1 and B.and_(f, h):
                    f = B.constrain(f, h)
        return f if f > 1 else 0

    def reached(self, f):
        """No earlier element ended the iteration, where f says when one does."""
        return self.bdd.not_(self.atom(("t", self.call("stopped", self.boolt(f))))) if f > 1 else 1

    def gate_events(self, n, f):
        """What happens for each element happens only until one ends the iteration."""
        if f < 2:
            return
        B, r = self.bdd, self.reached(f)
        for e in self.events[n:]:
            if not B.implies(e.pc, f):
                e.pc = B.and_(e.pc, r)

    def gate_state(self, s0, s1, f):
        if f < 2:
            return s1
        r = self.reached(f)
        out = dict(s1)
        for k, w in s1.items():
            v = s0.get(k)
            if v is not None and v is not w:
                out[k] = self.gate(v, w, r)
        return out

    def gate(self, v, w, r):
        if v is w:
            return w
        if w.op == "seq" and v.op == "seq":
            old = {}
            for c, e in v.a:
                old[e] = self.bdd.or_(old.get(e, 0), c)
            return self.mk("seq", *[x for x in ((c if c == old.get(e) else self.bdd.or_(self.bdd.and_(c, old.get(e, 0)), self.bdd.and_(c, r)), e) for c, e in w.a) if x[0]])
        if v.op == w.op == "adt" and v.a[:3] == w.a[:3]:
            return self.mk("adt", *v.a[:3], *[self.gate(x, y, r) for x, y in zip(v.a[3:], w.a[3:])])
        if v.op == w.op == "tup" and len(v.a) == len(w.a):
            return self.tup(*[self.gate(x, y, r) for x, y in zip(v.a, w.a)])
        if v.op == w.op == "with" and v.a[1] == w.a[1]:
            return self.mk("with", self.gate(v.a[0], w.a[0], r), v.a[1], self.gate(v.a[2], w.a[2], r))
        return w

    def closed(self, v0, v, w, pc, pc0, r=1):
        """Value of a carried counter or string after the loop; r: no earlier element ended it."""
        if v0 is None:
            return None
        rel = self.bdd.and_(self.bdd.constrain(pc, pc0) if pc0 else 1, r)
        c = self.counter(v0, v, w)
        if c is not None:
            n = self.mk("count", self.boolt(self.bdd.and_(c, rel)))
            return n if v0.a[1] == 0 else self.mk("op", "Add", n, v0)
        if (v0.op in ("c", "fmt") or v0 in self.outs.values()) and v is not v0 and v.op == "fmt":
            ps = self.string_pieces(v, w)
            if ps is not None and v.a[0] and isinstance(v.a[0][-1], T) and v.a[0][-1].op == "call" and v.a[0][-1].a[0] == "concat":
                q = self.mk("seq", *[(self.bdd.and_(c, rel), e) for c, e in ps])
                return self.fmt([v0, self.norm_text(self.call("concat", q))])
        return None

    def counter(self, v0, v, w):
        if v0.op != "c" or v0.a[0] != "int":
            return None
        if v.op == "ind":
            if w.op == "op" and w.a[0] == "Add" and self.const(1) in w.a:
                return 1
            return None
        out = 0
        for c, l in self.leaves(w):
            if l.op != "c" or l.a[0] != "int" or l.a[1] not in (v0.a[1], v0.a[1] + 1):
                return None
            if l.a[1] != v0.a[1]:
                out = self.bdd.or_(out, c)
        return out or None

    def string_pieces(self, v, w):
        """What the leaves of w append to the string v: [(predicate, text)], or None."""
        base = list(v.a[0]) if v.op == "fmt" else [v] if v.op != "c" else [v.a[1]] if v.a[1] else []
        out = []
        for c, l in self.leaves(w):
            if l is v:
                continue
            if l.op == "fmt":
                ps = list(l.a[0])
            elif l.op == "c" and l.a[0] == "str":
                ps = [l.a[1]]
            else:
                return None
            n = len(base)
            if n and isinstance(base[-1], str):
                if len(ps) < n or ps[:n - 1] != base[:-1] or not isinstance(ps[n - 1], str) or not ps[n - 1].startswith(base[-1]):
                    return None
                rest = [ps[n - 1][len(base[-1]):]] + ps[n:]
            else:
                if ps[:n] != base:
                    return None
                rest = ps[n:]
            out.append((c, self.fmt(rest)))
        return out or None

    def steady(self, run):
        """Evaluates a repeated computation (the closures of an iterator chain) in its steady state."""
        above, self.depth = self.depth, self.nesting()
        v = self.steadily(run)
        self.depth = above
        return v

    def steadily(self, run):
        st0, pc0 = dict(self.st), self.pc
        ne = len(self.events)
        outer, self.contrib = self.contrib, None
        v = run()
        cs, self.contrib = self.contrib or (), outer
        if self.pc == 0:
            return v
        es = {e for _, x, _ in cs for e in self.elems(x)}
        e = next(iter(es)) if len(es) == len(cs) == 1 else None
        self.over[self.depth] = e if e is not None and e.op == "elem" and cs[0][0] == self.has(e.a[0]) else None
        head, base = st0, st0
        sa = self.widen_state(st0, (self.pc, self.st), "seq")
        if sa is None and self.widen_state(st0, (self.pc, self.st), "all") is None:
            return v
        if sa is not None:
            del self.events[ne:]
            head = sa
            self.st, self.pc = dict(sa), pc0
            v = run()
        post, pc1 = dict(self.st), self.pc
        sb = self.widen_state(head, (pc1, post), "all")
        if sb is not None:
            del self.events[ne:]
            self.st, self.pc = dict(sb), pc0
            v = run()
            for k, x in head.items():
                if k in post and k in self.st:
                    post[k] = self.added(x, post[k], self.st[k])
        for k, x in st0.items():
            w = post.get(k)
            if w is None or w is head.get(k) and head.get(k) is x:
                continue
            n = self.closed(x, head.get(k), w, pc1, pc0)
            if n is not None:
                post[k] = n
        self.st, self.pc = post, pc1
        return v

    def widen_state(self, s0, back, kind):
        """Loop-head state: collections with the contributions of earlier iterations, carried scalars; None if nothing changed."""
        pc, s1 = back
        out = None
        for k, v in s0.items():
            w = s1.get(k)
            if w is None or w is v or v is self.UNDEF or v.op == "it" or w.op == "it":
                continue
            a = self.widen(v, w, kind, pc)
            if a is not v:
                if out is None:
                    out = dict(s0)
                out[k] = a
        return out

    def widen(self, v, w, kind, pc):
        if v is w:
            return v
        B = self.bdd
        if v.op == "c" and w.op == "c" and v.a[0] == w.a[0] == "int" and w.a[1] == v.a[1] + 1:
            if kind != "ind":
                return v
            i = self.mk("ind", self.depth)
            return i if v.a[1] == 0 else self.mk("op", "Add", i, v)
        if kind == "ind":
            if v.op == w.op and v.op in ("adt", "tup") and v.a[:3 if v.op == "adt" else 0] == w.a[:3 if v.op == "adt" else 0] and len(v.a) == len(w.a):
                n = 3 if v.op == "adt" else 0
                return self.mk(v.op, *v.a[:n], *[self.widen(x, y, kind, pc) for x, y in zip(v.a[n:], w.a[n:])])
            return v
        if v.op == "ind" or v.op == "op" and any(isinstance(x, T) and x.op == "ind" for x in v.a):
            return v
        if v.op == "seq" and w.op == "cs" and all(l.op == "seq" for _, l in w.a):
            w = self.merge_seqs([(c, l) for c, l in w.a])
        if v.op == "seq" and w.op == "seq":
            if kind == "all":
                return v
            out = list(v.a)
            have = {e: i for i, (_, e) in enumerate(out)}
            for c, e in w.a:
                if e in have:
                    i = have[e]
                    if out[i][0] != c:
                        c = B.or_(out[i][0], B.and_(c, pc))
                        out[i] = (c, e)
                    continue
                c = B.and_(c, pc)
                if e.op == "tup" and len(e.a) == 2:
                    for i, (c0, e0) in enumerate(out):
                        if e0.op == "tup" and len(e0.a) == 2 and e0.a[0] is e.a[0]:
                            out[i] = (B.or_(c0, c), self.tup(e.a[0], self.widen(e0.a[1], e.a[1], kind, pc)))
                            break
                    else:
                        out.append((c, e))
                    continue
                out.append((c, e))
            return self.mk("seq", *out)
        if v.op == w.op == "adt" and v.a[:3] == w.a[:3]:
            return self.mk("adt", *v.a[:3], *[self.widen(x, y, kind, pc) for x, y in zip(v.a[3:], w.a[3:])])
        if v.op == w.op == "tup" and len(v.a) == len(w.a):
            return self.tup(*[self.widen(x, y, kind, pc) for x, y in zip(v.a, w.a)])
        if v.op == w.op == "clo" and v.a[0] == w.a[0] and len(v.a) == len(w.a):
            return self.mk("clo", v.a[0], *[self.widen(x, y, kind, pc) for x, y in zip(v.a[1:], w.a[1:])])
        if v.op == w.op == "with" and v.a[1] == w.a[1]:
            return self.mk("with", self.widen(v.a[0], w.a[0], kind, pc), v.a[1], self.widen(v.a[2], w.a[2], kind, pc))
        if v.op == "fmt" or v.op == "c" and v.a[0] == "str" or v.op not in ("c", "seq", "adt", "cs") and v in self.outs.values():
            ps = self.string_pieces(v, w)
            if ps is not None:
                if kind == "all":
                    return v
                return self.fmt([v, self.call("concat", self.mk("seq", *[(B.and_(c, pc), e) for c, e in ps]))])
        if kind != "all":
            return v
        if v.op in ("c", "op", "lv", "count") and (v.op != "c" or v.a[0] == "int"):
            if v.op == "lv":
                return v
            return self.mk("lv", v, w)
        later = self.later()
        return self.cases([(later, self.earlier(w)), (B.not_(later), v)])

    def added(self, v, w, w2):
        if w is w2 or v is w and v is w2:
            return w
        if v.op == w.op == w2.op == "seq":
            return w2
        if v.op == w.op == w2.op == "adt" and v.a[:3] == w.a[:3] == w2.a[:3] and len(v.a) > 3:
            return self.mk("adt", *v.a[:3], *[self.added(x, y, z) for x, y, z in zip(v.a[3:], w.a[3:], w2.a[3:])])
        if v.op == w.op == w2.op == "tup" and len(v.a) == len(w.a) == len(w2.a):
            return self.tup(*[self.added(x, y, z) for x, y, z in zip(v.a, w.a, w2.a)])
        if v.op == w.op == w2.op == "with" and v.a[1] == w.a[1] == w2.a[1]:
            return self.mk("with", self.added(v.a[0], w.a[0], w2.a[0]), v.a[1], self.added(v.a[2], w.a[2], w2.a[2]))
        if v.op == "fmt" and self.string_pieces(v, w2) is not None:
            return w2
        return w

    def later(self):
        """Not the first iteration: where every element of a source gets one, its index is not 0."""
        e = self.over.get(self.depth)
        if e is not None:
            return self.bdd.not_(self.eq(self.mk("pos", e), self.const(0)))
        return self.atom(("t", self.mk("call", "later", self.const(self.depth))))

    def latest(self, v, w, w2, pc, driven):
        """A carried value that a later iteration overwrites: its elements are the last ones, not just some.
        v: before the loop, w: after the first iteration, w2: after an iteration that follows others."""
        if w is v or w2 is v or not driven:
            return w
        if v.op == w.op == w2.op == "adt" and v.a[:3] == w.a[:3] == w2.a[:3] and len(v.a) > 3:
            return self.mk("adt", *v.a[:3], *[self.latest(x, y, z, pc, driven) for x, y, z in zip(v.a[3:], w.a[3:], w2.a[3:])])
        if v.op == w.op == w2.op == "tup" and len(v.a) == len(w.a) == len(w2.a):
            return self.tup(*[self.latest(x, y, z, pc, driven) for x, y, z in zip(v.a, w.a, w2.a)])
        if v.op == w.op == w2.op == "with" and v.a[1] == w.a[1] == w2.a[1]:
            return self.mk("with", self.latest(v.a[0], w.a[0], w2.a[0], pc, driven), v.a[1], self.latest(v.a[2], w.a[2], w2.a[2], pc, driven))
        if v.op in ("seq", "fmt", "count", "ind", "it", "lv"):
            return w
        es = self.elems(w) & frozenset(driven)
        if not es:
            return w
        B = self.bdd
        self.driven = frozenset(driven)
        prev = self.earlier(w)
        self.driven = frozenset()
        later = B.and_(pc, self.later())
        old = {self.mk("elem", e.a[0], -1 - e.a[1]) if e.op == "elem" else self.call("earlier", e) for e in es}
        if self.is_truth(v):
            tv, tp, t2 = self.truth(v), self.truth(prev), self.truth(w2)
            if tv == 0 and B.implies(B.and_(later, tp), t2) or tv == 1 and B.implies(B.and_(later, B.not_(tp)), B.not_(t2)):
                return w
            if tv > 1:
                return w
        else:
            first = True
            for c, l in self.leaves(prev):
                if l is v:
                    continue
                for c2, l2 in self.leaves(w2):
                    if l2 is not l and B.and_(later, B.and_(c, c2)):
                        first = False
                        if self.within(l, l2) or self.elems(l2) & old and l2 not in [x for _, x in self.leaves(prev)]:
                            return w  # an accumulation
            if first:
                return w
        return self.rename(w, {e: self.call("latest", e) for e in es}, {})

    def within(self, x, t, seen=None):
        """Does term t mention term x?"""
        if t is x:
            return True
        seen = set() if seen is None else seen
        if t.id in seen:
            return False
        seen.add(t.id)
        for y in t.a:
            if isinstance(y, T):
                if self.within(x, y, seen):
                    return True
            elif isinstance(y, tuple) and any(isinstance(z, T) and self.within(x, z, seen) for z in y):
                return True
        return False

    def is_truth(self, t):
        return t.op == "b" or t.op == "c" and t.a[0] == "bool" or t.op == "cs" and all(self.is_truth(l) for _, l in t.a)

    def is_machine(self, *vs):
        """A carried value that runs through several variants of an enum: its transitions are part of the result."""
        ls = {l for v in vs if v is not None for _, l in self.leaves(v)}
        return len(ls) > 2 and all(l.op == "adt" and not l.a[2] and l.a[0] != OPTION for l in ls)

    def earlier(self, w):
        """A carried value as the next iteration sees it: what it has of the element is of an earlier one."""
        es = self.elems(w) & self.driven
        if not es:
            return w
        return self.rename(w, {e: self.mk("elem", e.a[0], -1 - e.a[1]) if e.op == "elem" else self.call("earlier", e) for e in es}, {})

    def edge(self, prep, src, dst, pending, loop, pc, st):
        if pc == 0 or dst in prep.unreach:
            return
        if loop is not None and dst == loop["h"]:
            loop["backs"].append((pc, st))
            return
        pending.setdefault(dst, []).append((pc, st))

    def run_block(self, b, prep, fid, n, pending, rets, loop):
        self.steps += 1
        if self.steps > self.budget:
            raise GvfError(f"analysis budget exceeded in {b.get('key')}")
        blk = b["blocks"][n]
        for s in blk["s"]:
            if s[1][0] == "setdisc":
                continue
            if self.stack:
                self.stack[-1][1] = s[2]
            v = self.rvalue(b, fid, s[1])
            self.write_place(b, fid, s[0], v)
        t = blk["t"]
        k = t[0]
        if prep.wide and k != "call":
            self.pcout[(fid, n)] = self.pc
        if k == "goto":
            self.edge(prep, n, t[1], pending, loop, self.pc, self.st)
        elif k == "ret":
            rets.append((self.pc, self.st))
        elif k == "drop":
            if not b.get("coroutine"):
                ty = self.dropped(b["types"][t[3]])
                if ty:
                    self.run_drop(*ty, self.refm_to(self.place_ref(b, fid, t[1])), t[4])
                    if self.pc == 0:
                        return
            self.edge(prep, n, t[2], pending, loop, self.pc, self.st)
        elif k == "assert":
            self.edge(prep, n, t[4], pending, loop, self.pc, self.st)
        elif k == "switch":
            self.switch(b, prep, fid, n, t, pending, loop)
        elif k == "call":
            if self.stack:
                self.stack[-1][1] = t[5]
            ret = self.do_call(b, fid, t)
            if t[4] is None:
                return
            if self.pc == 0:
                return
            if isinstance(ret, tuple):  # several contributions of an iterator in a loop
                kind, c, val = ret
                skip = self.bdd.and_(self.pc, self.bdd.not_(c))
                if skip != 0 and self.loops and kind == "more":
                    self.loops[-1]["backs"].append((skip, dict(self.st)))
                self.pc = self.bdd.and_(self.pc, c)
                ret = val
                if self.pc == 0:
                    return
            self.write_place(b, fid, t[3], ret)
            if prep.wide:
                self.pcout[(fid, n)] = self.pc
            self.edge(prep, n, t[4], pending, loop, self.pc, self.st)
        elif k == "yield":
            self.pc = 0  # an await always completes

    def switch(self, b, prep, fid, n, t, pending, loop):
        B = self.bdd
        x = self.operand(b, fid, t[1])
        conds = []
        rest = 1
        for vs, dst in t[2]:
            c = self.switch_cond(x, int(vs), b["types"][t[4]])
            c = B.and_(c, rest)
            rest = B.and_(rest, B.not_(c))
            conds.append((c, dst))
        conds.append((rest, t[3]))
        conds = [(c, d) for c, d in conds if d not in prep.unreach]
        # the compiler proved the "otherwise" edge unreachable: the listed edges are total
        if loop is not None and loop["exit"] and not loop["taken"]:
            ex = [(c, d) for c, d in conds if d not in loop["blocks"] and d in prep.live]
            if ex and len(ex) < len(conds):
                loop["taken"] = True
                d0 = ex[0][1]
                if all(d == d0 for _, d in ex):
                    self.edge(prep, n, d0, pending, loop, self.pc, self.st)
                else:
                    tot = B.any([B.and_(self.pc, c) for c, _ in ex])
                    if tot == 0:
                        self.edge(prep, n, d0, pending, loop, self.pc, self.st)
                    else:
                        for c, d in ex:
                            cc = B.and_(self.pc, c)
                            if cc:
                                self.edge(prep, n, d, pending, loop, cc, dict(self.st))
                return
        live = []
        for c, d in conds:
            cc = B.and_(self.pc, c)
            if cc != 0:
                live.append((cc, d))
        for i, (cc, d) in enumerate(live):
            s = self.st if i == len(live) - 1 else dict(self.st)
            self.edge(prep, n, d, pending, loop, cc, s)

    def switch_cond(self, x, v, ty):
        if x.op == "cs":
            return self.bdd.any([self.bdd.and_(c, self.switch_cond(l, v, ty)) for c, l in x.a])
        if x.op == "undef":
            return 0
        if x.op == "disc":
            e, adt = x.a
            name = self.disc_name(adt, v)
            if name is None:
                return self.valatom(x, None, ("int", v))
            return self.is_(e, adt, name)
        if ty == "bool" or x.op == "b":
            c = self.truth(x)
            return c if v else self.bdd.not_(c)
        if ty == "char":
            return self.eq(x, self.const(chr(v)))
        return self.eq(x, self.const(v))

    def disc_name(self, adt, v):
        a = self.p.adts.get(adt)
        if adt == OPTION:
            return ["None", "Some"][v]
        if adt == RESULT:
            return ["Ok", "Err"][v]
        if a:
            for vv in a["variants"]:
                if str(vv["disc"]) == str(v):
                    return vv["name"]
        return None

    # ---------------------------------------------------------------- places
    def read_place(self, b, fid, p):
        v = self.st.get((fid, p[0]), self.UNDEF)
        variant = None
        for e in p[1:]:
            if e == "*":
                v = self.read(v)
            elif e == "?":
                pass
            elif e[0] == "f":
                if v.op == "refm":
                    if v.a[0][0] == "h" and e[1] in ("0", "pointer"):
                        continue
                    v = self.read(v)
                if e[1] in ("pointer",) and v.op != "adt":
                    pass
                else:
                    v = self.field(v, variant, e[1])
                variant = None
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                if v.op == "refm":
                    v = self.read(v)
                v = self.idx(v, self.st.get((fid, e[1]), self.UNDEF))
            elif e[0] == "ci":
                v = self.idx(v, self.const(e[1])) if not e[2] else self.mk("ixend", v, e[1])
            elif e[0] == "ss":
                v = self.mk("slice", v, e[1], e[2], e[3])
        return v

    def place_ref(self, b, fid, p):
        """The memory cell and path a place denotes."""
        cell, path = (fid, p[0]), ()
        variant = None
        ty = b["types"][b["locals"][p[0]][0]]
        for i, e in enumerate(p[1:]):
            if e == "*":
                cur = self.get_path(self.getcell(cell), path)
                if cur.op == "refm":
                    cell, path = cur.a
                elif i == 0 and ty.startswith("std::boxed::Box<") or cur.op in ("adt", "seq", "with", "undef", "clo", "b", "c"):
                    pass
                elif cur.op == "cs" and all(l.op == "refm" for _, l in cur.a):
                    return ("cs", [(c, self.extend_ref(b, fid, l.a[0], l.a[1], p[1:][i + 1:])) for c, l in cur.a])
                else:
                    cell, path = ("o", cur), ()
            elif e == "?":
                pass
            elif e[0] == "f":
                path = path + (("f", variant, e[1]),)
                variant = None
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                path = path + (("i", self.st.get((fid, e[1]), self.UNDEF)),)
            elif e[0] == "ci":
                path = path + (("i", self.const(e[1])),)
        return (cell, path)

    def extend_ref(self, b, fid, cell, path, rest):
        variant = None
        for e in rest:
            if e == "*":
                cur = self.get_path(self.getcell(cell), path)
                if cur.op == "refm":
                    cell, path = cur.a
                else:
                    cell, path = ("o", cur), ()
            elif e == "?":
                pass
            elif e[0] == "f":
                path = path + (("f", variant, e[1]),)
                variant = None
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                path = path + (("i", self.st.get((fid, e[1]), self.UNDEF)),)
        return (cell, path)

    def write_place(self, b, fid, p, v):
        if len(p) == 1:
            self.st[(fid, p[0])] = v
            return
        r = self.place_ref(b, fid, p)
        if r[0] == "cs":
            slot = any(cell[0] == "slot" for _, (cell, _) in r[1])
            for c, (cell, path) in r[1]:
                if slot:
                    self.under(c, lambda: (self.write(self.mk("refm", cell, path), v), self.UNIT)[1])
                    continue
                old = self.get_path(self.getcell(cell), path)
                self.write(self.mk("refm", cell, path), self.ite(c, v, old))
            return
        self.write(self.mk("refm", *r), v)

    # ---------------------------------------------------------------- operands and rvalues
    def operand(self, b, fid, o):
        if isinstance(o, list):
            return self.read_place(b, fid, o)
        return self.constant(b, o)

    def constant(self, b, o):
        types = b["types"]
        ty = types[o["t"]] if "t" in o else ""
        if "fn" in o:
            if "ctor" in o:
                return self.mk("ctor", o["ctor"], o["ctorv"])
            return self.mk("fn", o.get("rk") or o["fk"], o["fn"], tuple(self.tsub(types[x]) for x in o.get("ga", ())), tuple(self.tsub(types[x]) for x in o.get("rga", ())), bool(o.get("open")))
        if "clo" in o:
            return self.mk("clo", o["clo"])
        if "prom" in o:
            owner = b
            if "promof" in o:
                owner = self.p.bodies.get(o["promof"], b)
            elif "of" in b:
                owner = b["of"]
            pr = owner.get("prom") or []
            if o["prom"] < len(pr):
                pb = pr[o["prom"]]
                if "types" not in pb:
                    pb["types"] = owner["types"]
                    pb["of"] = owner
                    pb["key"] = None
                return self.run_body(pb, [], promoted=True)
            return self.mk("k", "promoted", ty)
        if "v" in o:
            v = o["v"]
            if v is False and ty not in ("bool",) and "t" not in o:
                return self.FALSE
            return self.const(v)
        if "bytes" in o:
            return self.const(bytes(o["bytes"]))
        if "var" in o:
            return self.mk("adt", base_type(ty), o["var"], ())
        if "bits" in o and ty in ("f32", "f64"):
            import struct
            w = 4 if ty == "f32" else 8
            return self.mk("k", repr(struct.unpack("<f" if w == 4 else "<d", int(o["bits"]).to_bytes(w, "little"))[0]), ty)
        if "cp" in o:
            ck = o.get("ck")
            cb = self.p.bodies.get(ck)
            if cb and cb["kind"] in ("Const", "AssocConst", "InlineConst") and "bits" not in o and not cb.get("exp") and "Flags" not in cb.get("trait", ""):
                return self.run_body(cb, [])
            if re.match(r"http::(Method|StatusCode|header)\b", o["cp"]):
                return self.mk("c", "name", o["cp"].rsplit("::", 1)[-1])  # distinct by definition
            same = self.p.flags().get((o.get("ck"), o.get("bits")))
            if same:
                return self.mk("k", same, ty)  # a flag that is also another one
            return self.mk("k", o["cp"], ty)
        if "bits" in o:
            return self.mk("k", str(o["bits"]), ty)
        if "static" in o:
            sb = self.p.bodies.get(o["static"])
            if sb and o["static"].endswith("::__CALLSITE"):
                return self.mk("k", o["static"], "callsite")
            if sb and not ty.startswith("*mut") and not sb.get("exp") and not any(x[0] == o["static"] for x in self.stack):
                st = sb["types"][sb["locals"][0][0]]
                if "LazyLock<" in st or "Lazy<" in st or not re.search(r"Mutex|Atomic|Cell|OnceLock|RwLock|Queue|Lazy|\bmut\b|LocalKey", st):
                    return self.run_body(sb, [])
            return self.mk("k", o["static"].rsplit("::", 1)[-1], "static")
        if "zst" in o:
            if ty == "()":
                return self.UNIT
            return self.mk("adt", base_type(ty), None, ())
        return self.mk("k", o.get("cparam", "const"), ty)

    def rvalue(self, b, fid, rv):
        k = rv[0]
        if k == "use":
            return self.operand(b, fid, rv[1])
        if k == "ref":
            return self.read_place(b, fid, rv[1])
        if k == "refm":
            p = rv[1]
            r = self.place_ref(b, fid, p)
            if r[0] == "cs":
                return self.cases([(c, self.mk("refm", *x)) for c, x in r[1]])
            return self.mk("refm", *r)
        if k == "cast":
            x = self.operand(b, fid, rv[2])
            if rv[1] in ("IntToInt", "IntToFloat", "FloatToInt", "FloatToFloat"):
                return self.convert(x, b["types"][rv[4]], b["types"][rv[3]])
            return x
        if k == "bin":
            x, y = self.operand(b, fid, rv[2]), self.operand(b, fid, rv[3])
            self.unsigned = rv[1] in ("Lt", "Le", "Gt", "Ge") and any(self.operand_type(b, o) in UNSIGNED for o in rv[2:4])
            r = self.binop(rv[1], x, y)
            self.unsigned = False
            return r
        if k == "un":
            x = self.operand(b, fid, rv[2])
            if rv[1] == "Not":
                ty = None
                if x.op in ("b", "cs") or self.is_bool(b, rv[2]):
                    return self.boolt(self.bdd.not_(self.truth(x)))
                return self.call("not", x)
            if rv[1] == "Neg":
                if x.op == "c" and x.a[0] == "int":
                    return self.const(-x.a[1])
                return self.call("neg", x)
            if rv[1] == "PtrMetadata":
                return self.len_(self.val(x))
            return self.call(rv[1], x)
        if k == "disc":
            x = self.read_place(b, fid, rv[1])
            x = self.val(x)
            return self.mk("disc", x, rv[2] or "?")
        if k == "agg":
            kind, path, variant, ops = rv[1], rv[2], rv[3], rv[4]
            xs = [self.operand(b, fid, o) for o in ops]
            if kind == "tuple":
                return self.tup(*xs)
            if kind == "array":
                return self.mk("arr", *xs)
            if kind == "closure":
                return self.mk("clo", path, *xs)
            if kind == "adt":
                return self.adt(path, variant, xs)
            return xs[0] if xs else self.UNIT
        if k == "rep":
            return self.call("repeat", self.operand(b, fid, rv[1]))
        if k == "tls":
            return self.mk("k", rv[1], "tls")
        return self.mk("k", "other", "")

    def is_bool(self, b, o):
        if isinstance(o, list) and len(o) == 1:
            return b["types"][b["locals"][o[0]][0]] == "bool"
        if isinstance(o, list):
            return True
        return False

    def adt(self, path, variant, xs):
        if path == OPTION or path == RESULT:
            names = tuple("0" for _ in xs)
            return self.mk("adt", path, variant, names, *xs)
        a = self.p.adts.get(path)
        names = None
        if a:
            for v in a["variants"]:
                if variant is None or v["name"] == variant:
                    names = tuple(f[0] for f in v["fields"])
                    break
        if names is None or len(names) != len(xs):
            names = tuple(str(i) for i in range(len(xs)))
        return self.mk("adt", path, variant, names, *xs)

    def convert(self, x, src, dst):
        """`x as dst`: the value itself where every value of the source type fits."""
        if src not in WIDTH or dst not in WIDTH or x.op == "disc":
            return x
        (sk, sw), (dk, dw) = WIDTH[src], WIDTH[dst]
        if sk == dk and dw >= sw or sk == "u" and dk == "i" and dw > sw or sk in "ui" and dk == "f" and sw < (53 if dw == 64 else 24):
            return x
        x = self.val(x)
        if x.op == "cs":
            return self.cases([(c, self.convert(l, src, dst)) for c, l in x.a])
        if x.op == "c" and x.a[0] == "int" and dk in "ui":
            n = x.a[1] & ((1 << dw) - 1)
            return self.const(n - (1 << dw) if dk == "i" and n >> (dw - 1) else n)
        return self.call("as " + dst, x)

    def operand_type(self, b, o):
        if isinstance(o, dict):
            return b["types"][o["t"]] if "t" in o else ""
        return b["types"][b["locals"][o[0]][0]] if len(o) == 1 else ""

    def binop(self, op, x, y):
        B = self.bdd
        if x.op == "refm":
            x = self.val(x)
        if y.op == "refm":
            y = self.val(y)
        if op == "Eq":
            return self.boolt(self.eq(x, y))
        if op == "Ne":
            return self.boolt(B.not_(self.eq(x, y)))
        if op == "Lt":
            return self.boolt(self.lt(x, y))
        if op == "Gt":
            return self.boolt(self.lt(y, x))
        if op == "Le":
            return self.boolt(B.not_(self.lt(y, x)))
        if op == "Ge":
            return self.boolt(B.not_(self.lt(x, y)))
        if op.endswith("WithOverflow"):
            return self.tup(self.binop(op[:-12], x, y), self.FALSE)
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op in ("BitAnd", "BitOr", "BitXor") and (x.op == "b" or y.op == "b"):
            f = {"BitAnd": B.and_, "BitOr": B.or_, "BitXor": B.xor}[op]
            return self.boolt(f(self.truth(x), self.truth(y)))
        if x.op == "cs":
            return self.cases([(c, self.binop(op, l, y)) for c, l in x.a])
        if y.op == "cs":
            return self.cases([(c, self.binop(op, x, l)) for c, l in y.a])
        ci = lambda t: t.op == "c" and t.a[0] == "int"
        if ci(x) and ci(y):
            a, c = x.a[1], y.a[1]
            try:
                r = {"Add": lambda: a + c, "Sub": lambda: a - c, "Mul": lambda: a * c, "Div": lambda: a // c, "Rem": lambda: a % c,
                     "Shl": lambda: a << c, "Shr": lambda: a >> c, "BitAnd": lambda: a & c, "BitOr": lambda: a | c, "BitXor": lambda: a ^ c}[op]()
                return self.const(r)
            except (KeyError, ZeroDivisionError):
                pass
        if op in ("Add", "Sub") and ci(y) and y.a[1] == 0:
            return x
        if op == "Add" and ci(x) and x.a[1] == 0:
            return y
        if op in ("Add", "Sub") and ci(y) and x.op == "op" and x.a[0] == "Add" and any(ci(z) for z in x.a[1:]):
            k, z = (x.a[1], x.a[2]) if ci(x.a[1]) else (x.a[2], x.a[1])
            n = k.a[1] + (y.a[1] if op == "Add" else -y.a[1])
            if n >= 0:
                return self.binop("Add", z, self.const(n))
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor"):
            if x.op == "c" or (y.op != "c" and self.text(y) < self.text(x)):
                x, y = y, x
        return self.mk("op", op, x, y)

    # ---------------------------------------------------------------- calls
    def matches(self, pats, key):
        r = self._match.get((id(pats), key))
        if r is None:
            r = any(p.search(key) for p in pats)
            self._match[(id(pats), key)] = r
        return r

    def call_value(self, f, args, line=None):
        """Call a function value (closure, fn item, constructor)."""
        if self.pc == 0:
            return self.UNDEF
        at = f
        f = self.val(f)
        if f.op == "cs":
            def go(parts):
                if len(parts) == 1:
                    return self.call_value(parts[0][1], args)
                return self.split(parts[0][0], lambda: self.call_value(parts[0][1], args), lambda: go(parts[1:]))
            return go(list(f.a))
        if f.op == "clo":
            b = self.p.bodies.get(f.a[0])
            if b is None:
                raise GvfError("no body for closure " + f.a[0])
            if any(s[0] == f.a[0] for s in self.stack) or len(self.stack) > self.max_depth:
                return self.recursion(f.a[0], args)
            if b.get("coroutine") and args:
                return self.mk("clo", *f.a)
            self.stack.append(self.new_frame(b))
            # state of its own that the closure changes is kept from call to call
            r = self.run_body(b, [at if at.op == "refm" and len(f.a) > 1 else f] + list(args))
            self.stack.pop()
            return r
        if f.op == "ctor":
            return self.ctor(f.a[0], f.a[1], args)
        if f.op == "fn":
            d = {"fn": f.a[1], "fk": f.a[0], "rk": f.a[0], "ga_t": f.a[2], "rga_t": f.a[3], "open": f.a[4]}
            return self.call_named(d, list(args), None)
        return self.call("apply", f, *[self.val(x) for x in args])

    def ctor(self, path, v, args):
        vs = self.p.variants(path)
        return self.adt(path, v if vs else None, list(args))

    def new_frame(self, b, d=None, env=None):
        """A stack frame for a body, with the types its parameters stand for."""
        key = b["key"]
        known = env is not None
        if not known:
            env = {}
            gens = b.get("gen")
            if d is not None and gens:
                ga = d.get("rga_t") or d.get("ga_t") or ()
                if len(ga) == len(gens):
                    env = {g: t for g, t in zip(gens, ga) if g != t}
            elif gens is None:
                for f in reversed(self.stack):
                    if key.startswith(f[0] + "::"):
                        env = f[2] if len(f) > 2 else {}
                        break
        if env and self.stack and not known:
            c = self.crate_of(self.stack[-1][0])
            if c and c != b["crate"]:
                env = {g: self.p.localise(self.p.canon(t, c), b["crate"]) for g, t in env.items()}
        return [key, b["line"], env]

    def crate_of(self, key):
        b = self.p.bodies.get(key)
        return b["crate"] if b else None

    def env(self):
        f = self.stack[-1] if self.stack else ()
        return f[2] if len(f) > 2 else {}

    def tsub(self, t):
        env = self.env()
        if not env:
            return t
        pat = self._envpat.get(tuple(env))
        if pat is None:
            pat = self._envpat[tuple(env)] = re.compile(r"(?<![\w:'])(" + "|".join(sorted(map(re.escape, env), key=len, reverse=True)) + r")(?![\w:])")
        return pat.sub(lambda m: env[m.group()], t)

    def do_call(self, b, fid, t):
        f = t[1]
        args = [self.operand(b, fid, a) for a in t[2]]
        self.calls_seen += 1
        if isinstance(f, list):
            return self.call_value(self.operand(b, fid, f), args)
        if "ctor" in f:
            return self.ctor(f["ctor"], f["ctorv"], args)
        if "fn" not in f:
            return self.call_value(self.constant(b, f), args)
        d = dict(f)
        if len(t[3]) == 1 and t[3][0] not in self.p.reads(b):
            d["unused"] = True
        d["ga_t"] = tuple(self.tsub(b["types"][x]) for x in f.get("ga", ()))
        if "rga" in f:
            d["rga_t"] = tuple(self.tsub(b["types"][x]) for x in f["rga"])
        d["shared"] = [i for i, o in enumerate(t[2]) if re.match(r"&(?!mut )", self.operand_type(b, o))]
        d["diverges"] = t[4] is None
        d["label"] = self.labels.get(id(t))
        p = t[3]
        d["ret_t"] = self.tsub(b["types"][b["locals"][p[0]][0]]) if len(p) == 1 else ""
        return self.call_named(d, args, t)

    def call_named(self, d, args, t):
        key = d.get("rk") or d["fk"]
        name = short(d["fn"])
        env = None
        if (d.get("open") or "rk" not in d or key == d["fk"]) and not d.get("virt") and d.get("ga_t") and self.env():
            found, some = self.p.impl_method(*d["fn"].rsplit("::", 1), d["ga_t"], self.crate_of(self.stack[-1][0]))
            if found:
                b, env = found
                d = dict(d, rk=b["key"], rn=b["name"], open=None)
                key = b["key"]
            elif some:
                d = dict(d, open=None)
        line = t[5] if t else None
        if self.matches(self.sinks, key) or self.matches(self.sinks, name):
            ws = self.writers(args) if d.get("ret_t", "") in FMT_RET else ()
            if ws:
                return self.printed(name, args, ws, d["ret_t"], 2)
            vals = [self.force(self.val(a), 2) for a in args]
            self.emit("sink", name, vals, line)
            if d.get("diverges"):
                self.pc = 0
            if self.smooth and (self.matches(self.smooth, key) or self.matches(self.smooth, name)):
                return self.ok(self.UNIT)
            if d.get("ret_t", "") == "()":
                return self.UNIT
            return args[0] if name in FLUENT else self.call(name, *vals)
        if self.matches(self.opaque, key) or self.matches(self.opaque, name):
            ws = self.writers(args) if d.get("ret_t", "") in FMT_RET else ()
            if ws:
                return self.printed(name, args, ws, d["ret_t"])
            return self.call(name, *[self.force(v, 1) for v in map(self.val, args)])
        b = None if d.get("open") or d.get("virt") else self.p.bodies.get(key)
        m = self.models.get(name)
        if b is not None and b.get("exp") and name.endswith("::contains") and len(args) == 2:
            m = flags_contains
        if m is not None and (b is None or getattr(m, "always", False) or name == "Clone::clone" and b.get("exp")):
            r = m(self, d, args)
            if r is not NotImplemented:
                return r
        if name in ("FnOnce::call_once", "Fn::call", "FnMut::call_mut") and (b is None or b.get("key") and "{closure" in b["key"]) and len(args) == 2:
            tup = self.val(args[1])
            xs = list(tup.a) if tup.op == "tup" else [tup]
            f = self.val(args[0])
            if name != "Fn::call" and f.op not in ("clo", "fn", "ctor", "cs", "undef"):
                self.emit("sink", "call", [f] + [self.force(self.val(x), 1) for x in xs], line)
            return self.call_value(args[0], xs)
        if b is not None and name == "Display::fmt" and len(args) == 2 and not self.closured(self.val(args[0])):
            # the same as through a format string
            ws = self.writers(args)
            if ws:
                return self.printed(name, args, ws, d.get("ret_t", ""), 1)
        if b is not None and self.inlinable(b, key):
            self.stack.append(self.new_frame(b, d, env))
            r = self.run_body(b, args)
            self.stack.pop()
            return r
        if b is not None and any(x[0] == key for x in self.stack):
            name = "rec"
            args = [self.relevant(key, self.val(a)) if self.val(a).op == "adt" else a for a in args]
        return self.opaque_call(d, name, args, line)

    def recursion(self, key, args):
        return self.call("rec", *[self.relevant(key, self.val(x)) for x in args])

    def relevant(self, key, v):
        """A struct as the recursive call can see it: without the fields nothing in it mentions."""
        if v.op != "adt" or self.p.variants(v.a[0]):
            return v
        if not v.a[2] or v.a[0] not in self.p.adts:
            return v
        names = self.p.touched(key)
        keep = [i for i, f in enumerate(v.a[2]) if f in names]
        if len(v.a[2]) < 2 or len(keep) == len(v.a[2]):
            return v
        return self.mk("adt", v.a[0], v.a[1], tuple(v.a[2][i] for i in keep), *[v.a[3 + i] for i in keep])

    def printed(self, name, args, ws, ret, depth=1):
        """A call that prints something to a text output."""
        x = self.call(name, *[self.force(self.val(a), depth) for a in args if a not in ws])
        if name.endswith("::fmt") and len(args) == 2:
            x = self.call("show", self.force(self.val(args[0]), depth))
        for w in ws:
            self.append_text(w, x)
        return self.ok(self.UNIT) if ret != "()" else self.UNIT

    def dropped(self, ty):
        """The workspace's own `Drop` body for a type, if it has one."""
        crate = self.crate_of(self.stack[-1][0]) if self.stack else None
        if crate is None:
            return None
        key = (ty, crate)
        r = self.drops.get(key)
        if r is None:
            r = self.p.impl_method("std::ops::Drop", "drop", (ty,), crate)[0] or ()
            self.drops[key] = r
        return r or None

    def refm_to(self, r):
        if r[0] == "cs":
            return self.cases([(c, self.refm_to(x)) for c, x in r[1]])
        return self.mk("refm", *r)

    def run_drop(self, body, env, r, line):
        """What goes out of scope does what its `Drop` says."""
        if not self.inlinable(body, body["key"]):
            return
        for c, l in (r.a if r.op == "cs" else [(1, r)]):
            if l.op != "refm" or self.read(l).op == "undef":
                continue

            def go():
                self.stack[-1][1] = line
                self.stack.append(self.new_frame(body, {}, env))
                self.run_body(body, [l])
                self.stack.pop()
                return self.UNIT
            self.under(c, go)

    def closured(self, x):
        """Whether a value keeps a closure."""
        if x.op == "cs":
            return any(self.closured(l) for _, l in x.a)
        return x.op == "adt" and any(self.val(f).op == "clo" for f in x.a[3:])

    def opaque_call(self, d, name, args, line):
        if d.get("label"):
            name = f"{name}<{d['label']}>"
        if d.get("ret_t", "") in FMT_RET:
            ws = self.writers(args)
            if ws:
                return self.printed(name, args, ws, d["ret_t"])
        vals = [self.val(a) for a in args]
        self.opq[name] = self.opq.get(name, 0) + 1
        if d.get("diverges"):
            self.emit("panic", name, vals, line)
            self.pc = 0
            return self.UNDEF
        shared = d.get("shared", ())
        muts = [a for i, a in enumerate(args) if a.op == "refm" and i not in shared]
        if self.stepping and len(muts) == 1 and self.matches(self.stepping, name):
            r = self.call(name, *[self.force(v, 1) for v in vals])
            self.write(self.follow(muts[0]), self.call("after", r), note=False)
            return r
        if len(muts) == 1 and d.get("ret_t", "") == "()" and not self.loops and muts[0].a[0][0] not in ("p", "o") and not muts[0].a[1] and muts[0].a[0] in self.st:
            # a value of the function's own: what it is from here on
            self.st[muts[0].a[0]] = self.call(name, *[self.force(v, 1) for v in vals])
            return self.UNIT
        r = self.call(name, *[self.force(v, 1) for v in vals])
        if not muts and (d.get("ret_t", "") == "()" or d.get("unused")):
            # nothing comes of it but what it does
            self.emit("sink", name, vals, line)
        if muts:
            self.emit("mut", name, vals, line)
            for i, a in enumerate(muts if name != "rec" else ()):
                # a value of the function's own that was known: it is what the call makes of it from here on
                a = self.follow(a)
                if a.op == "refm" and a.a[0][0] not in ("p", "o", "slot") and self.read(a).op in KNOWN:
                    self.write(a, self.call("after", r, *([self.const(i)] if len(muts) > 1 else [])), note=False)
        return self.UNIT if d.get("ret_t", "") == "()" else r

    def force(self, v, depth=4):
        """A value as an observer outside the analysed code sees it: lazy iterators are run and closures are what they compute."""
        if v.op == "it":
            return self.models["to_seq"](self, v)
        if v.op == "clo" or v.op == "fn" and v.a[0] in self.p.bodies:
            return self.run_unknown_closure(v)
        if v.op == "ctor":
            a = self.p.adts.get(v.a[0])
            fs = next((x["fields"] for x in a["variants"] if len(a["variants"]) == 1 or x["name"] == v.a[1]), None) if a else [0] if v.a[0] in (OPTION, RESULT) else None
            if fs:
                n = sum(1 for s in self.stack if s[0] == "|unknown|")
                return self.mk("lam", self.ctor(v.a[0], v.a[1], [self.mk("cloarg", n, i) for i in range(len(fs))]))
            return v
        if depth <= 0:
            return v
        if v.op == "cs" and any(l.op in ("it", "clo", "adt", "tup", "fn", "ctor") for _, l in v.a):
            parts = list(v.a)
            out = []
            for c, l in parts:
                r = [l]

                def go():
                    r[0] = self.force(l, depth - 1)
                    return self.UNIT
                if l.op in ("it", "clo", "adt", "tup", "fn", "ctor"):
                    self.under(c, go)
                out.append((c, r[0]))
            return self.cases(out)
        if v.op == "adt" and any(isinstance(x, T) and x.op in ("it", "clo", "adt", "tup", "cs", "fn", "ctor") for x in v.a[3:]):
            return self.mk("adt", *v.a[:3], *[self.force(x, depth - 1) for x in v.a[3:]])
        if v.op == "tup" and any(x.op in ("it", "clo", "adt", "tup", "cs", "fn", "ctor") for x in v.a):
            return self.mk("tup", *[self.force(x, depth - 1) for x in v.a])
        return v

    def run_unknown_closure(self, clo):
        """What a closure handed to unknown code computes and does when it is called."""
        b = self.p.bodies.get(clo.a[0])
        if b is None or any(s[0] == clo.a[0] for s in self.stack):
            return clo
        n = sum(1 for s in self.stack if s[0] == "|unknown|")
        fn = clo.op == "fn"
        if fn and (not self.inlinable(b, clo.a[0]) or self.matches(self.opaque, clo.a[0])):
            return clo
        args = [self.mk("cloarg", n, i) for i in range(b["args"] - (0 if fn else 1))]
        self.stack.append(["|unknown|", b["line"]])
        self.stack.append(self.new_frame(b, {"ga_t": clo.a[2], "rga_t": clo.a[3]} if fn else None))
        st, pc = dict(self.st), self.pc
        if b.get("coroutine"):
            r = self.run_body(b, [clo])
        else:
            r = self.await_(self.run_body(b, args if fn else [clo] + args))
            r = self.force(r, 1) if self.pc else r
        del self.stack[-2:]
        lam = self.mk("lam", r) if self.pc else self.mk("lam", self.UNDEF)
        changed = self.pc and any(self.st.get(k) is not v for k, v in st.items())
        if changed:
            A = self.atom(("t", self.call("called", lam)))
            B = self.bdd
            self.pc, self.st = self.merge_states([(B.and_(self.pc, A), self.st), (B.and_(pc, B.not_(A)), st)])
            self.pc = pc if B.and_(pc, B.not_(self.pc)) else self.pc
        else:
            self.pc, self.st = pc, st
        return lam

    def inlinable(self, b, key):
        if self.matches(self.stop, key):
            return False
        if any(s[0] == key for s in self.stack) or len(self.stack) > self.max_depth:
            return False
        tr = b.get("trait")
        if tr:
            tr = trait_of(b).rsplit("::", 1)[-1]
            if b.get("exp") and tr in ("Clone", "Debug", "PartialEq", "Eq", "Hash", "PartialOrd", "Ord", "Serialize", "Deserialize", "Display"):
                return False
            if tr in ("Iterator",) and key.endswith("::next"):
                return False
        return True

    # ---------------------------------------------------------------- roots
    def param_names(self, b):
        names, seen = [], {}
        for i in range(1, b["args"] + 1):
            t = base_type(b["types"][b["locals"][i][0]])
            n = re.sub(r"[^A-Za-z0-9_]+", " ", t.split("::")[-1]).strip().replace(" ", "_") or f"p{i}"
            if t.startswith("impl ") or "{closure" in t:
                n = f"p{i}"
            seen[n] = seen.get(n, 0) + 1
            names.append(n if seen[n] == 1 else f"{n}_{seen[n]}")
        return names

    def run_root(self, b, args=None):
        self.st, self.pc = {}, 1
        self.events, self.stack, self.loops, self.active = [], [[b["key"], b["line"]]], [], []
        names = self.param_names(b)
        vals = []
        for i, n in enumerate(names):
            t = b["types"][b["locals"][i + 1][0]]
            p = self.mk("p", n)
            if args and i in args:
                vals.append(args[i])
            elif re.match(r"^&('\w+ )?mut ", t):
                self.st[("p", n)] = p
                vals.append(self.mk("refm", ("p", n), ()))
            else:
                vals.append(p)
        ret = self.run_body(b, vals)
        ret = self.await_(ret)
        ret = self.force(ret) if self.pc else ret
        self.outputs()
        return ret

    def outputs(self):
        """What was printed to each text output the function was given."""
        for (cell, path), v0 in self.outs.items():
            if cell[0] not in ("p", "o") or v0 is None or self.pc == 0 or cell not in self.st:
                continue
            v = self.get_path(self.st[cell], path)
            self.emit("out", "prints", [self.mk("loc", cell, path), self.norm_text(self.strip_base(v, v0))])

    def strip_base(self, v, v0):
        out = []
        for c, l in self.leaves(v):
            if l is v0:
                l = self.const("")
            elif l.op == "fmt" and l.a[0] and l.a[0][0] is v0:
                l = self.fmt(l.a[0][1:])
            out.append((c, l))
        return self.cases(out) if len(out) > 1 else out[0][1]

    def lone(self, t):
        return t.a[0][0] if t.op == "fmt" and len(t.a[0]) == 1 and isinstance(t.a[0][0], T) else t

    def norm_text(self, t, limit=64):
        """The text with its alternatives in one form, however the branches that print it are nested."""
        if t.op == "fmt":
            return self.fmt([self.norm_text(p) if isinstance(p, T) else p for p in t.a[0]])
        if t.op == "call" and t.a[0] == "concat" and t.a[1].op == "seq":
            E0 = self.const("")
            some, apart = 0, True
            for c, _ in t.a[1].a:
                apart = apart and self.bdd.and_(some, c) == 0
                some = self.bdd.or_(some, c)
            if apart:
                # at most one of them at a time
                x = self.cases([*t.a[1].a, *([(self.bdd.not_(some), E0)] if some != 1 else [])])
            else:
                x = self.fmt([e if c == 1 else self.cases([(c, e), (self.bdd.not_(c), E0)]) for c, e in t.a[1].a])
            n = self.norm_text(x)
            n = self.lone(n)
            if n.op == "cs":
                e = self.bdd.any([c for c, l in n.a if l is E0])
                c = self.bdd.not_(e)
                if e and c:
                    return self.call("concat", self.mk("seq", (c, self.lone(self.norm_text(self.cases([(self.bdd.constrain(k, c), l) for k, l in n.a if l is not E0]))))))
            return self.call("concat", self.mk("seq", (1, n))) if n is not E0 else E0
        if t.op != "cs":
            return t
        alts = []
        for c, l in t.a:
            l = self.norm_text(l)
            part = [(c, [])]
            for p in l.a[0] if l.op == "fmt" else [l]:
                if isinstance(p, T) and p.op == "cs" and len(part) * len(p.a) <= limit:
                    part = [(self.bdd.and_(c1, c2), q + [x]) for c1, q in part for c2, x in p.a]
                    part = [x for x in part if x[0]]
                else:
                    part = [(c1, q + [p]) for c1, q in part]
            alts += part
        if len(alts) > limit:
            return self.cases([(c, self.norm_text(l)) for c, l in t.a])
        acc = {}
        for c, ps in alts:
            l = self.fmt(ps)
            acc[l] = self.bdd.or_(acc.get(l, 0), c)
        if len(acc) == 1:
            return next(iter(acc))
        parts = [(c, l) for l, c in acc.items()]
        r = self.factor(parts, True)
        return r if r is not None else self.mk_cases(parts)

    def mk_cases(self, parts):
        return self.mk("cs", *sorted(parts, key=lambda x: x[1].id))

    def await_(self, x, wrap=False):
        """The output of a future: the body of a local async block, otherwise an opaque result."""
        x = self.val(x)
        if x.op == "cs":
            def go(parts):
                if len(parts) == 1:
                    return self.await_(parts[0][1], wrap)
                return self.split(parts[0][0], lambda: self.await_(parts[0][1], wrap), lambda: go(parts[1:]))
            return go(list(x.a))
        if x.op == "clo":
            b = self.p.bodies.get(x.a[0])
            if b is not None and b.get("coroutine"):
                return self.call_value(x, [])
        return self.call("await", x) if wrap else x

    # ---------------------------------------------------------------- canonical text
    def text(self, t, care=1):
        if isinstance(t, str):
            return t
        if t._txt is None:
            r = self._text(t, 1)
            n = self.aliases.get(r)
            if n is not None:
                self.alias_used.add(n)
                t._txt = (True, n)
            else:
                t._txt = (t.op in ("seq", "it"), self.abbr(r))
        if t._txt[0] or not t.gated or care == 1:
            return t._txt[1]
        return self.abbr(self._text(t, care))

    def abbr(self, s, limit=240):
        """Long sub-expressions get a name derived from their canonical text."""
        if len(s) <= limit:
            return s
        n = "@" + hashlib.sha1(s.encode()).hexdigest()[:8]
        self.lets[n] = s
        return n

    def _text(self, t, care):
        op, a = t.op, t.a
        X = lambda x: self.text(x, care)
        if op == "p":
            return "$" + a[0]
        if op == "c":
            v = a[1]
            if a[0] == "str":
                return repr(v)
            if a[0] == "bytes":
                return repr(v)
            return str(v)
        if op == "b":
            c = self.condtext(a[0], care)
            return c if a[0] < 2 else "[" + c + "]"
        if op == "f":
            base = X(a[0])
            if a[1] is None:
                return f"{base}.{a[2]}"
            if a[1] == "Some":
                return base + "?"
            return f"{base}@{a[1]}.{a[2]}"
        if op == "elem":
            return X(a[0]) + ("[*]" if a[1] == 0 else f"[*{a[1] + 1}]" if a[1] > 0 else "[<*]" if a[1] == -1 else f"[<*{-a[1]}]")
        if op == "pos":
            return "#" + X(a[0])
        if op == "ix":
            return f"{X(a[0])}[{X(a[1])}]"
        if op == "call":
            return f"{a[0]}({', '.join(X(x) for x in a[1:])})"
        if op == "op":
            return f"({X(a[1])} {a[0]} {X(a[2])})"
        if op == "tup":
            return "(" + ", ".join(X(x) for x in a) + ")"
        if op == "arr":
            return "[" + ", ".join(X(x) for x in a) + "]"
        if op == "adt":
            n = (a[1] or a[0].split("::")[-1])
            if len(a) == 3:
                return n if a[1] is None else f"{a[0].split('::')[-1]}::{n}" if a[0] not in (OPTION, RESULT) else n
            body = ", ".join((X(x) if f.isdigit() else f"{f}: {X(x)}") for f, x in zip(a[2], a[3:]))
            return f"{n}({body})" if a[2][0].isdigit() else f"{n}{{{body}}}"
        if op == "fmt":
            sk = "".join(p.replace("\n", "\\n") if isinstance(p, str) else "{}" for p in a[0])
            full = "f\"" + "".join(p.replace("\n", "\\n") if isinstance(p, str) else "{" + X(p) + "}" for p in a[0]) + "\""
            if len(full) > 240 and len(sk) < 160:
                return f"f\"{sk}\"" + self.abbr(full)
            return full
        if op == "fmt-":
            return "f\"" + "".join(p.replace("\n", "\\n") if isinstance(p, str) else "{" + X(p) + "}" for p in a[0]) + "\""
        if op == "k":
            return strip_generics(a[0]).split("::")[-1] if "::" in a[0] else a[0]
        if op == "cs":
            parts = []
            # where no alternative applies, the value does not exist
            care = self.bdd.and_(care, self.bdd.any([c for c, _ in a])) or care
            for c, l in a:
                ct = self.condtext(c, care)
                if ct != "false":
                    parts.append((X(l), ct))
            if len(parts) == 1:
                return parts[0][0]
            return "{" + "; ".join(f"{l} if {c}" for l, c in sorted(parts)) + "}"
        if op == "seq":
            parts = []
            for c, l in a:
                ct = self.condtext(c)
                X = self.text
                if ct == "true":
                    parts.append(X(l))
                elif ct != "false":
                    parts.append(f"{X(l)} if {ct}")
            return "<" + "; ".join(parts) + ">"
        if op == "clo":
            return "|clo|"
        if op == "lam":
            return f"|{X(a[0])}|"
        if op == "fn":
            return short(a[1])
        if op == "with":
            return f"{X(a[0])}{{{a[1][1]}:={X(a[2])}}}"
        if op == "ixset":
            return f"{X(a[0])}{{[{X(a[1])}]:={X(a[2])}}}"
        if op == "refm":
            return "&mut " + self.loctext(a[0], a[1], care)
        if op == "loc":
            return self.loctext(a[0], a[1], care)
        if op == "disc":
            return f"disc({X(a[0])})"
        if op == "it":
            return "iter(" + ", ".join(self.lanetext(l, care) for l in a) + ")"
        if op == "ind":
            return f"#i{a[0]}"
        if op == "lv":
            return f"lv({X(a[0])} -> {X(a[1])})"
        if op == "entry":
            return f"entry({X(a[0])}, {X(a[1])})"
        if op == "cloarg":
            return f"|{a[1]}|"
        if op == "dbg":
            return X(a[0]) + ":?"
        return op + "(" + ", ".join(X(x) if isinstance(x, T) else str(x) for x in a) + ")"

    def lanetext(self, l, care):
        if l[0] == "src":
            return self.text(l[1], care)
        if l[0] == "one":
            return self.text(l[2], care)
        return f"{l[2]}({self.lanetext(l[1], care)})"

    def placetext(self, t, care):
        """A value that is a part of something, written as the place it is."""
        if t.op == "f":
            return f"{self.placetext(t.a[0], care)}.{t.a[2]}"
        if t.op == "refm":
            return self.loctext(*t.a, care)
        return self.text(t, care)

    def loctext(self, cell, path, care):
        if cell[0] == "p":
            s = "$" + cell[1]
        elif cell[0] == "o":
            s = self.placetext(cell[1], care)
        else:
            s = "local"
        for k in path:
            s += f".{k[2]}" if k[0] == "f" else f"[{self.text(k[1], care)}]"
        return s

    def atomtext(self, k):
        if k[0] == "val":
            v = k[3]
            if k[2] is None:
                return f"{self.text(k[1])} == {v[1]!r}"
            return f"{self.text(k[1])} is {v}"
        if k[0] == "has":
            return f"nonempty({self.text(k[1])})"
        if k[0] == "contains":
            return f"contains({self.text(k[1])}, {self.text(k[2])})"
        if k[0] == "eq":
            x, y = sorted((self.text(k[1]), self.text(k[2])))
            return f"{x} == {y}"
        if k[0] == "lt":
            return f"{self.text(k[1])} < {self.text(k[2])}"
        if k[0] == "t":
            return self.text(k[1])
        return str(k)

    def weight(self, x):
        """Size of a term written out, without looking into its gates."""
        if not isinstance(x, T):
            return sum(self.weight(y) for y in x) if type(x) is tuple else 0
        r = self._wt.get(x)
        if r is None:
            r = self._wt[x] = 1 if x.op in ("cs", "seq", "it", "clo", "b") else 1 + sum(self.weight(y) for y in x.a)
        return r

    def canon(self, fs):
        """Re-express predicates over atoms in an order that depends on the atoms only: by their text, or by their
        size (a test of a part of x comes after the tests of x), whichever takes fewer nodes."""
        best = None
        for key in (lambda t, w: (t,), lambda t, w: (w, t)):
            try:
                N, gs = self.canon_in(fs, key)
            except Blowup:
                continue
            if len(gs) == 1 and len(N.support(gs[0])) < 12:
                return N, gs
            sz = N.size(gs)
            if best is None or sz < best[0]:
                best = sz, N, gs
        if best is None:
            return self.canon_in(fs, None)
        return best[1:]

    def canon_in(self, fs, key):
        """The predicates with exclusive values encoded alike whatever their discovery order."""
        B = self.bdd
        sup = set()
        for f in fs:
            sup.update(B.support(f))
        groups, items = {}, []
        for v in sorted(sup):
            k = B.names[v]
            if k[0] == "val":
                if (k[1], k[2]) not in groups:
                    items.append((v, k[1], k[2]))
                groups.setdefault((k[1], k[2]), []).append(v)
            else:
                items.append((v, None, None))
        N = Bdd(150000 if key else None)
        sub = {}
        if key:
            items.sort(key=lambda i: key(self.text(i[1]), self.weight(i[1])) if i[1] is not None else key(self.atomtext(B.names[i[0]]), self.weight(B.names[i[0]])))
        for v0, x, adt in items:
            if x is None:
                sub[v0] = N.atom(("s", self.atomtext(B.names[v0])))
                continue
            xt = self.text(x)
            order = self.p.variants(adt) if adt else None
            have = {B.names[v][3]: v for v in groups[(x, adt)]}
            rest = 1
            for val in ([o for o in order if o in have] if order else sorted(have, key=repr)):
                n = N.atom(("v", xt, val if adt else val[1], adt))
                sub[have[val]] = N.and_(rest, n)
                rest = N.and_(rest, N.not_(n))
        memo = {}

        def go(n):
            if n < 2:
                return n
            r = memo.get(n)
            if r is None:
                r = N.ite(sub[B.var[n]], go(B.hi[n]), go(B.lo[n]))
                memo[n] = r
            return r

        return N, [go(f) for f in fs]

    def condtext(self, f, care=1):
        if f == 0:
            return "false"
        if f == 1:
            return "true"
        ck = (f, care)
        cache = self.__dict__.setdefault("_ct", {})
        r = cache.get(ck)
        if r is not None:
            return r
        N, (g, c) = self.canon([f, care])
        if c == 0:
            return "false"
        if c != 1:
            g = self.simplify(N, g, c)
        r = self.cover(N, g)
        cache[ck] = r
        return r

    @staticmethod
    def simplify(N, g, c):
        """A predicate that agrees with g wherever c holds, chosen independently of the order of the atoms."""
        on, off = N.and_(g, c), N.and_(N.not_(g), c)
        if on == 0:
            return 0
        if off == 0:
            return 1
        names = sorted(set(N.support(on)) | set(N.support(off)), key=lambda v: tuple(map(str, N.names[v])))
        for v in names:
            o1 = N.or_(N.restrict(on, v, True), N.restrict(on, v, False))
            f1 = N.or_(N.restrict(off, v, True), N.restrict(off, v, False))
            if N.and_(o1, f1) == 0:
                on, off = o1, f1
        care = N.or_(on, off)
        if care == 1:
            return on
        # what is left unspecified is decided atom by atom in the order of their texts
        for v in [v for v in names if v in set(N.support(on)) | set(N.support(off))]:
            x = N.mk(v, 0, 1)
            for lit in (x, N.not_(x)):
                gap = N.and_(N.not_(N.or_(on, off)), lit)
                if gap == 0:
                    continue
                half_on = N.restrict(on, v, lit != x)
                add = N.and_(gap, half_on)
                on = N.or_(on, add)
                half_off = N.restrict(off, v, lit != x)
                off = N.or_(off, N.and_(N.and_(N.not_(N.or_(on, off)), lit), half_off))
        return on

    def cover(self, N, g):
        """Canonical text of a predicate.  Which atom comes first is decided by what the predicate becomes
        under each of its values, or by the order of the atoms where that would take too many cases."""
        N.limit = None
        try:
            return self.cover_in(N, g, 1500)
        except Blowup:
            return self.cover_in(N, g, None)

    def cover_in(self, N, g, budget):
        memo = {}
        gvals = {}
        for i, k in enumerate(N.names):
            if k[0] == "v":
                gvals.setdefault((k[1], k[3]), []).append((k[2], i))
        supp = {0: 0, 1: 0}

        def support(n):
            r = supp.get(n)
            if r is None:
                st = [n]
                while st:
                    m = st[-1]
                    if m in supp:
                        st.pop()
                        continue
                    lo, hi = N.lo[m], N.hi[m]
                    if lo in supp and hi in supp:
                        supp[m] = supp[lo] | supp[hi] | 1 << N.var[m]
                        st.pop()
                    else:
                        st += [x for x in (lo, hi) if x not in supp]
                r = supp[n]
            return r

        def bits(m):
            while m:
                b = m & -m
                yield b.bit_length() - 1
                m ^= b

        def lit(k, vs):
            x, adt = k
            allv = self.p.variants(adt) if adt else None
            if allv:
                ins = [o for o in allv if o in vs or (None in vs and o not in dict(gvals[k]))]
                outs = [o for o in allv if o not in ins]
                if len(outs) < len(ins) and len(outs) <= 3:
                    return f"{x} is not " + "/".join(outs)
                return f"{x} is " + "/".join(ins)
            if None in vs:
                outs = [v for v, _ in gvals[k] if v not in vs]
                return (f"{x} is not " + "/".join(outs)) if adt else f"{x} != " + "/".join(repr(o) for o in outs)
            return (f"{x} is " + "/".join(vs)) if adt else f"{x} == " + "/".join(repr(o) for o in vs)

        cofs = {}

        def cof(n, v, val):
            if n < 2 or N.var[n] > v:
                return n
            if N.var[n] == v:
                return N.hi[n] if val else N.lo[n]
            if not support(n) >> v & 1:
                return n
            k = (n, v, val)
            r = cofs.get(k)
            if r is None:
                r = cofs[k] = N.mk(N.var[n], cof(N.lo[n], v, val), cof(N.hi[n], v, val))
            return r

        def units(n):
            """The atoms and exclusive groups n depends on, with the cofactors of each of their values."""
            done = set()
            for v in bits(support(n)):
                k = N.names[v]
                if k[0] == "s":
                    yield k[1], [(k[1], cof(n, v, True)), ("!" + self.paren(k[1]), cof(n, v, False))], None
                    continue
                gk = (k[1], k[3])
                if gk in done:
                    continue
                done.add(gk)
                vals = gvals[gk]
                res = {}
                for val, vi in vals:
                    c = n
                    for val2, vj in vals:
                        c = cof(c, vj, val2 == val)
                    res[val] = c
                allv = self.p.variants(gk[1]) if gk[1] else None
                if not allv or len(vals) < len(allv):
                    c = n
                    for _, vj in vals:
                        c = cof(c, vj, False)
                    res[None] = c
                acc = {}
                for val, c in res.items():
                    acc.setdefault(c, []).append(val)
                yield gk[0], [(vs, c) for c, vs in acc.items()], gk

        def implied(n):
            """Literals that n implies, and the rest."""
            lits = []
            todo = True
            while todo:
                todo = False
                for _, bs, gk in units(n):
                    good = [(l, c) for l, c in bs if c != 0]
                    if len(good) == len(bs):
                        continue
                    if gk is None:
                        lits.append(good[0][0])
                        n = good[0][1]
                        todo = n > 1
                        break
                    vs = [v for l, _ in good for v in l]
                    if len(good) == 1:
                        lits.append(lit(gk, vs))
                        n = good[0][1]
                        todo = n > 1
                        break
                    # the group stays: some of its values are excluded, the others differ
                if n < 2:
                    break
            return lits, n

        def go(n):
            if n == 1:
                return "true", 2
            if n == 0:
                return "false", 2
            if n in memo:
                return memo[n]
            if budget and len(memo) > budget:
                raise Blowup()
            lits, rest = implied(n)
            if rest == 1:
                r = " & ".join(sorted(lits)), (1 if len(lits) > 1 else 2)
            else:
                best = None
                for name, bs, gk in units(rest):
                    # constants first (they end a branch), then the smallest remainder
                    key = (sum(support(c).bit_count() for _, c in bs), name)
                    if best is None or key < best[0]:
                        best = key, bs, gk
                    if not budget:
                        break
                _, bs, gk = best
                if gk is not None:
                    bs = [(lit(gk, vs), c) for vs, c in bs]
                ones = [l for l, c in bs if c == 1]
                zeros = [l for l, c in bs if c == 0]
                others = [(l, c) for l, c in bs if c > 1]
                if ones and len(others) == 1 and not zeros:
                    parts = ones + [go(others[0][1])[0]]
                else:
                    parts = list(ones)
                    for l, c in others:
                        t, p = go(c)
                        parts.append(f"{l} & " + (t if p >= 1 else f"({t})"))
                body = " | ".join(sorted(parts))
                if lits:
                    body = " & ".join(sorted(lits)) + " & " + (f"({body})" if len(parts) > 1 else body)
                    r = body, 1
                else:
                    r = body, (0 if len(parts) > 1 else 1)
            if len(r[0]) > 700:
                r = self.abbr(r[0], 700), 2
            memo[n] = r
            return r

        return go(g)[0]

    @staticmethod
    def paren(s):
        return f"({s})" if " " in s else s

    # ---------------------------------------------------------------- reports
    def find_cs(self, t, memo):
        if not t.gated:
            return None
        r = memo.get(t)
        if r is not None or t in memo:
            return r
        memo[t] = None
        if t.op == "cs":
            memo[t] = t
            return t
        if t.op in ("seq", "it", "clo"):
            return None
        if t.op == "fmt" and sum(1 for x in t.a[0] if isinstance(x, T) and x.op == "cs") > 4:
            return None
        for x in t.a:
            if isinstance(x, T):
                r = self.find_cs(x, memo)
            elif type(x) is tuple:
                r = self.find_cs_in(x, memo)
            else:
                continue
            if r:
                memo[t] = r
                return r
        return None

    def find_cs_in(self, x, memo):
        for y in x:
            r = self.find_cs(y, memo) if isinstance(y, T) else self.find_cs_in(y, memo) if type(y) is tuple else None
            if r:
                return r
        return None

    def subst(self, t, old, new, memo):
        if t is old:
            return new
        if not t.gated:
            return t
        r = memo.get(t)
        if r is None:
            if t.op in ("seq", "it", "cs", "clo"):
                r = t
            elif t.op == "fmt":
                r = self.fmt([self.subst(x, old, new, memo) if isinstance(x, T) else x for x in t.a[0]])
            else:
                r = self.mk(t.op, *[self.subst_in(x, old, new, memo) for x in t.a])
            memo[t] = r
        return r

    def subst_in(self, x, old, new, memo):
        if isinstance(x, T):
            return self.subst(x, old, new, memo)
        if type(x) is tuple:
            return tuple(self.subst_in(y, old, new, memo) for y in x)
        return x

    def expand(self, args, pc, limit=256):
        """Split a gated effect into its cases: [(args, predicate)]."""
        out, work = [], [(tuple(args), pc)]
        while work:
            xs, c = work.pop()
            cs = None
            for x in xs:
                cs = self.find_cs(x, {})
                if cs:
                    break
            if cs is None or len(out) + len(work) > limit:
                out.append((xs, c))
                continue
            for cc, leaf in cs.a:
                n = self.bdd.and_(c, cc)
                if n:
                    memo = {}
                    work.append((tuple(self.subst(x, cs, leaf, memo) for x in xs), n))
        return out

    def fieldless(self, x):
        """Predicates that fix the value of a term: [(predicate, constant)]."""
        out = []
        if self.bdd.index.get(("t", x)) is not None:
            t = self.truth(x)
            out += [(t, self.const(True)), (self.bdd.not_(t), self.const(False))]
        adts = [OPTION] if x.op == "call" and x.a[0] in ("get", "get_mut", "get_key_value", "first", "last", "pop") else []
        n = len(self.groups)
        if self._group_ix is None or self._group_ix[0] != n:
            ix = {}
            for t, adt in self.groups:
                ix.setdefault(t, []).append(adt)
            self._group_ix = n, ix
        for adt in self._group_ix[1].get(x, []) + adts:
            if adt in BUILTIN_ADTS:
                vs = ["None"] if adt == OPTION else []
            else:
                a = self.p.adts.get(adt)
                vs = [v["name"] for v in a["variants"] if not v["fields"]] if a and a["kind"] == "enum" else []
            out += [(self.is_(x, adt, v), self.ctor(adt, v, [])) for v in vs]
        return out

    def settle(self, xs, c, limit=12):
        """Values that the predicate of an effect fixes are written as the constants they are there."""
        done, work = [], [(xs, c, ())]
        while work:
            xs, c, seen = work.pop()
            sup = set(self.bdd.support(c))

            def find(t):
                if t.op in ("tup", "adt", "arr"):
                    for y in t.a:
                        r = find(y) if isinstance(y, T) else None
                        if r:
                            return r
                elif t.op in ("p", "f", "elem", "call", "ix") and t not in seen:
                    opts = [(q, k) for q, k in self.fieldless(t) if q > 1 and sup & set(self.bdd.support(q)) and self.bdd.and_(c, q)]
                    if opts:
                        return t, opts
                return None
            hit = None
            for x in xs:
                hit = find(x) if isinstance(x, T) else None
                if hit:
                    break
            if hit is None or len(done) + len(work) > limit:
                done.append((xs, c))
                continue
            t, opts = hit

            def put(y, k):
                if y is t:
                    return k
                if isinstance(y, T) and y.op in ("tup", "adt", "arr"):
                    return self.mk(y.op, *[put(z, k) if isinstance(z, T) else z for z in y.a])
                return y
            rest = c
            for q, k in opts:
                n = self.bdd.and_(rest, q)
                if n:
                    work.append((tuple(put(x, k) for x in xs), n, seen))
                    rest = self.bdd.and_(rest, self.bdd.not_(q))
            if rest:
                work.append((xs, rest, seen + (t,)))
        return done

    def cases_of(self, x, c):
        """The values a term has when c holds: [(value, predicate)]."""
        acc = {}
        for xs, c2 in self.expand([x], c):
            acc[xs] = self.bdd.or_(acc.get(xs, 0), c2)
        return [y for xs, c2 in acc.items() for y in self.settle(xs, c2)]

    def table_of(self, select=None, keep=None):
        """{effect text: predicate} of the recorded events, gated arguments split into cases."""
        acc = {}
        where = {}
        evs = []
        for e in self.events:
            if select and not select(e):
                continue
            if e.kind == "write" and evs and evs[-1].kind == "write" and evs[-1].pc == e.pc and evs[-1].args[0] is e.args[0]:
                o, n = evs[-1], Event()
                n.kind, n.name, n.pc, n.where, n.line = "write", o.name, o.pc, o.where, o.line
                n.args = (o.args[0], self.fmt([o.args[1], e.args[1]]))
                evs[-1] = n
                continue
            evs.append(e)
        for e in evs:
            args = e.args
            nm = e.name
            if isinstance(nm, T):
                args = (nm,) + args
                nm = "store"
            for xs, c in self.expand(args, e.pc) if e.kind != "out" else [(args, e.pc)]:
                k = (e.kind, nm, xs)
                acc.setdefault(k, []).append(c)
                where.setdefault(k, []).append((e.where, e.line))
        out = {}
        flat = []
        for k, cs in acc.items():
            c = self.bdd.any(cs)
            kind, nm, xs = k
            if keep and nm in keep:
                xs = [xs[i] for i in keep[nm] if i < len(xs)]
            if kind in ("out", "write"):
                flat.append((k, xs, c))
            else:
                flat += [(k, ys, c2) for ys, c2 in self.settle(tuple(xs), c)]
        for k, xs, c in flat:
            kind, nm, _ = k
            txt = f"{nm}(" + ", ".join(self.text(x, c) for x in xs) + ")"
            if kind != "sink":
                txt = kind + " " + txt
            if txt in out:
                out[txt] = (self.bdd.or_(out[txt][0], c), out[txt][1] + where[k])
            else:
                out[txt] = (c, where[k])
        return out
