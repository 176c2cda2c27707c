"""Decides one property: recomputes its value-flow summaries from /repo's current source and judges them.

usage: check.py ID [--bless] [--print]
"""
import json, os, re, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import facts
from gvf import Engine, GvfError, Program, short
from props import PROPS

SPECS = os.path.join(VERIF, "specs")
EVID = os.path.join(VERIF, "evidence")


class Gone(Exception):
    """A root that is a function of its own crate only is no longer there: its callers were changed with it and are analysed in their own views."""


class Missing(Exception):
    pass


def find_root(P, name, gone=False):
    bs = P.by_name.get(name)
    if not bs:
        bs = [b for b in P.bodies.values() if b["key"] == name]
    if not bs and name.startswith("re:"):
        r = re.compile(name[3:])
        bs = [b for b in P.bodies.values() if r.search(b["key"])]
    if not bs and "::" in name and not name.startswith(("re:", "<")):
        # the same item in another module of its crate
        crate, *mid = name.split("::")
        tail = "::".join(mid[-2:]) if len(mid) > 1 and mid[-2][:1].isupper() else mid[-1]
        bs = [b for n, l in P.by_name.items() if n.startswith(crate + "::") and n.endswith("::" + tail) for b in l]
    if not bs and gone:
        raise Gone(name)
    if not bs:
        raise Missing(f"no function {name} in the analysed crates")
    if len(bs) > 1:
        raise Missing(f"{name} is ambiguous: {sorted(b['key'] for b in bs)[:6]}")
    return bs[0]


class Run:
    """One root analysed once; several views may select from it."""

    def __init__(self, P, v, may_go=False):
        self.b = find_root(P, v["root"], may_go)
        E = self.E = Engine(P, stop=v.get("stop", ()), sinks=v.get("sinks", ()), opaque=v.get("opaque", ()), smooth=v.get("smooth", ()), steps=v.get("steps", ()))
        for n, t in v.get("alias", {}).items():
            E.aliases[t] = n
        t = time.time()
        self.ret = E.run_root(self.b)
        self.pc = E.pc
        self.secs = time.time() - t


def key_of(v):
    return json.dumps([sorted(v["crates"]), v["root"], v.get("stop"), v.get("sinks"), v.get("opaque"), v.get("smooth"), v.get("alias"), v.get("steps")])


def pick_lets(lets, texts):
    out, work = {}, list(texts)
    while work:
        for n in re.findall(r"@[0-9a-f]{8}\b", work.pop()):
            if n in lets and n not in out:
                out[n] = lets[n]
                work.append(lets[n])
    return out


def used_lets(E, texts):
    return pick_lets(E.lets, texts)


def short_root(r):
    return re.sub(r"\b[a-z_0-9]+::(?=[A-Z<a-z])", "", re.sub(r"^re:", "", r))


def leaves(E, x, c, yes_no=False):
    """The cases of a value; one that is a condition comes apart into when it is true and when it is false."""
    out = {}
    for xs, c1 in E.cases_of(x, c):
        l = xs[0]
        if l.op == "b" and l.a[0] > 1 or yes_no and l.op not in ("b", "undef"):
            t = E.truth(l)
            parts = [(E.TRUE, E.bdd.and_(c1, t)), (E.FALSE, E.bdd.and_(c1, E.bdd.not_(t)))]
        else:
            parts = [(l, c1)]
        for l, c2 in parts:
            if c2:
                out[l] = E.bdd.or_(out.get(l, 0), c2)
    return list(out.items())


def summary(run, v):
    """{effect: [guard, where]} and {return: guard} of one view, in canonical text."""
    E = run.E
    kinds = v.get("kinds", ["sink"])
    tab = E.table_of(lambda e: e.kind in kinds, v.get("keep"))
    sel = re.compile(v["select"]) if v.get("select") else None
    drop = re.compile(v["drop"]) if v.get("drop") else None
    eff, where = {}, {}
    fg = re.compile(v["forget"]) if v.get("forget") else None
    for k, (c, w) in tab.items():
        body = k
        if sel and not (sel.search(body) or "@" in body and sel.search(expand_lets(E, body))):
            continue
        if drop and drop.search(body):
            continue
        if fg:
            # conditions the view is not about are taken to be as favourable as possible
            c = E.bdd.exists(c, [x for x in E.bdd.support(c) if fg.search(E.condtext(E.bdd.mk(x, 0, 1)))])
        eff[k] = E.condtext(c)
        where[k] = w
    if v.get("panics", True):
        ps = [e for e in E.events if e.kind == "panic"]
        c = E.bdd.any([e.pc for e in ps])
        if c:
            eff["panics"] = E.condtext(c)
            where["panics"] = sorted({(e.where, e.line) for e in ps}, key=str)
    if v.get("rows"):
        rows, skeleton = [], {}
        ret = run.ret
        if v["rows"] == "fields":
            ret = fieldwise(E, ret, run.pc, "", rows, 0)
        for xs, c in E.cases_of(ret, run.pc):
            sk = explode(E, xs[0], c, "", rows) if v["rows"] != "fields" else xs[0]
            k = "return " + E.text(sk, c)
            skeleton[k] = E.bdd.or_(c, skeleton.get(k, 0))
            eff[k] = E.condtext(skeleton[k])
            where[k] = [(run.b["key"], run.b["line"])]
        acc = {}
        for path, x, c in rows:
            for l, c2 in leaves(E, x, c):
                k = f"result{path} {'is' if v['rows'] == 'fields' else 'has'} {E.text(l, c2)}"
                acc[k] = E.bdd.or_(acc.get(k, 0), c2)
        for k, c in acc.items():
            if sel and not (sel.search(k) or "@" in k and sel.search(expand_lets(E, k))):
                continue
            if drop and drop.search(k):
                continue
            eff[k] = E.condtext(c)
            where[k] = [(run.b["key"], run.b["line"])]
    elif v.get("returns"):
        acc = {}
        for l, c in leaves(E, run.ret, run.pc, run.b["types"][run.b["locals"][0][0]] == "bool"):
            k = "return " + E.text(l, c)
            acc[k] = E.bdd.or_(acc.get(k, 0), c)
        for k, c in acc.items():
            eff[k] = E.condtext(c)
            where[k] = [(run.b["key"], run.b["line"])]
    pre = v.get("prefix")
    if pre:
        eff = {f"{pre}: {k}": g for k, g in eff.items()}
        where = {f"{pre}: {k}": w for k, w in where.items()}
    return eff, where


def fieldwise(E, x, c, path, rows, depth):
    """Each field of a returned struct on its own: a struct with independent fields is not the product of their cases."""
    if x.op == "cs":
        return E.cases([(c2, fieldwise(E, l, E.bdd.and_(c, c2), path, rows, depth)) for c2, l in x.a])
    if x.op == "adt" and x.a[2]:
        wrap = x.a[1] in ("Ok", "Err", "Some") and depth == 0
        if wrap or x.a[1] is None or len(E.p.variants(x.a[0]) or ()) < 2:
            return E.mk("adt", *x.a[:3], *[fieldwise(E, y, c, path + (f"@{x.a[1]}" if wrap else f".{n}"), rows, depth + (not wrap)) for n, y in zip(x.a[2], x.a[3:])])
    if depth == 0:
        return x
    rows.append((path, x, c))
    return E.mk("k", "..", "rows")


def explode(E, x, c, path, rows):
    """Take the elements of every sequence in a result out as rows; the order among them is not part of the summary."""
    if x.op == "seq":
        for c2, e in x.a:
            rows.append((path, e, E.bdd.and_(c, c2)))
        return E.mk("k", "<..>", "rows")
    if x.op == "adt" and len(path) < 60:
        return E.mk("adt", *x.a[:3], *[explode(E, y, c, f"{path}.{n}", rows) for n, y in zip(x.a[2], x.a[3:])])
    if x.op == "tup":
        return E.mk("tup", *[explode(E, y, c, f"{path}.{i}", rows) for i, y in enumerate(x.a)])
    if x.op == "cs":
        return E.cases([(c2, explode(E, y, E.bdd.and_(c, c2), path, rows)) for c2, y in x.a])
    return x


def expand_lets(E, s, n=3):
    for _ in range(n):
        t = re.sub(r"@[0-9a-f]{8}\b", lambda m: E.lets.get(m.group(0), m.group(0)), s)
        if t == s or len(t) > 20000:
            break
        s = t
    return s



def loc(P, w):
    """function (file:line) of an event."""
    out = []
    for key, line in w[:4]:
        b = P.bodies.get(key)
        out.append(f"{key} ({b['file'] if b else '?'}:{line})")
    return "; ".join(out)


def judge(P, v, eff, where, exp, alllets):
    """Differences between the summary of the source and the reviewed one: [(key, text)]."""
    want = exp["effects"]
    viol, unsure = [], []
    for k in sorted(set(want) | set(eff)):
        if k in want and k in eff and want[k] == eff[k]:
            continue
        lets = pick_lets(alllets, [k, eff.get(k, "")])
        if k not in eff:
            viol.append((f"{v['name']}: missing: {k}", f"effect never happens any more: {k}\n  it must happen when: {want[k]}"))
        elif k not in want:
            viol.append((f"{v['name']}: new: {k}", f"effect that must not happen: {k}\n  happens when: {eff[k]}\n  at: {loc(P, where[k])}" + letstext(lets)))
        else:
            viol.append((f"{v['name']}: guard: {k}", f"effect: {k}\n  must happen when: {want[k]}\n  happens when:      {eff[k]}\n  at: {loc(P, where[k])}" + letstext(lets)))
    return viol, unsure


def letstext(lets):
    if not lets:
        return ""
    return "\n  where " + "\n        ".join(f"{n} = {t[:600]}" for n, t in list(lets.items())[:12])


def load_known():
    try:
        with open(f"{VERIF}/known_findings.json") as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def main():
    pid = sys.argv[1]
    bless = "--bless" in sys.argv
    show = "--print" in sys.argv
    t0 = time.time()
    prop = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    crates = sorted({c for v in prop["views"] for c in v["crates"]})
    violations, notes, missing = [], [], []
    obligations = discharged = 0
    analysed, calls = set(), 0
    cover = []
    specpath = f"{SPECS}/{pid}.json"
    spec = json.load(open(specpath)) if os.path.exists(specpath) else {"views": {}}
    new = {"property": pid, "views": {}}
    try:
        d = facts.load(crates)
    except facts.ToolError as ex:
        # a tree that does not type-check has no program to decide anything about
        print(f"VIOLATION property={pid} replay={EVID}/{pid}.report.txt")
        os.makedirs(EVID, exist_ok=True)
        open(f"{EVID}/{pid}.report.txt", "w").write("the facts could not be produced:\n" + str(ex))
        return 1
    P = Program(d)
    runs = {}
    for v in prop["views"]:
        exp = spec["views"].get(v["name"])
        try:
            gone, local = [], []
            if v.get("rule"):
                eff, where, E = v["rule"](P, v)
                lets = used_lets(E, list(eff) + list(eff.values())) if E else {}
                if E:
                    analysed |= E.analysed
                    calls += E.calls_seen
            else:
                eff, where, lets = {}, {}, {}
                for root in v.get("roots") or [v["root"]]:
                    rv = dict(v, root=root)
                    if v.get("roots"):
                        rv["prefix"] = short_root(root)
                    k = key_of(rv)
                    if k not in runs:
                        try:
                            runs[k] = Run(P, rv, root in ((exp or {}).get("local") or ()))
                        except Gone:
                            gone.append(short_root(root) + ": ")
                            missing.append(f"{v['name']}: {root}")
                            continue
                        analysed |= runs[k].E.analysed
                        calls += runs[k].E.calls_seen
                    if not runs[k].b.get("pub", True) and not root.startswith("<"):
                        local.append(root)
                    E = runs[k].E
                    e1, w1 = summary(runs[k], rv)
                    if not e1:
                        raise Missing(f"{root} has no effects or results any more")
                    eff.update(e1)
                    where.update(w1)
                    lets.update(used_lets(E, list(e1) + list(e1.values())))
        except (Missing, GvfError) as ex:
            violations.append((f"{v['name']}: anchor", f"{v['name']}: {ex}"))
            if bless or show:
                print("ANCHOR", v["name"], ex)
            obligations += 1
            continue
        new["views"][v["name"]] = {"effects": eff, "lets": lets}
        if local:
            new["views"][v["name"]]["local"] = sorted(local)
        cover.append({"view": v["name"], "root": v.get("root") or v.get("roots", ""), "effects": len(eff), "rule": v.get("note", "")})
        if show:
            print(f"=== {v['name']}")
            for x in sorted(eff):
                print(x[:1000], "\n     WHEN", eff[x][:1500])
            for n, t in lets.items():
                print("   LET", n, "=", t[:1500])
        if bless:
            continue
        if exp is None:
            violations.append((f"{v['name']}: nospec", f"no reviewed table for {v['name']}"))
            obligations += 1
            continue
        if gone:
            exp = dict(exp, effects={k: g for k, g in exp["effects"].items() if not (k.startswith(tuple(gone)) if v.get("roots") else gone)})
        if len(eff) < (0 if gone else v.get("floor", 1)):
            violations.append((f"{v['name']}: floor", f"{v['name']}: only {len(eff)} instances, expected at least {v.get('floor', 1)}"))
        vs, us = judge(P, v, eff, where, exp, lets)
        n = len(set(exp["effects"]) | set(eff))
        obligations += n
        discharged += n - len(vs) - len(us)
        violations += vs
        notes += us
    if bless:
        os.makedirs(SPECS, exist_ok=True)
        with open(specpath, "w") as f:
            json.dump(new, f, indent=1, sort_keys=True)
            f.write("\n")
        print(f"blessed {pid}: {sum(len(x['effects']) for x in new['views'].values())} entries, {os.path.getsize(specpath)} bytes, {time.time()-t0:.1f}s")
        return 0
    if show:
        return 0
    known = load_known()
    ks = {(f["property"], f["key"]): f for f in known["findings"]}
    real = []
    for f in known["findings"]:
        if f["property"] == pid and f.get("always"):
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    for k, text in violations:
        f = ks.get((pid, k))
        if f:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
        else:
            real.append((k, text))
    os.makedirs(EVID, exist_ok=True)
    rep = f"{EVID}/{pid}.report.txt"
    if os.environ.get("GVF_DUMP"):
        open(os.environ["GVF_DUMP"], "a").write("\n".join(sorted(map(str, analysed))) + "\n")
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
        "coverage": {
            "explanation": prop.get("explanation", "Static gated value-flow analysis: every table entry (effect and its guard, or return value and its guard) recomputed from the type-checked source equals the reviewed one."),
            "functions_analysed": len(analysed), "call_sites": calls, "obligations": obligations, "discharged": discharged, "views": cover,
            "roots_not_there_any_more": missing,
            "crates": {c: len(d[c]["bodies"]) for c in crates},
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": [k for k, _ in real],
        "assumptions": prop.get("assumptions", ["the summaries of std combinators in lib/models.py describe what they do", "MIR facts emitted by the pinned nightly compiler are those of the code that runs"]),
    }
    with open(f"{EVID}/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if real:
        with open(rep, "w") as f:
            f.write(f"property {pid}: {prop.get('title', '')}\n\n")
            for k, text in real:
                f.write(text + "\n\n")
        for k, text in real[:12]:
            print(text[:1500])
            print()
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    print(f"{pid}: held; {discharged}/{obligations} table entries, {len(analysed)} functions, {calls} call sites, {time.time()-t0:.1f}s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 1
        pid = sys.argv[1]
        os.makedirs(EVID, exist_ok=True)
        with open(f"{EVID}/{pid}.report.txt", "w") as f:
            f.write("the analysis could not decide the current tree:\n" + traceback.format_exc())
        print(f"VIOLATION property={pid} replay={EVID}/{pid}.report.txt")
    sys.exit(rc)
