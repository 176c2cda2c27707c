"""What a derived Deserialize accepts: for every struct the key, the type and the default of each field; for every enum
the spelling and the content of each variant; and what happens to keys that are not known."""
import re
from gvf import RESULT, Engine

WITH = "__DeserializeWith"


def expand_lets(E, s):
    for _ in range(4):
        t = re.sub(r"@[0-9a-f]{8}\b", lambda m: E.lets.get(m.group(0), m.group(0)), s)
        if t == s or len(t) > 20000:
            break
        s = t
    return s


def type_of(name):
    m = re.search(r"impl (?:\w+::)*Deserialize<'de> for (.+?)>::deserialize", name)
    return m.group(1) if m else None


def with_functions(P, key):
    """The functions behind #[serde(deserialize_with)] of one visitor method, in the order of its fields."""
    out = []
    for k, b in P.bodies.items():
        m = re.fullmatch(re.escape(key) + r"::\{impl#(\d+)\}::deserialize", k)
        if m:
            f = [t[1] for t in (bl["t"] for bl in b["blocks"] if bl) if t and t[0] == "call" and isinstance(t[1], dict) and "fn" in t[1]]
            f = [x["fn"] for x in f if not re.match(r"(std|core)::", x["fn"])]
            out.append((int(m.group(1)), re.sub(r"^.*::(?=\w+$)", "", f[0]) if f else "?"))
    return [f for _, f in sorted(out)]


def labels(P, b):
    """Type, or deserializing function, of every value a visitor method asks for."""
    ws, out, n = with_functions(P, b["key"]), {}, 0
    for bl in b["blocks"]:
        t = bl and bl["t"]
        if not t or t[0] != "call" or not isinstance(t[1], dict) or not re.search(r"(MapAccess::next_value|SeqAccess::next_element|VariantAccess::newtype_variant|Deserialize::deserialize)$", t[1].get("fn", "")):
            continue
        ga = [b["types"][x] for x in t[1].get("ga", ())]
        ty = ga[1] if len(ga) > 1 else ga[0]
        if t[1]["fn"].endswith("Deserialize::deserialize"):
            ty = ga[0]
        if WITH in ty:
            ty = "with " + (ws[n] if n < len(ws) else "?")
            n += 1
        out[id(t)] = re.sub(r"\b(\w+::)+(?=\w)", "", ty)
    return out


def run(P, b):
    E = Engine(P)
    E.labels = labels(P, b)
    E.ret = E.run_root(b)
    return E, [(E.text(xs[0], c), c) for xs, c in E.expand([E.ret], E.pc)]


def struct_rows(E, ty, keys, put):
    """key -> field, type and default, out of the value the visitor returns: one representative pair and no pair."""
    oks, req = [], []
    for xs, c in E.expand([E.ret], E.pc):
        x = xs[0]
        if x.op != "adt" or x.a[0] != RESULT:
            return False
        if x.a[1] == "Ok":
            y = x.a[3]
            if y.op != "adt" or not y.a[2] or P_is_enum(E, y):
                return False
            oks.append((y, c, E.condtext(c)))
        else:
            m = re.fullmatch(r"Err\(de::missing_field\('(.*)'\)@Err\.0\)", E.text(x, c))
            if m:
                req.append(m.group(1))
    base = [o for o in oks if "!later(0)" in o[2] or "later(0)" not in o[2]]
    if len(base) != 1:
        return False
    y, c, _ = base[0]
    dflt = {}
    for f, v in zip(y.a[2], y.a[3:]):
        dflt[f] = re.sub(r"^de::missing_field\('.*'\)@Ok\.0$", "required", E.text(v, c))
        put(f"{ty}.{f} without its key is {dflt[f]}", "always")
    for k in sorted(set(req)):
        put(f"{ty} without the key {k} is an error", "always")
    for y, c, g in oks:
        ks = re.findall(r" is (__field\d+)\b", g)
        if len(ks) != 1:
            continue
        for f, v in zip(y.a[2], y.a[3:]):
            t = re.sub(r"^de::missing_field\('.*'\)@Ok\.0$", "required", E.text(v, c))
            if t != dflt[f]:
                put(f"{ty}.{f} is {t}", "the key is " + " or ".join(keys.get(ks[0], ks)))
    return True


def P_is_enum(E, y):
    return bool(E.p.variants(y.a[0]))


def schema(P, v):
    crate = v["crates"][0]
    only = re.compile(v["only"]) if v.get("only") else None
    eff, where, analysed = {}, {}, None
    total = None
    fam = {}
    for n, l in P.by_name.items():
        ty = type_of(n)
        if not ty or "closure" in n or only and not only.search(ty):
            continue
        m = re.search(r"::(__FieldVisitor|__Visitor)\b.*::(visit_str|visit_map|visit_enum|visit_newtype_struct|visit_some)$", n)
        if m:
            fam.setdefault(ty, {})[m.group(1) + "." + m.group(2)] = l[0]
        elif n.endswith("::deserialize") and "__" not in n.split("for ", 1)[-1]:
            fam.setdefault(ty, {})["deserialize"] = l[0]
    for ty, d in sorted(fam.items()):
        short_ty = re.sub(r"\b(\w+::)+(?=\w)", "", ty)
        keys = {}

        def put(k, g, b=None):
            if total and "@" in k + g:
                k, g = expand_lets(total, k), expand_lets(total, g)
            k = re.sub(r"MapAccess::next_value<(.*)>\(\$__A\)@Ok\.0(\.value)?", r"read as \1", k)
            eff[k] = g if k not in eff or eff[k] == g else eff[k] + " | " + g
            where[k] = [((b or d.get("__Visitor.visit_map") or next(iter(d.values())))["key"], (b or next(iter(d.values())))["line"])]
        fv = d.get("__FieldVisitor.visit_str")
        if fv:
            E, rows = run(P, fv)
            total = E
            for txt, c in rows:
                g = E.condtext(c)
                m = re.fullmatch(r"Ok\((?:__Field::)?(__\w+)(.*)\)", txt)
                names = re.findall(r"(?<![!\w])\$\w+ == '([^']*)'", re.sub(r"!\S+ == '[^']*'", "", g))
                if m and names:
                    keys[m.group(1)] = sorted(names)
                else:
                    put(f"{short_ty} with another key gives {txt}", "always", fv)
        if not (set(d) - {"deserialize", "__FieldVisitor.visit_str"}):
            b = d.get("deserialize")
            if b:
                E, rows = run(P, b)
                total = E
                for txt, c in rows:
                    put(f"{short_ty} is read as {txt}", E.condtext(c), b)
            continue
        for how in ("__Visitor.visit_map", "__Visitor.visit_enum", "__Visitor.visit_newtype_struct", "__Visitor.visit_some"):
            b = d.get(how)
            if not b:
                continue
            E, rows = run(P, b)
            total = E
            if how.endswith("visit_map") and struct_rows(E, short_ty, keys, put):
                continue
            for txt, c in rows:
                if txt.startswith("Err(") and txt.endswith("@Err.0)"):
                    continue
                g = E.condtext(c)
                for k, ns in keys.items():
                    g = re.sub(rf"\b{k}\b", "|".join(ns), g)
                put(f"{short_ty} {how[10:]} gives {txt}", g, b)
    return eff, where, total
