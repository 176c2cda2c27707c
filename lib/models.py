"""Summaries of std (and a few library) combinators: what they do to values, not how."""
import re

from gvf import OPTION, RESULT, T, strip_generics, base_type, norm_ty, split_top

MODELS = {}
PREFIX_MODELS = []


def model(*names, always=False):
    def deco(f):
        for n in names:
            MODELS[n] = f
        f.always = always
        return f
    return deco


# ------------------------------------------------------------------ identity
IDENT = """
Clone::clone ToOwned::to_owned String::as_str AsRef::as_ref Borrow::borrow Deref::deref DerefMut::deref_mut AsMut::as_mut
Option::as_ref Option::as_mut Option::as_deref Option::as_deref_mut Option::copied Option::cloned Box::new Arc::new Rc::new Cow::into_owned
Vec::as_slice Vec::into_boxed_slice slice::to_vec str::as_bytes String::as_bytes str::to_owned str::to_string String::into_boxed_str
Result::as_ref Result::as_mut Result::copied Result::cloned Result::as_deref hint::must_use fmt::format
String::from Box::from Arc::from Rc::from Path::new PathBuf::from OsStr::new Path::to_path_buf PathBuf::as_path Name::as_str
slice::as_ref BorrowMut::borrow_mut Box::as_ref Vec::as_mut_slice slice::into_vec String::into_bytes str::into_string Box::pin
SmolStr::as_str Cow::as_ref vec::into_vec Name::new Box::leak array::as_slice Vec::leak mem::ManuallyDrop
""".split()


@model(*IDENT)
def ident(E, d, a):
    return a[0]


def ord_pick(E, a, low):
    x, y = E.val(a[0]), E.val(a[1])
    num = lambda t: t.op == "c" and t.a[0] == "int"
    if num(x) == num(y):
        return NotImplemented
    if num(x):
        x, y = y, x
    over = E.bdd.not_(E.lt(x, E.const(y.a[1] + 1)))
    return E.cases([(over, y if low else x), (E.bdd.not_(over), x if low else y)])


@model("Ord::min", "cmp::min")
def ord_min(E, d, a):
    return ord_pick(E, a, True)


@model("Ord::max", "cmp::max")
def ord_max(E, d, a):
    return ord_pick(E, a, False)


@model("Positioned::pos")
def pospos(E, d, a):
    return E.call("pos", E.val(a[0]))


NUMBERS = ("usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "bool", "char")


def stringish(ty):
    t = base_type(ty)
    if t in ("str", "std::string::String", "char", "bool", "usize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "isize", "u128", "i128",
             "async_graphql_value::Name", "std::borrow::Cow", "std::boxed::Box", "std::fmt::Arguments", "std::sync::Arc"):
        return True
    return False


def display(E, x, ty):
    x = E.val(x)
    if x.op == "cs":
        return E.cases([(c, display(E, l, ty)) for c, l in x.a])
    if ty is None or stringish(ty) or x.op in ("c", "fmt"):
        return x
    if x.op == "b":
        return x
    if x.op == "adt" and any(E.val(f).op == "clo" for f in x.a[3:]):
        r = written(E, x, ty)
        if r is not None:
            return r
    return E.call("show", x)


def written(E, x, ty):
    """The text that a Display impl around a closure writes."""
    found, _ = E.p.impl_method("std::fmt::Display", "fmt", (ty,), E.crate_of(E.stack[-1][0]))
    if not found or not E.inlinable(found[0], found[0]["key"]):
        return None
    b, env = found
    E.temps = getattr(E, "temps", 0) + 1
    cell = ("w", E.temps)
    E.st[cell] = E.fmt([])
    E.stack.append(E.new_frame(b, {}, env))
    E.run_body(b, [x, E.mk("refm", cell, ())])
    E.stack.pop()
    return E.val(E.st.pop(cell))


@model("ToString::to_string")
def to_string(E, d, a):
    ga = d.get("ga_t") or (None,)
    r = display(E, a[0], ga[0])
    # a number and the text of it are two values
    return E.fmt([r]) if ga[0] and base_type(ga[0]) in NUMBERS else r


@model("Argument::new_display")
def new_display(E, d, a):
    ga = d.get("ga_t") or (None,)
    return display(E, a[0], ga[0])


@model("Argument::new_debug")
def new_debug(E, d, a):
    return E.mk("dbg", E.val(a[0]))


@model("Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_lower_exp", "Argument::from_usize")
def new_hex(E, d, a):
    return E.call("hex", E.val(a[0]))


@model("Arguments::from_str", "Arguments::new_const", "Arguments::from_str_nonconst")
def args_from_str(E, d, a):
    return E.fmt([E.val(a[0])])


@model("Arguments::new")
def args_new(E, d, a):
    tpl = E.val(a[0])
    arr = E.val(a[1])
    if tpl.op != "c" or arr.op != "arr":
        return NotImplemented
    bs = tpl.a[1]
    if isinstance(bs, str):
        bs = bs.encode("latin1", "replace")
    pieces, i, n = [], 0, 0
    while i < len(bs):
        c = bs[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            pieces.append(bs[i:i + c].decode("utf8", "replace"))
            i += c
        elif c == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            pieces.append(bs[i:i + ln].decode("utf8", "replace"))
            i += ln
        else:
            # placeholder: bit0 flags(4) bit1 width(2) bit2 precision(2) bit3 argument index(2)
            spec = []
            if c & 1:
                spec.append(int.from_bytes(bs[i:i + 4], "little"))
                i += 4
            if c & 2:
                spec.append(int.from_bytes(bs[i:i + 2], "little"))
                i += 2
            if c & 4:
                spec.append(int.from_bytes(bs[i:i + 2], "little"))
                i += 2
            if c & 8:
                n = int.from_bytes(bs[i:i + 2], "little")
                i += 2
            x = arr.a[n] if n < len(arr.a) else E.UNDEF
            n += 1
            if spec:
                x = E.mk("spec", x, tuple(spec))
            pieces.append(x)
    return E.fmt(pieces)


@model("Into::into", "From::from", "TryInto::try_into", "TryFrom::try_from")
def into(E, d, a):
    name = d["fn"].rsplit("::", 1)[-1]
    ga = d.get("ga_t") or ()
    b = E.p.bodies.get(d.get("rk"))
    if b is not None and E.inlinable(b, b["key"]):
        E.stack.append(E.new_frame(b, d))
        r = E.run_body(b, a)
        E.stack.pop()
        return r
    if len(ga) >= 2:
        src, dst = (ga[0], ga[1]) if name in ("into", "try_into") else (ga[1], ga[0])
        b = E.p.from_impls.get((norm_ty(src), norm_ty(dst)))
        if b is not None:
            E.stack.append(E.new_frame(b, env={}))
            r = E.run_body(b, a)
            E.stack.pop()
            return r
    x = E.val(a[0])
    if name.startswith("try"):
        return E.call(f"try_into<{dst}>" if len(ga) >= 2 and re.fullmatch(r"[iu]\d+|[iu]size|f\d+", dst) else "try_into", x)
    if len(ga) >= 2:
        if strip_generics(dst) == OPTION and strip_generics(src) != OPTION:
            return E.some(x)
        if x.op == "arr" and re.search(r"(Map|Set|Vec)<", dst):
            return E.mk("seq", *[(1, e) for e in x.a])
    return x


# ------------------------------------------------------------------ comparison
@model("PartialEq::eq", "Path::eq", always=True)
def peq(E, d, a):
    b = E.p.bodies.get(d.get("rk") or "")
    if b is not None and not b.get("exp") and b.get("trait"):
        return NotImplemented
    return E.boolt(E.eq(E.val(a[0]), E.val(a[1])))


@model("PartialEq::ne", always=True)
def pne(E, d, a):
    return E.boolt(E.bdd.not_(E.eq(E.val(a[0]), E.val(a[1]))))


@model("PartialOrd::lt")
def plt(E, d, a):
    return E.boolt(E.lt(E.val(a[0]), E.val(a[1])))


@model("PartialOrd::gt")
def pgt(E, d, a):
    return E.boolt(E.lt(E.val(a[1]), E.val(a[0])))


@model("PartialOrd::le")
def ple(E, d, a):
    if "LevelFilter" in " ".join(d.get("ga_t") or ()):
        return E.boolt(1)  # spans and events are analysed as enabled
    return E.boolt(E.bdd.not_(E.lt(E.val(a[1]), E.val(a[0]))))


@model("PartialOrd::ge")
def pge(E, d, a):
    return E.boolt(E.bdd.not_(E.lt(E.val(a[0]), E.val(a[1]))))


@model("Not::not")
def pnot(E, d, a):
    x = E.val(a[0])
    if x.op == "b" or (d.get("ga_t") or ("",))[0] == "bool":
        return E.boolt(E.bdd.not_(E.truth(x)))
    return NotImplemented


# ------------------------------------------------------------------ collections
def is_coll_ty(t):
    t = strip_generics(t)
    return bool(re.search(r"(^|::)(Vec|VecDeque|HashMap|HashSet|BTreeMap|BTreeSet|IndexMap|IndexSet|BinaryHeap|FxHashMap|FxHashSet|FxIndexMap|FxIndexSet)$", t))


@model("Vec::new", "Vec::with_capacity", "HashMap::new", "HashMap::with_capacity", "HashSet::new", "HashSet::with_capacity", "BTreeMap::new", "BTreeSet::new",
       "IndexMap::new", "IndexSet::new", "IndexMap::with_capacity", "IndexSet::with_capacity", "VecDeque::new", "VecDeque::with_capacity", "BinaryHeap::new",
       "HashMap::with_hasher", "HashSet::with_hasher", "HashMap::with_capacity_and_hasher", "HashSet::with_capacity_and_hasher", "IndexMap::with_hasher")
def newcoll(E, d, a):
    return E.mk("seq")


@model("String::new", "String::with_capacity")
def newstring(E, d, a):
    return E.const("")


@model("Default::default")
def default(E, d, a):
    ga = d.get("ga_t") or ("",)
    t = ga[0]
    b = strip_generics(t)
    if is_coll_ty(t):
        return E.mk("seq")
    if b == OPTION:
        return E.NONE
    if t == "bool":
        return E.FALSE
    if b in ("std::string::String", "str", "&str"):
        return E.const("")
    if re.match(r"^[ui](8|16|32|64|128|size)$", t):
        return E.const(0)
    if t == "()":
        return E.UNIT
    if t.startswith("(") and t.endswith(")"):
        return E.mk("tup", *[default_of(E, x) for x in split_types(t[1:-1])])
    m = re.match(r"^\[(.*); (\d+)(_?usize)?\]$", t)
    if m and int(m.group(2)) <= 16:
        return E.mk("arr", *[default_of(E, m.group(1))] * int(m.group(2)))
    return E.call("default", E.mk("k", base_type(t).split("::")[-1], "type"))


def split_types(s):
    """The items of a comma-separated list of types."""
    out, d, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "<([":
            d += 1
        elif c in ")]" or c == ">" and s[i - 1] != "-":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


PUSH = """Vec::push HashSet::insert BTreeSet::insert IndexSet::insert VecDeque::push_back VecDeque::push_front BinaryHeap::push IndexSet::insert_full
HashMap::insert BTreeMap::insert IndexMap::insert Vec::insert IndexMap::insert_full HashMap::insert_unique_unchecked""".split()


@model(*PUSH)
def push(E, d, a):
    name = d["fn"]
    sname = re.sub(r".*::", "", strip_generics(name))
    owner = strip_generics(name).split("::")[-2]
    r = a[0]
    vals = [E.val(x) for x in a[1:]]
    coll = E.val(r)
    is_set = owner.endswith("Set") or owner.endswith("set") or "::set::" in name
    is_map = owner.endswith("Map")
    if owner == "Vec" and sname == "insert":
        item = vals[1]
    elif is_map:
        item = E.tup(*vals[:2])
    else:
        item = vals[0]
    ret = E.UNIT
    if is_set and sname == "insert":
        ret = E.boolt(E.bdd.not_(E.contains(coll, vals[0])))
    elif is_set:
        ret = E.tup(E.call("index_of", coll, vals[0]), E.boolt(E.bdd.not_(E.contains(coll, vals[0]))))
    elif is_map:
        ret = E.call("map_insert", coll, vals[0])
    target(E, r, coll, item, sname)
    return ret


def target(E, r, coll, item, name):
    """Adds an item to the collection behind r."""
    for c, l in E.leaves(r):
        if l.op != "refm" and not E.st.get(("o", l)):
            E.emit("mut", name, [E.val(l), item])
            continue
        v = E.read(l)
        if v.op == "seq":
            n = E.seq_push(v, item, c)
            E.write(l, n, note=False)
            if l.op == "refm" and l.a[0][0] in ("p", "o"):
                E.emit("mut", name, [E.mk("locof", E.mk("loc", *l.a)), item])
        elif v.op == "cs" and any(x.op == "seq" for _, x in v.a):
            E.write(l, E.cases([(cc, E.seq_push(x, item, c) if x.op == "seq" else x) for cc, x in v.a]), note=False)
            rest = E.bdd.any([cc for cc, x in v.a if x.op != "seq"])
            if rest:
                E.under(rest, lambda: (E.emit("mut", name, [E.cases([(cc, x) for cc, x in v.a if x.op != "seq"]), item]), E.UNIT)[1])
        else:
            E.emit("mut", name, [v, item])
            if name == "push" and not E.loops and not E.active:
                n = E.st.get(("pushed", v), E.const(0))
                E.st[("pushed", v)] = E.ite(c, E.binop("Add", n, E.const(1)), n)


@model("Extend::extend", "Vec::extend", "Vec::extend_from_slice", "Vec::append", "HashSet::extend", "String::extend", "HashMap::extend", "IndexSet::extend", "IndexMap::extend")
def extend(E, d, a):
    r = a[0]
    if "String" in (d.get("ga_t") or ("",))[0][:24]:
        return NotImplemented
    src = E.val(a[1])
    n = len(E.active)
    for lane in lanes_of(E, src):
        for c, e, _ in pull(E, lane):
            E.under(c, lambda: (target(E, r, E.val(r), e, "push"), E.UNIT)[1])
    del E.active[n:]
    return E.UNIT


@model("HashMap::get", "BTreeMap::get", "IndexMap::get", "slice::get", "Vec::get", "HashSet::get", "IndexSet::get", "Map::get")
def cget(E, d, a):
    c, k = E.val(a[0]), E.val(a[1])
    if d["fn"].split("::")[-2].split("<")[0].strip(">") in ("slice", "Vec") or "slice" in d["fn"]:
        if any(t == "usize" for t in d.get("ga_t", ())):
            if k.op == "c" and k.a[1] == 0:
                return cfirst(E, d, [c])
            p = E.truth(E.binop("Lt", k, E.len_(c)))
            return E.cases([(p, E.some(E.idx(c, k))), (E.bdd.not_(p), E.NONE)])
    return E.call("get", c, k)


@model("HashMap::get_mut", "BTreeMap::get_mut", "IndexMap::get_mut", "slice::get_mut", "Vec::get_mut")
def cgetm(E, d, a):
    c, k = E.val(a[0]), E.val(a[1])
    return E.call("get", c, k)


@model("HashMap::contains_key", "BTreeMap::contains_key", "IndexMap::contains_key", "HashSet::contains", "BTreeSet::contains", "IndexSet::contains")
def contains(E, d, a):
    return E.boolt(E.contains(E.val(a[0]), E.val(a[1])))


@model("slice::contains", "Vec::contains", "VecDeque::contains")
def scontains(E, d, a):
    k = E.val(a[1])
    r = 0
    with active(E):
        for c, e, _ in contributions(E, a[0]):
            r = E.bdd.or_(r, E.bdd.and_(c, E.eq(e, k)))
    return E.boolt(r)


@model("HashMap::remove", "BTreeMap::remove", "IndexMap::swap_remove", "IndexMap::shift_remove", "IndexMap::remove")
def mremove(E, d, a):
    c, k = E.val(a[0]), E.val(a[1])
    E.emit("mut", "remove", [c, k])
    return E.call("map_remove", c, k)


@model("Index::index", "IndexMut::index_mut")
def index(E, d, a):
    x, i = E.val(a[0]), E.val(a[1])
    if i.op == "adt" and i.a[0].startswith("std::ops::Range"):
        return part(E, x, i.a[0].split("::")[-1], list(i.a[3:]))
    return E.idx(x, i)


def part(E, x, kind, xs):
    """The elements of x between two positions."""
    if kind == "RangeFull":
        return x
    if kind not in ("Range", "RangeTo", "RangeFrom"):
        return E.call("range", x, E.mk("k", kind, "range"), *xs)
    s = E.const(0) if kind == "RangeTo" else xs[0]
    e = None if kind == "RangeFrom" else xs[-1]
    if e is not None and e.op == "cs":
        return E.cases([(c, part(E, x, "Range", [s, l])) for c, l in e.a])
    if x.op == "arr" and s.op == "c" and (e is None or e.op == "c") and s.a[1] <= (e.a[1] if e else len(x.a)) <= len(x.a):
        return E.mk("arr", *x.a[s.a[1]:e.a[1] if e else None])
    if e is None or e is models_len(E, x):
        return x if s is E.const(0) else E.call("range", x, s)
    return E.call("range", x, s, e)


def models_len(E, x):
    return MODELS["Vec::len"](E, {}, [x])


@model("Vec::len", "slice::len", "str::len", "String::len", "HashMap::len", "HashSet::len", "BTreeMap::len", "BTreeSet::len", "IndexSet::len", "IndexMap::len", "ExactSizeIterator::len", "VecDeque::len")
def clen(E, d, a):
    v = E.val(a[0])
    n = E.st.get(("pushed", v))
    return E.len_(v) if n is None else E.binop("Add", E.len_(v), n)


@model("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty", "HashMap::is_empty", "HashSet::is_empty", "BTreeMap::is_empty", "BTreeSet::is_empty",
       "IndexSet::is_empty", "IndexMap::is_empty", "VecDeque::is_empty")
def cempty(E, d, a):
    return E.boolt(E.bdd.not_(E.has(E.val(a[0]))))


@model("slice::first", "Vec::first", "VecDeque::front", "IndexSet::first", "BTreeSet::first")
def cfirst(E, d, a):
    x = E.val(a[0])
    if x.op == "arr":
        return E.some(x.a[0]) if x.a else E.NONE
    return E.call("first", x)


@model("slice::last", "Vec::last", "VecDeque::back", "slice::last_mut")
def clast(E, d, a):
    return E.call("last", E.val(a[0]))


@model("Vec::pop", "VecDeque::pop_front", "VecDeque::pop_back", "BinaryHeap::pop", "String::pop")
def cpop(E, d, a):
    v = E.val(a[0])
    if v.op == "seq":
        out, rest = [], 1
        for i, (c, e) in enumerate(v.a):
            if i + 1 < len(v.a):
                c = E.bdd.and_(c, E.atom(("t", E.call("pick", E.const(i)))))
            c = E.bdd.and_(rest, c)
            out.append((c, E.some(e)))
            rest = E.bdd.and_(rest, E.bdd.not_(c))
        return E.cases(out + [(rest, E.NONE)])
    E.emit("mut", "pop", [v])
    return E.call("pop", v)


@model("Vec::clear", "HashMap::clear", "HashSet::clear", "String::clear", "BTreeMap::clear", "IndexMap::clear", "IndexSet::clear")
def cclear(E, d, a):
    v = E.val(a[0])
    for c, l in E.leaves(a[0]):
        if l.op == "refm" and E.read(l).op == "seq":
            E.write(l, E.mk("seq"), note=False)
        else:
            E.emit("mut", "clear", [v])
    return E.UNIT


SORT = """slice::sort slice::sort_unstable slice::sort_by slice::sort_by_key slice::sort_unstable_by slice::sort_unstable_by_key slice::sort_by_cached_key
Vec::dedup Vec::shrink_to_fit Vec::reserve String::reserve HashMap::reserve HashSet::reserve slice::reverse IndexMap::sort_keys IndexMap::sort_unstable_keys Vec::dedup_by_key
HashMap::shrink_to_fit String::shrink_to_fit""".split()


@model(*SORT)
def csort(E, d, a):
    v = E.val(a[0])
    name = d["fn"].rsplit("::", 1)[-1]
    if name.startswith(("reserve", "shrink")):
        return E.UNIT
    E.emit("mut", re.sub("_unstable|_cached", "", name), [outline(E, v)] + [E.force(x, 1) for x in a[1:]])
    return E.UNIT


def outline(E, v):
    """What kind of elements a collection built here has; the elements themselves show where they are used."""
    ls = [l for _, l in E.leaves(v)]
    if not ls or any(l.op != "seq" for l in ls):
        return v

    def sk(x, d=2):
        if x.op == "cs":
            return "|".join(sorted({sk(l, d) for _, l in x.a}))
        if x.op == "adt":
            return x.a[1] or x.a[0].split("::")[-1]
        if x.op == "tup" and d:
            return "(" + ", ".join(sk(y, d - 1) for y in x.a) + ")"
        return "_"
    return E.mk("k", "<" + "; ".join(sorted({sk(e) for l in ls for _, e in l.a})) + ">", "outline")


@model("Vec::retain", "HashMap::retain", "HashSet::retain", "Vec::retain_mut", "BTreeMap::retain")
def cretain(E, d, a):
    v = E.val(a[0])
    fn = a[1]
    if v.op == "seq" and a[0].op == "refm":
        out = []
        for c, e in v.a:
            xs = [E.field(e, None, "0"), E.field(e, None, "1")] if "Map" in d["fn"] else [e]
            p = E.under(c, lambda: E.call_value(fn, xs))
            out.append((E.bdd.and_(c, E.truth(p)), e))
        E.write(a[0], E.mk("seq", *[(c, e) for c, e in out if c]), note=False)
        return E.UNIT
    el = E.new_elem(v)
    xs = [E.field(el, None, "0"), E.field(el, None, "1")] if "Map" in d["fn"] else [el]
    p = E.under(E.has(v), lambda: E.call_value(fn, xs))
    E.active.pop()
    E.emit("mut", "retain", [v, E.boolt(E.truth(p))])
    return E.UNIT


@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default", "VacantEntry::insert", "Entry::or_insert_with_key", "OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut")
def eor(E, d, a):
    x = E.val(a[0])
    m = d["fn"].rsplit("::", 1)[-1]
    if x.op == "f" and x.a[1] in ("Vacant", "Occupied"):
        x = x.a[0]
    if x.op == "entry":
        coll, k = x.a[:2]
        vals = []
        if m in ("or_insert_with", "or_insert_with_key"):
            no = E.bdd.not_(E.contains(coll, k))
            xs = [k] if m.endswith("key") else []
            vals = [E.under(no, lambda: E.call_value(a[1], xs))]
        elif m in ("or_insert", "insert"):
            vals = [E.val(a[1])]
        elif m == "or_default":
            vals = [default_of(E, re.sub(r"^&('\\w+ )?(mut )?", "", d.get("ret_t") or ""))]
        if len(x.a) > 2 and (x.a[2].op == "refm"):
            ref = x.a[2]
            cur = E.read(ref)
            if cur.op == "seq" or cur.op == "cs" and all(l.op == "seq" for _, l in cur.a):
                if vals and vals[0] is not E.UNDEF and not any(e.op == "tup" and len(e.a) == 2 and e.a[0] is k for _, l in E.leaves(cur) for _, e in l.a):
                    def start(l):
                        # what an earlier loop stored under the same key is what this entry starts from
                        if not 0 < len(l.a) <= 4 or not all(e.op == "tup" and len(e.a) == 2 for _, e in l.a):
                            return vals[0]
                        out, rest = [], 1
                        for c, e in l.a:
                            h = E.bdd.and_(c, E.contains(E.mk("seq", (1, e.a[0])), k))
                            out.append((E.bdd.and_(rest, h), e.a[1]))
                            rest = E.bdd.and_(rest, E.bdd.not_(h))
                        return E.cases([x for x in out + [(rest, vals[0])] if x[0]])
                    E.write(ref, E.cases([(c, E.seq_push(l, E.tup(k, start(l)))) for c, l in E.leaves(cur)]), note=False)
                return E.mk("refm", ref.a[0], ref.a[1] + (("i", k),))
        if vals and vals[0] is not E.UNDEF:
            if m == "insert":
                E.emit("mut", "insert", [coll, E.tup(k, vals[0])])
                return E.idx(coll, k)
            return E.slot(coll, k, vals[0])
        return E.idx(coll, k)
    return NotImplemented


@model("HashMap::entry", "BTreeMap::entry", "IndexMap::entry")
def centry(E, d, a):
    return E.mk("entry", E.val(a[0]), E.val(a[1]), a[0])


def default_of(E, t):
    dv = default(E, {"ga_t": (t,)}, [])
    if dv.op == "call":
        b = next((b for b in E.p.impls.get(("std::default::Default", "default"), ()) if norm_ty(b["types"][b["locals"][0][0]]) == norm_ty(t)), None)
        if b is not None:
            return E.run_body(b, [])
        return E.call("default", E.mk("k", base_type(t).split("::")[-1], "type"))
    return dv


@model("Box::new_uninit")
def new_uninit(E, d, a):
    E.frame += 1
    return E.mk("refm", ("h", E.frame), ())


@model("Entry::and_modify")
def emod(E, d, a):
    x = E.val(a[0])
    if x.op == "entry":
        coll, k = x.a[:2]
        E.under(E.contains(coll, k), lambda: E.call_value(a[1], [E.mk("refm", x.a[2].a[0], x.a[2].a[1] + (("i", k),)) if x.a[2].op == "refm" else E.idx(coll, k)]))
    return a[0]


@model("mem::take")
def mtake(E, d, a):
    v = E.val(a[0])
    t = (d.get("ga_t") or ("",))[0]
    E.write(a[0], default_of(E, t))
    return v


@model("mem::replace", "Option::replace")
def mrepl(E, d, a):
    v = E.val(a[0])
    n = E.val(a[1])
    E.write(a[0], E.some(n) if "Option" in d["fn"] else n)
    return v


@model("Option::insert")
def oinsert(E, d, a):
    E.write(a[0], E.some(E.val(a[1])))
    return E.val(a[1])


@model("Path::as_os_str", "PathBuf::as_os_str", "OsString::as_os_str")
def osid(E, d, a):
    return E.val(a[0])


@model("OsStr::to_os_string")
def osowned(E, d, a):
    return E.fmt([E.val(a[0])])


@model("Future::poll", always=True)
def poll(E, d, a):
    x = E.val(a[0])
    r = E.await_(x, True)
    return E.mk("adt", "std::task::Poll", "Ready", ("0",), r)


@model("IntoFuture::into_future", "Box::pin", "Pin::new", "Pin::new_unchecked", "Pin::as_mut", always=True)
def intofut(E, d, a):
    return a[0]


@model("get_context", "future::get_context", "ResumeTy::get_context", always=True)
def getctx(E, d, a):
    return E.UNIT


@model("LazyLock::new", "LazyCell::new", "Lazy::new")
def lazynew(E, d, a):
    return E.call_value(a[0], [])


@model("OnceLock::get_or_init", "OnceCell::get_or_init", "LazyLock::force", "LazyCell::force", "Lazy::force")
def once(E, d, a):
    if len(a) == 2:
        return E.call_value(a[1], [])
    return E.val(a[0])


@model("mem::swap")
def mswap(E, d, a):
    x, y = E.val(a[0]), E.val(a[1])
    E.write(a[0], y)
    E.write(a[1], x)
    return E.UNIT


@model("hint::black_box")
def black_box(E, d, a):
    return a[0]


@model("mem::drop", "drop", "mem::forget")
def mdrop(E, d, a):
    ga = d.get("ga_t") or ()
    hit = ga and not d["fn"].endswith("forget") and E.dropped(ga[0])
    if hit:
        E.temps = getattr(E, "temps", 0) + 1
        cell = ("w", E.temps)
        E.st[cell] = a[0]
        E.run_drop(*hit, E.mk("refm", cell, ()), E.stack[-1][1])
        E.st.pop(cell, None)
    return E.UNIT


# ------------------------------------------------------------------ strings
@model("String::push_str", "String::push", "Write::write_str", "Write::write_char", "Formatter::write_str", "Formatter::write_fmt", "Write::write_fmt", "String::write_str",
       "Formatter::write_char", "AddAssign::add_assign", "OsString::push")
def spush(E, d, a):
    m = d["fn"].rsplit("::", 1)[-1]
    if m == "add_assign" and "String" not in (d.get("ga_t") or ("",))[0]:
        return NotImplemented
    if d["fn"].startswith("std::io"):
        return NotImplemented
    x = E.val(a[1])
    ret = E.UNIT if m in ("push_str", "push", "add_assign") else E.ok(E.UNIT)
    for c, l in E.leaves(a[0]):
        v = E.val(l)
        if l.op == "refm" and (v.op in ("c", "fmt") or "OsString" in d["fn"] or v.op == "cs" and all(z.op in ("c", "fmt") for _, z in v.a)):
            E.write(l, E.fmt([v, x]) if c == 1 else E.cases([(c, E.fmt([v, x])), (E.bdd.not_(c), v)]), note=False)
        else:
            E.append_text(l, x, c)
    return ret


@model("str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase")
def scase(E, d, a):
    x = E.val(a[0])
    n = d["fn"].rsplit("::", 1)[-1]
    if x.op == "cs":
        return E.cases([(c, scase(E, d, [l])) for c, l in x.a])
    if x.op == "c" and x.a[0] == "str":
        return E.const(x.a[1].lower() if "lower" in n else x.a[1].upper())
    return E.call("str::" + n, x)


@model("Add::add")
def sadd(E, d, a):
    if "String" not in (d.get("ga_t") or ("",))[0]:
        return E.binop("Add", E.val(a[0]), E.val(a[1]))
    return E.fmt([E.val(a[0]), E.val(a[1])])


@model("AddAssign::add_assign_int")
def addas(E, d, a):
    return NotImplemented


# ------------------------------------------------------------------ Option and Result
def opt_split(E, x, some, none):
    x = E.val(x)
    return E.split(E.is_some(x), lambda: some(E.payload(x)), none)


def okp(E, x):
    return E.field(x, "Ok", "0")


def errp(E, x):
    return E.field(x, "Err", "0")


def narrow(E, x, path, v):
    """x where it is known to be variant v of path (payload kept)."""
    return x


@model("Option::is_some")
def o_is_some(E, d, a):
    return E.boolt(E.is_some(E.val(a[0])))


@model("Option::is_none")
def o_is_none(E, d, a):
    return E.boolt(E.bdd.not_(E.is_some(E.val(a[0]))))


@model("Option::is_some_and")
def o_is_some_and(E, d, a):
    r = opt_split(E, a[0], lambda p: E.call_value(a[1], [p]), lambda: E.FALSE)
    return E.boolt(E.truth(r))


@model("Option::is_none_or")
def o_is_none_or(E, d, a):
    r = opt_split(E, a[0], lambda p: E.call_value(a[1], [p]), lambda: E.TRUE)
    return E.boolt(E.truth(r))


@model("Option::map")
def o_map(E, d, a):
    return opt_split(E, a[0], lambda p: E.some(E.call_value(a[1], [p])), lambda: E.NONE)


@model("Option::inspect")
def o_inspect(E, d, a):
    opt_split(E, a[0], lambda p: E.call_value(a[1], [p]), lambda: E.UNIT)
    return a[0]


@model("Option::and_then")
def o_and_then(E, d, a):
    return opt_split(E, a[0], lambda p: E.call_value(a[1], [p]), lambda: E.NONE)


@model("Option::map_or")
def o_map_or(E, d, a):
    return opt_split(E, a[0], lambda p: E.call_value(a[2], [p]), lambda: E.val(a[1]))


@model("Option::map_or_else")
def o_map_or_else(E, d, a):
    return opt_split(E, a[0], lambda p: E.call_value(a[2], [p]), lambda: E.call_value(a[1], []))


@model("Option::filter")
def o_filter(E, d, a):
    def f(p):
        r = E.truth(E.call_value(a[1], [p]))
        return E.ite(r, E.some(p), E.NONE)
    return opt_split(E, a[0], f, lambda: E.NONE)


@model("Option::or")
def o_or(E, d, a):
    return opt_split(E, a[0], lambda p: E.some(p), lambda: E.val(a[1]))


@model("Option::or_else")
def o_or_else(E, d, a):
    return opt_split(E, a[0], lambda p: E.some(p), lambda: E.call_value(a[1], []))


@model("Option::and")
def o_and(E, d, a):
    return opt_split(E, a[0], lambda p: E.val(a[1]), lambda: E.NONE)


@model("Option::xor")
def o_xor(E, d, a):
    x, y = E.val(a[0]), E.val(a[1])
    sx, sy = E.is_some(x), E.is_some(y)
    n = E.bdd.not_
    return E.cases([(E.bdd.and_(sx, n(sy)), x), (E.bdd.and_(sy, n(sx)), y), (n(E.bdd.xor(sx, sy)), E.NONE)])


@model("Option::zip")
def o_zip(E, d, a):
    x, y = E.val(a[0]), E.val(a[1])
    return E.ite(E.bdd.and_(E.is_some(x), E.is_some(y)), E.some(E.tup(E.payload(x), E.payload(y))), E.NONE)


@model("Option::unwrap_or")
def o_unwrap_or(E, d, a):
    x = E.val(a[0])
    return E.ite(E.is_some(x), E.payload(x), E.val(a[1]))


@model("Option::unwrap_or_else")
def o_unwrap_or_else(E, d, a):
    return opt_split(E, a[0], lambda p: p, lambda: E.call_value(a[1], []))


@model("Option::unwrap_or_default")
def o_unwrap_or_default(E, d, a):
    x = E.val(a[0])
    t = (d.get("ga_t") or ("",))[0]
    dv = E.split(E.is_some(x), lambda: E.UNDEF, lambda: default_of(E, t))
    return E.ite(E.is_some(x), E.payload(x), dv)


@model("Option::unwrap", "Option::expect", "Option::unwrap_unchecked")
def o_unwrap(E, d, a):
    x = E.val(a[0])
    n = E.bdd.not_(E.is_some(x))
    if n:
        c = E.bdd.and_(E.pc, n)
        if c:
            pc, E.pc = E.pc, c
            E.emit("panic", d["fn"].rsplit("::", 1)[-1], [x])
            E.pc = pc
    return E.payload(x)


@model("Option::ok_or")
def o_ok_or(E, d, a):
    x = E.val(a[0])
    return E.ite(E.is_some(x), E.ok(E.payload(x)), E.err(E.val(a[1])))


@model("Option::ok_or_else")
def o_ok_or_else(E, d, a):
    return opt_split(E, a[0], lambda p: E.ok(p), lambda: E.err(E.call_value(a[1], [])))


@model("Option::take")
def o_take(E, d, a):
    x = E.val(a[0])
    E.write(a[0], E.NONE)
    return x


@model("Option::get_or_insert_with")
def o_goiw(E, d, a):
    x = E.val(a[0])
    y = E.split(E.is_some(x), lambda: E.payload(x), lambda: E.call_value(a[1], []))
    E.write(a[0], E.some(y))
    return E.mk("refm", *((a[0].a[0], a[0].a[1] + (("f", "Some", "0"),)) if a[0].op == "refm" else (("o", a[0]), (("f", "Some", "0"),))))


@model("Option::flatten")
def o_flatten(E, d, a):
    return opt_split(E, a[0], lambda p: p, lambda: E.NONE)


@model("Option::transpose")
def o_transpose(E, d, a):
    x = E.val(a[0])
    p = E.payload(x)
    s, o = E.is_some(x), E.is_ok(p)
    B = E.bdd
    return E.cases([(B.not_(s), E.ok(E.NONE)), (B.and_(s, o), E.ok(E.some(okp(E, p)))), (B.and_(s, B.not_(o)), E.err(errp(E, p)))])


@model("Option::unzip")
def o_unzip(E, d, a):
    x = E.val(a[0])
    p = E.payload(x)
    s = E.is_some(x)
    return E.tup(E.ite(s, E.some(E.field(p, None, "0")), E.NONE), E.ite(s, E.some(E.field(p, None, "1")), E.NONE))


def res_split(E, x, ok, err):
    x = E.val(x)
    return E.split(E.is_ok(x), lambda: ok(okp(E, x)), lambda: err(errp(E, x)))


@model("Result::is_ok")
def r_is_ok(E, d, a):
    return E.boolt(E.is_ok(E.val(a[0])))


@model("Result::is_err")
def r_is_err(E, d, a):
    return E.boolt(E.bdd.not_(E.is_ok(E.val(a[0]))))


@model("Result::is_ok_and")
def r_is_ok_and(E, d, a):
    return E.boolt(E.truth(res_split(E, a[0], lambda p: E.call_value(a[1], [p]), lambda e: E.FALSE)))


@model("Result::is_err_and")
def r_is_err_and(E, d, a):
    return E.boolt(E.truth(res_split(E, a[0], lambda p: E.FALSE, lambda e: E.call_value(a[1], [e]))))


@model("Result::map")
def r_map(E, d, a):
    return res_split(E, a[0], lambda p: E.ok(E.call_value(a[1], [p])), lambda e: E.err(e))


@model("Result::map_err")
def r_map_err(E, d, a):
    return res_split(E, a[0], lambda p: E.ok(p), lambda e: E.err(E.call_value(a[1], [e])))


@model("Result::and_then")
def r_and_then(E, d, a):
    return res_split(E, a[0], lambda p: E.call_value(a[1], [p]), lambda e: E.err(e))


@model("Result::or_else")
def r_or_else(E, d, a):
    return res_split(E, a[0], lambda p: E.ok(p), lambda e: E.call_value(a[1], [e]))


@model("Result::unwrap_or")
def r_unwrap_or(E, d, a):
    x = E.val(a[0])
    return E.ite(E.is_ok(x), okp(E, x), E.val(a[1]))


@model("Result::unwrap_or_else")
def r_unwrap_or_else(E, d, a):
    return res_split(E, a[0], lambda p: p, lambda e: E.call_value(a[1], [e]))


@model("Result::map_or")
def r_map_or(E, d, a):
    return res_split(E, a[0], lambda p: E.call_value(a[2], [p]), lambda e: E.val(a[1]))


@model("Result::unwrap_or_default")
def r_unwrap_or_default(E, d, a):
    x = E.val(a[0])
    t = (d.get("ga_t") or ("",))[0]
    dv = default(E, {"ga_t": (t,)}, [])
    if dv is NotImplemented:
        return NotImplemented
    return E.ite(E.is_ok(x), okp(E, x), dv)


@model("Result::map_or_else")
def r_map_or_else(E, d, a):
    return res_split(E, a[0], lambda p: E.call_value(a[2], [p]), lambda e: E.call_value(a[1], [e]))


@model("Result::ok")
def r_ok(E, d, a):
    x = E.val(a[0])
    return E.ite(E.is_ok(x), E.some(okp(E, x)), E.NONE)


@model("Result::err")
def r_err(E, d, a):
    x = E.val(a[0])
    return E.ite(E.is_ok(x), E.NONE, E.some(errp(E, x)))


@model("Result::unwrap", "Result::expect")
def r_unwrap(E, d, a):
    x = E.val(a[0])
    c = E.bdd.and_(E.pc, E.bdd.not_(E.is_ok(x)))
    if c:
        pc, E.pc = E.pc, c
        E.emit("panic", d["fn"].rsplit("::", 1)[-1], [x])
        E.pc = pc
    return okp(E, x)


@model("Result::inspect_err")
def r_inspect_err(E, d, a):
    res_split(E, a[0], lambda p: E.UNIT, lambda e: E.call_value(a[1], [e]))
    return a[0]


CF = "std::ops::ControlFlow"


@model("Try::branch")
def try_branch(E, d, a):
    x = E.val(a[0])
    t = (d.get("ga_t") or (d.get("rn", ""),))[0]
    if "Option" in t.split("<")[0]:
        s = E.is_some(x)
        cont = E.payload(x)
        res = E.NONE
    elif "Poll" in t.split("<")[0]:
        return NotImplemented
    else:
        s = E.is_ok(x)
        cont = okp(E, x)
        res = E.err(errp(E, x))
    return E.cases([(s, E.mk("adt", CF, "Continue", ("0",), cont)), (E.bdd.not_(s), E.mk("adt", CF, "Break", ("0",), res))])


@model("FromResidual::from_residual")
def from_residual(E, d, a):
    x = E.val(a[0])
    if x.op == "adt" and x.a[1] == "None":
        return x
    ga = d.get("ga_t") or ()
    e = errp(E, x)
    if len(ga) >= 2:
        # Result<T, F> from Result<!, E>
        def err_ty(t):
            m = re.match(r"^std::result::Result<(.*)>$", t)
            if not m:
                return None
            s = split_top(m.group(1), ", ")
            return s[1] if s else None
        f, g = err_ty(ga[0]), err_ty(ga[1])
        if f and g and norm_ty(f) != norm_ty(g):
            b = E.p.from_impls.get((norm_ty(g), norm_ty(f)))
            if b is not None:
                E.stack.append(E.new_frame(b, env={}))
                r = E.run_body(b, [e])
                E.stack.pop()
                return E.err(r)
    return E.err(e)


@model("Try::from_output")
def from_output(E, d, a):
    t = (d.get("ga_t") or ("",))[0]
    return E.some(E.val(a[0])) if "Option" in t.split("<")[0] else E.ok(E.val(a[0]))


@model("array::from_fn")
def array_from_fn(E, d, a):
    m = re.search(r"; (\d+)\]$", d.get("ret_t") or "")
    n = int(m.group(1)) if m else None
    if n is None or n > 8:
        return NotImplemented
    return E.mk("arr", *[E.val(E.call_value(a[0], [E.const(i)])) for i in range(n)])


@model("bool::then")
def b_then(E, d, a):
    return E.split(E.truth(E.val(a[0])), lambda: E.some(E.call_value(a[1], [])), lambda: E.NONE)


@model("bool::then_some")
def b_then_some(E, d, a):
    return E.ite(E.truth(E.val(a[0])), E.some(E.val(a[1])), E.NONE)


# ------------------------------------------------------------------ iterators
def lanes_of(E, x, ty=None):
    x = E.val(x)
    if x.op == "it":
        return list(x.a)
    if x.op == "seq":
        return [("one", c, e) for c, e in x.a]
    if x.op == "arr":
        return [("one", 1, e) for e in x.a]
    if x.op == "undef":
        return []
    if x.op == "cs":
        out = []
        for c, l in x.a:
            for lane in lanes_of(E, l, ty):
                if lane[0] == "one":
                    cc = E.bdd.and_(c, lane[1])
                    if cc:
                        out.append(("one", cc, lane[2]))
                else:
                    out.append(("st", lane, "guard", c))
        return out
    if x.op == "adt" and x.a[0] == OPTION:
        return [("one", 1, x.a[3])] if x.a[1] == "Some" else []
    if x.op == "adt" and strip_generics(x.a[0]) in ("std::ops::Range", "core::ops::range::Range", "std::ops::RangeInclusive") and len(x.a) == 5:
        s, e = x.a[3], x.a[4]
        if s.op == "c" and s.a[1] == 0 and e.op == "call" and e.a[0] == "len":
            return [("st", ("src", e.a[1]), "enum0", None)]
        if s.op == "c" and e.op == "c" and e.a[1] - s.a[1] <= 8:
            return [("one", 1, E.const(i)) for i in range(s.a[1], e.a[1] + ("Inclusive" in x.a[0]))]
        return [("src", E.call("range", s, e))]
    if ty and strip_generics(base_type(ty)) == OPTION:
        return [("one", E.is_some(x), E.payload(x))]
    return [("src", x)]


def src_elem(p):
    """The element of the underlying collection at a position."""
    while p is not None and p.op == "pos":
        p = p.a[0]
    return p


def pull(E, lane, first=False):
    """[(predicate, element, position)] of one lane, in the current state."""
    B = E.bdd
    k = lane[0]
    if k == "one":
        return [(lane[1], lane[2], E.mk("pos", lane[2]))]
    if k == "src":
        base = lane[1]
        if first:
            e = E.call("first", base)
            E.made.append(e)
            e = E.payload(e)
            return [(E.has(base), e, E.const(0))]
        e = E.new_elem(base)
        return [(E.has(base), e, E.mk("pos", e))]
    _, inner, kind, arg = lane
    if kind == "guard":
        return [(B.and_(c, arg), e, p) for c, e, p in pull(E, inner, first)]
    if kind in ("filter", "take_while", "skip_while", "filter_map", "flat_map", "flatten", "map_while"):
        first = False
    src = pull(E, inner, first)
    out = []
    for c, e, p in src:
        if kind == "map":
            v = E.under(c, lambda: E.call_value(arg, [e]))
            if v is not E.UNDEF:
                out.append((c, v, p))
        elif kind == "inspect":
            E.under(c, lambda: E.call_value(arg, [e]))
            out.append((c, e, p))
        elif kind in ("filter", "take_while", "skip_while"):
            v = E.under(c, lambda: E.call_value(arg, [e]))
            t = E.truth(v)
            if kind != "filter":
                # up to, or from, the first element that is not like that
                r = E.reached(E.stop_of(B.and_(c, B.not_(t)), [src_elem(p)], E.pc))
                t = B.and_(t, r) if kind == "take_while" else B.or_(B.not_(t), B.not_(r))
            cc = B.and_(c, t)
            if cc:
                out.append((cc, e, E.mk("pos", e)))
        elif kind in ("filter_map", "map_while"):
            v = E.under(c, lambda: E.call_value(arg, [e]))
            cc = B.and_(c, E.is_some(v))
            if kind == "map_while":
                cc = B.and_(cc, E.reached(E.stop_of(B.and_(c, B.not_(E.is_some(v))), [src_elem(p)], E.pc)))
            if cc:
                out.append((cc, E.payload(v), E.mk("pos", e)))
        elif kind in ("flat_map", "flatten"):
            if kind == "flat_map":
                v = E.under(c, lambda: E.call_value(arg, [e]))
                ty = ret_type(E, arg)
            else:
                v, ty = e, arg
            if v is E.UNDEF:
                continue
            for l2 in lanes_of(E, v, ty):
                def go(l2=l2):
                    return pull(E, l2)
                res = []
                def run():
                    res.extend(go())
                    return E.UNIT
                E.under(c, run)
                for c2, e2, p2 in res:
                    cc = B.and_(c, c2)
                    if cc:
                        out.append((cc, e2, E.mk("pos", e2)))
        elif kind == "enum":
            out.append((c, E.tup(p, e), p))
        elif kind == "enum0":
            out.append((c, p, p))
        elif kind == "field":
            out.append((c, E.field(e, None, arg), p))
        elif kind == "zip":
            rs = []
            for l2 in arg:
                rs.extend(pull(E, l2, first))
            for c2, e2, p2 in rs[:1] if len(src) == 1 else rs:
                out.append((B.and_(c, c2), E.tup(e, e2), p))
        elif kind == "sel":
            out.append((B.and_(c, E.atom(("t", E.mk("call", "has_" + arg[0], *[x for x in arg[1:]], e)))) if arg[0] in ("skip", "step_by", "tail") else c, E.mk("call", arg[0], *arg[1:], e), E.mk("pos", e)))
        elif kind == "rev" and first:
            out.append((c, E.mk("call", "last", e), p))
        else:
            out.append((c, e, p))
    return [x for x in out if x[0] != 0]


def src_has(E, lane):
    if lane[0] == "src":
        return E.has(lane[1])
    if lane[0] == "one":
        return lane[1]
    h = src_has(E, lane[1])
    return E.bdd.and_(h, lane[3]) if lane[2] == "guard" else h


def ret_type(E, f):
    f = E.val(f)
    if f.op == "clo":
        b = E.p.bodies.get(f.a[0])
        if b:
            return b["types"][b["locals"][0][0]]
    return None


def first_of(E, cs):
    """Option of the first contribution whose predicate holds."""
    out, rest = [], 1
    for c, e, _ in cs:
        cc = E.bdd.and_(rest, c)
        if cc:
            out.append((cc, E.some(e)))
        rest = E.bdd.and_(rest, E.bdd.not_(c))
    out.append((rest, E.NONE))
    return E.cases(out)


@model("IntoIterator::into_iter", "slice::iter", "Vec::iter", "HashMap::iter", "HashSet::iter", "BTreeMap::iter", "BTreeSet::iter", "IndexMap::iter", "IndexSet::iter", "VecDeque::iter",
       "Vec::drain", "HashMap::drain", "Vec::into_iter", "VecDeque::drain", "IndexMap::drain", "HashSet::drain")
def into_iter(E, d, a):
    ty = (d.get("ga_t") or (None,))[0]
    x = E.val(a[0])
    if x.op == "it":
        return a[0] if a[0].op == "refm" else x
    return E.mk("it", *lanes_of(E, x, ty))


@model("slice::iter_mut", "Vec::iter_mut", "HashMap::iter_mut", "BTreeMap::iter_mut", "IndexMap::iter_mut", "HashMap::values_mut", "BTreeMap::values_mut", "IndexMap::values_mut")
def iter_mut(E, d, a):
    x = E.val(a[0])
    ls = lanes_of(E, x)
    if d["fn"].endswith("values_mut"):
        ls = [("st", l, "field", "1") for l in ls]
    return E.mk("it", *ls)


@model("Option::iter", "Option::into_iter", "Option::iter_mut")
def opt_iter(E, d, a):
    x = E.val(a[0])
    return E.mk("it", *lanes_of(E, x, OPTION))


@model("HashMap::keys", "BTreeMap::keys", "IndexMap::keys", "HashMap::into_keys")
def keys(E, d, a):
    return E.mk("it", *[("st", l, "field", "0") for l in lanes_of(E, E.val(a[0]))])


@model("HashMap::values", "BTreeMap::values", "IndexMap::values", "HashMap::into_values", "BTreeMap::into_values")
def values(E, d, a):
    return E.mk("it", *[("st", l, "field", "1") for l in lanes_of(E, E.val(a[0]))])


def stage(kind):
    def f(E, d, a):
        arg = a[1] if len(a) > 1 else None
        return E.mk("it", *[("st", l, kind, arg) for l in lanes_of(E, a[0])])
    return f


for _k in ("map", "filter", "filter_map", "flat_map", "inspect", "take_while", "skip_while", "map_while"):
    model("Iterator::" + _k)(stage(_k))


@model("Iterator::flatten")
def it_flatten(E, d, a):
    t = (d.get("ga_t") or ("",))[0]
    ty = None
    m = re.search(r"Item = ([^;>]*)", t)
    if m:
        ty = m.group(1)
    return E.mk("it", *[("st", l, "flatten", ty) for l in lanes_of(E, a[0])])


@model("Iterator::enumerate")
def it_enum(E, d, a):
    ls = lanes_of(E, a[0])
    if all_known(ls):
        return E.mk("it", *[("one", 1, E.tup(E.const(i), l[2])) for i, l in enumerate(ls)])
    return E.mk("it", *[("st", l, "enum", None) for l in ls])


def all_known(ls):
    return all(l[0] == "one" and l[1] == 1 for l in ls)


@model("Iterator::copied", "Iterator::cloned", "Iterator::peekable", "Iterator::fuse", "Iterator::by_ref", "ParallelIterator::map")
def it_same(E, d, a):
    if d["fn"].endswith("by_ref"):
        return a[0]
    return E.mk("it", *lanes_of(E, a[0]))


@model("Itertools::dedup", "Itertools::unique", "Itertools::sorted", "Itertools::sorted_unstable", "Itertools::sorted_by", "Itertools::sorted_by_key", "Itertools::sorted_unstable_by", "Itertools::sorted_unstable_by_key", "Itertools::unique_by", "Itertools::dedup_by")
def it_sorted(E, d, a):
    name = d["fn"].rsplit("::", 1)[-1]
    ls = lanes_of(E, a[0])
    name = {"sorted": "sort", "unique": "dedup"}.get(re.sub("_unstable", "", name), re.sub("_unstable", "", name).replace("sorted", "sort"))
    E.emit("mut", name, [outline(E, E.force(E.mk("it", *ls), 1))] + [E.force(x, 1) for x in a[1:]])
    return E.mk("it", *ls)


def rev_lane(E, l):
    if l[0] == "one":
        return l
    if l[0] == "src":
        x = l[1]
        return ("src", x.a[1] if x.op == "call" and x.a[0] == "rev" else E.call("rev", x))
    if l[2] in ("map", "filter", "filter_map", "inspect", "field", "flat_map", "flatten", "guard"):
        return (l[0], rev_lane(E, l[1]), *l[2:])
    if l[2] == "rev":
        return l[1]
    return ("st", l, "rev", None)


@model("Iterator::rev")
def it_rev(E, d, a):
    return E.mk("it", *[rev_lane(E, l) for l in lanes_of(E, a[0])[::-1]])


@model("Iterator::skip", "Iterator::take", "Iterator::step_by")
def it_skip(E, d, a):
    n = d["fn"].rsplit("::", 1)[-1]
    k = E.val(a[1])
    ls = lanes_of(E, a[0])
    if n != "step_by" and k.op == "c" and all_known(ls):
        return E.mk("it", *(ls[k.a[1]:] if n == "skip" else ls[:k.a[1]]))
    return E.mk("it", *[("st", l, "sel", (n, k)) for l in ls])


@model("Iterator::chain", "iter::chain")
def it_chain(E, d, a):
    t = (d.get("ga_t") or ("", "", ""))
    ty = t[1] if len(t) > 1 else None
    return E.mk("it", *(lanes_of(E, a[0]) + lanes_of(E, a[1], ty)))


@model("Iterator::zip", "iter::zip")
def it_zip(E, d, a):
    other = tuple(lanes_of(E, a[1]))
    return E.mk("it", *[("st", l, "zip", other) for l in lanes_of(E, a[0])])


@model("iter::once", "sources::once", "once::once", "iter::once_with")
def it_once(E, d, a):
    return E.mk("it", ("one", 1, E.val(a[0])))


@model("iter::empty", "empty::empty")
def it_empty(E, d, a):
    return E.mk("it")


def contributions(E, x, first=False):
    out = []
    for l in lanes_of(E, x):
        out.extend(pull(E, l, first))
    if E.contrib is None:
        E.contrib = out
    return out


class active:
    def __init__(self, E):
        self.E = E

    def __enter__(self):
        self.n = len(self.E.active)

    def __exit__(self, *x):
        del self.E.active[self.n:]


@model("Iterator::next", "DoubleEndedIterator::next_back", always=True)
def it_next(E, d, a):
    r = a[0]
    x = E.val(r)
    if x.op != "it" and d.get("rk") in E.p.bodies and x.op in ("adt", "with"):
        pass
    ls = lanes_of(E, x)
    if d["fn"].endswith("next_back"):
        ls = [rev_lane(E, l) for l in ls[::-1]]
    if not ls:
        return E.NONE
    if E.loops and E.loops[-1].setdefault("drv", None) is None:
        E.loops[-1]["drv"] = r
    if E.loops and E.loops[-1]["drv"] is r:
        lp = E.loops[-1]
        if lp["exit"]:
            return E.NONE
        if lp["mode"] == 2:
            if ls[1:] and r.op == "refm":
                E.write(r, E.mk("it", *ls[1:]), note=False)
                lp["more"] = True
                return ("more", 0, E.UNDEF)
            return E.NONE
        m = len(E.made)
        cs = pull(E, ls[0])
        lp["elems"] = E.made[m:]
        rest = [("one", c, e) for c, e, _ in cs[1:]] + ls[1:]
        if not cs:
            cs = [(0, E.UNDEF, None)]
        c, e, _ = cs[0]
        h = E.bdd.or_(src_has(E, ls[0]), c)
        if lp["mode"] == 0 and len(cs) <= 1:
            lp["c"] = E.bdd.and_(E.pc, h)
        if rest and r.op == "refm":
            E.write(r, E.mk("it", *rest), note=False)
            E.loops[-1]["more"] = True
            if lp["mode"] == 0 or lp["c"] is None:
                return ("more", c, E.some(e))
            E.pc = E.bdd.and_(E.pc, h)
            return ("more", c, E.some(e))
        if h != c:
            if lp["mode"] == 1:
                E.pc = E.bdd.and_(E.pc, h)
                return ("more", c, E.some(e))
            skip = E.bdd.and_(E.pc, E.bdd.and_(h, E.bdd.not_(c)))
            if skip:
                lp["backs"].append((skip, dict(E.st)))
                E.pc = E.bdd.and_(E.pc, E.bdd.not_(skip))
            return E.ite(c, E.some(e), E.NONE)
        if lp["mode"] == 1:
            return ("only", c, E.some(e))
        return E.ite(c, E.some(e), E.NONE)
    # straight-line: the first element, then the rest
    if ls[0][:2] == ("one", 1) and r.op == "refm":
        E.write(r, E.mk("it", *ls[1:]), note=False)
        return E.some(ls[0][2])
    m = len(E.made)
    with active(E):
        cs = contributions(E, E.mk("it", *ls), True)
    if E.loops:
        E.loops[-1].setdefault("elems", []).extend(E.made[m:])
    if r.op == "refm":
        E.write(r, E.mk("it", *[("st", l, "sel", ("tail",)) for l in ls]), note=False)
    return first_of(E, cs)


@model("Peekable::peek", "Peekable::peek_mut", "Peekable::next_if")
def it_peek(E, d, a):
    x = E.val(a[0])
    return E.call("peek", x)


@model("Iterator::any", "ParallelIterator::any")
def it_any(E, d, a):
    with active(E):
        r = 0
        for c, e, _ in contributions(E, a[0]):
            p = E.under(c, lambda: E.call_value(a[1], [e]))
            r = E.bdd.or_(r, E.bdd.and_(c, E.truth(p)))
    return E.boolt(r)


@model("Iterator::all")
def it_all(E, d, a):
    with active(E):
        r = 0
        for c, e, _ in contributions(E, a[0]):
            p = E.under(c, lambda: E.call_value(a[1], [e]))
            r = E.bdd.or_(r, E.bdd.and_(c, E.bdd.not_(E.truth(p))))
    return E.boolt(E.bdd.not_(r))


@model("Iterator::rfind")
def it_rfind(E, d, a):
    return it_find(E, d, [it_rev(E, d, a[:1]), a[1]])


@model("Iterator::find")
def it_find(E, d, a):
    with active(E):
        out = []
        for c, e, p in contributions(E, a[0]):
            t = E.under(c, lambda: E.call_value(a[1], [e]))
            out.append((E.bdd.and_(c, E.truth(t)), e, p))
    return first_of(E, out)


@model("Iterator::find_map")
def it_find_map(E, d, a):
    with active(E):
        out = []
        for c, e, p in contributions(E, a[0]):
            t = E.under(c, lambda: E.call_value(a[1], [e]))
            out.append((E.bdd.and_(c, E.is_some(t)), E.payload(t), p))
    return first_of(E, out)


@model("Iterator::position")
def it_position(E, d, a):
    with active(E):
        out = []
        for c, e, p in contributions(E, a[0]):
            t = E.under(c, lambda: E.call_value(a[1], [e]))
            out.append((E.bdd.and_(c, E.truth(t)), p, p))
    return first_of(E, out)


@model("Iterator::for_each", "Iterator::try_for_each")
def it_for_each(E, d, a):
    with active(E):
        bad = []
        for c, e, p in contributions(E, a[0]):
            n, pc = len(E.events), E.pc
            v = E.under(c, lambda: E.call_value(a[1], [e]))
            bad.append((E.bdd.and_(c, E.bdd.not_(E.is_ok(v))), v))
            if d["fn"].endswith("try_for_each"):
                E.gate_events(n, E.stop_of(bad[-1][0], [src_elem(p)], pc))
    if d["fn"].endswith("try_for_each"):
        tot = E.bdd.any([c for c, _ in bad])
        return E.cases(bad + [(E.bdd.not_(tot), E.ok(E.UNIT))]) if len(bad) <= 1 else NotImplemented
    return E.UNIT


def to_seq(E, x):
    x = E.val(x)
    if x.op in ("seq",):
        return x
    if x.op not in ("it", "arr", "cs"):
        return x
    if x.op == "it" and len(x.a) == 1 and x.a[0][0] == "src":
        return x.a[0][1]
    s = E.mk("seq")
    with active(E):
        for c, e, _ in contributions(E, x):
            s = E.seq_push(s, e, c)
    return s


MODELS["to_seq"] = to_seq


@model("Iterator::collect", "FromIterator::from_iter", "Itertools::collect_vec")
def it_collect(E, d, a):
    ga = d.get("ga_t") or ()
    t = ga[1] if len(ga) > 1 else ""
    if d["fn"].endswith("from_iter"):
        t = ga[0] if ga else ""
    b = strip_generics(t)
    if b in (RESULT, OPTION):
        with active(E):
            s, bad = E.mk("seq"), []
            n, pc = len(E.events), E.pc
            for c, e, p in contributions(E, a[0]):
                good = E.is_ok(e) if b == RESULT else E.is_some(e)
                bc = E.bdd.and_(c, E.bdd.not_(good))
                if bc:
                    bad.append((bc, errp(E, e) if b == RESULT else E.UNIT))
                    E.gate_events(n, E.stop_of(bc, [src_elem(p)], pc))
                if E.bdd.and_(c, good):
                    # it is only there to see if all are good
                    s = E.seq_push(s, okp(E, e) if b == RESULT else E.payload(e), c)
        rest = 1
        out = []
        for c, e in bad:
            cc = E.bdd.and_(rest, c)
            out.append((cc, E.err(e) if b == RESULT else E.NONE))
            rest = E.bdd.and_(rest, E.bdd.not_(c))
        out.append((rest, E.ok(s) if b == RESULT else E.some(s)))
        return E.cases(out)
    if b.endswith("String"):
        return E.fmt([E.norm_text(E.call("concat", to_seq(E, a[0])))])
    return to_seq(E, a[0])


@model("Iterator::count", "Iterator::sum", "Iterator::max", "Iterator::min", "Iterator::last", "Iterator::product")
def it_agg(E, d, a):
    n = d["fn"].rsplit("::", 1)[-1]
    return E.len_(to_seq(E, a[0])) if n == "count" else E.call(n, to_seq(E, a[0]))


@model("Iterator::max_by_key", "Iterator::min_by_key", "Iterator::partition", "Iterator::max_by", "Iterator::min_by")
def it_keyed(E, d, a):
    n = d["fn"].rsplit("::", 1)[-1]
    with active(E):
        ks = []
        for c, e, _ in contributions(E, a[0]):
            v = E.under(c, lambda: E.call_value(a[1], [e] if n not in ("max_by", "min_by") else [e, E.mk("k", "other", "")]))
            ks.append((c, v))
        s = E.mk("seq", *[(c, v) for c, v in ks if v is not E.UNDEF])
    return E.call(n, to_seq(E, a[0]), s)


@model("Iterator::fold", "Iterator::try_fold")
def it_fold(E, d, a):
    n = d["fn"].rsplit("::", 1)[-1]
    if n == "try_fold":
        return NotImplemented
    acc = E.val(a[1])
    with active(E):
        for c, e, _ in contributions(E, a[0]):
            old = acc
            v = E.under(c, lambda: E.call_value(a[2], [old, e]))
            acc = E.ite(c, E.val(v), old)
    return acc


@model("Itertools::join", "slice::join", "Join::join", "slice::concat")
def it_join(E, d, a):
    return E.call("join", to_seq(E, a[0]), *[E.val(x) for x in a[1:]])


@model("Iterator::nth")
def it_nth(E, d, a):
    return E.call("nth", to_seq(E, a[0]), E.val(a[1]))


@model("iter::from_fn", "iter::successors", "from_fn::from_fn", "successors::successors")
def it_from_fn(E, d, a):
    f = E.val(a[-1])
    with active(E):
        pass
    if f.op == "clo":
        E.run_unknown_closure(f)
    return E.mk("it", ("src", E.call("from_fn", *[E.val(x) for x in a[:-1]], *([x for x in f.a[1:] if isinstance(x, T) and x.op != "refm"] if f.op == "clo" else []))))


@model("array::map")
def arr_map(E, d, a):
    x = E.val(a[0])
    if x.op != "arr":
        return NotImplemented
    return E.mk("arr", *[E.call_value(a[1], [e]) for e in x.a])


@model("box_assume_init_into_vec_unsafe", "boxed::box_assume_init_into_vec_unsafe", "boxed::box_new", "alloc::boxed::box_assume_init_into_vec_unsafe")
def vec_macro(E, d, a):
    x = E.val(a[0])
    for _ in range(6):
        if x.op == "arr":
            return E.mk("seq", *[(1, e) for e in x.a])
        if x.op == "with":
            x = x.a[2]
        elif x.op == "adt" and len(x.a) > 3:
            x = x.a[-1]
        else:
            break
    st = E.st.get(("o", E.val(a[0])))
    return E.call("vec", x)


@model("intrinsics::discriminant_value", "mem::discriminant")
def discr(E, d, a):
    ga = d.get("ga_t") or ("",)
    return E.mk("disc", E.val(a[0]), base_type(ga[0]))


@model("Cmp::cmp")
def _cmp(E, d, a):
    return NotImplemented


# tracing machinery never decides anything
@model("Level::le", "LevelFilter::current", "level_filters::current")
def lvl(E, d, a):
    return E.mk("k", "level", "")


@model("Interest::is_never")
def is_never(E, d, a):
    return E.boolt(0)


@model("Interest::is_always", "Interest::is_sometimes", "__macro_support::__is_enabled", "dispatcher::has_been_set")
def is_enabled(E, d, a):
    return E.boolt(1)


def callsite(E, x):
    """(name, target, level, fields) of a tracing call site, from its static metadata."""
    b = E.p.bodies.get(x.a[0] + "::META") if x.op == "k" and x.a[1] == "callsite" else None
    return E.run_body(b, []) if b else None


@model("Metadata::new")
def meta_new(E, d, a):
    return E.tup(*[E.val(a[i]) for i in (0, 1, 2, 6)])


@model("FieldSet::new")
def fieldset_new(E, d, a):
    return E.val(a[0])


@model("Callsite::metadata", "Metadata::fields")
def cs_meta(E, d, a):
    x = E.val(a[0])
    return x if x.op == "k" and x.a[1] == "callsite" else NotImplemented


@model("FieldSet::iter")
def fs_iter(E, d, a):
    m = callsite(E, E.val(a[0]))
    if m is None or m.op != "tup" or m.a[3].op != "arr":
        return NotImplemented
    return E.mk("it", *[("one", 1, e) for e in m.a[3].a])


@model("FieldSet::value_set", "FieldSet::value_set_all")
def fs_values(E, d, a):
    x = E.val(a[1])
    if x.op != "arr":
        return NotImplemented
    # the order in which attributes are listed does not matter
    # the order in which attributes are listed does not matter
    for e in x.a:
        e = E.val(e)
        if e.op == "tup" and len(e.a) == 2 and e.a[0].op == "c":
            for c, v in E.leaves(E.payload(E.val(e.a[1]))):
                E.under(c, lambda: E.emit("sink", "attribute", [e.a[0], v]) or E.UNIT)
        else:
            return NotImplemented
    return E.mk("k", "attributes", "")


@model("Span::new")
def span_new(E, d, a):
    m = callsite(E, E.val(a[0]))
    return NotImplemented if m is None or m.op != "tup" else E.call("Span::new", E.tup(*m.a[:3]), E.val(a[1]))


def flags_contains(E, d, a):
    return E.boolt(E.contains(E.val(a[0]), E.val(a[1])))


flags_contains.always = True


def _steady(n):
    f = MODELS[n]

    def g(E, d, a):
        return E.steady(lambda: f(E, d, a))
    g.always = getattr(f, "always", False)
    MODELS[n] = g


for _n in ("any", "all", "find", "find_map", "position", "for_each", "collect", "count", "sum", "max", "min", "last", "product", "max_by_key", "min_by_key", "partition",
           "fold", "nth", "rfind", "try_for_each", "max_by", "min_by"):
    _steady("Iterator::" + _n)
for _n in ("Extend::extend", "Vec::extend", "FromIterator::from_iter", "Itertools::join", "Itertools::collect_vec", "HashSet::extend", "HashMap::extend", "IndexMap::extend", "IndexSet::extend"):
    _steady(_n)


ORDERING = "std::cmp::Ordering"


def ordering(E, n):
    return E.mk("adt", ORDERING, n, ())


@model("Ordering::then_with", "Ordering::then")
def o_then(E, d, a):
    x = E.val(a[0])
    eq = E.is_(x, ORDERING, "Equal")
    f = (lambda: E.val(a[1])) if d["fn"].endswith("::then") else (lambda: E.call_value(a[1], []))
    less = E.is_(x, ORDERING, "Less")
    return E.split(eq, f, lambda: E.cases([(less, ordering(E, "Less")), (E.bdd.not_(less), ordering(E, "Greater"))]))


@model("Ordering::reverse")
def o_reverse(E, d, a):
    x = E.val(a[0])
    return E.cases([(E.is_(x, ORDERING, n), ordering(E, m)) for n, m in (("Less", "Greater"), ("Equal", "Equal"), ("Greater", "Less"))])


@model("Ordering::is_eq", "Ordering::is_ne", "Ordering::is_lt", "Ordering::is_gt", "Ordering::is_le", "Ordering::is_ge")
def o_is(E, d, a):
    x = E.val(a[0])
    m = d["fn"].rsplit("_", 1)[-1]
    v = {"eq": "Equal", "ne": "Equal", "lt": "Less", "ge": "Less", "gt": "Greater", "le": "Greater"}[m]
    c = E.is_(x, ORDERING, v)
    return E.boolt(E.bdd.not_(c) if m in ("ne", "ge", "le") else c)
