"""Builds the facts (resolved MIR per crate) from /repo's current working tree and loads them."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
WS = os.path.join(BUILD, "ws")
FACTS = os.path.join(BUILD, "facts")
TARGET = os.path.join(BUILD, "target")

# Workspace members that need git dependencies which cannot be fetched offline (same list as the
# build recipe of this sandbox).
LEFT_OUT = {
    "cli", "gateway", "crates/engine", "crates/engine/error", "crates/engine/operation",
    "crates/engine/query-solver", "crates/engine/schema", "crates/federated-server",
    "crates/federation-audit-tests", "crates/integration-tests", "crates/mcp",
    "crates/operation-normalizer", "crates/runtime", "crates/runtime-local", "crates/wasi-component-loader",
}
# crate name -> cargo package
PACKAGES = {
    "graphql_composition": "graphql-composition",
    "graphql_schema_validation": "graphql-schema-validation",
    "graphql_schema_diff": "graphql-schema-diff",
    "graphql_lint": "graphql-lint",
    "gqlint.bin": "gqlint",
    "graphql_wrapping_types": "graphql-wrapping-types",
    "operation_checks": "operation-checks",
    "rolling_logger": "rolling-logger",
    "serde_dynamic_string": "serde-dynamic-string",
    "event_queue": "event-queue",
    "grafbase_extension": "grafbase-extension",
    "extension_catalog": "extension-catalog",
    "gateway_config": "gateway-config",
    "grafbase_telemetry": "grafbase-telemetry",
    "graph_ref": "graph-ref",
    "engine_field_selection_map": "engine-field-selection-map",
    "engine_id_newtypes": "engine-id-newtypes",
    "engine_walker": "engine-walker",
    "grafbase_sdk": "grafbase-sdk",
    "grafbase_hooks": "grafbase-hooks",
    "grafbase_graphql_introspection": "grafbase-graphql-introspection",
}


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True, env=base_env()).strip()


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "VF_"))}
    e.update(HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["RUSTUP_AUTO_INSTALL"] = "0"
    return e


def put(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return False
    except FileNotFoundError:
        pass
    with open(path, "w") as f:
        f.write(text)
    return True


def prepare_ws():
    os.makedirs(WS, exist_ok=True)
    os.makedirs(FACTS, exist_ok=True)
    with open(f"{REPO}/Cargo.toml") as f:
        manifest = f.read()
    with open(f"{REPO}/Cargo.lock") as f:
        lock = f.read()
    m = re.search(r"^members = \[(.*?)^\]", manifest, re.M | re.S)
    if not m:
        raise ToolError("no workspace members in Cargo.toml")
    members = []
    for pat in re.findall(r'"([^"]+)"', m.group(1)):
        for p in sorted(glob.glob(f"{REPO}/{pat}/Cargo.toml")):
            member = os.path.relpath(os.path.dirname(p), REPO)
            if member not in LEFT_OUT and member not in members:
                members.append(member)
    listed = "".join(f'    "{x}",\n' for x in members)
    manifest = manifest[: m.start()] + f"members = [\n{listed}]" + manifest[m.end():]
    manifest = re.sub(r"^multipart-stream = \{ git = .*\n", "", manifest, flags=re.M)
    changed = put(f"{WS}/Cargo.toml", manifest)
    if put(f"{WS}/.repo-Cargo.lock", lock) or changed or not os.path.exists(f"{WS}/Cargo.lock"):
        # Prefer the pruned lock of this sandbox's own build when it derives from the same file.
        src = "/opt/vp/ws/Cargo.lock"
        try:
            same = open("/opt/vp/ws/.repo-Cargo.lock").read() == lock
        except OSError:
            same = False
        put(f"{WS}/Cargo.lock", open(src).read() if same and os.path.exists(src) else lock)
    link = f"{WS}/crates"
    if not os.path.islink(link) or os.readlink(link) != f"{REPO}/crates":
        if os.path.islink(link):
            os.unlink(link)
        os.symlink(f"{REPO}/crates", link)


def build_driver():
    src = f"{VERIF}/driver/driver.rs"
    out = f"{BUILD}/driver"
    stamp = f"{BUILD}/driver.stamp"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    log("building the facts driver")
    r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2024", src, "-o", out + ".new"], env=base_env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("driver build failed:\n" + r.stderr[-4000:])
    os.rename(out + ".new", out)
    shutil.rmtree(FACTS, ignore_errors=True)
    os.makedirs(FACTS, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(h)


def cargo_check():
    e = base_env()
    sr = sysroot()
    e.update(
        RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0",
        CARGO_TERM_COLOR="never", LD_LIBRARY_PATH=sr + "/lib", RUSTC_WORKSPACE_WRAPPER=f"{BUILD}/driver",
        VF_FACTS=FACTS, CARGO_PROFILE_DEV_DEBUG="line-tables-only",
    )
    cmd = ["cargo", "check", "-Zchecksum-freshness", "--manifest-path", f"{WS}/Cargo.toml", "--offline", "--lib", "--bin", "gqlint", "--features", "grafbase-sdk/jq-selection"]
    for p in sorted(PACKAGES.values()):
        cmd += ["-p", p]
    r = subprocess.run(cmd, cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(f"{BUILD}/check.log", "w") as f:
        f.write(r.stdout)
    if r.returncode != 0:
        errs = [l[:500] for l in r.stdout.splitlines() if l.startswith("error") or l.lstrip().startswith("-->")]
        raise ToolError("cargo check of /repo failed:\n" + "\n".join(errs[-40:]))


def digests_ok(d):
    """The facts describe exactly the sources that are in /repo now."""
    bad = []
    for f, h in d["files"].items():
        p = f if os.path.isabs(f) else os.path.join(WS, f)
        alg, hx = h.split("=", 1)
        try:
            data = open(p, "rb").read()
        except OSError:
            bad.append(f)
            continue
        if hashlib.new(alg, data).hexdigest() != hx:
            bad.append(f)
    return bad


def load(crates):
    """Facts of `crates`, guaranteed to describe /repo's current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        prepare_ws()
        build_driver()
        for attempt in (0, 1):
            cargo_check()
            out, stale = {}, []
            for c in crates:
                p = f"{FACTS}/{c}.json"
                try:
                    d = json.load(open(p))
                except (OSError, ValueError):
                    stale.append(c)
                    continue
                if not d["files"] or digests_ok(d):
                    stale.append(c)
                    continue
                out[c] = d
            if not stale:
                return out
            log("facts missing or stale, forcing:", stale)
            for c in stale:
                try:
                    os.unlink(f"{FACTS}/{c}.json")
                except OSError:
                    pass
                for g in glob.glob(f"{TARGET}/debug/build/{PACKAGES[c]}") + glob.glob(f"{TARGET}/debug/.fingerprint/{PACKAGES[c]}-*"):
                    shutil.rmtree(g, ignore_errors=True)
        raise ToolError(f"no facts for {stale}")


if __name__ == "__main__":
    t = time.time()
    try:
        d = load(list(PACKAGES))
    except ToolError as ex:
        log(str(ex))
        sys.exit(2)
    log(f"facts of {len(d)} crates, {sum(len(x['bodies']) for x in d.values())} bodies, {time.time()-t:.1f}s")
