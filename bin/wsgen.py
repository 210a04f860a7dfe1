"""Writes /verif/build/ws: a cargo workspace of /repo's crates (symlinks) and the harness crates.

The root manifest is derived from /repo/Cargo.toml each time.  halo2_proofs (git) and the few crates that are not
in the offline registry are replaced by the path crates under /verif/harness."""
import json, os, shutil, tomllib

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = f"{VERIF}/harness"


def inline(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {inline(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(map(inline, v)) + "]"
    return json.dumps(v, ensure_ascii=False)


def generate(build):
    ws_dir = f"{build}/ws"
    os.makedirs(ws_dir, exist_ok=True)
    with open(f"{REPO}/Cargo.toml", "rb") as f:
        root = tomllib.load(f)
    ws = root["workspace"]
    deps = ws.setdefault("dependencies", {})
    harness = sorted(d for d in os.listdir(H) if os.path.exists(f"{H}/{d}/Cargo.toml"))
    stubs = sorted(os.listdir(f"{H}/stubs")) if os.path.isdir(f"{H}/stubs") else []
    members = [m for m in ws["members"] if m in ("poseidon-base", "poseidon-circuit")]
    if "halo2_proofs" not in harness:
        members = [m for m in members if m != "poseidon-circuit"]
        harness = [h for h in harness if h not in ("circdrv",)]
        deps.pop("halo2_proofs", None)
    else:
        deps["halo2_proofs"] = {"path": "halo2_proofs"}
    for s in stubs:
        deps[s] = {"path": f"stubs/{s}"}
    ws["members"] = members + harness + [f"stubs/{s}" for s in stubs]
    root.pop("patch", None)
    root["profile"] = {
        "dev": {"opt-level": 1, "debug": False, "debug-assertions": True, "overflow-checks": True,
                "package": {"*": {"opt-level": 3, "debug-assertions": False}}},
    }
    for name in os.listdir(ws_dir):
        if os.path.islink(f"{ws_dir}/{name}"):
            os.unlink(f"{ws_dir}/{name}")
    for m in members:
        os.symlink(f"{REPO}/{m}", f"{ws_dir}/{m}")
    for h in harness:
        os.symlink(f"{H}/{h}", f"{ws_dir}/{h}")
    if stubs:
        os.symlink(f"{H}/stubs", f"{ws_dir}/stubs")
    text = "".join(f"{k} = {inline(v)}\n" for k, v in root.items())
    path = f"{ws_dir}/Cargo.toml"
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)
    shutil.copyfile(f"{H}/Cargo.lock", f"{ws_dir}/Cargo.lock")
    return ws_dir


if __name__ == "__main__":
    print(generate(f"{VERIF}/build"))
