"""Checks of poseidon-base: C01..C09."""
import json, os, shutil
from vlib import Violation, ToolError, BuildError, BUILD

SHORT = ["short", "pallas"]
LONG = ["pallas"]


def bump(x):
    """changes one number inside a logged value"""
    if isinstance(x, int) and not isinstance(x, bool):
        return x + 1 if x == 0 else x - 1
    if isinstance(x, list) and x:
        return [bump(x[0])] + x[1:]
    return x


def out_mut(kind=None, field="out"):
    def f(e):
        if kind and e.get("k") != kind:
            return None
        if field in e:
            e[field] = bump(e[field])
            return e
    return f


def field_selftest(c):
    c.model("MC_BigField", "MC_BigField_deep" if c.deep else None)


def c01(c):
    s, l = c.cargo("basedrv", SHORT, ["permute"]), c.cargo_opt("basedrv", LONG, ["permute"])
    d1, d2 = c.drive(s, "permute", "permute-short"), l and c.drive(l, "permute", "permute-long", seed=c.seed + 1)
    c.parallel([
        lambda: c.validate("Tr_Base", d1), lambda: d2 and c.validate("Tr_Base", d2),
        lambda: field_selftest(c),
        lambda: c.model("MC_Poseidon", "MC_Poseidon_deep" if c.deep else None),
        lambda: c.corrupted("Tr_Base", d1, out_mut("permute")),
    ])
    c.assumptions += ["field arithmetic of halo2curves (external crate) is taken as given; the specification recomputes every result with its own arithmetic"]


def c02(c):
    s = c.cargo("basedrv", SHORT, ["compact"])
    d = c.drive(s, "compact")
    c.parallel([
        lambda: c.validate("Tr_Base", d),
        lambda: c.model("MC_Poseidon", "MC_Poseidon_deep" if c.deep else None),
        lambda: c.corrupted("Tr_Base", d, out_mut("compact", "rc")),
        lambda: c.corrupted("Tr_Base", d, out_mut("both")),
    ])


def c03(c):
    s, l = c.cargo("basedrv", SHORT, ["fixed"]), c.cargo_opt("basedrv", LONG, ["fixed"])
    d1, d2 = c.drive(s, "fixed", "fixed-short"), l and c.drive(l, "fixed", "fixed-long", seed=c.seed + 1)
    c.parallel([
        lambda: c.validate("Tr_Base", d1), lambda: d2 and c.validate("Tr_Base", d2),
        lambda: c.model("MC_Sponge", "MC_Sponge_deep" if c.deep else None),
        lambda: c.corrupted("Tr_Base", d1, out_mut("plain")),
        lambda: c.corrupted("Tr_Base", d1, out_mut("iden3")),
    ])


def c04(c):
    s, l = c.cargo("basedrv", SHORT, ["var"]), c.cargo_opt("basedrv", LONG, ["var"])
    leg = c.cargo_opt("basedrv", ["short", "legacy"], ["var"]) if c.deep else None
    d1, d2 = c.drive(s, "var", "var-short"), l and c.drive(l, "var", "var-long", seed=c.seed + 1)
    d3 = c.drive(leg, "var", "var-legacy", seed=c.seed + 2) if leg else None
    c.parallel([
        lambda: c.validate("Tr_Base", d1), lambda: d2 and c.validate("Tr_Base", d2),
        lambda: d3 and c.validate("Tr_Base", d3),
        lambda: c.model("MC_Sponge", "MC_Sponge_deep" if c.deep else None),
        lambda: c.corrupted("Tr_Base", d1, out_mut("var")),
        lambda: c.corrupted("Tr_Base", d1, out_mut("vardef")),
    ])
    c.assumptions.append("the empty message is outside the property (hash_msg panics on it today)")


def first_results(d):
    """first.json: for each call of a history, its first result"""
    first = [{"r": 0, "at": 0} for _ in json.load(open(f"{d}/args.json"))]
    for i, line in enumerate(open(f"{d}/trace.ndjson"), 1):
        e = json.loads(line)
        if first[e["a"] - 1]["at"] == 0:
            first[e["a"] - 1] = {"r": e["r"], "at": i}
    json.dump(first, open(f"{d}/first.json", "w"))
    return d


def merge_races(c, dirs, into):
    """one trace from several fresh processes: result numbers are renumbered"""
    out = f"{c.dir}/{into}"
    os.makedirs(out, exist_ok=True)
    res, ids, lines = [], {}, []
    args = None
    for k, d in enumerate(dirs):
        a = open(f"{d}/args.json").read()
        if args not in (None, a):
            raise ToolError("argument tables differ between race runs")
        args = a
        r = json.load(open(f"{d}/results.json"))
        m = {0: 0}
        for i, x in enumerate(r, 1):
            key = json.dumps(x)
            if key not in ids:
                res.append(x)
                ids[key] = len(res)
            m[i] = ids[key]
        for line in open(f"{d}/trace.ndjson"):
            e = json.loads(line)
            e["r"] = m[e["r"]]
            e["proc"] = k
            lines.append(json.dumps(e))
    open(f"{out}/trace.ndjson", "w").write("\n".join(lines) + "\n")
    open(f"{out}/args.json", "w").write(args)
    open(f"{out}/results.json", "w").write(json.dumps(res))
    shutil.copy(f"{dirs[0]}/params.json", f"{out}/params.json")
    return first_results(out)


def c05(c):
    s, l = c.cargo("basedrv", SHORT, ["history", "race"]), c.cargo_opt("basedrv", LONG, ["history", "race"])
    d1 = first_results(c.drive(s, "history", "history-short", timeout=600))
    d2 = first_results(c.drive(l, "history", "history-long", seed=c.seed + 1, timeout=600)) if c.deep and l else None
    races = [c.drive(exe, "race", f"race-{n}-{i}", seed=c.seed * 1000 + i)
             for n, exe in (("s", s), ("l", l)) if exe for i in range(60 if c.deep else 16)]
    r1 = merge_races(c, [d for d in races if "race-s" in d], "race-short")
    r2 = l and merge_races(c, [d for d in races if "race-l" in d], "race-long")
    c.parallel([
        lambda: c.validate("Tr_History", d1),
        lambda: d2 and c.validate("Tr_History", d2),
        lambda: c.validate("Tr_History", r1), lambda: r2 and c.validate("Tr_History", r2),
        lambda: c.model("MC_Hasher", "MC_Hasher_deep" if c.deep else None, timeout=840 if c.deep else 600),
        lambda: c.negative("MC_Hasher", "MC_Hasher_neg"),
        lambda: c.corrupted("Tr_History", r1, lambda e: dict(e, r=e["r"] % 5 + 1 if e["r"] % 5 + 1 != e["r"] else e["r"] + 1)),
    ])


def c06(c):
    s = c.cargo("basedrv", SHORT, ["separate"])
    d = c.drive(s, "separate")
    leg = c.cargo_opt("basedrv", SHORT + ["legacy"], ["separate"])
    dirs = [d] + ([c.drive(leg, "separate", "separate-legacy", seed=c.seed + 1)] if leg else [])
    c.parallel([
        *[lambda x=x: c.validate("Tr_Separate", x, timeout=840) for x in dirs],
        lambda: c.model("MC_Separation", "MC_Separation_deep" if c.deep else None),
    ])
    c.corrupted("Tr_Separate", d, lambda e: dict(e, d=e["d"] - 1) if e["d"] > 3 else None)
    c.assumptions.append("real Poseidon has no collision within the families tried")


def c07(c):
    s = c.cargo("basedrv", SHORT, ["gen"])
    d = c.drive(s, "gen")
    c.parallel([
        lambda: c.validate("Tr_Base", d, timeout=840),
        lambda: c.model("MC_Grain", "MC_Grain_deep" if c.deep else None),
        lambda: c.corrupted("Tr_Base", d, lambda e: out_mut("gen", "mds")(e) if e["ok"] else None),
    ])


def c08(c):
    s, l = c.cargo("basedrv", SHORT, ["tables"]), c.cargo_opt("basedrv", LONG, ["tables"])
    n = 12 if c.deep else 4
    dirs = [c.drive(exe, "tables", f"tables-{k}-{i}", seed=c.seed + i) for k, exe in (("s", s), ("l", l)) if exe for i in range(n)]
    jobs = [lambda d=d: c.validate("Tr_Base", d) for d in dirs]
    jobs += [lambda: c.model("MC_Published"),
             lambda: c.corrupted("Tr_Base", dirs[0], out_mut("table", "mds"))]
    c.parallel(jobs)


def c09(c):
    dirs = []
    for short in (["short"], []):
        for leg in (["legacy"], []):
            for pal in (["pallas"], []):
                f = short + leg + pal
                try:
                    exe = c.cargo("cfgdrv", f)
                except BuildError as e:
                    if f == ["short"] or "poseidon-base/src" not in str(e):
                        raise
                    raise Violation(f"configuration [{','.join(f)}] does not compile, so it gives no digests", {"cargo": str(e)})
                # the same calls (same seed) in every configuration
                dirs.append(c.drive(exe, "config", "config-" + ("-".join(f) or "none")))
    # one configuration is validated completely, the others where their calls or results are not literally the same
    jobs, seen, ref = [], set(), None
    for d in dirs:
        lines = open(f"{d}/trace.ndjson").read().splitlines()
        name = os.path.basename(d)
        new = [x for x in lines if x not in seen]
        seen.update(new)
        out = f"{c.dir}/new-{name}"
        os.makedirs(out, exist_ok=True)
        shutil.copy(f"{d}/params.json", out)
        with open(f"{out}/trace.ndjson", "w") as w:
            w.writelines(x + "\n" for x in new)
        c.notes.append(f"{name}: {len(lines)} calls, {len(new)} of them not literally the same in an earlier configuration")
        if new:
            jobs.append(lambda out=out: c.validate("Tr_Base", out))
        # pairwise: the digests of calls with an explicit capacity are literally the same in all configurations
        ev = [json.loads(x) for x in lines]
        ev = [json.dumps(e, sort_keys=True) for e in ev if e["k"] != "vardef" and e["pr"] == 1001]
        if ref is None:
            ref = (name, ev)
        elif ev != ref[1]:
            bad = next(((a, b) for a, b in zip(ref[1], ev) if a != b), (len(ref[1]), len(ev)))
            raise Violation(f"configurations {ref[0]} and {name} disagree", {"calls": bad})
    jobs.append(lambda: c.corrupted("Tr_Base", f"{c.dir}/config-none", out_mut("var")))
    c.parallel(jobs)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09}
