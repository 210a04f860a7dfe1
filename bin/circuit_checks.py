"""Checks of poseidon-circuit: C10..C19."""
import json, os, random, re, shutil, time
import plan
from vlib import Violation, ToolError, BUILD, SPEC, VERIF, sh, known_findings

PAR = ["short", "par", "pallas"]
SERIAL = ["short", "pallas"]
LONG = ["par", "pallas"]
LEGACY = PAR + ["legacy"]

NOTES = {
 "C10": "call histories enumerated by TLC and random ones run on the real builder, each step a step of Builder.tla; vector representation checked against it",
 "C11": "recorded circuits: every gate, lookup and copy evaluated by TLC on the assigned witness; exposed rows equal the specification's table",
 "C12": "TLC searches all witnesses of recorded circuits over small fields for one that exposes a false row",
 "C13": "pairs of serial and parallel loads of the real code under 1..64 workers; chunking design model-checked",
 "C14": "loads of many contents as operations on a write-once memory keyed by the reservation",
 "C15": "recorded permutation circuits: every gate and copy evaluated by TLC, outputs equal the specification's permutation",
 "C16": "TLC searches all witnesses of recorded permutation circuits over small fields for a false output",
 "C17": "recorded sponge gadgets evaluated by TLC (digest cell = specification's hash) and searched for a false digest",
 "C18": "loads with declared digests accepted iff the specification's sponge gives every declared digest",
 "C19": "advertised budgets against rows occupied in recorded circuits",
 "C20": "syntheses without a witness, as for key generation, and with many witnesses: TLC checks that each shape has one fixed part",
}


def corrupt_cell(e):
    """another value in one witness cell the circuit exposes"""
    if e["refused"] or len(e["vals"]) < 3:
        return None
    outs = e["prop"].get("outs")
    col, row = (0, 1) if e["prop"]["k"] == "table" else (outs[0][0] if e["prop"]["k"] == "perm" else outs[0])
    v = e["adv"][col][row]
    e["adv"][col][row] = v % len(e["vals"]) + 1
    return e


def left(c):
    """seconds until searches have to stop (a quick check has 900 s in all)"""
    return 10 ** 6 if c.deep else 760 - (time.time() - c.t0)


def search(c, d, name, budget, kinds=("narrow", "wide")):
    """looks for a witness that claims something false: first among few values per free cell, then among all;
    local: larger circuits on given inputs, with one neighbourhood of rows left open after the other"""
    src = f"{d}/trace.ndjson"
    for kind in kinds:
        out = f"{c.dir}/{name}-{kind}"
        os.makedirs(out, exist_ok=True)
        shutil.copy(f"{d}/params.json", out)
        n, skipped = plan.plan_file(src, f"{out}/trace.ndjson", narrow=kind == "narrow", local=kind == "local")
        if skipped:
            c.notes.append(f"{name}: {skipped} circuits not searched, synthesis was refused")
        if not n:
            return
        limit = min(budget, 180) if kind == "narrow" else budget
        if left(c) < 60:
            c.notes.append(f"{name}: no time left for the {kind} search")
            return
        r = c.tlc("CircuitSearch", trace=out, timeout=min(limit, left(c)), heap="10g", what=n,
                  on_timeout=lambda o: {"ok": False, "timeout": True, "out": o})
        if r.get("timeout") and left(c) > 30:
            # too many partial witnesses: random ones instead
            c.notes.append(f"{name}: exhaustive {kind} search stopped at its time limit")
            r = c.tlc("CircuitSearch", "CircuitSearch_sim", trace=out, timeout=min(100, left(c)), heap="10g", what=n,
                      args=["-simulate", "num=1000000000"], on_timeout=lambda o: {"ok": True, "states": 0, "out": o})
        elif r.get("timeout"):
            c.notes.append(f"{name}: {kind} search stopped at its time limit")
            return
        if r["ok"]:
            c.notes.append(f"{name}: {kind} search of {n} circuits, {r['states']} partial witnesses, none claims anything false")
            continue
        if "Genuine is violated" in r["out"]:
            k = r.get("rejected")
            ev = None
            if k:
                ev = json.loads(open(f"{out}/trace.ndjson").readlines()[k - 1])["prop"]
            raise Violation("a witness satisfies every constraint and exposes a false claim",
                            {"circuit": ev, "trace": out, "tlc": r["out"][-3000:]})
        if "Inhabited" in r["out"]:
            # the witness assigned by the code itself does not satisfy the circuit: completeness, not soundness
            h = c.tlc("Tr_Circuit", trace=d, count=False)
            if not h["ok"]:
                c.notes.append(f"{name}: the honest witness itself is rejected; nothing to search")
                return
        raise ToolError(f"search of {name} failed\n{r['out'][-3000:]}")


def search_selftest(c, d, name, local=False):
    """with constraints taken away (local: in the last part of the last circuit) a false claim must be found"""
    out = f"{c.dir}/{name}-bare"
    os.makedirs(out, exist_ok=True)
    shutil.copy(f"{d}/params.json", out)
    evs = [e for e in map(json.loads, open(f"{d}/trace.ndjson")) if not e["refused"]]
    if not evs:
        return
    ev = evs[-1 if local else 0]
    if local and "oracle" in ev["prop"]:
        # cut one output cell of the last permutation whose digest is claimed off the table
        col = ev["prop"]["oracle"]["out"][0]
        row = sorted({x[2] for t in ev["copies"] for x in (t[:3], t[3:]) if x[:2] == [0, col]})[-2]
        ev["copies"] = [x for x in ev["copies"] if [0, col, row] not in (x[:3], x[3:])]
    elif local:
        rows = sorted({r for s in ev["sel"] for r, x in enumerate(s) if x})
        for s in ev["sel"]:
            for r in rows[2 * len(rows) // 3:]:
                s[r] = 0
    elif "oracle" in ev["prop"]:
        # cut one output cell of the first permutation off the table
        cell = [0, ev["prop"]["oracle"]["out"][0], 0]
        ev["copies"] = [x for x in ev["copies"] if cell not in (x[:3], x[3:])]
    else:
        ev["polys"], ev["lks"] = [], []
    with open(f"{out}/bare.ndjson", "w") as f:
        f.write(json.dumps(ev) + "\n")
    plan.plan_file(f"{out}/bare.ndjson", f"{out}/trace.ndjson", narrow=True, local=local)
    r = c.tlc("CircuitSearch", trace=out, expect="violation", count=False, timeout=100,
              on_timeout=lambda o: {"timeout": True, "out": o})
    if r.get("timeout"):
        c.notes.append(f"{name}: self-test of the search ran out of time")
        return
    if "Genuine is violated" not in r["out"]:
        raise ToolError("self-test of the search\n" + r["out"][-2000:])
    c.notes.append(f"{name}: with constraints removed, the search finds a false claim")


def head(c, d, n, name):
    """a trace directory with the first n events of another"""
    out = f"{c.dir}/{name}"
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(d):
        if f == "trace.ndjson":
            with open(f"{d}/{f}") as a, open(f"{out}/{f}", "w") as b:
                for _, line in zip(range(n), a):
                    b.write(line)
        else:
            shutil.copy(f"{d}/{f}", out)
    return out


def honest(c, dirs):
    jobs = [lambda d=d: c.validate("Tr_Circuit", d) for d in dirs]
    jobs.append(lambda: c.corrupted("Tr_Circuit", dirs[0], corrupt_cell, near=2))
    jobs.append(lambda: c.model("MC_CircuitEval", trace=head(c, dirs[0], 12 if c.deep else 3, "evalcheck")))
    c.parallel(jobs)


def c10(c):
    exe = c.cargo("circdrv", PAR, ["builder"])
    r = c.model("MC_Builder", "MC_Builder_deep" if c.deep else None)
    hist = re.findall(r'<<"history", <<([0-9, ]+)>>>>', r["out"])
    if len(hist) < 1000:
        raise ToolError("TLC printed no histories")
    f = f"{c.dir}/histories"
    open(f, "w").write("\n".join(h.replace(",", "") for h in hist) + "\n")
    d = c.drive(exe, "builder", extra=[f])
    c.notes.append(f"{len(hist)} call histories enumerated by TLC replayed into the real builder")

    def cut(e):
        if e["op"] in ("fixed", "stream") and e["ok"] and len(e["c"]) > 1:
            e["ck"][0], e["ck"][-1] = e["ck"][-1], e["ck"][0]
            return e
    c.parallel([
        lambda: c.validate("Tr_Builder", d),
        lambda: c.negative("MC_Builder", "MC_Builder_neg"),
        lambda: c.corrupted("Tr_Builder", d, cut),
    ])


def c11(c):
    exe = c.cargo("circdrv", PAR, ["tables"])
    dirs = [c.drive(exe, "tables", f"tables-{i}", seed=c.seed + i) for i in range(2 if c.deep else 1)]
    ser = c.cargo_opt("circdrv", SERIAL, ["tables"]) if c.deep else None
    if ser:
        dirs.append(c.drive(ser, "tables", "tables-serial", seed=c.seed + 7))
    leg = c.cargo_opt("circdrv", LEGACY, ["tables"])
    if leg:
        dirs.append(c.drive(leg, "tables", "tables-legacy", seed=c.seed + 8))
    honest(c, dirs)
    table_model(c)


def table_model(c):
    c.model("MC_HashTable")
    if c.deep:
        c.model("MC_HashTable", "MC_HashTable_deep")


def c12(c):
    exe = c.cargo("circdrv", PAR, ["tsearch"])
    d = c.drive(exe, "tsearch")
    search(c, d, "tables", 3000 if c.deep else 240)
    loc = local_search(c, exe, "tlocal", "larger tables", 3)
    leg = c.cargo_opt("circdrv", LEGACY, ["tsearch"])
    if leg:
        search(c, c.drive(leg, "tsearch", "tsearch-legacy"), "legacy tables", 3000 if c.deep else 120,
               kinds=("narrow", "wide") if c.deep else ["narrow"])
        local_search(c, leg, "tlocal", "larger legacy tables", 2)
    c.parallel([lambda: search_selftest(c, d, "tables"),
                lambda: search_selftest(c, loc, "larger tables", local=True),
                lambda: table_model(c)])
    c.assumptions += [
        "circuits are searched over fields of 7 and 13 (deep: 17) elements with words and domains from a few values; "
        "gates are the recorded ones, generic in the field",
        "the permutation sub-circuit is replaced by an ideal one whose cells obey the permutation (C16 decides the real ones)"]


FAKE = [1, 2, 3, 5, 8, 13, 64]


def fakecpus():
    so = f"{BUILD}/fakecpus.so"
    rc, o = sh(["gcc", "-shared", "-fPIC", "-O1", "-o", so, f"{VERIF}/harness/fakecpus/fakecpus.c"], 60)
    if rc != 0:
        raise ToolError("gcc: " + o)
    return so


def local_search(c, exe, mode, name, cpus):
    """cpus: workers the code is told of, so that parallel loads split what they are given"""
    d = c.drive(exe, mode, name.replace(" ", "-"), env={"LD_PRELOAD": fakecpus(), "FAKE_CPUS": str(cpus)})
    search(c, d, name, 3000 if c.deep else 150, kinds=["local"])
    return d


def c13(c):
    exe = c.cargo("circdrv", PAR, ["parallel"])
    so = fakecpus()
    dirs = [c.drive(exe, "parallel", f"parallel-{n}", seed=c.seed * 100 + n, env={"LD_PRELOAD": so, "FAKE_CPUS": str(n)})
            for n in FAKE]
    seen = {json.loads(open(f"{d}/trace.ndjson").readline())["cpus"] for d in dirs}
    c.notes.append(f"worker counts seen by the code: {sorted(seen)}")
    for s in range(3 if c.deep else 0):
        dirs += [c.drive(exe, "parallel", f"parallel-{s}-{n}", seed=c.seed * 1000 + 100 * s + n,
                         env={"LD_PRELOAD": so, "FAKE_CPUS": str(n)}) for n in (2, 4, 7, 16)]

    def other(e):
        if e["parallel"]["ok"]:
            e["parallel"]["advice"] = e["parallel"]["advice"].replace(";", ":", 1)
            return e
    c.parallel([lambda d=d: c.validate("Tr_Pair", d) for d in dirs] + [
        lambda: c.model("ParSynth", "ParSynth_deep" if c.deep else None),
        lambda: c.negative("ParSynth", "ParSynth_neg"),
        lambda: c.corrupted("Tr_Pair", dirs[0], other)])
    c.assumptions.append("halo2_proofs is replaced by a recording stand-in: its parallel layouter runs the two passes of every region")


def joined(c, dirs, into):
    out = f"{c.dir}/{into}"
    os.makedirs(out, exist_ok=True)
    with open(f"{out}/trace.ndjson", "w") as f:
        for d in dirs:
            f.write(open(f"{d}/trace.ndjson").read())
    return out


def c14(c):
    exe = c.cargo("circdrv", PAR, ["fixedpart"])
    ser = c.cargo_opt("circdrv", SERIAL, ["fixedpart"]) if c.deep else None
    so = fakecpus()
    dirs = [c.drive(exe, "fixedpart", f"fixed-{n}", seed=c.seed * 10 + n, env={"LD_PRELOAD": so, "FAKE_CPUS": str(n)})
            for n in ((1, 3, 64) if c.deep else (1, 5))]
    if ser:
        dirs.append(c.drive(ser, "fixedpart", "fixed-serial", seed=c.seed + 5))
    d = joined(c, dirs, "fixedpart")

    def other(e):
        e["side"]["sel"] = e["side"]["sel"] + ";0,1"
        return e
    c.parallel([lambda: c.validate("Tr_Fixed", d), lambda: c.corrupted("Tr_Fixed", d, other)])


def c20(c):
    exe = c.cargo("circdrv", PAR, ["keys"])
    so = fakecpus()
    dirs = [c.drive(exe, "keys", f"keys-{n}", seed=c.seed * 10 + n, env={"LD_PRELOAD": so, "FAKE_CPUS": str(n)})
            for n in ((1, 2, 5, 64) if c.deep else (1, 3))]
    d = joined(c, dirs, "keys")

    def other(e):
        if e["mode"] == "keygen":
            e["side"]["copies"] = e["side"]["copies"] + ";((0, 0, 0)(0, 0, 1))"
            return e

    def refused(e):
        if e["mode"] != "witness":
            e["side"]["ok"] = False
            return e
    c.parallel([lambda: c.validate("Tr_Fixed", d),
                lambda: [c.corrupted("Tr_Fixed", d, m) for m in (other, refused)]])


def c15(c):
    exe = c.cargo("circdrv", PAR, ["perms"])
    honest(c, [c.drive(exe, "perms", f"perms-{i}", seed=c.seed + i) for i in range(2 if c.deep else 1)])


def c16(c):
    exe = c.cargo("circdrv", PAR, ["psearch"])
    d = c.drive(exe, "psearch")
    search(c, d, "permutations", 3000 if c.deep else 240)
    search_selftest(c, d, "permutations")
    search_selftest(c, local_search(c, exe, "plocal", "more permutations", 2), "more permutations", local=True)
    c.assumptions.append("searched over small prime fields; gates are the recorded ones, generic in the field")


def c17(c):
    exe = c.cargo("circdrv", PAR, ["gadget", "gsearch"])
    honest(c, [c.drive(exe, "gadget", f"gadget-{i}", seed=c.seed + i) for i in range(2 if c.deep else 1)])
    d = c.drive(exe, "gsearch")
    search(c, d, "gadgets", 3000 if c.deep else 240)
    search_selftest(c, d, "gadgets")
    search_selftest(c, local_search(c, exe, "glocal", "longer messages", 2), "longer messages", local=True)


def c18(c):
    exe = c.cargo("circdrv", PAR, ["checks"])
    so = fakecpus()
    dirs = [c.drive(exe, "checks", f"checks-{n}", seed=c.seed * 10 + n, env={"LD_PRELOAD": so, "FAKE_CPUS": str(n)})
            for n in ((1, 2, 3, 8, 64) if c.deep else (1, 4))]
    leg = c.cargo_opt("circdrv", LEGACY, ["checks"])
    if leg:
        dirs.append(c.drive(leg, "checks", "checks-legacy", seed=c.seed + 8))

    def flip(e):
        e["ok"] = not e["ok"]
        return e
    c.parallel([lambda d=d: c.validate("Tr_Check", d) for d in dirs] + [lambda: c.corrupted("Tr_Check", dirs[0], flip)])


def c19(c):
    found = known_findings("C19")
    f = f"{c.dir}/findings.json"
    json.dump([k["match"] for k in found], open(f, "w"))
    dirs = []
    for feats in (PAR, LONG):
        exe = c.cargo("circdrv", feats, ["budget"]) if feats == PAR else c.cargo_opt("circdrv", feats, ["budget"])
        if not exe:
            continue
        d = c.drive(exe, "budget", "budget-" + "-".join(feats))
        dirs.append(d)
        ev = [json.loads(x) for x in open(f"{d}/trace.ndjson")]
        for k in found:
            m = k["match"]
            if any(e["ok"] and e["chip"] == m["chip"] and e["block"] == m["block"] and e["used"] == e["calcs"] * m["rows"]
                   and e["used"] > e["calcs"] * e["block"] + 1 for e in ev):
                c.findings.append(k["what"])

    # rows of single permutations in both sub-circuits against what poseidon-base advertises without poseidon-circuit
    adv = f"{c.dir}/advert"
    os.makedirs(adv)
    with open(f"{adv}/trace.ndjson", "w") as w:
        w.write(open(f"{c.drive(c.cargo('circdrv', PAR, ['budget']), 'rows')}/trace.ndjson").read())
        for n, feats in (("short", ["short"]), ("long", [])):
            exe = c.cargo_opt("basedrv", feats, ["advert"])
            w.write(open(f"{c.drive(exe, 'advert', 'advert-' + n)}/trace.ndjson").read() if exe else "")
    dirs.append(adv)

    def less(e):
        if e["k"] == "budget" and e["ok"]:
            e["min"] += 1
            return e

    def fewer(e):
        if e["k"] == "advert" and e["field"] == "bn254":
            e["block"] -= 2
            return e
    env = {"FINDINGS": f}
    c.parallel([lambda d=d: c.validate("Tr_Budget", d, env=env) for d in dirs] +
               [lambda: c.corrupted("Tr_Budget", dirs[0], less, env=env), lambda: c.corrupted("Tr_Budget", adv, fewer, near=9999, env=env)])


CHECKS = {"C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20}
