"""Search plans for CircuitSearch.tla.

A plan says in which order the witness cells of a recorded circuit are given values and when each constraint is
looked at.  It is only an ordering: CircuitSearch evaluates the recorded constraints themselves and checks that the
plan leaves none out (PlanComplete).

A local plan keeps what the circuit is given at the recorded values: the inputs of permutations, the words of a message;
for a table words and domains, and in neighbourhood w of wins also the flags and head marks of all rows but w and w+1."""
import json

BIG = 10 ** 9


class Plan:
    def __init__(self, c, words=None, doms=None, limit=60, narrow=False, local=False):
        assert not c["f"]["big"]
        self.c, self.p, self.limit = c, c["f"]["p"], limit
        self.words, self.doms, self.narrow, self.local = words, doms, narrow, local
        self.vals = c["vals"]
        self.n, self.usable = c["n"], c["usable"]
        self.classes()
        self.supports()

    # ---- copy classes ---------------------------------------------------------------------------
    def classes(self):
        c = self.c
        par = {}

        def find(x):
            par.setdefault(x, x)
            while par[x] != x:
                par[x] = par[par[x]]
                x = par[x]
            return x

        for k1, c1, r1, k2, c2, r2 in c["copies"]:
            a, b = find((k1, c1, r1)), find((k2, c2, r2))
            if a != b:
                par[a] = b
        pin = {}
        for x in list(par):
            if x[0] == 1:
                v = c["fixed"][x[1]][x[2]]
                # two different fixed values tied together: no witness at all; the copies check in the spec says so
                pin.setdefault(find(x), v)
        self.find, self.pin = find, pin

    def cell(self, col, row):
        """('v', index of a value) or ('q', class)"""
        r = self.find((0, col, row % self.n))
        return ("v", self.pin[r]) if r in self.pin else ("q", r)

    # ---- which classes a constraint depends on ----------------------------------------------------
    def fold(self, e, row):
        """what selectors and fixed cells determine, as CircuitEval!Fixd"""
        key = (e, row)
        if key in self.memo:
            return self.memo[key]
        c, p = self.c, self.p
        nd = c["nodes"][e - 1]
        t = nd["t"]
        if t == "c":
            r = self.vals[nd["v"] - 1]
        elif t == "s":
            r = c["sel"][nd["c"]][row]
        elif t == "f":
            r = self.vals[c["fixed"][nd["c"]][(row + nd["r"]) % self.n] - 1]
        elif t == "a":
            r = None
        elif t in "nk":
            v = self.fold(nd["a"], row)
            m = -1 if t == "n" else self.vals[nd["v"] - 1]
            r = 0 if m % p == 0 else None if v is None else v * m % p
        else:
            v, w = self.fold(nd["a"], row), self.fold(nd["b"], row)
            if t == "*" and (v == 0 or w == 0):
                r = 0
            elif v is None or w is None:
                r = None
            else:
                r = (v + w if t == "+" else v * w) % p
        self.memo[key] = r
        return r

    def vanishes(self, e, row):
        return self.fold(e, row) == 0

    def cells_of(self, e, row, out):
        """the witness cells whose value is read when e is evaluated there"""
        if self.c["nodes"][e - 1]["t"] in "*k" and self.vanishes(e, row):
            return
        nd = self.c["nodes"][e - 1]
        t = nd["t"]
        if t == "a":
            k, v = self.cell(nd["c"], row + nd["r"])
            if k == "q":
                out.add(v)
        elif t in "nk":
            self.cells_of(nd["a"], row, out)
        elif t in "+*":
            self.cells_of(nd["a"], row, out)
            self.cells_of(nd["b"], row, out)

    def supports(self):
        self.memo = {}
        self.cons = []  # (step record, classes)
        for row in range(self.usable):
            for q in self.c["polys"]:
                if not self.vanishes(q["e"], row):
                    s = set()
                    self.cells_of(q["e"], row, s)
                    self.cons.append(({"k": "c", "e": q["e"], "r": row}, frozenset(s)))
            for i, l in enumerate(self.c["lks"]):
                s = set()
                for e in l["in"]:
                    self.cells_of(e, row, s)
                self.cons.append(({"k": "l", "l": i + 1, "r": row}, frozenset(s)))

    # ---- ordering -----------------------------------------------------------------------------------
    def make(self):
        c, p = self.c, self.c["prop"]
        done, pend = set(), dict(enumerate(self.cons))
        uses = {}
        for i, (_, s) in pend.items():
            for q in s:
                uses.setdefault(q, set()).add(i)
        steps, left = [], {}   # left: class -> number of later uses
        special = []           # other steps: (record, classes needed, classes given)

        def cls(col, row):
            k, v = self.cell(col, row)
            return [v] if k == "q" else []

        choices, order, self.lead, self.keep = [], [], {}, set()
        self.free, wins = {}, 0   # class -> neighbourhoods in which it is open; others are open in all
        if p["k"] == "table":
            en = [r for r in range(self.n) if self.vals[c["fixed"][p["qcol"]][r] - 1] == 1]
            for j, r in enumerate(en):
                need = [q for col in p["cols"] for q in cls(col, r)]
                special.append(({"k": "m", "r": r, "final": j == len(en) - 1, "first": j == 0}, need, []))
                order.append(len(special) - 1)
            rows = ([en[0] - 1] if en else []) + en
            # cells of the leading row that occur nowhere else take two values
            ocols = set(p["oracle"]["in"] + p["oracle"]["out"]) if "oracle" in p else set()
            tabcols = set(range(len(c["adv"]))) - ocols if ocols else set(p["cols"])
            tied = {self.find((k, col, r)) for x in c["copies"] for k, col, r in (x[:3], x[3:])}
            self.lead = {q: [0, 1] for col in tabcols if col != p["cols"][3] for q in cls(col, rows[0]) if q not in tied} if en else {}
            h, w1, w2, ctrl, dom, head = p["cols"]
            for r in rows:
                for col, cand in ((ctrl, []), (head, []), (w1, self.words), (w2, self.words), (dom, self.doms), (h, [])):
                    choices += [(q, cand or [], r) for q in cls(col, r)]
                self.keep |= set(cls(ctrl, r)) | set(cls(h, r))
            if self.local:
                wins = len(en)
                for i, r in enumerate(rows):
                    for col in (w1, w2, dom):
                        self.free.update((q, []) for q in cls(col, r))
                    for col in (ctrl, head):
                        self.free.update((q, [x for x in (i - 1, i) if x > 0]) for q in cls(col, r))
                self.free.update((q, []) for q in self.lead)
            if "oracle" in p:
                o = p["oracle"]
                # every row of the ideal chip that the code uses
                rows = sorted({r for col, r in c["order"] if col == o["in"][0]})
                for r in rows:
                    special.append(({"k": "o", "r": r, "in": o["in"], "out": o["out"]},
                                    [q for col in o["in"] for q in cls(col, r)],
                                    [q for col in o["out"] for q in cls(col, r)]))
        elif p["k"] == "perm":
            for i in range(p["n"]):
                ins = p["outs"][i - 1] if p["chain"] and i else p["ins"][i]
                need = [q for col, r in ins + p["outs"][i] for q in cls(col, r)]
                special.append(({"k": "q", "in": ins, "out": p["outs"][i]}, need, []))
                if not (p["chain"] and i):
                    choices += [(q, [], BIG) for col, r in ins for q in cls(col, r)]
                    if self.local:
                        self.free.update((q, []) for col, r in ins for q in cls(col, r))
        else:
            msg = [[0, w["r"]] for w in p["words"] if w["m"]]
            need = [q for col, r in msg + p["outs"] for q in cls(col, r)]
            special.append(({"k": "z"}, need, []))
            choices += [(q, [], BIG) for col, r in msg for q in cls(col, r)]
            if self.local:
                self.free.update((q, []) for col, r in msg for q in cls(col, r))

        for i, (_, need, give) in enumerate(special):
            for q in set(need) | set(give):
                uses.setdefault(q, set()).add(("s", i))
        spend = set(range(len(special)))
        self.segs, self.cur = [], []
        self.birth, self.death = {}, {}
        self.t = 0

        def emit(rec):
            self.t += 1
            rec = dict(rec, t=self.t)
            self.cur.append(rec)
            return self.t

        def cut():
            if self.cur:
                self.segs.append(self.cur)
                self.cur = []

        def touch(qs):
            for q in qs:
                self.death[q] = self.t

        def used(tag, qs):
            dead = []
            for q in set(qs):
                uses[q].discard(tag)
                if not uses[q]:
                    dead.append(q)
            if dead:
                emit({"k": "k", "q": dead})
                touch(dead)

        unk = {i: set(s) for i, (_, s) in pend.items()}
        byq = {}
        for i, s in unk.items():
            for q in s:
                byq.setdefault(q, set()).add(i)
        sunk = {i: set(special[i][1]) for i in spend}

        def settle():
            """everything that needs no further choice"""
            while True:
                z = sorted(i for i in pend if not unk[i])
                if z:
                    for i in z:
                        rec, s = pend.pop(i)
                        emit(rec)
                        touch(s)
                        used(i, s)
                    continue
                hit = False
                for i in sorted(spend):
                    rec, need, give = special[i]
                    if sunk[i] or (rec["k"] == "m" and any(j in spend for j in order if j < i)):
                        continue
                    if rec["k"] == "o":
                        new = sorted({q for q in give if q not in self.birth})
                        emit(dict(rec, new=[q in new for q in
                                            [self.cell(col, rec["r"])[1] if self.cell(col, rec["r"])[0] == "q" else None for col in rec["out"]]]))
                        for q in new:
                            born(q)
                        touch(set(need) | set(give))
                    else:
                        emit(rec)
                        touch(need)
                    spend.discard(i)
                    used(("s", i), list(need) + list(give))
                    hit = True
                    break
                if not hit:
                    return

        def born(q):
            self.birth[q] = self.t
            self.death[q] = self.t
            for i in byq.get(q, ()):
                unk[i].discard(q)
            for i in sunk:
                sunk[i].discard(q)

        honest = {}
        for col in range(len(c["adv"])):
            for row in range(self.n):
                k, v = self.cell(col, row)
                if k == "q":
                    honest[v] = self.vals[c["adv"][col][row] - 1]

        def pick(q, cand, free=False):
            if free and self.narrow and not cand:
                cand = [0, 1]
            # what the code itself assigns is always among the candidates
            pin = {"hv": honest[q], "fw": self.free[q]} if q in self.free else {}
            emit({"k": "p", "q": q, "cand": sorted({*cand, honest[q]}) if cand else [], **pin})
            born(q)
            if not uses.get(q):
                emit({"k": "k", "q": [q]})
                touch([q])

        # tables are gone through row by row
        ci, now = 0, choices[0][2] if choices else BIG
        while True:
            settle()
            # a constraint that leaves one cell to be determined
            f = [i for i in pend if pend[i][0]["r"] <= now and len(unk[i]) == 1 and len(pend[i][1]) >= 2]
            if f:
                # prefer the ones with few other users
                i = min(f, key=lambda i: (pend[i][0]["r"], i))
                if len(self.cur) > self.limit:
                    cut()
                q = next(iter(unk[i]))
                pick(q, self.lead.get(q, []))
                continue
            while ci < len(choices) and (choices[ci][0] in self.birth or not uses.get(choices[ci][0])):
                ci += 1
            # as many constraints as cells left open in them
            sets = {}
            for i in pend:
                if now == BIG and 2 <= len(unk[i]) <= 4:
                    sets.setdefault(frozenset(unk[i]), []).append(i)
            sys_ = [u for u in sets if sum(1 for v in sets if v <= u for _ in sets[v]) >= len(u)]
            if sys_:
                if len(self.cur) > self.limit:
                    cut()
                pick(min(min(sys_, key=lambda u: (len(u), sorted(u)))), [], True)
                continue
            if ci < len(choices) and choices[ci][2] <= now:
                if now == BIG:
                    cut()
                pick(*choices[ci][:2], choices[ci][0] not in self.keep)
                continue
            here = [i for i in pend if pend[i][0]["r"] <= now]
            if here:
                i = min(here, key=lambda i: (len(unk[i]), pend[i][0]["r"], i))
                if len(self.cur) > self.limit:
                    cut()
                pick(min(unk[i]), self.lead.get(min(unk[i]), []), True)
                continue
            if now < BIG:
                cut()
                now = choices[ci][2] if ci < len(choices) else BIG
                continue
            rest = sorted({q for i in spend for q in sunk[i]})
            if rest:
                cut()
                pick(rest[0], [], True)
                continue
            break
        cut()
        # slots
        ids = {q: i + 1 for i, q in enumerate(sorted(self.birth))}
        free, slot, nslot = [], {}, 1
        live = []
        for q in sorted(self.birth, key=lambda q: (self.birth[q], q)):
            for d, s in list(live):
                if d < self.birth[q]:
                    live.remove((d, s))
                    free.append(s)
            if free:
                s = min(free)
                free.remove(s)
            else:
                nslot += 1
                s = nslot
            slot[q] = s
            live.append((self.death[q], s))
        qs = sorted(ids, key=ids.get)
        cls_grid = [[0] * self.n for _ in c["adv"]]
        for col in range(len(c["adv"])):
            for row in range(self.n):
                k, v = self.cell(col, row)
                if k == "v":
                    cls_grid[col][row] = -v
                elif v in ids:
                    cls_grid[col][row] = ids[v]
        for seg in self.segs:
            for st in seg:
                if st["k"] == "p":
                    st["s"] = slot[st.pop("q")]
                elif st["k"] == "k":
                    st["s"] = sorted({slot[q] for q in st.pop("q")})
        return dict(c, cls=cls_grid, slot=[slot[q] for q in qs], birth=[self.birth[q] for q in qs],
                    death=[self.death[q] for q in qs], slots=nslot, plan=self.segs, wins=wins)


def plan_file(src, dst, words=None, doms=None, narrow=False, local=False):
    out, skipped = [], 0
    for line in open(src):
        c = json.loads(line)
        if c["refused"]:
            skipped += 1
            continue
        # words and domains a table row may hold
        p = c["f"]["p"]
        w = words or ([0, 1, 3] if p <= 7 else [0, 1])
        d = doms or [0, 2 % p]
        out.append(json.dumps(Plan(c, [x % p for x in w], [x % p for x in d], narrow=narrow, local=local).make()))
    open(dst, "w").write("\n".join(out) + "\n")
    return len(out), skipped


if __name__ == "__main__":
    import sys
    print(plan_file(sys.argv[1], sys.argv[2], narrow=len(sys.argv) > 3))
