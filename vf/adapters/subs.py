from .common import fresh, differ


class Subs:
    """Subs.tla <-> sub-systems of qBase objects (and of classes derived from it)"""

    def reset(self, init):
        self.qg = qg = fresh()
        from quanguru.classes.baseClasses import computeBase, paramBoundBase
        kinds = [qg.qBase, computeBase, paramBoundBase]
        self.boxes = {}
        for b in sorted(init[1]):
            self.boxes[b] = self.rng.choice(kinds)()
        self.objs = []
        self.n = 0
        for _ in range(init[0]):
            self.objs.append(self.make())

    def make(self, cls=None):
        self.n += 1
        cls = cls or self.rng.choice([self.qg.qBase, self.qg.named, self.qg.Cavity, self.qg.Qubit])
        return cls(alias=self.aliases(self.n))

    def aliases(self, i):
        return ["al%d" % i, "other%d" % i]

    def spell(self, i, sp):
        o = self.objs[i - 1]
        return {"ref": o, "name": o.name, "text": o.name.name, "alias": "al%d" % i, "alias2": "other%d" % i}[sp]

    def arg(self, a):
        xs = [self.spell(i, a["sp"] if self.rng.randrange(4) else self.rng.choice(["ref", "name", "text", "alias"])) for i in a["l"]]
        f = a["f"]
        if f == "one":
            return xs[0]
        if f == "list":
            return xs
        if f == "tuple":
            return tuple(xs)
        k = self.rng.randrange(len(xs) + 1)
        return [xs[:k], [tuple(xs[k:])]]

    def step(self, a):
        n = a["n"]
        if n == "object":
            self.objs.append(self.make())
            return "ok"
        b = self.boxes[a["b"]]
        try:
            if n == "add":
                r = b.addSubSys(self.arg(a))
                if a["f"] == "one" and r is not self.objs[a["l"][0] - 1]:
                    return "adding an object returns %r" % r
            elif n == "new":
                cls = self.rng.choice([self.qg.qBase, self.qg.Cavity])
                how = a["how"]
                al = self.aliases(self.n + 1)
                if how == "class":
                    r = b.addSubSys(cls, alias=al)
                elif how == "create":
                    r = b.createSubSys(cls, alias=al)
                elif how == "classlist":
                    r = b.addSubSys([cls], alias=al)
                else:
                    r = b.addSubSys(cls(), alias=al)
                self.n += 1
                if not isinstance(r, cls):
                    return "creating returns %r" % r
                self.objs.append(r)
            elif n == "remove":
                b.removeSubSys(self.arg(a))
            elif n == "reset":
                b.resetSubSys()
            elif n == "assign":
                b.subSys = self.arg(a)
            elif n == "unknown":
                w = a["what"]
                x = "nobody" if w.endswith("text") else self.rng.choice([5, 1.5, {}, {"a": 1}, None])
                if w.startswith("add"):
                    b.addSubSys(x)
                else:
                    b.removeSubSys(x)
        except (ValueError, KeyError, TypeError):
            return "err"
        return "ok"

    def check(self, a, outcome, o):
        if a["n"] != "init":
            r = differ("outcome of %s" % a, outcome, a["res"])
            if r:
                return r
        for name, b in self.boxes.items():
            want = o["c"][name]
            got = [[i + 1 for i, x in enumerate(self.objs) if x is v] for v in b.subSys.values()]
            r = differ("contents of %s" % name, got, [[i] for i in want]) or \
                differ("names in %s" % name, [str(k) for k in b.subSys], [str(self.objs[i - 1].name) for i in want])
            if r:
                return r
            if len(b.subSys) != len(want):
                return "number of objects in %s: %d" % (name, len(b.subSys))
            for i, x in enumerate(self.objs):
                for sp in ("name", "text", "alias", "alias2"):
                    k = self.spell(i + 1, sp)
                    if (k in b.subSys) != (i + 1 in want) or b.subSys.get(k) is not (x if i + 1 in want else None):
                        return "object %d under its %s in %s" % (i + 1, sp, name)
        return None
