from .common import fresh, differ


class Names:
    """Names.tla <-> named / qBase / computeBase objects"""

    def reset(self, init):
        self.qg = fresh()
        self.objs = []
        self.probe = None

    def cls(self, c):
        return {"named": self.qg.named, "qBase": self.qg.qBase, "Cavity": self.qg.Cavity, "Gate": self.qg.Gate,
                "Qubit": self.qg.Qubit}[c]

    def step(self, a):
        n = a["n"]
        if n == "create":
            kw = {}
            if a["int"]:
                kw["_internal"] = True
            if a["als"]:
                kw["alias"] = a["als"][0] if len(a["als"]) == 1 else list(a["als"])
            self.objs.append(self.cls(a["cls"])(**kw))
            return "ok"
        o = self.objs[a["o"] - 1]
        try:
            if n == "alias":
                o.alias = a["a"]
            elif n == "aliases":
                o.alias = list(a["as"])
            elif n == "rename":
                try:
                    o.name.name = a["a"]
                except Exception:
                    pass
                o.name = a["a"]
        except (ValueError, AttributeError):
            return "err"
        return "ok"

    def check(self, a, outcome, o):
        if a["n"] != "init":
            r = differ("outcome of %s" % a, outcome, a["res"])
            if r:
                return r
        if not self.objs:
            return None
        r = differ("names", [str(x.name) for x in self.objs], list(o["names"]))
        if r:
            return r
        for i, x in enumerate(self.objs):
            r = differ("name+aliases of object %d" % (i + 1), sorted({x.name.name} | {str(y) for y in x.alias}), sorted(o["own"][i]))
            if r:
                return r
        for via in (self.objs[0], self.objs[-1]):
            for s, k in o["look"]:
                try:
                    got = via.getByNameOrAlias(s)
                    got = [i + 1 for i, x in enumerate(self.objs) if x is got]
                    got = got[0] if got else -1
                except ValueError:
                    got = 0
                r = differ("lookup of %r" % s, got, k)
                if r:
                    return r
        for i, x in enumerate(self.objs):
            if via.getByNameOrAlias(x.name) is not x or via.getByNameOrAlias(x) is not x:
                return "lookup of object %d by its own name object fails" % (i + 1)
            for s, k in o["look"]:
                r = differ("name of object %d == %r" % (i + 1, s), x.name == s, k == i + 1)
                if r:
                    return r
            for j, y in enumerate(self.objs):
                r = differ("names of %d and %d equal" % (i + 1, j + 1), x.name == y.name, i == j)
                if r:
                    return r
        for s, k in o["results"]:
            try:
                got = via.getByNameOrAlias(s)
            except ValueError:
                return "results name %r is not found" % s
            if got is not self.objs[k - 1].qRes:
                return "results name %r does not find the results of object %d" % (s, k)
        return None
