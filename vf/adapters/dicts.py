from .common import fresh, differ

# the values: also those that are easily taken for "nothing"
VAL = {1: None, 2: 0, 3: "", 7: 7}
PLAIN = {"p": "plain", "q": 3, "r": (1, "t"), "t": "plain2"}


def back(v):
    return next((str(i) for i, x in VAL.items() if type(x) is type(v) and x == v), "value %r" % (v,))


class Dicts:
    """Dict.tla <-> aliasDict keyed by the names of objects"""

    def reset(self, init):
        self.qg = qg = fresh()
        from quanguru.classes.base import aliasDict
        self.kind = aliasDict
        self.d = aliasDict()
        self.o = {"o1": qg.qBase(), "o2": qg.Cavity() if self.rng.randrange(2) else qg.qBase(), "o3": qg.named(_internal=True)}
        self.back = []     # copies made on the way and what they must still contain

    def key(self, k, sp):
        if sp == "key":
            return PLAIN[k]
        o = self.o[k]
        return o.name if sp == "obj" else str(o.name.name) if sp == "text" else sp

    def step(self, a):
        n, d = a["n"], self.d
        if n in ("set", "pop", "setdefault", "update"):
            a = dict(a, v=VAL.get(a["v"], a["v"]))
            if n == "update":
                a["w"] = VAL[a["w"]]
        if n == "alias":
            self.o[a["k"]].alias = a["a"]
            return None
        if n == "copy":
            c = d.copy()
            if type(c) is not type(d):
                return "a copy is a %s" % type(c).__name__
            self.back.append((d, list(d.items())))
            self.d = c
            return None
        if n == "clear":
            d.clear()
            return None
        if n == "update":
            k, l = self.key(a["k"], a["sk"]), self.key(a["l"], a["sl"])
            f = self.rng.randrange(4)
            if f == 0:
                d.update({k: a["v"], l: a["w"]})
            elif f == 1:
                d.update([(k, a["v"]), (l, a["w"])])
            elif f == 2:
                m = self.kind()
                m[k], m[l] = a["v"], a["w"]
                d.update(m)
            elif isinstance(l, str) and l.isidentifier() and a["k"] != a["l"]:
                d.update({k: a["v"]}, **{l: a["w"]})
            else:
                d.update(((k, a["v"]), (l, a["w"])))
            return None
        k = self.key(a["k"], a["sp"])
        try:
            if n == "set":
                d[k] = a["v"]
                return None
            if n == "del":
                del d[k]
                return "ok"
            if n == "pop":
                if a["v"] == -1:
                    return back(d.pop(k))
                # the default may be anything, also what is easily taken for no default
                was, dflt = k in d, self.rng.choice([7, None, 0, "", False, [], KeyError])
                got = d.pop(k, dflt)
                return "7" if not was and got is dflt else back(got)
            if n == "setdefault":
                return back(d.setdefault(k) if a["v"] is None and self.rng.randrange(2) else d.setdefault(k, a["v"]))
        except KeyError:
            return "err"

    def check(self, a, outcome, o):
        d = self.d
        r = differ("outcome of %s" % a, outcome, a.get("res"))
        if r:
            return r
        want = [(self.key(e["k"], "key" if e["k"] in PLAIN else "obj"), VAL[e["v"]]) for e in o["d"]]
        got = list(d.items())
        r = differ("entries", [(str(k), v) for k, v in got], [(str(k), v) for k, v in want])
        if r or len(d) != len(want):
            return r or "length %d" % len(d)
        r = differ("keys, values", ([str(k) for k in d.keys()], list(d.values()), [str(k) for k in d]),
                   ([str(k) for k, _ in want], [v for _, v in want], [str(k) for k, _ in want]))
        if r:
            return r
        have = {e["k"]: VAL[e["v"]] for e in o["d"]}
        for k in list(self.o) + list(PLAIN):
            if k in self.o and k not in o["als"]:
                continue
            for sp in (["key"] if k in PLAIN else ["obj", "text"] + o["als"][k]):
                key = self.key(k, sp)
                r = differ("%r in" % str(key), key in d, k in have) or differ("get %r" % str(key), d.get(key, "none"), have.get(k, "none"))
                if r:
                    return r
                try:
                    x = d[key]
                except KeyError:
                    x = "err"
                r = differ("[%r]" % str(key), x, have.get(k, "err"))
                if r:
                    return r
        for e, items in self.back:
            if list(e.items()) != items:
                return "changing the copy changed the original"
        return None
