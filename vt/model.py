"""Reference model of unit names and unit expressions, built on the unit table the library publishes
(the table's own correctness is C01's business). Nothing here follows the library's lookup code."""
from fractions import Fraction as F
import ref, vlib


class Table:
    def __init__(self, t):
        self.dims = t["dims"]
        self.prefixes = {}          # spelling -> (name, log10), symbols
        self.prefix_names = {}
        for p in t["prefixes"]:
            self.prefix_names[p["name"]] = p["log10"]
            for s in [p["symbol"]] + p["alts"]:
                self.prefixes[s] = p["log10"]
        self.units, self.by_symbol, self.by_name, self.base_symbol, self.base_name = [], {}, {}, {}, {}
        for d in self.dims:
            for i, u in enumerate(d["units"]):
                u = dict(u, dim=d["name"], first=(i == 0))
                u["cfv"], u["afv"] = vlib.f64_hex(u["cf"]), vlib.f64_hex(u["af"])
                self.units.append(u)
                self.by_name.setdefault(u["name"], []).append(u)
                for s in u["symbols"]:
                    self.by_symbol.setdefault(s, []).append(u)
                if i == 0 and u["system"] == "Metric":
                    self.base_name[u["name"]] = u
                    for s in u["symbols"]:
                        self.base_symbol[s] = u

    def candidates(self, n):
        """every reading of n: [(unit, log10 of prefix)], exact readings winning over prefixed ones"""
        ex = {}
        for u in self.by_symbol.get(n, []) + self.by_name.get(n, []):
            ex[u["name"]] = (u, 0)
        if ex:
            return list(ex.values())
        out = {}
        for k in range(1, len(n)):
            a, b = n[:k], n[k:]
            if a in self.prefixes and b in self.base_symbol:
                u = self.base_symbol[b]
                out[(u["name"], self.prefixes[a])] = (u, self.prefixes[a])
            low = a[0].lower() + a[1:]
            if a[0].isascii() and low in self.prefix_names and b in self.base_name:
                u = self.base_name[b]
                out[(u["name"], self.prefix_names[low])] = (u, self.prefix_names[low])
        return list(out.values())

    def resolve(self, n):
        c = self.candidates(n)
        return c[0] if c else None

    def atom(self, n):
        """(dims, scale exponents, cf, af, known)"""
        r = self.resolve(n)
        if r is None:
            return None
        u, p = r
        s = list(u["scale"])
        s[0] += p
        s[2] += p
        return tuple(u["dims"]), tuple(s), u["cfv"], u["afv"]


def load(sv):
    st, t = sv.call("tables")
    if st != "ok":
        raise vlib.CheckError(str(t))
    return Table(t)
