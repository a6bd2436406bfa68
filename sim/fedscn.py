"""Scenarios about trust chain resolution: generator, executor and oracles.

A scenario is plain JSON: node specs plus a list of operations.  The executor carries the operations out
against the real code; each oracle reports under the property it belongs to (C01 .. C06) and only the one
being checked is recorded.
"""
import copy
import json

from . import env, fed, jose, net, oracle
from .env import CLOCK

ATT = (20, 21, 22)          # keys of the adversary
FREE = list(range(0, 20))   # keys honest nodes draw from

DOMS = ["a.example.org", "b.example.org", "sub.a.example.org", "c.example.net", "d.example.com"]


# ------------------------------------------------------------------------------------------------
# generator
# ------------------------------------------------------------------------------------------------
class Gen:
    def __init__(self, rng, **k):
        self.rng = rng
        self.k = dict(n_ta=(1, 2), n_int=(0, 4), n_leaf=(1, 3), cycles=0.15, extra_hint=0.35, stray_hint=0.15,
                      constraints=0.0, policies=0.0, short=0.0, real=0.5, evil=0.0, paths=0.3, priority=0.0,
                      half_registered=0.05, all_anchors=0.75, resolvers=0.0)
        self.k.update(k)
        self.keys = FREE[:]
        rng.shuffle(self.keys)
        self.nkeys = 0

    def key(self):
        k = self.keys[self.nkeys % len(self.keys)]
        self.nkeys += 1
        return k

    def p(self, x):
        return self.rng.random() < x

    def life(self):
        r = self.rng
        if self.p(self.k["short"]):
            return r.choice([30, 120, 300, 599, 601, 660, 700, 900])
        return r.choice([3600, 7200, 43200, 86400])

    def name(self, kind, i):
        r = self.rng
        base = f"https://{kind}{i}.{r.choice(DOMS)}"
        if kind != "ta" and self.p(self.k["paths"]):
            base += r.choice(["/fed", "/t/1", "/x"])
        return base

    def topology(self):
        r, k = self.rng, self.k
        tas = [dict(id=self.name("ta", i), kind="ta", keys=[self.key()], subs={}) for i in range(r.randint(*k["n_ta"]))]
        ints = [dict(id=self.name("im", i), kind="int", keys=[self.key()], subs={}, hints=[])
                for i in range(r.randint(*k["n_int"]))]
        leaves = [dict(id=self.name("rp", i), kind="leaf", keys=[self.key()], hints=[])
                  for i in range(r.randint(*k["n_leaf"]))]
        ver = dict(id="https://verifier.example.org", kind="verifier", impl="real", keys=[self.key()], hints=[])
        ups = list(tas)
        for n in ints:
            self.link(n, r.choice(ups))
            while self.p(k["extra_hint"]):
                self.link(n, r.choice(ups))
            ups.append(n)
        for n in leaves:
            for _ in range(1 + self.p(k["extra_hint"]) + self.p(k["extra_hint"] / 2)):
                # rather low in the hierarchy
                self.link(n, r.choice(ups[-3:] if self.p(0.7) else ups))
        self.link(ver, r.choice(tas))
        if ints and self.p(k["cycles"]):
            a, b = r.choice(ints), r.choice(ints)
            self.link(a, b)           # may be itself
            if self.p(0.5):
                self.link(b, a)
        everyone = tas + ints + leaves
        for n in ints + leaves:
            if self.p(k["stray_hint"]):
                x = r.choice(["nohost", "unregistered", "leaf"])
                if x == "nohost":
                    h = "https://nowhere.example.net"
                elif x == "leaf":
                    h = r.choice(leaves)["id"]
                else:
                    h = r.choice(tas + ints)["id"]
                if h not in n["hints"] and h != n["id"]:
                    n["hints"].insert(r.randint(0, len(n["hints"])), h)
        for n in everyone + [ver]:
            r.shuffle(n.get("hints", []))
            n.setdefault("impl", "real" if self.p(k["real"]) else "peer")
            if n["impl"] == "peer":
                n["ec_life"] = self.life()
        if k["evil"] and self.p(k["evil"]):
            e = dict(id="https://evil.example.com", kind="int", impl="peer", keys=[ATT[0]], subs={}, hints=[])
            self.link(e, r.choice(ups))
            for v in everyone:
                if self.p(0.6):
                    e["subs"][v["id"]] = {"keys": [r.choice(ATT)], "life": 86400}
            everyone.append(e)
        anchors = [t["id"] for t in tas if self.p(k["all_anchors"])] or [r.choice(tas)["id"]]
        ver["anchors"] = anchors
        ver["anchor_keys"] = {t["id"]: list(t["keys"]) for t in tas if t["id"] in anchors}
        if k["priority"] and self.p(k["priority"]):
            pr = [t["id"] for t in tas]
            r.shuffle(pr)
            ver["priority"] = pr[:r.randint(1, len(pr))]
        specs = everyone + [ver]
        if k["resolvers"]:
            for n in tas + ints:
                if n["impl"] == "real" and self.p(k["resolvers"]):
                    n["anchors"] = sorted({t["id"] for t in tas if self.p(0.6)} or {r.choice(tas)["id"]})
                    n["anchor_keys"] = {t["id"]: list(t["keys"]) for t in tas if t["id"] in n["anchors"]}
        for s in specs:
            s.setdefault("md", self.metadata(s))
            if s["impl"] == "real":
                s["md"] = {}
        if k["constraints"]:
            self.add_constraints(specs)
        if k["policies"]:
            self.add_policies(specs)
        return specs

    def link(self, child, sup):
        if sup["id"] in child["hints"] or sup["id"] == child["id"]:
            return
        child["hints"].append(sup["id"])
        if self.p(self.k["half_registered"]):
            return
        e = {"keys": list(child["keys"]), "life": self.life()}
        if child["kind"] == "int":
            e["intermediate"] = True
        sup["subs"][child["id"]] = e

    def metadata(self, s):
        return {}

    # -- constraints ---------------------------------------------------------------------------
    def add_constraints(self, specs):
        r = self.rng
        for s in specs:
            for sub, e in (s.get("subs") or {}).items():
                if self.p(self.k["constraints"]):
                    e["constraints"] = self.constraint(specs)

    def constraint(self, specs):
        r = self.rng
        c = {}
        if self.p(0.6):
            c["max_path_length"] = r.choice([0, 0, 1, 1, 2, 3])
        if self.p(0.6) or not c:
            nc = {}
            if self.p(0.6):
                nc["permitted"] = [self.pattern(specs) for _ in range(r.randint(1, 3))]
            if self.p(0.5) or not nc:
                nc["excluded"] = [self.pattern(specs) for _ in range(r.randint(1, 2))]
            c["naming_constraints"] = nc
        return c

    def pattern(self, specs):
        r = self.rng
        x = r.random()
        if x < 0.35:
            return "https://." + r.choice(DOMS + ["example.org", "example.net", "example.com"])
        if x < 0.5:
            return "https://" + r.choice(["example.org", "a.example.org", "example.net"])
        s = r.choice(specs)["id"]
        return "https://" + s.split("://")[1].split("/")[0]

    # -- policies ------------------------------------------------------------------------------
    SCALARS = {"token_endpoint_auth_method": ["none", "private_key_jwt", "client_secret_basic"],
               "application_type": ["web", "native", "other"],
               "logo_uri": ["https://l.example/1", "https://l.example/2"]}
    LISTS = {"contacts": ["ops@a", "ops@b", "ops@c"],
             "grant_types": ["authorization_code", "implicit", "refresh_token", "urn:x"],
             "response_types": ["code", "id_token", "code id_token"]}

    def md_for_policies(self):
        r = self.rng
        md = {}
        for c, vals in self.SCALARS.items():
            if self.p(0.6):
                md[c] = r.choice(vals)
        for c, vals in self.LISTS.items():
            if self.p(0.6):
                md[c] = r.sample(vals, r.randint(1, len(vals)))
        return md

    def add_policies(self, specs):
        r = self.rng
        for s in specs:
            if s["kind"] == "leaf" and s["impl"] == "peer":
                s["md"] = {"openid_relying_party": self.md_for_policies()}
                if self.p(0.25):
                    s["md"]["oauth_client"] = self.md_for_policies()
        for s in specs:
            for sub, e in (s.get("subs") or {}).items():
                if self.p(self.k["policies"]):
                    self.give_policy(s, sub, e)

    def give_policy(self, s, sub, e):
        r = self.rng
        x = r.random()
        pol = {t: self.policy() for t in ["openid_relying_party"] + (["oauth_client"] if self.p(0.3) else [])}
        pol = {t: v for t, v in pol.items() if v}
        if not pol:
            return
        if x < 0.5 or s["impl"] == "peer":
            e["policy"] = pol
        elif x < 0.75:
            s.setdefault("policies", {})[sub] = {"metadata_policy": pol}
        else:
            e["types"] = sorted(pol)
            for t, v in pol.items():
                s.setdefault("policies", {}).setdefault(t, {"metadata_policy": v})
        if self.p(0.12) and s.get("policies", {}).get(sub) is None and not e.get("types"):
            e["md"] = {"openid_relying_party": {"x_superior": "said by " + s["id"].split(".")[0][-3:]}}

    def policy(self):
        r = self.rng
        out = {}
        for c, vals in list(self.SCALARS.items()) + list(self.LISTS.items()):
            if self.p(0.4):
                out[c] = self.rule(vals, c in self.LISTS)
        return out

    def rule(self, vals, is_list):
        r = self.rng
        some = lambda lo=1: r.sample(vals, r.randint(lo, len(vals)))
        rule = {}
        if is_list:
            x = r.random()
            if x < 0.12:
                rule["value"] = some()
            elif x < 0.45:
                rule["subset_of"] = some()
                if self.p(0.2):
                    rule["default"] = r.sample(rule["subset_of"], 1)
            elif x < 0.65:
                rule["add"] = some()
            elif x < 0.8:
                rule["superset_of"] = r.sample(vals, 1)
            elif x < 0.9:
                rule["default"] = some()
            elif x < 0.95:
                rule["subset_of"] = some(2)
                rule["superset_of"] = r.sample(rule["subset_of"], 1)
        else:
            x = r.random()
            if x < 0.2:
                rule["value"] = r.choice(vals)
            elif x < 0.55:
                rule["one_of"] = some()
                if self.p(0.2):
                    rule["default"] = r.choice(rule["one_of"])
            elif x < 0.7:
                rule["default"] = r.choice(vals)
            elif x < 0.8:
                rule["subset_of"] = some()
        if self.p(0.3) or not rule:
            rule["essential"] = self.p(0.8)
        return rule


FAULTS = ["slow", "slow_short", "drop_request", "reset", "ssl", "status", "duplicate", "drop_response", "truncate",
          "corrupt", "empty", "swap", "stale"]
ATTACKS = ["forge_same_kid", "self_jwks", "alg_none", "hs256", "edit", "old_key", "reissue_iss", "swap_sub", "expired",
           "no_jwks", "hint_evil", "soon", "other_anchor"]
MUTS = ["forge", "forge_kid", "none", "hs256", "edit", "drop", "dup", "swap", "wrong_iss", "ec_att", "ec_other",
        "expired", "edge", "own_anchor", "anchor_att", "anchor_nokid", "insider", "no_jwks", "old_key", "not_jws", "leaf_issues",
        "superior_key", "jwks_of_att", "exp_cut"]


def rule(rng, specs, faults=FAULTS, attacks=()):
    ids = [s["id"] for s in specs if s["kind"] != "verifier"]
    f = rng.choice(list(faults) + list(attacks))
    r = {"host": rng.choice(ids) if rng.random() < 0.85 else "*",
         "kind_of": rng.choice(["ec", "fetch", "*", "*"]),
         "n": rng.choice([1, 1, 2, 3, -1]), "skip": rng.choice([0, 0, 0, 1, 2])}
    if f == "slow_short":
        r.update(fault="slow", dt=rng.choice([1, 3]))
    elif f == "slow":
        r.update(fault="slow", dt=rng.choice([31, 45]))
    elif f == "status":
        r.update(fault="status", code=rng.choice([400, 401, 404, 404, 500, 503, 302]))
    elif f == "truncate":
        r.update(fault=f, frac=rng.choice([0.1, 0.5, 0.9, 0.99]))
    elif f == "corrupt":
        r.update(fault=f, pos=rng.random(), mask=rng.randint(1, 60))
    elif f == "swap":
        r.update(fault=f, pick=rng.randint(0, 9))
    elif f == "stale":
        r.update(fault=f, back=rng.randint(0, 2))
    elif f in ATTACKS:
        r.update(fault="tamper", how=f, key=rng.choice(ATT), other=rng.choice(ids))
    else:
        r.update(fault=f)
    return r


def target(rng, specs, deep=True):
    x = rng.random()
    leaf = [s["id"] for s in specs if s["kind"] == "leaf"]
    if x < 0.75 and leaf:
        return rng.choice(leaf)
    return rng.choice([s["id"] for s in specs])


def present(rng, specs, nmut=(0, 2), muts=MUTS):
    return {"op": "present", "path": rng.randint(0, 11), "target": target(rng, specs),
            "mut": [{"how": rng.choice(muts), "at": rng.randint(0, 3), "key": rng.choice(ATT),
                     "other": rng.choice(specs)["id"], "dt": rng.choice([0, 1, 5, 300])}
                    for _ in range(rng.randint(*nmut))],
            "life": [rng.choice([30, 601, 3600, 7200]) for _ in range(5)]}


def ask(rng, specs):
    return {"op": "ask", "res": rng.randint(0, 9), "target": target(rng, specs), "anchor": rng.choice([0, 0, 0, 1, 1, 2, "int", "unknown", "self"]),
            "type": rng.choice([None, None, "openid_relying_party", "federation_entity", "openid_provider"]),
            "form": rng.choices(["full", "nosub", "noanchor"], [30, 1, 1])[0]}


OPS = {
    "resolve": lambda r, s, g: {"op": "resolve", "target": target(r, s),
                                "api": r.choice(["gvtc", "gvtc", "gvtc", "stored", "md"])},
    "present": lambda r, s, g: present(r, s),
    "present_ok": lambda r, s, g: present(r, s, (0, 0)),
    "advance": lambda r, s, g: {"op": "advance", "dt": r.choice([1, 10, 29, 31, 119, 121, 300, 600, 601, 900, 3000, 3599, 3601,
                                                                 7300, 50000, 86401])},
    "short_advance": lambda r, s, g: {"op": "advance", "dt": r.choice([1, 5, 20, 30, 60])},
    "skew": lambda r, s, g: {"op": "skew", "node": r.choice(s)["id"] if r.random() < 0.5 else "https://verifier.example.org",
                             "dt": r.choice([-100000, -3600, -60, -5, 0, 0, 5, 60, 600, 3600, 100000])},
    "rule": lambda r, s, g: {"op": "rule", "rule": rule(r, s)},
    "attack": lambda r, s, g: {"op": "rule", "rule": rule(r, s, (), ATTACKS)},
    "assault": lambda r, s, g: {"op": "assault", "target": target(r, s), "cold": r.random() < 0.6, "heal": r.random() < 0.8,
                                "rules": [dict(rule(r, s, (), ATTACKS), at=r.randint(0, 5), n=r.choice([1, 2, -1]), skip=0,
                                               kind_of=r.choice(["ec", "fetch", "fetch", "*"]))
                                          for _ in range(r.choice([1, 1, 2, 3]))]},
    "trouble": lambda r, s, g: {"op": "assault", "target": target(r, s), "cold": r.random() < 0.7, "heal": r.random() < 0.8,
                                "rules": [dict(rule(r, s, FAULTS), at=r.randint(0, 5), n=r.choice([1, 2, -1]), skip=0,
                                               kind_of=r.choice(["ec", "fetch", "*"]))
                                          for _ in range(r.choice([1, 1, 2, 3]))]},
    "ctx_save": lambda r, s, g: {"op": "ctx_save", "target": target(r, s)},
    "ctx_get": lambda r, s, g: {"op": "ctx_get", "i": r.randint(0, 5)},
    "heal": lambda r, s, g: {"op": "heal"},
    "cut": lambda r, s, g: {"op": "cut", "node": r.choice(s)["id"]},
    "blackout": lambda r, s, g: {"op": "blackout"},
    "crash": lambda r, s, g: {"op": "crash", "node": r.choice(s)["id"]},
    "restart": lambda r, s, g: {"op": "restart", "node": r.choice(s)["id"]},
    "bounce": lambda r, s, g: {"op": "bounce", "node": "https://verifier.example.org"},
    "rotate": lambda r, s, g: {"op": "rotate", "node": r.choice([x for x in s if x["kind"] != "verifier"])["id"],
                               "key": r.choice(FREE), "how": r.choice(["clean", "clean", "halfway", "overlap"])},
    "deregister": lambda r, s, g: {"op": "deregister", "sup": r.randint(0, 9), "sub": r.randint(0, 9)},
    "register": lambda r, s, g: {"op": "register", "sup": r.randint(0, 9), "sub": r.randint(0, 9), "hint": r.random() < 0.8},
    "unhint": lambda r, s, g: {"op": "unhint", "node": r.choice(s)["id"], "i": r.randint(0, 3)},
    "setconstraints": lambda r, s, g: {"op": "setconstraints", "sup": r.randint(0, 9), "sub": r.randint(0, 9),
                                       "value": g.constraint(s) if r.random() < 0.8 else None},
    "setpolicy": lambda r, s, g: {"op": "setpolicy", "sup": r.randint(0, 9), "sub": r.randint(0, 9),
                                  "value": {"openid_relying_party": g.policy()} if r.random() < 0.8 else None},
    "setmd": lambda r, s, g: {"op": "setmd", "target": target(r, s), "value": {"openid_relying_party": g.md_for_policies()}},
    "outage": lambda r, s, g: {"op": "outage", "target": target(r, s)},
    "recover": lambda r, s, g: {"op": "recover", "target": target(r, s)},
    "audit": lambda r, s, g: {"op": "audit"},
    "priority": lambda r, s, g: {"op": "priority", "order": r.sample(range(3), 3), "len": r.randint(1, 3)},
    "pick": lambda r, s, g: {"op": "pick", "target": target(r, s), "mix": r.randint(0, 99)},
    "keep": lambda r, s, g: {"op": "keep", "target": target(r, s), "mix": r.randint(0, 99), "fresh": r.random() < 0.5},
    "kept": lambda r, s, g: {"op": "kept", "i": r.randint(0, 5)},
    "ask": lambda r, s, g: ask(r, s),
    "askrecover": lambda r, s, g: dict(ask(r, s), op="askrecover"),
    "askaudit": lambda r, s, g: {"op": "askaudit"},
    "second": lambda r, s, g: {"op": "second", "target": target(r, s)},
}


def gen(rng, weights, n=(6, 16), tail=("audit",), oracles=(), **knobs):
    g = Gen(rng, **knobs)
    specs = g.topology()
    names = list(weights)
    ops = []
    for _ in range(rng.randint(*n)):
        o = rng.choices(names, [weights[x] for x in names])[0]
        ops.append(OPS[o](rng, specs, g))
    for t in tail:
        ops.append(OPS[t](rng, specs, g))
    return {"specs": specs, "ops": ops, "oracles": list(oracles)}


# ------------------------------------------------------------------------------------------------
# executor
# ------------------------------------------------------------------------------------------------
class Run:
    V = "https://verifier.example.org"
    World = fed.World

    def __init__(self, scn, ctx):
        self.ctx, self.scn = ctx, scn
        self.w = self.World(scn["seed"], scn["specs"], limit=900)
        self.oracles = set(scn["oracles"])
        self.changed = False          # the world is not what it was at the start
        self.skewed = False
        self.suspect = set()          # hosts whose documents were tampered with, ever
        self.ec_subst = False
        self.evil_hints = []
        self.accepted = {}            # target -> [(time, [iss_path])] history
        self.max_life = 86400
        self.min_life = 86400
        self.old_keys = {}
        self.prev_signing = {}
        self.last_clean = {}
        self.rejected_since = False
        for s in self.specs.values():
            self.min_life = min(self.min_life, s.get("ec_life", 86400))
            for e in (s.get("subs") or {}).values():
                self.max_life = max(self.max_life, e.get("life", 0))
                self.min_life = min(self.min_life, e.get("life", 86400))

    @property
    def specs(self):
        return self.w.specs

    def v(self, prop, oracle_, sig, detail):
        if prop in self.oracles or prop == self.ctx.prop:
            self.ctx.violate(oracle_, f"{prop}:{sig}", detail)

    def run(self):
        try:
            for op in self.scn["ops"]:
                getattr(self, "op_" + op["op"])(op)
                if len(self.ctx.violations) > 4:
                    break
        finally:
            self.ctx.absorb(self.w)
            self.w.close()

    # -- who is who ----------------------------------------------------------------------------
    def sup_list(self):
        return [s for s in self.specs.values() if s["kind"] in ("ta", "int")]

    def pick_reg(self, op):
        sups = [s for s in self.sup_list() if s.get("subs")]
        if not sups:
            return None, None
        s = sups[op["sup"] % len(sups)]
        subs = sorted(s["subs"])
        return s, subs[op["sub"] % len(subs)]

    def anchors(self, vid=None):
        s = self.specs[vid or self.V]
        out = self.w.anchor_jwks(s)
        if s["id"] not in out and not s.get("hints"):
            out[s["id"]] = jose.jwks(*s["keys"])    # an entity without superiors is its own trust anchor
        return out

    def hint_paths(self, tid, seen=None):
        """All paths target -> ... -> node without hints, over published hints (simple paths)."""
        spec = self.specs.get(tid)
        if spec is None:
            return []
        hints = spec.get("hints") or []
        if not hints:
            return [[tid]]
        seen = seen or [tid]
        out = []
        for h in hints:
            if h in seen:
                continue
            for p in self.hint_paths(h, seen + [h]):
                out.append([tid] + p)
        return out

    def edges(self, tid):
        """Number of steps an exhaustive search over simple paths makes, and the graph's size."""
        count = 0
        nodes, edges = set(), set()

        def walk(n, seen):
            nonlocal count
            nodes.add(n)
            hints = list((self.specs.get(n) or {}).get("hints") or [])
            for who, h in self.evil_hints:
                if who in ("*", n) and h not in hints:
                    hints.append(h)
            for h in hints:
                edges.add((n, h))
                if h in seen:
                    continue
                count += 1
                if count < 3000:
                    walk(h, seen + [h])
        walk(tid, [tid])
        return count, len(nodes) + len(edges)

    def truth_chain(self, path, lives=None):
        """Payloads (anchor's statement first) along ``path`` (target first), as the operators have it now.
        None when a link is missing."""
        out = []
        now = int(CLOCK.now)
        for i in range(len(path) - 1, 0, -1):
            sup, sub = self.specs[path[i]], path[i - 1]
            if sup["kind"] not in ("ta", "int") or sub not in (sup.get("subs") or {}):
                return None
            out.append(fed.es_payload(sup, sub, now))
        out.append(fed.ec_payload(self.specs[path[0]], now))
        return out

    def expected(self, tid, vid=None):
        """{iss_path (tuple): reference metadata or '?'} - the chains the federation defines now."""
        out = {}
        anchors = self.anchors(vid)
        for path in self.hint_paths(tid):
            if len(path) < 2 or path[-1] not in anchors:
                continue
            pls = self.truth_chain(path)
            if pls is None:
                continue
            keys = anchors[path[-1]]
            good = True
            for i, pl in enumerate(pls):
                signer = jose.public_jwk(self.specs[pl["iss"]]["keys"][0])
                if not any(k["kid"] == signer["kid"] for k in keys["keys"]):
                    good = False
                    break
                keys = pl["jwks"]
            if not good or oracle.constraint_faults(pls):
                continue
            ref = reference_metadata(pls)
            if ref is None:
                continue
            # the issuers from the entity itself to the anchor, the entity's own statement included
            out[tuple([path[0]] + path[1:])] = ref
        return out

    # -- oracles -------------------------------------------------------------------------------
    def judge(self, tcs, tid, t1, vid=None, api="gvtc"):
        """Everything that must hold for accepted chains, whatever happened."""
        vid = vid or self.V
        anchors = self.anchors(vid)
        for tc in tcs:
            self.ctx.checks += 1
            try:
                faults = oracle.trust_chain_faults(tc, anchors, tid)
            except (KeyError, TypeError, AttributeError) as err:
                faults = [f"malformed trust chain: {type(err).__name__}"]
            if faults:
                self.ctx.probe("unsound")
                self.v("C01", "soundness", "unsound:" + classify(faults[0]),
                       f"{vid} accepted a chain for {tid} ({api}): {faults}")
                continue
            pls = [jose.parse(s)[1] for s in tc.chain]
            exp = min(p["exp"] for p in pls)
            if tc.exp != exp:
                self.v("C02", "expiry", "wrong-exp", f"chain for {tid} says exp {tc.exp}, statements say {exp}")
            if exp < t1 or tc.exp < t1:
                self.v("C02", "expiry", f"expired:{api}", f"chain for {tid} handed out by {vid} ({api}) "
                                                          f"{int(t1 - exp)} s after it expired")
                self.v("C05", "expiry", f"expired:{api}", f"chain for {tid} handed out by {vid} ({api}) "
                                                          f"{int(t1 - exp)} s after it expired")
            cf = oracle.constraint_faults(pls)
            if cf:
                self.ctx.probe("constraint_broken")
                self.v("C03", "constraints", "accepted:" + classify(cf[0]), f"chain for {tid}: {cf}")
            if any("constraints" in p for p in pls):
                self.ctx.probe("accepted_constrained")
            if len(pls) > 2:
                self.ctx.probe("accepted_deep")
            self.judge_metadata(tc, pls, tid)

    def judge_metadata(self, tc, pls, tid):
        md = oracle.plain(tc.metadata)
        own = pls[-1].get("metadata") or {}
        for etype in own:
            if etype not in md or md[etype] is None:
                self.v("C04", "metadata", "type-missing", f"no {etype} metadata for {tid}")
                continue
            n = sum(1 for p in pls[:-1] if (p.get("metadata_policy") or {}).get(etype))
            if n:
                self.ctx.probe(f"policies_{min(n, 3)}")
            for p in pls[:-1]:
                pol = (p.get("metadata_policy") or {}).get(etype)
                if not pol:
                    continue
                bad = oracle.policy_violations(pol, md[etype])
                for claim, opn in bad:
                    self.ctx.probe("policy_broken")
                    sig = f"violates:{opn}"
                    if opn == "superset_of" and self.n_superset(pls, etype, claim) > 1:
                        sig = "superset-intersection"
                    self.v("C04", "restriction", sig,
                           f"metadata of {tid} ({etype}.{claim}={md[etype].get(claim)!r}) violates {opn} of {p['iss']}: "
                           f"{pol[claim]}")
        for etype in md:
            if etype not in own:
                self.v("C04", "metadata", "type-added", f"metadata of type {etype} nobody published for {tid}")
        ref = reference_metadata(pls)
        if ref is not None and isinstance(ref, dict):
            if oracle.ckey(ref) != oracle.ckey(md) and not (self.any_superset(pls)):
                d = [(t, c, ref.get(t, {}).get(c), (md.get(t) or {}).get(c)) for t in set(ref) | set(md)
                     for c in set(ref.get(t) or {}) | set(md.get(t) or {})
                     if oracle.ckey((ref.get(t) or {}).get(c)) != oracle.ckey((md.get(t) or {}).get(c))]
                self.v("C04", "reference", "differs", f"metadata of {tid} differs from the reference (type, claim, expected, "
                                                      f"got): {sorted(d, key=str)[:4]}")
            self.ctx.probe("metadata_compared")

    @staticmethod
    def n_superset(pls, etype, claim):
        return sum(1 for p in pls[:-1]
                   if "superset_of" in ((p.get("metadata_policy") or {}).get(etype) or {}).get(claim, {}))

    def any_superset(self, pls):
        for p in pls[:-1]:
            for t, pol in (p.get("metadata_policy") or {}).items():
                for c in pol:
                    if self.n_superset(pls, t, c) > 1:
                        return True
        return False

    def complete(self, tcs, tid, where, vid=None, exact=True, only=None, props=("C03", "C04", "C05", "C06")):
        """The accepted chains are exactly (or at least) the ones the federation defines."""
        self.ctx.checks += 1
        exp = self.expected(tid, vid)
        got = {tuple(tc.iss_path): tc for tc in tcs}
        # iss_path names the issuers: the entity itself, then each superior
        want = {p: m for p, m in exp.items()}
        if only is not None:
            want = {p: m for p, m in want.items() if not (set(p) & only)}
        missing = []
        for p, m in want.items():
            if p in got:
                continue
            pls = self.truth_chain(list(p))
            if m == "?":
                continue            # refused by the code for combining operators: not claimed
            if self.any_superset(pls):
                self.ctx.probe("superset_twice")
                self.v("C04", "restriction", "superset-intersection",
                       f"{where}: chain {p} for {tid} not found: superset_of stated by several superiors")
                continue
            missing.append(p)
        extra = [p for p in got if p not in exp] if exact else []
        if want:
            self.ctx.probe("complete_nonempty")
        if len(want) > 1:
            self.ctx.probe("complete_several")
        for prop in props:
            if missing:
                self.v(prop, where, f"missing:{where}", f"{where}: {vid or self.V} did not find chain(s) {missing} for {tid}; "
                                                        f"got {sorted(got)}")
            if extra:
                self.v(prop, where, f"extra:{where}", f"{where}: {vid or self.V} accepted {extra} for {tid}, the federation "
                                                      f"defines {sorted(exp)}")
            for p, m in want.items():
                if p in got and isinstance(m, dict) and exact:
                    md = oracle.plain(got[p].metadata)
                    pls = self.truth_chain(list(p))
                    if self.specs[p[0]]["impl"] == "peer" and not self.any_superset(pls) and oracle.ckey(md) != oracle.ckey(m):
                        self.v(prop, where, f"metadata:{where}", f"{where}: metadata of {tid} over {p} is {md}, current policies "
                                                                 f"and metadata give {m}")

    # -- the basic operation ---------------------------------------------------------------------
    def resolve(self, tid, api="gvtc", vid=None, oracles=True):
        from fedservice.entity.function import get_verified_trust_chains
        vid = vid or self.V
        node = self.w.nodes.get(vid)
        if node is None or vid in self.w.net.down:
            self.ctx.ev("resolve", vid, tid, "down")
            return None, None
        fe = node.fe
        mark = len(self.w.net.log)
        if api == "gvtc":
            out = self.w.op(vid, get_verified_trust_chains, fe, tid)
        elif api == "stored":
            out = self.w.op(vid, fe.get_trust_chains, tid)
        else:
            out = self.w.op(vid, fe.get_verified_metadata, tid)
        log = self.w.net.log[mark:]
        self.note_content_faults(log)
        self.terminated(out, tid, api, log)
        val = out.value if out.ok else []
        if api == "md":
            n = 0 if not val else 1
            if val:
                chains = self.w.op(vid, fe.get_trust_chains, tid)
                self.ctx.checks += 1
                cs = chains.value or [] if chains.ok else []
                self.judge(cs, tid, chains.t1, vid, "stored")
                if not any(oracle.ckey(c.metadata) == oracle.ckey(val) for c in cs):
                    self.v("C02", "metadata", "md-without-chain", f"get_verified_metadata({tid}) gave metadata that no valid "
                                                                  f"trust chain backs")
            self.ctx.ev("md", tid, out.short(), n, out.requests)
            return out, None
        val = val or []
        self.judge(val, tid, out.t1, vid, api)
        self.ctx.ev(api, vid.split("//")[1].split(".")[0], tid, out.short(), len(val), out.requests,
                    "|".join(sorted({x[5] for x in log})))
        if not val:
            self.rejected_since = True
        if val:
            self.ctx.probe("accepted")
        return out, val

    def note_content_faults(self, log):
        for t, src, dst, kind, sub, outcome in log:
            if outcome in ("tamper", "swapped", "stale_replay", "corrupt", "truncate", "empty"):
                self.suspect.add(dst)
                if kind == "ec" and outcome in ("tamper", "stale_replay", "swapped"):
                    self.ec_subst = True

    def terminated(self, out, tid, api, log):
        if api == "md":
            pass
        self.ctx.checks += 1
        bad = self.w.net.runaway or isinstance(out.exc, (net.Runaway, RecursionError))
        count, size = self.edges(tid)
        if isinstance(out.exc, RecursionError) or bad:
            self.v("C06", "termination", "runaway", f"resolving {tid} made {out.requests} requests and went on; the graph has "
                                                    f"{size} nodes and edges")
            return
        if count >= 3000:
            return
        quiet = all(x[5].startswith("ok") for x in log)
        allowed = 6 * count + 12
        if out.requests > allowed:
            self.v("C06", "termination", "too-many-requests", f"resolving {tid} took {out.requests} requests; its graph has "
                                                              f"{count} steps on simple paths")
        self.ctx.probe("requests_counted")
        if quiet and out.requests:
            self.ctx.probe("quiet_resolve")

    # -- operations ------------------------------------------------------------------------------
    def op_resolve(self, op):
        tid = op["target"]
        pristine = not (self.changed or self.skewed or self.suspect or self.w.net.down or self.w.net.cut or self.ec_subst)
        rules = [r for r in self.w.net.rules if r.get("n", 1) != 0]
        mark = len(self.w.net.log)
        t0 = CLOCK.now
        out, tcs = self.resolve(tid, op.get("api", "gvtc"))
        if tcs is None:
            return
        if op.get("api") != "gvtc" or self.changed or self.skewed:
            return
        if CLOCK.now - t0 > self.min_life / 3:
            return              # slow answers ate up lifetimes: what is in time is not claimed
        log = self.w.net.log[mark:]
        bad = {x[2] for x in log if not x[5].startswith("ok2")}
        # trouble at a host that serves several entities, whichever of them was meant
        for x in log:
            if not x[5].startswith("ok2") and x[5] != "404":
                bad |= {n for n in self.specs if n.startswith(x[2] + "/")}
        bad |= self.suspect | self.w.net.down
        for c in self.w.net.cut:
            bad |= set(c)
        bad.discard(self.V) if tid != self.V else None
        if pristine and not bad:
            self.complete(tcs, tid, "clean", exact=True)
            self.ctx.probe("clean_resolve")
        elif not self.changed and not self.skewed:
            # a fault at one superior does not hide the chains over the others
            self.complete(tcs, tid, "isolation", exact=False, only=bad, props=("C06",))
            if bad - {tid}:
                self.ctx.probe("isolation")

    def op_second(self, op):
        """Asked twice without anything happening in between: same answer (also through the stored API)."""
        tid = op["target"]
        if self.w.net.rules or self.w.net.down or self.w.net.cut or self.skewed:
            return
        o1, a = self.resolve(tid)
        t = CLOCK.now
        o2, b = self.resolve(tid)
        if a is None or b is None or self.w.net.rules or not o1.ok:
            return
        if any(c.exp - o2.t1 < 700 for c in a + b):
            return
        self.ctx.checks += 1
        pa, pb = sorted(tuple(c.iss_path) for c in a), sorted(tuple(c.iss_path) for c in b)
        if not set(pa) <= set(pb):
            self.v("C05", "repeat", "lost", f"the second resolution of {tid} lost chains: {pa} then {pb}")
            self.v("C06", "repeat", "lost", f"the second resolution of {tid} lost chains: {pa} then {pb}")
        ma = {tuple(c.iss_path): oracle.ckey(c.metadata) for c in a}
        for c in b:
            if tuple(c.iss_path) in ma and ma[tuple(c.iss_path)] != oracle.ckey(c.metadata) and not self.changed:
                self.v("C04", "repeat", "metadata-differs", f"resolving {tid} twice gave different metadata")
                self.v("C05", "repeat", "metadata-differs", f"resolving {tid} twice gave different metadata")
        self.ctx.probe("resolved_twice")

    # -- resolve requests (C13) ------------------------------------------------------------------
    def resolvers(self):
        return [self.V] + sorted(n for n, s in self.specs.items() if s["impl"] == "real" and s["kind"] in ("ta", "int") and s.get("anchors"))

    def op_ask(self, op):
        rs = self.resolvers()
        vid = rs[op["res"] % len(rs)] if op["res"] < 6 else self.V
        tas = sorted(n for n, s in self.specs.items() if s["kind"] == "ta")
        a = op["anchor"]
        if a == "int":
            anchor = next((h for h in self.specs[op["target"]].get("hints") or []), "https://nowhere.example.net") \
                if op["target"] in self.specs else "https://nowhere.example.net"
        elif a == "unknown":
            anchor = "https://nowhere.example.net"
        elif a == "self":
            anchor = op["target"]
        else:
            anchor = tas[a % len(tas)]
        pristine = not (self.changed or self.skewed or self.suspect or self.w.net.down or self.w.net.cut or self.ec_subst)
        mark = len(self.w.net.log)
        t0 = CLOCK.now
        got = self.ask(vid, op["target"], anchor, op.get("type"), op.get("form", "full"))
        log = self.w.net.log[mark:]
        bad = {x[2] for x in log if not x[5].startswith("ok2") and x[5] != "404"} | {x[2] for x in log if x[5] == "404"}
        if got == "down" or op.get("form", "full") != "full":
            return
        if pristine and not bad and CLOCK.now - t0 <= self.min_life / 3:
            self.ask_complete(got, vid, op["target"], anchor, op.get("type"), "clean")
            self.ctx.probe("ask_clean")

    def ask_complete(self, got, vid, tid, anchor, typ, where):
        exp = {p: m for p, m in self.expected(tid, vid).items() if p[-1] == anchor}
        sure = {p: m for p, m in exp.items() if m != "?" and not self.any_superset(self.truth_chain(list(p)))}
        if typ:
            sure = {p: m for p, m in sure.items() if self.specs[p[0]]["impl"] == "peer" and typ in m}
        self.ctx.checks += 1
        if sure and got is None:
            self.v("C13", where, "refused", f"{where}: {vid} gave an error for {tid} under {anchor} ({typ or 'all types'}), there is "
                                            f"a valid chain: {sorted(sure)}")
        if sure and got is not None:
            self.ctx.probe("ask_answered_" + where)
        if not exp and got is not None:
            self.v("C13", where, "answered", f"{where}: {vid} answered for {tid} under {anchor}, there is no valid chain")
        if not exp and got is None:
            self.ctx.probe("ask_refused_" + where)

    def ask(self, vid, tid, anchor, typ=None, form="full"):
        """One resolve request.  The payload of a (judged) answer, None for an error."""
        from urllib.parse import urlencode
        if vid in self.w.net.down:
            return "down"
        args = {"sub": tid, "anchor": anchor}
        if typ:
            args["type"] = typ
        if form == "nosub":
            del args["sub"]
        elif form == "noanchor":
            del args["anchor"]
        self.w.net.op_requests = 0
        self.w.net.runaway = False
        mark = len(self.w.net.log)
        res = self.w.http("GET", vid + "/resolve?" + urlencode(args))
        self.note_content_faults(self.w.net.log[mark:])
        t1 = CLOCK.node_time(vid)
        self.ctx.checks += 1
        who = vid.split("//")[1].split(".")[0]
        if self.w.net.runaway:
            self.v("C13", "error", "runaway", f"a resolve request to {vid} for {tid} does not end")
            return None
        if res is None:
            return "down"
        code, _, body = res
        self.ctx.ev("ask", who, tid, anchor, typ or "", form, code)
        if code >= 400:
            self.ctx.probe("ask_error")
            return None
        self.ctx.probe("ask_answered")
        if vid != self.V:
            self.ctx.probe("ask_other_resolver")
        ctx = f"{vid} asked about {tid} under {anchor} ({typ or 'all types'})"
        p = jose.parse(body) if isinstance(body, str) else None
        if code != 200 or p is None:
            self.v("C13", "answer", "no-answer", f"{ctx}: neither an error nor a signed answer: {code} {str(body)[:80]}")
            return None
        pl = p[1]
        if form != "full":
            self.v("C13", "answer", "incomplete-request", f"{ctx}: an answer to a request without {form[2:]}")
            return pl
        if not jose.verify(body, jose.jwks(*self.specs[vid]["keys"])):
            self.v("C13", "answer", "signature", f"{ctx}: not signed with a key of the resolver")
        if pl.get("iss") != vid or pl.get("sub") != tid:
            self.v("C13", "answer", "about", f"{ctx}: answer of {pl.get('iss')} about {pl.get('sub')}")
        chain = list(reversed(pl.get("trust_chain") or []))
        anchors = {a: j for a, j in self.anchors(vid).items() if a == anchor}
        if not anchors:
            self.v("C13", "answer", "anchor", f"{ctx}: that is not one of its trust anchors")
            return pl
        faults = oracle.chain_faults(chain, anchors, tid, now=t1)
        if faults and len(chain) > 1 and (jose.parse(chain[0]) or (0, {}))[1].get("sub") == anchor:
            if jose.verify(chain[0], anchors[anchor]):
                chain = chain[1:]
                faults = oracle.chain_faults(chain, anchors, tid, now=t1)
        if faults:
            self.v("C13", "answer", "chain:" + classify(faults[0]), f"{ctx}: {faults}")
            return pl
        pls = [jose.parse(s)[1] for s in chain]
        cf = oracle.constraint_faults(pls)
        if cf:
            self.v("C13", "answer", "constraints", f"{ctx}: {cf}")
        exp = min(x["exp"] for x in pls)
        if not isinstance(pl.get("exp"), int) or pl["exp"] > exp or pl["exp"] < t1:
            self.v("C13", "answer", "expiry", f"{ctx}: valid until {pl.get('exp')}, the chain until {exp}, now {t1}")
        if exp - pl.get("iat", 0) < 86400:
            self.ctx.probe("ask_short")
        if len(chain) > 2:
            self.ctx.probe("ask_deep")
        if any("constraints" in x for x in pls):
            self.ctx.probe("ask_constrained")
        if any("metadata_policy" in x for x in pls):
            self.ctx.probe("ask_policies")
        ref = reference_metadata(pls)
        md = pl.get("metadata")
        if ref is None:
            if not self.any_superset(pls):
                self.v("C13", "answer", "policies-conflict", f"{ctx}: metadata {md} although the policies cannot be met")
            return pl
        if ref == "?" or self.any_superset(pls):
            return pl
        want = {typ: ref.get(typ)} if typ else ref
        if not typ and not ref and not md:
            return pl
        if oracle.ckey(md) != oracle.ckey(want):
            self.v("C13", "answer", "metadata", f"{ctx}: metadata {md}, the chain yields {want}")
        self.ctx.probe("ask_type" if typ else "ask_all")
        return pl

    def op_askrecover(self, op):
        tid = op["target"]
        self.heal()
        CLOCK.offset.clear()
        if self.changed or self.ec_subst or self.skewed:
            return
        rs = self.resolvers()
        vid = rs[op["res"] % len(rs)] if op["res"] < 6 else self.V
        had = bool(self.suspect)
        for anchor in sorted(self.anchors(vid)):
            want = [p for p in self.expected(tid, vid) if p[-1] == anchor]
            got = None
            for i in range(3):
                got = self.ask(vid, tid, anchor)
                if (got is not None) == bool(want):
                    break
            self.ask_complete(got, vid, tid, anchor, None, "recovery")
            self.ctx.probe("ask_recover_suspect" if had else "ask_recover")

    def op_askaudit(self, op):
        self.heal()
        CLOCK.offset.clear()
        CLOCK.advance(self.max_life + 700 + (100000 if self.skewed else 0))
        self.skewed = False
        for vid in self.resolvers():
            for tid in sorted(n for n, s in self.specs.items() if s["kind"] != "verifier" and n != vid):
                for anchor in sorted(self.anchors(vid)):
                    self.ask_complete(self.ask(vid, tid, anchor), vid, tid, anchor, None, "audit")
        self.suspect = set()
        self.ec_subst = False
        self.changed = False
        self.ctx.probe("ask_audited")

    # -- which chain (C15) -------------------------------------------------------------------------
    def best_anchor(self, anchors):
        for a in self.specs[self.V].get("priority") or []:
            if a in anchors:
                return a
        return None

    @staticmethod
    def mixed(lst, n):
        lst = list(lst)
        import random
        random.Random(n).shuffle(lst)
        return lst

    def op_pick(self, op):
        out, tcs = self.resolve(op["target"])
        if not tcs:
            return
        fe = self.w.nodes[self.V].fe
        want = self.best_anchor({t.anchor for t in tcs})
        picked = []
        for lst in (tcs, self.mixed(tcs, op["mix"]), list(reversed(tcs))):
            o = self.w.op(self.V, fe.pick_trust_chain, list(lst))
            self.ctx.checks += 1
            tc = o.value
            if not o.ok or not any(tc is t for t in tcs):
                self.v("C15", "pick", "not-one-of-them", f"pick_trust_chain gave {o.short()}, not one of the {len(tcs)} chains for {op['target']}")
                return
            picked.append(tc.anchor)
            if want and tc.anchor != want:
                self.v("C15", "pick", "priority", f"chain to {tc.anchor} picked for {op['target']}, priority "
                                                  f"{self.specs[self.V]['priority']}, chains to {sorted(t.anchor for t in tcs)}")
        if want and len(set(picked)) > 1:
            self.v("C15", "pick", "order", f"the anchor picked depends on the order of the chains: {picked}")
        n = len({t.anchor for t in tcs})
        self.ctx.probe("picked")
        if n > 1:
            self.ctx.probe("picked_several_anchors" if want else "picked_no_priority")
        self.ctx.ev("pick", op["target"], n, picked[0])

    def op_keep(self, op):
        """save_trust_chains: per anchor a shortest chain is kept."""
        from fedservice import save_trust_chains
        out, tcs = self.resolve(op["target"])
        if not tcs:
            return
        fe = self.w.nodes[self.V].fe
        tid = op["target"]
        before = dict(fe.context.trust_chain.get(tid) or {})
        lst = self.mixed(tcs, op["mix"])
        if op["fresh"]:
            fe.context.trust_chain.pop(tid, None)
            before = {}
        o = self.w.op(self.V, save_trust_chains, fe.context, lst)
        got = fe.context.trust_chain.get(tid) or {}
        self.ctx.checks += 1
        best = {}
        for t in tcs:
            best[t.anchor] = min(best.get(t.anchor, 99), len(t.chain))
        for a, n in best.items():
            k = got.get(a)
            if k is None or not any(k is t for t in tcs):
                self.v("C15", "keep", "not-kept", f"no chain to {a} kept for {tid} out of {len(tcs)} new ones")
            elif len(k.chain) != n or k.anchor != a:
                self.v("C15", "keep", "not-shortest", f"kept for {tid} under {a}: a chain of {len(k.chain)} statements to {k.anchor}, "
                                                      f"there is one of {n}")
        if set(got) - set(best) - set(before):
            self.v("C15", "keep", "invented", f"kept for {tid}: {sorted(set(got) - set(best))}")
        for other, kept in fe.context.trust_chain.items():
            for a, k in kept.items():
                if k.iss_path[0] != other or k.anchor != a:
                    self.v("C15", "keep", "mixed-up", f"kept under {other}/{a}: chain for {k.iss_path[0]} to {k.anchor}")
        self.ctx.probe("kept_several" if len(best) > 1 else "kept_one")
        if len(tcs) > len(best):
            self.ctx.probe("kept_of_many")
        self.ctx.ev("keep", tid, sorted((a, n) for a, n in best.items()))

    def op_kept(self, op):
        """Picking among the chains kept earlier."""
        if self.V in self.w.net.down:
            return
        fe = self.w.nodes[self.V].fe
        ids = sorted(fe.context.trust_chain)
        if not ids:
            return
        tid = ids[op["i"] % len(ids)]
        kept = dict(fe.context.trust_chain[tid])
        o = self.w.op(self.V, fe.pick_from_stored_trust_chains, tid)
        valid = {a: k for a, k in kept.items() if min(jose.parse(x)[1]["exp"] for x in k.chain) >= o.t1}
        self.ctx.checks += 1
        self.ctx.ev("kept", tid, o.short(), len(valid), len(kept), o.value.anchor if o.ok and o.value else None)
        if not valid:
            self.ctx.probe("kept_all_expired")
            if o.ok and o.value:
                self.v("C15", "kept", "expired", f"expired chain picked for {tid}")
                self.v("C02", "kept", "expired:kept", f"expired chain picked for {tid}")
            return
        if not o.ok or not any(o.value is k for k in valid.values()):
            self.v("C15", "kept", "not-one-of-them", f"picking a kept chain for {tid} gave {o.short()}; valid ones to {sorted(valid)}")
            return
        want = self.best_anchor(valid)
        if want and o.value.anchor != want:
            self.v("C15", "kept", "priority", f"kept chain to {o.value.anchor} picked, priority {self.specs[self.V]['priority']}, "
                                              f"valid kept chains to {sorted(valid)}")
        if len(valid) > 1:
            self.ctx.probe("kept_picked_several" if want else "kept_no_priority")
        if len(valid) < len(kept):
            self.ctx.probe("kept_some_expired")

    def op_present(self, op):
        tid = op["target"]
        if self.V in self.w.net.down:
            return
        chain, note = self.build_chain(op)
        if chain is None:
            self.ctx.ev("present", tid, "nochain")
            return
        self.show(chain, tid, note)

    def show(self, chain, tid, note):
        node = self.w.nodes[self.V]
        out = self.w.op(self.V, node.fe.function.verifier, list(chain))
        tc = out.value if out.ok else None
        last = jose.parse(chain[-1]) if chain else None
        faults = oracle.chain_faults(chain, self.anchors(), last[1].get("sub") if last else tid, now=out.t1)
        # the verifier hands back a chain of statements; the subject's own signature on its configuration is the
        # business of whoever collected it
        faults = [f for f in faults if "own" not in f]
        self.ctx.ev("present", tid, note, out.short(), bool(tc), bool(faults))
        self.ctx.checks += 1
        if tc:
            self.ctx.probe("presented_accepted")
            hard = [f for f in faults if "expired" not in f]
            if hard:
                self.v("C01", "presented", "unsound:" + classify(hard[0]), f"presented chain accepted ({note}): {hard}")
            if any("expired" in f for f in faults):
                self.v("C02", "presented", "expired:presented", f"presented chain accepted ({note}): {faults}")
            if not faults:
                pls = [jose.parse(s)[1] for s in chain]
                if tc.exp != min(p["exp"] for p in pls):
                    self.v("C02", "presented", "wrong-exp", f"presented chain: exp {tc.exp} is not the earliest")
                cf = oracle.constraint_faults(pls)
                if cf:
                    self.v("C03", "presented", "accepted:" + classify(cf[0]), f"presented chain ({note}): {cf}")
        else:
            self.ctx.probe("presented_rejected")
            if not faults and out.ok:
                pls = [jose.parse(s)[1] for s in chain]
                if not oracle.constraint_faults(pls) and all("jwks" in p for p in pls) and min(p["exp"] for p in pls) > out.t1:
                    self.v("C03", "presented", "rejected", f"valid presented chain rejected ({note})")
                    self.v("C06", "presented", "rejected", f"valid presented chain rejected ({note})")

    def signer(self, iss):
        s = self.specs.get(iss)
        return s["keys"][0] if s else ATT[1]

    def build_chain(self, op):
        tid = op["target"]
        paths = [p for p in self.hint_paths(tid) if len(p) > 1 and all(x in self.specs for x in p)]
        good = [p for p in paths if self.truth_chain(p) is not None]
        if not good:
            return None, ""
        good.sort(key=lambda p: (p[-1] not in self.anchors(), p))
        n_anch = sum(1 for p in good if p[-1] in self.anchors())
        path = good[op["path"] % (n_anch if n_anch and op["path"] < 9 else len(good))]
        pls = self.truth_chain(path)
        now = int(CLOCK.now)
        for p, life in zip(pls, op["life"]):
            p["exp"] = now + life
        st = [{"p": p, "k": self.signer(p["iss"]), "hdr": {}} for p in pls]
        notes = []
        for m in op["mut"]:
            st = self.mutate(st, m, now, path, tid) or st
            notes.append(m["how"])
        out = []
        for s in st:
            if "raw" in s:
                out.append(s["raw"])
                continue
            j = jose.sign(s["p"], s["k"], alg=s.get("alg", "RS256"), kid=s.get("kid"))
            if s.get("edit"):
                h, p, sig = j.split(".")
                pl = json.loads(jose.b64d(p))
                pl.update(s["edit"])
                j = ".".join([h, jose.b64e(json.dumps(pl, sort_keys=True).encode()), sig])
            out.append(j)
        return out, "+".join(notes)

    def mutate(self, st, m, now, path, tid):
        how, i, key, other = m["how"], m["at"] % len(st), m["key"], m["other"]
        s = st[i]
        if "raw" in s:
            return
        if how == "forge":
            s["kid"] = jose.public_jwk(s["k"])["kid"]
            s["k"] = key
        elif how == "forge_kid":
            s["k"] = key
        elif how == "none":
            s["alg"] = "none"
        elif how == "hs256":
            s["alg"] = "HS256"
        elif how == "edit":
            s["edit"] = {"jwks": jose.jwks(key)} if m["dt"] else {"metadata": {"federation_entity": {"organization_name": "evil"}}}
        elif how == "drop":
            return st[:i] + st[i + 1:] if len(st) > 1 else None
        elif how == "dup":
            return st[:i] + [s] + st[i:]
        elif how == "swap" and len(st) > 1:
            j = (i + 1) % len(st)
            st[i], st[j] = st[j], st[i]
        elif how == "wrong_iss":
            s["p"]["iss"] = other
            s["k"] = self.signer(other)
        elif how == "ec_att":
            st[-1] = {"p": dict(st[-1]["p"], jwks=jose.jwks(key)), "k": key}
        elif how == "ec_other" and other in self.specs:
            st[-1] = {"p": fed.ec_payload(self.specs[other], now), "k": self.signer(other)}
        elif how == "expired":
            s["p"]["exp"] = now - 1 - m["dt"]
        elif how == "edge":
            s["p"]["exp"] = now + m["dt"] - 1
        elif how == "exp_cut":
            s["p"]["exp"] = now + 20
        elif how == "own_anchor":
            # the adversary's own trust anchor on top
            st[0]["p"] = dict(st[0]["p"], iss="https://evil.example.com")
            st[0]["k"] = key
        elif how in ("anchor_att", "anchor_nokid"):
            # anchor's name, adversary's key; everything below re-vouched
            st[0]["k"] = key
            if how == "anchor_att":
                st[0]["kid"] = jose.public_jwk(self.signer(st[0]["p"]["iss"]))["kid"]
            st[0]["p"] = dict(st[0]["p"], jwks=jose.jwks(key))
            for x in st[1:]:
                x["k"] = key
                x["p"] = dict(x["p"], jwks=jose.jwks(key))
        elif how == "insider" and len(st) > 2:
            # an intermediate speaks in its superior's name with its own key
            s["p"]["iss"] = st[0]["p"]["iss"]
            s["k"] = self.signer(path[-2])
        elif how == "no_jwks":
            s["p"].pop("jwks", None)
        elif how == "old_key":
            iss = s["p"]["iss"]
            if self.old_keys.get(iss):
                s["k"] = self.old_keys[iss][-1]
            else:
                return
        elif how == "not_jws":
            s["raw"] = ["", "a.b.c", "not a jws", s["p"]["iss"]][m["dt"] % 4]
        elif how == "leaf_issues":
            # the subject vouches for somebody else
            st.append({"p": {"iss": path[0], "sub": other, "iat": now, "exp": now + 3600, "jwks": jose.jwks(key)},
                       "k": self.signer(path[0])})
            st.append({"p": {"iss": other, "sub": other, "iat": now, "exp": now + 3600, "jwks": jose.jwks(key), "metadata": {}},
                       "k": key})
        elif how == "superior_key":
            j = (i - 1) % len(st)
            s["k"] = st[j]["k"]
        elif how == "jwks_of_att":
            s["p"]["jwks"] = jose.jwks(key)
        else:
            return
        return st

    def op_advance(self, op):
        CLOCK.advance(op["dt"])
        self.ctx.ev("advance", op["dt"])

    def op_skew(self, op):
        if op["node"] in self.specs:
            CLOCK.offset[op["node"]] = op["dt"]
            self.skewed = True
            self.w.net.bump("clock_skew")
            self.ctx.ev("skew", op["node"], op["dt"])

    def op_rule(self, op):
        r = dict(op["rule"])
        if r["fault"] == "tamper":
            r["fn"] = self.tamper_fn(r)
            if r["how"] == "hint_evil":
                self.evil_hints.append((r["host"], "https://evil.example.com"))
                self.evil_hints.append((r["host"], r["other"]))
        self.w.net.add_rule(r)
        self.ctx.ev("rule", r["host"], r["kind_of"], r["fault"], r.get("how", ""), r["n"], r["skip"])

    def op_assault(self, op):
        """Attack or disturb the documents this very resolution needs."""
        tid = op["target"]
        paths = self.hint_paths(tid)
        on_path = sorted({x for p in paths for x in p if x in self.specs}) or sorted(self.specs)
        if op["cold"]:
            self.op_bounce({"node": self.V})
        for r in op["rules"]:
            r = dict(r)
            r["host"] = on_path[r.pop("at") % len(on_path)]
            self.op_rule({"rule": r})
        self.op_resolve({"target": tid, "api": "gvtc"})
        if op["heal"]:
            self.w.net.clear_rules()
            self.op_resolve({"target": tid, "api": "gvtc"})

    def op_ctx_save(self, op):
        from fedservice import save_trust_chains
        out, tcs = self.resolve(op["target"])
        if tcs:
            save_trust_chains(self.w.nodes[self.V].fe.context, tcs)
            self.ctx_saved = getattr(self, "ctx_saved", []) + [op["target"]]

    def op_ctx_get(self, op):
        from fedservice import get_trust_chain
        saved = getattr(self, "ctx_saved", [])
        if not saved or self.V in self.w.net.down:
            return
        tid = saved[op["i"] % len(saved)]
        out = self.w.op(self.V, get_trust_chain, self.w.nodes[self.V].fe.context, tid)
        got = list((out.value or {}).values()) if out.ok else []
        self.ctx.ev("ctx_get", tid, out.short(), len(got))
        self.judge(got, tid, out.t1, self.V, "kept")
        self.ctx.probe("kept_asked")
        if got:
            self.ctx.probe("kept_given")

    def tamper_fn(self, r):
        how, key, other = r["how"], r["key"], r["other"]

        def fn(net_, host, kind, query, body):
            p = jose.parse(body)
            if p is None:
                return None
            hdr, pl = p
            pl = copy.deepcopy(pl)
            iss = pl.get("iss")
            real = self.signer(iss)
            if how == "forge_same_kid":
                return jose.sign(pl, key, kid=hdr.get("kid"))
            if how == "self_jwks":
                pl["jwks"] = jose.jwks(key)
                return jose.sign(pl, key)
            if how == "alg_none":
                pl["jwks"] = jose.jwks(key)
                return jose.sign(pl, key, alg="none")
            if how == "hs256":
                pl["jwks"] = jose.jwks(key)
                return jose.sign(pl, real, alg="HS256")
            if how == "edit":
                h, b, s = body.split(".")
                pl["jwks"] = jose.jwks(key)
                return ".".join([h, jose.b64e(json.dumps(pl).encode()), s])
            if how == "old_key":
                old = self.old_keys.get(iss)
                if not old:
                    return None
                if kind == "fetch":
                    pl["jwks"] = jose.jwks(key)
                return jose.sign(pl, old[-1])
            if how == "reissue_iss":
                pl["iss"] = other
                return jose.sign(pl, key)
            if how == "swap_sub":
                pl["sub"] = other
                return jose.sign(pl, real)
            if how == "expired":
                pl["exp"] = int(CLOCK.now) - 5
                return jose.sign(pl, real)
            if how == "soon":
                pl["exp"] = int(CLOCK.now) + 40
                return jose.sign(pl, real)
            if how == "no_jwks":
                pl.pop("jwks", None)
                return jose.sign(pl, real)
            if how == "hint_evil" and kind == "ec":
                pl["authority_hints"] = list(pl.get("authority_hints") or []) + ["https://evil.example.com", other]
                pl["jwks"] = jose.jwks(key)
                return jose.sign(pl, key)
            if how == "other_anchor" and kind == "fetch":
                pl["jwks"] = {"keys": jose.jwks(key)["keys"] + (pl.get("jwks") or {}).get("keys", [])}
                return jose.sign(pl, key)
            return None
        return fn

    def op_heal(self, op):
        self.heal()
        self.ctx.ev("heal")

    def heal(self):
        self.w.net.clear_rules()
        self.w.net.cut.clear()
        for n in sorted(self.w.net.down):
            self.w.restart(n)

    def op_cut(self, op):
        if op["node"] != self.V and op["node"] in self.specs:
            self.w.net.cut.add(frozenset((self.V, op["node"])))
            self.w.net.bump("partition")
            self.ctx.ev("cut", op["node"])

    def op_blackout(self, op):
        for n in self.specs:
            if n != self.V:
                self.w.net.cut.add(frozenset((self.V, n)))
        self.w.net.bump("partition_all")
        self.ctx.ev("blackout")

    def op_crash(self, op):
        if self.w.crash(op["node"]):
            self.ctx.ev("crash", op["node"])

    def op_restart(self, op):
        if self.w.restart(op["node"]):
            self.ctx.ev("restart", op["node"])

    def op_bounce(self, op):
        if self.w.crash(op["node"]) and self.w.restart(op["node"]):
            if op["node"] == self.V:
                self.suspect = set()
                self.ec_subst = False
            self.ctx.ev("bounce", op["node"])

    def rebuild(self, nid):
        n = self.w.nodes[nid]
        if n.real and nid not in self.w.net.down:
            n.start()

    def op_rotate(self, op):
        s = self.specs.get(op["node"])
        if s is None:
            return
        old = s["keys"]
        if op["key"] in old:
            return
        self.old_keys.setdefault(s["id"], []).append(old[0])
        new = [op["key"]] + (old[:1] if op["how"] == "overlap" else [])
        s["keys"] = new
        self.changed = True
        if op["how"] != "halfway":
            for sup in self.sup_list():
                if s["id"] in (sup.get("subs") or {}) and sup["id"] != "https://evil.example.com":
                    sup["subs"][s["id"]]["keys"] = list(new)
                    self.w.sync(sup["id"])
        self.rebuild(s["id"])
        self.ctx.probe("rotated")
        self.ctx.ev("rotate", s["id"], op["how"])

    def op_deregister(self, op):
        s, sub = self.pick_reg(op)
        if s is None:
            return
        del s["subs"][sub]
        self.changed = True
        self.w.sync(s["id"])
        self.ctx.ev("deregister", s["id"], sub)

    def op_register(self, op):
        sups = self.sup_list()
        s = sups[op["sup"] % len(sups)]
        others = [x for x in self.specs.values() if x["kind"] in ("int", "leaf") and x["id"] != s["id"]]
        if not others:
            return
        o = others[op["sub"] % len(others)]
        if s.get("subs") is None:
            return
        s["subs"].setdefault(o["id"], {"keys": list(o["keys"]), "life": 3600})
        self.w.sync(s["id"])
        if op["hint"] and s["id"] not in o["hints"]:
            o["hints"].append(s["id"])
            self.rebuild(o["id"])
        self.changed = True
        self.ctx.ev("register", s["id"], o["id"])

    def op_unhint(self, op):
        s = self.specs.get(op["node"])
        if s and len(s.get("hints") or []) > 1:
            s["hints"].pop(op["i"] % len(s["hints"]))
            self.rebuild(s["id"])
            self.changed = True
            self.ctx.ev("unhint", s["id"])

    def op_setconstraints(self, op):
        s, sub = self.pick_reg(op)
        if s is None:
            return
        s["subs"][sub]["constraints"] = op["value"]
        self.w.sync(s["id"])
        self.changed = True
        self.ctx.ev("setconstraints", s["id"], sub)

    def op_setpolicy(self, op):
        s, sub = self.pick_reg(op)
        if s is None:
            return
        s["subs"][sub]["policy"] = op["value"]
        self.w.sync(s["id"])
        self.changed = True
        self.ctx.ev("setpolicy", s["id"], sub)

    def op_setmd(self, op):
        s = self.specs.get(op["target"])
        if s and s["impl"] == "peer" and s["kind"] == "leaf":
            s["md"] = op["value"]
            self.changed = True
            self.ctx.ev("setmd", s["id"])

    def op_priority(self, op):
        tas = sorted(s["id"] for s in self.specs.values() if s["kind"] == "ta")
        pr = [tas[i] for i in op["order"] if i < len(tas)][:op["len"]]
        self.specs[self.V]["priority"] = pr
        if self.V not in self.w.net.down:
            self.w.nodes[self.V].fe.context.tr_priority = list(pr)
        self.ctx.ev("priority", *pr)

    def op_outage(self, op):
        """A resolution that just worked keeps working while everybody is away (C05)."""
        tid = op["target"]
        if self.V in self.w.net.down or tid == self.V:
            return
        self.heal()
        if self.skewed:
            CLOCK.offset.clear()
        self.resolve(tid)
        out, a = self.resolve(tid)
        if not a or out.requests:
            # something is not kept (lifetimes too short): asked again right away it would be fetched again
            spec_ok = a and all(min(jose.parse(s)[1]["exp"] for s in c.chain) - out.t1 > 3000 for c in a)
            if not (spec_ok and self.kept_long(a, tid)):
                self.ctx.ev("outage", tid, "n/a")
                return
        saved = set(self.w.net.cut)
        for n in self.specs:
            if n != self.V:
                self.w.net.cut.add(frozenset((self.V, n)))
        o2, b = self.resolve(tid)
        self.w.net.cut = saved
        if b is None:
            return
        self.ctx.checks += 1
        self.ctx.probe("outage")
        pa, pb = {tuple(c.iss_path) for c in a}, {tuple(c.iss_path) for c in b}
        if not pa <= pb:
            self.v("C05", "outage", "outage-lost", f"chains for {tid} resolved a moment ago are gone while the network is "
                                                   f"down although every statement is valid: {sorted(pa - pb)}")

    def kept_long(self, tcs, tid):
        """Every document behind these chains - also the configurations of the superiors - lives > 3000 s."""
        for c in tcs:
            for iss in c.iss_path:
                s = self.specs.get(iss)
                if s is None or (s["impl"] == "peer" and s.get("ec_life", 86400) < 3000):
                    return False
        return True

    def op_recover(self, op):
        """Faults stop; the same node finds exactly what the federation defines (unchanged federation)."""
        tid = op["target"]
        self.heal()
        CLOCK.offset.clear()
        if self.changed or self.ec_subst or self.skewed:
            self.ctx.ev("recover", "n/a")
            return
        tcs = None
        for i in range(3):
            out, tcs = self.resolve(tid)
            exp = self.expected(tid)
            if tcs is not None and {tuple(t.iss_path) for t in tcs} == set(exp):
                break
        if tcs is not None:
            self.ctx.probe("recovered")
            self.complete(tcs, tid, "recovery", exact=True, props=("C06",))

    def op_audit(self, op):
        """Everything quiet and everything old expired: old and new nodes find exactly what is defined now."""
        self.heal()
        CLOCK.offset.clear()
        CLOCK.advance(self.max_life + 700 + (100000 if self.skewed else 0))
        self.skewed = False
        targets = sorted(n for n, s in self.specs.items() if s["kind"] != "verifier")
        vs = dict(self.specs[self.V])
        vs.update(id="https://verifier2.example.org", keys=[23], anchor_keys=copy.deepcopy(self.specs[self.V]["anchor_keys"]))
        self.w.add(vs)
        for t in targets:
            out, tcs = self.resolve(t, "stored" if len(t) % 2 else "gvtc")
            if tcs is not None:
                self.complete(tcs, t, "audit", exact=True)
        for t in targets:
            out, tcs = self.resolve(t, vid=vs["id"])
            if tcs is not None:
                self.complete(tcs, t, "audit-fresh", vid=vs["id"], exact=True)
        self.suspect = set()
        self.ec_subst = False
        self.changed = False
        self.ctx.probe("audited")
        self.ctx.ev("audit")
        # the extra verifier is for this audit only
        self.w.nodes.pop(vs["id"])
        self.w.net.nodes.pop(vs["id"])
        self.specs.pop(vs["id"])


def classify(text):
    """Signature of a fault: without identifiers and numbers."""
    import re
    t = re.sub(r"https?://\S+", "X", text)
    t = re.sub(r"\d+", "N", t)
    return t[:90]


def reference_metadata(pls):
    """Metadata per entity type the chain's policies give.  None: conflict or not met -> no metadata is handed
    out; '?': an operator combination the code refuses as a whole (not claimed either way)."""
    own = pls[-1].get("metadata") or {}
    res = {}
    unsure = False
    for etype, md in own.items():
        combined = {}
        sup_md = {}
        for p in pls[:-1]:
            pol = (p.get("metadata_policy") or {}).get(etype) or {}
            for claim, rule_ in pol.items():
                if "value" in rule_ and set(rule_) & {"one_of", "subset_of", "superset_of", "add", "default"}:
                    unsure = True
                prev = combined.get(claim, {})
                both = set(prev) | set(rule_)
                if "value" in prev and set(rule_) - {"value", "essential"}:
                    unsure = True
                if "value" in both and both - {"value", "essential"}:
                    unsure = True
                if "one_of" in both and both & {"subset_of", "superset_of"}:
                    unsure = True
                if "add" in both and len(both - {"essential"}) > 1:
                    unsure = True
                if "default" in both and len(both - {"essential"}) > 1:
                    unsure = unsure or not fits_default(prev, rule_)
                if {"subset_of", "superset_of"} <= both:
                    unsure = True
                for o in ("value", "default"):
                    if o in prev and o in rule_ and prev[o] != rule_[o]:
                        unsure = True   # same list in another order: equal or a conflict
                if prev.get("essential") is True and rule_.get("essential") is False:
                    unsure = True       # conflict or OR: editions of the specification differ
                try:
                    combined[claim] = oracle.combine_claim(prev, rule_)
                except oracle.PolicyConflict:
                    return None
            for claim, val in ((p.get("metadata") or {}).get(etype) or {}).items():
                if claim in sup_md and sup_md[claim] != val:
                    return None
                sup_md[claim] = val
        out = dict(sup_md)
        out.update(copy.deepcopy(md))
        for claim, rule_ in combined.items():
            if "value" in rule_:
                out[claim] = rule_["value"]
                if "essential" in rule_ or True:
                    pass
                # the rest must hold for the value
                if oracle.policy_violations({claim: {k: v for k, v in rule_.items() if k != "value"}}, out):
                    return None
                continue
            if "add" in rule_:
                have = oracle.as_list(out[claim]) if claim in out else []
                out[claim] = have + [x for x in oracle.as_list(rule_["add"]) if x not in have]
            if "default" in rule_ and claim not in out:
                out[claim] = rule_["default"]
            if claim in out:
                v = out[claim]
                if "one_of" in rule_ and v not in oracle.as_list(rule_["one_of"]):
                    return None
                if "subset_of" in rule_:
                    if isinstance(v, list):
                        v = [x for x in v if x in rule_["subset_of"]]
                        if not v:
                            return None
                        out[claim] = v
                    elif v not in rule_["subset_of"]:
                        return None
                if "superset_of" in rule_ and not all(x in oracle.as_list(v) for x in rule_["superset_of"]):
                    return None
            elif rule_.get("essential") is True:
                return None
        res[etype] = out
    return "?" if unsure else res


def fits_default(prev, rule_):
    """Is the default within the other rules of the claim (else the code refuses the combination)?"""
    m = dict(prev)
    m.update(rule_)
    d = oracle.as_list(m["default"])
    if "one_of" in m and not all(x in m["one_of"] for x in d):
        return False
    if "subset_of" in m:
        s = set(m["subset_of"])
        if "subset_of" in prev and "subset_of" in rule_:
            s = set(prev["subset_of"]) & set(rule_["subset_of"])
        if "one_of" in prev and "one_of" in rule_:
            return False
        return set(d) <= s
    if "one_of" in prev and "one_of" in rule_:
        return set(d) <= set(prev["one_of"]) & set(rule_["one_of"])
    if "superset_of" in m:
        return False
    return True


REAL = ["trust chain collector", "trust chain verifier", "constraints", "metadata policy", "statement caches", "key jar",
        "fetch / entity configuration / list / resolve endpoints of real authorities", "requests down to its transport"]
STUB = ["HTTP server front end", "scripted peers (same documents, no fedservice code)", "network", "clock", "randomness"]
ASSUMPTIONS = ["signatures cannot be forged without the key", "the reference in sim/oracle.py and sim/fedscn.py states the "
               "OpenID Federation rules for chains, constraints and policies correctly", "endpoints are called through the same "
               "parse / process / respond sequence as the Flask views of the project's examples"]


def run(scn, ctx):
    Run(scn, ctx).run()


def simplify(scn):
    """Candidates with a simpler federation."""
    specs = scn["specs"]
    for i, s in enumerate(specs):
        if s["kind"] in ("int", "leaf"):
            c = copy.deepcopy(scn)
            del c["specs"][i]
            for o in c["specs"]:
                if s["id"] in (o.get("hints") or []):
                    o["hints"].remove(s["id"])
                (o.get("subs") or {}).pop(s["id"], None)
            yield c
    for i, s in enumerate(specs):
        for sub, e in (s.get("subs") or {}).items():
            for f in ("constraints", "policy", "md", "types", "life"):
                if e.get(f):
                    c = copy.deepcopy(scn)
                    c["specs"][i]["subs"][sub].pop(f)
                    yield c
            pol = e.get("policy") or {}
            for t in pol:
                for cl in pol[t]:
                    c = copy.deepcopy(scn)
                    del c["specs"][i]["subs"][sub]["policy"][t][cl]
                    yield c
        for f in ("policies", "anchors" if s["kind"] != "verifier" else "policies"):
            if s.get(f):
                c = copy.deepcopy(scn)
                c["specs"][i].pop(f)
                yield c
        if len(s.get("hints") or []) > 1:
            for h in s["hints"]:
                c = copy.deepcopy(scn)
                c["specs"][i]["hints"].remove(h)
                yield c
    for i, o in enumerate(scn["ops"]):
        if o["op"] == "present" and o["mut"]:
            for j in range(len(o["mut"])):
                c = copy.deepcopy(scn)
                del c["ops"][i]["mut"][j]
                yield c
