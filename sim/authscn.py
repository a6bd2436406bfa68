"""Scenarios about what an authority says: statements, configurations (C07), lists and trawling (C16)."""
import copy
import json
from urllib.parse import urlencode

from . import env, fed, fedscn, jose, oracle
from .env import CLOCK
from .fedscn import FREE

TYPES = ["openid_relying_party", "openid_provider", "oauth_client"]
MARKS = ["https://marks.example.org/a", "https://marks.example.org/b"]
V = fedscn.Run.V


class Gen(fedscn.Gen):
    """Topologies whose authorities run the real code, with richer registries."""

    def __init__(self, rng, **k):
        super().__init__(rng, **k)
        self.k.setdefault("rich", 0.6)
        self.k.setdefault("modes", 0.4)
        self.k.setdefault("typed", 0.0)

    def enrich(self, specs):
        r = self.rng
        for s in specs:
            if s["kind"] in ("ta", "int"):
                if self.p(self.k["modes"]):
                    s["aliased"] = True
                for sub in sorted(s.get("subs") or {}):
                    self.entry(s, sub)
                for t in TYPES:
                    if self.p(0.35 * (self.k["rich"] > 0)):
                        s.setdefault("policies", {})[t] = self.type_policy()
            if s["impl"] == "real" and s["kind"] != "verifier":
                if s.get("hints") and self.p(self.k["modes"]):
                    s["hints_mode"] = r.choice(["file", "function"])
                if self.p(0.4):
                    s["marks"] = [self.mark(s["id"], r.choice(MARKS)) for _ in range(r.randint(1, 2))]
                    s["marks_mode"] = r.choice(["list", "list", "file", "function"])
                s["pref"] = self.pref(s["id"])
        return specs

    def pref(self, eid):
        r = self.rng
        p = {"organization_name": "org of " + eid}
        if self.p(0.5):
            p["contacts"] = r.sample(["a@x.org", "b@x.org", "c@x.org"], r.randint(1, 2))
        if self.p(0.4):
            p["homepage_uri"] = "https://home.example.org/" + str(r.randint(0, 9))
        return p

    def mark(self, sub, mid):
        # what a mark says is no business of the configuration that carries it
        return jose.sign({"iss": "https://marks.example.org", "sub": sub, "id": mid, "iat": env.EPOCH}, 19)

    def entry(self, s, sub):
        """Make one registration richer."""
        r = self.rng
        e = s["subs"][sub]
        if not self.p(self.k["rich"]):
            return
        for f, p in (("life", 0.4), ("constraints", 0.4), ("policy", 0.4), ("types", 0.6), ("md", 0.25), ("own", 0.3), ("hints", 0.15)):
            if self.p(p):
                self.edit(s, sub, f, self.value(f, s, sub))

    def value(self, f, s, sub):
        r = self.rng
        if f == "life":
            return r.choice([60, 600, 3600, 86400, 172800])
        if f == "constraints":
            return self.constraint([{"id": sub}, {"id": s["id"]}])
        if f == "policy":
            return self.policies_for(r.sample(TYPES, r.randint(1, 2)))
        if f == "types":
            return r.sample(TYPES, r.randint(1, 2))
        if f == "etypes":
            return r.sample(TYPES, r.randint(1, 2))
        if f == "md":
            return {r.choice(TYPES): {"x_said": "by " + s["id"], "x_n": r.randint(0, 9)}}
        if f == "own":
            v = {}
            if self.p(0.8):
                v["metadata_policy"] = self.policies_for(r.sample(TYPES, r.randint(1, 2)))
            if self.p(0.4) or not v:
                v["metadata"] = {r.choice(TYPES): {"x_own": r.randint(0, 9)}}
            return v
        if f == "hints":
            return [s["id"], "https://other.example.org"][: r.randint(1, 2)]
        if f == "keys":
            return [r.choice(FREE) for _ in range(r.choice([1, 1, 2]))]
        if f == "intermediate":
            return True if self.p(0.6) else None

    def edit(self, s, sub, f, val):
        if f == "own":
            if val:
                s.setdefault("policies", {})[sub] = val
            else:
                (s.get("policies") or {}).pop(sub, None)
            return
        e = s["subs"][sub]
        if val is None:
            if f != "keys":
                e.pop(f, None)
        else:
            if f == "keys":
                val = sorted(set(val))
            e[f] = val

    def policies_for(self, types):
        out = {}
        for t in types:
            p = self.policy()
            out[t] = p or {"contacts": {"essential": True}}
        return out

    def type_policy(self):
        v = {}
        if self.p(0.85):
            v["metadata_policy"] = self.policy() or {"contacts": {"essential": True}}
        if self.p(0.3) or not v:
            v["metadata"] = {"x_type": self.rng.randint(0, 9)}
        return v


EDITS = ["life", "constraints", "policy", "types", "md", "own", "hints", "keys", "intermediate"]

OPS = {
    "fetch": lambda r, g: {"op": "fetch", "a": r.randint(0, 9), "s": r.randint(0, 19), "what": r.choices(
        ["sub", "former", "unknown", "self", "none", "odd"], [8, 2, 1, 1, 1, 1])[0],
        "iss": r.choices(["no", "own", "foreign", "empty"], [5, 3, 1, 1])[0], "odd": r.randint(0, 5)},
    "sweep": lambda r, g: {"op": "sweep", "a": r.randint(0, 9), "seed": r.randint(0, 99)},
    "ec": lambda r, g: {"op": "ec", "n": r.randint(0, 19)},
    "edit": lambda r, g: {"op": "edit", "a": r.randint(0, 9), "s": r.randint(0, 19), "f": r.choice(EDITS), "off": r.random() < 0.25,
                          "value": None},
    "typepol": lambda r, g: {"op": "typepol", "a": r.randint(0, 9), "t": r.choice(TYPES),
                             "value": g.type_policy() if r.random() < 0.75 else None},
    "dereg": lambda r, g: {"op": "dereg", "a": r.randint(0, 9), "s": r.randint(0, 19)},
    "reg": lambda r, g: {"op": "reg", "a": r.randint(0, 9), "s": r.randint(0, 19), "keys": [r.choice(FREE)],
                         "life": r.choice([None, 120, 3600]), "types": r.sample(TYPES, r.randint(0, 2)), "new": r.random() < 0.5},
    "rekey": lambda r, g: {"op": "rekey", "n": r.randint(0, 19), "key": r.choice(FREE), "keep": r.random() < 0.4},
    "hint": lambda r, g: {"op": "hint", "n": r.randint(0, 19), "to": r.randint(0, 9), "add": r.random() < 0.6},
    "remark": lambda r, g: {"op": "remark", "n": r.randint(0, 19), "k": r.randint(0, 2)},
    "pref": lambda r, g: {"op": "pref", "n": r.randint(0, 19), "value": g.pref("https://new.example.org")},
    "bounce": lambda r, g: {"op": "bounce", "n": r.randint(0, 19)},
    "down": lambda r, g: {"op": "down", "n": r.randint(0, 19)},
    "advance": lambda r, g: {"op": "advance", "dt": r.choice([1, 10, 100, 599, 601, 4000, 90000])},
    "skew": lambda r, g: {"op": "skew", "n": r.randint(0, 19), "dt": r.choice([-3600, -60, 0, 5, 3600])},
    "traffic": lambda r, g: {"op": "traffic", "n": r.randint(0, 19), "how": r.choice(["resolve", "list", "endpoint", "md"]),
                             "m": r.randint(0, 9)},
    "list": lambda r, g: {"op": "list", "a": r.randint(0, 9), "q": query(r), "via": r.choice(["http", "http", "client"]),
                          "bogus": r.random() < 0.1},
    "trawl": lambda r, g: {"op": "trawl", "a": r.randint(0, 9), "s": r.randint(0, 9), "t": r.choice(TYPES), "cold": r.random() < 0.5},
    "rule": lambda r, g: {"op": "rule", "rule": fedscn.rule(r, g.specs)},
    "heal": lambda r, g: {"op": "heal"},
    "cut": lambda r, g: {"op": "cut", "n": r.randint(0, 19), "m": r.randint(0, 19)},
    "flip": lambda r, g: {"op": "flip", "a": r.randint(0, 9), "s": r.randint(0, 19)},
    "audit": lambda r, g: {"op": "audit"},
    "laudit": lambda r, g: {"op": "laudit"},
}


def query(r):
    q = {}
    if r.random() < 0.6:
        q["entity_type"] = r.choice(TYPES + ["federation_entity"] if r.random() < 0.1 else TYPES)
    if r.random() < 0.35:
        q["intermediate"] = "True"
    if r.random() < 0.3:
        q["trust_marked"] = "True"
    if r.random() < 0.3:
        q["trust_mark_id"] = r.choice(MARKS)
    return q


def gen(rng, weights, n=(8, 20), tail=("audit",), **knobs):
    g = Gen(rng, **knobs)
    g.specs = g.topology()
    for s in g.specs:
        if s["kind"] in ("ta", "int") and g.p(knobs.get("real_auth", 1.0)):
            s["impl"] = "real"
            s["md"] = {}
            s.pop("ec_life", None)
    g.enrich(g.specs)
    if g.k["typed"]:
        for s in g.specs:
            if s["kind"] == "leaf":
                s["impl"] = "peer"
                s["md"] = {t: {"organization_name": "x"} for t in rng.sample(TYPES, rng.randint(1, 2))}
            for sub, e in sorted((s.get("subs") or {}).items()):
                o = next(x for x in g.specs if x["id"] == sub)
                if o["kind"] == "leaf":
                    e["types"] = sorted(o["md"])
                elif g.p(0.2):
                    e["types"] = [rng.choice(TYPES)]
                if g.p(0.25) and e.get("types"):
                    e["etypes"] = e.pop("types")
    names = list(weights)
    ops = []
    for _ in range(rng.randint(*n)):
        o = OPS[rng.choices(names, [weights[x] for x in names])[0]](rng, g)
        if o["op"] == "edit" and not o["off"]:
            auth = [s for s in g.specs if s["kind"] in ("ta", "int")]
            a = auth[o["a"] % len(auth)]
            o["value"] = g.value(o["f"], a, sorted(a["subs"])[o["s"] % len(a["subs"])] if a["subs"] else a["id"])
        ops.append(o)
    for t in tail:
        ops.append(OPS[t](rng, g))
    return {"specs": g.specs, "ops": ops, "oracles": []}


class Run(fedscn.Run):
    def __init__(self, scn, ctx):
        self.scn_specs = scn["specs"]
        super().__init__(scn, ctx)
        self.former = {}
        self.g = Gen.__new__(Gen)
        self.faulty = False
        self.ec_changed = False

    # -- who -----------------------------------------------------------------------------------
    def auth(self, i, real=True):
        a = [s for s in self.sup_list() if not real or s["impl"] == "real"]
        return a[i % len(a)] if a else None

    def node(self, i):
        a = [s for s in self.specs.values() if s["kind"] != "verifier"]
        return a[i % len(a)]

    def sub(self, a, i):
        subs = sorted(a.get("subs") or {})
        return subs[i % len(subs)] if subs else None

    def up(self, nid):
        return nid not in self.w.net.down

    def run(self):
        try:
            for op in self.scn["ops"]:
                getattr(self, "op_" + op["op"])(op)
                self.registry_intact(op["op"])
                if len(self.ctx.violations) > 4:
                    break
        finally:
            self.ctx.absorb(self.w)
            self.w.close()

    # -- invariants ------------------------------------------------------------------------------
    def registry_intact(self, after):
        """What the operator put into a running authority's registry is what is in there."""
        for s in self.sup_list():
            if s["impl"] != "real" or not self.up(s["id"]):
                continue
            srv = self.w.nodes[s["id"]].fe.server
            self.ctx.checks += 1
            want = {k: fed.registry_entry(e) for k, e in (s.get("subs") or {}).items()}
            have = {k: oracle.plain(v) for k, v in srv.subordinate.items()}
            if oracle.ckey(want) != oracle.ckey(have):
                d = [k for k in set(want) | set(have) if oracle.ckey(want.get(k)) != oracle.ckey(have.get(k))]
                self.v("C07", "registry", "registry-changed", f"after {after}: registry of {s['id']} changed for {sorted(d)}: registered "
                                                              f"{want.get(d[0])}, now {have.get(d[0])}")
            wantp = s.get("policies") or {}
            havep = {k: oracle.plain(v) for k, v in srv.policy.items()}
            if oracle.ckey(wantp) != oracle.ckey(havep):
                d = [k for k in set(wantp) | set(havep) if oracle.ckey(wantp.get(k)) != oracle.ckey(havep.get(k))]
                self.v("C07", "registry", "policy-changed", f"after {after}: policies of {s['id']} changed for {sorted(d)}")

    def get(self, nid, path, q=None):
        t0 = CLOCK.node_time(nid)
        res = self.w.http("GET", nid + path + ("?" + urlencode(q) if q else ""))
        return t0, CLOCK.node_time(nid), res

    def check_statement(self, a, sub, body, t0, t1, how):
        """``body`` claims to be what authority ``a`` says about ``sub`` now."""
        aid = a["id"]
        p = jose.parse(body)
        self.ctx.checks += 1
        if p is None:
            self.v("C07", "statement", "not-a-statement", f"{aid} answered a fetch for {sub} with {str(body)[:60]!r}")
            return
        hdr, pl = p
        if not jose.verify(body, jose.jwks(*a["keys"])):
            self.v("C07", "statement", "signature", f"statement of {aid} about {sub} is not signed with a present key of {aid}")
        if pl.get("iss") != aid or pl.get("sub") != sub:
            self.v("C07", "statement", "names", f"statement asked of {aid} about {sub} says iss={pl.get('iss')} sub={pl.get('sub')}")
        want = fed.es_payload(a, sub, t0)
        for c in ("metadata_policy", "metadata", "constraints"):
            if oracle.ckey(want.get(c)) != oracle.ckey(pl.get(c)):
                self.v("C07", "statement", f"wrong:{c}", f"{aid} about {sub} ({how}): {c} is {pl.get(c)}, registered {want.get(c)}")
        kk = lambda j: sorted((k.get("kty"), k.get("n"), k.get("e"), k.get("kid")) for k in (j or {}).get("keys", []))
        if kk(want["jwks"]) != kk(pl.get("jwks")):
            self.v("C07", "statement", "wrong:jwks", f"{aid} about {sub} ({how}): keys {[k[3] for k in kk(pl.get('jwks'))]}, registered "
                                                     f"{[k[3] for k in kk(want['jwks'])]}")
        self.check_times(pl, a["subs"][sub].get("life", 86400), t0, t1, f"{aid} about {sub}")
        if "trust_marks" in pl:
            self.v("C07", "statement", "extra", f"{aid} about {sub}: carries trust marks nobody registered")
        self.ctx.probe("statement")
        if a["subs"][sub].get("types") and a.get("policies"):
            self.ctx.probe("statement_by_type")
        if (a.get("policies") or {}).get(sub):
            self.ctx.probe("statement_own_policy")

    def check_times(self, pl, life, t0, t1, who):
        iat, exp = pl.get("iat"), pl.get("exp")
        if not isinstance(iat, int) or not isinstance(exp, int) or exp - iat != life:
            self.v("C07", "statement", "lifetime", f"{who}: valid {iat}..{exp}, lifetime should be {life}")
        elif not (t0 - 1 <= iat <= t1 + 1):
            self.v("C07", "statement", "iat", f"{who}: issued at {iat}, it is {t1}")

    def check_ec(self, s, body, t0, t1):
        nid = s["id"]
        p = jose.parse(body)
        self.ctx.checks += 1
        if p is None:
            self.v("C07", "configuration", "not-a-statement", f"configuration of {nid} is {str(body)[:60]!r}")
            return
        hdr, pl = p
        if pl.get("iss") != nid or pl.get("sub") != nid:
            self.v("C07", "configuration", "names", f"configuration of {nid} says iss={pl.get('iss')} sub={pl.get('sub')}")
        if not jose.verify(body, jose.jwks(*s["keys"])) or not jose.verify(body, pl.get("jwks") or {}):
            self.v("C07", "configuration", "signature", f"configuration of {nid} is not signed with a key of its own")
        kk = lambda j: sorted(set((k.get("kty"), k.get("n"), k.get("e")) for k in (j or {}).get("keys", [])))
        if kk(jose.jwks(*s["keys"])) != kk(pl.get("jwks")):
            self.v("C07", "configuration", "keys", f"configuration of {nid} does not carry exactly its keys: "
                                                   f"{[k.get('kid') for k in (pl.get('jwks') or {}).get('keys', [])]}")
        if list(pl.get("authority_hints") or []) != list(s.get("hints") or []):
            self.v("C07", "configuration", "hints", f"configuration of {nid} hints at {pl.get('authority_hints')}, configured "
                                                    f"{s.get('hints')}")
        if list(pl.get("trust_marks") or []) != list(s.get("marks") or []):
            self.v("C07", "configuration", "marks", f"configuration of {nid} carries {len(pl.get('trust_marks') or [])} trust marks, "
                                                    f"{len(s.get('marks') or [])} configured, or others")
        fe = (pl.get("metadata") or {}).get("federation_entity") or {}
        for k, v in (s.get("pref") or {}).items():
            if fe.get(k) != v:
                self.v("C07", "configuration", "metadata", f"configuration of {nid}: {k} is {fe.get(k)!r}, configured {v!r}")
        for n in ("fetch", "list", "resolve"):
            have = fe.get(f"federation_{n}_endpoint")
            want = f"{nid}/{n}" if s["kind"] in ("ta", "int") else None
            if have != want:
                self.v("C07", "configuration", "endpoint", f"configuration of {nid}: {n} endpoint is {have}, should be {want}")
        if set(pl.get("metadata") or {}) != {"federation_entity"}:
            self.v("C07", "configuration", "types", f"configuration of {nid} has metadata of types {sorted(pl.get('metadata') or {})}")
        self.check_times(pl, 86400, t0, t1, f"configuration of {nid}")
        self.ctx.probe("configuration")
        if s.get("hints_mode"):
            self.ctx.probe("hints_" + s["hints_mode"])
        if s.get("marks"):
            self.ctx.probe("marks_" + s.get("marks_mode", "list"))

    # -- operations: asking ------------------------------------------------------------------------
    def op_fetch(self, op):
        a = self.auth(op["a"])
        if a is None or not self.up(a["id"]):
            return
        aid, what = a["id"], op["what"]
        sub = None
        if what == "sub":
            sub = self.sub(a, op["s"])
        elif what == "former":
            f = sorted(self.former.get(aid, ()))
            sub = f[op["s"] % len(f)] if f else None
        elif what == "unknown":
            others = sorted(x for x in self.specs if x not in a["subs"] and x != aid)
            sub = (others + ["https://nobody.example.net"])[op["s"] % (len(others) + 1)]
        elif what == "self":
            sub = aid
        elif what == "odd":
            base = self.sub(a, op["s"]) or aid
            sub = [base + "/", base.upper(), base[:-1], " " + base, "openid_relying_party", base.replace("https", "http")][op["odd"] % 6]
        if sub is None and what != "none":
            return
        q = {} if sub is None else {"sub": sub}
        iss = {"no": None, "own": aid, "foreign": self.node(op["s"])["id"], "empty": ""}[op["iss"]]
        if iss is not None:
            q["iss"] = iss
        self.fetch(a, q, what)

    def fetch(self, a, q, what):
        aid = a["id"]
        t0, t1, res = self.get(aid, "/fetch", q)
        st, hd, body = res
        sub = q.get("sub")
        foreign = q.get("iss") not in (None, "", aid)
        self.ctx.ev("fetch", aid, what, sub, q.get("iss"), st)
        if sub and sub in a["subs"] and not foreign:
            if st >= 400:
                self.v("C07", "statement", "refused", f"{aid} does not say anything about its subordinate {sub}: {st} {body}")
                return
            self.check_statement(a, sub, body, t0, t1, what)
            return
        p = jose.parse(body)
        if st < 400 and p is not None:
            pl = p[1]
            if (not sub or sub == aid) and not foreign and pl.get("iss") == aid and pl.get("sub") == aid:
                if not jose.verify(body, jose.jwks(*a["keys"])):
                    self.v("C07", "statement", "signature", f"{aid} about itself: not signed with a present key")
                return
            self.v("C07", "statement", "unregistered" if not foreign else "foreign-name",
                   f"{aid} asked about {sub} (iss={q.get('iss')}) made a statement by {pl.get('iss')} about {pl.get('sub')}")
        elif st < 400:
            self.v("C07", "statement", "unregistered", f"{aid} asked about {sub} (iss={q.get('iss')}) answered {st} {body!r}")
        self.ctx.checks += 1
        self.ctx.probe("refused_foreign" if foreign else "refused")

    def op_sweep(self, op):
        """Every subordinate, in some order, twice."""
        a = self.auth(op["a"])
        if a is None or not self.up(a["id"]):
            return
        for sub in self.mixed(sorted(a["subs"]), op["seed"]) + self.mixed(sorted(a["subs"]), op["seed"] + 1):
            self.fetch(a, {"sub": sub, "iss": a["id"]}, "sweep")
            self.registry_intact("fetch")

    def op_ec(self, op):
        s = self.node(op["n"])
        if s["impl"] != "real" or not self.up(s["id"]):
            return
        t0, t1, (st, hd, body) = self.get(s["id"], "/.well-known/openid-federation")
        self.ctx.ev("ec", s["id"], st)
        if st != 200:
            self.v("C07", "configuration", "refused", f"no configuration from {s['id']}: {st} {body}")
            return
        self.check_ec(s, body, t0, t1)

    def op_audit(self, op):
        self.w.net.clear_rules()
        for n in sorted(self.w.net.down):
            self.w.restart(n)
        for i in range(len(self.specs)):
            self.op_ec({"n": i})
        for a in [x for x in self.sup_list() if x["impl"] == "real"]:
            for sub in sorted(a["subs"]):
                self.fetch(a, {"sub": sub}, "audit")
            for sub in sorted(self.former.get(a["id"], set()) - set(a["subs"])):
                self.fetch(a, {"sub": sub}, "former")
        self.ctx.ev("audit")

    # -- operations: the operators ---------------------------------------------------------------------
    def applied(self, nid):
        n = self.w.nodes[nid]
        return n if n.real and self.up(nid) else None

    def op_edit(self, op):
        a = self.auth(op["a"], real=False)
        sub = a and self.sub(a, op["s"])
        if sub is None or (op["f"] == "keys" and op["value"] is None):
            return
        Gen.edit(self.g, a, sub, op["f"], copy.deepcopy(op["value"]))
        n = self.applied(a["id"])
        if n:
            n.edit_policy(sub) if op["f"] == "own" else n.edit_registry(sub)
        self.ctx.probe("edited")
        self.changed = True
        self.ctx.ev("edit", a["id"], sub, op["f"], op["value"] is not None)

    def op_flip(self, op):
        """Intermediate or not - in the registry only."""
        a = self.auth(op["a"], real=False)
        sub = a and self.sub(a, op["s"])
        if sub is None or self.specs.get(sub, {}).get("kind") != "int":
            return
        e = a["subs"][sub]
        if e.pop("intermediate", None) is None:
            e["intermediate"] = True
        n = self.applied(a["id"])
        if n:
            n.edit_registry(sub)
        self.ctx.ev("flip", a["id"], sub)

    def op_typepol(self, op):
        a = self.auth(op["a"])
        if a is None:
            return
        if op["value"]:
            a.setdefault("policies", {})[op["t"]] = copy.deepcopy(op["value"])
        else:
            (a.get("policies") or {}).pop(op["t"], None)
        n = self.applied(a["id"])
        if n:
            n.edit_policy(op["t"])
        self.changed = True
        self.ctx.ev("typepol", a["id"], op["t"], bool(op["value"]))

    def op_dereg(self, op):
        a = self.auth(op["a"], real=False)
        sub = a and self.sub(a, op["s"])
        if sub is None:
            return
        del a["subs"][sub]
        self.former.setdefault(a["id"], set()).add(sub)
        n = self.applied(a["id"])
        if n:
            n.edit_registry(sub)
        self.changed = True
        self.ctx.probe("deregistered")
        self.ctx.ev("dereg", a["id"], sub)

    def op_reg(self, op):
        a = self.auth(op["a"], real=False)
        if a is None:
            return
        others = sorted(x for x, s in self.specs.items() if s["kind"] in ("int", "leaf") and x != a["id"])
        back = sorted(self.former.get(a["id"], ()))
        sid = back[op["s"] % len(back)] if back and not op["new"] else \
            (others + ["https://newcomer.example.net"])[op["s"] % (len(others) + 1)]
        o = self.specs.get(sid)
        e = {"keys": list(o["keys"]) if o else list(op["keys"])}
        if op["life"]:
            e["life"] = op["life"]
        if op["types"]:
            e["types"] = list(op["types"])
        if o and o["kind"] == "int":
            e["intermediate"] = True
        a["subs"][sid] = e
        n = self.applied(a["id"])
        if n:
            n.edit_registry(sid)
        self.changed = True
        self.ctx.ev("reg", a["id"], sid)

    def op_rekey(self, op):
        s = self.node(op["n"])
        if op["key"] in s["keys"]:
            return
        s["keys"] = [op["key"]] + (s["keys"][:1] if op["keep"] else [])
        for sup in self.sup_list():
            if s["id"] in (sup.get("subs") or {}):
                sup["subs"][s["id"]]["keys"] = list(s["keys"])
                n = self.applied(sup["id"])
                if n:
                    n.edit_registry(s["id"])
        self.rebuild(s["id"])
        self.changed = self.ec_changed = True
        self.ctx.ev("rekey", s["id"])

    def op_hint(self, op):
        s = self.node(op["n"])
        if s["kind"] == "ta" or not s.get("hints"):
            return
        h = self.auth(op["to"], real=False)["id"]
        if op["add"] and h not in s["hints"] and h != s["id"]:
            s["hints"].append(h)
        elif not op["add"] and len(s["hints"]) > 1:
            s["hints"].pop(0)
        else:
            return
        self.changed = True
        if s.get("hints_mode") != "function":
            self.rebuild(s["id"])
        else:
            self.ctx.probe("hints_live")
        self.ctx.ev("hint", s["id"])

    def op_remark(self, op):
        s = self.node(op["n"])
        if s["impl"] != "real" or not s.get("marks"):
            return
        s["marks"] = [jose.sign({"iss": "https://marks.example.org", "sub": s["id"], "id": MARKS[i % 2], "iat": env.EPOCH + i}, 19)
                      for i in range(op["k"])] or s["marks"]
        if s.get("marks_mode") != "function":
            self.rebuild(s["id"])
        self.ec_changed = True
        self.ctx.ev("remark", s["id"], op["k"])

    def op_pref(self, op):
        s = self.node(op["n"])
        if s["impl"] != "real":
            return
        s["pref"] = dict(op["value"])
        self.rebuild(s["id"])
        self.ctx.ev("pref", s["id"])

    def op_bounce(self, op):
        s = self.node(op["n"])
        if op.get("node") == V:
            return super().op_bounce(op)
        if self.w.crash(s["id"]) and self.w.restart(s["id"]):
            self.ctx.ev("bounce", s["id"])

    def op_down(self, op):
        s = self.node(op["n"])
        if self.w.crash(s["id"]):
            self.ctx.ev("crash", s["id"])

    def op_skew(self, op):
        s = self.node(op["n"])
        CLOCK.offset[s["id"]] = op["dt"]
        self.skewed = True
        self.w.net.bump("clock_skew")
        self.ctx.ev("skew", s["id"], op["dt"])

    def op_cut(self, op):
        a, b = self.node(op["n"])["id"], self.node(op["m"])["id"]
        if a != b:
            self.w.net.cut.add(frozenset((a, b)))
            self.w.net.bump("partition")
            self.ctx.ev("cut", a, b)

    def op_rule(self, op):
        self.faulty = True
        super().op_rule(op)

    def op_traffic(self, op):
        """Other queries in between; judged elsewhere."""
        tgt = self.node(op["n"])["id"]
        if op["how"] in ("resolve", "md"):
            self.resolve(tgt, "gvtc" if op["how"] == "resolve" else "md")
            return
        a = self.auth(op["m"])
        if a is None or not self.up(a["id"]):
            return
        if op["how"] == "list":
            res = self.w.http("GET", a["id"] + "/list?" + urlencode([{}, {"entity_type": TYPES[0]}, {"intermediate": "True"},
                                                                    {"trust_marked": "True"}][op["m"] % 4]))
        else:
            res = self.w.http("GET", a["id"] + "/resolve?" + urlencode({"sub": tgt, "anchor": self.auth(op["m"], False)["id"]}))
        self.ctx.ev("traffic", op["how"], a["id"], res[0])

    # -- lists (C16) -------------------------------------------------------------------------------
    def listed(self, a, q):
        """(must, may): the subordinates that match; without trust mark filters both are the same."""
        may, must = set(), set()
        for sub, e in (a.get("subs") or {}).items():
            types = e.get("types") if e.get("types") is not None else e.get("etypes")
            if "entity_type" in q and q["entity_type"] not in (types or []):
                continue
            if "intermediate" in q and not e.get("intermediate"):
                continue
            if "trust_marked" in q or "trust_mark_id" in q:
                s = self.specs.get(sub)
                if s is None or not s.get("marks"):
                    continue
                ids = [jose.parse(m)[1].get("id") for m in s["marks"]]
                if "trust_mark_id" in q and q["trust_mark_id"] not in ids:
                    continue
                signer = jose.public_jwk(s["keys"][0])["kid"]
                if signer not in [jose.public_jwk(k)["kid"] for k in e["keys"]]:
                    continue
                may.add(sub)
                if self.up(sub) and frozenset((a["id"], sub)) not in self.w.net.cut:
                    must.add(sub)
                continue
            may.add(sub)
            must.add(sub)
        return must, may

    def op_list(self, op):
        a = self.auth(op["a"])
        if a is None or not self.up(a["id"]):
            return
        q = dict(op["q"])
        if op["bogus"]:
            q["entity_type"] = "no_such_type"
        self.ask_list(a, q, op["via"])

    def ask_list(self, a, q, via="http"):
        marks = "trust_marked" in q or "trust_mark_id" in q
        mark = len(self.w.net.log)
        if via == "client" and self.up(V):
            fe = self.w.nodes[V].fe
            kw = {k: (v if k in ("entity_type", "trust_mark_id") else True) for k, v in q.items()}
            o = self.w.op(V, lambda: fe.client.do_request("list", entity_id=a["id"], endpoint=a["id"] + "/list", **kw))
            if not o.ok or not isinstance(o.value, list):
                self.ctx.ev("list", a["id"], "client", o.short())
                if not self.noisy(mark):
                    self.v("C16", "list", "refused", f"client got no list from {a['id']} for {q}: {o.short()} {o.value!r:.80}")
                return
            got = o.value
        else:
            t0, t1, (st, hd, body) = self.get(a["id"], "/list", q)
            try:
                got = json.loads(body) if st == 200 else None
            except ValueError:
                got = None
            if not isinstance(got, list):
                self.ctx.ev("list", a["id"], sorted(q.items()), st)
                self.v("C16", "list", "refused", f"no list from {a['id']} for {q}: {st} {body!r:.100}")
                return
        self.ctx.checks += 1
        must, may = self.listed(a, q)
        noisy = self.noisy(mark) if marks or via == "client" else False
        self.ctx.ev("list", a["id"], sorted(q.items()), len(got), noisy)
        if len(got) != len(set(map(str, got))):
            self.v("C16", "list", "twice", f"list of {a['id']} for {q} names an entity twice: {sorted(got)}")
        if noisy and via == "client":
            return
        extra = sorted(set(map(str, got)) - may)
        if extra:
            self.v("C16", "list", "extra", f"list of {a['id']} for {q} names {extra}; matching: {sorted(may)}")
        missing = sorted(must - set(got))
        if missing and not noisy:
            self.v("C16", "list", "missing", f"list of {a['id']} for {q} lacks {missing}")
        if missing and noisy:
            # trouble at one subordinate does not hide the others
            bad = {x[2] for x in self.w.net.log[mark:] if not x[5].startswith("ok2") and x[5] != "404"}
            bad |= {n for n in self.specs for b in list(bad) if n.startswith(b + "/")}
            bad |= self.suspect
            if set(missing) - bad:
                self.v("C16", "list", "missing", f"list of {a['id']} for {q} lacks {sorted(set(missing) - bad)}; trouble was at {sorted(bad)}")
        self.ctx.probe("listed")
        if len(q) > 1:
            self.ctx.probe("list_several_filters")
        if marks and must:
            self.ctx.probe("list_marks")
        if marks and noisy:
            self.ctx.probe("list_marks_faults")
        if must and must != set(a["subs"]):
            self.ctx.probe("list_some")

    def noisy(self, mark):
        log = self.w.net.log[mark:]
        self.note_content_faults(log)
        return any(not x[5].startswith("ok2") and x[5] != "404" for x in log)

    # -- trawling (C16) ----------------------------------------------------------------------------
    def below(self, root, etype):
        """(expected entities, intermediates visited) trawling from ``root``."""
        out, seen, todo = set(), [], [root]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.append(n)
            s = self.specs.get(n)
            if s is None:
                continue
            if etype in fed.peer_metadata(s):
                out.add(n)
            if s["kind"] not in ("ta", "int"):
                continue
            for sub, e in s["subs"].items():
                types = e.get("types") if e.get("types") is not None else e.get("etypes")
                if etype in (types or []):
                    out.add(sub)
                if e.get("intermediate"):
                    todo.append(sub)
        return out, seen

    def op_trawl(self, op):
        a = self.auth(op["a"], real=False)
        subs = sorted(x for x, e in (a["subs"] if a else {}).items() if x in self.specs)
        if not subs or not self.up(V) or a["id"] not in self.anchors():
            return
        sub = subs[op["s"] % len(subs)]
        if op["cold"]:
            super().op_bounce({"node": V})
        self.trawl(a["id"], sub, op["t"])

    def trawl(self, superior, sub, etype):
        want, seen = self.below(sub, etype)
        consistent = all(n in self.specs and self.expected(n) for n in seen) and \
            self.specs[superior]["keys"][0] in self.specs[V]["anchor_keys"].get(superior, []) and \
            all(self.specs[n]["keys"][0] in self.specs[m]["subs"][n]["keys"] for m in [superior] + seen for n in seen
                if m in self.specs and n in (self.specs[m].get("subs") or {}))
        fe = self.w.nodes[V].fe
        mark = len(self.w.net.log)
        o = self.w.op(V, fe.trawl, superior, sub, etype)
        noisy = self.noisy(mark)
        self.ctx.checks += 1
        self.ctx.ev("trawl", superior, sub, etype, o.short(), len(o.value or []) if o.ok else o.where(), o.requests, noisy)
        reach = [n for n in seen if n in self.specs]
        allowed = len(reach) * (6 * max(min(self.edges(n)[0], 400) for n in reach) + 16) + 20
        if self.w.net.runaway or isinstance(o.exc, RecursionError) or o.requests > allowed:
            self.v("C16", "trawl", "runaway", f"trawling {sub} below {superior} made {o.requests} requests; {len(reach)} entities below")
            return
        got = {str(x) for x in (o.value or [])} if o.ok else set()
        if got - want and not self.stale:
            self.v("C16", "trawl", "extra", f"trawling {sub} for {etype} found {sorted(got - want)}, not registered below it")
        if noisy or self.changed or self.suspect or self.w.net.down or self.w.net.cut or self.skewed or not consistent:
            self.ctx.probe("trawl_noisy")
            return
        if not o.ok or want - got:
            self.v("C16", "trawl", "missing", f"trawling {sub} below {superior} for {etype} found {sorted(got)}, expected {sorted(want)} "
                                              f"({o.short()} {o.where()})")
        self.ctx.probe("trawled")
        if len(seen) > 2:
            self.ctx.probe("trawled_deep")
        if any(n in (self.specs[m].get("subs") or {}) for n in seen[:1] for m in seen if m in self.specs):
            self.ctx.probe("trawled_cycle")

    @property
    def stale(self):
        """A kept configuration may be older than the present one."""
        return self.ec_changed

    def op_laudit(self, op):
        self.heal()
        CLOCK.offset.clear()
        self.skewed = False
        CLOCK.advance(self.max_life + 100000 + 700)
        self.suspect = set()
        self.ec_changed = False
        self.changed = False
        super().op_bounce({"node": V})
        for a in [x for x in self.sup_list() if x["impl"] == "real"]:
            for q in ({}, {"entity_type": TYPES[0]}, {"intermediate": "True"}, {"trust_marked": "True"},
                      {"trust_mark_id": MARKS[0], "trust_marked": "True"}, {"entity_type": TYPES[1], "trust_mark_id": MARKS[1]},
                      {"entity_type": TYPES[0], "intermediate": "True"}):
                self.ask_list(a, q)
        for a in [x for x in self.sup_list() if x["id"] in self.anchors()]:
            for sub in sorted(a["subs"]):
                if sub in self.specs:
                    for t in TYPES[:2]:
                        self.trawl(a["id"], sub, t)
        self.ctx.probe("laudit")
        self.ctx.ev("laudit")


REAL = ["fetch / entity configuration / list endpoints", "statement creation and signing", "registry and policy of the server entity",
        "trust chain collector and verifier (list filters, trawling, traffic)", "list client, trawl", "requests down to its transport"]
STUB = fedscn.STUB
ASSUMPTIONS = fedscn.ASSUMPTIONS


def run(scn, ctx):
    Run(scn, ctx).run()


def simplify(scn):
    yield from fedscn.simplify(scn)
    for i, s in enumerate(scn["specs"]):
        for f in ("aliased", "marks", "hints_mode", "pref"):
            if s.get(f):
                c = copy.deepcopy(scn)
                c["specs"][i].pop(f)
                yield c
        for t in list(s.get("policies") or {}):
            c = copy.deepcopy(scn)
            c["specs"][i]["policies"].pop(t)
            yield c
