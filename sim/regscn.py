"""Scenarios about clients that register with a server by way of the federation (C10, C11)."""
import copy
import json
from urllib.parse import urlencode

from . import env, fed, fedscn, jose, oracle
from .env import CLOCK, At
from .fedscn import ATT, FREE

V = fedscn.Run.V
TYPE = {"op": "openid_relying_party", "as": "oauth_client", "par": "oauth_client"}
UNIT = {"op": "openid_provider", "as": "oauth_authorization_server", "par": "oauth_authorization_server"}
PKEYS = [24 + i for i in range(10)]      # keys clients use towards servers (not their federation keys)
JWT_BEARER = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
BOOK = {"client_id", "client_salt", "client_secret", "client_secret_expires_at", "auth_method", "automatic_registered",
        "client_id_issued_at", "entity_id"}
FILTERED = {"grant_types", "response_types", "application_type", "token_endpoint_auth_method", "subject_type"}

CRYPT = {"kwargs": {"keys": {"key_defs": [{"type": "OCT", "use": ["enc"], "kid": "password"},
                                          {"type": "OCT", "use": ["enc"], "kid": "salt"}]}, "iterations": 1}}


# ------------------------------------------------------------------------------------------------
# the server
# ------------------------------------------------------------------------------------------------
def server_config(kind, reg="oidc"):
    ns = "fedservice.appserver." + ("oidc" if kind == "op" else "oauth2")
    pre = "" if kind == "op" else "as/"
    ep = {
        "authorization": {"path": pre + "authorization", "class": ns + ".authorization.Authorization", "kwargs": {
            "response_types_supported": ["code", "id_token", "code id_token"],
            "response_modes_supported": ["query", "fragment", "form_post"],
            "request_parameter_supported": True, "client_registration_types_supported": ["automatic", "explicit"]}},
        "registration": {"path": pre + "registration", "class": f"fedservice.appserver.{reg}.registration.Registration", "kwargs": {}},
        "token": {"path": pre + "token", "class": "idpyoidc.server.oidc.token.Token",
                  "kwargs": {"client_authn_method": ["private_key_jwt"]}},
    }
    if kind != "op":
        ep["pushed_authorization"] = {"path": "as/pushed", "class": ns + ".pushed_authorization.PushedAuthorization",
                                      "kwargs": {"client_authn_method": ["private_key_jwt"]}}
    return {"preference": {"subject_types_supported": ["public", "pairwise"],
                           "grant_types_supported": ["authorization_code", "implicit", "refresh_token"]},
            "token_handler_args": {
                "jwks_def": {"key_defs": [{"type": "oct", "bytes": "24", "use": ["enc"], "kid": "code"}]},
                "code": {"lifetime": 600, "kwargs": {"crypt_conf": copy.deepcopy(CRYPT)}},
                "token": {"class": "idpyoidc.server.token.jwt_token.JWTToken", "kwargs": {"lifetime": 3600}},
                "id_token": {"class": "idpyoidc.server.token.id_token.IDToken", "kwargs": {}}},
            "endpoint": ep, "template_dir": "template", "session_params": {"encrypter": copy.deepcopy(CRYPT)}}


class Server(fed.RealNode):
    """An OpenID provider and OAuth2 authorization server in a federation."""

    def build(self):
        from fedservice.utils import make_federation_combo
        s = self.spec
        et = {}
        for kind, name, typ in (("op", "openid_provider", "oidc"), ("as", "oauth_authorization_server", "oauth2")):
            if kind in s["guises"]:
                et[name] = {"class": "fedservice.appserver.ServerEntity",
                            "kwargs": {"key_conf": fed.key_config(*s["pkeys"]), "server_type": typ,
                                       "config": server_config(kind, s.get("reg_" + kind, "oidc"))}}
        kw = {}
        if s.get("subs"):
            kw["subordinate"] = self.registry()
        c = make_federation_combo(
            self.id, preference={"organization_name": "server"}, authority_hints=list(s["hints"]),
            endpoints=["entity_configuration"], key_config=fed.key_config(*s["keys"]), trust_anchors=self.world.anchor_jwks(s),
            services=["entity_configuration", "entity_statement"], entity_type=et, **kw)
        if s.get("priority"):
            c["federation_entity"].context.tr_priority = list(s["priority"])
        return c

    def unit(self, guise):
        return self.entity[UNIT[guise]]

    def endpoint(self, guise):
        return self.unit(guise).get_endpoint("pushed_authorization" if guise == "par" else "authorization")


class World(fed.World):
    def node_class(self, spec):
        return Server if spec.get("guises") else fed.RealNode


# ------------------------------------------------------------------------------------------------
# generation
# ------------------------------------------------------------------------------------------------
class Gen(fedscn.Gen):
    SCALARS = {"client_name": ["Foo", "Bar", "Baz"],
               "x_flavour": ["web", "native", "other"],
               "x_uri": ["https://l.example/1", "https://l.example/2"]}
    LISTS = {"contacts": ["ops@a", "ops@b", "ops@c"],
             "x_tags": ["t1", "t2", "t3"],
             "redirect_uris": ["https://client.example/cb1", "https://client.example/cb2", "https://client.example/cb3"],
             "grant_types": ["authorization_code", "implicit", "refresh_token"]}

    def topology(self):
        specs = super().topology()
        v = [s for s in specs if s["id"] == V][0]
        v["guises"] = self.rng.choice([["op"], ["as"], ["op", "as"], ["op", "as"]])
        v["pkeys"] = [23]
        for s in specs:
            if s["kind"] == "leaf":
                s["impl"] = "peer"
                s.setdefault("ec_life", self.life())
                s["pkey"] = self.rng.choice(PKEYS)
                s["md"] = self.client_md(s)
        if self.k["policies"]:
            for s in specs:
                for sub, e in (s.get("subs") or {}).items():
                    e.pop("policy", None)
                    e.pop("types", None)
                    e.pop("md", None)
                s.pop("policies", None)
            for s in specs:
                for sub, e in (s.get("subs") or {}).items():
                    if self.p(self.k["policies"]):
                        self.give_policy(s, sub, e)
        return specs

    def client_md(self, s):
        out = {}
        r = self.rng
        for t in r.choice([["openid_relying_party"], ["oauth_client"], ["openid_relying_party", "oauth_client"],
                           ["openid_relying_party", "oauth_client"], ["openid_relying_party", "oauth_client"]]):
            md = self.md_for_policies()
            md.setdefault("redirect_uris", r.sample(self.LISTS["redirect_uris"], r.randint(1, 3)))
            md["response_types"] = ["code"]
            md["jwks"] = jose.jwks(s["pkey"])
            out[t] = md
        return out


def auth(r):
    return r.choice(["good", "good", "good", "good", "att", "fedkey", "none", "kid", "other", "old"])


def authz(r, specs):
    leaf = [s["id"] for s in specs if s["kind"] == "leaf"]
    x = r.random()
    client = r.choice(leaf) if leaf and x < .9 else r.choice([s["id"] for s in specs])
    o = {"op": "authz", "client": client, "guise": r.choice(["op", "op", "as", "par"]), "redir": r.randint(0, 3),
         "auth": auth(r), "robj": r.random() < .3, "form": r.choice(["url", "url", "dict"]), "chain": None}
    y = r.random()
    if y < .5:
        c = fedscn.present(r, specs, r.choice([(0, 0), (0, 0), (1, 1), (1, 2)]))
        c["target"] = client if r.random() < .6 else r.choice(leaf or [client])
        c["tail"] = r.choice([None] * 8 + ["no_ec", "own_ec", "anchor_ec", "twice", "forward"])
        o["chain"] = c
    return o


OPS = dict(fedscn.OPS)
OPS["authz"] = lambda r, s, g: authz(r, s)
OPS["reg_recover"] = lambda r, s, g: {"op": "reg_recover", "client": authz(r, s)["client"]}
OPS["rekey_client"] = lambda r, s, g: {"op": "rekey_client", "i": r.randint(0, 5), "key": r.choice(PKEYS)}
OPS["setmd"] = lambda r, s, g: {"op": "setmd", "target": fedscn.target(r, s), "value": {
    t: g.md_for_policies() for t in r.choice([["openid_relying_party"], ["openid_relying_party", "oauth_client"]])}}
OPS["reg_audit"] = lambda r, s, g: {"op": "reg_audit"}


def gen(rng, weights, n=(6, 16), tail=("reg_audit",), **knobs):
    g = Gen(rng, **knobs)
    specs = g.topology()
    names = list(weights)
    ops = [OPS[rng.choices(names, [weights[x] for x in names])[0]](rng, specs, g) for _ in range(rng.randint(*n))]
    ops += [OPS[t](rng, specs, g) for t in tail]
    return {"seed": rng.getrandbits(32), "specs": specs, "ops": ops, "oracles": []}


# ------------------------------------------------------------------------------------------------
# executor
# ------------------------------------------------------------------------------------------------
class Run(fedscn.Run):
    def __init__(self, scn, ctx):
        self.got = []           # statements the server has ever received since it was started
        self.old_pkeys = {}
        super().__init__(scn, ctx)
        self.w.net.on_delivered = self.delivered

    World = World

    # -- what the server knows --------------------------------------------------------------------
    def delivered(self, src, url, resp):
        if src == V and resp.status_code == 200:
            t = resp.text
            if t not in self.got and jose.parse(t):
                self.got.append(t)

    def op_bounce(self, op):
        if op["node"] == V:
            self.got = []
        super().op_bounce(op)

    def op_restart(self, op):
        if op["node"] == V and V in self.w.net.down:
            self.got = []
        super().op_restart(op)

    def heal(self):
        if V in self.w.net.down:
            self.got = []
        super().heal()

    def uppers(self, tid, now, vid=V):
        """Every sequence of statements, anchor's first, that ends with one about ``tid`` and can be made of what node
        ``vid`` has received and holds at ``now``."""
        by = self.held(now, vid)
        out = []

        def down(iss, keys, above, seen):
            done = set()
            for t, p in reversed(by.get(iss, [])):
                # statements that differ in nothing but their times are as good as one another
                same = oracle.ckey({k: v for k, v in p.items() if k not in ("iat", "exp")})
                if same in done or p["sub"] == iss or not jose.verify(t, keys):
                    continue
                done.add(same)
                if p["sub"] == tid:
                    out.append(above + [t])
                elif p["sub"] not in seen and len(seen) < 8:
                    down(p["sub"], p.get("jwks"), above + [t], seen | {p["sub"]})
        for a, keys in self.anchors(vid).items():
            down(a, keys, [], {a})
        return out

    def held(self, now, vid=V):
        by = {}
        for t in self.got_by(vid):
            p = jose.parse(t)[1]
            if isinstance(p.get("exp"), (int, float)) and p["exp"] >= now and p.get("sub"):
                by.setdefault(p.get("iss"), []).append((t, p))
        return by

    def got_by(self, vid):
        return self.got

    def chains_from(self, tid, now, vid=V, last=None):
        """Every chain for ``tid`` that can be made of what node ``vid`` has received and holds at ``now``; with
        ``last`` as the final statement if given."""
        leaves = []
        done = set()
        for t, p in ([(last, jose.parse(last)[1])] if last else reversed(self.held(now, vid).get(tid, []))):
            same = (oracle.ckey({k: v for k, v in p.items() if k not in ("iat", "exp")}), bool(jose.verify(t, p.get("jwks"))))
            if p.get("sub") == tid and same not in done:
                done.add(same)
                leaves.append(t)
        ups = self.uppers(tid, now, vid)
        if tid in self.anchors(vid):
            ups.append([])
        return [u + [t] for u in ups for t in leaves if not self.faults(u + [t], tid, now, vid)]

    def justify(self, chain, typ):
        """Reference metadata of a valid chain: dict, None (none handed out) or '?' (not claimed)."""
        pls = [jose.parse(s)[1] for s in chain]
        if oracle.constraint_faults(pls):
            return None
        ref = fedscn.reference_metadata(pls)
        if ref is None:
            return "?" if self.any_superset(pls) else None
        if ref == "?" or self.any_superset(pls):
            return "?"
        return ref.get(typ)

    @staticmethod
    def record_diff(rec, ref):
        """Claims in which a client record differs from the metadata it should come from."""
        bad = []
        ref = oracle.plain(ref)
        rec = oracle.plain(rec)
        for c, v in ref.items():
            if c == "redirect_uris":
                have = [u if isinstance(u, str) else u[0] + ("?" + urlencode(u[1], doseq=True) if u[1] else "") for u in rec.get(c, [])]
                if sorted(have) != sorted(v):
                    bad.append((c, v, have))
            elif c == "jwks":
                if oracle.keyset(rec.get(c)) != oracle.keyset(v):
                    bad.append((c, "keys", "other keys"))
            elif c in FILTERED:
                if not set(oracle.as_list(rec.get(c) or [])) <= set(oracle.as_list(v)):
                    bad.append((c, v, rec.get(c)))
            elif oracle.ckey(rec.get(c)) != oracle.ckey(v):
                bad.append((c, v, rec.get(c)))
        for c in rec:
            if c not in ref and c not in BOOK and c not in FILTERED:
                bad.append((c, None, rec[c]))
        return bad

    # -- snapshots --------------------------------------------------------------------------------
    def clients(self, guise):
        node = self.w.nodes[V]
        unit = node.unit(guise)
        out = {"keys of " + x: ({}, self.keys_of(unit, x)) for x in ("", V)}
        for cid, rec in unit.context.cdb.items():
            out[cid] = (oracle.plain(dict(rec)), self.keys_of(unit, cid))
        return out

    @staticmethod
    def keys_of(unit, cid):
        kj = unit.keyjar if unit.keyjar else unit.upstream_get("attribute", "keyjar")
        if cid not in kj.owners():
            return []
        return sorted({(k.kty, k.serialize().get("n", ""), k.serialize().get("e", ""), "") for k in kj.get_issuer_keys(cid)
                       if k.kty != "oct"})

    def all_keys(self, guise, cid):
        return self.keys_of(self.w.nodes[V].unit(guise), cid)

    @staticmethod
    def core(rec):
        return oracle.ckey({k: v for k, v in rec.items() if k not in ("auth_method", "client_salt", "client_secret",
                                                                      "client_secret_expires_at", "automatic_registered")})

    # -- requests ---------------------------------------------------------------------------------
    def client_key(self, cid, how):
        s = self.specs.get(cid) or {}
        good = s.get("pkey", ATT[1])
        if how == "good":
            return good
        if how in ("att", "kid"):
            return ATT[2]
        if how == "fedkey":
            return s.get("keys", [ATT[0]])[0]
        if how == "old":
            return (self.old_pkeys.get(cid) or [ATT[0]])[-1]
        if how == "other":
            o = [x["pkey"] for x in self.specs.values() if x.get("pkey") and x["id"] != cid]
            return o[0] if o else ATT[0]
        return good

    def signed(self, cid, how, payload):
        k = self.client_key(cid, how)
        kw = {}
        if how == "kid":
            kw["kid"] = jose.public_jwk(self.client_key(cid, "good"))["kid"]
        return jose.sign(payload, k, **kw), k

    def presented(self, c, cid):
        """The chain to go with the request: subject's statement first."""
        chain, note = self.build_chain(c)
        if chain is None:
            return None, ""
        now = int(CLOCK.now)
        tail = c.get("tail")
        spec = self.specs.get(cid)
        if tail == "no_ec" and len(chain) > 1:
            chain = chain[:-1]
        elif tail == "own_ec" and spec:
            # somebody else's chain with the client's own configuration added
            chain = chain + [jose.sign(fed.ec_payload(spec, now), spec["keys"][0])]
        elif tail == "anchor_ec":
            iss = jose.parse(chain[0])
            a = self.specs.get(iss[1].get("iss")) if iss else None
            if a:
                chain = [jose.sign(fed.ec_payload(a, now), a["keys"][0])] + chain
        elif tail == "twice":
            chain = chain + [chain[-1]]
        elif tail == "forward":
            return list(chain), note + "+forward"
        return list(reversed(chain)), note + ("+" + tail if tail else "")

    def send(self, o, chain=None):
        """Send one (pushed) authorization request to the server."""
        cid, guise = o["client"], o["guise"]
        node = self.w.nodes[V]
        now = CLOCK.node_time(cid)
        uris = Gen.LISTS["redirect_uris"]
        redirect = o.get("uri") or (uris + ["https://evil.example.com/cb"])[o["redir"] % 4]
        req = {"client_id": cid, "redirect_uri": redirect, "response_type": "code", "scope": "openid", "state": "s", "nonce": "n"}
        used = None
        if guise == "par":
            if o["auth"] != "none":
                self.njti = getattr(self, "njti", 0) + 1
                tok, used = self.signed(cid, o["auth"], {"iss": cid, "sub": cid, "aud": [V], "iat": now, "exp": now + 300,
                                                         "jti": f"j{self.njti}"})
                req.update(client_assertion_type=JWT_BEARER, client_assertion=tok)
        elif o.get("robj") and o["auth"] != "none":
            req["request"], used = self.signed(cid, o["auth"], {"iss": cid, "aud": [V], "iat": now, "exp": now + 300,
                                                                **{k: v for k, v in req.items()}})
        if chain is not None:
            req["trust_chain"] = list(chain)
        body = dict(req) if o["form"] == "dict" else urlencode(req, doseq=True)
        ep = node.endpoint(guise)
        out = self.w.op(V, ep.parse_request, body)
        acc = out.ok and out.value is not None and "error" not in out.value
        return out, acc, used, redirect

    def guise_of(self, o):
        g = o["guise"]
        have = self.specs[V]["guises"]
        if ("op" if g == "op" else "as") not in have:
            g = "op" if "op" in have else "as"
        return dict(o, guise=g)

    def op_authz(self, o):
        if V in self.w.net.down:
            return
        o = self.guise_of(o)
        cid, guise = o["client"], o["guise"]
        chain = None
        note = "none"
        if o.get("chain"):
            chain, note = self.presented(o["chain"], cid)
            if chain is None:
                return
            chain = [x for x in chain if x] or None     # empty values do not arrive
            if o["form"] == "url" and chain and len(chain) < 2:
                return                                  # a single value arrives as a string
        pristine = not (self.changed or self.skewed or self.suspect or self.w.net.down or self.w.net.cut or self.ec_subst
                        or any(r.get("n", 1) != 0 for r in self.w.net.rules))
        self.request(o, chain, note, pristine)

    def request(self, o, chain, note, expect, where="clean"):
        cid, guise = o["client"], o["guise"]
        typ = TYPE[guise]
        guises = [g for g in ("op", "as") if g in self.specs[V]["guises"]]
        mine = "op" if guise == "op" else "as"
        before = {g: self.clients(g) for g in guises}
        kb = self.all_keys(mine, cid)
        sent = list(chain) if chain is not None else None
        mark = len(self.w.net.log)
        t0 = CLOCK.node_time(V)
        must = self.must(o, chain, t0) if expect or chain is not None else None
        out, acc, used, redirect = self.send(o, chain)
        log = self.w.net.log[mark:]
        self.note_content_faults(log)
        after = {g: self.clients(g) for g in guises}
        self.ctx.checks += 1
        self.ctx.ev("authz", guise, cid, note, o["auth"], "accepted" if acc else out.short(), len(log))
        desc = f"{guise} request of {cid} (chain: {note}, key: {o['auth']})"
        P = "C10"
        for g in guises:
            for x in set(before[g]) | set(after[g]):
                if g == mine and x == cid:
                    continue
                b, a = before[g].get(x), after[g].get(x)
                if (b is None) != (a is None) or b and (self.core(b[0]) != self.core(a[0]) or b[1] != a[1]):
                    self.v(P, "binding", "other-client", f"{desc} changed the registration of {x} at {UNIT[g]}")
        b, a = before[mine].get(cid), after[mine].get(cid)
        renew = guise == "op" and (b is None or b[0].get("automatic_registered"))
        if b and not a:
            self.v(P, "binding", "unregistered", f"{desc} made the registration of {cid} go away; {out.short()}")
            return acc
        if a:
            self.ctx.probe("registered")
        if not a and acc:
            self.v(P, "binding", "accepted-unregistered", f"{desc} accepted although {cid} is not registered")
            return acc
        if b and not renew and (self.core(b[0]) != self.core(a[0]) or b[1] != a[1]):
            self.v(P, "binding", "changed-later", f"{desc} changed the registration of the known client")
        fresh = a and (b is None or self.core(b[0]) != self.core(a[0]) or b[1] != a[1])
        if a and (fresh or acc and renew):
            ref = self.backing(desc, cid, typ, a, sent, t0, kb, note)
            if ref is None:
                return acc
        if acc:
            self.ctx.probe("accepted_" + guise)
            rec = a[0]
            if out.value.get("client_id") != cid:
                self.v(P, "binding", "other-id", f"{desc} taken as one of {out.value.get('client_id')}")
            uris = [u if isinstance(u, str) else u[0] for u in rec.get("redirect_uris", [])]
            if redirect not in uris:
                self.v(P, "use", "redirect", f"{desc} accepted with redirect_uri {redirect}, registered are {uris}")
            pub = None if used is None else jose.public_jwk(used)
            if used is not None and not any(k[1] == pub["n"] for k in a[1]):
                self.v(P, "use", "key", f"{desc} accepted, signed with a key that is not the client's")
            if guise == "par" and used is None:
                self.v(P, "use", "unauthenticated", f"{desc} accepted without client authentication")
            if used is not None:
                self.ctx.probe("authenticated")
        else:
            self.ctx.probe("refused")
            if sent is not None and note:
                self.ctx.probe("refused_" + note.split("+")[-1])
        if must:
            self.ctx.probe("must_" + ("chain" if sent is not None else where))
            if not acc:
                self.v(P, where, "refused:" + where, f"{where}: {desc} refused although the federation vouches for it: {out.short()} "
                                                     f"{out.exc!r} {out.where()} {out.value if out.ok else ''}")
        return acc

    def faults(self, chain, cid, now, vid=V):
        # a configuration signed with a key the superior vouches for but doesn't list itself: not claimed
        return [f for f in oracle.chain_faults(chain, self.anchors(vid), cid, now=now) if "key of its own" not in f]

    def backing(self, desc, cid, typ, a, sent, t0, kb, note):
        """The registration must be what one valid chain yields."""
        P = "C10"
        if sent is not None:
            c = list(reversed(sent))
            faults = self.faults(c, cid, t0)
            if faults and len(c) > 1:
                # the anchor's configuration may lead
                first = jose.parse(c[0])
                if first and first[1].get("iss") == first[1].get("sub") and first[1].get("sub") in self.anchors():
                    if jose.verify(c[0], self.anchors()[first[1]["sub"]]):
                        faults = self.faults(c[1:], cid, t0) if len(c) > 2 else faults
                        c = c[1:] if not faults else c
            if faults:
                self.v(P, "presented", "chain:" + fedscn.classify(faults[0]), f"{desc} registered by a chain with faults: {faults}")
                return None
            cands = [c]
            self.ctx.probe("registered_by_presented")
        else:
            cands = self.chains_from(cid, t0)
            if not cands:
                self.v(P, "backing", "no-chain", f"{desc} registered, no valid chain among the {len(self.got)} statements received")
                return None
            self.ctx.probe("registered_by_collected")
        diffs = []
        for c in cands:
            ref = self.justify(c, typ)
            if ref == "?":
                return {}
            if ref is None:
                diffs.append("not valid: constraints, policies or no such metadata")
                continue
            d = self.record_diff(a[0], ref)
            ks = oracle.keyset(ref.get("jwks"))
            if not d and [tuple(k) for k in ks] != [tuple(k) for k in a[1]]:
                d = [("keys", len(ks), len(a[1]))]
            if not d:
                if any("metadata_policy" in jose.parse(x)[1] for x in c):
                    self.ctx.probe("registered_with_policy")
                if kb and kb != a[1]:
                    self.ctx.probe("rekeyed")
                return ref
            diffs.append(d)
        what = "keys" if all(isinstance(d, list) and d[0][0] == "keys" for d in diffs) else "metadata"
        self.v(P, "backing", what, f"{desc} registered with {what} no valid chain yields (claim, chain, registered): {diffs[:3]}")
        return None

    def must(self, o, chain, t0):
        """Must the request be accepted (nothing in the way)?"""
        cid, guise = o["client"], o["guise"]
        typ = TYPE[guise]
        if abs(CLOCK.node_time(cid) - t0) > 1:
            return False        # client and server disagree on what time it is
        if o["auth"] not in ("good",) and (guise == "par" or o.get("robj")):
            return False
        rec = self.clients("op" if guise == "op" else "as").get(cid)
        refs = []
        if rec and not (guise == "op" and rec[0].get("automatic_registered")):
            uris = [u if isinstance(u, str) else u[0] for u in rec[0].get("redirect_uris", [])]
            refs = [{"redirect_uris": uris, "jwks": rec[0].get("jwks")}]
        elif chain is not None:
            c = list(reversed(chain))
            if oracle.chain_faults(c, self.anchors(), cid, now=t0 + 2):
                return False
            refs = [self.justify(c, typ)]
        else:
            for path, ref in self.expected(cid).items():
                pls = self.truth_chain(list(path))
                if ref == "?" or self.any_superset(pls):
                    return False
                refs.append(ref.get(typ))
        if not refs or any(not isinstance(r, dict) for r in refs):
            return False
        for r in refs:
            uris = Gen.LISTS["redirect_uris"] + ["https://evil.example.com/cb"]
            uri = o.get("uri") or uris[o["redir"] % 4]
            if uri not in (r.get("redirect_uris") or []) or not r.get("jwks"):
                return False
            if not self.acceptable(r):
                return False
            if used_key := (guise == "par" or o.get("robj")):
                n = jose.public_jwk(self.specs[cid]["pkey"])["n"] if self.specs.get(cid, {}).get("pkey") is not None else None
                if n not in [k.get("n") for k in r["jwks"]["keys"]]:
                    return False
        return True

    @staticmethod
    def acceptable(md):
        """Metadata a server can do business with."""
        gt = md.get("grant_types")
        if gt is not None and not set(gt) & {"authorization_code", "implicit", "refresh_token"}:
            return False
        return True

    # -- histories --------------------------------------------------------------------------------
    def op_rekey_client(self, o):
        cl = [s for s in self.specs.values() if s.get("pkey") is not None]
        if not cl:
            return
        s = cl[o["i"] % len(cl)]
        if o["key"] == s["pkey"]:
            return
        self.old_pkeys.setdefault(s["id"], []).append(s["pkey"])
        s["pkey"] = o["key"]
        for md in s["md"].values():
            md["jwks"] = jose.jwks(o["key"])
        self.changed = True
        self.ctx.ev("rekey_client", s["id"])
        self.ctx.probe("rekey_client")

    def op_setmd(self, op):
        s = self.specs.get(op["target"])
        if s and s.get("pkey") is not None:
            md = copy.deepcopy(op["value"])
            for t in md.values():
                t.setdefault("redirect_uris", [Gen.LISTS["redirect_uris"][0]])
                t["response_types"] = ["code"]
                t["jwks"] = jose.jwks(s["pkey"])
            s["md"] = md
            self.changed = True
            self.ctx.ev("setmd", s["id"])

    def op_reg_recover(self, op):
        self.heal()
        CLOCK.offset.clear()
        if self.changed or self.ec_subst or self.skewed or V in self.w.net.down:
            return
        self.each(op["client"], "recovery", 3)

    def each(self, cid, where, tries):
        for guise in [g for g in ("op", "as", "par") if UNIT[g] in self.w.nodes[V].entity.keys()]:
            for uri in Gen.LISTS["redirect_uris"]:
                o = {"client": cid, "guise": guise, "redir": 0, "uri": uri, "auth": "good", "robj": guise != "par" and len(cid) % 2 == 0,
                     "form": "url"}
                ok = False
                for i in range(tries):
                    ok = self.request(o, None, "none", i == tries - 1, where)
                    if ok:
                        self.ctx.probe(where + "_registered")
                        break

    def op_reg_audit(self, op):
        """Everything quiet, everything old gone: the server registers whom the federation vouches for, and nobody else."""
        self.heal()
        CLOCK.offset.clear()
        CLOCK.advance(self.max_life + 700 + (100000 if self.skewed else 0))
        self.skewed = False
        for restart in (False, True):
            if restart:
                self.op_bounce({"node": V})
            for t in sorted(n for n, s in self.specs.items() if s["kind"] == "leaf"):
                self.each(t, "audit", 1)
        self.changed = self.ec_subst = False
        self.suspect = set()
        self.ctx.probe("audited")
        self.ctx.ev("audit")


def run(scn, ctx):
    Run(scn, ctx).run()


def simplify(scn):
    yield from fedscn.simplify(scn)
    for i, o in enumerate(scn["ops"]):
        if o["op"] == "authz":
            for k, v in (("chain", None), ("robj", False), ("auth", "good"), ("form", "dict")):
                if o.get(k) != v:
                    c = copy.deepcopy(scn)
                    c["ops"][i][k] = v
                    yield c
            ch = o.get("chain")
            if ch:
                if ch.get("tail"):
                    c = copy.deepcopy(scn)
                    c["ops"][i]["chain"]["tail"] = None
                    yield c
                for j in range(len(ch["mut"])):
                    c = copy.deepcopy(scn)
                    del c["ops"][i]["chain"]["mut"][j]
                    yield c
