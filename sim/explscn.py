"""Scenarios about explicit registration: clients and servers that both run fedservice, and an adversary (C11)."""
import copy

from . import fed, fedscn, jose, oracle, regscn
from .env import CLOCK, At
from .fedscn import ATT
from .regscn import PKEYS, TYPE, UNIT, V

NS = {"op": "oidc", "as": "oauth2"}
RBOOK = regscn.BOOK | {"registration_client_uri", "registration_access_token"}
NOTBACK = {"application_type", "redirect_uris", "jwks"}
CAPABLE = {"id_token_signed_response_alg", "userinfo_signed_response_alg"}      # not registered when the server can't do it


def client_config(spec, guise):
    ns = NS[guise]
    pre = {"application_type": "web", "contacts": list(spec["prefer"]["contacts"]), "response_types_supported": ["code"],
           "token_endpoint_auth_method": "client_secret_basic", "client_registration_types": ["explicit"]}
    if spec["prefer"].get("client_name"):
        pre["client_name"] = spec["prefer"]["client_name"]
    secret = {"client_secret": spec["secret"]} if spec.get("secret") else {}
    return {**secret, "client_id": spec["id"], "entity_id": spec["id"], "base_url": spec["id"], "client_type": ns, "entity_type": TYPE[guise],
            "redirect_uris": list(spec["prefer"]["redirect_uris"]), "preference": pre,
            "services": {"registration": {"class": f"fedservice.appclient.{ns}.registration.Registration", "kwargs": {}},
                         "authorization": {"class": f"{spec.get('authz', 'idpyoidc.client')}.{ns}.authorization.Authorization", "kwargs": {}}}}


class Client(fed.RealNode):
    """A client running fedservice."""

    def build(self):
        from fedservice.utils import make_federation_combo
        s = self.spec
        et = {TYPE[g]: {"class": "fedservice.appclient.ClientEntity",
                        "kwargs": {"config": client_config(s, g), "key_conf": fed.key_config(s["pkey"])}} for g in s["client"]}
        services = ["entity_configuration", "entity_statement"]
        if s.get("reg_at") == "fe":
            services.append("oidc_registration" if s["client"][0] == "op" else "oauth_registration")
        c = make_federation_combo(
            self.id, preference={"organization_name": "client"}, authority_hints=list(s["hints"]), endpoints=["entity_configuration"],
            key_config=fed.key_config(*s["keys"]), trust_anchors=self.world.anchor_jwks(s), services=services, entity_type=et)
        s["md"] = oracle.plain(c.get_metadata())
        return c

    def service(self, guise):
        if self.spec.get("reg_at") == "fe" and self.spec["client"][0] == guise:
            return self.fe.get_service("registration")
        return self.entity[TYPE[guise]].get_service("registration")


class Server(regscn.Server):
    def all_endpoints(self):
        return super().all_endpoints() + [("registration", self.unit(g).get_endpoint("registration")) for g in self.spec["guises"]]


class World(regscn.World):
    def node_class(self, spec):
        return Client if spec.get("client") else Server if spec.get("guises") else fed.RealNode


# ------------------------------------------------------------------------------------------------
# generation
# ------------------------------------------------------------------------------------------------
class Gen(regscn.Gen):
    SCALARS = {"client_name": ["Foo", "Bar", "Baz"],
               "x_flavour": ["web", "native", "other"]}
    LISTS = {"contacts": ["ops@a", "ops@b", "ops@c"],
             "x_tags": ["t1", "t2", "t3"],
             "redirect_uris": ["https://client.example/cb1", "https://client.example/cb2", "https://client.example/cb3"]}

    def topology(self):
        specs = super().topology()
        r = self.rng
        tas = [s for s in specs if s["kind"] == "ta"]
        leaves = [s for s in specs if s["kind"] == "leaf"]
        v = [s for s in specs if s["id"] == V][0]
        v["reg_as"] = "oauth2"
        for ta in tas:
            if self.p(0.4):
                self.link(v, ta)
        for i, s in enumerate(leaves):
            if i == 0 or self.p(0.5):
                s["impl"] = "real"
                s["client"] = r.choice([["op"], ["as"], ["op", "as"], ["as", "op"]])
                if self.p(0.5):
                    s["reg_at"] = "fe"
                s["prefer"] = {"contacts": r.sample(self.LISTS["contacts"], r.randint(1, 3)), "client_name": r.choice(["", "Foo", "Bar"]),
                               "redirect_uris": r.sample(self.LISTS["redirect_uris"], r.randint(1, 3))}
                s["anchors"] = sorted({t["id"] for t in tas if self.p(0.8)} or {r.choice(tas)["id"]})
                s["anchor_keys"] = {t["id"]: list(t["keys"]) for t in tas if t["id"] in s["anchors"]}
                s.pop("ec_life", None)
        return specs


REQ = ["good", "good", "good", "other_md", "other_md", "other_keys", "att", "att_kid", "att_mix", "att_mix", "pkey", "old", "iss", "iss_self", "sub", "expired",
       "hints", "two", "loaded", "loaded", "no_md", "replay", "foreign", "fe_only", "edit", "unknown"]
RESP = ["good", "good", "good", "replay", "att", "att", "att_kid", "att_mix", "att_mix", "iss", "iss_signed", "iss_signed", "sub", "sub_own", "aud", "anchor",
        "noanchor", "expired", "old", "md", "md", "edit", "pkey", "self"]

OPS = dict(regscn.OPS)
OPS["ask_reg"] = lambda r, s, g: {"op": "ask_reg", "client": r.randint(0, 5), "guise": r.choice(["op", "as"]), "how": r.choice(REQ), "key": r.choice(ATT),
                                  "other": r.randint(0, 9), "md": {t: g.md_for_policies() for t in ("openid_relying_party", "oauth_client")}}
OPS["explicit"] = lambda r, s, g: {"op": "explicit", "client": r.randint(0, 5), "guise": r.choice(["op", "as"]), "how": r.choice(RESP),
                                   "key": r.choice(ATT), "other": r.randint(0, 9), "wait": r.choice([0] * 8 + [700, 86500]),
                                   "md": g.md_for_policies(), "rekey": r.choice([None] * 9 + [r.choice(fedscn.FREE)])}
OPS["expl_rollover"] = lambda r, s, g: {"op": "expl_rollover", "client": r.randint(0, 5), "guise": r.choice(["op", "as"]),
                                        "who": r.choice(["server", "server", "client"]), "key": r.choice(fedscn.FREE), "wait": r.choice([0, 1, 1])}
OPS["expl_recover"] = lambda r, s, g: {"op": "expl_recover"}
OPS["expl_audit"] = lambda r, s, g: {"op": "expl_audit"}


def gen(rng, weights, n=(5, 12), tail=("expl_audit",), **knobs):
    g = Gen(rng, **knobs)
    specs = g.topology()
    names = list(weights)
    ops = [OPS[rng.choices(names, [weights[x] for x in names])[0]](rng, specs, g) for _ in range(rng.randint(*n))]
    ops += [OPS[t](rng, specs, g) for t in tail]
    return {"seed": rng.getrandbits(32), "specs": specs, "ops": ops, "oracles": []}


# ------------------------------------------------------------------------------------------------
# executor
# ------------------------------------------------------------------------------------------------
class Run(regscn.Run):
    World = World

    def __init__(self, scn, ctx):
        self.gots = {s["id"]: [] for s in scn["specs"] if s.get("client")}
        self.sent = []          # requests seen on the wire
        self.answers = []       # genuine responses: (client, guise, text)
        super().__init__(scn, ctx)

    def got_by(self, vid):
        return self.got if vid == V else self.gots.get(vid, [])

    def delivered(self, src, url, resp):
        super().delivered(src, url, resp)
        if src in self.gots and resp.status_code == 200:
            t = resp.text
            if t not in self.gots[src] and jose.parse(t):
                self.gots[src].append(t)

    def op_bounce(self, op):
        if op["node"] in self.gots:
            self.gots[op["node"]] = []
        super().op_bounce(op)

    def op_restart(self, op):
        if op["node"] in self.gots and op["node"] in self.w.net.down:
            self.gots[op["node"]] = []
        super().op_restart(op)

    def rebuild(self, nid):
        super().rebuild(nid)
        if nid in self.gots:
            self.gots[nid] = []
        if nid == V:
            self.got = []

    def heal(self):
        for n in self.w.net.down:
            if n in self.gots:
                self.gots[n] = []
        super().heal()

    def op_setmd(self, op):
        s = self.specs.get(op["target"])
        if s and not s.get("client"):
            super().op_setmd(op)

    def op_rekey_client(self, o):
        cl = [s for s in self.specs.values() if s.get("pkey") is not None and not s.get("client")]
        if cl:
            s = cl[o["i"] % len(cl)]
            if o["key"] != s["pkey"]:
                s["pkey"] = o["key"]
                for md in s["md"].values():
                    md["jwks"] = jose.jwks(o["key"])
                self.changed = True

    def pristine(self, *nodes):
        return not (self.changed or self.skewed or self.suspect or self.w.net.down or self.w.net.cut or self.ec_subst
                    or any(r.get("n", 1) != 0 for r in self.w.net.rules))

    # -- the server's side ------------------------------------------------------------------------
    def guise_here(self, g):
        have = self.specs[V]["guises"]
        return g if g in have else have[0]

    def snap(self):
        return {g: self.clients(g) for g in self.specs[V]["guises"]}

    def judge_server(self, desc, guise, text, before, after, answers, t0, must=None):
        """Registrations after a request must be what a valid chain ending in that very request yields."""
        P = "C11"
        self.ctx.checks += 1
        p = jose.parse(text)
        pl = p[1] if p else {}
        sub = pl.get("sub")
        typ = self.client_type(guise, pl)
        new = []
        for g in before:
            for x in sorted(set(before[g]) | set(after[g])):
                b, a = before[g].get(x), after[g].get(x)
                if b is not None and a is not None and self.core(b[0]) == self.core(a[0]) and b[1] == a[1]:
                    continue
                if a is None:
                    self.v(P, "server", "gone", f"{desc}: the registration of {x} at {UNIT[g]} went away")
                elif g != guise or (b is not None and (guise == "as" or x != sub)) or (guise == "op" and x != sub):
                    self.v(P, "server", "other-client", f"{desc} changed the registration of {x} at {UNIT[g]}")
                else:
                    new.append((x, a))
        ok = [a for a in answers if a is not None and a[0] < 400]
        if new and not ok and any(a is not None for a in answers):
            self.v(P, "server", "refused-registered", f"{desc}: refused ({answers[-1]}) but {new[0][0]} is registered")
        if new or ok:
            cands = self.chains_from(sub, t0, last=text) if sub else []
            self.ctx.probe("srv_registered")
            if not cands:
                self.v(P, "server", "no-chain", f"{desc}: {'registered' if new else 'answered with success'}, no valid chain ends in the request")
                return
            good = None
            unsure = typ is None
            for x, a in new:
                diffs = []
                for c in cands:
                    ref = self.justify(c, typ)
                    if ref == "?":
                        unsure = True
                        continue
                    if ref is None:
                        diffs.append("chain not valid or without such metadata")
                        continue
                    d = self.record_diff({k: v for k, v in a[0].items() if k not in RBOOK}, 
                                         {k: v for k, v in ref.items() if k not in RBOOK and (k not in CAPABLE or k in a[0])})
                    if not d and [tuple(k) for k in oracle.keyset(ref.get("jwks"))] != [tuple(k) for k in a[1]]:
                        d = [("keys", len(oracle.keyset(ref.get("jwks"))), len(a[1]))]
                    if not d:
                        good = c
                        if any("metadata_policy" in jose.parse(z)[1] for z in c):
                            self.ctx.probe("srv_policy")
                        break
                    diffs.append(d)
                if good is None and not unsure:
                    self.v(P, "server", "metadata", f"{desc}: {x} registered with what no valid chain ending in the request yields "
                                                    f"(claim, chain, registered): {diffs[:3]}")
                    return
            for code, hdr, body in ok if typ else ():
                self.judge_answer(desc, guise, typ, pl, body, cands, after[guise])
        else:
            self.ctx.probe("srv_refused")
            if must:
                self.v(P, "server", "refused", f"{desc}: refused although the federation vouches for it: {answers}")

    @staticmethod
    def client_type(guise, pl):
        """What kind of client the request is about; None: can't tell."""
        types = list(pl.get("metadata") or {})
        if TYPE[guise] in types:
            return TYPE[guise]
        rest = [t for t in types if t not in ("federation_entity", "trust_mark_issuer")]
        return rest[0] if len(rest) == 1 else None

    def judge_answer(self, desc, guise, typ, req, body, cands, records):
        P = "C11"
        r = jose.parse(body)
        if not r:
            self.v(P, "server", "answer", f"{desc}: success without a signed answer: {body[:80]}")
            return
        r = r[1]
        if not jose.verify(body, jose.jwks(*self.specs[V]["keys"])) or r.get("iss") != V:
            self.v(P, "server", "answer", f"{desc}: answer not signed by the server")
        if r.get("sub") != req["sub"] or req["sub"] not in oracle.as_list(r.get("aud")):
            self.v(P, "server", "answer", f"{desc}: answer is about {r.get('sub')} for {r.get('aud')}")
        if r.get("trust_anchor_id") not in {jose.parse(c[0])[1]["iss"] for c in cands}:
            self.v(P, "server", "answer", f"{desc}: answer names trust anchor {r.get('trust_anchor_id')}")
        md = (r.get("metadata") or {}).get(typ) or {}
        rec = records.get(md.get("client_id"))
        if rec is None:
            self.v(P, "server", "answer", f"{desc}: answer has client_id {md.get('client_id')}, not registered")
            return
        rec = rec[0]
        for c, v in md.items():
            if c in NOTBACK or (c in regscn.FILTERED | CAPABLE and c not in rec):
                continue
            if oracle.ckey(rec.get(c)) != oracle.ckey(v):
                self.v(P, "server", "answer", f"{desc}: answer says {c}={v!r}, registered is {rec.get(c)!r}")
                return
        self.ctx.probe("srv_answer")

    def server_must(self, tid, guise, pls=None):
        """The federation vouches for ``tid``, and a server can do business with what it says."""
        refs = []
        for path, ref in self.expected(tid).items():
            chain = self.truth_chain(list(path))
            if pls is not None:
                if oracle.constraint_faults(chain[:-1] + [pls]):
                    continue
                ref = fedscn.reference_metadata(chain[:-1] + [pls])
                if ref is None:
                    continue
            if ref == "?" or self.any_superset(chain):
                return False
            refs.append(ref.get(TYPE[guise]))
        if not refs or any(not isinstance(r, dict) for r in refs):
            return False
        return all(r.get("redirect_uris") and r.get("jwks") and self.acceptable(r) for r in refs)

    # -- requests made up by anybody ----------------------------------------------------------------
    def op_ask_reg(self, o):
        if V in self.w.net.down:
            return
        guise = self.guise_here(o["guise"])
        leaves = [s for s in self.specs.values() if s["kind"] == "leaf"]
        s = leaves[o["client"] % len(leaves)]
        cid, how = s["id"], o["how"]
        now = int(CLOCK.now)
        p = fed.ec_payload(s, now)
        p["metadata"] = copy.deepcopy(p["metadata"])
        k, kid = s["keys"][0], None
        ids = sorted(x for x in self.specs if x not in (cid, V))
        other = self.specs[ids[o["other"] % len(ids)]]
        must = how == "good"
        text = None
        if how in ("other_md", "other_keys"):
            for t in p["metadata"]:
                if t in o["md"]:
                    if how == "other_md":
                        p["metadata"][t].update(copy.deepcopy(o["md"][t]))
                    else:
                        p["metadata"][t]["jwks"] = jose.jwks(PKEYS[o["other"] % len(PKEYS)])
            must = True
        elif how == "att":
            k = o["key"]
            p["jwks"] = jose.jwks(k)
            self.grab(p, guise)
        elif how == "att_kid":
            k, kid = o["key"], jose.public_jwk(k)["kid"]
            self.grab(p, guise)
        elif how == "att_mix":
            k = o["key"]
            p["jwks"] = {"keys": p["jwks"]["keys"] + jose.jwks(k)["keys"]}
            self.grab(p, guise)
        elif how == "pkey":
            k = s["pkey"]
            p["jwks"] = jose.jwks(k, s["keys"][0])
        elif how == "old":
            old = self.old_keys.get(cid)
            if not old:
                return
            k = old[-1]
            p["jwks"] = jose.jwks(k)
        elif how == "iss":
            # somebody else in the federation asks in the name of the client
            p["iss"] = other["id"]
            k = other["keys"][0]
            p["jwks"] = jose.jwks(*other["keys"])
            self.grab(p, guise)
        elif how == "iss_self":
            k = other["keys"][0]
            p["jwks"] = jose.jwks(*other["keys"])
            p["authority_hints"] = list(other.get("hints") or p.get("authority_hints") or [])
            self.grab(p, guise)
        elif how == "sub":
            p["sub"] = other["id"]
        elif how == "expired":
            p["iat"], p["exp"] = now - 4000, now - 400
        elif how == "hints":
            p["authority_hints"] = [other["id"]]
        elif how == "two":
            for t in ("openid_relying_party", "oauth_client"):
                md = copy.deepcopy(o["md"][t])
                md.setdefault("redirect_uris", [self.gen_uri(0)])
                md["jwks"] = jose.jwks(s["pkey"])
                md["response_types"] = ["code"]
                p["metadata"].setdefault(t, md)
            must = True
        elif how == "loaded":
            for t in p["metadata"]:
                if t in o["md"]:
                    extra = {"client_id": other["id"], "response_types": ["code", "token"], "client_id_issued_at": 1, "client_salt": "salt",
                             "registration_access_token": "tok"}
                    for i, (c, x) in enumerate(sorted(extra.items())):
                        if (o["other"] + 3) >> i & 1:
                            p["metadata"][t][c] = x
        elif how == "no_md":
            del p["metadata"]
        elif how == "fe_only":
            p["metadata"] = {"federation_entity": p["metadata"]["federation_entity"]}
        elif how == "unknown":
            p["iss"] = p["sub"] = "https://unknown.example.com"
            k = o["key"]
            p["jwks"] = jose.jwks(k)
        elif how == "replay":
            if not self.sent:
                return
            guise, text = self.sent[o["other"] % len(self.sent)]
        elif how == "foreign":
            if not self.sent:
                return
            text = self.sent[o["other"] % len(self.sent)][1]
        if text is None:
            text = jose.sign(p, k, kid=kid)
            if how == "edit":
                h, b, sig = text.split(".")
                self.grab(p, guise)
                import json
                text = ".".join([h, jose.b64e(json.dumps(p, sort_keys=True).encode()), sig])
        self.ask(o, guise, cid, how, text, must and self.pristine() and self.server_must(cid, guise, p))

    @staticmethod
    def gen_uri(i):
        return (Gen.LISTS["redirect_uris"] + ["https://evil.example.com/cb"])[i]

    def grab(self, p, guise):
        """What an adversary wants to have registered."""
        md = p["metadata"].setdefault(TYPE[guise], {"response_types": ["code"]})
        md["redirect_uris"] = [self.gen_uri(3)]
        md["jwks"] = jose.jwks(ATT[2])

    def ask(self, o, guise, cid, how, text, must):
        node = self.w.nodes[V]
        ep = node.unit(guise).get_endpoint("registration")
        before = self.snap()
        mark = len(self.w.net.log)
        t0 = CLOCK.node_time(V)
        out = self.w.op(V, node.serve, ep, "POST", {}, {}, text)
        self.note_content_faults(self.w.net.log[mark:])
        after = self.snap()
        ans = out.value if out.ok else (500, {}, f"{out.exc!r} {out.where()}")
        self.ctx.ev("ask_reg", guise, cid, how, ans[0] if out.ok else out.short(), len(self.w.net.log) - mark)
        self.judge_server(f"{guise} request '{how}' of {cid}", guise, text, before, after, [ans], t0, must)
        if out.ok and ans[0] < 400:
            self.ctx.probe("req_" + how)
            self.sent.append((guise, text))
        else:
            self.ctx.probe("req_refused_" + how)

    # -- the whole exchange with a real client --------------------------------------------------------
    def op_explicit(self, o):
        cl = [s for s in self.specs.values() if s.get("client")]
        s = cl[o["client"] % len(cl)]
        guise = self.guise_here(o["guise"])
        if guise not in s["client"] or {s["id"], V} & self.w.net.down:
            return
        self.exchange(s, guise, o, o["how"])

    def exchange(self, s, guise, o, how, where="clean", expect=None):
        """Resolve the server, ask for registration, receive an answer."""
        cid = s["id"]
        node = self.w.nodes[cid]
        unit = node.entity[TYPE[guise]]
        svc = node.service(guise)
        expect = self.pristine() if expect is None else expect
        same_time = abs(CLOCK.node_time(cid) - CLOCK.node_time(V)) < 1
        mark = len(self.w.net.log)
        caught = {}

        def wire(host, src, url, st, bd):
            if src == cid and url.endswith("registration"):
                caught.setdefault("ans", []).append((st, {}, bd))

        def ask():
            from fedservice.entity.function import get_verified_trust_chains
            tcs = get_verified_trust_chains(node.entity, V)
            if not tcs:
                return None
            md = tcs[0].metadata
            unit.context.server_metadata = node.fe.client.context.server_metadata = md
            unit.context.issuer = node.fe.client.context.issuer = V
            svc.endpoint = md[UNIT[guise]]["federation_registration_endpoint"]
            info = svc.get_request_parameters(request_body_type="jose", method="POST", behaviour_args={"client": unit})
            caught["req"] = info["body"]
            r = node.fe.httpc("POST", info["url"], data=info["body"], headers=info["headers"])
            return r.status_code, r.text
        before = self.snap()
        t0 = CLOCK.node_time(V)
        self.w.net.on_body = wire
        try:
            out = self.w.op(cid, ask)
        finally:
            self.w.net.on_body = None
        self.note_content_faults(self.w.net.log[mark:])
        after = self.snap()
        desc = f"{guise} registration of {cid}"
        req = caught.get("req")
        must_srv = expect and same_time and self.server_must(cid, guise)
        must_cli = expect and same_time and self.client_finds(cid, V)
        if req is None:
            self.ctx.ev("explicit", guise, cid, "no request", out.short())
            self.ctx.checks += 1
            if must_cli:
                self.v("C11", "client", "no-request", f"{where}: {desc}: no request made: {out.short()} {out.exc!r} {out.where()}")
            return False
        self.sent.append((guise, req))
        self.judge_server(desc, guise, req, before, after, caught.get("ans", []), t0, must_srv and where != "recovery")
        text = out.value[1] if out.ok and out.value and out.value[0] < 400 else None
        if text and jose.parse(text):
            self.answers.append((cid, guise, text))
        wait = o.get("wait", 0)
        if wait:
            CLOCK.advance(wait)
        if o.get("rekey") is not None:
            self.op_rotate({"node": V, "key": o["rekey"], "how": "clean"})
            if V in self.w.net.down:
                return False
        fake = self.forge(s, guise, o, how, text)
        if fake is None:
            self.ctx.ev("explicit", guise, cid, how, "no answer", out.short())
            return False
        if how == "good" and fake != text:
            raise AssertionError("genuine answer expected")
        t0 = CLOCK.node_time(cid)
        mark = len(self.w.net.log)
        out = self.w.op(cid, svc.parse_response, fake, request=req, behaviour_args={"client": unit})
        self.note_content_faults(self.w.net.log[mark:])
        self.ctx.ev("explicit", guise, cid, how, out.short(), len(self.w.net.log))
        must = how == "good" and must_srv and must_cli and not wait and o.get("rekey") is None and self.client_must(cid, guise, fake)
        self.judge_client(f"{desc}, answer '{how}'", cid, guise, fake, out, t0, must, where)
        if self.scn.get("use_answer") and out.ok and out.value:
            upd = self.w.op(cid, svc.update_service_context, out.value)
            self.ctx.ev("registered", guise, cid, upd.short())
            self.ctx.probe("answer_used" if upd.ok else "answer_not_used")
        return out.ok

    def client_finds(self, cid, vid):
        """The client has a usable chain of the server, all chains considered."""
        exp = self.expected(vid, vid=cid)
        return bool(exp) and not any(self.any_superset(self.truth_chain(list(p))) or r == "?" for p, r in exp.items())

    def client_must(self, cid, guise, text):
        """The client can verify this answer: both it and the server have chains to the anchor the server chose."""
        p = jose.parse(text)
        if not p:
            return False
        ta = p[1].get("trust_anchor_id")
        md = p[1].get("metadata")
        if ta not in self.anchors(cid) or not any(x[-1] == ta for x in self.expected(V, vid=cid)):
            return False
        some = False
        for path, r in self.expected(cid, vid=cid).items():
            if path[-1] != ta:
                continue
            pls = self.truth_chain(list(path))
            if r == "?" or self.any_superset(pls):
                return False
            pls = pls[:-1] + [dict(pls[-1], metadata=md)]
            ref = fedscn.reference_metadata(pls)
            if ref == "?":
                return False
            some = some or ref is not None
        return some

    def op_expl_rollover(self, o):
        """A registration, then a new key for one of the parties, and somebody who has the old one."""
        cl = [s for s in self.specs.values() if s.get("client")]
        s = cl[o["client"] % len(cl)]
        guise = self.guise_here(o["guise"])
        if guise not in s["client"] or {s["id"], V} & self.w.net.down:
            return
        self.exchange(s, guise, {}, "good")
        who = V if o["who"] == "server" else s["id"]
        self.op_rotate({"node": who, "key": o["key"], "how": "clean"})
        if o["wait"]:
            CLOCK.advance(self.max_life + 700)
        if {s["id"], V} & self.w.net.down:
            return
        if o["who"] == "server":
            self.exchange(s, guise, {"other": 0}, "old")
        else:
            self.op_ask_reg({"client": self.leaf_index(s["id"]), "guise": guise, "how": "old", "key": ATT[0], "other": 0, "md": {}})

    def leaf_index(self, cid):
        return [x["id"] for x in self.specs.values() if x["kind"] == "leaf"].index(cid)

    def forge(self, s, guise, o, how, text):
        """The answer the client gets to see."""
        cid = s["id"]
        if how == "good":
            return text
        if how == "replay":
            mine = [a[2] for a in self.answers[:-1] if a[1] == guise]
            return mine[o["other"] % len(mine)] if mine else None
        now = int(CLOCK.now)
        typ = TYPE[guise]
        if text and jose.parse(text):
            p = copy.deepcopy(jose.parse(text)[1])
        else:
            p = {"iss": V, "sub": cid, "aud": cid, "iat": now, "exp": now + 86400, "jwks": jose.jwks(*self.specs[V]["keys"]),
                 "trust_anchor_id": s["anchors"][0], "authority_hints": list(self.specs[V]["hints"]),
                 "metadata": {typ: {"client_id": cid, "response_types": ["code"], "client_secret": "x" * 40}}}
        p["iat"], p["exp"] = now, now + 3600
        md = p.setdefault("metadata", {}).setdefault(typ, {})
        k, kid = self.specs[V]["keys"][0], None
        ids = sorted(x for x in self.specs if x not in (cid, V))
        other = self.specs[ids[o["other"] % len(ids)]]
        if how == "att":
            k = o["key"]
            p["jwks"] = jose.jwks(k)
        elif how == "att_kid":
            k, kid = o["key"], jose.public_jwk(k)["kid"]
        elif how == "att_mix":
            k = o["key"]
            p["jwks"] = {"keys": p["jwks"]["keys"] + jose.jwks(k)["keys"]}
        elif how == "iss":
            k = other["keys"][0]
            p["jwks"] = jose.jwks(*other["keys"])
        elif how == "iss_signed":
            k = other["keys"][0]
            p["jwks"] = jose.jwks(*other["keys"])
            p["iss"] = other["id"]
            p["authority_hints"] = list(other.get("hints") or [])
        elif how == "self":
            k = s["keys"][0]
            p["jwks"] = jose.jwks(*s["keys"])
            p["iss"] = cid
        elif how == "sub":
            p["sub"] = p["aud"] = other["id"]
        elif how == "sub_own":
            p["sub"] = V
        elif how == "aud":
            p["aud"] = other["id"]
        elif how == "anchor":
            tas = sorted(x["id"] for x in self.specs.values() if x["kind"] == "ta") + ["https://unknown.example.com"]
            p["trust_anchor_id"] = tas[o["other"] % len(tas)]
        elif how == "noanchor":
            p.pop("trust_anchor_id", None)
        elif how == "expired":
            p["iat"], p["exp"] = now - 5000, now - 400
        elif how == "old":
            old = self.old_keys.get(V)
            if not old:
                return None
            k = old[-1]
            p["jwks"] = jose.jwks(k)
            for a in self.answers:
                j = jose.parse(a[2])[1].get("jwks") or {}
                if a[0] == cid and any(x.get("kid") == jose.public_jwk(k)["kid"] for x in j.get("keys", [])):
                    p["jwks"] = j
        elif how == "md":
            md.update(copy.deepcopy(o["md"]))
        elif how == "pkey":
            k = self.specs[V]["pkeys"][0]
            p["jwks"] = jose.jwks(k)
        out = jose.sign(p, k, kid=kid)
        if how == "edit":
            import json
            md["client_secret"] = "attacker" * 6
            h, b, sig = out.split(".")
            out = ".".join([h, jose.b64e(json.dumps(p, sort_keys=True).encode()), sig])
        return out

    def judge_client(self, desc, cid, guise, text, out, t0, must, where):
        P = "C11"
        self.ctx.checks += 1
        typ = TYPE[guise]
        if not out.ok:
            self.ctx.probe("cli_refused")
            if must:
                self.v(P, "client", "refused", f"{where}: {desc}: genuine answer refused: {out.exc!r} {out.where()}")
            return
        self.ctx.probe("cli_accepted")
        if where != "clean":
            self.ctx.probe("cli_" + where)
        p = jose.parse(text)
        p = p[1] if p else {}
        if p.get("sub") != cid or ("aud" in p and cid not in oracle.as_list(p["aud"])):
            self.v(P, "client", "address", f"{desc}: accepted by {cid}, addressed to {p.get('sub')} / {p.get('aud')}")
            return
        if p.get("iss") != V:
            self.v(P, "client", "issuer", f"{desc}: accepted, issued by {p.get('iss')}, asked was {V}")
            return
        if not isinstance(p.get("exp"), (int, float)) or p["exp"] < t0 - 1:
            self.v(P, "client", "expired", f"{desc}: accepted, expired {t0 - p.get('exp', 0)} s ago")
        ta = p.get("trust_anchor_id")
        if ta not in self.anchors(cid):
            self.v(P, "client", "anchor", f"{desc}: accepted, names {ta} as trust anchor")
            return
        ok = False
        for u in self.uppers(V, t0, cid):
            pls = [jose.parse(x)[1] for x in u]
            if jose.verify(text, pls[-1].get("jwks")) and not oracle.constraint_faults(pls + [{"iss": V, "sub": V}]):
                ok = True
                break
        for c in ([] if ok else self.chains_from(V, t0, cid)):
            pls = [jose.parse(x)[1] for x in c]
            if jose.verify(text, pls[-1].get("jwks")) and not oracle.constraint_faults(pls):
                ok = True
        if not ok:
            self.v(P, "client", "signature", f"{desc}: accepted, not signed with a key a valid chain of the server vouches for")
            return
        got = out.value if guise == "op" else (out.value or {}).get(typ)
        got = oracle.plain(got)
        md = (p.get("metadata") or {}).get(typ)
        if md is None:
            return
        diffs = []
        for u in self.uppers(cid, t0, cid):
            pls = [jose.parse(x)[1] for x in u] + [{"iss": cid, "sub": cid, "metadata": {typ: md}}]
            if oracle.constraint_faults(pls):
                continue
            ref = fedscn.reference_metadata(pls)
            if ref == "?" or self.any_superset(pls):
                return
            if ref is None:
                diffs.append("not valid")
                continue
            if oracle.ckey(ref.get(typ)) == oracle.ckey(got):
                if any("metadata_policy" in x for x in pls):
                    self.ctx.probe("cli_policy")
                return
            diffs.append({c: (ref[typ].get(c), got.get(c)) for c in set(ref[typ]) | set(got)
                          if oracle.ckey(ref[typ].get(c)) != oracle.ckey(got.get(c))})
        self.v(P, "client", "metadata", f"{desc}: what the client takes from the answer is not what its chains make of it: {diffs[:2]}")

    # -- histories --------------------------------------------------------------------------------
    def each_explicit(self, where, tries):
        for s in [x for x in self.specs.values() if x.get("client")]:
            for guise in s["client"]:
                if guise not in self.specs[V]["guises"]:
                    continue
                for i in range(tries):
                    if self.exchange(s, guise, {}, "good", where, i == tries - 1):
                        break

    def op_expl_recover(self, op):
        self.heal()
        CLOCK.offset.clear()
        if self.changed or self.ec_subst or self.skewed:
            return
        self.each_explicit("recovery", 3)

    def op_expl_audit(self, op):
        self.heal()
        CLOCK.offset.clear()
        CLOCK.advance(self.max_life + 700 + (100000 if self.skewed else 0))
        self.skewed = False
        self.changed = self.ec_subst = False
        self.suspect = set()
        for restart in (False, True):
            if restart:
                self.op_bounce({"node": V})
            self.each_explicit("audit", 1)
        self.ctx.probe("audited")
        self.ctx.ev("audit")


def run(scn, ctx):
    Run(scn, ctx).run()


def simplify(scn):
    yield from fedscn.simplify(scn)
    for i, o in enumerate(scn["ops"]):
        for k, v in (("wait", 0), ("rekey", None), ("how", "good"), ("md", {})):
            if o["op"] in ("explicit", "ask_reg") and o.get(k) and o.get(k) != v and not (k == "md" and o["op"] == "ask_reg"):
                c = copy.deepcopy(scn)
                c["ops"][i][k] = v
                yield c
