"""Scenarios about trust marks met by somebody who has to decide whether to believe them (C09)."""
import copy
import json

from . import env, fed, fedscn, jose, tmscn
from .env import CLOCK

T = ["https://ta0.example.org", "https://ta1.example.org"]
INT = "https://int.example.org"
TMI = "https://tmi.example.org"
EVIL = "https://evil.example.org"
OWNER = "https://owner.example.org"
OWNER2 = "https://owner2.example.org"
V = "https://verifier.example.org"
IDS = ["https://refeds.org/sirtfi", "https://marks.example.org/a", "https://marks.example.org/b"]
SUBS = ["https://op.example.org", "https://rp.example.org", EVIL]
ISS = [TMI, TMI, TMI, TMI, EVIL, T[0]]
ATT = [20, 21, 22, 23]
SPARE = [8, 9, 10, 11, 12, 13]
OKEYS = [5, 16, 17]
LIFE = 86400


class Peer(fed.Peer):
    pass


class World(tmscn.TmWorld):
    run = None

    def node_class(self, spec):
        return tmscn.TmiNode if spec["kind"] == "tmi" else fed.RealNode

    def extra(self, peer, what, method, rel, query, headers, body):
        return self.run.status_service(peer, query)


# ------------------------------------------------------------------------------------------------
# generation
# ------------------------------------------------------------------------------------------------
def entitlement(r, two):
    """What a trust anchor publishes about who issues what."""
    iss, own = {}, {}
    for i in IDS:
        x = r.random()
        if x < .42:
            iss[i] = r.choice([[TMI], [TMI], TMI, [T[0], TMI], [TMI, "https://else.example.org"]])
        elif x < .52:
            iss[i] = r.choice([["https://else.example.org"], [T[0]], EVIL, TMI + ".evil.example.org"])
        elif x < .8:
            iss[i] = r.choice([[TMI], [TMI], TMI, [OWNER]])
            own[i] = {"sub": OWNER, "keys": [r.choice(OKEYS[:2])]} if r.random() < .6 else {"sub": OWNER2, "keys": [7]}
        # else: nobody says anything
    return {"issuers": iss, "owners": own}


def gen(rng):
    r = rng
    two = r.random() < .4
    mid = r.random() < .4
    real_tmi = r.random() < .45
    lives = [LIFE, LIFE, 3600, 600]
    tas = T[:2] if two else T[:1]
    specs = []
    for n, t in enumerate(tas):
        specs.append({"id": t, "kind": "ta", "keys": [n], "subs": {EVIL: {"keys": [4], "life": r.choice(lives)}},
                      "impl": "real" if r.random() < .4 else "peer", "tm": entitlement(r, two), "tmi": True})
        if specs[-1]["impl"] == "peer":
            specs[-1]["ec_life"] = r.choice(lives)
    hints = []
    if mid:
        specs.append({"id": INT, "kind": "int", "keys": [2], "impl": r.choice(["real", "peer"]), "hints": [T[0]],
                      "subs": {TMI: {"keys": [3], "life": r.choice(lives)}}})
        specs[0]["subs"][INT] = {"keys": [2], "life": r.choice(lives)}
        hints.append(INT)
    else:
        specs[0]["subs"][TMI] = {"keys": [3], "life": r.choice(lives)}
        hints.append(T[0])
    if two and r.random() < .6:
        specs[1]["subs"][TMI] = {"keys": [3], "life": r.choice(lives)}
        hints.insert(r.randint(0, 1), T[1])
    tm = {"id": TMI, "kind": "tmi", "keys": [3], "hints": hints, "impl": "real" if real_tmi else "peer", "tmi": True}
    if real_tmi:
        tm.update(db=r.choice(["simple", "simple", "none"]), dir="", endpoints=["entity_configuration"], anchors=[T[0]],
                  anchor_keys={T[0]: [0]}, tm_ids=[{"id": i, "life": r.choice([0, 600, 3600]), "spec": {}} for i in IDS])
    else:
        tm["ec_life"] = r.choice(lives)
    specs.append(tm)
    specs.append({"id": EVIL, "kind": "leaf", "keys": [4], "hints": list(tas), "impl": "peer", "tmi": True})
    know = list(tas) if r.random() < .8 else tas[:1]
    specs.append({"id": V, "kind": "verifier", "keys": [6], "hints": [T[0]], "anchors": know, "endpoints": ["entity_configuration"],
                  "services": ["entity_configuration", "entity_statement", "trust_mark_status"],
                  "anchor_keys": {t: [n] for n, t in enumerate(know)}})
    specs[0]["subs"][V] = {"keys": [6]}
    for s in specs:
        if s["kind"] in ("ta",) or (s["id"] in (TMI, EVIL) and s["impl"] == "peer"):
            s["extra"] = {"/trust_mark_status": "status"}
    ops = []
    for _ in range(r.randint(3, 6)):
        ops.append(mint(r))
    for _ in range(r.randint(8, 22)):
        k = r.choices(["mint", "verify", "revoke", "statusmode", "rekey", "entitle", "owner", "dereg", "reg", "advance", "skew", "crash",
                       "restart", "rule", "heal", "hijack", "moved", "settle"],
                      [4, 14, 1.2, .6, .8, .9, .5, .5, .4, 2, .3, .4, .5, .8, .5, .35, .3, .6])[0]
        ops.append({"mint": mint, "verify": verify}[k](r) if k in ("mint", "verify") else op(k, r, specs))
    ops.append({"op": "settle"})
    ops += [mint(r, True), mint(r)]
    ops.append({"op": "audit"})
    return {"seed": r.getrandbits(32), "specs": specs, "ops": ops}


def mint(r, good=False):
    o = {"op": "mint", "iss": 0 if good else r.randrange(len(ISS)), "id": r.randrange(len(IDS)), "sub": r.randrange(len(SUBS)),
         "life": r.choice([None, None, 60, 600, 600, 5000]), "how": "genuine", "deleg": None, "via": r.choice(["own", "own", "harness"])}
    x = r.random()
    if not good and x < .4:
        o["how"] = r.choice(["wrong_key", "wrong_key_own_kid", "old_key", "evil_key", "anchor_key", "superior_key", "none", "hs256", "jwk",
                             "corrupt", "edit", "no_sub", "no_iat", "not_recorded", "not_recorded", "expired", "no_iss"])
        o["key"] = r.choice(ATT)
        o["pos"] = r.random()
    y = r.random()
    if y < .45:
        o["deleg"] = {"how": "good"}
        if not good and r.random() < .55:
            o["deleg"] = {"how": r.choice(["wrong_key", "wrong_key_own_kid", "by_issuer", "other_sub", "other_id", "other_iss", "expired", "none",
                                           "hs256", "edit", "old_owner", "garbage", "jwk", "other_owner", "other_owner"]), "key": r.choice(ATT)}
        o["deleg"]["life"] = r.choice([None, 300, 4000])
    return o


def verify(r):
    return {"op": "verify", "k": r.choice([0, 0, 1, 2, r.randint(0, 40)]), "via": r.choice(
        ["api", "api", "api", "api-nocheck", "verifier", "verifier", "verifier-check"]),
        "anchor": r.choice([0, 0, 0, 1, 2]), "who": r.choice([None, None, None, "sub", "other"])}


def op(k, r, specs):
    o = {"op": k}
    if k == "revoke":
        o["k"] = r.randint(0, 20)
    elif k == "statusmode":
        o.update(who=r.choice([TMI, TMI, T[0]]), mode=r.choice(["no", "no404", "garbage", "text", "honest", "honest"]))
    elif k == "rekey":
        o.update(who=r.choice([TMI, TMI, TMI, EVIL]), key=r.choice(SPARE), how=r.choice(["clean", "clean", "overlap", "halfway"]))
    elif k == "entitle":
        o.update(ta=r.randint(0, 1), tm=entitlement(r, True))
    elif k == "owner":
        o.update(key=r.choice(OKEYS))
    elif k in ("dereg", "reg"):
        o.update(who=r.choice([TMI, TMI, INT, EVIL]))
    elif k == "advance":
        o["dt"] = r.choice([1, 5, 61, 301, 601, 700, 3601, 5000, 90000])
    elif k == "skew":
        o.update(who=r.choice([V, V, TMI]), dt=r.choice([0, -300, 300, 4000, -4000]))
    elif k in ("crash", "restart"):
        o["who"] = r.choice([V, V, TMI, T[0], INT])
    elif k == "rule":
        o["rule"] = fedscn.rule(r, [s for s in specs if s["id"] != V], [f for f in fedscn.FAULTS if f not in ("swap", "stale")])
        o["rule"]["kind_of"] = r.choice(["ec", "fetch", "trust_mark_status", "trust_mark_status", "*"])
    elif k == "hijack":
        # somebody else answers in place of a trust anchor; without its keys
        o.update(ta=r.randint(0, 1), key=r.choice(ATT), n=r.choice([1, 2, -1]))
    elif k == "moved":
        o["who"] = TMI
    return o


# ------------------------------------------------------------------------------------------------
class Run:
    def __init__(self, scn, ctx):
        self.scn, self.ctx = scn, ctx
        self.specs = {s["id"]: s for s in copy.deepcopy(scn["specs"])}
        self.marks = []
        self.ledger = []
        self.mode = {}
        self.win = {}
        self.changed = True
        self.okey = OKEYS[0]
        self.oldkeys = []
        for s in self.specs.values():
            if s["kind"] == "ta":
                self.publish(s)
        self.w = World(scn["seed"], [], limit=400)
        self.w.run = self
        for s in self.specs.values():
            if s["kind"] != "verifier":
                self.w.add(s)
        self.w.add(self.specs[V])
        self.settled_at = CLOCK.now

    # -- world ------------------------------------------------------------------------------------
    def publish(self, s):
        tm = s["tm"]
        md = {}
        if tm["issuers"]:
            md["trust_mark_issuers"] = copy.deepcopy(tm["issuers"])
        if tm["owners"]:
            md["trust_mark_owners"] = {i: {"sub": o["sub"], "jwks": jose.jwks(*o["keys"])} for i, o in tm["owners"].items()}
        if s["impl"] == "real":
            s["pref"] = {"organization_name": "TA", "federation_trust_mark_status_endpoint": s["id"] + "/trust_mark_status", **md}
        else:
            s["md"] = {"federation_entity": md}

    def status_service(self, peer, q):
        now = CLOCK.read()
        mode = self.mode.get(peer.id, "honest")
        if mode == "garbage":
            return 200, fed.JSON_CT, "{\"active\": tru"
        if mode == "text":
            return 200, fed.JSON_CT, json.dumps({"active": "false", "status": "revoked"})
        act = mode == "honest" and self.answer(peer.id, q, now)
        if peer.id == EVIL:
            act = True
        if act:
            return 200, fed.JSON_CT, json.dumps({"active": True})
        if mode == "no404":
            return 404, fed.JSON_CT, json.dumps({"error": "not_found"})
        return 200, fed.JSON_CT, json.dumps({"active": False})

    def answer(self, iss, q, now):
        if "trust_mark" in q:
            p = jose.parse(q["trust_mark"])
            if not p or not jose.verify(q["trust_mark"], jose.jwks(*self.specs[iss]["keys"])):
                return False
            q = {k: str(p[1].get(k)) for k in ("sub", "id", "iat")}
        tid = q.get("trust_mark_id") or q.get("id")
        mine = [m for m in self.ledger if m["iss"] == iss and m["sub"] == q.get("sub") and m["id"] == tid]
        if q.get("iat"):
            mine = [m for m in mine if str(m["iat"]) == q["iat"]]
        if not mine:
            return False
        m = mine[-1]
        return not m["revoked"] and (m["exp"] is None or m["exp"] > now)

    def up(self, nid):
        return nid in self.w.nodes and nid not in self.w.net.down

    def V(self, oracle, sig, detail):
        self.ctx.violate(oracle, "C09:" + sig, detail)

    # -- what the verifier may have seen ------------------------------------------------------------
    def snap(self):
        """Remember until when what authorities say at this moment may be relied upon."""
        for s in self.specs.values():
            if not self.up(s["id"]) or s["id"] == V:
                continue
            now = CLOCK.node_time(s["id"])
            ecx = now + s.get("ec_life", LIFE)
            for k in s["keys"]:
                self.see(("ec", s["id"], k), ecx)
            if s["kind"] == "ta":
                self.see(("pol", s["id"], json.dumps(s["tm"], sort_keys=True)), ecx)
            for sub, e in (s.get("subs") or {}).items():
                for k in e["keys"]:
                    self.see(("es", s["id"], sub, k), now + e.get("life", LIFE))

    def see(self, k, exp):
        self.win[k] = max(self.win.get(k, 0), exp)

    def alive(self, now):
        return [k for k, x in self.win.items() if x + 1 >= now]

    def chain_to(self, sub, anchor, live, seen=()):
        """Can there be a chain of live statements from ``anchor`` down to ``sub``?"""
        if sub == anchor:
            return True
        return any(k[0] == "es" and k[2] == sub and k[1] not in seen and self.chain_to(k[1], anchor, live, seen + (sub,)) for k in live)

    def keys_of(self, iss, anchor, live):
        out = {k[2] for k in live if k[0] == "ec" and k[1] == iss}
        if iss == anchor:
            out |= set(self.specs[V]["anchor_keys"].get(iss, []))
        for k in live:
            if k[0] == "es" and k[2] == iss and self.chain_to(k[1], anchor, live):
                out.add(k[3])
        return out

    def entitled(self, p, tm, now):
        """(may, must) under what a trust anchor publishes."""
        issuers, owners = tm["issuers"], tm["owners"]
        tid, iss = p.get("id"), p.get("iss")
        lst = issuers.get(tid)
        lst = [lst] if isinstance(lst, str) else lst
        direct = lst is not None and iss in lst
        deleg = None
        if "delegation" in p:
            deleg = False
            d = jose.parse(p["delegation"]) if isinstance(p["delegation"], str) else None
            if d and tid in owners:
                o, d = owners[tid], d[1]
                deleg = (jose.verify(p["delegation"], jose.jwks(*o["keys"])) and d.get("iss") == o["sub"] and d.get("sub") == iss
                         and d.get("id") == tid and (d.get("exp") is None or d["exp"] + 1 >= now))
                if deleg and d.get("exp") is not None and d["exp"] - 5 < now:
                    deleg = "edge"
        free = lst is None and tid not in owners
        may = bool(direct or deleg or (free and deleg is None) or lst == [] or (tid in owners and owners[tid]["sub"] == iss))
        if deleg is None:
            must = (direct and tid not in owners) or free
        else:
            must = deleg is True and direct
        return may, must

    # -- verdict --------------------------------------------------------------------------------
    def verdict(self, m, anchors, check, who, now):
        """Reasons why the mark must not be accepted, and whether it must be."""
        p = m["payload"]
        live = self.alive(now)
        why = []
        if who is not None and who != p.get("sub"):
            why.append("other-subject: the mark is about somebody else than was asked")
        if p.get("exp") is not None and now > p["exp"] + 1:
            why.append(f"expired: {p['exp']} < {now}")
        if not all(isinstance(p.get(c), str) for c in ("iss", "sub", "id")):
            why.append("incomplete: claims are missing")
            return why
        best = None
        iss = p["iss"]
        for a in anchors:
            w = []
            if not self.chain_to(iss, a, live) or a not in self.specs[V]["anchors"]:
                w.append(f"no-chain: no trust chain from {iss} to {a}")
            elif not jose.verify(m["token"], jose.jwks(*sorted(self.keys_of(iss, a, live)))):
                w.append(f"signature: not signed with a key of {iss} that {a} vouches for")
            pols = [json.loads(k[2]) for k in live if k[0] == "pol" and k[1] == a]
            if not any(self.entitled(p, tm, now)[0] for tm in pols):
                w.append(f"not-entitled: {iss} is not entitled to issue {p['id']} according to {a}"
                         + (" nor by its delegation" if "delegation" in p else ""))
            if best is None or len(w) < len(best):
                best = w
        why += best or []
        if check and iss in self.specs:
            if not self.status_truth(iss, p, now - 2, any):
                why.append(f"not-active: {iss} does not say that this mark is active")
        return why

    def status_truth(self, iss, p, now, how):
        """Would the status service of ``iss`` say that this very mark is active?"""
        if iss == EVIL:
            return True
        same = [not m["revoked"] and (m["exp"] is None or m["exp"] > now) for m in self.ledger
                if (m["iss"], m["sub"], m["id"], m["iat"]) == (iss, p["sub"], p["id"], p.get("iat"))]
        return self.mode.get(iss, "honest") == "honest" and bool(same) and how(same)

    def quiet(self):
        return not self.w.net.rules and not self.w.net.down and not any(CLOCK.offset.values())

    def must(self, m, anchors, check, who, now):
        """Genuine, in good standing, and everybody around to vouch for it."""
        if not self.quiet() or self.changed or m["how"] not in ("genuine", "not_recorded"):
            return False
        p = m["payload"]
        if who is not None and who != p["sub"]:
            return False
        if p["iat"] > now or p.get("exp") is not None and p["exp"] < now + 30:
            return False
        iss = p["iss"]
        spec = self.specs[iss]
        if m["key"] not in spec["keys"] or iss not in (TMI, EVIL):
            return False
        for a in anchors:
            if a not in self.specs[V]["anchors"]:
                continue
            path = self.path(iss, a)
            if path and self.entitled(p, self.specs[a]["tm"], now)[1]:
                break
        else:
            return False
        if check:
            return self.status_truth(iss, p, now + 5, all)
        return True

    def path(self, sub, anchor):
        if sub == anchor:
            return [anchor]
        for h in self.specs[sub].get("hints") or []:
            if h not in self.specs:
                continue
            e = (self.specs[h].get("subs") or {}).get(sub)
            if e and set(e["keys"]) == set(self.specs[sub]["keys"]):
                p = self.path(h, anchor)
                if p:
                    return [sub] + p
        return None

    # -- operations -------------------------------------------------------------------------------
    def run(self):
        try:
            self.snap()
            for o in self.scn["ops"]:
                self.snap()
                getattr(self, "op_" + o["op"])(o)
                self.snap()
                if len(self.ctx.violations) > 3:
                    break
        finally:
            self.ctx.absorb(self.w)
            self.w.close()

    def delegation(self, d, iss, tid, now):
        how = d["how"]
        sub, did, diss, key = iss, tid, OWNER, self.okey
        for s in self.specs.values():
            if s["kind"] == "ta" and tid in s["tm"]["owners"]:
                diss, key = s["tm"]["owners"][tid]["sub"], s["tm"]["owners"][tid]["keys"][0]
                break
        if how == "other_owner":
            diss, key = (OWNER2, 7) if diss == OWNER else (OWNER, self.okey)
        kw = {}
        if how == "other_sub":
            sub = T[0] if iss != T[0] else TMI
        elif how == "other_id":
            did = IDS[(IDS.index(tid) + 1) % len(IDS)]
        elif how == "other_iss":
            diss = "https://other-owner.example.org"
        elif how == "by_issuer":
            key = self.specs[iss]["keys"][0]
        elif how in ("wrong_key", "wrong_key_own_kid", "jwk"):
            if how == "wrong_key_own_kid":
                kw["kid"] = jose.public_jwk(key)["kid"]
            key = d["key"]
            if how == "jwk":
                kw["headers"] = {"jwk": jose.public_jwk(key)}
        elif how == "none":
            kw["alg"] = "none"
        elif how == "hs256":
            kw["alg"] = "HS256"
        elif how == "old_owner":
            key = OKEYS[2] if key != OKEYS[2] else OKEYS[1]
        elif how == "garbage":
            return "not.a.delegation"
        p = {"iss": diss, "sub": sub, "id": did, "iat": now - 10}
        if how == "expired":
            p["exp"] = now - 2
        elif d.get("life"):
            p["exp"] = now + d["life"]
        t = jose.sign(p, key, **kw)
        if how == "edit":
            h, b, s = jose.sign(dict(p, sub="https://x.example.org"), key).split(".")
            t = ".".join([h, t.split(".")[1], s])
        return t

    def op_mint(self, o):
        iss, tid, sub = ISS[o["iss"]], IDS[o["id"]], SUBS[o["sub"]]
        spec = self.specs[iss]
        how = o["how"]
        now = CLOCK.node_time(iss)
        deleg = self.delegation(o["deleg"], iss, tid, now) if o["deleg"] else None
        key = spec["keys"][0]
        node = self.w.nodes[iss]
        if iss == TMI and node.real and o["via"] == "own" and how == "genuine":
            if not self.up(iss):
                return
            extra = {}
            if deleg:
                extra["delegation"] = deleg
            if o["life"]:
                extra["exp"] = now + o["life"]
            out = self.w.op(iss, node.tme.create_trust_mark, tid, sub, **extra)
            if not out.ok:
                return
            token, p = out.value, jose.parse(out.value)[1]
            self.ctx.probe("mint_own")
        else:
            p = {"iss": iss, "sub": sub, "id": tid, "iat": now}
            if o["life"]:
                p["exp"] = now + o["life"]
            if deleg:
                p["delegation"] = deleg
            kw = {}
            if how == "expired":
                p.update(iat=now - 700, exp=now - 2)
            elif how.startswith("no_"):
                p.pop(how[3:])
            elif how in ("wrong_key", "wrong_key_own_kid", "jwk"):
                if how == "wrong_key_own_kid":
                    kw["kid"] = jose.public_jwk(key)["kid"]
                key = o["key"]
                if how == "jwk":
                    kw["headers"] = {"jwk": jose.public_jwk(key)}
            elif how == "old_key":
                key = self.oldkeys[-1] if self.oldkeys else o["key"]
            elif how == "evil_key":
                key = self.specs[EVIL if iss != EVIL else TMI]["keys"][0]
            elif how == "anchor_key":
                key = 0 if iss != T[0] else 4
            elif how == "superior_key":
                key = 2
            elif how == "none":
                kw["alg"] = "none"
            elif how == "hs256":
                kw["alg"] = "HS256"
            token = jose.sign(p, key, **kw)
            if how == "corrupt":
                from .net import corrupt
                h, b, s = token.split(".")
                token = ".".join([h, b, corrupt(s, min(o["pos"], .9), 7)])
            elif how == "edit":
                q = dict(p, sub=SUBS[(o["sub"] + 1) % len(SUBS)])
                h, b, s = token.split(".")
                token = ".".join([h, jose.sign(q, key).split(".")[1], s])
                p = q
        if how not in ("not_recorded", "no_iat", "no_sub", "no_iss") and not (node.real and o["via"] != "own"):
            if not (node.real and iss == TMI and how != "genuine"):
                self.ledger.append({"iss": iss, "id": tid, "sub": sub, "iat": p.get("iat"), "exp": p.get("exp"), "revoked": False})
        self.marks.append({"token": token, "payload": p, "how": how, "deleg": (o["deleg"] or {}).get("how"), "key": key})
        self.ctx.ev("mint", iss, tid, how, (o["deleg"] or {}).get("how"))

    def op_verify(self, o):
        if not self.marks or not self.up(V):
            return
        m = self.marks[-1 - o["k"] % len(self.marks)]
        self.judge_one(m, o["via"], (T + ["https://unknown.example.org"])[o["anchor"]], o["who"])

    def judge_one(self, m, via, anchor, who):
        node = self.w.nodes[V]
        p = m["payload"]
        ent = None
        if via.startswith("verifier"):
            ent = {"sub": p.get("sub") or "", "other": "https://somebody.example.org"}.get(who)
        check = via in ("api", "verifier-check")
        anchors = [anchor] if via.startswith("verifier") else list(self.specs[V]["anchors"])
        mark0 = len(self.w.net.log)
        t0 = CLOCK.node_time(V)
        must = self.must(m, anchors, check, ent, t0)
        if via.startswith("api"):
            out = self.w.op(V, node.fe.verify_trust_mark, m["token"], check)
        else:
            kw = {}
            if check:
                kw["check_status"] = True
            if ent is not None:
                kw["entity_id"] = ent
            out = self.w.op(V, node.fe.function.trust_mark_verifier, m["token"], anchor, **kw)
        self.snap()
        self.ctx.checks += 1
        acc = bool(out.ok and out.value)
        self.ctx.ev("verify", via, m["how"], m["deleg"], "accepted" if acc else out.short())
        desc = (f"{via} anchor={anchors} entity={ent}: mark {p.get('id')} by {p.get('iss')} for {p.get('sub')} ({m['how']}, delegation "
                f"{m['deleg']})")
        if acc:
            why = self.verdict(m, anchors, check, ent, t0)
            if check and not why:
                ok = [x for x in self.w.net.log[mark0:] if x[1] == V and x[2] == p["iss"] and x[3] == "trust_mark_status"
                      and x[5] in ("ok200", "duplicate", "slow")]
                if not ok:
                    why.append(f"not-asked: accepted without an answer from the status service of {p['iss']}")
            for x in why:
                self.V("soundness", "accepted:" + x.split(":")[0], f"{desc} accepted; {x}")
            try:
                same = all(out.value.get(c) == p.get(c) for c in ("iss", "sub", "id", "iat", "exp"))
            except AttributeError:
                same = True
            if not same:
                self.V("soundness", "changed", f"{desc}: what was returned, {out.value}, is not what the mark says")
            self.ctx.probe("accepted")
            self.ctx.probe("accepted_" + via)
            if m["deleg"]:
                self.ctx.probe("accepted_delegated")
        else:
            self.ctx.probe("refused")
            if m["how"] != "genuine":
                self.ctx.probe("refused_" + m["how"])
            elif m["deleg"] not in (None, "good"):
                self.ctx.probe("refused_deleg_" + m["deleg"])
        if must:
            self.ctx.probe("good_standing")
            if not acc:
                self.V("completeness", "refused", f"{desc} refused although genuine, in force and vouched for: {out.short()} {out.exc!r} "
                                                  f"{out.where()}")

    def op_revoke(self, o):
        mine = [m for m in self.ledger if self.specs[m["iss"]]["impl"] == "peer" or m["iss"] != TMI]
        if mine:
            m = mine[-1 - o["k"] % len(mine)]
            m["revoked"] = True
            self.ctx.probe("revoked")
            if any(x is not m and (x["iss"], x["id"], x["sub"]) == (m["iss"], m["id"], m["sub"]) for x in self.ledger):
                self.ctx.probe("revoked_other_remains")
            self.ctx.ev("revoke", m["id"])

    def op_statusmode(self, o):
        if o["who"] == TMI and self.specs[TMI]["impl"] == "real":
            return
        self.mode[o["who"]] = o["mode"]
        self.ctx.ev("statusmode", o["mode"])

    def superiors(self, nid):
        return [s for s in self.specs.values() if nid in (s.get("subs") or {})]

    def op_rekey(self, o):
        s = self.specs[o["who"]]
        if not self.up(s["id"]) or o["key"] in s["keys"]:
            return
        old = s["keys"]
        self.oldkeys.append(old[0])
        new = [o["key"]] if o["how"] != "overlap" else [o["key"], old[0]]
        if o["how"] != "halfway":
            for a in self.superiors(s["id"]):
                a["subs"][s["id"]]["keys"] = new
                if self.up(a["id"]):
                    self.w.sync(a["id"])
        s["keys"] = new
        self.bounce(s["id"])
        self.changed = True
        self.ctx.ev("rekey", o["how"])

    def bounce(self, nid):
        if self.w.nodes[nid].real and self.up(nid):
            self.w.crash(nid)
            self.w.restart(nid)
            self.forgot(nid)

    def forgot(self, nid):
        if nid == TMI and self.specs[TMI]["impl"] == "real":
            # its trust mark database is not persistent in these scenarios (C08 has the persistent one)
            self.ledger = [m for m in self.ledger if m["iss"] != TMI]

    def op_entitle(self, o):
        tas = [s for s in self.specs.values() if s["kind"] == "ta"]
        s = tas[o["ta"] % len(tas)]
        s["tm"] = copy.deepcopy(o["tm"])
        self.republish(s)

    def republish(self, s):
        self.publish(s)
        self.bounce(s["id"])
        self.changed = True
        self.ctx.ev("entitle")

    def op_owner(self, o):
        self.okey = o["key"]
        for s in self.specs.values():
            if s["kind"] == "ta" and s["tm"]["owners"]:
                for x in s["tm"]["owners"].values():
                    if x["sub"] == OWNER:
                        x["keys"] = [o["key"]]
                self.republish(s)

    def op_dereg(self, o):
        for a in self.superiors(o["who"]):
            a.setdefault("was", {})[o["who"]] = a["subs"].pop(o["who"])
            if self.up(a["id"]):
                self.w.sync(a["id"])
            self.changed = True
        self.ctx.ev("dereg", o["who"])

    def op_reg(self, o):
        for a in self.specs.values():
            e = (a.get("was") or {}).pop(o["who"], None)
            if e:
                e["keys"] = list(self.specs[o["who"]]["keys"])
                a["subs"][o["who"]] = e
                if self.up(a["id"]):
                    self.w.sync(a["id"])
                self.changed = True

    def op_advance(self, o):
        CLOCK.advance(o["dt"])
        self.ctx.ev("advance", o["dt"])

    def op_skew(self, o):
        CLOCK.offset[o["who"]] = o["dt"]
        self.w.net.bump("clock-jump")
        self.changed = True

    def op_crash(self, o):
        if o["who"] in self.w.nodes and self.w.crash(o["who"]):
            self.changed = True

    def op_restart(self, o):
        if o["who"] not in self.w.nodes:
            return
        if o["who"] == V:
            self.w.crash(V)
        if self.w.restart(o["who"]):
            self.ctx.ev("restart", o["who"])
            if o["who"] == V:
                self.fresh()
            else:
                self.forgot(o["who"])

    def fresh(self):
        """The verifier knows nothing but its configuration."""
        self.win = {}
        self.snap()
        self.changed = False

    def op_rule(self, o):
        self.w.net.add_rule(o["rule"])
        # what was missed may be remembered as missing
        self.changed = True

    def op_heal(self, o):
        self.w.net.clear_rules()

    def op_hijack(self, o):
        tas = [s for s in self.specs.values() if s["kind"] == "ta"]
        s = tas[o["ta"] % len(tas)]

        def impostor(net, host, kind, query, body):
            p = jose.parse(body)
            if not p:
                return None
            p = p[1]
            p["jwks"] = jose.jwks(o["key"])
            fe = p["metadata"]["federation_entity"]
            fe["trust_mark_issuers"] = {i: [EVIL, TMI] for i in IDS}
            fe["trust_mark_owners"] = {i: {"sub": OWNER, "jwks": jose.jwks(*ATT)} for i in IDS}
            return jose.sign(p, o["key"])

        self.w.net.add_rule({"host": s["id"], "kind_of": "ec", "n": o["n"], "fault": "tamper", "how": "impostor", "fn": impostor})
        self.changed = True
        self.ctx.probe("impostor")

    def op_moved(self, o):
        """The issuer says where its status service is; another URL in the configuration it has published before stays in force."""
        self.changed = True
        self.ctx.ev("moved")

    def op_settle(self, o):
        """All faults gone, everybody up, the verifier starts afresh."""
        self.w.net.clear_rules()
        CLOCK.offset.clear()
        for n in list(self.w.net.down):
            self.w.restart(n)
            self.forgot(n)
        for s in self.specs.values():
            if s["id"] != V:
                self.w.sync(s["id"])
        self.mode = {}
        self.w.crash(V)
        self.w.restart(V)
        self.fresh()
        self.ctx.ev("settle")
        self.ctx.probe("settled")

    def op_audit(self, o):
        for n, m in enumerate(self.marks[-8:]):
            self.judge_one(m, ["api", "verifier", "verifier-check"][n % 3], T[0], "sub")
            self.judge_one(m, "api-nocheck", T[0], None)
        self.ctx.probe("audit")


def run(scn, ctx):
    Run(scn, ctx).run()


def simplify(scn):
    for i, s in enumerate(scn["specs"]):
        if s["impl" if "impl" in s else "kind"] == "real" and s["kind"] in ("ta", "int"):
            c = copy.deepcopy(scn)
            c["specs"][i]["impl"] = "peer"
            yield c
    for i, o in enumerate(scn["ops"]):
        if o["op"] == "mint":
            for k, v in (("deleg", None), ("how", "genuine"), ("life", None), ("via", "harness")):
                if o[k] != v:
                    c = copy.deepcopy(scn)
                    c["ops"][i][k] = v
                    yield c
        if o["op"] == "verify":
            for k, v in (("who", None), ("via", "verifier")):
                if o[k] != v:
                    c = copy.deepcopy(scn)
                    c["ops"][i][k] = v
                    yield c
