"""Scenarios about a trust mark issuer: issuing, status, listing, crashes and disk errors (C08)."""
import copy
import json
import os
import shutil
from urllib.parse import urlencode

from . import disk, env, fed, jose
from .env import At, CLOCK

TMI = "https://tmi.example.org"
IDS = ["https://refeds.org/sirtfi", "https://marks.example.org/a", "https://marks.example.org/b"]
SUBS = ["https://op.example.org", "https://rp.example.org", "https://x.example.org/tenant", "https://\u00e5.example.org"]
EP = "fedservice.trust_mark_entity.server."
ENDPOINT = {
    "trust_mark": {"path": "trust_mark", "class": EP + "trust_mark.TrustMark", "kwargs": {}},
    "trust_mark_list": {"path": "trust_mark_list", "class": EP + "trust_mark_list.TrustMarkList", "kwargs": {}},
    "trust_mark_status": {"path": "trust_mark_status", "class": EP + "trust_mark_status.TrustMarkStatus", "kwargs": {}},
}
_n = [0]


class TmiNode(fed.RealNode):
    def extra_kwargs(self):
        s = self.spec
        spec = {}
        for i in s["tm_ids"]:
            spec[i["id"]] = copy.deepcopy(i["spec"])
            if i["life"]:
                spec[i["id"]]["lifetime"] = i["life"]
        kw = {"trust_mark_specification": spec, "endpoint": copy.deepcopy(ENDPOINT)}
        if s["db"] == "file":
            kw["trust_mark_db"] = {"class": "fedservice.trust_mark_entity.FileDB",
                                   "kwargs": {i["id"]: os.path.join(s["dir"], i["file"]) for i in s["tm_ids"]}}
        elif s["db"] == "simple":
            kw["trust_mark_db"] = {"class": "fedservice.trust_mark_entity.SimpleDB", "kwargs": {}}
        return {"trust_mark_entity": {"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity", "kwargs": kw}}

    @property
    def tme(self):
        return self.fe.server.trust_mark_entity


class TmWorld(fed.World):
    def node_class(self, spec):
        return TmiNode if spec["kind"] == "tmi" else fed.RealNode


def gen(rng):
    nid = rng.randint(1, 3)
    shared = rng.random() < .15
    ids = [{"id": IDS[i], "life": rng.choice([0, 0, 60, 600, 600, 3600]), "file": "f0" if shared else f"f{i}",
            "spec": {"ref": IDS[i]} if rng.random() < .4 else {}} for i in range(nid)]
    db = "file" if rng.random() < .8 else rng.choice(["simple", "none"])
    ops = []
    nsub = rng.randint(1, len(SUBS))
    for _ in range(rng.randint(6, 30)):
        k = rng.choices(["issue", "status", "list", "forge", "advance", "skew", "restart", "writeback", "migrate", "space"],
                        [9, 6, 2.5, 1.2, 3, .5, 2 if db == "file" else 0, 1, .5, .6])[0]
        if k == "issue":
            plan = None
            if db == "file" and rng.random() < .45:
                n = rng.randint(1, 5)
                kind = rng.choices(["crash", "enospc", "eio", "short"], [5, 3, 1.5, 1.5])[0]
                plan = {str(n): [kind, rng.choice([0, 1, .5, rng.random()])]}
                if rng.random() < .2:
                    plan[str(n + rng.randint(1, 3))] = [rng.choice(["crash", "eio"]), 0]
            extra = {}
            if rng.random() < .15:
                extra = rng.choice([{"ref": "https://ref.example.org"}, {"logo_uri": "https://logo.example.org/" + "x" * rng.choice([1, 9000])},
                                    {"exp_in": rng.choice([30, 600, 5000])}])
            ops.append(["issue", rng.randrange(nid), rng.randrange(nsub), "api" if extra else rng.choice(["api", "http"]), plan, extra])
        elif k == "status":
            ops.append(["status", rng.choice(["sub", "id", "iat", "jwt", "jwt", "wrong-iat", "never", "unknown-id"]), rng.randrange(64),
                        rng.choice(["http", "http", "api"])])
        elif k == "list":
            ops.append(["list", rng.randrange(nid), rng.choice([None, None, rng.randrange(nsub)]), rng.choice(["http", "api"])])
        elif k == "forge":
            ops.append(["forge", rng.choice(["anchor", "noise", "relabel"]), rng.randrange(64)])
        elif k == "advance":
            ops.append(["advance", rng.choice([1, 20, 59, 61, 299, 301, 599, 601, 3000, 3601, 90000])])
        elif k == "skew":
            ops.append(["skew", rng.choice([0, -120, 120, 700, -4000])])
        elif k == "restart":
            ops.append(["restart", rng.choice(["clean", "process", "power", "power"])])
        else:
            ops.append([k])
    ops.append(["space"])
    ops.append(["audit"])
    if db == "file":
        ops += [["restart", rng.choice(["clean", "power"])], ["audit"]]
    return {"seed": rng.getrandbits(32), "db": db, "ids": ids, "ops": ops}


class Run:
    def __init__(self, scn, ctx):
        self.scn, self.ctx = scn, ctx
        import random
        self.rng = random.Random(f"disk:{scn['seed']}")
        self.records = []

    # -- the reference model --------------------------------------------------------------------------
    def status(self, tid, sub, iat, now):
        """True / False / None (not determined)"""
        may = False
        for r in self.records:
            if r["id"] != tid or r["sub"] != sub or (iat and r["iat"] != iat):
                continue
            if r["exp"] is not None:
                if abs(now - r["exp"]) <= 1:
                    may = True
                    continue
                if now > r["exp"]:
                    continue
            if r["handed"]:
                return True
            may = True
        return None if may else False

    # -- operations ---------------------------------------------------------------------------------
    def start(self):
        _n[0] += 1
        self.dir = os.path.join(fed.scratch(), f"disk{_n[0]}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.spec = {"id": TMI, "kind": "tmi", "keys": [3], "endpoints": ["entity_configuration"], "db": self.scn["db"],
                     "tm_ids": self.scn["ids"], "dir": os.path.join(self.dir, "m0"), "anchors": ["https://ta.example.org"],
                     "anchor_keys": {"https://ta.example.org": [5]}, "impl": "real"}
        self.moves = 0
        disk.install()
        self.mount()
        self.world = TmWorld(self.scn["seed"], [self.spec])
        self.node = self.world.nodes[TMI]

    def mount(self):
        self.disk = disk.Disk(self.spec["dir"])
        disk.DISKS[:] = [self.disk]

    def http(self, path, args):
        """(status code, parsed body or text)"""
        url = f"{TMI}/{path}?{urlencode(args)}"
        res = self.world.http("GET", url)
        if res is None:
            return None, None
        code, _, body = res
        return code, body

    def run(self):
        try:
            self.start()
            for i, op in enumerate(self.scn["ops"]):
                getattr(self, "do_" + op[0].replace("-", "_"))(*op[1:])
            self.ctx.fired.update(f"disk:{k}:{w}" for k, w in self.fired())
            self.ctx.absorb(self.world)
        finally:
            disk.DISKS[:] = []
            if getattr(self, "world", None):
                self.world.close()
            shutil.rmtree(self.dir, ignore_errors=True)

    all_fired = ()

    def fired(self):
        return list(self.all_fired) + self.disk.fired

    def now(self):
        return CLOCK.node_time(TMI)

    def do_advance(self, dt):
        CLOCK.advance(dt)
        self.ctx.ev("advance", dt)

    def do_skew(self, dt):
        CLOCK.offset[TMI] = dt
        self.ctx.ev("skew", dt)
        self.world.net.bump("clock-jump")

    def do_writeback(self):
        self.disk.sync_all()

    def do_space(self):
        self.disk.disarm()
        self.ctx.ev("space")

    def do_restart(self, how):
        if self.scn["db"] != "file":
            return
        if how == "clean":
            self.ctx.probe("restarted")
        self.world.crash(TMI)
        self.disk.restart(how == "power", self.rng)
        if how == "power":
            self.world.net.bump("power-failure")
            self.ctx.probe("power")
        self.world.restart(TMI)
        self.ctx.ev("restart", how)

    def do_issue(self, i, j, via, plan, extra):
        i %= len(self.scn["ids"])
        tid, sub = self.scn["ids"][i]["id"], SUBS[j]
        life = self.scn["ids"][i]["life"]
        extra = dict(extra)
        t = self.now()
        exp = t + life if life else None
        if "exp_in" in extra:
            exp = t + extra.pop("exp_in")
            extra["exp"] = exp
        full = self.disk.full
        self.disk.arm(plan)
        self.disk.full = full
        jws, crashed, what = None, False, "ok"
        try:
            if via == "api":
                out = self.world.op(TMI, self.node.tme.create_trust_mark, tid, sub, **extra)
                jws = out.value if out.ok else None
                what = out.short()
            else:
                code, body = self.http("trust_mark", {"trust_mark_id": tid, "sub": sub})
                what = str(code)
                if code == 200:
                    jws = body
        except disk.SimCrash:
            crashed, what = True, "crash"
        full = self.disk.full
        fired = bool(self.disk.fired)
        self.disk.plan = {}
        self.ctx.ev("issue", tid, sub, via, what, self.now())
        rec = {"id": tid, "sub": sub, "iat": t, "exp": exp, "handed": False, "jws": None}
        if jws and isinstance(jws, str) and jose.parse(jws):
            p = jose.parse(jws)[1]
            self.ctx.checks += 1
            if p.get("iss") != TMI or p.get("sub") != sub or p.get("id") != tid:
                self.V("mark", "C08:wrong-mark", f"asked for {tid} for {sub}, was given {p}")
            claims = {"iss": TMI, "sub": sub, "id": tid, **self.scn["ids"][i]["spec"], **extra}
            if exp is not None:
                claims["exp"] = exp
            if {k: v for k, v in p.items() if k != "iat"} != claims or not t <= p.get("iat", 0) <= self.now():
                self.V("mark", "C08:wrong-claims", f"asked for {tid} for {sub} {extra or ''} at {t}, lifetime {life or 'unlimited'}: got {p}")
            rec.update(iat=p.get("iat"), exp=p.get("exp"), handed=True, jws=jws)
            self.ctx.probe("issued")
            if plan and fired:
                self.ctx.probe("issued_despite_fault")
        else:
            self.ctx.probe("issue_failed")
            if crashed:
                self.ctx.probe("crashed")
        self.records.append(rec)
        if crashed or self.disk.crashed:
            self.do_restart(self.rng.choice(["process", "power"]))

    def V(self, oracle, sig, detail):
        if self.ctx.prop == sig.split(":")[0]:
            self.ctx.violate(oracle, sig, detail)

    def ask(self, tid, sub, iat, how):
        """What the status service says: True, False or the text of a failure."""
        if how == "api":
            out = self.world.op(TMI, self.node.tme.find, tid, sub, iat or 0)
            return bool(out.value) if out.ok else out.short()
        args = {"trust_mark_id" if how != "http-id" else "id": tid, "sub": sub}
        if iat:
            args["iat"] = iat
        return self.status_answer(*self.http("trust_mark_status", args))

    @staticmethod
    def status_answer(code, body):
        if code != 200:
            return f"http {code}" if code != 400 or "not_found" not in str(body) else False
        try:
            d = json.loads(body)
        except ValueError:
            return f"garbage {body[:60]}"
        return d.get("active") is True

    def judge(self, got, want, what, detail):
        self.ctx.checks += 1
        self.ctx.ev("status", what, str(got), str(want))
        if want is True:
            self.ctx.probe("status_active")
            if got is not True:
                self.V("history", "C08:forgotten", f"{detail}: a handed out mark that has not expired is reported {got}")
        elif want is False:
            self.ctx.probe("status_not")
            if got is True:
                self.V("history", "C08:not-issued" if what in ("never", "wrong-iat", "unknown-id", "forge") else "C08:expired-active",
                       f"{detail}: reported active, but there is no such mark in force")

    def do_status(self, how, k, via):
        now = self.now()
        if how == "unknown-id":
            got = self.ask("https://no.such/mark", SUBS[k % len(SUBS)], 0, via)
            return self.judge(got, False, how, "unknown trust mark id")
        if how == "never":
            tid, sub = IDS[k % len(self.scn["ids"])], f"https://never{k}.example.org"
            return self.judge(self.ask(tid, sub, 0, via), False, how, f"{tid} {sub}")
        if not self.records:
            return
        r = self.records[k % len(self.records)]
        tid, sub = r["id"], r["sub"]
        if how == "wrong-iat":
            iat = r["iat"] + 7 + k
            return self.judge(self.ask(tid, sub, iat, via), self.status(tid, sub, iat, now), how, f"{tid} {sub} iat={iat}")
        if how == "iat":
            return self.judge(self.ask(tid, sub, r["iat"], via), self.status(tid, sub, r["iat"], now), how,
                              f"{tid} {sub} iat={r['iat']} now={now} exp={r['exp']}")
        if how == "jwt" and r["jws"]:
            return self.ask_jwt(r, now)
        got = self.ask(tid, sub, 0, "http-id" if how == "id" and via == "http" else via)
        self.judge(got, self.status(tid, sub, 0, now), "sub", f"{tid} {sub} now={now} {self.about(tid, sub)}")

    def about(self, tid, sub):
        return [(r["iat"], r["exp"], "handed" if r["handed"] else "maybe") for r in self.records
                if r["id"] == tid and r["sub"] == sub]

    def ask_jwt(self, r, now):
        want = self.status(r["id"], r["sub"], r["iat"], now)
        same = [x for x in self.records if x is not r and (x["id"], x["sub"], x["iat"]) == (r["id"], r["sub"], r["iat"])]
        if now < r["iat"]:
            return
        if same and any(x["exp"] != r["exp"] for x in same):
            return
        got = self.status_answer(*self.http("trust_mark_status", {"trust_mark": r["jws"]}))
        self.ctx.probe("status_jwt")
        self.judge(got, want, "jwt", f"mark {r['id']} {r['sub']} iat={r['iat']} exp={r['exp']} now={now}")

    def do_forge(self, kind, k):
        """A mark the issuer never issued."""
        now = self.now()
        hs = [r for r in self.records if r["handed"] and (r["exp"] is None or r["exp"] > now)]
        if not hs:
            return
        r = hs[k % len(hs)]
        p = jose.parse(r["jws"])[1]
        if kind == "anchor":
            # somebody else the issuer knows the keys of states the same
            p["iss"] = "https://ta.example.org"
            jws = jose.sign(p, 5)
        elif kind == "noise":
            jws = jose.sign(p, 9)
        else:
            # one of the issuer's own signatures, but not about this
            h, b, s = r["jws"].split(".")
            p["sub"] = SUBS[(SUBS.index(r["sub"]) + 1) % len(SUBS)]
            if self.status(p["id"], p["sub"], p["iat"], now) is not False:
                return
            jws = ".".join([h, jose.sign(p, 9).split(".")[1], s])
        got = self.status_answer(*self.http("trust_mark_status", {"trust_mark": jws}))
        self.ctx.probe("forged")
        self.judge(got, False, "forge", f"{kind} {p['id']} {p['sub']}")

    def do_list(self, i, j, via):
        self.list_one(self.scn["ids"][i % len(self.scn["ids"])]["id"], None if j is None else SUBS[j], via)

    def list_one(self, tid, sub, via):
        now = self.now()
        holders = {r["sub"] for r in self.records if r["id"] == tid}
        if sub:
            holders &= {sub}
        say = {s: self.status(tid, s, 0, now) for s in holders}
        must = {s for s, v in say.items() if v is True}
        may = {s for s, v in say.items() if v is not False}
        if via == "api":
            out = self.world.op(TMI, self.node.tme.list, tid, *([sub] if sub else []))
            got = out.value if out.ok else out.short()
            if got is None:
                got = []
        else:
            args = {"trust_mark_id": tid}
            if sub:
                args["sub"] = sub
            code, body = self.http("trust_mark_list", args)
            if code == 200:
                try:
                    got = json.loads(body)
                except ValueError:
                    got = f"garbage {body[:60]}"
            else:
                got = [] if "not_found" in str(body) else f"http {code}"
        self.ctx.checks += 1
        self.ctx.ev("list", tid, str(sub), str(got))
        if isinstance(got, (str, dict)) or not hasattr(got, "__iter__"):
            return self.V("history", "C08:list", f"listing {tid} {sub or ''}: {got}")
        got = list(got)
        self.ctx.probe("listed_some" if must else "listed_none")
        if len(set(got)) != len(got) or not set(got) <= may or not must <= set(got):
            self.V("history", "C08:list", f"listing {tid} {sub or ''}: {got}, expected {sorted(must)}"
                   + (f" and possibly {sorted(may - must)}" if may - must else ""))

    def do_migrate(self):
        """The issuer moves: what it remembers is dumped and loaded into a new one."""
        out = self.world.op(TMI, self.node.tme.dump_trust_marks)
        self.ctx.ev("migrate", out.short())
        if not out.ok:
            return self.V("history", "C08:dump", f"cannot be written out: {out.exc!r} {out.where()}")
        self.moves += 1
        self.all_fired = self.fired()
        self.world.crash(TMI)
        self.spec["dir"] = os.path.join(self.dir, f"m{self.moves}")
        self.mount()
        self.world.restart(TMI)
        out = self.world.op(TMI, self.node.tme.load_trust_marks, out.value)
        if not out.ok:
            return self.V("history", "C08:load", f"cannot be read back: {out.exc!r} {out.where()}")
        self.ctx.probe("migrated")

    def do_audit(self):
        now = self.now()
        for i in self.scn["ids"]:
            for sub in sorted({r["sub"] for r in self.records if r["id"] == i["id"]}):
                self.judge(self.ask(i["id"], sub, 0, "http"), self.status(i["id"], sub, 0, now), "sub",
                           f"{i['id']} {sub} now={now} {self.about(i['id'], sub)}")
            self.list_one(i["id"], None, "http")
        for r in self.records:
            if r["handed"]:
                self.ask_jwt(r, now)
                self.judge(self.ask(r["id"], r["sub"], r["iat"], "http"), self.status(r["id"], r["sub"], r["iat"], now), "iat",
                           f"{r['id']} {r['sub']} iat={r['iat']} now={now} exp={r['exp']}")
        self.ctx.probe("audit")


def run(scn, ctx):
    Run(scn, ctx).run()


def simplify(scn):
    for i, op in enumerate(scn["ops"]):
        if op[0] == "issue":
            if op[4] and len(op[4]) > 1:
                for k in op[4]:
                    c = copy.deepcopy(scn)
                    del c["ops"][i][4][k]
                    yield c
            if op[4]:
                c = copy.deepcopy(scn)
                c["ops"][i][4] = None
                yield c
            if op[5]:
                c = copy.deepcopy(scn)
                c["ops"][i][5] = {}
                yield c
            if op[3] != "api":
                c = copy.deepcopy(scn)
                c["ops"][i][3] = "api"
                yield c
    for i, d in enumerate(scn["ids"]):
        if d["spec"]:
            c = copy.deepcopy(scn)
            c["ids"][i]["spec"] = {}
            yield c
    if len(scn["ids"]) > 1:
        c = copy.deepcopy(scn)
        c["ids"].pop()
        yield c
