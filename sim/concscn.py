"""Scenarios with threads: several threads use the same entities at once (C18).

The threads' interleaving is part of the scenario (sim/sched.py).  Between the groups of concurrent operations there
are serial steps: time passes, faults come and go, operators edit registries.

Oracles:
* every accepted chain is sound (sim/oracle.py, C01..C04);
* without faults and without edits in the group, every operation gives what the same operation gives when it runs
  alone afterwards (times and signatures apart);
* with faults, an operation may fail, but what it answers is (part of) what it answers alone;
* with edits, a statement or listing is the one of some moment during the request;
* a trust mark is known as soon as the operation that issued it has returned, not before one that issues it began, and
  none is lost;
* after each group every entity is found with all its chains: the group left no damage.
"""
import copy
import itertools
import json
import os
import shutil
from urllib.parse import urlencode

from . import env, fed, fedscn, jose, net, oracle, sched, tmscn
from .env import At, CLOCK

V = "https://verifier.example.org"
IDS = ["https://marks.example.org/a", "https://marks.example.org/b"]
VOLATILE = ("iat", "exp", "_jws", "jti")
SERVICES = ["entity_configuration", "entity_statement", "list", "resolve", "trust_mark", "trust_mark_status", "trust_mark_list"]
POLICY = {"federation_entity": {"organization_name": {"default": "unnamed"}}}
_n = [0]


class TmiNode(tmscn.TmiNode):
    def serve(self, ep, method, query, headers, body):
        code, hd, bd = super().serve(ep, method, query, headers, body)
        if ep.name == "trust_mark" and code == 200:
            hd = {"Content-Type": ep.response_content_type}
        return code, hd, bd


class Node(fed.RealNode):
    def start(self):
        super().start()
        if self.id == V:
            self.know()

    def know(self):
        """Its operator gave it the keys of everybody it is going to ask something."""
        from idpyoidc.key_import import import_jwks
        for s in self.world.specs.values():
            if s["id"] not in self.spec["anchors"] and s["id"] != V:
                import_jwks(self.fe.keyjar, jose.jwks(*s["keys"]), s["id"])


class ConcWorld(fed.World):
    def node_class(self, spec):
        return TmiNode if spec["kind"] == "tmi" else Node


# ------------------------------------------------------------------------------------------------
# generator
# ------------------------------------------------------------------------------------------------
def gen(rng):
    r = rng
    g = fedscn.Gen(r, n_ta=(1, 2), n_int=(0, 3), n_leaf=(2, 3), cycles=.05, stray_hint=.08, extra_hint=.4, constraints=r.choice([0, 0, .3]),
                   policies=r.choice([0, 0, .4]), real=.75, half_registered=.03, resolvers=.6, paths=0)
    specs = g.topology()
    for s in specs:
        if "ec_life" in s:
            s["ec_life"] = r.choice([43200, 86400])
        for e in (s.get("subs") or {}).values():
            e["life"] = r.choice([43200, 86400])
    ver = next(s for s in specs if s["id"] == V)
    ver["services"] = list(SERVICES)
    tas = [s for s in specs if s["kind"] == "ta"]
    for i in range(r.choice([0, 1, 1, 2, 2])):
        up = r.choice(tas)
        t = {"id": f"https://tmi{i}.example.org", "kind": "tmi", "keys": [g.key()], "hints": [up["id"]], "impl": "real", "tmi": True,
             "db": r.choice(["simple", "none", "file"]), "endpoints": ["entity_configuration"], "anchors": [up["id"]],
             "anchor_keys": {up["id"]: list(up["keys"])}, "md": {},
             "tm_ids": [{"id": IDS[j], "life": r.choice([0, 0, 7200]), "spec": {}, "file": f"f{i}{j}"} for j in range(2)]}
        up["subs"][t["id"]] = {"keys": list(t["keys"]), "life": 86400}
        specs.append(t)
    ops = []
    many = r.random() < .4
    for _ in range(r.randint(4, 9) if many else r.randint(1, 3)):
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            k = r.choices(["warm", "advance", "rule", "fresh"], [2, 2, 1.5, 1.5])[0]
            if k == "warm":
                ops.append({"op": "serial", "acts": [action(r, specs, "mix") for _ in range(r.randint(1, 3))]})
            elif k == "advance":
                ops.append({"op": "advance", "dt": r.choice([1, 30, 3000, 43000, 90000])})
            elif k == "rule":
                ops.append({"op": "rule", "rule": fedscn.rule(r, specs, faults=("drop_request", "reset", "status", "slow", "drop_response", "empty"))})
            else:
                ops.append({"op": "fresh"})
        o = group(r, specs, .9 if many else .25)
        for k, x in o.pop("before", ()):
            ops.append({"op": "serial", "acts": [x]} if k == "serial" else {"op": "advance", "dt": x})
        ops.append(o)
    return {"seed": r.getrandbits(32), "specs": specs, "ops": ops}


def group(r, specs, once=.3):
    theme = r.choices(["mix", "chains", "client", "serve", "marks", "edits"], [3, 3, 2, 1, 3, 2])[0]
    if theme == "marks" and not any(s["kind"] == "tmi" for s in specs):
        theme = "mix"
    n = r.choice([2, 2, 2, 3, 3, 4])
    focus = r.choice([s["id"] for s in specs]) if r.random() < .5 else None
    threads = [[action(r, specs, theme, focus) for _ in range(r.choice([1, 1, 2, 3]))] for _ in range(n)]
    o = {"op": "group", "theme": theme, "threads": threads, "first": r.randrange(n), "opcodes": r.random() < .25}
    if theme == "edits":
        sup = edited(r, specs)
        if sup is None:
            o["theme"] = "serve"
        else:
            o["sup"] = sup["id"]
            o["threads"][0] = [edit(r, specs, sup) for _ in range(r.choice([1, 1, 2, 2, 3]))]
            for t in o["threads"][1:]:
                for i in range(len(t)):
                    if r.random() < .8:
                        t[i] = asking(r, specs, sup)
    elif r.random() < .4:
        # the same at the same time
        for t in threads[1:]:
            t[0] = list(threads[0][0])
            if t[0][0] == "issue":
                t[0][3] = r.choice([s["id"] for s in specs if s["id"] != V][:3])
    if theme == "marks" and r.random() < .5:
        # all about the same marks
        one = r.choice([s["id"] for s in specs if s["kind"] == "tmi"]), r.choice(IDS), r.choice([s["id"] for s in specs if s["id"] != V][:3])
        for t in threads:
            for a in t:
                if a[0] in ("issue", "status", "mlist"):
                    a[1:] = one[:len(a) - 1]
        if r.random() < .7:
            # there is an older one, possibly expired
            o["before"] = [["serial", ["issue", *one]], ["advance", r.choice([1, 30, 3000, 8000])]]
    scale = r.choice([3, 15, 60, 60, 250, 1000]) * (3 if o["opcodes"] else 1)
    count = r.choice([2, 5, 12, 30, 80])
    if r.random() < .1:
        # step by step
        scale, count = r.choice([1, 2, 4]), r.choice([150, 400])
    elif r.random() < .6:
        # switches only in some part of the code
        o["focus"] = "/fedservice/trust_mark_entity/" if theme == "marks" and r.random() < .6 else r.choice(["/fedservice/trust_mark_entity/", "/fedservice/entity/client/", "/fedservice/entity/server/", "/fedservice/entity/function/",
                               "/fedservice/entity_statement/", "/fedservice/entity/__init__", "/fedservice/entity/context"]
                              + [{"salt": r.getrandbits(20), "mod": m} for m in (4, 8, 8, 16, 16, 40, 40)])
        scale = r.choice([1, 2, 4, 10]) * (3 if o["opcodes"] else 1)
    o["switches"] = [[1 + int(r.expovariate(1 / scale)), r.randrange(6)] for _ in range(count)]
    if r.random() < .4:
        o["switches"][0][0] += r.randint(0, 1500)
    if theme in ("chains", "mix", "client") and r.random() < .35:
        # what they ask for was asked for before and has expired
        o["before"] = [["serial", x] for t in threads for x in t[:1] if x[0] in ("resolve", "c_resolve", "md")] + [
            ["advance", r.choice([42950, 43000, 86200, 90000])]]
    if r.random() < once:
        # one operation interrupted once (or twice) by others that run to their end
        o["threads"] = [t[:r.choice([1, 1, 2])] for t in threads[:r.choice([2, 2, 2, 3])]]
        o["first"] = r.randrange(len(o["threads"]))
        if theme == "marks" and r.random() < .5:
            o["focus"] = "/fedservice/trust_mark_entity/"
            n = r.choice([6, 15, 40])
            a = next((a for t in threads for a in t if a[0] == "issue"), None)
            if a:
                o["threads"][:2] = [[a], [r.choice([["status", *a[1:]], ["mlist", *a[1:3]], ["issue", *a[1:]]])]]
        elif r.random() < .75:
            o["focus"] = {"salt": r.getrandbits(20), "mod": r.choice([16, 40, 100]), "path": "/fedservice/"}
            n = r.choice([3, 10, 30])
        else:
            n = r.choice([10, 30, 100]) if o.get("focus") else r.choice([200, 1000, 3000])
        o["switches"] = [[r.randint(1, n), r.randrange(6)] for _ in range(r.choice([1, 1, 2]))]
    return o


def edited(r, specs):
    c = [s for s in specs if s["kind"] in ("ta", "int") and s["impl"] == "real" and s.get("subs")]
    return r.choice(c) if c else None


def asking(r, specs, sup):
    if r.random() < .6:
        return ["s_fetch", sup["id"], r.choice(sorted(sup["subs"]))]
    return ["s_list", sup["id"], r.choice([{}, {}, {"entity_type": "openid_relying_party"}, {"intermediate": "true"}])]


def edit(r, specs, sup):
    sub = r.choice(sorted(sup["subs"]))
    k = r.choices(["drop", "put", "new", "policy", "types"], [3, 2, 2, 1.5, 1.5])[0]
    if k == "new":
        return ["edit", sup["id"], f"https://new{r.randrange(4)}.example.org", {"keys": [r.choice(fedscn.FREE)], "life": 7200,
                                                                              "types": [r.choice(["openid_relying_party", "oauth_client"])]}]
    if k == "drop":
        return ["edit", sup["id"], sub, None]
    if k == "put":
        return ["edit", sup["id"], sub, {"keys": [r.choice(fedscn.FREE)], "life": r.choice([7200, 9000]),
                                         "types": [r.choice(["openid_relying_party", "oauth_client"])],
                                         "intermediate": r.random() < .4}]
    if k == "types":
        return ["editpolicy", sup["id"], r.choice(["openid_relying_party", "oauth_client"]),
                r.choice([None, {"metadata_policy": {"contacts": {"add": "ops@x.example.org"}}},
                          {"metadata_policy": {"client_name": {"default": f"n{r.randrange(3)}"}}}])]
    return ["editpolicy", sup["id"], sub, r.choice([None, {"metadata_policy": {"openid_relying_party": {"client_name": {"default": "z"}}}}])]


def action(r, specs, theme, focus=None):
    ids = [s["id"] for s in specs if s["id"] != V]
    sups = [s for s in specs if s["kind"] in ("ta", "int") and s.get("subs")]
    reals = [s for s in sups if s["impl"] == "real"]
    tmis = [s for s in specs if s["kind"] == "tmi"]
    w = {"mix": dict(resolve=5, stored=1, md=1, c_ec=2, c_es=2, c_list=1.5, c_resolve=1, c_mark=1, s_ec=1, s_fetch=1, s_list=1, s_resolve=1, issue=1, status=1,
                     mlist=.5, verify=1),
         "chains": dict(resolve=6, stored=2, md=1, s_resolve=1, verify=.7),
         "client": dict(c_ec=3, c_es=3, c_list=2, c_resolve=2, c_mark=2.5, c_status=1, resolve=1.5),
         "serve": dict(s_ec=2, s_fetch=3, s_list=2, s_resolve=2, resolve=1),
         "marks": dict(issue=5, status=3, mlist=2, c_mark=1, c_status=1, verify=1),
         "edits": dict(s_fetch=2, s_list=2, resolve=1, s_ec=1)}[theme]
    w = dict(w)
    if not tmis:
        for k in ("c_mark", "issue", "status", "mlist", "c_status", "verify"):
            w.pop(k, None)
    if not reals:
        for k in ("s_fetch", "s_list", "s_resolve"):
            w.pop(k, None)
    tgt = focus if focus in ids and r.random() < .7 else r.choice(ids)
    k = r.choices(list(w), list(w.values()))[0]
    anchors = next(s for s in specs if s["id"] == V)["anchors"]
    if k in ("resolve", "stored", "md", "c_ec"):
        return [k, tgt]
    if k == "c_es":
        s = r.choice(sups)
        return [k, s["id"], r.choice(sorted(s["subs"]) + [tgt])]
    if k == "c_list":
        return [k, r.choice(sups)["id"], r.choice([{}, {"entity_type": "openid_relying_party"}, {"intermediate": True}])]
    if k == "c_resolve":
        real = [s["id"] for s in specs if s["id"] in anchors and s["impl"] == "real"]
        return [k, r.choice(real), tgt] if real else ["resolve", tgt]
    if k == "s_ec":
        return [k, r.choice([s["id"] for s in specs if s["impl"] == "real"])]
    if k == "s_fetch":
        s = r.choice(reals)
        return [k, s["id"], r.choice(sorted(s["subs"]))]
    if k == "s_list":
        return [k, r.choice(reals)["id"], r.choice([{}, {"entity_type": "openid_relying_party"}, {"intermediate": "true"}])]
    if k == "s_resolve":
        s = r.choice(reals + [next(s for s in specs if s["id"] == V)])
        return [k, s["id"], tgt, r.choice(s.get("anchors") or [s["id"]])]
    t = r.choice(tmis)["id"]
    if k in ("issue", "c_mark"):
        return [k, t, r.choice(IDS), r.choice(ids[:3])]
    if k in ("status", "c_status"):
        return [k, t, r.choice(IDS), r.choice(ids[:3])]
    if k == "mlist":
        return [k, t, r.choice(IDS)]
    return ["verify", t, r.randrange(8), r.choice(anchors)]


# ------------------------------------------------------------------------------------------------
# executor
# ------------------------------------------------------------------------------------------------
def plain(x):
    """An answer without what differs from one time to the next."""
    if hasattr(x, "to_dict"):
        x = x.to_dict()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items() if k not in VOLATILE}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, str) and x.count(".") == 2 and x.startswith("ey"):
        p = jose.parse(x)
        return {"jws": plain(p[1])} if p else "jws?"
    return x


def key(x):
    return json.dumps(x, sort_keys=True, default=str)


class Op:
    __slots__ = ("act", "start", "end", "ok", "val", "exc", "where", "thread", "raw", "t0", "t1")


class Run(fedscn.Run):
    World = ConcWorld
    V = V

    def __init__(self, scn, ctx):
        sched.install()
        _n[0] += 1
        d = os.path.join(fed.scratch(), f"conc{_n[0]}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for s in scn["specs"]:
            if s["kind"] == "tmi":
                s["dir"] = d
        scn = dict(scn, oracles=[])
        super().__init__(scn, ctx)
        self.w.net.limit = 20000
        self.w.net.yield_hook = sched.net_hook
        self.seq = itertools.count()
        self.tick_no = 0
        self.marks = []          # dict(tmi, id, sub, iat, exp, jws, start, end, sure)
        self.faulty = False

    def v(self, prop, oracle_, sig, detail):
        self.ctx.violate(oracle_, f"C18:{sig}" if prop == "C18" else f"C18:{prop.lower()}-{sig}", detail)

    def now(self):
        self.tick_no += 1
        return self.tick_no

    # -- actions: each returns (normalised answer, raw) -------------------------------------------------
    def fe(self):
        return self.w.nodes[V].fe

    def a_resolve(self, tid):
        from fedservice.entity.function import get_verified_trust_chains
        return self.chains(get_verified_trust_chains(self.fe(), tid))

    def a_stored(self, tid):
        return self.chains(self.fe().get_trust_chains(tid))

    @staticmethod
    def chains(tcs):
        tcs = list(tcs or [])
        return sorted([[list(tc.iss_path), oracle.plain(tc.metadata)] for tc in tcs], key=key), tcs

    def a_md(self, tid):
        md = self.fe().get_verified_metadata(tid)
        return oracle.plain(md) if md else None, None

    def client(self, *a, **kw):
        res = self.fe().do_request(*a, **kw)
        return plain(res), res

    def a_c_ec(self, eid):
        return self.client("entity_configuration", entity_id=eid)

    def a_c_es(self, sup, sub):
        return self.client("entity_statement", issuer=sup, subject=sub)

    def a_c_list(self, sup, flt):
        n, raw = self.client("list", entity_id=sup, **flt)
        return sorted(n) if isinstance(n, list) else n, raw

    def a_c_resolve(self, anchor, sub):
        return self.client("resolve", request_args={"sub": sub, "anchor": anchor}, endpoint=anchor + "/resolve")

    def a_c_mark(self, tmi, tid, sub):
        from idpyoidc.message import Message
        res = self.fe().do_request("trust_mark", response_body_type="jwt",
                                   request_args={"trust_mark_id": tid, "sub": sub}, issuer=tmi)
        return plain(res), res

    def a_c_status(self, tmi, tid, sub):
        res = self.fe().do_request("trust_mark_status", request_args={"trust_mark_id": tid, "sub": sub},
                                   fetch_endpoint=tmi + "/trust_mark_status")
        return bool(res.get("active")), res

    def http(self, nid, path, args):
        from urllib.parse import urlsplit
        u = urlsplit(nid + path)
        with At(nid):
            code, hd, body = self.w.nodes[nid].handle("GET", u.path, dict(args), {}, None)
        return code, body

    def served(self, nid, path, args):
        code, body = self.http(nid, path, args)
        if code >= 400:
            return "error", body
        if isinstance(body, str) and body.startswith("ey"):
            return plain(body), body
        try:
            val = json.loads(body)
        except ValueError:
            return plain(body), body
        return sorted(val) if isinstance(val, list) else val, body

    def a_s_ec(self, nid):
        from urllib.parse import urlsplit
        u = urlsplit(nid)
        with At(nid):
            code, hd, body = self.w.nodes[nid].handle("GET", u.path.rstrip("/") + "/.well-known/openid-federation", {}, {}, None)
        return plain(body) if code == 200 else "error", body

    def a_s_fetch(self, nid, sub):
        return self.served(nid, "/fetch", {"iss": nid, "sub": sub})

    def a_s_list(self, nid, flt):
        return self.served(nid, "/list", flt)

    def a_s_resolve(self, nid, sub, anchor):
        return self.served(nid, "/resolve", {"sub": sub, "anchor": anchor})

    def a_issue(self, tmi, tid, sub):
        return self.served(tmi, "/trust_mark", {"trust_mark_id": tid, "sub": sub})

    def a_status(self, tmi, tid, sub):
        code, body = self.http(tmi, "/trust_mark_status", {"trust_mark_id": tid, "sub": sub})
        return code < 400 and bool(json.loads(body).get("active")), body

    def a_mlist(self, tmi, tid):
        code, body = self.http(tmi, "/trust_mark_list", {"trust_mark_id": tid})
        return sorted(json.loads(body)) if code < 400 else [], body

    def a_verify(self, tmi, k, anchor):
        known = [m for m in self.fixed_marks if m["tmi"] == tmi]
        if not known:
            return None, None
        m = known[k % len(known)]
        res = self.fe().function.trust_mark_verifier(m["jws"], anchor)
        return (plain(res) if res else None), res

    def a_edit(self, nid, sub, entry):
        subs = self.specs[nid]["subs"]
        if entry is None:
            subs.pop(sub, None)
        else:
            subs[sub] = copy.deepcopy(entry)
        self.w.nodes[nid].edit_registry(sub)
        return None, None

    def a_editpolicy(self, nid, k, pol):
        pols = self.specs[nid].setdefault("policies", {})
        if pol is None:
            pols.pop(k, None)
        else:
            pols[k] = copy.deepcopy(pol)
        self.w.nodes[nid].edit_policy(k)
        return None, None

    def perform(self, act, thread=None):
        o = Op()
        o.act, o.thread, o.exc, o.where, o.val, o.raw = act, thread, None, "", None, None
        o.start = self.now()
        node = V if act[0] in ("resolve", "stored", "md", "verify") or act[0].startswith("c_") else act[1]
        o.t0 = int(CLOCK.now)
        try:
            with At(node):
                o.val, o.raw = getattr(self, "a_" + act[0])(*act[1:])
            o.ok = not (isinstance(o.val, str) and o.val == "error") and not (isinstance(o.val, dict)
                                                                              and ("error" in o.val or "http_response" in o.val))
        except Exception as err:
            if fed.from_harness(err):
                raise
            o.ok, o.exc = False, err
            o.where = fed.Outcome(node, exc=err).where()
            o.val = "error"
        o.end = self.now()
        o.t1 = int(CLOCK.now)
        return o

    # -- steps ----------------------------------------------------------------------------------------
    def op_serial(self, op):
        for a in op["acts"]:
            self.fixed_marks = list(self.marks)
            o = self.perform(a)
            self.ctx.ev("serial", *map(str, a), o.ok)
            self.note_issue(o)

    def op_advance(self, op):
        CLOCK.advance(op["dt"])

    def op_rule(self, op):
        super().op_rule(op)
        self.faulty = True

    def op_fresh(self, op):
        self.fresh()

    def fresh(self):
        """Everybody but the trust mark issuers is restarted: nothing is cached."""
        for nid, n in self.w.nodes.items():
            if n.real and n.spec["kind"] != "tmi":
                n.start()

    def op_group(self, op):
        sup = op.get("sup") if op["theme"] == "edits" else None
        faulty = self.faulty and any(r.get("n", 1) != 0 for r in self.w.net.rules)
        self.fixed_marks = list(self.marks)
        self.w.net.op_requests = 0
        before = None
        versions = []
        if sup:
            before = copy.deepcopy({k: self.specs[sup].get(k) for k in ("subs", "policies")})
            versions.append((-1, copy.deepcopy(before), 0))
        done = []

        def body(acts, i):
            def fn():
                for a in acts:
                    o = self.perform(a, i)
                    done.append(o)
                    if a[0] in ("edit", "editpolicy"):
                        s = self.specs[sup]
                        versions.append((o.start, copy.deepcopy({k: s.get(k) for k in ("subs", "policies")}), o.end))
            return fn
        s = sched.Scheduler(op["switches"], op.get("opcodes"), op.get("focus"))
        threads = s.run([body(a, i) for i, a in enumerate(op["threads"])], op.get("first", 0))
        for n, (e, a, b, where) in enumerate(s.switches):
            if n < 200:
                self.ctx.ev("switch", e, a, b, where)
        for o in done:
            self.ctx.ev("did", o.thread, *map(str, o.act), o.ok, o.start, o.end)
        self.ctx.probe("group_" + op["theme"])
        self.ctx.probe("preempted", s.preempt)
        self.ctx.probe("switched", len(s.switches))
        self.ctx.checks += 1
        for t in threads:
            if t.exc is not None:
                raise t.exc
        if s.deadlock:
            self.v("C18", "deadlock", "deadlock", f"threads doing {op['threads']} wait for each other for ever")
            return
        if s.stuck:
            self.v("C18", "progress", "stuck", f"threads doing {op['threads']} do not end")
            return
        overlap = any(a.thread != b.thread and a.start < b.end and b.start < a.end for a in done for b in done)
        if overlap:
            self.ctx.probe("overlapped")
        for o in done:
            self.note_issue(o)
        for o in done:
            self.sound(o)
        self.judge_marks(done, faulty)
        if sup:
            self.judge_edits(op, done, versions, sup, faulty)
        # from here on nothing is disturbed
        self.w.net.clear_rules()
        self.faulty = False
        if sup:
            # let what was learned during the edits go (that is C05/C07/C16), keep the original federation
            for k, val in before.items():
                if val is None:
                    self.specs[sup].pop(k, None)
                else:
                    self.specs[sup][k] = val
            self.fresh()
        self.same_alone(op, done, sup, faulty)
        self.no_damage(done)

    # -- oracles --------------------------------------------------------------------------------------
    def what(self, o):
        return f"{o.act} (thread {o.thread})"

    def sound(self, o):
        if o.act[0] in ("resolve", "stored") and o.ok:
            self.judge(o.raw, o.act[1], o.t0, V, "stored" if o.act[0] == "stored" else "gvtc")

    def same_alone(self, op, done, sup, faulty):
        for o in done:
            k = o.act[0]
            if k in ("edit", "editpolicy", "issue", "status", "mlist", "c_mark", "c_status"):
                continue
            if sup and k not in ("s_ec",):
                continue
            alone = self.perform(o.act)
            self.ctx.checks += 1
            if faulty and (not o.ok or o.val in ([], None)):
                self.ctx.probe("failed_under_fault")
                continue
            if not alone.ok and not o.ok:
                self.ctx.probe("refused_alike")
                if os.environ.get("FEDSIM_DEBUG"):
                    print("REFUSED", o.act, repr(alone.exc), alone.where, alone.raw)
                continue
            if alone.ok and not o.ok:
                self.v("C18", "serial", f"failed:{k}", f"{self.what(o)} among {op['threads']} failed with {o.exc!r} {o.where} {o.val}; alone "
                                                       f"it gives {key(alone.val)[:300]}")
                continue
            if o.ok and not alone.ok:
                if not faulty:
                    self.v("C18", "serial", f"succeeded:{k}", f"{self.what(o)} among {op['threads']} gave {key(o.val)[:300]}; alone it fails "
                                                              f"with {alone.exc!r} {alone.where}")
                continue
            same = key(o.val) == key(alone.val)
            if not same and faulty and isinstance(o.val, list) and k in ("resolve", "stored"):
                same = {key(x) for x in o.val} <= {key(x) for x in alone.val}
            if not same and faulty and k in ("md", "s_resolve", "verify", "c_resolve"):
                continue            # another chain under faults: the chains themselves are judged
            if not same and k in ("md", "s_resolve", "c_resolve"):
                # several chains to choose from
                self.ctx.probe("chosen_differently")
                if k == "md":
                    cs = self.perform(["resolve", o.act[1]])
                    if cs.ok and any(key(x[1]) == key(o.val) for x in cs.val):
                        continue
            if same:
                self.ctx.probe("same_" + k)
                if o.val:
                    self.ctx.probe("same_nonempty")
                continue
            self.v("C18", "serial", f"differs:{k}", f"{self.what(o)} among {op['threads']} gave {key(o.val)[:400]}; alone it gives "
                                                    f"{key(alone.val)[:400]}")

    def no_damage(self, done):
        seen = []
        for o in done:
            if o.act[0] in ("resolve", "stored", "md", "c_ec") and o.act[1] not in seen:
                seen.append(o.act[1])
        for tid in seen:
            if tid not in self.specs:
                continue
            o = self.perform(["resolve", tid])
            if o.exc is not None and self.expected(tid):
                self.v("C18", "damage", "failed-after", f"after the threads were done, resolving {tid} fails with {o.exc!r} {o.where}")
                continue
            if o.ok:
                self.complete(o.raw, tid, "after", props=("C18",))
                self.ctx.probe("audited")

    # -- edits
    def judge_edits(self, op, done, versions, sup, faulty):
        spec = self.specs[sup]
        for o in done:
            if o.act[0] not in ("s_fetch", "s_list") or o.act[1] != sup:
                continue
            # version i was current from the start of its edit to the end of the next one
            poss = []
            for i, (start, state, end) in enumerate(versions):
                last = versions[i + 1][2] if i + 1 < len(versions) else 10 ** 9
                if start < o.end and o.start < last:
                    poss.append(state)
            self.ctx.checks += 1
            if len(poss) > 1:
                self.ctx.probe("edit_during")
            if o.act[0] == "s_list":
                allowed = [self.listed(st, o.act[2]) for st in poss]
                if not o.ok:
                    self.v("C18", "edits", "list-failed", f"{self.what(o)} among {op['threads']} failed: {o.exc!r} {o.raw}")
                elif o.val not in allowed:
                    self.v("C18", "edits", "list", f"{self.what(o)} among {op['threads']} gave {o.val}; at the moments during the request the "
                                                   f"registry meant {allowed}")
                else:
                    self.ctx.probe("edit_list_ok")
                continue
            sub = o.act[2]
            allowed = []
            for a, b in itertools.product(poss, poss):
                e = (a["subs"] or {}).get(sub)
                if e is None:
                    allowed.append("error")
                    continue
                pols = [p["policies"] or {} for p in poss]
                # each policy that plays a part is the one of some moment
                names = [sub] + list(e.get("types") or [])
                for combo in itertools.product(*[{key(p.get(n)) for p in pols} for n in names]):
                    view = {n: json.loads(x) for n, x in zip(names, combo) if x != "null"}
                    pl = fed.es_payload(dict(spec, subs={sub: e}, policies=view), sub, 0)
                    allowed.append(plain(pl))
            if o.val == "error":
                ok = "error" in allowed
            else:
                told = {k: v for k, v in ((o.val.get("jws") if isinstance(o.val, dict) else None) or {}).items()
                        if k not in ("intermediate", "entity_type", "entity_types")}
                ok = any(key(x) == key(told) for x in allowed if x != "error")
            if not ok:
                self.v("C18", "edits", "fetch", f"{self.what(o)} among {op['threads']} gave {key(o.val)[:600]}; at the moments during the request "
                                                f"it would have been one of {key(allowed)[:900]}")
            else:
                self.ctx.probe("edit_fetch_error" if o.val == "error" else "edit_fetch_ok")

    @staticmethod
    def listed(state, flt):
        out = []
        for sid, e in (state["subs"] or {}).items():
            if flt.get("intermediate") and not e.get("intermediate"):
                continue
            if flt.get("entity_type") and flt["entity_type"] not in (e.get("types") or e.get("etypes") or []):
                continue
            out.append(sid)
        return sorted(out)

    # -- trust marks
    def note_issue(self, o):
        if o.act[0] not in ("issue", "c_mark"):
            return
        _, tmi, tid, sub = o.act
        rec = {"tmi": tmi, "id": tid, "sub": sub, "start": o.start, "end": o.end, "sure": False, "iat": None, "exp": None, "jws": None}
        if o.ok:
            raw = o.raw
            if not isinstance(raw, str) and raw is not None:
                raw = getattr(raw, "_jws", None) or raw
            p = jose.parse(raw) if isinstance(raw, str) else (None, raw.to_dict() if hasattr(raw, "to_dict") else raw)
            if p and isinstance(p[1], dict):
                pl = p[1]
                if (pl.get("iss"), pl.get("id"), pl.get("sub")) != (tmi, tid, sub):
                    self.v("C18", "marks", "mixed-up", f"{self.what(o)} gave a mark by {pl.get('iss')} about {pl.get('id')}, {pl.get('sub')}")
                    return
                rec.update(sure=True, iat=pl.get("iat"), exp=pl.get("exp"), jws=raw if isinstance(raw, str) else None)
                self.ctx.probe("mark_issued")
                if o.act[0] == "c_mark":
                    self.ctx.probe("mark_asked_for")
        self.marks.append(rec)
        self.marks = [m for m in self.marks if m["jws"] or m["sure"] or True]

    def mark_status(self, tmi, tid, sub, o):
        """True, False or None (either)."""
        may = False
        for m in self.marks:
            if (m["tmi"], m["id"], m["sub"]) != (tmi, tid, sub):
                continue
            if m["exp"] is not None:
                if o.t0 > m["exp"] + 1:
                    continue
                if o.t1 >= m["exp"] - 1:
                    may = True
                    continue
            if m["sure"] and m["end"] < o.start:
                return True
            if m["start"] < o.end:
                may = True
        return None if may else False

    def judge_marks(self, done, faulty):
        for o in done:
            k = o.act[0]
            if k in ("issue", "c_mark") and not o.ok and not faulty:
                if k == "issue" or self.mark_possible(o.act[1]):
                    self.v("C18", "marks", f"failed:{k}", f"{self.what(o)} failed with {o.exc!r} {o.where} {o.raw}")
                continue
            if k in ("status", "c_status"):
                self.ctx.checks += 1
                if faulty and (not o.ok or (k == "c_status" and o.raw.get("error"))):
                    self.ctx.probe("failed_under_fault")   # the question or its answer was lost
                    continue
                want = self.mark_status(*o.act[1:], o)
                got = o.val is True
                if o.exc is not None:
                    self.v("C18", "marks", f"failed:{k}", f"{self.what(o)} failed with {o.exc!r} {o.where}")
                elif want is not None and got != want:
                    self.v("C18", "marks", "status", f"{self.what(o)} gave {got}, the history says {want}")
                else:
                    self.ctx.probe(f"mark_status_{got}")
            elif k == "mlist":
                self.ctx.checks += 1
                if not o.ok:
                    self.v("C18", "marks", "list-failed", f"{self.what(o)} failed with {o.exc!r} {o.where} {o.raw}")
                    continue
                subs = {m["sub"] for m in self.marks if m["tmi"] == o.act[1]}
                for sub in subs | set(o.val):
                    want = self.mark_status(o.act[1], o.act[2], sub, o)
                    if want is not None and want != (sub in o.val):
                        self.v("C18", "marks", "list", f"{self.what(o)} gave {o.val}; the history says {want} for {sub}")
                self.ctx.probe("mark_listed")
        # nothing is lost
        for tmi in sorted({m["tmi"] for m in self.marks}):
            for tid in IDS:
                o = self.perform(["mlist", tmi, tid])
                for sub in sorted({m["sub"] for m in self.marks if m["tmi"] == tmi and m["id"] == tid}):
                    want = self.mark_status(tmi, tid, sub, o)
                    if want is not None and (not o.ok or want != (sub in o.val)):
                        self.v("C18", "marks", "lost", f"after the threads were done {tmi} lists {o.val} for {tid}; the history says {want} for {sub}")
            for m in self.marks:
                if m["tmi"] != tmi or not m["jws"]:
                    continue
                o = Op()
                o.t0 = int(CLOCK.now)
                if m["exp"] is not None and o.t0 >= m["exp"] - 1:
                    continue
                code, body = self.http(tmi, "/trust_mark_status", {"trust_mark": m["jws"]})
                self.ctx.checks += 1
                if code >= 400 or not json.loads(body).get("active"):
                    self.v("C18", "marks", "lost", f"after the threads were done {tmi} says about a mark it issued ({m['id']}, {m['sub']}): {body}")

    def mark_possible(self, tmi):
        """Asking for a mark the federation's way needs a valid chain for the issuer."""
        return any(isinstance(m, dict) for m in self.expected(tmi).values())


def run(scn, ctx):
    Run(scn, ctx).run()


def simplify(scn):
    for i, o in enumerate(scn["ops"]):
        if o["op"] == "serial" and len(o["acts"]) > 1:
            for j in range(len(o["acts"])):
                c = copy.deepcopy(scn)
                del c["ops"][i]["acts"][j]
                yield c
        if o["op"] != "group":
            continue
        if len(o["threads"]) > 2:
            for j in range(len(o["threads"])):
                if o["theme"] == "edits" and j == 0:
                    continue
                c = copy.deepcopy(scn)
                del c["ops"][i]["threads"][j]
                yield c
        for j, t in enumerate(o["threads"]):
            if len(t) > 1:
                for k in range(len(t)):
                    c = copy.deepcopy(scn)
                    del c["ops"][i]["threads"][j][k]
                    yield c
        n = len(o["switches"])
        for size in (n // 2, n // 4, 1):
            if size < 1:
                continue
            for j in range(0, n, size):
                c = copy.deepcopy(scn)
                gone = c["ops"][i]["switches"][j:j + size]
                del c["ops"][i]["switches"][j:j + size]
                yield c
                c = copy.deepcopy(c)
                if j < len(c["ops"][i]["switches"]):
                    c["ops"][i]["switches"][j][0] += sum(x[0] for x in gone)
                    yield c
            if size == 1:
                break
    yield from fedscn.simplify(scn)
