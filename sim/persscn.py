"""Written out and read back (C14).

One subject runs fedservice among scripted entities (as in isoscn).  At points of its history its state is written out - contexts,
caches, kept and stored trust chains, the issued trust marks -, put through JSON, the entity crashes, is built again from its configuration,
what the operator configured later is configured again, and the state is read back.  The reference is the same history in a process where
that never happened.  Everything must be the same: answers, chains, requests sent, final state.
"""
import copy
import json
import os
import random

from . import fed, fedscn, isoscn, jose, regscn, sched
from .env import CLOCK
from .isoscn import differences, digest, first_difference, flat, plain, short, where
from .tmscn import ENDPOINT as TM_ENDPOINT

MARKS = isoscn.MARKS


# ------------------------------------------------------------------------------------------------
# generation
# ------------------------------------------------------------------------------------------------
def gen(rng):
    r = rng
    for _ in range(50):
        scn = isoscn.gen(r)
        scn["subjects"] = [s for s in scn["subjects"] if s["guise"] in ("entity", "builder", "tmi")][:1]
        if scn["subjects"]:
            break
    s = scn["subjects"][0]
    specs = scn["specs"]
    tas = [x for x in specs if x["kind"] == "ta"]
    if r.random() < .8:
        s["services"] = s["functions"] = None
        s["endpoints"] = r.choice([None, ["entity_configuration", "fetch", "list", "resolve"]])
    if s["guise"] == "tmi":
        s["tm_where"] = r.choice(["memory", "files", "moved", "moved"])
    if r.random() < .15:
        s["hints_file"] = r.choice(["str", "callable"])
    if r.random() < .15:
        s["marks_file"] = True
        s["marks"] = ["mark"]
    specs_ids = [x["id"] for x in specs]
    focus = r.sample(specs_ids, min(len(specs_ids), 2))
    focus = [focus[0]] * 2 + focus
    ops = [["create", 0]]
    n = r.randint(5, 26)
    for k in range(n):
        x = r.random()
        if x < .2:
            ops.append(["persist", 0, r.choice(["restart", "restart", "twice", "elsewhere"])])
        elif x < .25:
            ops.append(["snapshot", 0])
        elif x < .48:
            ops.append(r.choice([["keep", 0, r.choice(focus)], ["kept", 0, r.choice(focus)], ["stored", 0, r.choice(focus)], ["stored", 0, r.choice(focus)],
                                 ["use_kept", 0, r.choice(focus)], ["again_verify", 0, r.choice(focus)]]))
        elif x < .55 and s["guise"] == "tmi":
            ops.append(r.choice([["status_of", 0, r.randrange(8)], ["issue", 0, r.choice(MARKS), r.choice(focus)]]))
        elif x < .53:
            ops.append(["tick", 0, r.choice([60, 600, 42900, 43100, 86000, 86300, 90000])])
        elif x < .57:
            ops.append(["peer_change", 0, r.choice(specs_ids), r.choice(["drop_sub", "rekey", "md"])])
        elif x < .59 and s["guise"] != "tmi":
            ops.append(["persist_group", 0, [["persist_only", 0]], [["chains", 0, r.choice(specs_ids)] for _ in range(r.randint(1, 2))], schedule(r)])
        else:
            o = isoscn.operation(r, 0, s, specs, tas)
            if o[0] == "again":
                continue
            ops.append(o)
    if s["guise"] == "tmi" and r.random() < .3:
        # what the issuer remembers is written out while marks are issued
        ops.append(["persist_group", 0, [["persist_only", 0]], [["issue", 0, r.choice(MARKS), r.choice(specs_ids)] for _ in range(r.randint(1, 4))], schedule(r)])
    ops.append(["persist", 0, "restart"])
    tail = [["chains", 0, x] for x in focus[-2:]] + [["again_verify", 0, focus[0]], ["use_kept", 0, focus[0]], ["stored", 0, focus[0]]]
    if s["guise"] == "tmi":
        tail += [["status", 0, r.choice(MARKS), r.choice(specs_ids)], ["marked", 0, r.choice(MARKS)], ["issue", 0, MARKS[0], focus[0]], ["marked", 0, MARKS[0]],
                 ["status_of", 0, r.randrange(8)], ["status_of", 0, r.randrange(8)]]
    r.shuffle(tail)
    ops += tail[:r.randint(1, 5)] + [["state", 0], ["ec", 0]]
    return {"seed": scn["seed"], "specs": specs, "subjects": scn["subjects"], "ops": ops, "share": False}


def schedule(r):
    scale = r.choice([3, 15, 60, 250])
    return {"first": r.randrange(2), "opcodes": r.random() < .3, "focus": r.choice([None, "/idpyoidc/impexp", "/fedservice/entity_statement/", "/fedservice/trust_mark"]),
            "switches": [[1 + int(r.expovariate(1 / scale)), 0] for _ in range(r.choice([1, 2, 5, 20]))]}


# ------------------------------------------------------------------------------------------------
class Run(isoscn.Run):
    def __init__(self, scn, home, persists):
        super().__init__(scn, {0}, home)
        self.persists = persists
        self.kept = {}
        self.issued = []
        self.manual = []           # what the operator did after the entity was built
        self.dumps = []            # [(what, the object, its JSON text)]
        self.problems = []
        self.gen = 0
        self.restores = 0

    def dir(self, i):
        return os.path.join(self.home, f"{'p' if self.persists else 'r'}{i}")

    def arguments(self, i, anew=False):
        kw = super().arguments(i, anew=True)
        s = self.subjects[i]
        if s.get("tm_where") in ("files", "moved"):
            kw["trust_mark_entity"]["kwargs"]["trust_mark_db"] = {
                "class": "fedservice.trust_mark_entity.FileDB", "kwargs": {m: f"marks{self.gen}.{n}" for n, m in enumerate(MARKS)}}
        if s.get("hints_file") == "str":
            with open("hints.json", "w") as fp:
                json.dump(kw["authority_hints"], fp)
            kw["authority_hints"] = os.path.join(self.dir(i), "hints.json")
        elif s.get("hints_file"):
            kw["authority_hints"] = lambda h=kw["authority_hints"]: list(h)
        if s.get("marks_file") and kw.get("trust_marks"):
            with open("marks.json", "w") as fp:
                json.dump(kw["trust_marks"], fp)
            kw["trust_marks"] = os.path.join(self.dir(i), "marks.json")
        return kw

    def look(self, op):
        pass

    # -- writing out and reading back -----------------------------------------------------------
    def chains_of(self, n):
        return {"kept": dict(self.kept), "stored": dict(n.fe.trust_chain),
                "context": {e: list(t.values()) for e, t in dict(getattr(n.fe.context, "trust_chain", None) or {}).items()}}

    def write(self, n):
        """-> {what: exported object}"""
        c = n.fe.function.trust_chain_collector
        out = {"context": n.fe.context.dump(), "client context": n.fe.client.context.dump(), "server context": n.fe.server.context.dump(),
               "config cache": c.config_cache.dump(), "statement cache": c.entity_statement_cache.dump(),
               "chains": {w: {e: [t.dump() for t in ts] for e, ts in x.items()} for w, x in self.chains_of(n).items()}}
        out["keys"] = {o: sorted((k.serialize(private=True) for k in n.fe.keyjar.get_issuer_keys(o)), key=json.dumps) for o in sorted(n.fe.keyjar.owners())}
        if n.spec["guise"] == "tmi":
            t = n.fe.server.trust_mark_entity
            out["marks"] = json.loads(t.dump_trust_marks())
            out["marks object"] = t.issued.dump()
        return out

    def note(self, out):
        text = {}
        for what, obj in out.items():
            try:
                text[what] = json.dumps(obj)
            except (TypeError, ValueError) as err:
                self.problems.append(("json", what, f"{what}: what was exported cannot be written as JSON: {err}"))
                text[what] = json.dumps(None)
            else:
                self.dumps.append((what, obj, text[what]))
        return text

    def read(self, n, text):
        from fedservice.entity_statement.statement import TrustChain
        st = {k: json.loads(v) for k, v in text.items()}
        c = n.fe.function.trust_chain_collector
        n.fe.context.load(st["context"])
        n.fe.client.context.load(st["client context"])
        n.fe.server.context.load(st["server context"])
        c.config_cache.load(st["config cache"])
        c.entity_statement_cache.load(st["statement cache"])
        kj = n.fe.keyjar
        for o, keys in st["keys"].items():      # the keys it learned
            have = [k.serialize(private=True) for k in kj.get_issuer_keys(o)] if o in kj.owners() else []
            if any(k not in have for k in keys):
                kj.import_jwks({"keys": copy.deepcopy([k for k in keys if k not in have])}, o)
        ch = {w: {e: [TrustChain().load(t) for t in ts] for e, ts in x.items()} for w, x in st["chains"].items()}
        self.kept = ch["kept"]
        n.fe.trust_chain = ch["stored"]
        n.fe.context.trust_chain = {e: {t.anchor: t for t in ts} for e, ts in ch["context"].items()}
        if "marks" in st and n.spec.get("tm_where") != "files":
            n.fe.server.trust_mark_entity.load_trust_marks(json.dumps(st["marks"]))

    def persist(self, i, how):
        s = self.subjects[i]
        node = self.w.nodes.get(s["id"])
        if node is None:
            return
        with fed.At(s["id"]):
            try:
                out = self.write(node)
            except Exception as err:
                if fed.from_harness(err):
                    raise
                self.problems.append(("export", type(err).__name__, f"exporting the state of {s['id']} raised {err!r}"))
                return
        text = self.note(out)
        if any(k == "json" for k, _, _ in self.problems):
            return
        served = {"subordinate": copy.deepcopy(dict(node.fe.server.subordinate)), "policy": copy.deepcopy(dict(node.fe.server.policy))}
        if how != "elsewhere":
            node.entity = node.fe = None
        if s.get("tm_where") == "moved" or how == "elsewhere" and s.get("tm_where"):
            self.gen += 1
        rounds = 2 if how == "twice" else 1
        for k in range(rounds):
            if k and s.get("tm_where") == "moved":
                self.gen += 1
            r = self.build(i)
            if not r["ok"]:
                self.problems.append(("rebuild", "x", f"{s['id']} could not be built again: {r['exc']}"))
                return
            node = self.w.nodes[s["id"]]
            self.files = None
            with fed.At(s["id"]):
                try:
                    for k2, v in served.items():
                        getattr(node.fe.server, k2).clear()
                        getattr(node.fe.server, k2).update(copy.deepcopy(v))
                    for m in self.manual:
                        getattr(self, "op_" + m[0])(node, *m[2:])
                    if s.get("tm_where") == "files" and how == "elsewhere":
                        node.fe.server.trust_mark_entity.load_trust_marks(text["marks"])
                    self.read(node, text)
                    again = self.write(node)
                except Exception as err:
                    if fed.from_harness(err):
                        raise
                    self.problems.append(("import", type(err).__name__, f"importing the state of {s['id']} raised {err!r}"))
                    return
            for d in differences({a: json.loads(b) for a, b in text.items()}, json.loads(json.dumps(again))):
                self.problems.append(("round trip", where(d), f"state read back and exported again differs at {'/'.join(map(str, d))}"))
        self.restores += 1

    def exported(self):
        """What was exported is a picture of then."""
        for what, obj, text in self.dumps:
            if json.dumps(obj) != text:
                self.problems.append(("alias", what, f"{what}: what was exported changed later while the entity worked"))

    # -- operations -----------------------------------------------------------------------------
    def step(self, op):
        k, i, *a = op
        if k == "persist":
            if self.persists:
                os.makedirs(self.dir(i), exist_ok=True)
                self.persist(i, *a)
            return None
        if k == "snapshot":
            node = self.w.nodes.get(self.subjects[i]["id"])
            if self.persists and node is not None:
                with fed.At(node.id):
                    try:
                        out = self.write(node)
                    except Exception as err:
                        if fed.from_harness(err):
                            raise
                        self.problems.append(("export", type(err).__name__, f"exporting the state of {node.id} raised {err!r}"))
                        return None
                self.note(out)
            return None
        if k == "peer_change":
            self.peer_change(*a)
            return None
        if k == "persist_group":
            return self.persist_group(i, *a)
        if k == "pref":
            self.manual.append(op)
        if k == "create":
            self.manual = []
        return super().step(op)

    def peer_change(self, x, how):
        p = self.w.nodes.get(x)
        if p is None or p.real:
            return
        s = p.spec
        if how == "drop_sub" and s.get("subs"):
            s["subs"].pop(sorted(s["subs"])[0])
        elif how == "rekey" and s["kind"] == "leaf":
            s["keys"] = [(s["keys"][0] + 1) % 24]
            for o in self.w.nodes.values():
                if not o.real and x in (o.spec.get("subs") or {}):
                    o.spec["subs"][x]["keys"] = list(s["keys"])
        elif how == "md":
            for md in (s.get("md") or {}).values():
                if isinstance(md, dict):
                    md["organization_name"] = "New name"

    def persist_group(self, i, first, second, sc):
        """The state is written out while the entity works."""
        node = self.w.nodes.get(self.subjects[i]["id"])
        if node is None:
            return None
        if not self.persists:
            for o in second:
                self.one(o, 7)
            return None
        box = {}

        def write():
            with fed.At(node.id):
                try:
                    box["out"] = self.write(node)
                except Exception as err:
                    if fed.from_harness(err):
                        raise
                    box["err"] = err

        def work():
            for o in second:
                self.one(o, 7)
        s = sched.Scheduler(sc["switches"], sc["opcodes"], sc["focus"])
        for t in s.run([write, work], sc["first"]):
            if t.exc is not None:
                raise t.exc
        self.sched.append(s)
        if s.deadlock or s.stuck:
            self.problems.append(("stuck", "x", "exporting the state while the entity works never ends"))
        elif "err" in box:
            self.problems.append(("export", "busy " + type(box["err"]).__name__, f"exporting the state while the entity works raised {box['err']!r}"))
        else:
            self.note(box["out"])
        return None

    def op_issue(self, n, mark, sub):
        jws = super().op_issue(n, mark, sub)
        self.issued.append(jws)
        return jws

    def op_status_of(self, n, k):
        """Is that very mark still good?"""
        if not self.issued:
            return None
        jws = self.issued[k % len(self.issued)]
        p = jose.parse(jws)[1]
        ep = n.fe.server.trust_mark_entity.endpoint["trust_mark_status"]
        return [n.serve(ep, "GET", q, {}, "") for q in ({"sub": p["sub"], "id": p["id"], "iat": p["iat"]}, {"trust_mark": jws})] + [
            n.fe.server.trust_mark_entity.find(p["id"], p["sub"], p["iat"])]

    def op_anchor(self, n, eid):
        peer = self.w.nodes.get(eid)
        self.manual.append(["anchor_keys", 0, eid, list(peer.spec["keys"] if peer else [23])])
        return self.op_anchor_keys(n, *self.manual[-1][2:])

    def op_anchor_keys(self, n, eid, keys):
        n.fe.function.trust_chain_collector.add_trust_anchor(eid, jose.jwks(*keys))

    def op_keep(self, n, eid):
        """An application keeps chains."""
        from fedservice import save_trust_chains
        from fedservice.entity.function import get_verified_trust_chains
        tcs = get_verified_trust_chains(n.fe, eid)
        save_trust_chains(n.fe.context, tcs)
        self.kept[eid] = list(tcs)
        return tcs

    def op_kept(self, n, eid):
        from fedservice import get_trust_chain
        return {"context": get_trust_chain(n.fe.context, eid), "entity": n.fe.stored_trust_chains(eid)}

    def op_use_kept(self, n, eid):
        from fedservice.entity_statement.statement import chains2dict
        tcs = [t for t in self.kept.get(eid, []) if not t.is_expired()]
        out = {"there": len(self.kept.get(eid, [])), "valid": len(tcs)}
        if tcs:
            t = n.fe.pick_trust_chain(tcs)
            out.update(picked=t, exported=t.export_chain(), shortest=chains2dict(tcs), claims=t.claims(), policy=t.combined_policy, err=t.err,
                       verified=t.verified_chain, items=list(t.items()))
            out["stored"] = n.fe.pick_from_stored_trust_chains(eid)
        return out

    def op_again_verify(self, n, eid):
        """Kept chains are verified again."""
        from fedservice.entity.function import apply_policies, verify_trust_chains
        return apply_policies(n.fe, verify_trust_chains(n.fe, [list(t.chain) for t in self.kept.get(eid, [])]))

    def op_state(self, n):
        out = super().op_state(n)
        c = n.fe.function.trust_chain_collector
        out["caches"] = [dict(c.config_cache._db), dict(c.entity_statement_cache._db)]
        out["context chains"] = getattr(n.fe.context, "trust_chain", None) or {}
        out["kept"] = self.kept
        out["lifetime"] = [n.fe.context.default_lifetime, n.fe.server.context.default_lifetime]
        out["given"] = n.fe.context.get_trust_marks()
        if n.spec["guise"] == "tmi":
            out["marks"] = {m: sorted(n.fe.server.trust_mark_entity.list(m)) for m in MARKS}
        out.pop("issuer", None)
        for k in ("hints_file", "marks_file"):
            if n.spec.get(k):
                out.pop("marks" if k == "marks_file" else "hints", None)
        return out


def reference(scn, home):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = json.dumps({"res": Run(scn, home, False).run()})
        except BaseException:
            import traceback
            data = json.dumps({"error": traceback.format_exc()})
        with os.fdopen(w, "wb") as fp:
            fp.write(data.encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    out = json.loads(data)
    if "error" in out:
        raise isoscn.env.HarnessError(out["error"])
    return out["res"]


def run(scn, ctx):
    home = fed.scratch()
    want = reference(scn, home)
    r = Run(scn, home, True)
    got = json.loads(json.dumps(r.run()))
    r.exported()
    told = set()
    restored = False
    for s in r.sched:
        ctx.probe("written_while_working")
        ctx.probe("preempted", s.preempt)
        for n, (e, a, b, at) in enumerate(s.switches[:100]):
            ctx.ev("switch", e, a, b, at)
    for k, (op, x, y) in enumerate(zip(scn["ops"], want, got)):
        ctx.checks += 1
        if op[0] == "persist":
            restored = True
            ctx.probe("persist_" + op[2])
        if x is None:
            continue
        ctx.ev(k, op[0], digest(y))
        if restored:
            ctx.probe("after_" + op[0])
            v = (y or {}).get("value")
            if v and not (isinstance(v, dict) and "raised" in v):
                ctx.probe("good_" + op[0])
        d = first_difference(x, y)
        if d is not None and op[0] not in told:
            told.add(op[0])
            ctx.violate("restored", f"C14:{op[0]}:{where(d)}", f"operation {k} {op}: at {'/'.join(map(str, d))} without export and import {short(x, d)}, "
                        f"with {short(y, d)}")
    for kind, what, detail in r.problems:
        ctx.violate("export", f"C14:{kind}:{what}", detail)
    ctx.probe("restored", r.restores)
    ctx.probe("guise_" + scn["subjects"][0]["guise"])
    if scn["subjects"][0].get("tm_where"):
        ctx.probe("marks_" + scn["subjects"][0]["tm_where"])
    ctx.absorb(r.w)


def simplify(scn):
    for k, o in enumerate(scn["ops"]):
        if o[0] == "persist" and o[2] != "restart":
            yield dict(scn, ops=scn["ops"][:k] + [["persist", 0, "restart"]] + scn["ops"][k + 1:])
        if o[0] == "persist_group":
            sw = o[4]["switches"]
            for m in sorted({0, 1, len(sw) // 2, len(sw) - 1}):
                if 0 <= m < len(sw):
                    yield dict(scn, ops=scn["ops"][:k] + [[*o[:4], dict(o[4], switches=sw[:m])]] + scn["ops"][k + 1:])
    for c in isoscn.simplify(dict(scn, share=False)):
        if len(c["ops"]):
            yield c
    for k in ("hints_file", "marks_file", "tm_where"):
        if scn["subjects"][0].get(k):
            c = copy.deepcopy(scn)
            c["subjects"][0][k] = None
            yield c
