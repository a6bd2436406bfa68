"""Several entities in one process, and each of them alone (C12).

The subjects of a scenario run fedservice; everybody else in the federation is scripted.  The scenario is run once for every
subject, in a process of its own, with only that subject built - from a configuration of its own - and only its operations.
Then it is run with all subjects, which may be handed the same objects wherever their configurations are equal.  Every
operation must give what it gave alone, and the configurations handed in must be what they were.
"""
import copy
import json
import os
import _thread
from urllib.parse import urlencode

from . import env, fed, fedscn, jose, regscn, explscn, sched
from .env import At, CLOCK
from .regscn import PKEYS, TYPE, UNIT
from .tmscn import ENDPOINT as TM_ENDPOINT

GUISES = ["entity", "entity", "entity", "builder", "server", "server", "client", "client", "tmi"]
MARKS = ["https://refeds.org/sirtfi", "https://marks.example.org/a"]
SERVICES = ["entity_configuration", "entity_statement", "resolve", "list", "trust_mark", "trust_mark_status", "trust_mark_list", "who"]
FUNCTIONS = ["trust_chain_collector", "verifier", "policy", "trust_mark_verifier"]
STEP = 200


# ------------------------------------------------------------------------------------------------
# generation
# ------------------------------------------------------------------------------------------------
def gen(rng):
    r = rng
    g = regscn.Gen(r, n_ta=(1, 2), n_int=(0, 2), n_leaf=(1, 2), policies=r.choice([0, .5]), constraints=r.choice([0, .3]), real=0, paths=.2,
                   short=r.choice([0, .2]))
    specs = g.topology()
    v = specs.pop([s["id"] for s in specs].index(regscn.V))
    tas = [s for s in specs if s["kind"] == "ta"]
    ups = [s for s in specs if s["kind"] in ("ta", "int")]
    for s in specs:
        s["impl"] = "peer"
        (s.get("subs") or {}).pop(v["id"], None)
    subjects = []
    for i in range(r.randint(2, 4)):
        guise = r.choice(GUISES)
        if subjects and r.random() < .4:
            guise = subjects[-1]["guise"]
        s = {"id": f"https://e{i}.example.org" + r.choice(["", "", "/x"]), "guise": guise, "keys": [g.key()], "pkey": r.choice(PKEYS), "kind": "leaf",
             "hints": [], "anchors": sorted({t["id"] for t in tas if r.random() < .7} or {tas[0]["id"]})}
        for u in r.sample(ups, min(len(ups), r.randint(1, 2))):
            g.link(s, u)
        if r.random() < .3:
            s["priority"] = r.sample(s["anchors"], len(s["anchors"]))
        if subjects and r.random() < .6:        # much alike
            for k in ("anchors", "priority", "keys"):
                if k in subjects[0] and r.random() < (.7 if k != "keys" else .1):
                    s[k] = copy.deepcopy(subjects[0][k])
            s["hints_as"] = subjects[0]["id"]
        s["pref"] = r.choice([None, None, {"organization_name": "The org"}, {"organization_name": "The org", "contacts": ["a@b"]},
                              {"organization_name": "Other"}])
        s["services"] = r.choice([None, None, SERVICES[:2], SERVICES[:4], SERVICES])
        s["functions"] = r.choice([None, None, FUNCTIONS, "conf"])
        s["endpoints"] = r.choice([None, ["entity_configuration", "fetch", "list", "resolve"], ["entity_configuration", "fetch", "list", "resolve"],
                                   ["entity_configuration"], "dict"])
        s["init"] = r.choice([None, None, "extended", "delta", "delta2", "args"])
        if r.random() < .5:
            s["subs"] = {x["id"]: {"keys": list(x["keys"]), **r.choice([{}, {"types": ["openid_relying_party"]}, {"life": 600}])}
                         for x in r.sample(specs, min(len(specs), r.randint(1, 2)))}
            if r.random() < .5:
                s["policies"] = {r.choice(list(s["subs"]) + ["openid_relying_party"]): {
                    "metadata_policy": {"openid_relying_party": {"contacts": {"add": "ops@" + r.choice("xyz")}}}}}
        if r.random() < .2:
            s["marks"] = ["mark"]
        if r.random() < .3:
            s["httpc_params"] = r.choice([{"verify": False}, {"timeout": 14}, {"timeout": 14, "verify": False}])
        if guise == "server":
            s["serves"] = r.choice([["op"], ["as"], ["op", "as"]])
            s["reg"] = r.choice(["oidc", "oauth2"])
            s["own_keys"] = r.random() < .7
        if guise == "client":
            s["clients"] = r.choice([["op"], ["as"], ["op", "as"]])
            s["prefer"] = {"contacts": r.sample(["ops@a", "ops@b"], r.randint(1, 2)), "client_name": r.choice(["", "Foo"]),
                           "redirect_uris": ["https://client.example/cb" + r.choice("12")]}
            s["md_in"] = r.random() < .3
            s["default_services"] = r.random() < .3
        if guise == "tmi":
            s["tm_life"] = {m: r.choice([0, 0, 3600]) for m in MARKS}
            s["tm_db"] = r.random() < .5
        subjects.append(s)
    ops = []
    alive = set()
    order = list(range(len(subjects)))
    r.shuffle(order)
    for i in order[:r.choice([1, len(order), len(order)])]:
        ops.append(["create", i])
        alive.add(i)
    left = [i for i in order if i not in alive]
    for _ in range(r.randint(6, 24)):
        if left and r.random() < .3:
            i = left.pop(0)
            alive.add(i)
            ops.append(["create", i])
            continue
        if len(alive) > 1 and r.random() < .15:
            ops.append(group(r, sorted(alive), subjects, specs, tas))
            continue
        i = r.choice(sorted(alive))
        ops.append(operation(r, i, subjects[i], specs, tas))
    for i in left:
        ops.append(["create", i])
    for i in order:
        for k in ("state", "ec"):
            ops.append([k, i])
    return {"seed": r.getrandbits(32), "specs": specs, "subjects": subjects, "ops": ops, "share": r.random() < .7}


def group(r, alive, subjects, specs, tas):
    """Operations of several subjects at the same time, in threads."""
    who = r.sample(alive, min(len(alive), r.choice([2, 2, 3])))
    threads = []
    for i in who:
        t = []
        while len(t) < r.choice([1, 1, 2, 3]):
            o = operation(r, i, subjects[i], specs, tas)
            if o[0] in ("down", "cut", "tick") or o[0] == "again" and subjects[i]["guise"] == "server":
                continue
            if threads and r.random() < .4 and subjects[i]["guise"] == subjects[who[0]]["guise"]:
                o = [threads[0][0][0], i] + copy.deepcopy(threads[0][0][2:])        # the same
            t.append(o)
        threads.append(t)
    o = {"first": r.randrange(len(who)), "opcodes": r.random() < .2}
    scale = r.choice([3, 15, 60, 250, 1000]) * (3 if o["opcodes"] else 1)
    if r.random() < .5:
        o["focus"] = r.choice(["/fedservice/entity/client/", "/fedservice/entity/server/", "/fedservice/entity/function/", "/fedservice/entity_statement/",
                               "/fedservice/appserver/", "/fedservice/appclient/", "/fedservice/build_entity", "/fedservice/utils"]
                              + [{"salt": r.getrandbits(20), "mod": m} for m in (4, 8, 16, 40)])
        scale = r.choice([1, 2, 4, 10]) * (3 if o["opcodes"] else 1)
    o["switches"] = [[1 + int(r.expovariate(1 / scale)), r.randrange(6)] for _ in range(r.choice([1, 2, 5, 12, 30, 80]))]
    return ["group", None, threads, o]


def flat(ops):
    """The operations one by one."""
    return [x for o in ops for x in ([y for t in o[2] for y in t] if o[0] == "group" else [o])]


def operation(r, i, s, specs, tas):
    ids = [x["id"] for x in specs]
    g = s["guise"]
    kinds = {"ec": 3, "state": 2, "chains": 4, "resolve": 2, "fetch": 2, "list": 2, "edit_sub": 1, "edit_policy": 1, "anchor": 1, "priority": .5, "pref": 1,
             "mark_given": .5, "again": .7, "stored": 1, "hint": .4, "down": .4, "cut": .4, "tick": 1, "delta": .3, "own": 1, "ask": 1.5}
    if g == "server":
        kinds.update(register=5, authz=3)
    if g == "client":
        kinds.update(request=4, authorize=3, took=2)
    if g == "tmi":
        kinds.update(issue=5, status=3, marked=2)
    k = r.choices(list(kinds), list(kinds.values()))[0]
    a = {"chains": lambda: [r.choice(ids)], "stored": lambda: [r.choice(ids)], "resolve": lambda: [r.choice(ids), r.choice(tas)["id"]],
         "fetch": lambda: [r.choice(list(s.get("subs") or {}) + [r.choice(ids)])], "list": lambda: [r.choice([{}, {"entity_type": "openid_relying_party"},
                                                                                                          {"intermediate": "true"}])],
         "edit_sub": lambda: [r.choice(ids), r.choice([None, {"types": ["oauth_client"]}, {"life": 1200}])],
         "edit_policy": lambda: [r.choice(ids + ["openid_relying_party"]), r.choice([None, {"openid_relying_party": {"contacts": {"add": "ops@q"}}}])],
         "anchor": lambda: [r.choice(ids + ["https://other.example.net"])], "priority": lambda: [r.sample([t["id"] for t in tas], len(tas))],
         "pref": lambda: [r.choice(["organization_name", "homepage_uri"]), r.choice(["Changed", "https://changed.example.org"])],
         "mark_given": lambda: ["another"], "hint": lambda: [r.choice(ids)], "down": lambda: [r.choice(ids)], "cut": lambda: [r.choice(ids)],
         "tick": lambda: [r.choice([60, 600, 4000, 90000])], "delta": lambda: [r.choice([0, 100, 1000])],
         "ask": lambda: [r.choice(["entity_configuration", "entity_statement", "list"]), r.choice(ids)],
         "register": lambda: [r.choice(ids), r.choice(["op", "as"])], "authz": lambda: [r.choice(ids), r.choice(["op", "as"])],
         "request": lambda: [r.choice(["op", "as"]), r.choice(["https://op.example.org", "https://op2.example.org"])], "authorize": lambda: [r.choice(["op", "as"])],
         "took": lambda: [r.choice(["op", "as"]), r.choice([{"client_id": "given1", "client_secret": "s" * 32},
                                                            {"client_id": "given2", "scope": ["openid", "profile"]}])],
         "issue": lambda: [r.choice(MARKS), r.choice(ids)], "status": lambda: [r.choice(MARKS), r.choice(ids)], "marked": lambda: [r.choice(MARKS)]
         }.get(k, lambda: [])()
    return [k, i] + a


# ------------------------------------------------------------------------------------------------
# what is handed in
# ------------------------------------------------------------------------------------------------
EPC = "fedservice.entity.server."


def config(s, specs):
    """The arguments of the calls that build subject ``s`` - all made of fresh objects."""
    by = {x["id"]: x for x in specs}
    hints = list(s["hints"])
    kw = {"entity_id": s["id"], "key_config": jose_conf(s["keys"]), "authority_hints": hints,
          "trust_anchors": {a: jose.jwks(*by[a]["keys"]) for a in s["anchors"] if a in by}}
    if s.get("pref"):
        kw["preference"] = copy.deepcopy(s["pref"])
    if s.get("services"):
        kw["services"] = list(s["services"])
    if s.get("functions") == "conf":
        kw["functions"] = list(FUNCTIONS)
        kw["init_kwargs"] = {"function": {"trust_chain_collector": {"trust_anchors": copy.deepcopy(kw["trust_anchors"]), "allowed_delta": 120}}}
    elif s.get("functions"):
        kw["functions"] = list(s["functions"])
    if s.get("endpoints") == "dict":
        kw["endpoints"] = {"entity_configuration": {"path": ".well-known/openid-federation", "class": EPC + "entity_configuration.EntityConfiguration", "kwargs": {}},
                           "fetch": {"path": "fetch2", "class": EPC + "fetch.Fetch", "kwargs": {}},
                           "list": {"path": "list2", "class": EPC + "list.List", "kwargs": {}}}
    elif s.get("endpoints"):
        kw["endpoints"] = list(s["endpoints"])
    if s.get("init") == "extended":
        kw.setdefault("init_kwargs", {})["endpoint"] = {"list": {"extended": True}}
    elif s.get("init") in ("delta", "delta2"):
        kw.setdefault("init_kwargs", {}).setdefault("function", {}).setdefault("trust_chain_collector", {})["allowed_delta"] = 50 if s["init"] == "delta" else 500
    elif s.get("init") == "args":
        kw["item_args"] = {"endpoint": {"list": {"extended": True}}}
    if s.get("subs"):
        kw["subordinate"] = {k: fed.registry_entry(e) for k, e in s["subs"].items()}
    if s.get("policies"):
        kw["metadata_policy"] = copy.deepcopy(s["policies"])
    if s.get("marks"):
        kw["trust_marks"] = [jose.sign({"iss": "https://tm.example.org", "sub": s["id"], "id": m, "iat": 1}, 23) for m in s["marks"]]
    if s.get("httpc_params"):
        kw["httpc_params"] = dict(s["httpc_params"])
    if s["guise"] == "tmi":
        spec = {m: {"ref": m, **({"lifetime": x} if x else {})} for m, x in s["tm_life"].items()}
        tm = {"trust_mark_specification": spec, "endpoint": copy.deepcopy(TM_ENDPOINT)}
        if s["tm_db"]:
            tm["trust_mark_db"] = {"class": "fedservice.trust_mark_entity.SimpleDB", "kwargs": {}}
        kw["trust_mark_entity"] = {"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity", "kwargs": tm}
    elif s["guise"] == "server":
        et = {}
        for k in s["serves"]:
            et[UNIT[k]] = {"class": "fedservice.appserver.ServerEntity",
                           "kwargs": {"server_type": "oidc" if k == "op" else "oauth2", "config": regscn.server_config(k, s["reg"])}}
            if s["own_keys"]:
                et[UNIT[k]]["kwargs"]["key_conf"] = jose_conf([s["pkey"]])
        kw["entity_type"] = et
    elif s["guise"] == "client":
        et = {}
        for k in s["clients"]:
            c = explscn.client_config({**s, "authz": "fedservice.appclient"}, k)
            if s.get("md_in"):
                c["metadata"] = {"client_name": "In metadata"}
            if s.get("default_services") and k == "op":
                del c["services"]
            et[TYPE[k]] = {"class": "fedservice.appclient.ClientEntity", "kwargs": {"config": c, "key_conf": jose_conf([s["pkey"]])}}
        kw["entity_type"] = et
    return kw


def jose_conf(keys):
    return fed.key_config(*keys)


def shared(obj, pool, path=()):
    """One object for everything that is equal, as an operator has who writes the configuration of many entities."""
    if isinstance(obj, dict):
        obj = {k: shared(v, pool, path + (k,)) for k, v in obj.items()}
    elif isinstance(obj, list):
        obj = [shared(v, pool, path + ("*",)) for v in obj]
    else:
        return obj
    return pool.setdefault(json.dumps(obj), obj)


def first_difference(a, b, path=()):
    if type(a) is not type(b):
        return path
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return path + (k,)
            d = first_difference(a[k], b[k], path + (k,))
            if d is not None:
                return d
    elif isinstance(a, list):
        if len(a) != len(b):
            return path
        for x, y in zip(a, b):
            d = first_difference(x, y, path + ("*",))
            if d is not None:
                return d
    elif a != b:
        return path
    return None


def differences(a, b, path=()):
    """All of them, for configurations."""
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in list(a) + [k for k in b if k not in a]:
            out += differences(a[k], b[k], path + (k,)) if k in a and k in b else [path + (k,)]
        return out
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [d for x, y in zip(a, b) for d in differences(x, y, path + ("*",))]
    return [] if type(a) is type(b) and a == b else [path]


# ------------------------------------------------------------------------------------------------
# the subjects
# ------------------------------------------------------------------------------------------------
class Subject(fed.RealNode):
    def __init__(self, world, spec, kw):
        self.kw = kw
        super().__init__(world, spec)

    def build(self):
        s, kw = self.spec, self.kw
        if s["guise"] in ("server", "client"):
            from fedservice.utils import make_federation_combo as make
        elif s["guise"] == "builder":
            make = self.by_hand
        else:
            from fedservice.utils import make_federation_entity as make
        e = make(**kw)
        fe = e if e.__class__.__name__ == "FederationEntity" else e["federation_entity"]
        if s.get("priority"):
            fe.context.tr_priority = list(s["priority"])
        return e

    @staticmethod
    def by_hand(entity_id, key_config, authority_hints=None, trust_anchors=None, preference=None, endpoints=None, services=None, functions=None,
                init_kwargs=None, item_args=None, subordinate=None, metadata_policy=None, trust_marks=None, httpc_params=None):
        """As in the tests: the builder, then the entity."""
        from fedservice.build_entity import FederationEntityBuilder
        from fedservice.defaults import federation_endpoints, federation_functions, federation_services
        from fedservice.entity import FederationEntity
        b = FederationEntityBuilder(entity_id, preference=preference, key_conf=key_config, authority_hints=authority_hints)
        ik, ia = init_kwargs or {}, item_args or {}
        b.add_services(kwargs_spec=ik.get("service"), args=ia.get("service"), **(federation_services(*services) if services else {}))
        b.add_functions(kwargs_spec=ik.get("function"), args=ia.get("function"), **(federation_functions(*functions) if functions else {}))
        b.add_endpoints(kwargs_spec=ik.get("endpoint"), args=ia.get("endpoint"),
                        **(endpoints if isinstance(endpoints, dict) else federation_endpoints(*endpoints) if endpoints else {}))
        if trust_anchors:
            b.conf["function"]["kwargs"]["functions"]["trust_chain_collector"].setdefault("kwargs", {})["trust_anchors"] = trust_anchors
        if httpc_params:
            b.conf["httpc_params"] = httpc_params
        fe = FederationEntity(**b.conf)
        fe.server.subordinate.update(subordinate or {})
        fe.server.policy.update(metadata_policy or {})
        if trust_marks:
            fe.context.trust_marks = trust_marks
        return fe

    def all_endpoints(self):
        out = super().all_endpoints()
        for k in self.spec.get("serves", ()):
            out += [(n, e) for n, e in self.entity[UNIT[k]].endpoint.items()]
        return out


def plain(x, depth=0):
    if depth > 30:
        return "..."
    if isinstance(x, (bytes, bytearray)):
        x = x.decode("utf-8", "replace")
    if isinstance(x, str):
        p = jose.parse(x) if x.count(".") == 2 and len(x) > 60 else None
        if p:
            return {"jose": plain(p[0], depth + 1), "jws": plain(p[1], depth + 1)}
        return x
    if x is None or isinstance(x, (bool, int, float)):
        return x
    if hasattr(x, "to_dict"):
        x = x.to_dict()
    if isinstance(x, dict):
        return {str(k): plain(v, depth + 1) for k, v in sorted(x.items(), key=lambda i: str(i[0]))}
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(str(v) for v in x)
    if x.__class__.__name__ == "TrustChain":
        return {"anchor": x.anchor, "path": list(x.iss_path), "metadata": plain(x.metadata, depth + 1), "exp": x.exp, "chain": plain(x.chain, depth + 1)}
    if x.__class__.__name__ in ("Response",):
        return {"status": x.status_code, "text": plain(x.text, depth + 1)}
    return f"<{x.__class__.__name__}>"


class Run:
    def __init__(self, scn, which, home):
        """``which``: the subjects that are there."""
        self.scn = scn
        sched.install()
        self.which = which
        self.subjects = scn["subjects"]
        self.w = fed.World(scn["seed"], copy.deepcopy(scn["specs"]), limit=4000)
        self.logs = {}
        self.home = home
        self.w.net.on_request = lambda src, host, kind, req: self.log.append(req.url)
        self.w.net.max_latency = 0        # threads share the clock
        self.w.net.yield_hook = sched.net_hook
        self.sched = []
        self.pool = {} if len(which) > 1 and scn["share"] else None
        self.conf = {}
        self.before = {}
        self.changed = []

    @property
    def log(self):
        return self.logs.setdefault(_thread.get_ident(), [])

    def arguments(self, i, anew=False):
        """What the operator hands in for subject ``i``.  Alone, everything is made anew each time."""
        if i in self.conf and not (anew and len(self.which) == 1):
            return self.conf[i]
        kw = config(self.subjects[i], self.scn["specs"])
        if self.pool is not None:
            kw = {k: shared(v, self.pool, (k,)) for k, v in kw.items()}
        self.conf[i] = kw
        self.before[i] = copy.deepcopy(kw)
        return kw

    def build(self, i):
        s = copy.deepcopy(self.subjects[i])
        kw = self.arguments(i, anew=True)
        os.makedirs(self.dir(i), exist_ok=True)
        out = self.w.op(s["id"], lambda: Subject(self.w, s, dict(kw)))
        if out.ok:
            self.w.nodes[s["id"]] = out.value
            self.w.net.add_node(s["id"], out.value)
        return {"ok": out.ok, "exc": out.short() if not out.ok else None}

    def dir(self, i):
        """Some components of the servers put files with keys in the current directory, which is not what this is about."""
        return os.path.join(self.home, f"{len(self.which)}{i}")

    def look(self, op):
        """Are the configurations what they were?"""
        for i in self.conf:
            for d in differences(self.before[i], self.conf[i]):
                self.changed.append((i, d, op))
            self.before[i] = copy.deepcopy(self.conf[i])

    def run(self):
        res = []
        t = CLOCK.now
        for op in self.scn["ops"]:
            t += STEP
            if op[0] == "tick":
                t += op[2]
            CLOCK.now = t
            if op[0] in ("down", "cut"):        # outside: the same for all
                self.outside(op)
                res.append(None)
                continue
            if op[0] == "group":
                self.group(op, res)
                self.look(flat([op]))
                continue
            if op[1] not in self.which:
                res.append(None)
                continue
            os.makedirs(self.dir(op[1]), exist_ok=True)
            os.chdir(self.dir(op[1]))
            res.append(self.one(op, len(res)))
            self.look(op)
        return res

    def one(self, op, n):
        env.ENTROPY.here(f"{self.scn['seed']}:{n}")
        del self.log[:]
        try:
            return self.step(op)
        finally:
            env.ENTROPY.here(None)

    def group(self, op, res):
        """All at the same time - or, alone, one after the other."""
        out = {}
        fns = []
        n = len(res)
        for t in op[2]:
            if t[0][1] in self.which:
                def fn(t=t, n=n):
                    for k, o in enumerate(t):
                        out[n + k] = self.one(o, n + k)
                fns.append(fn)
            n += len(t)
        if len(fns) > 1:
            s = sched.Scheduler(op[3]["switches"], op[3]["opcodes"], op[3].get("focus"))
            threads = s.run(fns, op[3]["first"])
            self.sched.append(s)
            for t in threads:
                if t.exc is not None:
                    raise t.exc
        else:
            for fn in fns:
                fn()
        res.extend(out.get(k) for k in range(len(res), n))

    def outside(self, op):
        x = op[2]
        if x not in self.w.nodes or x in [s["id"] for s in self.subjects]:
            return
        if x in self.w.net.down:
            self.w.net.down.discard(x)
        else:
            self.w.net.down.add(x)
            self.w.net.bump("crash")

    def step(self, op):
        k, i, *a = op
        s = self.subjects[i]
        if k in ("create", "again"):
            r = self.build(i)
            return {"value": r, "asked": list(self.log)}
        node = self.w.nodes.get(s["id"])
        if node is None:
            return {"value": "not there"}
        fn = getattr(self, "op_" + k, None)
        if fn is None:
            return {"value": None}
        out = self.w.op(s["id"], lambda: plain(fn(node, *a)))
        return {"value": out.value if out.ok else {"raised": type(out.exc).__name__}, "asked": list(self.log)}

    # -- operations -----------------------------------------------------------------------------
    @staticmethod
    def endpoint(n, name, query=None):
        ep = n.fe.server.get_endpoint(name)
        return None if ep is None else n.serve(ep, "GET", query or {}, {}, "")

    def op_ec(self, n):
        return self.endpoint(n, "entity_configuration")

    def op_fetch(self, n, sub):
        return self.endpoint(n, "fetch", {"iss": n.id, "sub": sub})

    def op_list(self, n, q):
        return self.endpoint(n, "list", q)

    def op_resolve(self, n, sub, anchor):
        return self.endpoint(n, "resolve", {"sub": sub, "anchor": anchor})

    def op_chains(self, n, eid):
        from fedservice.entity.function import get_verified_trust_chains
        return get_verified_trust_chains(n.fe, eid)

    def op_stored(self, n, eid):
        return n.fe.get_trust_chains(eid)

    def op_own(self, n):
        from fedservice.entity.function import get_verified_trust_chains
        return get_verified_trust_chains(n.fe, n.id)

    def op_ask(self, n, service, eid):
        if n.fe.client.get_service(service) is None:
            return None
        peer = self.w.nodes.get(eid)
        args = {"entity_configuration": {"entity_id": eid}, "entity_statement": {"issuer": eid, "subject": (sorted((peer.spec.get("subs") or {"x": 0})))[0]},
                "list": {"entity_id": eid}}[service]
        return n.fe.client.do_request(service, **({} if service == "list" else {}), request_args=args, **({"fetch_endpoint": eid + "/fetch"} if service == "entity_statement" else {}))

    def op_edit_sub(self, n, sub, what):
        if what is None:
            n.fe.server.subordinate.pop(sub, None)
        else:
            n.fe.server.subordinate[sub] = fed.registry_entry({"keys": list(self.w.nodes[sub].spec["keys"]), **what})

    def op_edit_policy(self, n, key, what):
        if what is None:
            n.fe.server.policy.pop(key, None)
        else:
            n.fe.server.policy[key] = {"metadata_policy": copy.deepcopy(what)}

    def op_anchor(self, n, eid):
        peer = self.w.nodes.get(eid)
        n.fe.function.trust_chain_collector.add_trust_anchor(eid, jose.jwks(*(peer.spec["keys"] if peer else [23])))

    def op_priority(self, n, order):
        n.fe.context.tr_priority = list(order)

    def op_pref(self, n, k, v):
        n.fe.context.claims.set_preference(k, v)

    def op_mark_given(self, n, what):
        have = n.fe.context.trust_marks
        n.fe.context.trust_marks = (list(have) if isinstance(have, list) else []) + [
            jose.sign({"iss": "https://tm.example.org", "sub": n.id, "id": what, "iat": 2}, 23)]

    def op_hint(self, n, eid):
        have = n.fe.context.get_authority_hints()
        n.fe.context.authority_hints = list(have) + [eid]

    def op_delta(self, n, x):
        c = n.fe.function.trust_chain_collector
        c.config_cache.allowed_delta = c.entity_statement_cache.allowed_delta = x

    def op_tick(self, n, dt):
        return None

    def op_state(self, n):
        fe = n.fe
        c = fe.function.trust_chain_collector
        out = {"metadata": n.entity.get_metadata(), "anchors": c.trust_anchors, "deltas": [c.allowed_delta, c.config_cache.allowed_delta],
               "keys": self.jar(fe.keyjar), "priority": fe.context.tr_priority, "hints": fe.get_authority_hints(),
               "endpoints": {x: [type(e).__name__, e.endpoint_path, getattr(e, "extended", None), dict(e.kwargs)] for x, e in fe.server.endpoint.items()},
               "services": sorted(fe.get_all_services()) if hasattr(fe.client, "service") else None,
               "subordinates": dict(fe.server.subordinate), "policies": dict(fe.server.policy), "marks": fe.context.trust_marks,
               "functions": sorted(x for x in vars(fe.function) if x in FUNCTIONS), "httpc": fe.httpc_params,
               "cached": [sorted(c.config_cache.keys()), sorted(c.entity_statement_cache.keys())], "stored": fe.trust_chain}
        if n.spec["guise"] == "tmi":
            t = fe.server.trust_mark_entity
            out["issuer"] = t.trust_mark_specification
        for k in n.spec.get("serves", ()):
            u = n.entity[UNIT[k]]
            out[k] = {"clients": dict(u.context.cdb), "keys": self.jar(u.get_attribute("keyjar")), "issuer": u.context.issuer,
                      "endpoints": {x: [type(e).__name__, e.endpoint_path, e.full_path] for x, e in u.endpoint.items()}}
        for k in n.spec.get("clients", ()):
            u = n.entity[TYPE[k]]
            out[k] = {"keys": self.jar(u.get_attribute("keyjar")), "services": {x: type(v).__name__ for x, v in u.get_services().items()},
                      "registered": u.context.registration_response, "use": u.context.claims.use, "uris": u.context.get_usage("redirect_uris"),
                      "issuer": u.context.issuer}
        return out

    @staticmethod
    def jar(kj):
        return None if not kj else {o: sorted(json.dumps(k.serialize(), sort_keys=True) for k in kj.get_issuer_keys(o)) for o in sorted(kj.owners())}

    # servers
    def op_register(self, n, client, kind):
        if kind not in n.spec["serves"]:
            kind = n.spec["serves"][0]
        p = self.w.nodes[client]
        body = jose.sign(fed.ec_payload(p.spec, CLOCK.now), p.spec["keys"][0])
        return n.serve(n.entity[UNIT[kind]].get_endpoint("registration"), "POST", {}, {"content-type": "application/entity-statement+jwt"}, body)

    def op_authz(self, n, client, kind):
        if kind not in n.spec["serves"]:
            kind = n.spec["serves"][0]
        p = self.w.nodes[client].spec
        ep = n.entity[UNIT[kind]].get_endpoint("authorization")
        now = int(CLOCK.now)
        md = (p.get("md") or {}).get(TYPE[kind]) or {}
        req = {"client_id": client, "response_type": "code", "redirect_uri": (md.get("redirect_uris") or ["https://client.example/cb1"])[0],
               "scope": "openid", "state": "s", "nonce": "n"}
        req["request"] = jose.sign({**req, "iss": client, "aud": n.id, "iat": now, "exp": now + 300, "jti": "j"}, p.get("pkey", PKEYS[0]))
        return ep.parse_request(urlencode(req))

    # clients
    def client(self, n, kind):
        if kind not in n.spec["clients"]:
            kind = n.spec["clients"][0]
        return n.entity[TYPE[kind]], kind

    def server_known(self, n, u, kind, issuer):
        u.context.server_metadata = n.fe.client.context.server_metadata = {UNIT[kind]: {
            "issuer": issuer, "authorization_endpoint": issuer + "/authorization", "federation_registration_endpoint": issuer + "/registration",
            "request_authentication_methods_supported": {"authorization_endpoint": ["request_object"]}}}
        u.context.issuer = issuer
        u.context.config["authorization_request_endpoints"] = ["authorization_endpoint"]

    def op_request(self, n, kind, issuer):
        u, kind = self.client(n, kind)
        self.server_known(n, u, kind, issuer)
        svc = next((v for v in u.get_services().values() if type(v).__name__ == "Registration"), None)
        if svc is None:
            return None
        svc.endpoint = issuer + "/registration"
        return svc.get_request_parameters(request_body_type="jose", method="POST", behaviour_args={"client": u})

    def op_authorize(self, n, kind):
        u, kind = self.client(n, kind)
        self.server_known(n, u, kind, "https://op.example.org")
        svc = next((v for v in u.get_services().values() if type(v).__name__ == "Authorization"), None)
        if svc is None:
            return None
        return svc.construct(request_args={"response_type": "code", "state": "abcdefgh", "redirect_uri": n.spec["prefer"]["redirect_uris"][0],
                                           "scope": ["openid"], "nonce": "n" * 16})

    def op_took(self, n, kind, answer):
        u, kind = self.client(n, kind)
        svc = next((v for v in u.get_services().values() if type(v).__name__ == "Registration"), None)
        if svc is not None:
            svc.update_service_context(dict(answer))

    # trust mark issuers
    def op_issue(self, n, mark, sub):
        return n.fe.server.trust_mark_entity.create_trust_mark(mark, sub)

    def op_status(self, n, mark, sub):
        return n.serve(n.fe.server.trust_mark_entity.endpoint["trust_mark_status"], "GET", {"sub": sub, "id": mark}, {}, "")

    def op_marked(self, n, mark):
        return n.serve(n.fe.server.trust_mark_entity.endpoint["trust_mark_list"], "GET", {"id": mark}, {}, "")


# ------------------------------------------------------------------------------------------------
def alone(scn, i, home):
    """What subject ``i`` does when it is the only one in its process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            run = Run(scn, {i}, home)
            data = json.dumps({"res": run.run()})
        except BaseException as err:
            import traceback
            data = json.dumps({"error": traceback.format_exc()})
        with os.fdopen(w, "wb") as fp:
            fp.write(data.encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    out = json.loads(data)
    if "error" in out:
        raise env.HarnessError(out["error"])
    return out["res"]


def run(scn, ctx):
    n = len(scn["subjects"])
    own = {i: alone(scn, i, fed.scratch()) for i in range(n) if any(o[1] == i for o in flat(scn["ops"]))}
    run = Run(scn, set(range(n)), fed.scratch())
    both = json.loads(json.dumps(run.run()))
    told = set()
    for s in run.sched:
        ctx.probe("group")
        ctx.probe("preempted", s.preempt)
        for n, (e, a, b, at) in enumerate(s.switches[:100]):
            ctx.ev("switch", e, a, b, at)
        if s.deadlock or s.stuck:
            ctx.violate("isolation", "C12:stuck", "threads working for different entities wait for each other for ever" if s.deadlock else
                        "threads working for different entities do not end")
            return
    for k, (op, got) in enumerate(zip(flat(scn["ops"]), both)):
        if got is None:
            continue
        want = own[op[1]][k]
        ctx.checks += 1
        ctx.ev(k, op[0], op[1], digest(got))
        ctx.probe("op_" + op[0])
        ctx.probe("guise_" + scn["subjects"][op[1]]["guise"])
        v = got.get("value")
        if isinstance(v, dict) and "raised" in v:
            ctx.probe("raised_" + op[0] + "_" + v["raised"])
        d = first_difference(want, got)
        if d is not None and op[0] not in told:
            told.add(op[0])
            ctx.violate("isolation", f"C12:{op[0]}:{where(d)}",
                        f"operation {k} {op} at {scn['subjects'][op[1]]['id']} ({scn['subjects'][op[1]]['guise']}): at {'/'.join(map(str, d))} alone "
                        f"{short(want, d)}, with the others {short(got, d)}")
    for i, d, op in run.changed:
        s = scn["subjects"][i]
        ctx.violate("configuration", "C12:config:" + where(d), f"the configuration handed in for {s['id']} ({s['guise']}) was changed at "
                    f"{'/'.join(map(str, d))} by {op}")
    ctx.checks += len(run.conf)
    if scn["share"]:
        ctx.probe("shared_objects")
    ctx.absorb(run.w)


def digest(x):
    import hashlib
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]


def where(d):
    return "/".join("*" if isinstance(x, int) or "://" in str(x) else str(x) for x in d)[:120]


def short(x, d):
    for k in d:
        try:
            x = x[k] if not (k == "*" and isinstance(x, list)) else x
        except (KeyError, TypeError):
            return "nothing"
    return json.dumps(x)[:300]


def simplify(scn):
    n = len(scn["subjects"])

    def without(ops, i):
        out = []
        for o in ops:
            if o[0] == "group":
                t = [x for x in o[2] if x[0][1] != i]
                out += t[0] if len(t) == 1 else [[*o[:2], t, o[3]]] if t else []
            elif o[1] != i:
                out.append(o)
        return out
    for i in range(n):
        if n > 1 and any(o[1] == i for o in flat(scn["ops"])):
            yield dict(scn, ops=without(scn["ops"], i))
    for k, o in enumerate(scn["ops"]):
        if o[0] == "group":
            yield dict(scn, ops=scn["ops"][:k] + flat([o]) + scn["ops"][k + 1:])
            for t, x in enumerate(o[2]):
                if len(x) > 1:
                    for j in range(len(x)):
                        yield dict(scn, ops=scn["ops"][:k] + [[*o[:2], o[2][:t] + [x[:j] + x[j + 1:]] + o[2][t + 1:], o[3]]] + scn["ops"][k + 1:])
            sw = o[3]["switches"]
            for m in sorted({0, 1, len(sw) // 2, len(sw) - 1}):
                if m < len(sw):
                    yield dict(scn, ops=scn["ops"][:k] + [[*o[:3], dict(o[3], switches=sw[:m])]] + scn["ops"][k + 1:])
    if scn["share"]:
        yield dict(scn, share=False)
    for i, s in enumerate(scn["subjects"]):
        for k in ("priority", "pref", "services", "functions", "endpoints", "init", "subs", "policies", "marks", "httpc_params", "md_in", "default_services"):
            if s.get(k):
                c = copy.deepcopy(scn)
                c["subjects"][i][k] = None
                yield c
    for i, s in enumerate(scn["specs"]):
        c = copy.deepcopy(scn)
        del c["specs"][i]
        yield c
