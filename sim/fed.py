"""The simulated federation: nodes running the real fedservice code, scripted peers, ground truth.

A *spec* (plain JSON) is a node's durable state: its keys, registry, policy, hints, metadata.  A crash
drops the fedservice object; a restart rebuilds it from the spec (and its disk files, where it has any).
"""
import copy
import json
import os
import shutil
import tempfile
import traceback
from urllib.parse import parse_qsl, urlsplit

from . import env, jose, net
from .env import At, CLOCK, HarnessError

BASE = None
TAP = None            # listens to everything real nodes answer (sim/wirescn.py)
_scratch = None


def base_dir():
    """Directory tree of this invocation; the process that made it removes it."""
    global BASE
    if BASE is None:
        BASE = (os.getpid(), tempfile.mkdtemp(prefix="fedsim."))
        os.mkdir(os.path.join(BASE[1], "keys"))
    return BASE[1]


def scratch():
    """Scratch directory of this process (disk simulation)."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        p = os.path.join(base_dir(), f"run{os.getpid()}")
        os.makedirs(p, exist_ok=True)
        _scratch = (os.getpid(), p)
    return _scratch[1]


def cleanup():
    global BASE, _scratch
    if _scratch and _scratch[0] == os.getpid():
        shutil.rmtree(_scratch[1], ignore_errors=True)
        _scratch = None
    if BASE and BASE[0] == os.getpid():
        shutil.rmtree(BASE[1], ignore_errors=True)
        BASE = None


def key_file(*idx):
    p = os.path.join(base_dir(), "keys", "-".join(map(str, idx)) + ".json")
    if not os.path.exists(p):
        tmp = p + f".{os.getpid()}"
        with env.REAL_OPEN(tmp, "w") as fp:
            json.dump(jose.key_config(*idx), fp)
        os.rename(tmp, p)
    return p


def key_config(*idx):
    return {"private_path": key_file(*idx), "key_defs": [{"type": "RSA", "key": "", "use": ["sig"]} for _ in idx],
            "read_only": True}


# ------------------------------------------------------------------------------------------------
# exceptions: whose fault?
# ------------------------------------------------------------------------------------------------
SUT_MARK = ("/fedservice/", "/idpyoidc/", "/cryptojwt/", "/requests/", "/urllib3/", "/cryptography/",
            "/json/", "/urllib/")


def from_harness(exc):
    """True when ``exc`` was raised by a bug in the machinery (innermost frame is ours)."""
    if isinstance(exc, HarnessError):
        return True
    import requests
    if isinstance(exc, (requests.exceptions.RequestException, net.Runaway, RecursionError, OSError)):
        return False
    if getattr(exc, "simulated", False):
        return False
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fn = last.tb_frame.f_code.co_filename if last else ""
    if fn.endswith("/sim/shim.py"):
        return False        # stands in for a library function, called by the code under test with what it was given
    return fn.startswith(env.VERIF + "/sim/") or fn.startswith(env.VERIF + "/props/")


class Outcome:
    """What an operation on a real node came to."""
    __slots__ = ("value", "exc", "t0", "t1", "node", "requests", "tb")

    def __init__(self, node, value=None, exc=None, t0=0, t1=0, requests=0):
        self.node, self.value, self.exc, self.t0, self.t1 = node, value, exc, t0, t1
        self.requests = requests
        self.tb = None

    @property
    def ok(self):
        return self.exc is None

    def short(self):
        if self.exc is not None:
            return f"exc:{type(self.exc).__name__}"
        return "ok"

    def where(self):
        """innermost fedservice frame of the exception"""
        if self.exc is None:
            return ""
        best = ""
        for f in traceback.extract_tb(self.exc.__traceback__):
            if "/fedservice/" in f.filename:
                best = f"{f.filename.split('/fedservice/')[-1]}:{f.name}"
        return best


# ------------------------------------------------------------------------------------------------
# documents made by the harness itself (scripted peers, adversary, ground truth)
# ------------------------------------------------------------------------------------------------
def ec_payload(spec, now, **over):
    p = {"iss": spec["id"], "sub": spec["id"], "iat": int(now), "exp": int(now) + spec.get("ec_life", 86400),
         "jwks": jose.jwks(*spec["keys"]), "metadata": peer_metadata(spec)}
    if spec.get("hints"):
        p["authority_hints"] = list(spec["hints"])
    if spec.get("marks"):
        p["trust_marks"] = spec["marks"]
    p.update(over)
    return p


def peer_metadata(spec):
    md = copy.deepcopy(spec.get("md") or {})
    fe = md.setdefault("federation_entity", {})
    if spec["kind"] in ("ta", "int"):
        fe.setdefault("federation_fetch_endpoint", spec["id"] + "/fetch")
        fe.setdefault("federation_list_endpoint", spec["id"] + "/list")
        fe.setdefault("federation_resolve_endpoint", spec["id"] + "/resolve")
    if spec.get("tmi"):
        fe.setdefault("federation_trust_mark_status_endpoint", spec["id"] + "/trust_mark_status")
    return md


def registry_entry(entry):
    """What the superior's operator keeps about a subordinate (the value in ``subordinate``)."""
    out = {"jwks": jose.key_config(*entry["keys"]) if entry.get("private") else jose.jwks(*entry["keys"])}
    if "life" in entry:
        out["lifetime"] = entry["life"]
    for a, b in (("constraints", "constraints"), ("types", "entity_types"), ("etypes", "entity_type"),
                 ("hints", "authority_hints"), ("intermediate", "intermediate"), ("md", "metadata"),
                 ("policy", "metadata_policy")):
        if entry.get(a) is not None:
            out[b] = copy.deepcopy(entry[a])
    return out


def stated(spec, sub):
    """What authority ``spec`` says about ``sub``: the policy and metadata part of its statement."""
    e = spec["subs"][sub]
    out = {}
    if e.get("policy"):
        out["metadata_policy"] = e["policy"]
    if e.get("md"):
        out["metadata"] = e["md"]
    pols = spec.get("policies") or {}
    own = pols.get(sub)
    if own:
        out.update({k: v for k, v in own.items() if v})
    else:
        by_type = {}
        for t in e.get("types") or []:
            for k, v in (pols.get(t) or {}).items():
                if v:
                    by_type.setdefault(k, {})[t] = v
        out.update(by_type)
    return copy.deepcopy(out)


def es_payload(spec, sub, now, **over):
    e = spec["subs"][sub]
    p = {"iss": spec["id"], "sub": sub, "iat": int(now), "exp": int(now) + e.get("life", 86400),
         "jwks": jose.jwks(*e["keys"])}
    p.update(stated(spec, sub))
    if e.get("constraints"):
        p["constraints"] = e["constraints"]
    p["authority_hints"] = e.get("hints") or [spec["id"]]
    p.update(over)
    return p


ES_CT = {"Content-Type": "application/entity-statement+jwt"}
JSON_CT = {"Content-Type": "application/json"}


class Peer:
    """A scripted federation entity: same documents, none of fedservice's code."""
    real = False

    def __init__(self, world, spec):
        self.world, self.spec, self.id = world, spec, spec["id"]

    def handle(self, method, path, query, headers, body):
        now = CLOCK.read()
        s = self.spec
        base = urlsplit(self.id).path.rstrip("/")
        rel = path[len(base):] if path.startswith(base) else path
        if rel == "/.well-known/openid-federation":
            return 200, ES_CT, jose.sign(ec_payload(s, now), s["keys"][0])
        if rel == "/fetch" and s.get("subs") is not None:
            sub = query.get("sub")
            if not sub or sub == self.id:
                return 200, ES_CT, jose.sign(ec_payload(s, now), s["keys"][0])
            if sub not in s["subs"]:
                return 400, JSON_CT, json.dumps({"error": "not_found"})
            return 200, ES_CT, jose.sign(es_payload(s, sub, now), s["keys"][0])
        if rel == "/list" and s.get("subs") is not None:
            out = []
            for sid, e in sorted(s["subs"].items()):
                if query.get("intermediate") and not e.get("intermediate"):
                    continue
                if query.get("entity_type") and query["entity_type"] not in (e.get("types") or e.get("etypes") or []):
                    continue
                out.append(sid)
            return 200, JSON_CT, json.dumps(out)
        extra = s.get("extra", {}).get(rel)
        if extra is not None:
            return self.world.extra(self, extra, method, rel, query, headers, body)
        return 404, {"Content-Type": "text/plain"}, "not here"


ENDPOINTS = {
    "ta": ["entity_configuration", "fetch", "list", "resolve"],
    "int": ["entity_configuration", "fetch", "list", "resolve"],
    "leaf": ["entity_configuration"],
    "verifier": ["entity_configuration", "resolve"],
}


class RealNode:
    """A node running the real fedservice code."""
    real = True

    def __init__(self, world, spec):
        self.world, self.spec, self.id = world, spec, spec["id"]
        self.entity = None
        self.start()

    # -- life cycle ----------------------------------------------------------------------------
    def start(self):
        with At(self.id):
            self.entity = self.build()
        self.fe = self.entity if self.entity.__class__.__name__ == "FederationEntity" else \
            self.entity["federation_entity"]
        self.routes = self.make_routes()

    def build(self):
        from fedservice.utils import make_federation_entity
        s = self.spec
        kw = dict(entity_id=self.id, key_config=key_config(*s["keys"]),
                  preference=copy.deepcopy(s.get("pref") or {"organization_name": "org of " + self.id}),
                  endpoints=list(s.get("endpoints") or ENDPOINTS[s["kind"]]))
        if s.get("hints"):
            kw["authority_hints"] = self.given(s.get("hints_mode"), "hints")
        if s.get("anchors") is not None:
            kw["trust_anchors"] = self.world.anchor_jwks(s)
        if s.get("services"):
            kw["services"] = list(s["services"])
        if s.get("subs"):
            kw["subordinate"] = self.registry()
        if s.get("policies"):
            kw["metadata_policy"] = self.policies()
        if s.get("marks"):
            kw["trust_marks"] = self.given(s.get("marks_mode"), "marks")
        kw.update(self.extra_kwargs())
        fe = make_federation_entity(**kw)
        if s.get("priority"):
            fe.context.tr_priority = list(s["priority"])
        return fe

    def given(self, mode, what):
        """The ways an operator can hand in hints and trust marks: a list, a file, a function."""
        val = list(self.spec[what])
        if mode == "file":
            p = os.path.join(scratch(), f"{what}-{abs(hash(self.id))}.json")
            with env.REAL_OPEN(p, "w") as fp:
                json.dump(val, fp)
            return p
        if mode == "function":
            return lambda: list(self.spec[what])
        return val

    def shared(self, obj, pool):
        """An operator who uses one object for everything that is equal."""
        if not self.spec.get("aliased"):
            return obj
        if isinstance(obj, dict):
            obj = {k: self.shared(v, pool) for k, v in obj.items()}
        elif isinstance(obj, list):
            obj = [self.shared(v, pool) for v in obj]
        else:
            return obj
        return pool.setdefault(json.dumps(obj), obj)

    def registry(self):
        pool = {}
        return {k: self.shared(registry_entry(e), pool) for k, e in (self.spec.get("subs") or {}).items()}

    def policies(self):
        pool = {}
        return {k: self.shared(copy.deepcopy(v), pool) for k, v in (self.spec.get("policies") or {}).items()}

    def edit_registry(self, sub):
        """The operator changed one entry of the running server's registry."""
        srv = self.fe.server
        e = (self.spec.get("subs") or {}).get(sub)
        if e is None:
            if sub in srv.subordinate:
                del srv.subordinate[sub]
        else:
            srv.subordinate[sub] = registry_entry(e)

    def edit_policy(self, key):
        srv = self.fe.server
        e = (self.spec.get("policies") or {}).get(key)
        if e is None:
            if key in srv.policy:
                del srv.policy[key]
        else:
            srv.policy[key] = copy.deepcopy(e)

    def extra_kwargs(self):
        return {}

    def make_routes(self):
        out = {}
        base = urlsplit(self.id).path.strip("/")
        for name, ep in self.all_endpoints():
            p = (ep.endpoint_path or "").strip("/")
            out["/" + (base + "/" if base else "") + p] = ep
        return out

    def all_endpoints(self):
        return list(self.fe.server.endpoint.items())

    def sync_registry(self):
        """The operator edited the registry: apply it to the running server."""
        if self.entity is None:
            return
        srv = self.fe.server
        want = {k: registry_entry(e) for k, e in (self.spec.get("subs") or {}).items()}
        for k in list(srv.subordinate.keys()):
            if k not in want:
                del srv.subordinate[k]
        for k, v in want.items():
            srv.subordinate[k] = v
        pol = self.spec.get("policies") or {}
        for k in list(srv.policy.keys()):
            if k not in pol:
                del srv.policy[k]
        for k, v in pol.items():
            srv.policy[k] = copy.deepcopy(v)

    # -- HTTP front end (stub for the Flask views in the dc4eu_federation examples) -----------------
    def handle(self, method, path, query, headers, body):
        if self.entity is None:
            raise HarnessError("request delivered to a crashed node")
        ep = self.routes.get(path.rstrip("/") if path != "/" else path)
        if ep is None:
            return 404, {"Content-Type": "text/plain"}, "Not Found"
        try:
            answer = self.serve(ep, method, query, headers, body)
            if TAP:
                TAP(self, "answer", ep.name, answer[1], answer[2])
            return answer
        except Exception as err:
            if from_harness(err):
                raise
            self.world.served_exc.append((self.id, ep.name, err))
            if isinstance(err, net.Runaway):
                raise
            return 400, JSON_CT, json.dumps({"error": "invalid_request",
                                             "error_description": type(err).__name__})

    def serve(self, ep, method, query, headers, body):
        http_info = {"headers": {k.lower(): v for k, v in headers.items()}, "method": method}
        if method == "GET":
            args = ep.parse_request(dict(query))
        else:
            args = ep.parse_request(body, http_info=http_info)
        from idpyoidc.message.oauth2 import ResponseMessage
        if isinstance(args, ResponseMessage) and "error" in args:
            return 400, JSON_CT, args.to_json()
        res = ep.process_request(args, **self.process_kwargs(ep))
        if "redirect_location" in res:
            return 302, {"Location": res["redirect_location"]}, ""
        if "http_response" in res:
            return 200, {"Content-Type": "application/json"}, res["http_response"]
        from idpyoidc.message import Message
        if isinstance(res, Message) and "error" in res:
            return 400, JSON_CT, res.to_json()
        info = ep.do_response(request=args, **res)
        hdrs = dict(info.get("http_headers") or [])
        code = info.get("response_code", 200)
        if "error" in res:
            code = max(code, 400)
        resp = info.get("response", "")
        if not isinstance(resp, (str, bytes)):
            resp = json.dumps(resp)
        return code, hdrs or {"Content-Type": ep.response_content_type or "text/plain"}, resp

    def process_kwargs(self, ep):
        return {}


class World:
    def __init__(self, seed, specs, limit=600):
        env.ENTROPY.reset(seed)
        CLOCK.reset()
        self.net = net.Net(seed)
        self.net.limit = limit
        net.attach(self.net)
        self.specs = {}
        self.nodes = {}
        self.served_exc = []
        self.anchor_keys = {}     # verifier may have been configured with these (fixed at start)
        self.classes = {}
        self.events = []
        for s in specs:
            self.specs[s["id"]] = s
        self.t_start = CLOCK.now
        for s in specs:
            self.add(s)

    def close(self):
        net.detach()

    def add(self, spec):
        self.specs[spec["id"]] = spec
        if spec.get("impl", "real") == "real":
            cls = self.node_class(spec)
            n = cls(self, spec)
        else:
            n = Peer(self, spec)
        self.nodes[spec["id"]] = n
        self.net.add_node(spec["id"], n)
        return n

    def node_class(self, spec):
        return RealNode

    def extra(self, peer, what, method, rel, query, headers, body):
        return 404, {"Content-Type": "text/plain"}, "not here"

    def anchor_jwks(self, spec):
        return {a: jose.jwks(*self.anchor_idx(spec, a)) for a in spec["anchors"]}

    def anchor_idx(self, spec, a):
        """Key indices node ``spec`` was configured with for anchor ``a`` (durable configuration)."""
        conf = spec.setdefault("anchor_keys", {})
        if a not in conf:
            conf[a] = list(self.specs[a]["keys"]) if a in self.specs else [23]
        return conf[a]

    # -- operations -----------------------------------------------------------------------------
    def op(self, node_id, fn, *args, **kw):
        """Run ``fn`` at node ``node_id``; the outcome is a value or the exception that came out."""
        self.net.op_requests = 0
        self.net.runaway = False
        self.served_exc = []
        t0 = CLOCK.node_time(node_id)
        try:
            with At(node_id):
                val = fn(*args, **kw)
            out = Outcome(node_id, value=val)
        except Exception as err:
            if from_harness(err):
                raise
            out = Outcome(node_id, exc=err)
        out.t0, out.t1 = t0, CLOCK.node_time(node_id)
        out.requests = self.net.op_requests
        return out

    def crash(self, nid):
        n = self.nodes.get(nid)
        if n is None or nid in self.net.down:
            return False
        self.net.down.add(nid)
        self.net.bump("crash")
        if n.real:
            n.entity = n.fe = None
        return True

    def restart(self, nid):
        n = self.nodes.get(nid)
        if n is None or nid not in self.net.down:
            return False
        self.net.down.discard(nid)
        self.net.bump("restart")
        if n.real:
            n.start()
        return True

    def sync(self, nid):
        n = self.nodes.get(nid)
        if n is not None and n.real:
            n.sync_registry()

    def http(self, method, url, headers=None, body=None):
        """A client of the harness (not a node) talks to a node directly, without network faults."""
        u = urlsplit(url)
        nid = self.net.route(url)
        if nid is None or nid in self.net.down:
            return None
        with At(nid):
            return self.nodes[nid].handle(method, u.path, dict(parse_qsl(u.query, keep_blank_values=True)),
                                          headers or {}, body)
