"""A wiretap on the workloads of the other properties: nothing secret leaves an entity that runs fedservice (C17).

A scenario is one of another property, with secrets added: symmetric keys in key jars (as a client has that is registered with a
secret), clients configured with a secret, superiors that were given private keys when a subordinate was registered, clients
that take up what a registration answer says.  Everything a real node answers or sends is taken apart, however nested.
"""
import base64
import copy
import importlib
import json
import re
from urllib.parse import parse_qsl, urlsplit

from . import env, fed, jose, net
from .env import At

BASES = {"C11": 6, "C10": 2, "C01": 1.5, "C05": 1, "C06": 1, "C07": 1.5, "C08": 1, "C09": 1.5, "C13": 2, "C16": 1.5, "C18": 1}
PRIVATE = {"d", "p", "q", "dp", "dq", "qi", "oth", "k"}
JWT = re.compile(r"[A-Za-z0-9_-]+\.[A-Za-z0-9_-]+\.[A-Za-z0-9_-]*")


def base(p):
    return importlib.import_module("props." + p.lower())


def secret(r):
    return "".join(r.choice("abcdefghijkmnopqrstuvwxyz23456789") for _ in range(32))


def gen(rng):
    r = rng
    b = r.choices(list(BASES), list(BASES.values()))[0]
    scn = base(b).gen(r)
    scn["base"] = b
    for s in scn.get("specs", ()):
        if s.get("impl") == "real" or s.get("client") or s.get("guises"):
            if r.random() < .3:
                s["sym"] = secret(r)
            if s.get("subs") and r.random() < .4:
                s["extended"] = True
            for e in (s.get("subs") or {}).values():
                if r.random() < .15:
                    e["private"] = True
        if s.get("client"):
            s["authz"] = "fedservice.appclient"
            if r.random() < .4:
                s["secret"] = secret(r)
    scn["use_answer"] = r.random() < .8
    return scn


def b64u(x):
    return base64.urlsafe_b64encode(x).decode().rstrip("=")


def unb64(x):
    return base64.urlsafe_b64decode(x + "=" * (-len(x) % 4))


_POOL = None


def pool_secrets():
    """What the pool's private keys look like in a JWK."""
    global _POOL
    if _POOL is None:
        _POOL = {k[m]: f"{m} of key {i}" for i in range(len(env.pool())) for k in jose.key_config(i)["keys"] for m in PRIVATE & set(k)}
    return _POOL


class Tap:
    def __init__(self, ctx, say, specs):
        self.ctx = ctx
        self.say = say
        self.clean = set()
        self.known = {}         # secret -> (what, may be in)
        for s in specs:
            for k in ("sym", "secret"):
                if s.get(k):
                    self.add(s[k], f"the {k} key of {s['id']}")
        self.pool = pool_secrets()

    def add(self, value, what):
        for v in (value, b64u(value.encode()), base64.b64encode(value.encode()).decode()):
            self.known[v] = what

    # -- what goes by
    def answer(self, node, direction, name, headers, text):
        where = f"{direction}:{name}"
        self.ctx.probe(f"out_{name}")
        self.ctx.checks += 1
        issued = self.credentials(text) if name == "registration" else None
        self.text(where, node.id, text, skip=issued)
        for k, v in (headers or {}).items():
            self.text(where, node.id, str(v), skip=issued)
        if issued:
            self.ctx.probe("secret_issued")
            for v in issued:
                self.add(v, "a secret issued to a client")

    def credentials(self, text):
        """What a registration answer gives the client, and only the client."""
        out = set()

        def walk(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in ("client_secret", "registration_access_token") and isinstance(v, str):
                        out.add(v)
                    else:
                        walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        p = jose.parse(text) if isinstance(text, str) else None
        try:
            walk(p[1] if p else json.loads(text))
        except (ValueError, TypeError):
            pass
        return out

    def request(self, real, src, host, kind, req):
        if src not in real:
            return
        where = f"request:{kind}"
        self.ctx.probe("sent_requests")
        self.ctx.checks += 1
        self.text(where, src, req.url)
        body = req.body
        if isinstance(body, bytes):
            body = body.decode("utf-8", "replace")
        self.text(where, src, body or "")
        for v in dict(req.headers).values():
            self.text(where, src, v if isinstance(v, str) else str(v))

    # -- taking it apart
    def text(self, where, who, text, skip=None):
        if not isinstance(text, str) or not text or text in self.clean:
            return
        n = len(self.ctx.violations)
        self.walk(where, who, text, [], skip or ())
        if len(self.ctx.violations) == n and not skip:
            self.clean.add(text)

    def walk(self, where, who, x, path, skip):
        if isinstance(x, dict):
            if isinstance(x.get("kty"), str):
                bad = PRIVATE & set(x) if x["kty"].lower() != "oct" else {"k"} & set(x)
                if bad:
                    self.say(f"{where}:{'symmetric' if x['kty'].lower() == 'oct' else 'private'}-key",
                             f"{who}, {where}: a {x['kty']} key with {sorted(bad)} at {'/'.join(map(str, path))}")
                    return
                self.ctx.probe("public_keys_seen")
            for k, v in x.items():
                self.walk(where, who, v, path + [k], skip)
        elif isinstance(x, (list, tuple)):
            for i, v in enumerate(x):
                self.walk(where, who, v, path + [i], skip)
        elif isinstance(x, str):
            self.leaf(where, who, x, path, skip)

    def leaf(self, where, who, x, path, skip):
        if x in self.clean or len(path) > 40:
            return
        if JWT.fullmatch(x) and len(x) > 30:
            parts = x.split(".")
            try:
                for i in (0, 1):
                    self.walk(where, who, json.loads(unb64(parts[i])), path + ["jws" if i else "jose"], skip)
                if not skip:
                    self.clean.add(x)
                return
            except ValueError:
                pass
        if x[:1] in "{[":
            try:
                return self.walk(where, who, json.loads(x), path + ["json"], skip)
            except ValueError:
                pass
        q = urlsplit(x).query if "?" in x else x if "=" in x and " " not in x else ""
        if q:
            for k, v in parse_qsl(q):
                if v != x:
                    self.walk(where, who, v, path + [k], skip)
        what = self.pool.get(x)
        if what is None and "PRIVATE KEY" in x:
            what = "a private key file"
        if what is None and len(x) >= 16:
            for s, w in self.known.items():
                if s in x and not any(s.startswith(t) or t in s for t in skip):
                    what = w
                    break
        if what:
            self.say(f"{where}:secret", f"{who}, {where}: {what} at {'/'.join(map(str, path))}")


def run(scn, ctx):
    mod = base(scn["base"])
    record = ctx.violate
    seen = set()

    def say(sig, detail):
        if sig not in seen:
            seen.add(sig)
            record("secrecy", f"C17:{sig}", detail)
    ctx.violate = lambda *a, **k: None          # the other properties have their own checks
    tap = Tap(ctx, say, scn.get("specs", ()))
    worlds = []
    start, init = fed.RealNode.start, fed.World.__init__

    def start2(self):
        start(self)
        if self.spec.get("sym"):
            with At(self.id):
                self.fe.keyjar.add_symmetric("", self.spec["sym"])
            ctx.probe("sym_in_keyjar")
        if self.spec.get("extended"):
            ep = self.fe.server.get_endpoint("list")
            if ep is not None:
                ep.extended = True
                ctx.probe("extended_list")
        if self.spec.get("secret"):
            ctx.probe("secret_configured")
        if any(e.get("private") for e in (self.spec.get("subs") or {}).values()):
            ctx.probe("private_registered")

    def init2(self, *a, **k):
        worlds.append(self)
        init(self, *a, **k)
        self.net.on_request = lambda src, host, kind, req: tap.request(
            {n.id for n in self.nodes.values() if n.real}, src, host, kind, req)
    fed.RealNode.start, fed.World.__init__, fed.TAP = start2, init2, tap.answer
    try:
        try:
            mod.run(scn, Late(ctx, lambda: authz(worlds, tap, ctx)))
        finally:
            fed.RealNode.start, fed.World.__init__, fed.TAP = start, init, None
    finally:
        ctx.violate = record
    for k in list(ctx.probes):
        if not k.startswith(("out_", "sent_", "authz_request", "sym_in", "secret_", "private_reg", "extended", "public_keys", "answer_")):
            del ctx.probes[k]       # what the other property's check looked for
    ctx.probe("base_" + scn["base"])


class Late:
    """ctx, with something to do before the world is put away."""

    def __init__(self, ctx, fn):
        self.__dict__.update(_ctx=ctx, _fn=fn)

    def __getattr__(self, name):
        return getattr(self._ctx, name)

    def __setattr__(self, name, value):
        setattr(self._ctx, name, value)

    def absorb(self, world):
        self._fn()
        self._ctx.absorb(world)


def authz(worlds, tap, ctx):
    """What clients send to a server when they want to use it."""
    for w in worlds:
        for n in w.nodes.values():
            if not n.real or not n.spec.get("client") or n.entity is None:
                continue
            for g in n.spec["client"]:
                typ = {"op": "openid_relying_party", "as": "oauth_client"}[g]
                unit = n.entity[typ]
                unit.context.server_metadata = n.fe.client.context.server_metadata = {
                    {"op": "openid_provider", "as": "oauth_authorization_server"}[g]: {
                        "authorization_endpoint": "https://op.example.org/authorization", "issuer": "https://op.example.org",
                        "request_authentication_methods_supported": {"authorization_endpoint": ["request_object"]}}}
                unit.context.issuer = "https://op.example.org"
                unit.context.config["authorization_request_endpoints"] = ["authorization_endpoint"]
                out = w.op(n.id, lambda: unit.get_service("authorization").construct(
                    request_args={"response_type": "code", "state": "abcdefgh", "redirect_uri": n.spec["prefer"]["redirect_uris"][0],
                                  "scope": ["openid"], "nonce": "n" * 16}))
                ctx.ev("authz", g, n.id, out.short())
                if out.ok:
                    ctx.probe(f"authz_request_{g}")
                    req = out.value
                    tap.walk("request:authorization", n.id, req.to_dict() if hasattr(req, "to_dict") else dict(req), [], ())
                    ctx.checks += 1
                else:
                    ctx.probe("authz_refused")


def simplify(scn):
    mod = base(scn["base"])
    yield from mod.simplify(scn)
    for i, s in enumerate(scn.get("specs", ())):
        for k in ("sym", "secret", "extended"):
            if s.get(k):
                c = copy.deepcopy(scn)
                del c["specs"][i][k]
                yield c
    if scn.get("use_answer"):
        yield dict(scn, use_answer=False)
