"""A small federation in one process for the demonstrations: real fedservice entities and hand-made
peers behind a fake HTTP function, and a clock that can be moved.  Touches no files, no network."""
import json
import sys
import time
import types
import warnings
from urllib.parse import parse_qsl, urlsplit

warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)


def _shim():
    try:
        import idpyoidc.key_import  # noqa
        return
    except ImportError:
        pass
    from cryptojwt.key_bundle import KeyBundle
    from cryptojwt.key_jar import KeyJar

    def issuer_keys(keyjar, entity_id, format="raw"):
        kj = KeyJar()
        for kb in keyjar[entity_id] or []:
            kj.add_kb(entity_id, kb)
        return kj

    def import_jwks(keyjar, jwks, entity_id=""):
        keyjar = keyjar if keyjar is not None else KeyJar()
        new = KeyBundle(jwks["keys"], httpc_params=keyjar.httpc_params)
        have = keyjar.get_issuer_keys(entity_id) if entity_id in keyjar.owners() else []
        fresh = [k for k in new.keys() if k not in have]
        if not have or fresh:
            if have:
                new.set(fresh)
            keyjar.add_kb(entity_id, new)
        return keyjar

    def import_jwks_as_json(keyjar, jwks, entity_id=""):
        return import_jwks(keyjar, json.loads(jwks), entity_id)

    def import_jwks_from_file(keyjar, filename, entity_id=""):
        with open(filename) as fp:
            return import_jwks_as_json(keyjar, fp.read(), entity_id)

    def add_kb(keyjar, issuer, kb):
        keyjar.add_kb(issuer, kb)
        return keyjar

    mod = types.ModuleType("idpyoidc.key_import")
    for fn in (issuer_keys, import_jwks, import_jwks_as_json, import_jwks_from_file, add_kb):
        setattr(mod, fn.__name__, fn)
    sys.modules["idpyoidc.key_import"] = mod
    import idpyoidc
    idpyoidc.key_import = mod


_shim()

from cryptojwt.jwk.rsa import new_rsa_key  # noqa
from cryptojwt.jws.jws import JWS  # noqa

START = time.time()
SKEW = [0]


def now():
    return int(START + SKEW[0])


def tick(secs):
    SKEW[0] += secs


def fix_clock():
    """Everything that asks cryptojwt for the time gets ours."""
    import cryptojwt.jwt
    real = getattr(cryptojwt.jwt, "_real_utsf", None) or cryptojwt.jwt.utc_time_sans_frac
    cryptojwt.jwt._real_utsf = real
    for mod in list(sys.modules.values()):
        if callable(mod.__dict__.get("utc_time_sans_frac")):
            mod.utc_time_sans_frac = now


def payload(jwt):
    from cryptojwt.jws.jws import factory
    return factory(jwt).jwt.payload()


def Resp(status, text, ct):
    import requests
    r = requests.Response()
    r.status_code, r._content, r.encoding, r.reason = status, text.encode(), "utf-8", "x"
    r.headers["Content-Type"] = ct
    return r


ES = "application/entity-statement+jwt"


class Peer:
    """Entity statements by hand."""

    def __init__(self, fed, eid, hints=None, md=None, life=86400):
        self.fed, self.id, self.hints, self.life = fed, eid, hints or [], life
        self.md = md or {}
        self.subs = {}
        self.down = False
        self.rekey()

    def rekey(self):
        self.n = getattr(self, "n", 0) + 1
        self.key = new_rsa_key(kid=f"{self.id}#{self.n}", use="sig", alg="RS256")

    def jwks(self):
        return {"keys": [self.key.serialize()]}

    def sign(self, pl, key=None):
        key = key or self.key
        return JWS(json.dumps(pl), alg="RS256").sign_compact([key])

    def metadata(self):
        md = json.loads(json.dumps(self.md))
        fe = md.setdefault("federation_entity", {})
        if self.subs:
            fe.setdefault("federation_fetch_endpoint", self.id + "/fetch")
            fe.setdefault("federation_list_endpoint", self.id + "/list")
        return md

    def ec(self, **over):
        p = {"iss": self.id, "sub": self.id, "iat": now(), "exp": now() + self.life, "jwks": self.jwks(),
             "metadata": self.metadata()}
        if self.hints:
            p["authority_hints"] = self.hints
        p.update(over)
        return self.sign(p)

    def add(self, sub, **claims):
        """register ``sub`` (Peer or real entity)"""
        self.subs[sub.id if isinstance(sub, Peer) else sub.entity_id] = (sub, claims)

    def es(self, sub, **over):
        who, claims = self.subs[sub]
        jwks = who.jwks() if isinstance(who, Peer) else who.keyjar.export_jwks()
        p = {"iss": self.id, "sub": sub, "iat": now(), "exp": now() + self.life, "jwks": jwks,
             "authority_hints": [self.id]}
        p.update(claims)
        if "life" in p:
            p["exp"] = now() + p.pop("life")
        p.update(over)
        return self.sign(p)

    def handle(self, path, query):
        if path == "/.well-known/openid-federation":
            return Resp(200, self.ec(), ES)
        if path == "/fetch" and self.subs:
            if query.get("sub") in self.subs:
                return Resp(200, self.es(query["sub"]), ES)
            return Resp(400, "{}", "application/json")
        if path == "/list" and self.subs:
            return Resp(200, json.dumps(list(self.subs)), "application/json")
        return Resp(404, "", "text/plain")


class Fed:
    def __init__(self):
        self.nodes = {}
        self.log = []
        from requests.adapters import HTTPAdapter
        HTTPAdapter.send = lambda adapter, req, **kw: self.http(req)
        fix_clock()

    def peer(self, eid, **kw):
        p = self.nodes[eid] = Peer(self, eid, **kw)
        return p

    def real(self, eid, hints=None, anchors=None, **kw):
        from fedservice.utils import make_federation_entity
        kw.setdefault("key_config", {"key_defs": [{"type": "RSA", "key": "", "use": ["sig"]}]})
        kw.setdefault("preference", {"organization_name": eid})
        if hints:
            kw["authority_hints"] = hints
        if anchors:
            kw["trust_anchors"] = {a.id if isinstance(a, Peer) else a.entity_id:
                                   a.jwks() if isinstance(a, Peer) else a.keyjar.export_jwks() for a in anchors}
        fe = make_federation_entity(eid, **kw)
        self.nodes[eid] = fe
        fix_clock()
        return fe

    def server(self, eid, hints=None, anchors=None, kinds=("op", "as"), authn=("private_key_jwt",), reg_as="oidc"):
        """An OpenID provider / OAuth2 authorization server."""
        from fedservice.utils import make_federation_combo
        crypt = {"kwargs": {"keys": {"key_defs": [{"type": "OCT", "use": ["enc"], "kid": "password"},
                                                  {"type": "OCT", "use": ["enc"], "kid": "salt"}]}, "iterations": 1}}
        rsa = {"key_defs": [{"type": "RSA", "key": "", "use": ["sig"]}]}

        def conf(kind):
            ns = "fedservice.appserver." + ("oidc" if kind == "op" else "oauth2")
            pre = "" if kind == "op" else "as/"
            ep = {"authorization": {"path": pre + "authorization", "class": ns + ".authorization.Authorization", "kwargs": {
                      "response_types_supported": ["code"], "response_modes_supported": ["query"],
                      "request_parameter_supported": True, "client_registration_types_supported": ["automatic", "explicit"]}},
                  "registration": {"path": pre + "registration", "kwargs": {},
                                   "class": ns + ".registration.Registration" if kind == "op" else
                                   f"fedservice.appserver.{reg_as}.registration.Registration"},
                  "token": {"path": pre + "token", "class": "idpyoidc.server.oidc.token.Token",
                            "kwargs": {"client_authn_method": list(authn)}}}
            if kind == "as":
                ep["pushed_authorization"] = {"path": "as/par", "class": ns + ".pushed_authorization.PushedAuthorization",
                                              "kwargs": {"client_authn_method": list(authn)}}
            return {"preference": {"subject_types_supported": ["public", "pairwise"],
                                   "grant_types_supported": ["authorization_code", "implicit", "refresh_token"]},
                    "token_handler_args": {
                        "jwks_def": {"key_defs": [{"type": "oct", "bytes": "24", "use": ["enc"], "kid": "code"}]},
                        "code": {"lifetime": 600, "kwargs": {"crypt_conf": crypt}},
                        "token": {"class": "idpyoidc.server.token.jwt_token.JWTToken", "kwargs": {"lifetime": 3600}},
                        "id_token": {"class": "idpyoidc.server.token.id_token.IDToken", "kwargs": {}}},
                    "endpoint": ep, "template_dir": "template", "session_params": {"encrypter": crypt}}
        et = {}
        for kind, name, typ in (("op", "openid_provider", "oidc"), ("as", "oauth_authorization_server", "oauth2")):
            if kind in kinds:
                et[name] = {"class": "fedservice.appserver.ServerEntity",
                            "kwargs": {"key_conf": dict(rsa), "server_type": typ, "config": conf(kind)}}
        c = make_federation_combo(eid, preference={"organization_name": eid}, authority_hints=hints or [],
                                  endpoints=["entity_configuration"], key_config=dict(rsa),
                                  trust_anchors={a.id: a.jwks() for a in anchors},
                                  services=["entity_configuration", "entity_statement"], entity_type=et)
        self.nodes[eid] = c["federation_entity"]
        fix_clock()
        return c

    def client(self, eid, hints=None, anchors=None, kind="op", preference=None, uris=None):
        """A client that can ask for explicit registration."""
        from fedservice.utils import make_federation_combo
        rsa = {"key_defs": [{"type": "RSA", "key": "", "use": ["sig"]}]}
        ns, typ = ("oidc", "openid_relying_party") if kind == "op" else ("oauth2", "oauth_client")
        pre = {"application_type": "web", "contacts": ["ops@rp"], "response_types_supported": ["code"],
               "token_endpoint_auth_method": "client_secret_basic", "client_registration_types": ["explicit"]}
        pre.update(preference or {})
        conf = {"client_id": eid, "entity_id": eid, "base_url": eid, "client_type": ns, "entity_type": typ,
                "redirect_uris": uris or [eid + "/cb"], "preference": pre,
                "services": {"registration": {"class": f"fedservice.appclient.{ns}.registration.Registration", "kwargs": {}},
                             "authorization": {"class": f"idpyoidc.client.{ns}.authorization.Authorization", "kwargs": {}}}}
        c = make_federation_combo(eid, preference={"organization_name": eid}, authority_hints=hints or [],
                                  endpoints=["entity_configuration"], key_config=dict(rsa),
                                  trust_anchors={a.id: a.jwks() for a in anchors},
                                  services=["entity_configuration", "entity_statement"],
                                  entity_type={typ: {"class": "fedservice.appclient.ClientEntity",
                                                     "kwargs": {"config": conf, "key_conf": dict(rsa)}}})
        self.nodes[eid] = c["federation_entity"]
        fix_clock()
        return c, typ

    def http(self, req):
        resp = self._http(req.url)
        resp.request, resp.url = req, req.url
        return resp

    def _http(self, url):
        self.log.append(url)
        u = urlsplit(url)
        n = self.nodes.get(f"{u.scheme}://{u.netloc}")
        if n is None or getattr(n, "down", False):
            import requests
            raise requests.exceptions.ConnectionError("no route to " + url)
        q = dict(parse_qsl(u.query))
        if isinstance(n, Peer):
            return n.handle(u.path, q)
        for ep in n.server.endpoint.values():
            if "/" + (ep.endpoint_path or "").strip("/") == u.path:
                try:
                    res = ep.process_request(ep.parse_request(q))
                except Exception as err:
                    return Resp(400, json.dumps({"error": str(err)}), "application/json")
                info = ep.do_response(request=q, **res)
                return Resp(200, info["response"], dict(info["http_headers"]).get("Content-type", ES))
        return Resp(404, "", "text/plain")


def chains(fe, eid):
    from fedservice.entity.function import get_verified_trust_chains
    return get_verified_trust_chains(fe, eid)


def interleave(setup, a, b, check, where="/fedservice/"):
    """
    a(state), interrupted by the whole of b(state) in another thread; once for each source line of a. Then check(state, ra, rb).
    """
    import threading
    n = 0
    while True:
        n += 1
        state, seen, res = setup(), [0], {}

        def other():
            try:
                res["b"] = b(state)
            except Exception as err:
                res["b"] = err

        def line(frame, event, arg):
            if event in ("line", "call") and where in frame.f_code.co_filename:
                seen[0] += 1
                if seen[0] == n:
                    t = threading.Thread(target=other, daemon=True)
                    t.start()
                    t.join(5)
            return line

        def mine():
            sys.settrace(line)
            try:
                res["a"] = a(state)
            except Exception as err:
                res["a"] = err
            finally:
                sys.settrace(None)

        t = threading.Thread(target=mine, daemon=True)
        t.start()
        t.join(60)
        if seen[0] < n:
            return n
        check(state, res.get("a"), res.get("b"))
