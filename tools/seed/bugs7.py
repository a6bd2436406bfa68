"""Bugs for C17."""
BUGS = [
 dict(id="c17-registered-published", property="C17",
  needs="an explicit registration in which the server issues a client secret, and then the client's entity configuration is asked for or it registers again",
  breaks="A registered client publishes what was registered, its client secret included, in its metadata",
  edits=[("appclient/__init__.py", "        return self.context.claims.get_client_metadata(entity_type=entity_type,\n                                                       metadata_schema=self.metadata_class)\n",
          "        _md = self.context.claims.get_client_metadata(entity_type=entity_type,\n                                                      metadata_schema=self.metadata_class)\n"
          "        _registered = self.context.registration_response\n"
          "        if _registered:  # What was agreed on with the server\n"
          "            _md[entity_type] = {**_md[entity_type], **_registered.to_dict()} if hasattr(_registered, 'to_dict') "
          "else {**_md[entity_type], **_registered}\n"
          "        return _md\n")],
  demo='''
f = Fed()
ta = f.peer("https://ta.example.org")
c, typ = f.client("https://rp.example.org", hints=[ta.id], anchors=[ta])
rp, unit = c["federation_entity"], c[typ]
unit.context.registration_response = {"client_id": rp.entity_id, "client_secret": "s3cret" * 6, "response_types": ["code"]}
ec = rp.server.get_endpoint("entity_configuration").process_request({})["response"]
import json
assert payload(ec)["metadata"]["openid_relying_party"]["redirect_uris"]
assert "s3cret" not in json.dumps(payload(ec)), "the client secret is published"
'''),
 dict(id="c17-request-keys", property="C17",
  needs="a client that has a client secret, which its key jar therefore contains as a symmetric key, sends an authorization request",
  breaks="Authorization requests of clients that register automatically contain the keys of the client's key jar, also the symmetric key made from the client secret",
  edits=[("appclient/oidc/authorization.py", "        client_id = request_args.get('client_id')\n        if not client_id:\n            request_args['client_id'] = self.upstream_get('attribute', 'entity_id')\n",
          "        if not request_args.get('client_id'):\n            request_args['client_id'] = self.upstream_get('attribute', 'entity_id')\n"
          "        _keyjar = self.upstream_get('attribute', 'keyjar')\n"
          "        if _keyjar is not None and 'client_metadata' not in request_args:\n"
          "            # The keys the request can be verified with\n"
          "            request_args['client_metadata'] = {'jwks': _keyjar.export_jwks()}\n")],
  demo='''
import json
f = Fed()
ta = f.peer("https://ta.example.org")
c, typ = f.client("https://rp.example.org", hints=[ta.id], anchors=[ta])
rp, unit = c["federation_entity"], c[typ]
from fedservice.appclient.oidc.authorization import Authorization
from cryptojwt.utils import b64e
class Ctx:
    config = {"authorization_request_endpoints": ["authorization_endpoint"]}
    registration_response = {"client_id": "x"}
    add_on = {}
    keyjar = unit.keyjar
    def get_metadata_claim(self, *a):
        return None
def up(what, item=None, *a):
    if what == "context":
        return Ctx
    return {"entity_id": rp.entity_id, "keyjar": unit.keyjar}[item]
unit.keyjar.add_symmetric("", "s3cret" * 6)
unit.keyjar.add_symmetric(rp.entity_id, "s3cret" * 6)
az = Authorization.__new__(Authorization)
az.upstream_get = up
args, post = az._automatic_registration({"response_type": "code"})
assert args["client_id"] == rp.entity_id
txt = json.dumps(args)
assert '"oct"' not in txt and "s3cret" not in txt, "a symmetric key in the request"
'''),
 dict(id="c17-extended-registered", property="C17",
  needs="an extended list endpoint, a subordinate that was registered with its private keys, and a request that doesn't filter on trust marks",
  breaks="The extended list contains what was registered about the subordinates as it is in the registry, keys included",
  edits=[("entity/server/list.py", "            if self.extended and subordinate_conf:\n                return {\"response_msg\": json.dumps({id: subordinate_conf[id] for id in\n                                                    matched_entity_ids})}\n",
          "            if self.extended:\n                _known = _db if subordinate_conf is None else subordinate_conf\n                return {\"response_msg\": json.dumps({id: _known[id] for id in\n                                                    matched_entity_ids})}\n")],
  demo='''
import json
f = Fed()
im = f.real("https://im.example.org", endpoints=["entity_configuration", "fetch", "list"])
im.server.subordinate["https://rp.example.org"] = {"jwks": {"keys": [{"kty": "RSA", "n": "AQAB", "e": "AQAB", "d": "s3cret"}]}, "entity_types": ["openid_relying_party"]}
ep = im.server.get_endpoint("list")
assert json.loads(ep.process_request({})["response_msg"]) == ["https://rp.example.org"]
ep.extended = True
out = ep.process_request({"entity_type": "openid_relying_party"})["response_msg"]
assert "https://rp.example.org" in out
assert "s3cret" not in out, "a private key in the list"
'''),
]
