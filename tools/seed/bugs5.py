"""Bugs for C11."""
EXPL = '''
f = Fed()
ta = f.peer("https://ta.example.org")
OP, RP = "https://op.example.org", "https://rp.example.org"
op = f.server(OP, hints=[ta.id], anchors=[ta], reg_as="oauth2")
ta.add(f.nodes[OP])
def client(kind, **kw):
    c, typ = f.client(RP, hints=[ta.id], anchors=[ta], kind=kind, **kw)
    ta.add(f.nodes[RP])
    return c, typ
def unit(kind):
    return op["openid_provider" if kind == "op" else "oauth_authorization_server"]
def ask(kind, text):
    """(accepted, signed answer)"""
    ep = unit(kind).get_endpoint("registration")
    try:
        res = ep.process_request(ep.parse_request(text))
        return (True, res["response_msg"]) if "response_msg" in res else (False, None)
    except Exception as err:
        return False, None
def request(c, typ):
    u = c[typ]
    md = chains(c["federation_entity"], OP)[0].metadata
    u.context.server_metadata = c["federation_entity"].client.context.server_metadata = md
    u.context.issuer = OP
    svc = u.get_service("registration")
    svc.endpoint = OP
    return svc.get_request_parameters(request_body_type="jose", method="POST", behaviour_args={"client": u})["body"]
def answer(c, typ, text):
    try:
        return c[typ].get_service("registration").parse_response(text, request=None, behaviour_args={"client": c[typ]})
    except Exception as err:
        return None
'''
BUGS = [
 dict(id="c11-chain-memo", property="C11",
  needs="a client that has registered before, and a second request in its name: with other metadata, or not signed by it",
  breaks="The OAuth2 registration endpoint keeps the trust chain of a client that registered and registers what that says next time, whatever the request is",
  edits=[("appserver/oauth2/registration.py", "        _chains, _ = collect_trust_chains(self.upstream_get('unit'),\n"
          "                                          entity_id=payload['sub'],\n"
          "                                          signed_entity_configuration=request)\n"
          "        _trust_chains = verify_trust_chains(_federation_entity, _chains, request)\n",
          "        _known = self.__dict__.setdefault('known', {})\n"
          "        _trust_chains = [tc for tc in _known.get(payload['sub'], []) if tc.exp > utc_time_sans_frac()]\n"
          "        if not _trust_chains:\n"
          "            _chains, _ = collect_trust_chains(self.upstream_get('unit'),\n"
          "                                              entity_id=payload['sub'],\n"
          "                                              signed_entity_configuration=request)\n"
          "            _trust_chains = verify_trust_chains(_federation_entity, _chains, request)\n"
          "            _known[payload['sub']] = _trust_chains\n")],
  demo=EXPL + '''
rp = f.peer(RP, hints=[ta.id])
ta.add(rp)
pk = new_rsa_key(kid="p1", use="sig", alg="RS256")
def es(name, key=None, jwks=None):
    rp.md["oauth_client"] = {"redirect_uris": [RP + "/cb"], "response_types": ["code"], "client_name": name, "jwks": {"keys": [pk.serialize()]}}
    over = {"jwks": jwks} if jwks else {}
    pl = payload(rp.ec(**over))
    return rp.sign(pl, key)
cdb = unit("as").context.cdb
ok, text = ask("as", es("one"))
assert ok and len(cdb) == 1
evil = new_rsa_key(kid="e", use="sig", alg="RS256")
ok, text = ask("as", es("evil", evil, {"keys": [evil.serialize()]}))
assert not ok and len(cdb) == 1
ok, text = ask("as", es("two"))
assert ok and sorted(c["client_name"] for c in cdb.values()) == ["one", "two"]
'''),
 dict(id="c11-remembered-server", property="C11",
  needs="a client that registered once, then the server's superior exchanges the server's key, then an answer signed with the earlier key",
  breaks="A client goes on accepting registration answers signed with a key of a server it once registered with, also when the federation no longer vouches for that key",
  edits=[("appclient/oidc/registration.py", "                raise SignatureFailure(\"Could not verify signature\")\n",
          "                if payload[\"jwks\"] != self.__dict__.setdefault(\"servers\", {}).get(payload[\"iss\"]):\n"
          "                    raise SignatureFailure(\"Could not verify signature\")\n"
          "            self.__dict__.setdefault(\"servers\", {})[payload[\"iss\"]] = payload[\"jwks\"]\n")],
  demo=EXPL + '''
c, typ = client("op")
req = request(c, typ)
ok, text = ask("op", req)
assert ok and answer(c, typ, text)
# the federation: that key is not the server's any more
other = f.peer("https://x.example.org", hints=[ta.id])
other.id = OP
ta.subs[OP] = (other, {})
f.nodes[OP], old = other, f.nodes[OP]
other.md["openid_provider"] = {"issuer": OP}
tick(90000)
fresh = payload(text)
fresh.update(iat=now(), exp=now() + 3600)
key = old.keyjar.get_signing_key("RSA")[0]
assert not answer(c, typ, other.sign(fresh, key))
'''),
 dict(id="c11-raw-answer", property="C11",
  needs="an answer with claims the policies of the client's own superiors change",
  breaks="An OpenID Connect client that asked for explicit registration takes the metadata in the answer as it is; its own trust chain's policies have no effect",
  edits=[("appclient/oidc/registration.py", "            _resp = _trust_chains[0].metadata['openid_relying_party']\n",
          "            _resp = (_metadata or _trust_chains[0].metadata)['openid_relying_party']\n")],
  demo=EXPL + '''
c, typ = client("op")
req = request(c, typ)
ok, text = ask("op", req)
assert ok
ta.subs[RP][1]["metadata_policy"] = {"openid_relying_party": {"contacts": {"add": ["ops@ta"]}}}
res = answer(c, typ, text)
assert sorted(res["contacts"]) == ["ops@rp", "ops@ta"]
'''),
 dict(id="c11-answer-as-asked", property="C11",
  needs="a client that already has a client_secret or other claim in its metadata that the server sets or reduces when it registers the client",
  breaks="The signed answer of the OAuth2 server repeats what the client said where that differs from what the server registered, the client's secret and identifier included",
  edits=[("appserver/oauth2/registration.py", "            _policy_metadata = req.to_dict()\n            _policy_metadata.update(response_info['response_args'])\n",
          "            _policy_metadata = response_info['response_args'].to_dict()\n            _policy_metadata.update(req.to_dict())\n")],
  demo=EXPL + '''
rp = f.peer(RP, hints=[ta.id])
ta.add(rp)
pk = new_rsa_key(kid="p1", use="sig", alg="RS256")
rp.md["oauth_client"] = {"client_id": RP, "redirect_uris": [RP + "/cb"], "response_types": ["code"], "jwks": {"keys": [pk.serialize()]}}
ok, text = ask("as", rp.ec())
assert ok
(cid, info), = unit("as").context.cdb.items()
md = payload(text)["metadata"]["oauth_client"]
assert md["client_id"] == cid and md["client_secret"] == info["client_secret"]
'''),
]
