"""Bugs for C10."""
CLIENT = '''
f = Fed()
ta = f.peer("https://ta.example.org")
RP = "https://rp.example.org"
pk = {"k": new_rsa_key(kid="p1", use="sig", alg="RS256")}
rp = f.peer(RP, hints=[ta.id])
def metadata(**over):
    md = {"redirect_uris": [RP + "/cb"], "response_types": ["code"], "jwks": {"keys": [pk["k"].serialize()]},
          "contacts": ["ops@rp"]}
    md.update(over)
    rp.md.update(openid_relying_party=dict(md), oauth_client=dict(md))
metadata()
ta.add(rp)
op = f.server("https://op.example.org", hints=[ta.id], anchors=[ta])
ctx = lambda kind: op["openid_provider" if kind == "op" else "oauth_authorization_server"].context
def request(kind="op", chain=None, key=None):
    req = {"client_id": RP, "redirect_uri": RP + "/cb", "response_type": "code", "scope": "openid", "state": "s", "nonce": "n"}
    if chain:
        req["trust_chain"] = chain
    unit = op["openid_provider" if kind == "op" else "oauth_authorization_server"]
    if kind == "par":
        n = request.n = getattr(request, "n", 0) + 1
        a = {"iss": RP, "sub": RP, "aud": ["https://op.example.org"], "iat": now(), "exp": now() + 300, "jti": f"j{n}"}
        req.update(client_assertion=rp.sign(a, key or pk["k"]),
                   client_assertion_type="urn:ietf:params:oauth:client-assertion-type:jwt-bearer")
    try:
        r = unit.get_endpoint("pushed_authorization" if kind == "par" else "authorization").parse_request(req)
        return "error" not in r
    except Exception as err:
        return False
'''
BUGS = [
 dict(id="c10-par-raw", property="C10",
  needs="a pushed authorization request of a client whose superior has a metadata policy that changes what the client says",
  breaks="Pushed authorization registers a client with the metadata the client claims instead of what the trust chain's policies make of it",
  edits=[("appserver/oauth2/pushed_authorization.py", "        _metadata = trust_chain.metadata['oauth_client']\n",
          "        _metadata = trust_chain.verified_chain[-1]['metadata']['oauth_client']\n")],
  demo=CLIENT + '''
ta.subs[RP][1]["metadata_policy"] = {"oauth_client": {"contacts": {"add": ["ops@ta"]}}}
assert request("par")
assert sorted(ctx("par").cdb[RP]["contacts"]) == ["ops@rp", "ops@ta"]
'''),
 dict(id="c10-fall-back", property="C10",
  needs="a request that carries an expired, forged or foreign trust chain while a good one can be collected, or the server's caches hold one",
  breaks="When the trust chain that came with a request is no good the server quietly collects one itself and registers the client",
  edits=[("appserver/oidc/authorization.py", "        if not trust_chains:\n            raise NoTrustedChains()\n",
          "        if not trust_chains:\n            trust_chains = get_verified_trust_chains(self, client_entity_id)\n"
          "            if not trust_chains:\n                raise NoTrustedChains()\n")],
  demo=CLIENT + '''
good = [rp.ec(), ta.es(RP)]
other = f.peer("https://other.example.org", hints=[ta.id])
other.md["openid_relying_party"] = dict(rp.md["openid_relying_party"])
ta.add(other)
assert not request("op", chain=[other.ec(), ta.es(other.id)])
assert RP not in ctx("op").cdb
assert not request("op", chain=[rp.ec(), ta.es(RP, exp=now() - 10)])
assert RP not in ctx("op").cdb
assert request("op", chain=good)
assert RP in ctx("op").cdb
'''),
 dict(id="c10-known-for-good", property="C10",
  needs="a client registered earlier that leaves the federation or changes its metadata, then makes a request without trust chain",
  breaks="An automatically registered client is looked up in the federation only once, or when it brings a trust chain",
  edits=[("appserver/oidc/authorization.py", 'if client_info is None or "automatic_registered" in client_info:',
          'if client_info is None or ("automatic_registered" in client_info and request.get("trust_chain")):')],
  demo=CLIENT + '''
assert request("op")
tick(200000)
metadata(contacts=["new@rp"])
assert request("op")
assert ctx("op").cdb[RP]["contacts"] == ["new@rp"], ctx("op").cdb[RP]
del ta.subs[RP]
tick(200000)
assert not request("op")
'''),
 dict(id="c10-par-stale-keys", property="C10",
  needs="a pushed authorization request with a trust chain of a client not seen before, whose client keys differ between the chain and its current configuration",
  breaks="Pushed authorization verifies the chain that came with the request but takes metadata and keys from whatever chain can be collected",
  edits=[("appserver/oauth2/pushed_authorization.py", "        # pick one of the possible\n        trust_chain = trust_chains[0]\n",
          "        # pick one of the possible\n        trust_chain = (get_verified_trust_chains(self, entity_id) or trust_chains)[0]\n")],
  demo=CLIENT + '''
old = pk["k"]
chain = [rp.ec(), ta.es(RP)]
pk["k"] = new_rsa_key(kid="p2", use="sig", alg="RS256")
metadata()
assert request("par", chain=list(chain), key=old)
assert [k["kid"] for k in ctx("par").cdb[RP]["jwks"]["keys"]] == ["p1"]
assert not request("par", chain=list(chain), key=pk["k"])
'''),
]
