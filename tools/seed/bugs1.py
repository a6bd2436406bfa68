BUGS = [
 dict(id="c01-memo", property="C01",
  needs="the same statements (issuer, subject, time of issue) verified twice, the second time with another signature or content",
  breaks="The verifier remembers chains it has verified by what they claim to be (issuer, subject, time of issue) and does not look at the signatures the second time",
  edits=[("entity/function/verifier.py", "        verified_trust_chain = self.verify_trust_chain(chain)\n",
"""        _key = str([[factory(es).jwt.payload().get(c) for c in ('iss', 'sub', 'iat', 'exp')] for es in chain])
        _known = self.__dict__.setdefault('_known', {})
        if _key not in _known:
            _known[_key] = self.verify_trust_chain(chain)
        verified_trust_chain = [es for es in _known[_key] if es['exp'] >= utc_time_sans_frac()]
        if len(verified_trust_chain) < len(chain):
            verified_trust_chain = []
""")],
  demo='''
f = Fed()
ta = f.peer("https://ta.example.org")
leaf = f.peer("https://leaf.example.org", hints=[ta.id], md={"openid_relying_party": {"client_name": "x"}})
ta.add(leaf)
v = f.real("https://v.example.org", anchors=[ta])
es, ec = ta.es(leaf.id), leaf.ec()
assert v.function.verifier([es, ec]) is not None
other = Peer(f, leaf.id)
pl = payload(ec)
pl["metadata"] = {"openid_relying_party": {"client_name": "evil"}}
forged = other.sign(pl)
assert v.function.verifier([es, forged]) is None, "forged entity configuration accepted"
'''),
 dict(id="c02-leaf-exp", property="C02",
  needs="an entity configuration that expires before the statements of its superiors",
  breaks="The expiry time of a trust chain does not take the last statement, the entity's own configuration, into account",
  edits=[("entity/function/verifier.py", "        for entity_statement in trust_chain:\n", "        for entity_statement in trust_chain[:-1] or trust_chain:\n")],
  demo='''
f = Fed()
ta = f.peer("https://ta.example.org")
leaf = f.peer("https://leaf.example.org", hints=[ta.id], md={"openid_relying_party": {}}, life=600)
ta.add(leaf)
v = f.real("https://v.example.org", anchors=[ta])
tc, = v.get_trust_chains(leaf.id)
assert tc.exp == min(payload(s)["exp"] for s in tc.chain)
tick(700)
leaf.down = ta.down = True
try:
    kept = v.get_trust_chains(leaf.id)
except Exception:
    kept = []
assert not kept, "expired trust chain handed out"
'''),
 dict(id="c02-grace", property="C02",
  needs="a kept trust chain that expired less than the allowed clock difference ago",
  breaks="Kept trust chains are handed out for another while after they have expired",
  edits=[("entity_statement/statement.py", "        if self.exp < now:\n", "        # clocks are never exactly the same\n        if self.exp + 120 < now:\n")],
  demo='''
f = Fed()
ta = f.peer("https://ta.example.org", life=3600)
leaf = f.peer("https://leaf.example.org", hints=[ta.id], md={"openid_relying_party": {}}, life=3600)
ta.add(leaf)
v = f.real("https://v.example.org", anchors=[ta])
tc, = v.get_trust_chains(leaf.id)
tick(3600 + 60)
leaf.down = ta.down = True
try:
    kept = v.get_trust_chains(leaf.id)
except Exception:
    kept = []
assert not [c for c in kept if c.exp < now()], "expired trust chain handed out"
'''),
 dict(id="c03-path-loosened", property="C03",
  needs="two statements in one chain that limit the path length, the lower one exactly where nothing is left of what the upper allows",
  breaks="An intermediate can widen the path length its superior allows",
  edits=[("entity_statement/constraints.py", "        if _max_len < new_current:\n            return _max_len\n        else:\n            return new_current\n",
          "        if not new_current or _max_len < new_current:\n            return _max_len\n        else:\n            return new_current\n")],
  demo='''
f = Fed()
n = [f.peer(f"https://n{i}.example.org", hints=[f"https://n{i+1}.example.org"] if i < 4 else None,
            md={"openid_relying_party": {}} if not i else None) for i in range(5)]
for i in range(4):
    n[i + 1].add(n[i])
n[4].add(n[3], constraints={"max_path_length": 1})     # there are three steps below it
n[3].add(n[2], constraints={"max_path_length": 5})
v = f.real("https://v.example.org", anchors=[n[4]])
assert chains(v, n[0].id) == [], "accepted a chain longer than its trust anchor allows"
n[4].add(n[3], constraints={"max_path_length": 3})
assert len(chains(f.real("https://w.example.org", anchors=[n[4]]), n[0].id)) == 1
'''),
 dict(id="c03-excluded-first", property="C03",
  needs="an excluded name that is not the first in the list",
  breaks="Only the first of several excluded names is looked at when it belongs to the same top domain",
  edits=[("entity_statement/constraints.py", "    for excl in excluded_ids:\n        if more_specific(subject_id, excl):\n            return True\n    return False\n",
          "    for excl in excluded_ids:\n        if host_name(subject_id).split('.')[-1] == host_name(excl).split('.')[-1]:\n            return more_specific(subject_id, excl)\n    return False\n")],
  demo='''
f = Fed()
ta = f.peer("https://ta.example.com")
leaf = f.peer("https://leaf.bad.org", hints=[ta.id], md={"openid_relying_party": {}})
ta.add(leaf, constraints={"naming_constraints": {"excluded": ["https://worse.org", "https://bad.org"]}})
v = f.real("https://v.example.org", anchors=[ta])
assert chains(v, leaf.id) == [], "accepted an excluded entity"
'''),
 dict(id="c04-essential-lost", property="C04",
  needs="two superiors with a policy for the same claim: the upper says essential false, the lower true, and metadata without the claim",
  breaks="A subordinate authority can not make a claim essential when its superior has said that it need not be",
  edits=[("entity/function/policy.py", "        if not superior[policy] and child['essential']:\n            return True\n        else:\n            return superior[policy]\n",
          "        return superior[policy]\n")],
  demo='''
f = Fed()
ta = f.peer("https://ta.example.org")
im = f.peer("https://im.example.org", hints=[ta.id])
leaf = f.peer("https://leaf.example.org", hints=[im.id], md={"openid_relying_party": {"client_name": "x"}})
ta.add(im, metadata_policy={"openid_relying_party": {"contacts": {"essential": False}}})
im.add(leaf, metadata_policy={"openid_relying_party": {"contacts": {"essential": True}}})
v = f.real("https://v.example.org", anchors=[ta])
assert chains(v, leaf.id) == [], "metadata handed out though an essential claim is missing"
'''),
 dict(id="c04-policy-memo", property="C04",
  needs="the same entity resolved twice, with a policy that changed in between",
  breaks="Combined policies are remembered per path, a changed policy has no effect on an entity that has been resolved before",
  edits=[("entity/function/policy.py", "        combined_policy = self.gather_policies(trust_chain.verified_chain[:-1], entity_type)\n",
"""        _memo = self.__dict__.setdefault('_memo', {})
        _path = (tuple(es['iss'] for es in trust_chain.verified_chain), entity_type)
        if _path not in _memo:
            _memo[_path] = self.gather_policies(trust_chain.verified_chain[:-1], entity_type)
        combined_policy = _memo[_path]
""")],
  demo='''
f = Fed()
ta = f.peer("https://ta.example.org", life=1000)
leaf = f.peer("https://leaf.example.org", hints=[ta.id], md={"openid_relying_party": {"client_name": "x"}}, life=1000)
ta.add(leaf, metadata_policy={"openid_relying_party": {"contacts": {"default": ["a"]}}})
v = f.real("https://v.example.org", anchors=[ta])
assert chains(v, leaf.id)[0].metadata["openid_relying_party"]["contacts"] == ["a"]
tick(2000)
ta.add(leaf, metadata_policy={"openid_relying_party": {"contacts": {"value": ["b"]}}})
assert chains(v, leaf.id)[0].metadata["openid_relying_party"]["contacts"] == ["b"]
'''),
 dict(id="c04-default-override", property="C04",
  needs="two superiors that state different defaults for the same claim",
  breaks="A subordinate authority's default replaces the one its superior states instead of being a conflict",
  edits=[("entity/function/policy.py", "        if superior['default'] == child['default']:\n            return superior['default']\n        else:\n            raise PolicyError(\"Not allowed to change default\")\n",
          "        return child['default']\n")],
  demo='''
f = Fed()
ta = f.peer("https://ta.example.org")
im = f.peer("https://im.example.org", hints=[ta.id])
leaf = f.peer("https://leaf.example.org", hints=[im.id], md={"openid_relying_party": {"client_name": "x"}})
ta.add(im, metadata_policy={"openid_relying_party": {"contacts": {"default": ["a"]}}})
im.add(leaf, metadata_policy={"openid_relying_party": {"contacts": {"default": ["b"]}}})
v = f.real("https://v.example.org", anchors=[ta])
assert chains(v, leaf.id) == [], "conflicting defaults"
'''),
 dict(id="c05-late-exp", property="C05",
  needs="a superior's configuration used again after it has expired, after its fetch endpoint moved",
  breaks="The cache returns entity configurations for some time after they have expired",
  edits=[("entity_statement/cache.py", "                if _now < (statement[\"exp\"] - self.allowed_delta):\n",
          "                if _now < (statement[\"exp\"] + self.allowed_delta):\n")],
  demo='''
f = Fed()
ta = f.peer("https://ta.example.org")
leaf = f.peer("https://leaf.example.org", hints=[ta.id], md={"openid_relying_party": {"client_name": "old"}}, life=1000)
ta.add(leaf)
v = f.real("https://v.example.org", anchors=[ta])
assert len(chains(v, leaf.id)) == 1
leaf.md["openid_relying_party"]["client_name"] = "new"
tick(1100)
res = chains(v, leaf.id)
assert len(res) == 1 and res[0].metadata["openid_relying_party"]["client_name"] == "new", "still using an expired configuration"
'''),
 dict(id="c06-shared-seen", property="C06",
  needs="two superiors that have a superior in common",
  breaks="Branches of the collected tree share the list of superiors that have been seen: a superior reached over a second way looks like a loop",
  edits=[("entity/function/trust_chain_collector.py", "            _seen = seen[:]\n", "            _seen = seen\n")],
  demo='''
f = Fed()
ta = f.peer("https://ta.example.org")
i1 = f.peer("https://i1.example.org", hints=[ta.id])
i2 = f.peer("https://i2.example.org", hints=[ta.id])
leaf = f.peer("https://leaf.example.org", hints=[i1.id, i2.id], md={"openid_relying_party": {}})
ta.add(i1); ta.add(i2); i1.add(leaf); i2.add(leaf)
v = f.real("https://v.example.org", anchors=[ta])
assert sorted(c.iss_path[1] for c in chains(v, leaf.id)) == [i1.id, i2.id]
'''),
 dict(id="c06-hint-order", property="C06",
  needs="an entity with a superior that fails after another one that is fine",
  breaks="Chains over one superior are dropped when another one has been collected but leads nowhere",
  edits=[("entity/function/__init__.py", "        _lists = tree2chains(unit)\n        for l in _lists:\n            l.append(statement)\n\n        if not res:\n            res = _lists\n        else:\n            res.extend(_lists)\n",
          "        _lists = tree2chains(unit)\n        for l in _lists:\n            l.append(statement)\n\n        if len(_lists) >= len(res):\n            res = _lists + res if res and len(_lists) > len(res) else res + _lists\n        else:\n            res = _lists\n")],
  demo='''
f = Fed()
tas = [f.peer(f"https://ta{i}.example.org") for i in range(3)]
i1 = f.peer("https://i1.example.org", hints=[t.id for t in tas[:2]])
i2 = f.peer("https://i2.example.org", hints=[tas[2].id])
leaf = f.peer("https://leaf.example.org", hints=[i1.id, i2.id], md={"openid_relying_party": {}})
for t in tas[:2]:
    t.add(i1)
tas[2].add(i2); i1.add(leaf); i2.add(leaf)
v = f.real("https://v.example.org", anchors=tas)
assert sorted(c.anchor for c in chains(v, leaf.id)) == sorted(t.id for t in tas)
'''),
 dict(id="c07-type-break", property="C07",
  needs="a subordinate with several entity types of which the first has no policy of its own",
  breaks="When there is no policy for one of a subordinate's entity types those for the types after it are left out",
  edits=[("entity/server/fetch.py", "                        if not _et_policy:\n                            continue\n", "                        if not _et_policy:\n                            break\n")],
  demo='''
f = Fed()
leaf = Peer(f, "https://leaf.example.org")
ta = f.real("https://ta.example.org", endpoints=["entity_configuration", "fetch", "list"],
            subordinate={leaf.id: {"jwks": leaf.jwks(), "entity_types": ["federation_entity", "openid_relying_party"]}},
            metadata_policy={"openid_relying_party": {"metadata_policy": {"contacts": {"essential": True}}}})
es = ta.server.endpoint["fetch"].process_request({"sub": leaf.id})["response_msg"]
assert payload(es).get("metadata_policy") == {"openid_relying_party": {"contacts": {"essential": True}}}, payload(es)
'''),
 dict(id="c07-ec-memo", property="C07",
  needs="two requests for the entity configuration with a change of hints, trust marks or keys in between",
  breaks="The entity configuration is signed once and then served again for ten minutes, whatever changed",
  edits=[("entity/server/entity_configuration.py", "        return {\"response\": _ec}\n",
          "        _now = factory(_ec).jwt.payload()['iat']\n        _kept = getattr(self, '_kept', None)\n        if not _kept or _now - _kept[0] > 600:\n            self._kept = _kept = (_now, _ec)\n        return {\"response\": _kept[1]}\n"),
         ("entity/server/entity_configuration.py", "from idpyoidc.message import Message\n", "from cryptojwt.jws.jws import factory\nfrom idpyoidc.message import Message\n")],
  demo='''
f = Fed()
e = f.real("https://e.example.org", hints=["https://a.example.org"], endpoints=["entity_configuration"])
ep = e.server.endpoint["entity_configuration"]
assert payload(ep.process_request({})["response"])["authority_hints"] == ["https://a.example.org"]
e.context.authority_hints.append("https://b.example.org")
got = payload(ep.process_request({})["response"])["authority_hints"]
assert got == ["https://a.example.org", "https://b.example.org"], got
'''),
 dict(id="c15-priority-order", property="C15",
  needs="several chains, a priority list with more than one of their anchors, and chains not in priority order",
  breaks="Picks the first chain whose anchor is in the priority list instead of going by the list",
  edits=[("entity/__init__.py", "            for fid in self.context.tr_priority:\n                for trust_chain in trust_chains:\n                    if trust_chain.anchor == fid:\n                        return trust_chain\n",
          "            for trust_chain in trust_chains:\n                for fid in self.context.tr_priority:\n                    if trust_chain.anchor == fid:\n                        return trust_chain\n")],
  demo='''
f = Fed()
tas = [f.peer(f"https://ta{i}.example.org") for i in range(2)]
leaf = f.peer("https://leaf.example.org", hints=[t.id for t in tas], md={"openid_relying_party": {}})
for t in tas:
    t.add(leaf)
for order in (tas, tas[::-1]):
    v = f.real("https://v.example.org", anchors=tas)
    v.context.tr_priority = [t.id for t in order]
    assert v.pick_trust_chain(chains(v, leaf.id)).anchor == order[0].id
'''),
 dict(id="c15-longest-kept", property="C15",
  needs="chains of different length to the same anchor of which the longer one comes first",
  breaks="Among several chains to one trust anchor the first is kept unless a later one has the same length",
  edits=[("entity_statement/statement.py", "            if len(trust_chain.verified_chain) < len(res[trust_chain.anchor].verified_chain):\n",
          "            if len(trust_chain.verified_chain) == len(res[trust_chain.anchor].verified_chain):\n")],
  demo='''
from fedservice.entity_statement.statement import TrustChain, chains2dict
a, b = TrustChain(anchor="https://ta", verified_chain=[1, 2, 3]), TrustChain(anchor="https://ta", verified_chain=[1, 2])
for order in ([a, b], [b, a]):
    assert len(chains2dict(order)["https://ta"].verified_chain) == 2
'''),
 dict(id="c16-empty-level", property="C16",
  needs="an authority without direct subordinates of the wanted type above intermediates that have some",
  breaks="Trawling stops at an authority that has no direct subordinate of the wanted type",
  edits=[("entity/__init__.py", "        if _added_issuers is None:\n            pass\n        else:\n            _issuers.extend(_added_issuers)\n",
          "        if not _added_issuers:\n            return _issuers\n        _issuers.extend(_added_issuers)\n")],
  demo='''
f = Fed()
leaf = Peer(f, "https://leaf.example.org", hints=["https://im.example.org"], md={"openid_relying_party": {}})
f.nodes[leaf.id] = leaf
eps = ["entity_configuration", "fetch", "list"]
rp = ["openid_relying_party"]
im = f.real("https://im.example.org", endpoints=eps, hints=["https://mid.example.org"],
            subordinate={leaf.id: {"jwks": leaf.jwks(), "entity_types": rp}})
mid = f.real("https://mid.example.org", endpoints=eps, hints=["https://ta.example.org"],
             subordinate={im.entity_id: {"jwks": im.keyjar.export_jwks(), "entity_types": ["federation_entity"], "intermediate": True}})
ta = f.real("https://ta.example.org", endpoints=eps,
            subordinate={mid.entity_id: {"jwks": mid.keyjar.export_jwks(), "entity_types": ["federation_entity"], "intermediate": True}})
v = f.real("https://v.example.org", anchors=[ta], services=["entity_configuration", "entity_statement", "list"])
got = v.trawl(ta.entity_id, mid.entity_id, "openid_relying_party")
assert leaf.id in got, got
'''),
]
