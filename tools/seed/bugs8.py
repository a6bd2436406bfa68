"""Bugs for C12."""
BUGS = [
 dict(id="c12-marks-db", property="C12",
  needs="two trust mark issuers in one process that keep their trust marks in memory and issue the same kind of trust mark",
  breaks="Trust mark issuers in one process share what they remember: one confirms and lists trust marks the other has issued",
  edits=[("trust_mark_entity/__init__.py", "    def __init__(self):\n        self._db = {}\n", "    _db: dict = {}\n")],
  demo='''
from fedservice.trust_mark_entity import SimpleDB
a, b = SimpleDB(), SimpleDB()
a.add({"id": "https://m.example.org", "sub": "https://x.example.org", "iat": 1})
assert a.find("https://m.example.org", "https://x.example.org")
assert not b.find("https://m.example.org", "https://x.example.org"), "the mark somebody else issued"
assert b.list("https://m.example.org") == []
'''),
 dict(id="c12-registry-alias", property="C12",
  needs="two superiors built with the same object as their registered subordinates, one of them has a registration added or removed later",
  breaks="The registry of a federation entity is the caller's dictionary: registering a subordinate with one superior registers it with others, too",
  edits=[("utils.py", "            for id, info in subordinate.items():\n                fe.server.subordinate[id] = info\n",
          "            fe.server.subordinate = subordinate\n")],
  demo='''
from fedservice.utils import make_federation_entity
subs = {"https://a.example.org": {"jwks": {"keys": []}}}
def make(eid):
    return make_federation_entity(eid, key_config={"key_defs": [{"type": "EC", "crv": "P-256", "use": ["sig"]}]}, authority_hints=[], trust_anchors={},
                                  subordinate=subs)
a, b = make("https://x.example.org"), make("https://y.example.org")
assert set(a.server.subordinate) == set(b.server.subordinate) == {"https://a.example.org"}
a.server.subordinate["https://b.example.org"] = {"jwks": {"keys": []}}
assert "https://b.example.org" not in b.server.subordinate, "registered with the other superior"
assert "https://b.example.org" not in subs
'''),
 dict(id="c12-statement-cache", property="C12",
  needs="two entities in one process that look up the same statement, the second after the federation changed",
  breaks="Collectors with the same allowed delta share their cache of subordinate statements over entities: one entity goes by what another has fetched",
  edits=[("entity/function/trust_chain_collector.py", "class TrustChainCollector(Function):\n",
          "_STATEMENTS = {}  # one cache for the process, depending on how old things may be\n\n\nclass TrustChainCollector(Function):\n"),
         ("entity/function/trust_chain_collector.py", "        self.entity_statement_cache = ESCache(allowed_delta=allowed_delta)\n",
          "        if allowed_delta not in _STATEMENTS:\n            _STATEMENTS[allowed_delta] = ESCache(allowed_delta=allowed_delta)\n"
          "        self.entity_statement_cache = _STATEMENTS[allowed_delta]\n")],
  demo='''
f = Fed()
ta = f.peer("https://ta.example.org")
leaf = f.peer("https://leaf.example.org", hints=[ta.id])
ta.add(leaf)
a = f.real("https://a.example.org", anchors=[ta], hints=[])
b = f.real("https://b.example.org", anchors=[ta], hints=[])
assert chains(a, leaf.id)
del ta.subs[leaf.id]
assert not chains(b, leaf.id), "goes by what another entity was told earlier"
'''),
 dict(id="c12-policy-alias", property="C12",
  needs="superiors built with the same object as their policies, one of which gets a policy added or removed later",
  breaks="The policies of a federation entity are the dictionary of the caller: a policy set for one superior is also the policy of others",
  edits=[("utils.py", "    if metadata_policy:\n        for id, info in metadata_policy.items():\n            fe.server.policy[id] = info\n",
          "    if metadata_policy:\n        fe.server.policy = metadata_policy\n")],
  demo='''
from fedservice.utils import make_federation_entity
pol = {"openid_relying_party": {"metadata_policy": {"contacts": {"add": "ops@example.org"}}}}
def make(eid):
    return make_federation_entity(eid, key_config={"key_defs": [{"type": "EC", "crv": "P-256", "use": ["sig"]}]}, authority_hints=[], trust_anchors={},
                                  metadata_policy=pol)
a, b = make("https://x.example.org"), make("https://y.example.org")
assert set(a.server.policy) == set(b.server.policy) == {"openid_relying_party"}
a.server.policy["https://b.example.org"] = {"metadata_policy": {}}
assert "https://b.example.org" not in b.server.policy, "the other superior's policy"
assert "https://b.example.org" not in pol
'''),
]
