"""Bugs for C14."""
BUGS = [
 dict(id="c14-marks-last", property="C14",
  needs="a subject that was given the same trust mark several times, the issuer's marks written out and read back, a question about one of the older ones "
        "(or the last one expires earlier)",
  breaks="When issued trust marks are read back only the last one of each kind is kept for a subject",
  edits=[("trust_mark_entity/__init__.py", "    def loads(self, info):\n        self._db = json.loads(info)\n",
          "    def loads(self, info):\n        # The last one is the one that counts\n"
          "        self._db = {_id: {_sub: _tms[-1:] for _sub, _tms in _subs.items()} for _id, _subs in json.loads(info).items()}\n")],
  demo='''
from fedservice.trust_mark_entity import SimpleDB
a = SimpleDB()
for iat in (100, 200, 300):
    a.add({"id": "https://m.example.org", "sub": "https://x.example.org", "iat": iat})
a.add({"id": "https://m.example.org", "sub": "https://y.example.org", "iat": 100})
b = SimpleDB()
b.loads(a.dumps())
for iat in (100, 200, 300):
    assert a.find("https://m.example.org", "https://x.example.org", iat)
    assert b.find("https://m.example.org", "https://x.example.org", iat), f"the mark issued at {iat} is no longer known"
assert sorted(b.list("https://m.example.org")) == ["https://x.example.org", "https://y.example.org"]
'''),
 dict(id="c14-cache-delta", property="C14",
  needs="the allowed delta of a cache was changed after the entity was built, the cache is written out and read into a new entity, "
        "a cached configuration comes close to its expiry",
  breaks="What a cache allows as delta isn't exported, after a restart it is again what it was at first",
  edits=[("entity_statement/cache.py", '        "_db": {},\n        "allowed_delta": 0\n', '        "_db": {}\n')],
  demo='''
import json
from fedservice.entity_statement.cache import ESCache
a = ESCache(allowed_delta=300)
a.allowed_delta = 0
a["https://x.example.org"] = {"iss": "https://x.example.org", "exp": now() + 200}
b = ESCache(allowed_delta=300)
b.load(json.loads(json.dumps(a.dump())))
assert a["https://x.example.org"]
assert b["https://x.example.org"], "what was read back is judged differently"
'''),
 dict(id="c14-chain-import", property="C14",
  needs="a trust chain that is exported, read back and then used as something that was verified: exported for a request, verified again, the path looked at",
  breaks="A trust chain that is read back has its verified chain the other way round",
  edits=[("entity_statement/statement.py", "    def keys(self):\n        return self.metadata.keys()\n",
          "    def local_load_adjustments(self, **kwargs):\n        # The statements from the trust anchor to the subject\n"
          "        if self.verified_chain and self.iss_path and len(self.verified_chain) > 2 and self.verified_chain[0].get('sub') != self.iss_path[0]:\n"
          "            self.verified_chain = list(reversed(self.verified_chain))\n\n"
          "    def keys(self):\n        return self.metadata.keys() if self.metadata else {}.keys()\n")],
  demo='''
import json
from fedservice.entity_statement.statement import TrustChain
f = Fed()
ta = f.peer("https://ta.example.org")
im = f.peer("https://im.example.org", hints=[ta.id])
leaf = f.peer("https://leaf.example.org", hints=[im.id])
ta.add(im)
im.add(leaf)
a = f.real("https://a.example.org", anchors=[ta], hints=[])
tc = chains(a, leaf.id)[0]
t2 = TrustChain().load(json.loads(json.dumps(tc.dump())))
assert t2.iss_path == tc.iss_path and t2.exp == tc.exp
assert t2.verified_chain == tc.verified_chain, "not what was exported"
assert t2.export_chain() == tc.export_chain()
'''),
 dict(id="c14-hints-kept", property="C14",
  needs="a context into which exported state is read while it has authority hints of its own, the exported one had other or fewer hints",
  breaks="Reading back a context adds the exported authority hints to those in the configuration instead of replacing them",
  edits=[("entity/context.py", "    def supports(self):\n        return self.claims._supports\n",
          "    def load(self, item, init_args=None, load_args=None):\n        # Don't forget superiors that are in the configuration\n"
          "        _configured = self.authority_hints if isinstance(self.authority_hints, list) else []\n"
          "        ImpExp.load(self, item, init_args=init_args, load_args=load_args)\n"
          "        if isinstance(self.authority_hints, list):\n"
          "            self.authority_hints = sorted(set(_configured).union(self.authority_hints))\n"
          "        return self\n\n"
          "    def supports(self) -> dict:\n        return self.claims._supports\n")],
  demo='''
import json
f = Fed()
ta = f.peer("https://ta.example.org")
tb = f.peer("https://tb.example.org")
a = f.real("https://a.example.org", anchors=[ta, tb], hints=[ta.id])
a.context.authority_hints = [tb.id]
d = json.loads(json.dumps(a.context.dump()))
b = f.real("https://a.example.org", anchors=[ta, tb], hints=[ta.id])
assert b.context.authority_hints == [ta.id]
b.context.load(d)
assert b.context.get_authority_hints() == [tb.id], b.context.get_authority_hints()
'''),
]
