"""Bugs for C18."""
TMI = '''
from fedservice.trust_mark_entity.entity import TrustMarkEntity
f = Fed()
A = "https://marks.example.org/a"
def issuer(life=0):
    fe = f.real("https://tmi.example.org", services=["entity_configuration"], endpoints=["entity_configuration"])
    spec = {A: {"ref": "x"}}
    if life:
        spec[A]["lifetime"] = life
    return TrustMarkEntity(entity_id=fe.entity_id, upstream_get=fe.unit_get, trust_mark_specification=spec, endpoint={})
'''
RES = '''
f = Fed()
ta = f.peer("https://ta.example.org")
im = f.peer("https://im.example.org", hints=[ta.id])
ta.add(im)
l1, l2 = f.peer("https://l1.example.org", hints=[im.id]), f.peer("https://l2.example.org", hints=[im.id])
im.add(l1)
im.add(l2)
v = f.real("https://v.example.org", anchors=[ta], services=["entity_configuration", "entity_statement"], endpoints=["entity_configuration"])
def clean():
    c = v.function.trust_chain_collector
    for cache in (c.config_cache, c.entity_statement_cache):
        for k in list(cache.keys()):
            del cache[k]
    return v
def about(eid):
    return lambda state: [payload(tc.chain[-1])["sub"] for tc in chains(v, eid)]
def right(a, b):
    def check(state, ra, rb):
        assert ra == [a] and rb == [b], (ra, rb)
        assert about(a)(0) == [a] and about(b)(0) == [b]
    return check
'''
BUGS = [
 dict(id="c18-mark-scratch", property="C18",
  needs="two threads issuing the same kind of trust mark for different subjects, one interrupted while it has filled in the claims but not signed or recorded them",
  breaks="A trust mark issuer fills in the claims of a trust mark in the specification itself, so a trust mark can be issued to, or recorded for, the subject of another request",
  edits=[("trust_mark_entity/entity.py", "        content = self.trust_mark_specification[id].copy()\n        content.update(_add)\n        if kwargs:\n            content.update(kwargs)\n\n        _federation_entity = get_federation_entity(self)\n",
          "        content = self.trust_mark_specification[id]\n        content.update(_add)\n        if kwargs:\n            content.update(kwargs)\n\n        _federation_entity = get_federation_entity(self)\n"),
         ("trust_mark_entity/entity.py", "        self.issued.add(content)\n", "        self.issued.add(content.copy())\n")],
  demo=TMI + '''
def check(t, ra, rb):
    assert payload(ra)["sub"] == "https://s1" and payload(rb)["sub"] == "https://s2"
    assert sorted(t.list(A)) == ["https://s1", "https://s2"]
interleave(issuer, lambda t: t.create_trust_mark(A, "https://s1"), lambda t: t.create_trust_mark(A, "https://s2"), check)
'''),
 dict(id="c18-mark-sweep", property="C18",
  needs="somebody asks about a subject whose only trust mark has expired, while a new one is being issued to it",
  breaks="When the in-memory record of issued trust marks is searched it is replaced by one without the expired ones; a trust mark that is added meanwhile is forgotten",
  edits=[("trust_mark_entity/__init__.py", "        for _tmi in self._db.get(trust_mark_id, {}).get(sub, []):\n            if is_expired(_tmi):\n                continue\n            if iat:\n                if iat == _tmi[\"iat\"]:\n                    return True\n            else:\n                return True\n\n        return False\n\n    def keys",
          "        _subs = self._db.get(trust_mark_id, {})\n        if sub not in _subs:\n            return False\n        _valid = [_tmi for _tmi in _subs[sub] if not is_expired(_tmi)]\n        _subs[sub] = _valid\n        if iat:\n            return any(iat == _tmi[\"iat\"] for _tmi in _valid)\n        return bool(_valid)\n\n    def keys")],
  demo=TMI + '''
def setup():
    t = issuer(3600)
    t.create_trust_mark(A, "https://s1")
    tick(4000)
    return t
def check(t, ra, rb):
    assert t.find(A, "https://s1")
interleave(setup, lambda t: t.find(A, "https://s1"), lambda t: t.create_trust_mark(A, "https://s1"), check)
'''),
 dict(id="c18-response-kept", property="C18",
  needs="two threads collecting trust chains, one interrupted between the arrival of a document and its use",
  breaks="The collector keeps the response to its last request as an attribute, so a thread may take a document another thread asked for; what it gets does not fit and chains are lost",
  edits=[("entity/function/trust_chain_collector.py", "            response = self.upstream_get('attribute', 'httpc')(\"GET\", url, **_httpc_params)\n",
          "            self.response = self.upstream_get('attribute', 'httpc')(\"GET\", url, **_httpc_params)\n"),
         ("entity/function/trust_chain_collector.py", "        if response.status_code == 200:\n            if 'application/entity-statement+jwt' not in response.headers['Content-Type']:\n                logger.warning(f\"Wrong Content-Type: {response.headers['Content-Type']}\")\n            return response.text\n        elif response.status_code == 404:\n",
          "        if self.response.status_code == 200:\n            if 'application/entity-statement+jwt' not in self.response.headers['Content-Type']:\n                logger.warning(f\"Wrong Content-Type: {self.response.headers['Content-Type']}\")\n            return self.response.text\n        elif self.response.status_code == 404:\n")],
  demo=RES + '''
interleave(clean, about(l1.id), about(l2.id), right(l1.id, l2.id), where="/trust_chain_collector")
'''),
 dict(id="c18-cache-two-steps", property="C18",
  needs="a thread taking something from the cache at the very moment another one finds it expired, or part of a chain that could not be verified, and drops it",
  breaks="The statement cache looks first whether it has something and takes it afterwards; another thread that throws it away in between makes the lookup, and with it the collection of a chain, fail",
  edits=[("entity_statement/cache.py", "        try:\n            statement = self._db[item]\n        except KeyError:\n            return None\n        else:\n",
          "        if item not in self._db:\n            return None\n        else:\n            statement = self._db[item]\n")],
  demo=RES + '''
im.subs[l2.id] = (f.peer("https://l3.example.org"), {})
def check(state, ra, rb):
    assert ra == [l1.id] and rb == [], (ra, rb)
interleave(clean, about(l1.id), about(l2.id), check, where="/fedservice/entity")
'''),
 dict(id="c18-expiry-scratch", property="C18",
  needs="two threads working out when trust chains with different lifetimes expire, one interrupted half way",
  breaks="The verifier keeps the earliest expiry found so far in an attribute; a chain verified by another thread at the same time can change it, also to later than the chain is valid",
  edits=[("entity/function/verifier.py", "        exp = -1\n        for entity_statement in trust_chain:\n            if exp >= 0:\n                if entity_statement['exp'] < exp:\n                    exp = entity_statement['exp']\n            else:\n                exp = entity_statement['exp']\n        return exp\n",
          "        self.exp = -1\n        for entity_statement in trust_chain:\n            if self.exp >= 0:\n                if entity_statement['exp'] < self.exp:\n                    self.exp = entity_statement['exp']\n            else:\n                self.exp = entity_statement['exp']\n        return self.exp\n")],
  demo=RES + '''
im.subs[l1.id][1]["life"] = 3000
def exp(eid):
    return lambda state: [tc.exp - now() for tc in chains(v, eid)]
def check(state, ra, rb):
    assert ra == [3000] and rb == [86400], (ra, rb)
interleave(clean, exp(l1.id), exp(l2.id), check, where="/verifier")
interleave(clean, exp(l2.id), exp(l1.id), lambda st, ra, rb: check(st, rb, ra), where="/verifier")
'''),
]
