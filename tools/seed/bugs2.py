BUGS = [
 dict(id="c08-damaged-emptied", property="C08",
  needs="a record that was only partly written when the issuer crashed, and a restart with the same files",
  breaks="A file whose last record was cut short by a crash is started anew when the issuer comes up again: everything issued before is forgotten",
  edits=[("trust_mark_entity/__init__.py", """            if not os.path.exists(file_name):
                # Only need to touch it
                fp = open(file_name, "w")
""", """            try:
                with open(file_name) as fp:
                    for line in fp:
                        json.loads(line)
            except (OSError, ValueError):
                # Not there or not usable
                fp = open(file_name, "w")
""")],
  demo='''
import tempfile, os
from fedservice.trust_mark_entity import FileDB
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "marks")
    db = FileDB(**{"https://m.example.org": f})
    db.add({"id": "https://m.example.org", "sub": "https://a.example.org", "iat": now()})
    with open(f, "a") as fp:
        fp.write('{"id": "https://m.exam')
    db = FileDB(**{"https://m.example.org": f})
    assert db.find("https://m.example.org", "https://a.example.org")
'''),
 dict(id="c08-dump-latest", property="C08",
  needs="two marks of one type for one holder, the later one expiring before the earlier one, and a move to another issuer by dump and load",
  breaks="Writing out what was issued keeps only the last record of each holder",
  edits=[("trust_mark_entity/__init__.py", """                for line in list(fp):
                    res[entity_id].append(line.rstrip())
""", """                _last = {}
                for line in list(fp):
                    try:
                        _last[json.loads(line)["sub"]] = line.rstrip()
                    except (ValueError, KeyError, TypeError):
                        continue
                res[entity_id].extend(_last.values())
""")],
  demo='''
import tempfile, os
from fedservice.trust_mark_entity import FileDB
m = "https://m.example.org"
with tempfile.TemporaryDirectory() as d:
    db = FileDB(**{m: os.path.join(d, "a")})
    db.add({"id": m, "sub": "https://a.example.org", "iat": now()})
    db.add({"id": m, "sub": "https://a.example.org", "iat": now() + 5, "exp": now() + 5000})
    db2 = FileDB(**{m: os.path.join(d, "b")})
    db2.loads(db.dumps())
    assert db2.find(m, "https://a.example.org", now())
'''),
 dict(id="c08-lifetime-sticks", property="C08",
  needs="one mark of a type issued with an extra claim, a later one of the same type without",
  breaks="Claims added to one mark end up in the specification of its type, hence in every later mark of that type",
  edits=[("trust_mark_entity/entity.py", """        content = self.trust_mark_specification[id].copy()
        content.update(_add)
        if kwargs:
            content.update(kwargs)

        _federation_entity = get_federation_entity(self)
        packer = JWT(key_jar=_federation_entity.keyjar, iss=_federation_entity.entity_id)
        # What""", """        content = self.trust_mark_specification[id]
        content.update(_add)
        if kwargs:
            content.update(kwargs)

        _federation_entity = get_federation_entity(self)
        packer = JWT(key_jar=_federation_entity.keyjar, iss=_federation_entity.entity_id)
        # What""")],
  demo='''
from fedservice.trust_mark_entity.entity import TrustMarkEntity
f = Fed()
m = "https://m.example.org"
v = f.real("https://tmi.example.org", anchors=[])
t = TrustMarkEntity(entity_id=v.entity_id, upstream_get=v.unit_get, trust_mark_specification={m: {}})
t.create_trust_mark(m, "https://a.example.org", ref="https://x.example.org")
p = payload(t.create_trust_mark(m, "https://b.example.org"))
assert "ref" not in p, p
'''),
 dict(id="c08-newest-only", property="C08",
  needs="an earlier mark that lives longer than the one issued after it",
  breaks="The in-memory database, asked about a particular mark, only looks at marks issued at that time or later, so any later mark makes an expired one active",
  edits=[("trust_mark_entity/__init__.py", """                if iat == _tmi["iat"]:
                    return True
            else:
                return True

        return False

    def keys""", """                if _tmi["iat"] >= iat:
                    return True
            else:
                return True

        return False

    def keys""")],
  demo='''
from fedservice.trust_mark_entity import SimpleDB
m = "https://m.example.org"
db = SimpleDB()
db.add({"id": m, "sub": "https://a.example.org", "iat": now() - 1000, "exp": now() - 10})
db.add({"id": m, "sub": "https://a.example.org", "iat": now()})
assert not db.find(m, "https://a.example.org", now() - 1000)
'''),
]
BUGS += [
 dict(id="c13-any-anchor", property="C13",
  needs="a subject with chains to other anchors the resolver trusts, but none to the one asked for",
  breaks="The resolver falls back on the last chain it found when there is none to the anchor that was asked for",
  edits=[("entity/server/resolve.py", """            if _trust_anchor == trust_chain.anchor:
                _chain = trust_chain
                break
""", """            _chain = trust_chain
            if _trust_anchor == trust_chain.anchor:
                break
""")],
  demo='''
f = Fed()
ta, tb = f.peer("https://ta.example.org"), f.peer("https://tb.example.org")
leaf = f.peer("https://leaf.example.org", hints=[ta.id], md={"openid_relying_party": {}})
ta.add(leaf)
v = f.real("https://v.example.org", anchors=[ta, tb], endpoints=["entity_configuration", "resolve"])
ep = v.get_endpoint("resolve")
def ask(anchor):
    try:
        r = ep.process_request(ep.parse_request({"sub": leaf.id, "anchor": anchor}))
        return payload(r["response_args"])
    except Exception:
        return None
assert ask(ta.id)
r = ask(tb.id)
assert r is None, r
'''),
 dict(id="c13-type-own-words", property="C13",
  needs="a request for one entity type, of an entity whose superiors state a policy for it",
  breaks="When one type of metadata is asked for, the resolver hands out what the entity says about itself, without the policies of its superiors",
  edits=[("entity/server/resolve.py", "            metadata = {request['type']: _chain.metadata[request['type']]}",
          "            metadata = {request['type']: _chain.verified_chain[-1]['metadata'][request['type']]}")],
  demo='''
f = Fed()
ta = f.peer("https://ta.example.org")
leaf = f.peer("https://leaf.example.org", hints=[ta.id], md={"openid_relying_party": {"client_name": "x", "contacts": ["a", "b"]}})
ta.add(leaf, metadata_policy={"openid_relying_party": {"contacts": {"value": ["ops"]}}})
v = f.real("https://v.example.org", anchors=[ta], endpoints=["entity_configuration", "resolve"])
ep = v.get_endpoint("resolve")
def ask(**kw):
    r = ep.process_request(ep.parse_request({"sub": leaf.id, "anchor": ta.id, **kw}))
    return payload(r["response_args"])["metadata"]["openid_relying_party"]["contacts"]
assert ask() == ["ops"]
assert ask(type="openid_relying_party") == ["ops"]
'''),
]
