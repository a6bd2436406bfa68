MARKS = '''
IDS = ["https://marks.example.org/a", "https://marks.example.org/b"]
f = Fed()
own = {i: Peer(f, "https://owner%d.example.org" % n) for n, i in enumerate(IDS)}
ta = f.peer("https://ta.example.org", md={"federation_entity": {
    "trust_mark_issuers": {i: ["https://tmi.example.org"] for i in IDS}}})
def owners():
    ta.md["federation_entity"]["trust_mark_owners"] = {i: {"sub": o.id, "jwks": o.jwks()} for i, o in own.items()}
tmi = f.peer("https://tmi.example.org", hints=[ta.id],
             md={"federation_entity": {"federation_trust_mark_status_endpoint": "https://tmi.example.org/status"}})
ta.add(tmi)
ledger = []
def handle(path, query, other=tmi.handle):
    if path == "/status":
        mine = [m for m in ledger if m["sub"] == query["sub"] and (not query.get("iat") or str(m["iat"]) == query["iat"])]
        return Resp(200, json.dumps({"active": bool(mine) and not mine[-1].get("revoked")}), "application/json")
    return other(path, query)
tmi.handle = handle
v = f.real("https://v.example.org", anchors=[ta], services=["entity_configuration", "entity_statement", "trust_mark_status"])
def mark(tid=IDS[0], life=None, **kw):
    p = {"iss": tmi.id, "sub": "https://op.example.org", "id": tid, "iat": now()}
    if life:
        p["exp"] = now() + life
    p.update(kw)
    ledger.append(dict(p))
    return tmi.sign(p)
def delegation(tid, by):
    return by.sign({"iss": by.id, "sub": tmi.id, "id": tid, "iat": now()})
def ok(m, **kw):
    try:
        return bool(v.function.trust_mark_verifier(m, ta.id, **kw))
    except Exception:
        return False
'''
BUGS = [
 dict(id="c09-iat-dropped", property="C09",
  needs="two marks of one kind for one subject, of which the first was revoked before the second was issued",
  breaks="The issuer is asked whether the subject has such a mark, not whether this one is active, so a revoked mark is accepted once a new one was issued",
  edits=[("entity/client/trust_mark_status.py", "if k in ['sub', 'trust_mark_id', 'iat']}", "if k in ['sub', 'trust_mark_id']}")],
  demo=MARKS + '''
m1 = mark()
assert ok(m1, check_status=True)
ledger[-1]["revoked"] = True
assert not ok(m1, check_status=True)
tick(10)
m2 = mark()
assert ok(m2, check_status=True)
assert not ok(m1, check_status=True)
'''),
 dict(id="c09-any-owner", property="C09",
  needs="a trust anchor with several trust mark owners; one of them delegates the right to issue another owner's mark",
  breaks="The delegation is checked against the owner it names, whichever of the trust anchor's owners that is, not against the owner of the mark",
  edits=[("entity/function/trust_mark_verifier.py", "        tm_owner_info = ta_fe_metadata['trust_mark_owners'][trust_mark['id']]\n",
          "        _owners = ta_fe_metadata['trust_mark_owners']\n"
          "        _iss = get_payload(trust_mark['delegation']).get('iss')\n"
          "        tm_owner_info = next((o for o in _owners.values() if o['sub'] == _iss),\n"
          "                             _owners[trust_mark['id']])\n")],
  demo=MARKS + '''
owners()
a, b = IDS
assert ok(mark(a, delegation=delegation(a, own[a])))
assert ok(mark(b, delegation=delegation(b, own[b])))
assert not ok(mark(a, delegation=delegation(a, own[b])))
'''),
]
