"""C17: no private key material leaves an entity."""
from sim import fedscn, wirescn

PROP = "C17"
QUICK_RUNS = 5000
RULE = ("one evaluation = one answer or request put on the wire by an entity running fedservice, taken apart (JWS, JSON, forms, URLs, "
        "nested) and searched for private members of keys, symmetric keys and known secrets; distinct by run trace")
REAL = fedscn.REAL + ["fedservice.appserver", "fedservice.appclient"]
STUB = fedscn.STUB
REQUIRED_PROBES = ("answer_used", "authz_request_as", "authz_request_op", "extended_list", "out_entity_configuration", "out_fetch", "out_list",
                   "out_registration", "out_resolve", "out_trust_mark", "out_trust_mark_list", "out_trust_mark_status", "private_registered",
                   "public_keys_seen", "secret_configured", "secret_issued", "sent_requests", "sym_in_keyjar")
ASSUMPTIONS = fedscn.ASSUMPTIONS
gen = wirescn.gen
run = wirescn.run
simplify = wirescn.simplify
