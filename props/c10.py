"""C10: automatic registration binds a client to its own verified chain."""
from sim import fedscn, regscn

PROP = "C10"
QUICK_RUNS = 1500
RULE = ("one evaluation = one authorization or pushed authorization request to a server, whose client database and key jar are "
        "compared before and after, and with what an independent verifier makes of the chain presented or of the statements the "
        "server received; distinct by run trace")
REAL = fedscn.REAL + ["fedservice.appserver (OIDC, OAuth2, PAR)", "idpyoidc server endpoints (request parsing, registration)"]
STUB = fedscn.STUB + ["clients (their statements and requests are made by the simulator)"]
REQUIRED_PROBES = ("accepted_op", "accepted_as", "accepted_par", "refused", "registered_by_collected", "registered_by_presented",
                   "registered_with_policy", "rekeyed", "must_clean", "must_chain", "must_audit", "recovery_registered", "authenticated",
                   "refused_own_ec", "refused_expired")
ASSUMPTIONS = fedscn.ASSUMPTIONS
simplify = regscn.simplify
run = regscn.run


def gen(rng):
    w = {"authz": 9, "trouble": 1, "assault": 0.8, "attack": 0.5, "rule": 0.6, "heal": 0.5, "advance": 1.5, "short_advance": 0.7,
         "skew": 0.3, "rotate": 0.4, "deregister": 0.4, "register": 0.3, "setpolicy": 0.5, "setmd": 0.5, "bounce": 0.3, "crash": 0.2,
         "restart": 0.4, "cut": 0.2, "rekey_client": 0.8, "reg_recover": 1}
    return regscn.gen(rng, w, n=(6, 14), tail=rng.choice([("reg_audit",), ("reg_recover",), ("reg_recover", "reg_audit")]),
                      constraints=rng.choice([0, 0.2]), policies=rng.choice([0, 0.4]), short=rng.choice([0, 0.3]),
                      evil=rng.choice([0, 0.3]), n_int=(0, 2), n_leaf=(1, 3), cycles=0.05, stray_hint=0.08)
