"""C11: explicit registration registers what the federation vouches for, on both sides."""
from sim import explscn, fedscn

PROP = "C11"
QUICK_RUNS = 900
RULE = ("one evaluation = one registration request to a server (client databases and key jars compared before and after, and with what an "
        "independent verifier makes of chains that end in that very request) or one registration answer handed to a client (accepted or "
        "not, and what the client takes from it); distinct by run trace")
REAL = fedscn.REAL + ["fedservice.appserver registration (OIDC, OAuth2)", "fedservice.appclient registration (OIDC, OAuth2)",
                      "idpyoidc server registration"]
STUB = fedscn.STUB + ["the part of the client's flow between sending the request and handing the answer to the service"]
REQUIRED_PROBES = ("srv_registered", "srv_refused", "srv_policy", "srv_answer", "cli_accepted", "cli_refused", "cli_policy", "cli_audit",
                   "cli_recovery", "req_other_md", "req_refused_att_mix", "req_loaded", "audited")
ASSUMPTIONS = fedscn.ASSUMPTIONS
simplify = explscn.simplify
run = explscn.run


def gen(rng):
    w = {"ask_reg": 6, "explicit": 7, "trouble": 1, "assault": 0.7, "attack": 0.4, "rule": 0.7, "heal": 0.5, "advance": 1.2,
         "short_advance": 0.7, "skew": 0.3, "rotate": 0.6, "deregister": 0.4, "register": 0.3, "setpolicy": 0.5, "setmd": 0.3, "bounce": 0.3,
         "crash": 0.2, "restart": 0.4, "cut": 0.2, "rekey_client": 0.2, "expl_recover": 0.7, "expl_rollover": 0.6}
    return explscn.gen(rng, w, n=(4, 10), tail=rng.choice([("expl_audit",), ("expl_recover",), ("expl_recover", "expl_audit")]),
                       constraints=rng.choice([0, 0.2]), policies=rng.choice([0, 0.4]), short=rng.choice([0, 0.3]),
                       evil=rng.choice([0, 0.3]), n_int=(0, 2), n_leaf=(1, 3), cycles=0.05, stray_hint=0.08)
