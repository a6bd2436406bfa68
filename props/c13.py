"""C13: a resolver tells only what a valid chain under the asked-for anchor shows."""
from sim import fedscn

PROP = "C13"
QUICK_RUNS = 1500
RULE = ("one evaluation = one answer of a resolve endpoint judged by the independent chain verifier and the reference metadata, or "
        "compared with what the federation defines; distinct by run trace")
REAL = fedscn.REAL
STUB = fedscn.STUB
REQUIRED_PROBES = ("ask_answered", "ask_error", "ask_other_resolver", "ask_short", "ask_deep", "ask_constrained", "ask_policies", "ask_type",
                   "ask_all", "ask_clean", "ask_recover_suspect", "ask_audited", "ask_answered_clean", "ask_refused_clean",
                   "ask_answered_audit", "ask_refused_audit", "ask_answered_recovery")
ASSUMPTIONS = fedscn.ASSUMPTIONS
simplify = fedscn.simplify
run = fedscn.run


def gen(rng):
    w = {"ask": 9, "resolve": 1.5, "assault": 1, "trouble": 1, "attack": 0.4, "rule": 0.6, "heal": 0.5, "advance": 1.5,
         "short_advance": 0.7, "skew": 0.4, "rotate": 0.5, "deregister": 0.4, "register": 0.3, "setpolicy": 0.5, "setmd": 0.4,
         "setconstraints": 0.4, "bounce": 0.3, "crash": 0.3, "restart": 0.4, "cut": 0.2, "askrecover": 1.2, "askaudit": 0.2}
    return fedscn.gen(rng, w, n=(6, 15), tail=rng.choice([("askaudit",), ("askrecover",), ("askrecover", "askaudit")]),
                      constraints=rng.choice([0, 0.25]), policies=rng.choice([0, 0.4]), short=rng.choice([0, 0.3]),
                      evil=rng.choice([0, 0.3]), n_int=(0, 3), n_leaf=(1, 3), cycles=0.08, stray_hint=0.08, resolvers=0.6)
