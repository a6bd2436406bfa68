"""C03: constraints of every superior bind everything below it."""
from sim import fedscn

PROP = "C03"
QUICK_RUNS = 1600
RULE = ("one evaluation = one chain accepted or presented, judged against the reference constraint evaluation, or one set of "
        "accepted chains compared with the set the federation defines; distinct by run trace")
REAL = fedscn.REAL
STUB = fedscn.STUB
REQUIRED_PROBES = ("accepted_constrained", "accepted_deep", "presented_accepted", "presented_rejected", "clean_resolve",
                   "complete_several")
ASSUMPTIONS = fedscn.ASSUMPTIONS
simplify = fedscn.simplify
run = fedscn.run


def gen(rng):
    w = {"resolve": 6, "present_ok": 5, "setconstraints": 2, "advance": 0.5, "bounce": 0.5, "trouble": 0.6, "audit": 0.7, "register": 0.3}
    return fedscn.gen(rng, w, n=(6, 14), tail=("audit",), constraints=0.55, n_int=(1, 5), n_leaf=(1, 3), extra_hint=0.45,
                      stray_hint=0.05, half_registered=0.02)
