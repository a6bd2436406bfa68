"""C15: the chain picked follows the configured priority."""
from sim import fedscn

PROP = "C15"
QUICK_RUNS = 1600
RULE = ("one evaluation = one pick among fresh or kept chains, or one set of chains kept, judged against the configured priority and "
        "the lengths of the chains; distinct by run trace")
REAL = fedscn.REAL
STUB = fedscn.STUB
REQUIRED_PROBES = ("picked_several_anchors", "kept_several", "kept_of_many", "kept_picked_several", "kept_some_expired",
                   "kept_all_expired")
ASSUMPTIONS = fedscn.ASSUMPTIONS
simplify = fedscn.simplify
run = fedscn.run


def gen(rng):
    w = {"pick": 4, "keep": 4, "kept": 5, "priority": 1.5, "advance": 1.2, "short_advance": 0.5, "rule": 1.2, "trouble": 0.8, "heal": 1,
         "cut": 0.4, "unhint": 0.3, "register": 0.5, "rotate": 0.2, "bounce": 0.1}
    return fedscn.gen(rng, w, n=(8, 20), tail=("heal", "keep", "kept"), n_ta=(2, 4), n_int=(0, 4), n_leaf=(1, 2), extra_hint=0.6,
                      priority=0.8, short=0.35, cycles=0.05, stray_hint=0.1, all_anchors=0.9)
