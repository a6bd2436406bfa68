"""C05: caching changes cost, not answers."""
from sim import fedscn

PROP = "C05"
QUICK_RUNS = 1600
RULE = ("one evaluation = one accepted chain judged for freshness, one resolution after a change compared with the current "
        "federation, or one resolution during an outage compared with the one just before; distinct by run trace")
REAL = fedscn.REAL
STUB = fedscn.STUB
REQUIRED_PROBES = ("accepted", "outage", "audited", "resolved_twice", "rotated", "complete_several")
ASSUMPTIONS = fedscn.ASSUMPTIONS
simplify = fedscn.simplify
run = fedscn.run


def gen(rng):
    w = {"resolve": 6, "outage": 2, "second": 1, "advance": 3, "short_advance": 1, "rotate": 1.5, "deregister": 0.8, "register": 0.8,
         "unhint": 0.5, "setpolicy": 0.5, "setmd": 0.7, "setconstraints": 0.3, "audit": 1, "crash": 0.3, "restart": 0.3, "rule": 0.4,
         "heal": 0.5, "skew": 0.3}
    return fedscn.gen(rng, w, n=(8, 20), tail=("audit",), short=0.25, policies=0.15, constraints=0.05, n_int=(0, 4), real=0.4)
