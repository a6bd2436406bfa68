"""C01: a trust chain is accepted only when it really ends in a configured anchor."""
from sim import fedscn

PROP = "C01"
QUICK_RUNS = 1600
RULE = ("one evaluation = one trust chain accepted by (or presented to) a node running the real code, judged by the "
        "independent reference verifier; a run counts as distinct by its trace and is non-trivial when it judged something")
REAL = fedscn.REAL
STUB = fedscn.STUB
REQUIRED_PROBES = ("accepted", "accepted_deep", "presented_accepted", "presented_rejected", "rotated", "audited")
ASSUMPTIONS = fedscn.ASSUMPTIONS
simplify = fedscn.simplify
run = fedscn.run


def gen(rng):
    w = {"resolve": 4, "assault": 5, "present": 6, "present_ok": 1, "advance": 1, "attack": 1, "rule": 0.5, "heal": 1, "bounce": 0.4,
         "rotate": 1.2, "deregister": 0.3, "register": 0.3, "crash": 0.2, "restart": 0.2, "recover": 0.4}
    return fedscn.gen(rng, w, n=(5, 14), tail=("audit",) if rng.random() < 0.4 else ("heal", "resolve"), evil=0.4, short=0.1)
