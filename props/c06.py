"""C06: resolution terminates, isolates faulty superiors, recovers."""
from sim import fedscn

PROP = "C06"
QUICK_RUNS = 1600
HANG_IS_VIOLATION = True
RULE = ("one evaluation = one resolution whose number of requests is bounded, or one set of accepted chains compared with what "
        "the reachable part of the federation (during faults) or the whole of it (after faults) defines; distinct by run trace")
REAL = fedscn.REAL
STUB = fedscn.STUB
REQUIRED_PROBES = ("accepted", "isolation", "recovered", "audited", "requests_counted", "complete_several")
ASSUMPTIONS = fedscn.ASSUMPTIONS
simplify = fedscn.simplify
run = fedscn.run


def gen(rng):
    w = {"resolve": 5, "trouble": 5, "rule": 2, "assault": 1, "cut": 0.8, "crash": 0.8, "restart": 0.4, "heal": 1.2, "recover": 2,
         "advance": 0.5, "blackout": 0.3, "bounce": 0.3, "second": 0.5}
    if rng.random() < 0.3:
        w.update(rotate=0.7, register=0.5, deregister=0.5)
    return fedscn.gen(rng, w, n=(5, 16), tail=("recover", "audit"), n_int=(1, 5), cycles=0.5, extra_hint=0.5, stray_hint=0.3, short=0.1,
                      evil=0.1)
