"""C02: nothing is accepted, stored or handed out past its expiry."""
from sim import fedscn

PROP = "C02"
QUICK_RUNS = 1600
RULE = ("one evaluation = one trust chain handed out by a node (fresh, kept, or presented), its expiry compared with the "
        "earliest expiry of its signed statements and with the node's clock; distinct by run trace")
REAL = fedscn.REAL
STUB = fedscn.STUB
REQUIRED_PROBES = ("accepted", "presented_accepted", "presented_rejected", "kept_given", "kept_asked")
ASSUMPTIONS = fedscn.ASSUMPTIONS
simplify = fedscn.simplify
run = fedscn.run


def gen(rng):
    w = {"resolve": 6, "present": 2, "present_ok": 1, "advance": 4, "short_advance": 2, "skew": 1.5, "blackout": 0.7, "heal": 1,
         "ctx_save": 1.5, "ctx_get": 3, "keep": 0.8, "kept": 1.5, "rotate": 0.3, "rule": 0.5, "bounce": 0.2}
    scn = fedscn.gen(rng, w, n=(8, 22), tail=("heal", "resolve"), short=0.6, n_leaf=(1, 2), n_int=(0, 3), cycles=0.05)
    for o in scn["ops"]:
        if o["op"] == "present":
            for m in o["mut"]:
                m["how"] = rng.choice(["expired", "edge", "exp_cut"])
        if o["op"] == "resolve":
            o["api"] = rng.choice(["gvtc", "stored", "stored", "md"])
    return scn
