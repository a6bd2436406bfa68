"""C16: listing and trawling report exactly the registered subordinates asked for."""
from sim import authscn

PROP = "C16"
QUICK_RUNS = 1400
RULE = ("one evaluation = one list or one trawl result compared with the registries at that moment; distinct by run trace")
REAL = authscn.REAL
STUB = authscn.STUB
REQUIRED_PROBES = ("listed", "list_several_filters", "list_marks", "list_some", "list_marks_faults", "trawled", "trawled_deep", "trawled_cycle",
                   "laudit")
ASSUMPTIONS = authscn.ASSUMPTIONS
simplify = authscn.simplify
run = authscn.run


def gen(rng):
    w = {"list": 7, "trawl": 3, "dereg": 1, "reg": 1, "edit": 0.6, "flip": 0.8, "rekey": 0.5, "remark": 0.5, "bounce": 0.3, "down": 0.3,
         "advance": 0.8, "skew": 0.3, "traffic": 0.6, "rule": 1.5, "heal": 1.0, "cut": 0.4, "fetch": 0.4, "hint": 0.2}
    return authscn.gen(rng, w, n=(8, 20), tail=("laudit",), n_ta=(1, 2), n_int=(0, 4), n_leaf=(1, 4), real=0.7, paths=0.0,
                       half_registered=0.0, stray_hint=0.0, all_anchors=1.0, cycles=0.35, rich=0.0, typed=1.0, real_auth=0.7)
