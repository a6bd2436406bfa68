"""C07: an authority states exactly what its registry and policy say at that moment."""
from sim import authscn

PROP = "C07"
QUICK_RUNS = 3200
RULE = ("one evaluation = one statement, configuration or refusal by a real authority compared with what its operator registered at that "
        "moment, or one comparison of a running registry with what the operator put there; distinct by run trace")
REAL = authscn.REAL
STUB = authscn.STUB
REQUIRED_PROBES = ("statement", "statement_by_type", "statement_own_policy", "configuration", "refused", "refused_foreign", "edited",
                   "deregistered", "hints_file", "hints_function", "hints_live", "marks_list", "marks_file", "marks_function")
ASSUMPTIONS = authscn.ASSUMPTIONS
simplify = authscn.simplify
run = authscn.run


def gen(rng):
    w = {"fetch": 6, "sweep": 2, "ec": 3, "edit": 4, "typepol": 2, "dereg": 1.2, "reg": 1.2, "rekey": 0.7, "hint": 0.8, "remark": 0.5,
         "pref": 0.3, "bounce": 0.5, "down": 0.15, "advance": 0.8, "skew": 0.5, "traffic": 1.2, "rule": 0.3, "heal": 0.3}
    return authscn.gen(rng, w, n=(8, 22), tail=("audit",), n_ta=(1, 2), n_int=(0, 3), n_leaf=(1, 3), real=0.6)
