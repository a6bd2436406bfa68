"""C04: resolved metadata obeys every superior's policy."""
from sim import fedscn

PROP = "C04"
QUICK_RUNS = 1600
RULE = ("one evaluation = the metadata attached to one accepted chain, checked against every superior's own policy and against "
        "the reference transformation, or one set of accepted chains compared with the reference; distinct by run trace")
REAL = fedscn.REAL
STUB = fedscn.STUB
REQUIRED_PROBES = ("policies_1", "policies_2", "metadata_compared", "clean_resolve", "resolved_twice")
ASSUMPTIONS = fedscn.ASSUMPTIONS + ["operator combinations the library refuses as a whole (value or one_of together with other "
                                    "operators on one claim) are not required to be accepted"]
simplify = fedscn.simplify
run = fedscn.run


def gen(rng):
    w = {"resolve": 6, "second": 2, "setpolicy": 2, "setmd": 1, "advance": 0.5, "bounce": 0.5, "trouble": 0.6, "audit": 0.7}
    return fedscn.gen(rng, w, n=(6, 14), tail=("audit",), policies=0.6, n_int=(0, 4), n_leaf=(1, 3), real=0.3, stray_hint=0.05,
                      half_registered=0.02, cycles=0.05)
