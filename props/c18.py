"""C18: concurrent use gives the result of some serial order."""
from sim import concscn, fedscn

PROP = "C18"
QUICK_RUNS = 6000
RULE = ("one evaluation = one operation of a concurrent group compared with the same operation alone, with the registry's versions during it or "
        "with the history of issued marks; distinct by run trace, which contains every thread switch")
REAL = fedscn.REAL
STUB = fedscn.STUB
REQUIRED_PROBES = ("group_chains", "group_client", "group_edits", "group_marks", "group_mix", "group_serve", "overlapped", "preempted",
                   "switched", "same_c_ec", "same_c_es", "same_c_list", "same_c_resolve", "same_md", "same_resolve", "same_s_ec", "same_s_fetch",
                   "same_s_list", "same_s_resolve", "same_stored", "same_verify", "edit_during", "edit_fetch_ok", "edit_fetch_error",
                   "edit_list_ok", "mark_issued", "mark_asked_for", "mark_status_True", "mark_status_False", "mark_listed",
                   "failed_under_fault", "refused_alike")
ASSUMPTIONS = fedscn.ASSUMPTIONS
gen = concscn.gen
run = concscn.run
simplify = concscn.simplify
