"""C14: state that is written out and read back is the same state."""
from sim import fedscn, persscn

PROP = "C14"
QUICK_RUNS = 4000
RULE = ("one evaluation = one operation after a crash and restart with exported state compared with the same operation where there was none, "
        "or one export compared with a second one; distinct by run trace")
REAL = fedscn.REAL + ["fedservice.trust_mark_entity"]
STUB = fedscn.STUB
REQUIRED_PROBES = tuple("after_" + o for o in ("again_verify anchor ask chains delta ec edit_policy edit_sub fetch hint issue keep kept list mark_given marked "
                                               "own pref priority resolve state status status_of stored tick use_kept").split()) + tuple(
    "good_" + o for o in "again_verify ask chains ec fetch issue keep kept list marked resolve state status status_of stored use_kept".split()) + (
    "guise_builder", "guise_entity", "guise_tmi", "marks_files", "marks_memory", "marks_moved", "persist_elsewhere", "persist_restart", "persist_twice",
    "preempted", "restored", "written_while_working")
ASSUMPTIONS = fedscn.ASSUMPTIONS
gen = persscn.gen
run = persscn.run
simplify = persscn.simplify
