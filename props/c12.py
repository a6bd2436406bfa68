"""C12: entities in one process do not influence one another."""
from sim import fedscn, isoscn

PROP = "C12"
QUICK_RUNS = 2500
RULE = ("one evaluation = one operation of one entity in a process with others compared with the same operation of the same entity alone in "
        "a process, or one configuration compared with what was handed in; distinct by run trace")
REAL = fedscn.REAL + ["fedservice.appserver", "fedservice.appclient", "fedservice.trust_mark_entity", "fedservice.combo"]
STUB = fedscn.STUB
OPS = ("again anchor ask authorize authz chains create delta ec edit_policy edit_sub fetch hint issue list mark_given marked own pref priority "
       "register request resolve state status stored tick took").split()
REQUIRED_PROBES = tuple("op_" + o for o in OPS) + tuple("guise_" + g for g in sorted(set(isoscn.GUISES))) + ("shared_objects", "group", "preempted")
ASSUMPTIONS = fedscn.ASSUMPTIONS
gen = isoscn.gen
run = isoscn.run
simplify = isoscn.simplify
