"""C08: a trust mark issuer remembers every mark it issued, also across crashes."""
from sim import tmscn

PROP = "C08"
QUICK_RUNS = 4500
RULE = ("one evaluation = one answer of the status service or one listing compared with the history of issuing; distinct by run trace")
REAL = ["TrustMarkEntity", "FileDB", "SimpleDB", "endpoints trust_mark, trust_mark_status, trust_mark_list", "cryptojwt", "Python's io stack"]
STUB = ["disk below io.RawIOBase (sim/disk.py)", "HTTP front end (sim/fed.py)", "clock, randomness, RSA key generation (sim/env.py)"]
REQUIRED_PROBES = ("issued", "issue_failed", "crashed", "power", "restarted", "status_active", "status_not", "status_jwt", "forged",
                   "listed_some", "listed_none", "migrated", "audit", "issued_despite_fault")
ASSUMPTIONS = ["one process at a time uses the files", "what fsync reported as written survives a power failure"]
gen = tmscn.gen
run = tmscn.run
simplify = tmscn.simplify
