"""C09: a trust mark is accepted only when its issuer, owner and status vouch for it."""
from sim import markscn

PROP = "C09"
QUICK_RUNS = 1800
RULE = "one evaluation = one verdict about a trust mark judged against everything authorities, owners and issuers said; distinct by run trace"
REAL = ["FederationEntity.verify_trust_mark", "TrustMarkVerifier", "TrustChainCollector", "Verifier", "PolicyApplier", "TrustMarkStatus client",
        "TrustMarkEntity and its status endpoint (when the issuer is real)", "trust anchors (when real)", "idpyoidc", "cryptojwt", "requests"]
STUB = ["network below requests' HTTPAdapter (sim/net.py)", "HTTP front end (sim/fed.py)", "peers: hostile issuer, owner, some anchors and issuers",
        "clock, randomness, RSA key generation (sim/env.py)"]
REQUIRED_PROBES = ("accepted", "accepted_api", "accepted_verifier", "accepted_verifier-check", "accepted_delegated", "refused", "good_standing",
                   "settled", "audit", "revoked", "revoked_other_remains", "impostor", "mint_own", "refused_expired", "refused_wrong_key", "refused_old_key",
                   "refused_evil_key", "refused_not_recorded", "refused_deleg_other_sub", "refused_deleg_wrong_key", "refused_deleg_expired", "refused_deleg_other_owner")
ASSUMPTIONS = ["status answers arrive as sent or not at all (they are not signed; TLS protects them)", "trust anchors and owners do not change names",
               "nobody factors RSA keys"]
gen = markscn.gen
run = markscn.run
simplify = markscn.simplify
