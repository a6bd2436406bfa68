"""One-off: generate the RSA key pool (committed, so that runs are exactly repeatable)."""
import json
from cryptography.hazmat.primitives.asymmetric import rsa
out = []
for _ in range(48):
    n = rsa.generate_private_key(public_exponent=65537, key_size=2048).private_numbers()
    out.append({"n": hex(n.public_numbers.n), "e": hex(n.public_numbers.e), "d": hex(n.d), "p": hex(n.p),
                "q": hex(n.q), "dmp1": hex(n.dmp1), "dmq1": hex(n.dmq1), "iqmp": hex(n.iqmp)})
json.dump(out, open("data/rsa_pool.json", "w"), indent=0)
