"""Executable reference for OpenID Federation trust chains.  Independent of fedservice's code."""
import copy
import json

from . import jose


# ------------------------------------------------------------------------------------------------
# trust chain validity
# ------------------------------------------------------------------------------------------------
def chain_faults(chain, anchors, target, own=None, now=None):
    """Why ``chain`` (compact JWS list, trust anchor's statement first, target's own last) does not
    prove ``target`` under one of ``anchors`` ({id: jwks configured}).  [] when it does."""
    out = []
    if not isinstance(chain, (list, tuple)) or not chain:
        return ["no chain"]
    parsed = []
    for i, s in enumerate(chain):
        p = jose.parse(s) if isinstance(s, str) else None
        if p is None:
            return [f"statement {i} is not a signed statement"]
        parsed.append(p)
    pl = [p[1] for p in parsed]
    first = pl[0]
    trusted = dict(anchors)
    if own:
        trusted.update(own)
    if first.get("iss") not in trusted:
        out.append(f"anchor {first.get('iss')} is not a configured trust anchor")
        keys = None
    else:
        keys = trusted[first["iss"]]
    prev_sub = first.get("iss")
    for i, (s, p) in enumerate(zip(chain, pl)):
        if p.get("iss") != prev_sub:
            out.append(f"statement {i} issued by {p.get('iss')}, expected {prev_sub}")
        if keys is not None and not jose.verify(s, keys):
            out.append(f"statement {i} by {p.get('iss')} about {p.get('sub')}: signature not by a key "
                       f"vouched for by its superior")
        alg = parsed[i][0].get("alg")
        if alg in (None, "none") or str(alg).startswith("HS"):
            out.append(f"statement {i}: alg {alg}")
        keys = p.get("jwks")
        if not isinstance(keys, dict):
            keys = {"keys": []}
        prev_sub = p.get("sub")
        if now is not None and isinstance(p.get("exp"), (int, float)) and p["exp"] < now:
            out.append(f"statement {i} by {p.get('iss')} about {p.get('sub')} expired {int(now - p['exp'])} s ago")
    last = pl[-1]
    if last.get("sub") != target:
        out.append(f"chain is about {last.get('sub')}, not about {target}")
    if last.get("iss") != last.get("sub"):
        out.append("last statement is not the subject's own")
    elif not jose.verify(chain[-1], last.get("jwks")):
        out.append("entity configuration not signed with a key of its own")
    return out


def trust_chain_faults(tc, anchors, target, own=None):
    """Consistency of the TrustChain object with its chain + validity of the chain."""
    out = chain_faults(tc.chain, anchors, target, own)
    if out and out[0] == "no chain":
        return out
    pl = [jose.parse(s)[1] for s in tc.chain]
    vc = [plain(x) for x in (tc.verified_chain or [])]
    if len(vc) != len(pl):
        out.append(f"verified_chain has {len(vc)} statements, chain {len(pl)}")
    else:
        for i, (a, b) in enumerate(zip(vc, pl)):
            for k in ("iss", "sub", "exp"):
                if plain(a.get(k)) != b.get(k):
                    out.append(f"verified_chain[{i}].{k} differs from the signed statement")
            if keyset(a.get("jwks")) != keyset(b.get("jwks")):
                out.append(f"verified_chain[{i}].jwks differs from the signed statement")
    if tc.anchor != pl[0].get("iss"):
        out.append(f"anchor attribute {tc.anchor} != {pl[0].get('iss')}")
    if list(tc.iss_path) != [p.get("iss") for p in reversed(pl)]:
        out.append("iss_path does not name the issuers")
    return out


def keyset(jwks):
    ks = plain(jwks)
    ks = ks.get("keys") if isinstance(ks, dict) else None
    return sorted((k.get("kty", ""), k.get("n", ""), k.get("e", ""), k.get("x", "")) for k in ks or [])


def plain(x):
    if hasattr(x, "to_dict") and not isinstance(x, dict):
        x = x.to_dict()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def chain_exp(chain):
    return min(jose.parse(s)[1]["exp"] for s in chain)


def canon(x):
    """Lists compare as sets (policies make no promise about order)."""
    x = plain(x)
    if isinstance(x, dict):
        return {k: canon(v) for k, v in sorted(x.items())}
    if isinstance(x, list):
        return sorted((canon(v) for v in x), key=lambda v: json.dumps(v, sort_keys=True, default=str))
    return x


def ckey(x):
    return json.dumps(canon(x), sort_keys=True, default=str)


# ------------------------------------------------------------------------------------------------
# constraints
# ------------------------------------------------------------------------------------------------
def split_id(url):
    """(labels of the host reversed, path)"""
    rest = url.split("://", 1)[1] if "://" in url else url
    host, _, path = rest.partition("/")
    return host, path


def name_matches(subject, constraint):
    """A naming constraint names a host, or - with a leading dot - everything below a domain."""
    sh, _ = split_id(subject)
    ch, _ = split_id(constraint)
    if ch.startswith("."):
        return sh.endswith(ch) and len(sh) > len(ch)
    return sh == ch or sh.endswith("." + ch)


def constraint_faults(payloads):
    """payloads: TA's statement first, entity configuration last."""
    out = []
    for i, st in enumerate(payloads[:-1]):
        c = st.get("constraints")
        if not isinstance(c, dict):
            continue
        if "max_path_length" in c:
            # intermediates between the issuer of this statement and the subject of the chain
            inter = len(payloads) - 2 - i
            if inter > c["max_path_length"]:
                out.append(f"{st['iss']} allows {c['max_path_length']} intermediates, there are {inter}")
        nc = c.get("naming_constraints") or {}
        subs = [p["sub"] for p in payloads[i:-1]]
        for sub in subs:
            if nc.get("permitted") and not any(name_matches(sub, n) for n in nc["permitted"]):
                out.append(f"{st['iss']} does not permit {sub}")
            if nc.get("excluded") and any(name_matches(sub, n) for n in nc["excluded"]):
                out.append(f"{st['iss']} excludes {sub}")
    return out


# ------------------------------------------------------------------------------------------------
# metadata policy
# ------------------------------------------------------------------------------------------------
class PolicyConflict(Exception):
    pass


def as_list(v):
    return list(v) if isinstance(v, (list, tuple, set)) else [v]


KNOWN_OPS = ("value", "add", "default", "one_of", "subset_of", "superset_of", "essential")


def combine_claim(sup, sub):
    sup = {k: v for k, v in sup.items() if k in KNOWN_OPS}
    sub = {k: v for k, v in sub.items() if k in KNOWN_OPS}
    out = dict(sup)
    for op, v in sub.items():
        if op not in sup:
            out[op] = v
            continue
        if op in ("value", "default"):
            if canon(sup[op]) != canon(v):
                raise PolicyConflict(op)
        elif op == "essential":
            out[op] = bool(sup[op] or v)
        elif op == "add":
            out[op] = as_list(sup[op]) + [x for x in as_list(v) if x not in as_list(sup[op])]
        elif op in ("subset_of", "one_of"):
            out[op] = [x for x in as_list(sup[op]) if x in as_list(v)]
            if not out[op]:
                raise PolicyConflict(op)
        elif op == "superset_of":
            out[op] = as_list(sup[op]) + [x for x in as_list(v) if x not in as_list(sup[op])]
    return out


def policy_violations(policy, md):
    """What in ``md`` breaks ``policy`` (one superior's own policy for one entity type).  'default' and
    'add' shape the metadata; the rest restrict it."""
    out = []
    for claim, rule in policy.items():
        have = claim in md
        v = md.get(claim)
        if "value" in rule and (not have or canon(v) != canon(rule["value"])):
            out.append((claim, "value"))
        if rule.get("essential") is True and not have:
            out.append((claim, "essential"))
        if have:
            vals = as_list(v)
            if "subset_of" in rule and not all(x in as_list(rule["subset_of"]) for x in vals):
                out.append((claim, "subset_of"))
            if "superset_of" in rule and not all(x in vals for x in as_list(rule["superset_of"])):
                out.append((claim, "superset_of"))
            if "one_of" in rule and v not in as_list(rule["one_of"]):
                out.append((claim, "one_of"))
    return out
