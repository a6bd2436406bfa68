"""Independent JOSE code: used by the oracle and by scripted / hostile peers.  No cryptojwt in here."""
import base64
import functools
import hashlib
import hmac
import json

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, padding, rsa
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature

from . import env


def b64e(data: bytes) -> str:
    return base64.urlsafe_b64encode(data).rstrip(b"=").decode()


def b64d(txt: str) -> bytes:
    return base64.urlsafe_b64decode(txt + "=" * (-len(txt) % 4))


def i2b(i: int) -> bytes:
    return i.to_bytes((i.bit_length() + 7) // 8, "big")


def b2i(s: str) -> int:
    return int.from_bytes(b64d(s), "big")


@functools.lru_cache(maxsize=None)
def _pub(i):
    n = env.pool_key(i).public_key().public_numbers()
    jwk = {"e": b64e(i2b(n.e)), "kty": "RSA", "n": b64e(i2b(n.n))}
    kid = b64e(hashlib.sha256(json.dumps(jwk, separators=(",", ":"), sort_keys=True).encode()).digest())
    return dict(jwk, use="sig", kid=kid)


def public_jwk(i, kid=None):
    """Public JWK of pool key i."""
    j = dict(_pub(i))
    if kid is not None:
        j["kid"] = kid
    return j


def jwks(*idx):
    return {"keys": [public_jwk(i) for i in idx]}


def key_config(*idx):
    """cryptojwt key_defs-free configuration: private JWKS for an entity owning pool keys idx."""
    out = []
    for i in idx:
        n = env.pool_key(i).private_numbers()
        d = public_jwk(i)
        d.update({"d": b64e(i2b(n.d)), "p": b64e(i2b(n.p)), "q": b64e(i2b(n.q))})
        out.append(d)
    return {"keys": out}


_sig_cache = {}


def sign(payload, idx, headers=None, alg="RS256", kid=None):
    hdr = {"alg": alg, "kid": kid if kid is not None else _pub(idx)["kid"]}
    if headers:
        hdr.update(headers)
    si = b64e(json.dumps(hdr, sort_keys=True).encode()) + "." + b64e(
        json.dumps(payload, sort_keys=True).encode())
    ck = (si, idx)
    if ck in _sig_cache:
        return _sig_cache[ck]
    if alg == "none":
        out = si + "."
    elif alg == "HS256":
        # the classic confusion: HMAC keyed with the public key
        n = env.pool_key(idx).public_key().public_numbers()
        out = si + "." + b64e(hmac.new(i2b(n.n), si.encode(), hashlib.sha256).digest())
    else:
        out = si + "." + b64e(env.pool_key(idx).sign(si.encode(), padding.PKCS1v15(), hashes.SHA256()))
    if len(_sig_cache) > 20000:
        _sig_cache.clear()
    _sig_cache[ck] = out
    return out


def parse(jws):
    """(header, payload) or None when it is not a compact JWS with a JSON object as payload."""
    try:
        h, p, _s = jws.split(".")
        header, payload = json.loads(b64d(h)), json.loads(b64d(p))
        if isinstance(header, dict) and isinstance(payload, dict):
            return header, payload
    except Exception:
        pass
    return None


_RS = {"RS256": hashes.SHA256, "RS384": hashes.SHA384, "RS512": hashes.SHA512}
_ES = {"ES256": hashes.SHA256, "ES384": hashes.SHA384, "ES512": hashes.SHA512}
_CRV = {"P-256": ec.SECP256R1, "P-384": ec.SECP384R1, "P-521": ec.SECP521R1}
_ver_cache = {}


def _verify1(jws, key):
    try:
        h, p, s = jws.split(".")
        header = json.loads(b64d(h))
        sig = b64d(s)
        alg = header.get("alg")
        data = f"{h}.{p}".encode()
        if key.get("use") not in (None, "sig"):
            return False
        if header.get("kid") is not None and key.get("kid") is not None and header["kid"] != key["kid"]:
            return False
        if alg in _RS and key.get("kty") == "RSA":
            pk = rsa.RSAPublicNumbers(b2i(key["e"]), b2i(key["n"])).public_key()
            pk.verify(sig, data, padding.PKCS1v15(), _RS[alg]())
            return True
        if alg in _ES and key.get("kty") == "EC":
            crv = _CRV[key["crv"]]
            pk = ec.EllipticCurvePublicNumbers(b2i(key["x"]), b2i(key["y"]), crv()).public_key()
            half = len(sig) // 2
            der = encode_dss_signature(int.from_bytes(sig[:half], "big"), int.from_bytes(sig[half:], "big"))
            pk.verify(der, data, ec.ECDSA(_ES[alg]()))
            return True
    except (InvalidSignature, ValueError, KeyError, TypeError):
        return False
    return False


def verify(jws, keyset):
    """Is ``jws`` signed with one of the keys in the JWKS ``keyset``?"""
    ck = (jws, json.dumps(keyset, sort_keys=True))
    if ck in _ver_cache:
        return _ver_cache[ck]
    res = False
    try:
        keys = keyset["keys"]
    except (KeyError, TypeError):
        keys = []
    for k in keys:
        if isinstance(k, dict) and _verify1(jws, k):
            res = True
            break
    if len(_ver_cache) > 20000:
        _ver_cache.clear()
    _ver_cache[ck] = res
    return res
