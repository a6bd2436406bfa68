"""Stand-in for the module ``idpyoidc.key_import``.

/repo imports it everywhere, but the idpyoidc release installed in this sandbox does not ship it
(it is part of a later idpyoidc release).  Without it almost none of fedservice can be imported.
The functions below are the small, stateless helpers that release documents; they only call
cryptojwt's public KeyJar/KeyBundle interface.  Nothing of /repo is replaced.
"""
import json
import sys
import types


def install():
    try:
        import idpyoidc.key_import  # noqa: F401  (a release that has it wins)
        return False
    except ImportError:
        pass
    from cryptojwt.key_bundle import KeyBundle
    from cryptojwt.key_jar import KeyJar

    def issuer_keys(keyjar, entity_id, format="raw"):
        kj = KeyJar()
        for kb in keyjar[entity_id] or []:
            kj.add_kb(entity_id, kb)
        return kj

    def import_jwks(keyjar, jwks, entity_id=""):
        keyjar = keyjar if keyjar is not None else KeyJar()
        keys = jwks["keys"]
        if isinstance(keys, str):
            keys = json.loads(keys)
        new = KeyBundle(keys, httpc_params=keyjar.httpc_params)
        have = keyjar.get_issuer_keys(entity_id) if entity_id in keyjar.owners() else []
        fresh = [k for k in new.keys() if k not in have]
        if not have or fresh:
            if have:
                new.set(fresh)
            keyjar.add_kb(entity_id, new)
        return keyjar

    def import_jwks_as_json(keyjar, jwks, entity_id=""):
        return import_jwks(keyjar, json.loads(jwks), entity_id)

    def import_jwks_from_file(keyjar, filename, entity_id=""):
        with open(filename) as fp:
            return import_jwks_as_json(keyjar, fp.read(), entity_id)

    def add_kb(keyjar, issuer, kb):
        keyjar.add_kb(issuer, kb)
        return keyjar

    mod = types.ModuleType("idpyoidc.key_import")
    for fn in (issuer_keys, import_jwks, import_jwks_as_json, import_jwks_from_file, add_kb):
        setattr(mod, fn.__name__, fn)
    sys.modules["idpyoidc.key_import"] = mod
    import idpyoidc
    idpyoidc.key_import = mod
    return True
