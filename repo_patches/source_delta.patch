From de5fa6f22f5a551643a771c88549b387db5160c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 01/47] fix: entities must not share trust anchors or service,
 endpoint and function arguments

---
 src/fedservice/build_entity.py                | 30 +++++++++++++++----
 .../entity/function/trust_chain_collector.py  |  3 +-
 src/fedservice/utils.py                       |  6 ++++
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/fedservice/build_entity.py b/src/fedservice/build_entity.py
index d7b9922..992fd77 100644
--- a/src/fedservice/build_entity.py
+++ b/src/fedservice/build_entity.py
@@ -12,6 +12,21 @@ KEYDEFS = [
 ]
 
 
+def copy_items(items: dict) -> dict:
+    """
+    Copies the specification of a set of services, endpoints or functions such that an entity can
+    modify the arguments without that being visible in other entities.
+    """
+    res = {}
+    for name, spec in items.items():
+        res[name] = spec.copy()
+        if spec.get("kwargs"):
+            res[name]["kwargs"] = spec["kwargs"].copy()
+        elif "kwargs" in spec:
+            res[name]["kwargs"] = {}
+    return res
+
+
 class FederationEntityBuilder():
 
     def __init__(self,
@@ -36,9 +51,10 @@ class FederationEntityBuilder():
 
         kwargs = {}
         if services:
-            kwargs['services'] = services
+            _items = services
         else:
-            kwargs['services'] = FEDERATION_ENTITY_SERVICES
+            _items = FEDERATION_ENTITY_SERVICES
+        kwargs['services'] = copy_items(_items)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
@@ -66,9 +82,10 @@ class FederationEntityBuilder():
         # endpoints are accessible to services. Accepts requests and returns responses.
         kwargs = {}
         if endpoints:
-            kwargs['endpoint'] = endpoints
+            _items = endpoints
         else:
-            kwargs['endpoint'] = federation_endpoints("entity_configuration", "fetch", "list")
+            _items = federation_endpoints("entity_configuration", "fetch", "list")
+        kwargs['endpoint'] = copy_items(_items)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
@@ -97,9 +114,10 @@ class FederationEntityBuilder():
         # available services.
         kwargs = {}
         if functions:
-            kwargs['functions'] = functions
+            _items = functions
         else:
-            kwargs['functions'] = DEFAULT_FEDERATION_ENTITY_FUNCTIONS
+            _items = DEFAULT_FEDERATION_ENTITY_FUNCTIONS
+        kwargs['functions'] = copy_items(_items)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 6f3a9ab..cb8b94f 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -75,7 +75,8 @@ class TrustChainCollector(Function):
                  **kwargs
                  ):
         Function.__init__(self, upstream_get)
-        self.trust_anchors = trust_anchors
+        # A copy, the dictionary may be shared with other entities
+        self.trust_anchors = dict(trust_anchors)
         self.allowed_delta = allowed_delta
         self.config_cache = ESCache(allowed_delta=allowed_delta)
         self.entity_statement_cache = ESCache(allowed_delta=allowed_delta)
diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 7e27057..49bf178 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -138,6 +138,9 @@ def make_federation_entity(entity_id: str,
     if trust_anchors:
         if "class" in trust_anchors and "kwargs" in trust_anchors:
             trust_anchors = execute(trust_anchors)
+        else:
+            # What is added later should not show up in the caller's dictionary
+            trust_anchors = dict(trust_anchors)
 
         for id, jwk in trust_anchors.items():
             fe.keyjar = import_jwks(fe.keyjar, jwk, id)
@@ -230,6 +233,9 @@ def make_federation_combo(entity_id: str,
     if trust_anchors:
         if "class" in trust_anchors and "kwargs" in trust_anchors:
             trust_anchors = execute(trust_anchors)
+        else:
+            # What is added later should not show up in the caller's dictionary
+            trust_anchors = dict(trust_anchors)
 
         for id, jwk in trust_anchors.items():
             federation_entity.keyjar = import_jwks(federation_entity.keyjar, jwk, id)
-- 
2.43.0


From fc82b57d342d55c3620ea6af7d2a7d6b51105ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 02/47] fix: verify a trust chain only with the anchor's
 configured keys and the keys vouched for in the chain

---
 src/fedservice/entity/function/verifier.py | 163 ++++++++++++++-------
 1 file changed, 107 insertions(+), 56 deletions(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 6f698d0..3f90e48 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -1,10 +1,14 @@
 import logging
 from typing import Callable
 from typing import List
+from typing import Optional
 
 from cryptojwt import KeyBundle
+from cryptojwt import KeyJar
 from cryptojwt.exception import MissingKey
 from cryptojwt.jws.jws import factory
+from cryptojwt.jwt import utc_time_sans_frac
+from idpyoidc.key_import import import_jwks
 
 from fedservice.entity.function import Function
 from fedservice.entity.utils import get_federation_entity
@@ -20,26 +24,98 @@ class TrustChainVerifier(Function):
     def __init__(self, upstream_get: Callable):
         Function.__init__(self, upstream_get)
 
-    def trusted_anchor(self, entity_statement):
-        _jwt = factory(entity_statement)
-        payload = _jwt.jwt.payload()
+    def trust_anchor_keys(self, trust_anchor: str) -> Optional[dict]:
+        """
+        The keys I'm configured with for a trust anchor.
+
+        :param trust_anchor: The entity ID of the trust anchor
+        :return: A JWKS or None if this is not someone I trust as trust anchor.
+        """
         _federation_entity = get_federation_entity(self)
         if _federation_entity:
-            if payload['iss'] not in _federation_entity.keyjar:
-                logger.warning(
-                    f"Trust chain ending in a trust anchor I do not know: {payload['iss']}", )
-                return False
+            _trust_anchors = _federation_entity.trust_anchors
+            if trust_anchor in _trust_anchors:
+                return _trust_anchors[trust_anchor]
+            # An entity without superiors is its own trust anchor
+            if (trust_anchor != _federation_entity.entity_id
+                    or _federation_entity.get_authority_hints()):
+                return None
+            _owners_keyjar = _federation_entity.keyjar
         else:
-            _keyjar = self.upstream_get("attribute", "keyjar")
-            if not _keyjar:
-                return False
-            elif payload['iss'] not in _keyjar:
-                logger.warning(
-                    f"Trust chain ending in a trust anchor I do not know: {payload['iss']}", )
-                return False
+            _owners_keyjar = self.upstream_get("attribute", "keyjar")
+
+        if not _owners_keyjar or trust_anchor not in _owners_keyjar:
+            return None
+        return _owners_keyjar.export_jwks(issuer_id=trust_anchor)
+
+    def trusted_anchor(self, entity_statement):
+        _jwt = factory(entity_statement)
+        if not _jwt:
+            return False
+        _iss = _jwt.jwt.payload().get('iss')
+        if not _iss or not self.trust_anchor_keys(_iss):
+            logger.warning(f"Trust chain ending in a trust anchor I do not know: {_iss}", )
+            return False
 
         return True
 
+    def verify_entity_statement(self, entity_statement: str, issuer: str, jwks: dict) -> dict:
+        """
+        Verifies one statement in a trust chain.
+
+        :param entity_statement: A signed entity statement
+        :param issuer: Who must have issued it
+        :param jwks: The keys the issuer's superior states that the issuer has.
+        :return: The verified entity statement
+        """
+        _jwt = factory(entity_statement)
+        if not _jwt:
+            raise ValueError('Not a signed entity statement')
+        logger.debug(f"JWS header: {_jwt.jwt.headers}", )
+        logger.debug(f"JWS payload: {_jwt.jwt.payload()}")
+
+        if _jwt.jwt.payload().get('iss') != issuer:
+            raise ValueError(f'Entity statement not issued by {issuer}')
+
+        # Only the keys vouched for in this trust chain counts
+        _keyjar = import_jwks(KeyJar(), jwks, issuer)
+        keys = _keyjar.get_jwt_verify_keys(_jwt.jwt)
+        if keys == []:
+            raise MissingKey(f'No keys matching: {_jwt.jwt.headers}')
+
+        _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in keys]
+        logger.debug("Possible verification keys: %s", _key_spec)
+        res = _jwt.verify_compact(keys=keys)
+        logger.debug("Verified entity statement: %s", res)
+
+        if res['exp'] < utc_time_sans_frac():
+            raise ValueError('Entity statement has expired')
+        return res
+
+    def store_keys(self, entity_statement: dict):
+        """
+        Add the keys in a verified entity statement to the federation key jar.
+        """
+        if 'jwks' not in entity_statement:
+            return
+
+        _keyjar = self.upstream_get("attribute", "keyjar")
+        _sub = entity_statement['sub']
+        _kb = KeyBundle(keys=entity_statement['jwks']['keys'])
+        try:
+            old = _keyjar.get_issuer_keys(_sub)
+        except KeyError:
+            _keyjar.add_kb(_sub, _kb)
+        else:
+            new = [k for k in _kb if k not in old]
+            if new:
+                _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in new]
+                logger.debug(
+                    "New keys added to the federation key jar for '{}': {}".format(_sub, _key_spec))
+                # Only add keys to the KeyJar if they are not already there.
+                _kb.set(new)
+                _keyjar.add_kb(_sub, _kb)
+
     def verify_trust_chain(self, entity_statement_list):
         """
         Verifies the trust chain. Works its way down from the Trust Anchor to the leaf.
@@ -50,54 +126,29 @@ class TrustChainVerifier(Function):
         ves = []
 
         logger.debug("verify_trust_chain")
-        if not self.trusted_anchor(entity_statement_list[0]):
+        if not entity_statement_list or not self.trusted_anchor(entity_statement_list[0]):
             # Trust chain ending in a trust anchor I don't know.
             logger.debug("Unknown trust anchor")
             return ves
 
         n = len(entity_statement_list) - 1
-        _keyjar = self.upstream_get("attribute", "keyjar")
+        _issuer = factory(entity_statement_list[0]).jwt.payload()['iss']
+        _jwks = self.trust_anchor_keys(_issuer)
         for entity_statement in entity_statement_list:
-            _jwt = factory(entity_statement)
-            if _jwt:
-                logger.debug(f"JWS header: {_jwt.jwt.headers}", )
-                logger.debug(f"JWS payload: {_jwt.jwt.payload()}")
-                keys = _keyjar.get_jwt_verify_keys(_jwt.jwt)
-                if keys == []:
-                    logger.error(f'No keys matching: {_jwt.jwt.headers}')
-                    logger.debug(f"keyjar contains: {_keyjar}")
-                    raise MissingKey(f'No keys matching: {_jwt.jwt.headers}')
-
-                _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in keys]
-                logger.debug("Possible verification keys: %s", _key_spec)
-                res = _jwt.verify_compact(keys=keys)
-                logger.debug("Verified entity statement: %s", res)
-                try:
-                    _jwks = res['jwks']
-                except KeyError:
-                    if len(ves) != n:
-                        raise ValueError('Missing signing JWKS')
-                else:
-                    _kb = KeyBundle(keys=_jwks['keys'])
-                    try:
-                        old = _keyjar.get_issuer_keys(res['sub'])
-                    except KeyError:
-                        _keyjar.add_kb(res['sub'], _kb)
-                    else:
-                        new = [k for k in _kb if k not in old]
-                        if new:
-                            _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in new]
-                            logger.debug(
-                                "New keys added to the federation key jar for '{}': {}".format(
-                                    res['sub'], _key_spec)
-                            )
-                            # Only add keys to the KeyJar if they are not already there.
-                            _kb.set(new)
-                            _keyjar.add_kb(res['sub'], _kb)
-
-                ves.append(res)
-
-        if ves and meets_restrictions(ves):
+            try:
+                res = self.verify_entity_statement(entity_statement, _issuer, _jwks)
+                _issuer = res['sub']
+                # Every statement, possibly not the last one, must say which keys the subject has
+                _jwks = res.get('jwks') if len(ves) == n else res['jwks']
+            except Exception as err:
+                logger.warning(f"Trust chain verification failed: {err}")
+                return []
+
+            ves.append(res)
+
+        if meets_restrictions(ves):
+            for res in ves:
+                self.store_keys(res)
             return ves
         else:
             return []
-- 
2.43.0


From 741ab6b063943d8bb5fd91be96b688318b56ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:23 +0000
Subject: [PATCH 03/47] fix: constraints of every superior apply to everything
 below it

---
 src/fedservice/entity/function/verifier.py    | 16 ++++--
 .../entity_statement/constraints.py           | 56 ++++++++-----------
 2 files changed, 35 insertions(+), 37 deletions(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 3f90e48..afd6c9b 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -146,13 +146,19 @@ class TrustChainVerifier(Function):
 
             ves.append(res)
 
-        if meets_restrictions(ves):
-            for res in ves:
-                self.store_keys(res)
-            return ves
-        else:
+        try:
+            _accepted = meets_restrictions(ves)
+        except Exception as err:
+            logger.warning(f"Could not evaluate the constraints: {err}")
+            _accepted = False
+
+        if not _accepted:
             return []
 
+        for res in ves:
+            self.store_keys(res)
+        return ves
+
     def trust_chain_expires_at(self, trust_chain):
         exp = -1
         for entity_statement in trust_chain:
diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 289c34c..a501163 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -36,9 +36,15 @@ def remove_scheme(url):
         raise ValueError('Wrong scheme: %s', url)
 
 
+def host_name(url):
+    """The host name, without scheme, user, port and path, in lower case."""
+    _rest = remove_scheme(url).split('/', 1)[0].split('?', 1)[0].split('#', 1)[0]
+    return _rest.rsplit('@', 1)[-1].split(':', 1)[0].lower()
+
+
 def more_specific(a, b):
-    a_part = remove_scheme(a).split('.')
-    b_part = remove_scheme(b).split('.')
+    a_part = host_name(a).split('.')
+    b_part = host_name(b).split('.')
     if len(a_part) >= len(b_part):
         a_part.reverse()
         b_part.reverse()
@@ -130,45 +136,31 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
 
     current_max_path_length = 0
     max_assigned = False
-    naming_constraints = {
-        "permitted": None,
-        "excluded": None
-    }
-
-    for statement in trust_chain[:-1]:  # All but the last
-        try:
-            _constraints = statement['constraints']
-        except KeyError:
-            continue
 
+    for index, statement in enumerate(trust_chain[:-1]):  # All but the last
+        _constraints = statement.get('constraints') or {}
+
+        # Every statement below one that limits the path length is another step on the path
         current_max_path_length = calculate_path_length(_constraints, current_max_path_length,
                                                         max_assigned)
+        if 'max_path_length' in _constraints:
+            max_assigned = True
 
         if current_max_path_length < 0:
             return False
 
-        naming_constraints = update_naming_constraints(_constraints, naming_constraints)
-
-        # if explicitly excluded return False
-        if 'excluded' in naming_constraints and naming_constraints['excluded']:
-            if excluded(statement['sub'], naming_constraints['excluded']):
+        # Naming constraints must hold for all that are subordinate to the issuer.
+        # A subordinate's constraints comes in addition to those of its superiors.
+        _naming_constraints = _constraints.get('naming_constraints') or {}
+        _excluded = _naming_constraints.get('excluded')
+        _permitted = _naming_constraints.get('permitted')
+        for subordinate in trust_chain[index:]:
+            # if explicitly excluded return False
+            if _excluded and excluded(subordinate['sub'], _excluded):
                 return False
 
-        # If there is a list of permitted it must be in there
-        if 'permitted' in naming_constraints and naming_constraints['permitted']:
-            if not permitted(statement['sub'], naming_constraints["permitted"]):
+            # If there is a list of permitted it must be in there
+            if _permitted and not permitted(subordinate['sub'], _permitted):
                 return False
 
-    # Now check the leaf entity
-    statement = trust_chain[-1]
-    # if explicitly excluded return False
-    if 'excluded' in naming_constraints and naming_constraints['excluded']:
-        if excluded(statement['sub'], naming_constraints['excluded']):
-            return False
-
-    # If there is a list of permitted it must be in there
-    if 'permitted' in naming_constraints and naming_constraints['permitted']:
-        if not permitted(statement['sub'], naming_constraints["permitted"]):
-            return False
-
     return True
-- 
2.43.0


From e673fd2e5dac21a265dc28bb25b796a90c842d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:05 +0000
Subject: [PATCH 04/47] fix: metadata policies: single values, list values,
 conflicting values and one bad chain

---
 src/fedservice/entity/function/__init__.py    |  7 ++++-
 src/fedservice/entity/function/policy.py      | 28 +++++++++++++------
 .../entity/function/policy_operator.py        | 20 ++++++-------
 3 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index b5c9bf7..e232382 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -133,7 +133,12 @@ def apply_policies(unit, trust_chains):
 
     res = []
     for trust_chain in trust_chains:
-        _policy_applier(trust_chain)
+        try:
+            _policy_applier(trust_chain)
+        except Exception as err:
+            # There may be other trust chains that are OK
+            logger.warning(f"Metadata policies could not be applied: {err}")
+            continue
         res.append(trust_chain)
     return res
 
diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 34b7d21..b30fd1c 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 from typing import Optional
 
@@ -109,6 +110,20 @@ DO_POLICY = {
 }
 
 
+def check_value(rule):
+    """
+    A value must be one that the other rules allow.
+    """
+    _value = rule["value"]
+    _values = set(_value) if isinstance(_value, list) else {_value}
+    if "one_of" in rule and _value not in rule["one_of"]:
+        raise PolicyError("value not one of one_of")
+    if "subset_of" in rule and _values.difference(rule["subset_of"]):
+        raise PolicyError("value not a subset of subset_of")
+    if "superset_of" in rule and set(rule["superset_of"]).difference(_values):
+        raise PolicyError("value not a superset of superset_of")
+
+
 def combine_claim_policy(superior, child):
     """
     Combine policy rules.
@@ -235,7 +250,7 @@ def combine(superior: dict, subordinate: dict) -> dict:
 
         # only if child
         for claim in child_set.difference(super_set):
-            _metadata_policy[claim] = _sub_policy[claim]
+            _metadata_policy[claim] = combine_claim_policy({}, _sub_policy[claim])
 
         superior['metadata_policy'] = _metadata_policy
 
@@ -306,13 +321,7 @@ class TrustChainPolicy(Function):
         """
 
         _rule = {'metadata_policy': {}, 'metadata': {}}
-        for _item in ['metadata_policy', 'metadata']:
-            try:
-                _rule[_item] = chain[0][_item][entity_type]
-            except KeyError:
-                pass
-
-        for es in chain[1:]:
+        for es in chain:
             _sub_policy = {'metadata_policy': {}, 'metadata': {}}
             for _item in ['metadata_policy', 'metadata']:
                 try:
@@ -366,7 +375,8 @@ class TrustChainPolicy(Function):
         else:
             # apply the combined metadata policies on the metadata
             trust_chain.combined_policy[entity_type] = combined_policy
-            _metadata = self.apply_policy(metadata, combined_policy)
+            # The verified statement must remain what it was
+            _metadata = self.apply_policy(copy.deepcopy(metadata), combined_policy)
             logger.debug(f"After applied policy: {_metadata}")
             return _metadata
 
diff --git a/src/fedservice/entity/function/policy_operator.py b/src/fedservice/entity/function/policy_operator.py
index 6580b9d..19e3fbb 100644
--- a/src/fedservice/entity/function/policy_operator.py
+++ b/src/fedservice/entity/function/policy_operator.py
@@ -43,15 +43,12 @@ class OneOf(PolicyOperator):
 
     def __call__(self, claim, metadata, metadata_policy):
         if claim in metadata:
-            if isinstance(metadata[claim], list):  # Should not be
-                return None
+            if metadata[claim] in metadata_policy[claim][self.name]:
+                pass
             else:
-                if metadata[claim] in metadata_policy[claim][self.name]:
-                    pass
-                else:
-                    raise PolicyError(
-                        f"{metadata[claim]} not among {metadata_policy[claim][self.name]}")
-                return self.next
+                raise PolicyError(
+                    f"{metadata[claim]} not among {metadata_policy[claim][self.name]}")
+            return self.next
 
 
 class Add(PolicyOperator):
@@ -82,8 +79,8 @@ class SubsetOf(PolicyOperator):
             if isinstance(metadata[claim], list):
                 _val = set(metadata_policy[claim][self.name]).intersection(set(metadata[claim]))
             else:
-                if metadata[claim] in metadata_policy[claim]:
-                    _val = metadata[claim]
+                if metadata[claim] in metadata_policy[claim][self.name]:
+                    return
                 else:
                     raise PolicyError(f"{metadata[claim]} not in allowed subset: {metadata_policy[claim]}")
 
@@ -99,7 +96,8 @@ class SupersetOf(PolicyOperator):
 
     def __call__(self, claim, metadata, metadata_policy):
         if claim in metadata:
-            if set(metadata_policy[claim][self.name]).difference(set(metadata[claim])):
+            # union deals with single values
+            if set(metadata_policy[claim][self.name]).difference(union(metadata[claim], [])):
                 raise PolicyError(f"{metadata[claim]} not superset of {metadata_policy[claim][self.name]}")
 
 
-- 
2.43.0


From 94e8e7d3f93fed00f6b65105a2a8608099164466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 05/47] fix: trust chain collection: loops, failing superiors,
 expired cache entries and statements that do not verify

---
 src/fedservice/entity/__init__.py             |   5 +-
 .../entity/client/entity_statement.py         |   5 +-
 src/fedservice/entity/function/__init__.py    |   8 +
 .../entity/function/trust_chain_collector.py  | 170 +++++++++++-------
 src/fedservice/entity_statement/cache.py      |  12 +-
 5 files changed, 123 insertions(+), 77 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 1bac7c1..eea4f27 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -314,9 +314,8 @@ class FederationEntity(Unit):
                                       **kwargs)
 
     def trawl(self, superior, subordinate, entity_type):
-        if subordinate in self.function.trust_chain_collector.config_cache:
-            _ec = self.function.trust_chain_collector.config_cache[subordinate]
-        else:
+        _ec = self.function.trust_chain_collector.config_cache[subordinate]
+        if _ec is None:
             _es = self.client.do_request("entity_statement", issuer=superior, subject=subordinate)
 
             # add subjects key/-s to keyjar
diff --git a/src/fedservice/entity/client/entity_statement.py b/src/fedservice/entity/client/entity_statement.py
index aecef8a..0978e81 100644
--- a/src/fedservice/entity/client/entity_statement.py
+++ b/src/fedservice/entity/client/entity_statement.py
@@ -76,9 +76,8 @@ class EntityStatement(FederationService):
         if not fetch_endpoint:
             _federation_entity = get_federation_entity(self)
             _collector = _federation_entity.function.trust_chain_collector
-            if issuer in _collector.config_cache:
-                _ec = _collector.config_cache[issuer]
-            else:
+            _ec = _collector.config_cache[issuer]
+            if _ec is None:
                 logger.debug(f"Entity Configuration for '{issuer}' not cached")
                 _ec = _federation_entity.client.do_request("entity_configuration", entity_id=issuer)
             fetch_endpoint = _ec["metadata"]["federation_entity"][self.endpoint_name]
diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index e232382..ee61168 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -162,6 +162,14 @@ def get_verified_trust_chains(unit, entity_id):
         return []
 
     trust_chains = verify_trust_chains(unit, chains, leaf_ec)
+    if len(trust_chains) < len(chains):
+        # Something that was collected is not what it should be. Don't use that again.
+        _collector = get_federation_entity(unit).function.trust_chain_collector
+        _verified = [tc.chain for tc in trust_chains]
+        for chain in chains:
+            if chain not in _verified:
+                _collector.forget_chain(chain)
+
     trust_chains = apply_policies(unit, trust_chains)
     return trust_chains
 
diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index cb8b94f..1322fa2 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -1,5 +1,4 @@
 import logging
-import time
 from ssl import SSLError
 from typing import Callable
 from typing import List
@@ -15,13 +14,10 @@ from idpyoidc.key_import import import_jwks
 from idpyoidc.message import Message
 from requests.exceptions import ConnectionError
 
-from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import Function
-from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.cache import ESCache
 from fedservice.exception import FailedConfigurationRetrieval
-from fedservice.utils import statement_is_expired
 
 logger = logging.getLogger(__name__)
 
@@ -167,45 +163,52 @@ class TrustChainCollector(Function):
         return self_signed_config
 
     def get_metadata(self, entity_id):
-        _ec = None
-        if entity_id in self.config_cache:
-            _ec = self.config_cache[entity_id]
-            if statement_is_expired(_ec):
-                _ec = None
-
+        _ec = self.config_cache[entity_id]
         if _ec is None:
-            _collection = self.upstream_get('unit')
-            _federation_entity = _collection.upstream_get('unit')
-            _chains, _ = collect_trust_chains(_federation_entity, entity_id)
-            _trust_chains = verify_trust_chains(_federation_entity, _chains)
-            _ec = self.config_cache[entity_id]
+            _ec = self.collect_entity_configuration(entity_id)
 
         return _ec['metadata']
 
-    def get_federation_fetch_endpoint(self, intermediate: str) -> str:
-        logger.debug(f'--get_federation_fetch_endpoint({intermediate})')
-        # In cache ??
+    def collect_entity_configuration(self, entity_id: str) -> Optional[dict]:
+        """
+        Fetches an entity's configuration from the entity itself, verifies that it is a self-signed
+        statement by that entity and stores it in the cache.
+
+        :param entity_id: The entity
+        :return: The verified entity configuration, with the signed statement as '_jws'.
+        """
+        signed_entity_config = self.get_entity_configuration(entity_id)
+        if not signed_entity_config:
+            return None
+
+        entity_config = verify_self_signed_signature(signed_entity_config)
+        logger.debug(f'Verified self signed statement: {entity_config}')
+        if not (entity_config['iss'] == entity_config['sub'] == entity_id):
+            raise ValueError(f"Not the entity configuration of {entity_id}")
+        entity_config['_jws'] = signed_entity_config
+        # update cache
+        self.config_cache[entity_id] = entity_config
+        return entity_config
+
+    def superior_configuration(self, intermediate: str) -> Optional[dict]:
+        """
+        The configuration of a superior. From the cache if possible.
+        """
+        # will return None if cached information is outdated
         _entity_config = self.config_cache[intermediate]
         if _entity_config:
             logger.debug(f'Cached info: {_entity_config}')
-            # will return None if cached information is outdated
-            fed_fetch_endpoint = get_endpoint("fetch", _entity_config)
-        else:
-            fed_fetch_endpoint = None
-
-        if not fed_fetch_endpoint:
-            signed_entity_config = self.get_entity_configuration(intermediate)
-            if signed_entity_config is None:
-                return ''
+            if get_endpoint("fetch", _entity_config):
+                return _entity_config
 
-            entity_config = verify_self_signed_signature(signed_entity_config)
-            logger.debug(f'Verified self signed statement: {entity_config}')
-            fed_fetch_endpoint = get_endpoint("fetch", entity_config)
-            # update cache
-            entity_config["_jws"] = signed_entity_config
-            self.config_cache[intermediate] = entity_config
+        return self.collect_entity_configuration(intermediate)
 
-        return fed_fetch_endpoint
+    def get_federation_fetch_endpoint(self, intermediate: str) -> str:
+        logger.debug(f'--get_federation_fetch_endpoint({intermediate})')
+        _entity_config = self.superior_configuration(intermediate)
+        if not _entity_config:
+            return ''
+        return get_endpoint("fetch", _entity_config)
 
     def get_entity_statement(self, fetch_endpoint, issuer, subject):
         """
@@ -244,7 +247,7 @@ class TrustChainCollector(Function):
         """
         superior = {}
         if seen is None:
-            seen = []
+            seen = [entity_id]
 
         logger.debug(f'Collect superiors to: {entity_id}')
         logger.debug(f'Collect based on: {entity_configuration}')
@@ -258,23 +261,31 @@ class TrustChainCollector(Function):
         for authority in entity_configuration['authority_hints']:
             if authority in seen:  # loop ?!
                 logger.warning(f"Loop detected at {authority}")
-            superior[authority] = self.collect_branch(entity_id, authority, seen,
-                                                      max_superiors, stop_at=stop_at)
+                continue
+            try:
+                branch = self.collect_branch(entity_id, authority, seen,
+                                             max_superiors, stop_at=stop_at)
+            except Exception as err:
+                # One failing superior should not block the others.
+                logger.warning(f"Could not collect anything from {authority}: {err}")
+                continue
+            if branch is not None:
+                superior[authority] = branch
 
         return superior
 
     def _get_entity_statement(self, entity: str, authority: str) -> Optional[str]:
         # Try to get the entity statement from the cache
         _cache_key = cache_key(authority, entity)
+        _time_key = time_key(authority, entity)
         entity_statement = self.entity_statement_cache[_cache_key]
 
         if entity_statement is not None:
             logger.debug("Have cached statement")
             # Verify that the cached statement is not too old
             _now = utc_time_sans_frac()
-            _time_key = time_key(authority, entity)
             _exp = self.entity_statement_cache[_time_key]
-            if _now > (_exp - self.allowed_delta):
+            if _exp is None or _now > (_exp - self.allowed_delta):
                 logger.debug("Cached entity statement timed out")
                 del self.entity_statement_cache[_cache_key]
                 del self.entity_statement_cache[_time_key]
@@ -284,21 +295,61 @@ class TrustChainCollector(Function):
             logger.debug(f"Have not seen '{authority}' before")
             # The entity configuration for authority is collected at this point
             # It's stored in config_cache
+            _was_cached = self.config_cache[authority] is not None
             fed_fetch_endpoint = self.get_federation_fetch_endpoint(authority)
             if not fed_fetch_endpoint:
                 return None
             logger.debug(f"Federation fetch endpoint: '{fed_fetch_endpoint}' for '{authority}'")
-            entity_statement = self.get_entity_statement(fed_fetch_endpoint, authority, entity)
-            # entity_statement is a signed JWT
-            statement = unverified_entity_statement(entity_statement)
-            logger.debug(
-                f"Unverified entity statement from {fed_fetch_endpoint} about {entity}: "
-                f"{statement}")
-            self.entity_statement_cache[_cache_key] = entity_statement
-            self.entity_statement_cache[time_key(authority, entity)] = statement["exp"]
+            try:
+                entity_statement = self.fetch_entity_statement(fed_fetch_endpoint, authority, entity)
+            except Exception:
+                if not _was_cached:
+                    raise
+                # The fetch endpoint may have moved since the configuration was cached
+                self.collect_entity_configuration(authority)
+                _endpoint = self.get_federation_fetch_endpoint(authority)
+                if not _endpoint or _endpoint == fed_fetch_endpoint:
+                    raise
+                entity_statement = self.fetch_entity_statement(_endpoint, authority, entity)
 
         return entity_statement
 
+    def fetch_entity_statement(self, fetch_endpoint: str, authority: str, entity: str) -> str:
+        """
+        Fetches a statement by an authority about an entity and stores it in the cache.
+        """
+        entity_statement = self.get_entity_statement(fetch_endpoint, authority, entity)
+        # entity_statement is a signed JWT
+        statement = unverified_entity_statement(entity_statement)
+        logger.debug(f"Unverified entity statement from {fetch_endpoint} about {entity}: {statement}")
+        if statement["iss"] != authority or statement["sub"] != entity:
+            raise ValueError(f"Not an entity statement by {authority} about {entity}")
+        self.entity_statement_cache[time_key(authority, entity)] = statement["exp"]
+        self.entity_statement_cache[cache_key(authority, entity)] = entity_statement
+        return entity_statement
+
+    def forget(self, authority: str, entity: str):
+        """
+        Remove what has been collected from one authority about an entity.
+        """
+        del self.config_cache[authority]
+        del self.entity_statement_cache[cache_key(authority, entity)]
+        del self.entity_statement_cache[time_key(authority, entity)]
+
+    def forget_chain(self, chain: List[str]):
+        """
+        Remove the collected statements that makes up a trust chain that could not be verified.
+        """
+        for signed_statement in chain:
+            try:
+                statement = unverified_entity_statement(signed_statement)
+                if statement["iss"] == statement["sub"]:
+                    del self.config_cache[statement["iss"]]
+                else:
+                    self.forget(statement["iss"], statement["sub"])
+            except Exception as err:
+                logger.debug(f"Not an entity statement: {err}")
+
     def collect_branch(self, entity, authority, seen=None, max_superiors=10, stop_at=""):
         """
         Collect an entity statement about an entity submitted by another entity, the authority.
@@ -332,7 +383,7 @@ class TrustChainCollector(Function):
         entity_statement = self._get_entity_statement(entity, authority)
 
         if entity_statement:
-            _entity_configuration = self.config_cache[authority]
+            _entity_configuration = self.superior_configuration(authority)
             return entity_statement, self.collect_tree(authority,
                                                        _entity_configuration,
                                                        stop_at=stop_at,
@@ -341,37 +392,24 @@ class TrustChainCollector(Function):
         else:
             return None
 
-    def too_old(self, statement):
-        now = time.time()
-        if now >= statement["exp"] + self.allowed_delta:
-            return True
-        else:
-            return False
-
     def __call__(self,
                  entity_id: str,
                  max_superiors: Optional[int] = 10,
                  seen: Optional[List[str]] = None,
                  stop_at: Optional[str] = ''):
-        entity_config = self.config_cache.get(entity_id, None)
-        if entity_config and not self.too_old(entity_config):
+        entity_config = self.config_cache[entity_id]
+        if entity_config:
             signed_entity_config = entity_config.get("_jws")
-            if not signed_entity_config:
-                signed_entity_config = getattr(entity_config, "_jws")
         else:
             signed_entity_config = None
 
         if not signed_entity_config:
             # get leaf Entity Configuration
-            signed_entity_config = self.get_entity_configuration(entity_id)
-            if not signed_entity_config:
+            entity_config = self.collect_entity_configuration(entity_id)
+            if not entity_config:
                 logger.warning(f"Could not find any entity configuration for {entity_id}")
                 return None
-            entity_config = verify_self_signed_signature(signed_entity_config)
-            logger.debug(f'Verified self signed statement: {entity_config}')
-            entity_config['_jws'] = signed_entity_config
-            # update cache
-            self.config_cache[entity_id] = entity_config
+            signed_entity_config = entity_config["_jws"]
 
         return self.collect_tree(entity_id, entity_config, seen=seen, max_superiors=max_superiors,
                                  stop_at=stop_at), signed_entity_config
diff --git a/src/fedservice/entity_statement/cache.py b/src/fedservice/entity_statement/cache.py
index 31f5ee4..5d3027c 100644
--- a/src/fedservice/entity_statement/cache.py
+++ b/src/fedservice/entity_statement/cache.py
@@ -4,6 +4,7 @@ from typing import Optional
 
 from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.impexp import ImpExp
+from idpyoidc.message import Message
 
 logger = logging.getLogger(__name__)
 
@@ -28,19 +29,19 @@ class ESCache(ImpExp):
         except KeyError:
             return None
         else:
-            if isinstance(statement, dict):
+            if isinstance(statement, (dict, Message)):
                 # verify that the statement is recent enough
                 _now = utc_time_sans_frac()
                 if _now < (statement["exp"] - self.allowed_delta):
                     return statement
                 else:
-                    del self._db[item]
+                    self._db.pop(item, None)
                     return None
             else:
                 return statement
 
     def __delitem__(self, key):
-        del self._db[key]
+        self._db.pop(key, None)
 
     def keys(self):
         return self._db.keys()
@@ -49,7 +50,8 @@ class ESCache(ImpExp):
         return len(self._db)
 
     def __contains__(self, item):
-        return item in self._db
+        return self[item] is not None
 
     def get(self, key, default: Optional[Any] = None):
-        return self._db.get(key, default)
+        _val = self[key]
+        return default if _val is None else _val
-- 
2.43.0


From 027458aba74ff025df0148536876b9dce973e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:51 +0000
Subject: [PATCH 06/47] fix: kept trust chains are not used after they have
 expired

---
 src/fedservice/__init__.py        |  6 +++++-
 src/fedservice/entity/__init__.py | 18 ++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/fedservice/__init__.py b/src/fedservice/__init__.py
index 788f0e4..acd2ab5 100644
--- a/src/fedservice/__init__.py
+++ b/src/fedservice/__init__.py
@@ -24,8 +24,12 @@ def get_trust_chain(federation_context, entity_id: str, trust_anchor: Optional[s
     if not trust_info:
         return None
 
+    # Trust chains do not live forever
+    trust_info = {ta: tc for ta, tc in trust_info.items() if not tc.is_expired()}
+    if not trust_info:
+        return None
+
     if trust_anchor:
         return trust_info.get(trust_anchor, None)
     else:
         return trust_info
-
diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index eea4f27..2e6f824 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -265,9 +265,16 @@ class FederationEntity(Unit):
                         _info[md_param] = _val
         return _info
 
+    def stored_trust_chains(self, entity_id: str) -> list:
+        """
+        Returns the stored trust chains for an entity that are still valid.
+        """
+        _stored = self.trust_chain.get(entity_id) or []
+        return [tc for tc in _stored if not tc.is_expired()]
+
     def get_trust_chains(self, entity_id):
-        _trust_chains = self.trust_chain.get(entity_id, None)
-        if _trust_chains is None:
+        _trust_chains = self.stored_trust_chains(entity_id)
+        if not _trust_chains:
             _trust_chains = get_verified_trust_chains(self, entity_id)
             if _trust_chains:
                 self.store_trust_chain(entity_id, _trust_chains)
@@ -283,12 +290,7 @@ class FederationEntity(Unit):
         self.trust_chain[entity_id] = chains
 
     def get_verified_metadata(self, entity_id: str, *args):
-        _trust_chains = self.trust_chain.get(entity_id)
-        if _trust_chains is None:
-            _trust_chains = get_verified_trust_chains(self, entity_id)
-            if _trust_chains:
-                self.store_trust_chain(entity_id, _trust_chains)
-
+        _trust_chains = self.get_trust_chains(entity_id)
         if _trust_chains:
             return _trust_chains[0].metadata
         else:
-- 
2.43.0


From ce375fcdf5b8af732bd8f90e7fa9512db8920633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 07/47] fix: pick among stored trust chains by priority,
 export_chain leaves the chain as it is

---
 src/fedservice/appclient/stand_alone_client_entity.py | 2 +-
 src/fedservice/entity/__init__.py                     | 2 +-
 src/fedservice/entity_statement/statement.py          | 5 ++---
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 0b9ae28..277f9fd 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -143,7 +143,7 @@ class StandAloneClientEntity(ClientEntity):
         elif federation_entity.context.tr_priority:
             # Go by priority
             for ta_id in federation_entity.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _trust_chains:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 2e6f824..a467eca 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -236,7 +236,7 @@ class FederationEntity(Unit):
         elif self.context.tr_priority:
             # Go by priority
             for ta_id in self.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _trust_chains:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
diff --git a/src/fedservice/entity_statement/statement.py b/src/fedservice/entity_statement/statement.py
index bf40c6c..2d1e013 100644
--- a/src/fedservice/entity_statement/statement.py
+++ b/src/fedservice/entity_statement/statement.py
@@ -87,9 +87,8 @@ class TrustChain(ImpExp):
         trust_chain claim in an authorization or explicit registration request.
         :return:
         """
-        _chain = self.verified_chain
-        _chain.reverse()
-        return _chain
+        # A new list, the verified chain is still needed in its original order
+        return list(reversed(self.verified_chain))
 
 
 def chains2dict(trust_chains: TrustChain) -> dict:
-- 
2.43.0


From a2b036a343c37c81e6faa596981901c088fe9411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:41 +0000
Subject: [PATCH 08/47] fix: a value stated by a subordinate must be one its
 superiors allow

---
 src/fedservice/entity/function/policy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index b30fd1c..eb2940e 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -115,12 +115,12 @@ def check_value(rule):
     A value must be one that the other rules allow.
     """
     _value = rule["value"]
-    _values = set(_value) if isinstance(_value, list) else {_value}
+    _values = _value if isinstance(_value, list) else [_value]
     if "one_of" in rule and _value not in rule["one_of"]:
         raise PolicyError("value not one of one_of")
-    if "subset_of" in rule and _values.difference(rule["subset_of"]):
+    if "subset_of" in rule and [v for v in _values if v not in rule["subset_of"]]:
         raise PolicyError("value not a subset of subset_of")
-    if "superset_of" in rule and set(rule["superset_of"]).difference(_values):
+    if "superset_of" in rule and [v for v in rule["superset_of"] if v not in _values]:
         raise PolicyError("value not a superset of superset_of")
 
 
@@ -169,6 +169,9 @@ def combine_claim_policy(superior, child):
         for policy in comb_policy:
             rule[policy] = DO_POLICY[policy](superior, child, policy)
 
+        if "value" in rule:
+            check_value(rule)
+
         if comb_policy == {'superset_of', 'subset_of'}:
             # make sure the subset_of is a superset of superset_of.
             if set(rule['superset_of']).difference(set(rule['subset_of'])):
-- 
2.43.0


From 8961e50963a8e90066a490aa23085a4df466e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 09/47] fix: a value stated by a subordinate must be one its
 superiors allow (same value twice)

---
 src/fedservice/entity/function/policy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index eb2940e..b3a015a 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -149,6 +149,7 @@ def combine_claim_policy(superior, child):
                 if child["value"] != superior["value"]:  # Not OK
                     raise PolicyError("Child can not set another value then superior")
                 else:
+                    check_value(child)
                     return superior
             else:
                 raise PolicyError(
-- 
2.43.0


From d0ec1712d5342b21b07564f004e8db39aa6fc594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 10/47] fix: fetch endpoint: answering a request does not
 change the registry, statements only in the own name

---
 src/fedservice/entity/server/fetch.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index ab9f8f0..e3ddd4b 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -26,9 +26,10 @@ class Fetch(Endpoint):
 
     def process_request(self, request=None, **kwargs):
         _context = self.upstream_get("context")
-        _issuer = request.get("iss")
-        if not _issuer:
-            _issuer = self.upstream_get('attribute','entity_id')
+        _issuer = self.upstream_get('attribute','entity_id')
+        if request.get("iss") not in (None, "", _issuer):
+            # Can only make statements in my own name
+            raise UnknownEntity(request["iss"])
 
         _sub = request.get("sub")
         _keyjar = self.upstream_get('attribute', 'keyjar')
@@ -50,29 +51,25 @@ class Fetch(Endpoint):
                 logger.debug(f"Known subordinates: {list(_server.subordinate.keys())}")
                 raise UnknownEntity(_sub)
 
+            # The registered information must not change because someone asks for it
+            _response = {k: v for k, v in _response.items() if k != 'entity_types'}
+            _entity_types = _server.subordinate[_sub].get('entity_types')
+
             if not 'authority_hints' in _response:
                 # If nothing specified add myself
                 _response["authority_hints"] = [_issuer]
 
             _policy = _server.policy.get(_sub)
             if not _policy:  # No entity specific policy
-                if 'entity_types' in _response:
-                    _entity_types = _response['entity_types']
-                    _response = {k: v for k, v in _response.items() if k != 'entity_types'}
-                    _policy = {'metadata': {}, 'metadata_policy': {}}
+                if _entity_types:
+                    _policy = {}
                     for entity_type in _entity_types:
                         _et_policy = _server.policy.get(entity_type)
                         if not _et_policy:
                             continue
                         for _typ in ['metadata', 'metadata_policy']:
                             if _typ in _et_policy:
-                                try:
-                                    _policy[_typ].update({entity_type: _et_policy[_typ]})
-                                except KeyError:
-                                    _policy[_typ] = {entity_type: _et_policy[_typ]}
-
-                    if _policy == {'metadata': {}, 'metadata_policy': {}}:  # Nothing has changed
-                        _policy = None
+                                _policy.setdefault(_typ, {})[entity_type] = _et_policy[_typ]
 
             if _policy:
                 _response.update(_policy)
-- 
2.43.0


From 919037ad013c42e07b0975ac04df228f96223bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:49 +0000
Subject: [PATCH 11/47] fix: forgetting an invalid trust chain keeps the
 statements that other chains depend on

---
 src/fedservice/entity/function/__init__.py    |  2 +-
 .../entity/function/trust_chain_collector.py  | 28 ++++++++++---------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index ee61168..1529ebc 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -168,7 +168,7 @@ def get_verified_trust_chains(unit, entity_id):
         _verified = [tc.chain for tc in trust_chains]
         for chain in chains:
             if chain not in _verified:
-                _collector.forget_chain(chain)
+                _collector.forget_chain(chain, trust_chains)
 
     trust_chains = apply_policies(unit, trust_chains)
     return trust_chains
diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 1322fa2..a6af501 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -328,27 +328,29 @@ class TrustChainCollector(Function):
         self.entity_statement_cache[cache_key(authority, entity)] = entity_statement
         return entity_statement
 
-    def forget(self, authority: str, entity: str):
-        """
-        Remove what has been collected from one authority about an entity.
-        """
-        del self.config_cache[authority]
-        del self.entity_statement_cache[cache_key(authority, entity)]
-        del self.entity_statement_cache[time_key(authority, entity)]
-
-    def forget_chain(self, chain: List[str]):
+    def forget_chain(self, chain: List[str], verified: Optional[list] = None):
         """
         Remove the collected statements that makes up a trust chain that could not be verified.
+
+        :param chain: The signed statements
+        :param verified: Trust chains that could be verified. What they are made of is kept.
         """
+        _statements = {es for trust_chain in verified or [] for es in trust_chain.chain}
+        _issuers = {iss for trust_chain in verified or [] for iss in trust_chain.iss_path}
         for signed_statement in chain:
+            if signed_statement in _statements:
+                continue
             try:
                 statement = unverified_entity_statement(signed_statement)
-                if statement["iss"] == statement["sub"]:
-                    del self.config_cache[statement["iss"]]
-                else:
-                    self.forget(statement["iss"], statement["sub"])
+                _iss, _sub = statement["iss"], statement["sub"]
             except Exception as err:
                 logger.debug(f"Not an entity statement: {err}")
+                continue
+            if _iss not in _issuers:
+                del self.config_cache[_iss]
+            if _iss != _sub:
+                del self.entity_statement_cache[cache_key(_iss, _sub)]
+                del self.entity_statement_cache[time_key(_iss, _sub)]
 
     def collect_branch(self, entity, authority, seen=None, max_superiors=10, stop_at=""):
         """
-- 
2.43.0


From 447c6d9fbdf653d808279e88e00e880eb17f348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 12/47] fix: a subordinate may repeat its superior's value
 together with essential

---
 src/fedservice/entity/function/policy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index b3a015a..1c80f79 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -140,7 +140,8 @@ def combine_claim_policy(superior, child):
     if "value" in superior_set:  # An exact value can not be restricted.
         if child_set:
             if "essential" in child_set:
-                if len(child_set) == 1:
+                if child_set == {"essential"} or (child_set == {"essential", "value"}
+                                                  and child["value"] == superior["value"]):
                     return {"value": superior["value"], "essential": child["essential"]}
                 else:
                     raise PolicyError(
-- 
2.43.0


From 4fcc5a55db9b4bc6e05a18ec836fa442c1bddcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:15 +0000
Subject: [PATCH 13/47] fix: a single default value can be combined with
 subset_of and superset_of

---
 src/fedservice/entity/function/policy.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 1c80f79..2f41f6e 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -110,6 +110,10 @@ DO_POLICY = {
 }
 
 
+def as_set(value):
+    return set(value) if isinstance(value, (list, set, tuple)) else {value}
+
+
 def check_value(rule):
     """
     A value must be one that the other rules allow.
@@ -182,15 +186,15 @@ def combine_claim_policy(superior, child):
             # make sure the subset_of is a superset of superset_of.
             if set(rule['superset_of']).difference(set(rule['subset_of'])):
                 raise PolicyError('superset_of not a super set of subset_of')
-            if set(rule['default']).difference(set(rule['subset_of'])):
+            if as_set(rule['default']).difference(set(rule['subset_of'])):
                 raise PolicyError('default not a sub set of subset_of')
-            if set(rule['superset_of']).difference(set(rule['default'])):
+            if set(rule['superset_of']).difference(as_set(rule['default'])):
                 raise PolicyError('default not a super set of subset_of')
         elif comb_policy == {'subset_of', 'default'}:
-            if set(rule['default']).difference(set(rule['subset_of'])):
+            if as_set(rule['default']).difference(set(rule['subset_of'])):
                 raise PolicyError('default not a sub set of subset_of')
         elif comb_policy == {'superset_of', 'default'}:
-            if set(rule['superset_of']).difference(set(rule['default'])):
+            if set(rule['superset_of']).difference(as_set(rule['default'])):
                 raise PolicyError('default not a super set of subset_of')
         elif comb_policy == {'one_of', 'default'}:
             if isinstance(rule['default'], list):
-- 
2.43.0


From 6887793fe667ca787b211f0d982bd7092cd1c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:10 +0000
Subject: [PATCH 14/47] fix: picking among kept trust chains: expired ones are
 not picked, the federation context keeps them by trust anchor

---
 src/fedservice/appclient/stand_alone_client_entity.py | 7 +++++--
 src/fedservice/entity/__init__.py                     | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 277f9fd..63fd2e1 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -24,6 +24,7 @@ from idpyoidc.message.oidc import OpenIDSchema
 from idpyoidc.transform import create_registration_request
 from idpyoidc.util import rndstr
 
+from fedservice import get_trust_chain
 from fedservice import save_trust_chains
 from fedservice.appclient import ClientEntity
 from fedservice.entity import get_verified_trust_chains
@@ -71,7 +72,7 @@ class StandAloneClientEntity(ClientEntity):
             federation_entity.trust_chain_anchor = trust_chain.anchor
             # _pi = trust_chain.metadata["openid_relying_party"]
             _pi = trust_chain.metadata["openid_provider"]
-            federation_entity.context.trust_chain[_pi["issuer"]] = trust_chain
+            save_trust_chains(federation_entity.context, _trust_chains)
             context.provider_info = context.metadata = _pi
             self._import_keys(_pi, context.keyjar, _pi["issuer"])
             return _pi
@@ -136,7 +137,9 @@ class StandAloneClientEntity(ClientEntity):
             return _context.issuer
 
     def pick_from_stored_trust_chains(self, entity_id, federation_entity):
-        _trust_chains = self.context.trust_chain[entity_id]
+        _trust_chains = get_trust_chain(self.context, entity_id)
+        if not _trust_chains:
+            raise NoTrustedChains(entity_id)
         _tas = list(_trust_chains.keys())
         if len(_tas) == 1:
             return _trust_chains[_tas[0]]
diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index a467eca..f1365a7 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -12,12 +12,14 @@ from idpyoidc.server.util import execute
 from idpyoidc.util import instantiate
 from requests import request
 
+from fedservice import get_trust_chain
 from fedservice import message
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import get_payload
 from fedservice.entity.function import get_verified_trust_chains
 from fedservice.entity.function import verify_trust_chains
+from fedservice.exception import NoTrustedChains
 
 __author__ = 'Roland Hedberg'
 
@@ -229,7 +231,9 @@ class FederationEntity(Unit):
         return trust_chains[0]
 
     def pick_from_stored_trust_chains(self, entity_id):
-        _trust_chains = self.context.trust_chain[entity_id]
+        _trust_chains = get_trust_chain(self.context, entity_id)
+        if not _trust_chains:
+            raise NoTrustedChains(entity_id)
         _tas = list(_trust_chains.keys())
         if len(_tas) == 1:
             return _trust_chains[_tas[0]]
-- 
2.43.0


From 2e134c5cd154b600c118c362da919a1bc17d3ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 15/47] fix: list endpoint: all filters apply, types by their
 registered name, one bad subordinate does not hide the others

---
 src/fedservice/entity/server/list.py | 98 ++++++++++++++++------------
 1 file changed, 58 insertions(+), 40 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 921f697..43f16a3 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -7,6 +7,8 @@ from idpyoidc.key_import import import_jwks
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
 
+from fedservice.entity.function import get_payload
+
 logger = logging.getLogger(__name__)
 
 
@@ -29,47 +31,58 @@ class List(Endpoint):
                **kwargs):
         match = []
         for entity_id, conf in subordinates.items():
-            matched = False
-            if entity_type:
-                if entity_type in conf['metadata']:
-                    matched = True
-            if trust_marked:
-                if 'trust_marks' in conf:
-                    matched = True
-                else:
-                    matched = False
-            if trust_mark_id:
-                trust_marks = conf.get('trust_marks')
-                matched = False
-                for trust_mark in trust_marks:
-                    if trust_mark['id'] == trust_mark_id:
-                        matched = True
-
-            if matched:
-                match.append(entity_id)
+            if entity_type and entity_type not in conf['metadata']:
+                continue
+            _ids = [self.trust_mark_id(tm) for tm in conf.get('trust_marks') or []]
+            if trust_marked and not _ids:
+                continue
+            if trust_mark_id and trust_mark_id not in _ids:
+                continue
+            match.append(entity_id)
         return match
 
+    @staticmethod
+    def trust_mark_id(trust_mark):
+        """
+        A trust mark in an entity configuration is a signed JWT, or an object that contains one.
+        """
+        try:
+            if isinstance(trust_mark, dict):
+                return trust_mark['id']
+            return get_payload(trust_mark).get('id')
+        except Exception as err:
+            logger.warning(f"Not a trust mark: {err}")
+            return None
+
+    def matching_registration(self, item: dict, request) -> bool:
+        # I know about entity_types and intermediate or not from the registration
+        if "intermediate" in request and request["intermediate"]:
+            if not item.get("intermediate"):
+                return False
+        if "entity_type" in request:
+            _types = item.get("entity_types", item.get("entity_type", []))
+            if isinstance(_types, str):
+                _types = [_types]
+            if request["entity_type"] not in _types:
+                return False
+        return True
+
     def process_request(self, request=None, **kwargs):
         _db = self.upstream_get("unit").subordinate
         if not request or set(request.keys()).issubset({"client_id", "authenticated"}):
             return {'response_msg': json.dumps(list(_db.keys()))}
         else:
-            matched_entity_ids = set()
             subordinate_conf = None
-            # I know about entity_types and intermediate or not from the registration
-            for entity_id, item in _db.items():
-                if "intermediate" in request and request["intermediate"]:
-                    if "intermediate" in item and item["intermediate"]:
-                        matched_entity_ids.add(entity_id)
-                        continue
-                if "entity_type" in request:
-                    if request["entity_type"] in item["entity_type"]:
-                        matched_entity_ids.add(entity_id)
+            # All the filters must match
+            matched_entity_ids = [entity_id for entity_id, item in _db.items()
+                                  if self.matching_registration(item, request)]
 
             # I don't expect to know about trust marks from the registration
             if "trust_marked" in request or "trust_mark_id" in request:
-                subordinate_conf = self.collect_subordinates()
-                matched_entity_ids.update(self.filter(subordinates=subordinate_conf, **request))
+                subordinate_conf = self.collect_subordinates(matched_entity_ids)
+                matched_entity_ids = self.filter(subordinates=subordinate_conf,
+                                                 trust_mark_id=request.get("trust_mark_id", ""),
+                                                 trust_marked=request.get("trust_marked"))
 
             if self.extended and subordinate_conf:
                 return {"response_msg": json.dumps({id: subordinate_conf[id] for id in
@@ -77,18 +90,23 @@ class List(Endpoint):
             else:
                 return {"response_msg": json.dumps(list(matched_entity_ids))}
 
-    def collect_subordinates(self) -> dict:
+    def collect_subordinates(self, entity_ids) -> dict:
         _server_entity = self.upstream_get("unit")
         _federation_entity = _server_entity.upstream_get("unit")
-        keyjar = KeyJar()
         _collector = _federation_entity.function.trust_chain_collector
         sub = {}
-        for entity_id, conf in _federation_entity.server.subordinate.items():
-            #  get entity configuration for subordinate
-            _entity_configuration = _collector.get_entity_configuration(entity_id)
-            # Verify signature with the keys I have
-            keyjar = import_jwks(keyjar, conf['jwks'], entity_id)
-            _jwt = JWT(key_jar=keyjar)
-            _ec = _jwt.unpack(_entity_configuration)
-            sub[entity_id] = _ec
+        for entity_id in entity_ids:
+            conf = _federation_entity.server.subordinate[entity_id]
+            try:
+                #  get entity configuration for subordinate
+                _entity_configuration = _collector.get_entity_configuration(entity_id)
+                # Verify signature with the keys I have
+                keyjar = import_jwks(KeyJar(), conf['jwks'], entity_id)
+                _ec = JWT(key_jar=keyjar).unpack(_entity_configuration)
+            except Exception as err:
+                # One subordinate that doesn't behave must not affect the others
+                logger.warning(f"No usable entity configuration from {entity_id}: {err}")
+                continue
+            if _ec.get("sub") == entity_id:
+                sub[entity_id] = _ec
         return sub
-- 
2.43.0


From bc90625d4c7e0aa2b0287efcfd849ef2ddac4308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 16/47] fix: entity configuration: trust marks kept in a file

---
 src/fedservice/entity/server/entity_configuration.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/fedservice/entity/server/entity_configuration.py b/src/fedservice/entity/server/entity_configuration.py
index b3fea94..4d7baa9 100644
--- a/src/fedservice/entity/server/entity_configuration.py
+++ b/src/fedservice/entity/server/entity_configuration.py
@@ -1,4 +1,3 @@
-from typing import Callable
 from typing import Optional
 from typing import Union
 
@@ -39,10 +38,7 @@ class EntityConfiguration(Endpoint):
             _metadata = _fed_entity.get_metadata()
 
         if _fed_entity.context.trust_marks:
-            if isinstance(_fed_entity.context.trust_marks, Callable):
-                args = {"trust_marks": _fed_entity.context.get_trust_marks()}
-            else:
-                args = {"trust_marks": _fed_entity.context.trust_marks}
+            args = {"trust_marks": _fed_entity.context.get_trust_marks()}
         else:
             args = {}
 
-- 
2.43.0


From 2b968a64cc6990d8d61a29e07d41e7f1d80ff7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:46 +0000
Subject: [PATCH 17/47] fix: trawl: every entity once, also when superiors form
 a cycle; one failing branch does not stop it

---
 src/fedservice/entity/__init__.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index f1365a7..4542618 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -319,7 +319,14 @@ class FederationEntity(Unit):
                                       request_args=request_args, behaviour_args=behaviour_args,
                                       **kwargs)
 
-    def trawl(self, superior, subordinate, entity_type):
+    def trawl(self, superior, subordinate, entity_type, visited=None):
+        # The same entity may be reachable over more than one superior, or be below itself
+        if visited is None:
+            visited = set()
+        if subordinate in visited:
+            return []
+        visited.add(subordinate)
+
         _ec = self.function.trust_chain_collector.config_cache[subordinate]
         if _ec is None:
             _es = self.client.do_request("entity_statement", issuer=superior, subject=subordinate)
@@ -357,7 +364,12 @@ class FederationEntity(Unit):
         # For all intermediates go further down the tree
         if _intermediates:
             for entity_id in _intermediates:
-                _ids = self.trawl(subordinate, entity_id, entity_type)
+                try:
+                    _ids = self.trawl(subordinate, entity_id, entity_type, visited)
+                except Exception as err:
+                    # The others may still answer
+                    logger.warning(f"Could not trawl {entity_id}: {err}")
+                    continue
                 if _ids:
                     _issuers.extend(_ids)
 
-- 
2.43.0


From 05390da88a6d929123fb23a1c429e6f69bd40d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 18/47] fix: list endpoint: looking at trust marks leaves the
 registered keys as they are

---
 src/fedservice/entity/server/list.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 43f16a3..45fa704 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import logging
 
@@ -100,8 +101,8 @@ class List(Endpoint):
             try:
                 #  get entity configuration for subordinate
                 _entity_configuration = _collector.get_entity_configuration(entity_id)
-                # Verify signature with the keys I have
-                keyjar = import_jwks(KeyJar(), conf['jwks'], entity_id)
+                # Verify signature with the keys I have. Importing keys changes the dictionary
+                keyjar = import_jwks(KeyJar(), copy.deepcopy(conf['jwks']), entity_id)
                 _ec = JWT(key_jar=keyjar).unpack(_entity_configuration)
             except Exception as err:
                 # One subordinate that doesn't behave must not affect the others
-- 
2.43.0


From 34b38ab311168e3269dd4d1a6ac6263ad29818f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:09 +0000
Subject: [PATCH 19/47] fix: trust mark database: an expired or damaged record
 does not hide the others, only active marks are listed

---
 src/fedservice/trust_mark_entity/__init__.py | 58 +++++++++++++-------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 6c1ff10..23df1ba 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -5,6 +5,14 @@ from typing import Optional
 from cryptojwt.jwt import utc_time_sans_frac
 
 
+def is_expired(tm_info: dict) -> bool:
+    if 'exp' in tm_info:
+        now = utc_time_sans_frac()
+        if now > tm_info["exp"]:
+            return True
+    return False
+
+
 class FileDB(object):
 
     def __init__(self, **kwargs):
@@ -21,6 +29,21 @@ class FileDB(object):
         with open(self.config[trust_mark_id], "a") as fp:
             fp.write(json.dumps(tm_info) + '\n')
 
+    def _records(self, trust_mark_id):
+        """
+        What is known about issued trust marks, the last issued first.
+        """
+        with open(self.config[trust_mark_id], "r", errors="replace") as fp:
+            for line in reversed(list(fp)):
+                try:
+                    _tmi = json.loads(line.rstrip())
+                    _id, _sub = _tmi["id"], _tmi["sub"]
+                except (ValueError, TypeError, KeyError):
+                    # Left over from when something went wrong while adding information
+                    continue
+                if _id == trust_mark_id:
+                    yield _tmi
+
     def _match(self, sub, iat, tmi):
         if sub == tmi["sub"]:
             if iat:
@@ -31,18 +54,16 @@ class FileDB(object):
         return False
 
     def find(self, trust_mark_id: str, sub: str, iat: Optional[int] = 0):
-        with open(self.config[trust_mark_id], "r") as fp:
-            # Get the last issued
-            for line in reversed(list(fp)):
-                _tmi = json.loads(line.rstrip())
+        if trust_mark_id not in self.config:
+            return False
 
-                if 'exp' in _tmi:
-                    now = utc_time_sans_frac()
-                    if now > _tmi["exp"]:
-                        return False
+        for _tmi in self._records(trust_mark_id):
+            if is_expired(_tmi):
+                # There may be others that are not
+                continue
 
-                if self._match(sub, iat, _tmi):
-                    return True
+            if self._match(sub, iat, _tmi):
+                return True
         return False
 
     def __contains__(self, item):
@@ -75,16 +96,15 @@ class FileDB(object):
     def list(self, trust_mark_id: str, sub: Optional[str] = ""):
         res = []
         try:
-            with open(self.config[trust_mark_id], "r") as fp:
-                # Get the last issued
-                for line in reversed(list(fp)):
-                    _tmi = json.loads(line.rstrip())
-                    if _tmi["sub"] not in res:
-                        if sub:
-                            if _tmi["sub"] == sub:
-                                res.append(_tmi["sub"])
-                        else:
+            for _tmi in self._records(trust_mark_id):
+                if is_expired(_tmi):
+                    continue
+                if _tmi["sub"] not in res:
+                    if sub:
+                        if _tmi["sub"] == sub:
                             res.append(_tmi["sub"])
+                    else:
+                        res.append(_tmi["sub"])
         except KeyError as err:
             pass
 
-- 
2.43.0


From 5adf03bd8285f188f6df6ede41a52745dc380097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 20/47] fix: trust mark database: what is added survives a
 crash and is not spoiled by a partly written record before it

---
 src/fedservice/trust_mark_entity/__init__.py | 22 +++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 23df1ba..b4931f2 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -26,8 +26,22 @@ class FileDB(object):
     def add(self, tm_info: dict):
         trust_mark_id = tm_info['id']
         # adds a line with info about a trust mark info to the end of a file
-        with open(self.config[trust_mark_id], "a") as fp:
-            fp.write(json.dumps(tm_info) + '\n')
+        self._append(trust_mark_id, [json.dumps(tm_info)])
+
+    def _append(self, trust_mark_id, lines):
+        _file_name = self.config[trust_mark_id]
+        with open(_file_name, "rb") as fp:
+            _content = fp.read()
+
+        with open(_file_name, "a") as fp:
+            if _content and not _content.endswith(b'\n'):
+                # Something went wrong last time. That must not spoil what is added now.
+                fp.write('\n')
+            for line in lines:
+                fp.write(line + '\n')
+            # It must be there even if there is a power failure right after this.
+            fp.flush()
+            os.fsync(fp.fileno())
 
     def _records(self, trust_mark_id):
         """
@@ -86,9 +100,7 @@ class FileDB(object):
 
     def load(self, info):
         for entity_id in self.config.keys():
-            with open(self.config[entity_id], "a") as fp:
-                for tm_info in info[entity_id]:
-                    fp.write(tm_info + '\n')
+            self._append(entity_id, info.get(entity_id, []))
 
     def loads(self, str):
         self.load(json.loads(str))
-- 
2.43.0


From 7cb4ec49a67229ef19f91a2309c832cf0c7b9c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:15 +0000
Subject: [PATCH 21/47] fix: in-memory trust mark database: several marks per
 type, unknown types, expired marks

---
 src/fedservice/trust_mark_entity/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index b4931f2..dbe7be1 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -130,20 +130,22 @@ class SimpleDB(object):
 
     def add(self, tm_info: dict):
         if tm_info['id'] in self._db:
-            self._db[tm_info['id']].append({tm_info['sub']: tm_info})
+            self._db[tm_info['id']].setdefault(tm_info['sub'], []).append(tm_info)
         else:
-            self._db[tm_info['id']] = {tm_info["sub"]: tm_info}
+            self._db[tm_info['id']] = {tm_info["sub"]: [tm_info]}
 
     def list(self, trust_mark_id, sub: Optional[str] = ""):
         if sub:
-            if self._db[trust_mark_id].get(sub, None):
+            if self.find(trust_mark_id, sub):
                 return [sub]
         elif trust_mark_id in self._db:
-            return self._db[trust_mark_id]
+            return [_sub for _sub in self._db[trust_mark_id] if self.find(trust_mark_id, _sub)]
+        return []
 
     def find(self, trust_mark_id, sub: str, iat: Optional[int] = 0) -> bool:
-        _tmi = self._db[trust_mark_id].get(sub, None)
-        if _tmi:
+        for _tmi in self._db.get(trust_mark_id, {}).get(sub, []):
+            if is_expired(_tmi):
+                continue
             if iat:
                 if iat == _tmi["iat"]:
                     return True
-- 
2.43.0


From d4ff92ddd49f5e28c6d0a619341285ae626bc891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 22/47] fix: trust mark status: the asked-for mark and only own
 marks; list by subject answers; what is recorded is what is handed out

---
 src/fedservice/trust_mark_entity/entity.py                 | 7 +++++--
 src/fedservice/trust_mark_entity/server/trust_mark_list.py | 2 +-
 .../trust_mark_entity/server/trust_mark_status.py          | 6 ++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/entity.py b/src/fedservice/trust_mark_entity/entity.py
index 031f518..f53b2ea 100644
--- a/src/fedservice/trust_mark_entity/entity.py
+++ b/src/fedservice/trust_mark_entity/entity.py
@@ -85,11 +85,13 @@ class TrustMarkEntity(Unit):
         content.update(_add)
         if kwargs:
             content.update(kwargs)
-        self.issued.add(content)
 
         _federation_entity = get_federation_entity(self)
         packer = JWT(key_jar=_federation_entity.keyjar, iss=_federation_entity.entity_id)
-        return packer.pack(payload=content)
+        # What is remembered and what is handed out must be the same, iat included
+        _trust_mark = packer.pack(payload=content, iat=content['iat'])
+        self.issued.add(content)
+        return _trust_mark
 
     def dump_trust_marks(self):
         return self.issued.dumps()
@@ -125,6 +127,7 @@ class TrustMarkEntity(Unit):
         if sub:
             if self.find(trust_mark_id, sub):
                 return [sub]
+            return []
         else:
             return self.issued.list(trust_mark_id)
 
diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_list.py b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
index 3a543ad..027522d 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_list.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
@@ -39,7 +39,7 @@ class TrustMarkList(Endpoint):
 
         if 'sub' in request and 'trust_mark_id' in request:
             if _trust_mark_entity.find(request['trust_mark_id'], request['sub']):
-                return {"foo": request["sub"]}
+                return {"response_msg": json.dumps([request["sub"]]), "response_code": 200}
         elif 'trust_mark_id' in request:
             _lst = _trust_mark_entity.list(request["trust_mark_id"])
             if _lst:
diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_status.py b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
index d5a86d7..29de5b8 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_status.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
@@ -38,7 +38,9 @@ class TrustMarkStatus(Endpoint):
 
         if 'trust_mark' in request:
             _mark = _trust_mark_issuer.unpack_trust_mark(request['trust_mark'])
-            if _trust_mark_issuer.find(_mark['id'], _mark['sub']):
+            # Must be one of mine, and precisely this one
+            if _mark['iss'] == _trust_mark_issuer.entity_id and \
+                    _trust_mark_issuer.find(_mark['id'], _mark['sub'], _mark['iat']):
                 return {'response_args': {'active': True}}
         else:
             if 'sub' in request:
@@ -49,7 +51,7 @@ class TrustMarkStatus(Endpoint):
                     _id = request['id']
 
                 if _id:
-                    if _trust_mark_issuer.find(_id, request['sub']):
+                    if _trust_mark_issuer.find(_id, request['sub'], int(request.get('iat') or 0)):
                         return {'response_args': {'active': True}}
 
         return self.error_cls(error="not_found", error_description="No active trust mark matching the query")
-- 
2.43.0


From 9b79d2a743364f761eab6c6e77e7cd3a60d5e760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:04 +0000
Subject: [PATCH 23/47] fix: resolve response is not valid longer than the
 trust chain it is based on

---
 src/fedservice/entity/server/resolve.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/server/resolve.py b/src/fedservice/entity/server/resolve.py
index 7428323..3f14e32 100644
--- a/src/fedservice/entity/server/resolve.py
+++ b/src/fedservice/entity/server/resolve.py
@@ -2,6 +2,7 @@ import logging
 from typing import Optional
 from typing import Union
 
+from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.message import Message
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
@@ -51,11 +52,15 @@ class Resolve(Endpoint):
         trust_chain = _federation_entity.function.trust_chain_collector.get_chain(
             _chain.iss_path, _trust_anchor, kwargs.get("with_ta_ec"))
 
+        # Must not be valid longer than what it is based on
+        _exp = min(_chain.exp, utc_time_sans_frac() + 86400)
         _jws = create_entity_statement(_federation_entity.entity_id,
                                        sub=request["sub"],
                                        key_jar=_federation_entity.get_attribute('keyjar'),
                                        metadata=metadata,
-                                       trust_chain=trust_chain)
+                                       trust_chain=trust_chain,
+                                       lifetime=0,
+                                       exp=_exp)
         return {'response_args': _jws}
 
     def response_info(
-- 
2.43.0


From 3cfa20fab2f5e8d1365a398c9cc987594f227a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:52 +0000
Subject: [PATCH 24/47] fix: resolver forgets statements that do not verify, as
 any other resolution does

---
 src/fedservice/entity/function/__init__.py |  4 ++--
 src/fedservice/entity/server/resolve.py    | 12 +++---------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index 1529ebc..f337f8c 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -156,8 +156,8 @@ class Function(ImpExp):
         self.upstream_get = upstream_get
 
 
-def get_verified_trust_chains(unit, entity_id):
-    chains, leaf_ec = collect_trust_chains(unit, entity_id)
+def get_verified_trust_chains(unit, entity_id, stop_at: Optional[str] = ""):
+    chains, leaf_ec = collect_trust_chains(unit, entity_id, stop_at=stop_at)
     if len(chains) == 0:
         return []
 
diff --git a/src/fedservice/entity/server/resolve.py b/src/fedservice/entity/server/resolve.py
index 3f14e32..f32421b 100644
--- a/src/fedservice/entity/server/resolve.py
+++ b/src/fedservice/entity/server/resolve.py
@@ -7,9 +7,7 @@ from idpyoidc.message import Message
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
 
-from fedservice.entity.function import apply_policies
-from fedservice.entity.function import collect_trust_chains
-from fedservice.entity.function import verify_trust_chains
+from fedservice.entity.function import get_verified_trust_chains
 from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.create import create_entity_statement
 
@@ -31,12 +29,8 @@ class Resolve(Endpoint):
         _trust_anchor = request['anchor']
 
         # verified trust chains with policy adjusted metadata
-        _chains, signed_entity_configuration = collect_trust_chains(_federation_entity,
-                                                                    entity_id=request['sub'],
-                                                                    stop_at=_trust_anchor)
-        _trust_chains = verify_trust_chains(_federation_entity, _chains,
-                                            signed_entity_configuration)
-        _trust_chains = apply_policies(_federation_entity, _trust_chains)
+        _trust_chains = get_verified_trust_chains(_federation_entity, request['sub'],
+                                                  stop_at=_trust_anchor)
 
         _chain = None
         for trust_chain in _trust_chains:
-- 
2.43.0


From d42075474746ab0d27c7b16da9214141719577a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:20 +0000
Subject: [PATCH 25/47] fix: resolve response carries the very chain that was
 verified

---
 src/fedservice/entity/server/resolve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/server/resolve.py b/src/fedservice/entity/server/resolve.py
index f32421b..e08d27c 100644
--- a/src/fedservice/entity/server/resolve.py
+++ b/src/fedservice/entity/server/resolve.py
@@ -43,8 +43,11 @@ class Resolve(Endpoint):
         else:
             metadata = _chain.metadata
 
-        trust_chain = _federation_entity.function.trust_chain_collector.get_chain(
-            _chain.iss_path, _trust_anchor, kwargs.get("with_ta_ec"))
+        # The statements the metadata is based on, the entity's own first
+        trust_chain = list(reversed(_chain.chain))
+        if kwargs.get("with_ta_ec"):
+            _collector = _federation_entity.function.trust_chain_collector
+            trust_chain.append(_collector.config_cache[_trust_anchor]['_jws'])
 
         # Must not be valid longer than what it is based on
         _exp = min(_chain.exp, utc_time_sans_frac() + 86400)
-- 
2.43.0


From aada7e7910f4905439aa897f5c654318947c1fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:37 +0000
Subject: [PATCH 26/47] fix: a trust mark whose delegation does not verify, or
 is about something else, is not accepted

---
 .../entity/function/trust_mark_verifier.py    | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index ea64782..dd1f93c 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -50,6 +50,7 @@ class TrustMarkVerifier(Function):
             _delegation = self.verify_delegation(_trust_mark, trust_anchor)
             if not _delegation:
                 logger.warning("Could not verify the delegation")
+                return None
 
         # Get trust chain
         # _federation_entity = get_federation_entity(self)
@@ -96,9 +97,19 @@ class TrustMarkVerifier(Function):
         if trust_mark['id'] not in ta_fe_metadata['trust_mark_owners']:
             return None
 
-        _delegation = factory(trust_mark['delegation'])
         tm_owner_info = ta_fe_metadata['trust_mark_owners'][trust_mark['id']]
-        _key_jar = KeyJar()
-        _key_jar = import_jwks(_key_jar, tm_owner_info['jwks'], tm_owner_info['sub'])
-        keys = _key_jar.get_jwt_verify_keys(_delegation.jwt)
-        return _delegation.verify_compact(keys=keys)
+        try:
+            _delegation = factory(trust_mark['delegation'])
+            _key_jar = import_jwks(KeyJar(), tm_owner_info['jwks'], tm_owner_info['sub'])
+            keys = _key_jar.get_jwt_verify_keys(_delegation.jwt)
+            _info = _delegation.verify_compact(keys=keys)
+        except Exception as err:
+            logger.warning(f"Could not verify the signature of the delegation: {err}")
+            return None
+
+        # It must be the owner who lets this trust mark issuer issue this kind of trust marks
+        if _info.get('iss') != tm_owner_info['sub'] or _info.get('sub') != trust_mark['iss'] or \
+                _info.get('id') != trust_mark['id'] or statement_is_expired(_info):
+            logger.warning(f"Not a delegation for this trust mark: {_info}")
+            return None
+        return _info
-- 
2.43.0


From e91a1fb130e4eaee4ec3459405bb82e79360b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:37 +0000
Subject: [PATCH 27/47] fix: a trust mark must be signed with a key its issuer
 has according to the trust chain to the trust anchor

---
 .../entity/function/trust_mark_verifier.py    | 36 ++++++++-----------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index dd1f93c..355903f 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -7,7 +7,6 @@ from cryptojwt.jws.jws import factory
 from idpyoidc.key_import import import_jwks
 
 from fedservice import message
-from fedservice.entity import apply_policies
 from fedservice.entity.function import Function
 from fedservice.entity.function import get_payload
 from fedservice.entity.function import get_verified_trust_chains
@@ -61,30 +60,23 @@ class TrustMarkVerifier(Function):
             logger.warning(f"Could not find any verifiable trust chains for {_trust_mark['iss']}")
             return None
 
-        if trust_anchor not in [_tc.anchor for _tc in _trust_chains]:
+        _trust_chains = [_tc for _tc in _trust_chains if _tc.anchor == trust_anchor]
+        if not _trust_chains:
             logger.warning(f'No verified trust chain to the trust anchor: {trust_anchor}')
             return None
 
-        # Now try to verify the signature on the trust_mark
-        # should have the necessary keys
-        _federation_entity = get_federation_entity(self)
-        _jwt = factory(trust_mark)
-        keyjar = _federation_entity.get_attribute('keyjar')
-
-        keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
-        if not keys:
-            _trust_chains = apply_policies(_federation_entity, _trust_chains)
-            keyjar = import_jwks(keyjar,
-                                 _trust_chains[0].verified_chain[-1]["jwks"],
-                                 _trust_chains[0].iss_path[0])
-            keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
-
-        try:
-            _mark = _jwt.verify_compact(trust_mark, keys=keys)
-        except Exception as err:
-            return None
-        else:
-            return _mark
+        # Now try to verify the signature on the trust_mark. Only the keys vouched for in a
+        # trust chain to the trust anchor counts.
+        for _trust_chain in _trust_chains:
+            try:
+                _jwt = factory(trust_mark)
+                keyjar = import_jwks(KeyJar(), _trust_chain.verified_chain[-1]["jwks"],
+                                     _trust_mark['iss'])
+                return _jwt.verify_compact(trust_mark, keys=keyjar.get_jwt_verify_keys(_jwt.jwt))
+            except Exception as err:
+                logger.warning(f"Could not verify the signature of the trust mark: {err}")
+
+        return None
 
     def verify_delegation(self, trust_mark, trust_anchor_id):
         _federation_entity = get_federation_entity(self)
-- 
2.43.0


From 8259819740bed260e07074cbfdc7f6b6d46d2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:37 +0000
Subject: [PATCH 28/47] fix: who may issue a trust mark is what the trust
 anchor says, signed with the trust anchor's known keys

---
 .../entity/function/trust_mark_verifier.py    | 62 ++++++++++++++-----
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index 355903f..77a0895 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -44,13 +44,6 @@ class TrustMarkVerifier(Function):
         if statement_is_expired(_trust_mark):
             return None
 
-        # deal with delegation
-        if 'delegation' in _trust_mark:
-            _delegation = self.verify_delegation(_trust_mark, trust_anchor)
-            if not _delegation:
-                logger.warning("Could not verify the delegation")
-                return None
-
         # Get trust chain
         # _federation_entity = get_federation_entity(self)
         # _chains, entity_conf = collect_trust_chains(_federation_entity, _trust_mark['iss'])
@@ -65,6 +58,15 @@ class TrustMarkVerifier(Function):
             logger.warning(f'No verified trust chain to the trust anchor: {trust_anchor}')
             return None
 
+        # Is it someone who may issue this trust mark ?
+        if 'delegation' in _trust_mark:
+            if not self.verify_delegation(_trust_mark, trust_anchor):
+                logger.warning("Could not verify the delegation")
+                return None
+        elif not self.entitled_issuer(_trust_mark, trust_anchor):
+            logger.warning(f"{_trust_mark['iss']} may not issue {_trust_mark['id']}")
+            return None
+
         # Now try to verify the signature on the trust_mark. Only the keys vouched for in a
         # trust chain to the trust anchor counts.
         for _trust_chain in _trust_chains:
@@ -79,14 +81,10 @@ class TrustMarkVerifier(Function):
         return None
 
     def verify_delegation(self, trust_mark, trust_anchor_id):
-        _federation_entity = get_federation_entity(self)
-        _collector = _federation_entity.function.trust_chain_collector
-        # Deal with the delegation
-        ta_fe_metadata = _collector.get_metadata(trust_anchor_id)['federation_entity']
-
-        if trust_mark['id'] not in ta_fe_metadata['trust_mark_issuers']:
+        ta_fe_metadata = self.trust_anchor_metadata(trust_anchor_id)
+        if trust_mark['id'] not in ta_fe_metadata.get('trust_mark_issuers', {}):
             return None
-        if trust_mark['id'] not in ta_fe_metadata['trust_mark_owners']:
+        if trust_mark['id'] not in ta_fe_metadata.get('trust_mark_owners', {}):
             return None
 
         tm_owner_info = ta_fe_metadata['trust_mark_owners'][trust_mark['id']]
@@ -105,3 +103,39 @@ class TrustMarkVerifier(Function):
             logger.warning(f"Not a delegation for this trust mark: {_info}")
             return None
         return _info
+
+    def trust_anchor_metadata(self, trust_anchor_id: str) -> dict:
+        """
+        What a trust anchor says about itself, signed with the keys I know that it has.
+        """
+        _function = get_federation_entity(self).function
+        _collector = _function.trust_chain_collector
+        _keys = _function.verifier.trust_anchor_keys(trust_anchor_id)
+
+        _ec = _collector.config_cache[trust_anchor_id]
+        if _ec:
+            try:
+                _ec = _function.verifier.verify_entity_statement(_ec['_jws'], trust_anchor_id, _keys)
+            except Exception as err:
+                logger.warning(f"Not the entity configuration of {trust_anchor_id}: {err}")
+                _ec = None
+        if not _ec:
+            _ec = _collector.collect_entity_configuration(trust_anchor_id)
+            _ec = _function.verifier.verify_entity_statement(_ec['_jws'], trust_anchor_id, _keys)
+
+        return _ec.get('metadata', {}).get('federation_entity', {})
+
+    def entitled_issuer(self, trust_mark, trust_anchor_id: str) -> bool:
+        """
+        Does the trust anchor allow the issuer to, on its own, issue this kind of trust mark.
+        """
+        ta_fe_metadata = self.trust_anchor_metadata(trust_anchor_id)
+        _issuers = ta_fe_metadata.get('trust_mark_issuers', {}).get(trust_mark['id'])
+        if _issuers is None:
+            # Not restricted, unless someone owns it
+            _owner = ta_fe_metadata.get('trust_mark_owners', {}).get(trust_mark['id'])
+            return _owner is None or _owner['sub'] == trust_mark['iss']
+
+        if isinstance(_issuers, str):
+            _issuers = [_issuers]
+        return not _issuers or trust_mark['iss'] in _issuers
-- 
2.43.0


From ddfc004507aef65276347be0fe3960316a2036c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 29/47] fix: verifying a trust mark: status check and subject
 as asked for, any trust anchor, refusal is not an exception

---
 src/fedservice/entity/__init__.py             | 34 ++++++-------------
 .../entity/function/trust_mark_verifier.py    | 34 ++++++++++++++++++-
 2 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 4542618..456e3eb 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -381,29 +381,17 @@ class FederationEntity(Unit):
         if not _tmi_trust_chains:
             return None
 
-        _tmi_trust_chain = _tmi_trust_chains[0]
-
-        # Verifies the signature of the Trust Mark
-        verified_trust_mark = self.function.trust_mark_verifier(
-            trust_mark=trust_mark, trust_anchor=_tmi_trust_chain.anchor)
-
-        if check_with_issuer:
-            # This to check that the Trust Mark is still valid according to the Trust Mark Issuer
-            resp = self.do_request("trust_mark_status",
-                                   request_args={
-                                       'sub': verified_trust_mark['sub'],
-                                       'id': verified_trust_mark['id'],
-                                       'trust_mark_id': verified_trust_mark['id']
-                                   },
-                                   fetch_endpoint=_tmi_trust_chain.metadata["federation_entity"][
-                                       "federation_trust_mark_status_endpoint"]
-                                   )
-            if "active" in resp and resp["active"] == True:
-                pass
-            else:
-                return None
-
-        return verified_trust_mark
+        # Verifies the signature of the Trust Mark, and that the issuer may issue it according to
+        # one of the trust anchors. If asked for, also that the Trust Mark is still valid
+        # according to the Trust Mark Issuer.
+        for trust_anchor in dict.fromkeys(_tc.anchor for _tc in _tmi_trust_chains):
+            verified_trust_mark = self.function.trust_mark_verifier(
+                trust_mark=trust_mark, trust_anchor=trust_anchor,
+                check_status=check_with_issuer)
+            if verified_trust_mark:
+                return verified_trust_mark
+
+        return None
 
     @property
     def trust_anchors(self):
diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index 77a0895..c119244 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -32,6 +32,9 @@ class TrustMarkVerifier(Function):
         the signing key is a federation key.
 
         :param trust_mark: A signed JWT representing a trust mark
+        :param trust_anchor: The trust anchor the issuer must have a trust chain to
+        :param check_status: Whether the issuer must be asked if the trust mark is active
+        :param entity_id: The entity the trust mark must be about
         :returns: TrustClaim message instance if OK otherwise None
         """
 
@@ -44,6 +47,10 @@ class TrustMarkVerifier(Function):
         if statement_is_expired(_trust_mark):
             return None
 
+        if entity_id and entity_id != _trust_mark['sub']:
+            logger.warning(f"A trust mark about {_trust_mark['sub']} and not {entity_id}")
+            return None
+
         # Get trust chain
         # _federation_entity = get_federation_entity(self)
         # _chains, entity_conf = collect_trust_chains(_federation_entity, _trust_mark['iss'])
@@ -74,12 +81,37 @@ class TrustMarkVerifier(Function):
                 _jwt = factory(trust_mark)
                 keyjar = import_jwks(KeyJar(), _trust_chain.verified_chain[-1]["jwks"],
                                      _trust_mark['iss'])
-                return _jwt.verify_compact(trust_mark, keys=keyjar.get_jwt_verify_keys(_jwt.jwt))
+                _mark = _jwt.verify_compact(trust_mark, keys=keyjar.get_jwt_verify_keys(_jwt.jwt))
             except Exception as err:
                 logger.warning(f"Could not verify the signature of the trust mark: {err}")
+                continue
+
+            if check_status and not self.is_active(_mark, _trust_chain):
+                return None
+            return _mark
 
         return None
 
+    def is_active(self, trust_mark: dict, trust_chain) -> bool:
+        """
+        Ask the Trust Mark Issuer whether this very trust mark still is valid.
+
+        :param trust_mark: The verified trust mark
+        :param trust_chain: The issuer's trust chain
+        """
+        resp = get_federation_entity(self).do_request(
+            "trust_mark_status",
+            request_args={
+                'sub': trust_mark['sub'],
+                'id': trust_mark['id'],
+                'trust_mark_id': trust_mark['id'],
+                'iat': trust_mark['iat']
+            },
+            fetch_endpoint=trust_chain.metadata["federation_entity"][
+                "federation_trust_mark_status_endpoint"]
+        )
+        return bool(resp) and resp.get("active") is True
+
     def verify_delegation(self, trust_mark, trust_anchor_id):
         ta_fe_metadata = self.trust_anchor_metadata(trust_anchor_id)
         if trust_mark['id'] not in ta_fe_metadata.get('trust_mark_issuers', {}):
-- 
2.43.0


From 655eafef511d88f34e34a643c80ea36e1318bc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:33 +0000
Subject: [PATCH 30/47] fix: a trust chain provided with a request must be
 about the client that makes the request

---
 .../appserver/oauth2/authorization.py         |  5 ++---
 .../appserver/oauth2/pushed_authorization.py  |  6 ++----
 .../appserver/oidc/authorization.py           |  6 ++----
 src/fedservice/entity/function/__init__.py    | 21 +++++++++++++++++++
 4 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 03e3ab8..739c1f3 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -10,6 +10,7 @@ from idpyoidc.server.oauth2 import authorization
 from fedservice.appserver import import_client_keys
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import collect_trust_chains
+from fedservice.entity.function import verify_provided_trust_chain
 from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.utils import get_federation_entity
 from fedservice.exception import NoTrustedChains
@@ -51,9 +52,7 @@ class Authorization(authorization.Authorization):
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
         if provided_trust_chain:
-            # So I get the TA's entity statement first
-            provided_trust_chain.reverse()
-            trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            trust_chains = verify_provided_trust_chain(self, entity_id, provided_trust_chain)
         else:
             chains, signed_entity_configuration = collect_trust_chains(self, entity_id)
             trust_chains = verify_trust_chains(self, chains, signed_entity_configuration)
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index c35b1b5..3f861cb 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -10,7 +10,7 @@ from idpyoidc.server.oauth2 import authorization
 
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import collect_trust_chains
-from fedservice.entity.function import verify_trust_chains
+from fedservice.entity.function import verify_provided_trust_chain
 from fedservice.entity.utils import get_federation_entity
 from fedservice.exception import NoTrustedChains
 from fedservice.message import OauthClientMetadata
@@ -44,9 +44,7 @@ class PushedAuthorization(Authorization):
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
         if provided_trust_chain:
-            # So I get the TA's entity statement first
-            provided_trust_chain.reverse()
-            trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            trust_chains = verify_provided_trust_chain(self, entity_id, provided_trust_chain)
             trust_chains = apply_policies(self, trust_chains)
         else:
             trust_chains = get_verified_trust_chains(self, entity_id)
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index e4e1ae0..f14a5dd 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -9,7 +9,7 @@ from idpyoidc.server.oidc import authorization
 
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import get_verified_trust_chains
-from fedservice.entity.function import verify_trust_chains
+from fedservice.entity.function import verify_provided_trust_chain
 from fedservice.entity.utils import get_federation_entity
 from fedservice.entity.utils import get_keys
 from fedservice.exception import NoTrustedChains
@@ -51,9 +51,7 @@ class Authorization(authorization.Authorization):
 
     def do_automatic_registration(self, client_entity_id: str, provided_trust_chain: List[str]):
         if provided_trust_chain:
-            # So I get the TA's entity statement first
-            provided_trust_chain.reverse()
-            trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            trust_chains = verify_provided_trust_chain(self, client_entity_id, provided_trust_chain)
             trust_chains = apply_policies(self, trust_chains)
         else:
             trust_chains = get_verified_trust_chains(self, client_entity_id)
diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index f337f8c..d8e0913 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -121,6 +121,27 @@ def verify_trust_chain(unit, chain: List[str]):
     return _verifier(chain)
 
 
+def verify_provided_trust_chain(unit, entity_id: str, trust_chain: List[str]):
+    """
+    Verify a trust chain that someone provided as being the trust chain of an entity.
+
+    :param unit: A Unit instance
+    :param entity_id: The entity the trust chain must be about
+    :param trust_chain: List of signed JWTs, starting with the Entity Configuration of the entity
+    :return: List of, at most one, TrustChain instances
+    """
+    # The verifier wants the TA's entity statement first
+    trust_chains = verify_trust_chains(unit, [list(reversed(trust_chain))])
+    res = []
+    for tc in trust_chains:
+        _leaf = tc.verified_chain[-1]
+        if _leaf["iss"] == entity_id and _leaf["sub"] == entity_id:
+            res.append(tc)
+        else:
+            logger.warning(f"Provided trust chain is not about {entity_id}")
+    return res
+
+
 def apply_policies(unit, trust_chains):
     """
     Goes through the collected trust chains, verifies them and applies policies.
-- 
2.43.0


From 7211d730b444a8e1860c12b2c57dcda0df4aa441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:43 +0000
Subject: [PATCH 31/47] fix: a registration that fails leaves the earlier
 registration of the client, if any, as it was

---
 src/fedservice/appserver/__init__.py          | 27 +++++++++++++++++++
 .../appserver/oauth2/authorization.py         |  8 ++----
 .../appserver/oauth2/pushed_authorization.py  |  8 ++----
 .../appserver/oidc/authorization.py           | 10 ++-----
 4 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/fedservice/appserver/__init__.py b/src/fedservice/appserver/__init__.py
index 30df939..018e941 100644
--- a/src/fedservice/appserver/__init__.py
+++ b/src/fedservice/appserver/__init__.py
@@ -53,6 +53,33 @@ def import_client_keys(information: Union[Message, dict], keyjar: KeyJar, entity
                 keyjar = import_jwks(keyjar, _jwks, entity_id)
 
 
+def register_client(registration: Endpoint, request: Message, **kwargs):
+    """
+    Register a client the way it's done outside a federation. If that doesn't succeed whatever was registered before
+    is still what's registered.
+
+    :param registration: The registration endpoint
+    :param request: The registration request, with the client identifier
+    :return: The identifier the client was registered under or None if the registration failed
+    """
+    _cdb = registration.upstream_get("context").cdb
+    _client_id = request["client_id"]
+    _old_info = _cdb.get(_client_id)
+    _registered_id = None
+    try:
+        response_info = registration.non_fed_process_request(req=request, **kwargs)
+        _registered_id = response_info["response_args"]["client_id"]
+    except KeyError:
+        pass
+    finally:
+        if _registered_id is None:
+            if _old_info is not None:
+                _cdb[_client_id] = _old_info
+            elif _client_id in _cdb:
+                del _cdb[_client_id]
+    return _registered_id
+
+
 class ServerEntity(ServerUnit):
     name = 'openid_provider'
     parameter = {"endpoint": [Endpoint], "context": EndpointContext}
diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 739c1f3..1949dfe 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -8,6 +8,7 @@ from idpyoidc.node import topmost_unit
 from idpyoidc.server.oauth2 import authorization
 
 from fedservice.appserver import import_client_keys
+from fedservice.appserver import register_client
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import verify_provided_trust_chain
@@ -78,12 +79,7 @@ class Authorization(authorization.Authorization):
 
         op = topmost_unit(self)['oauth_authorization_server']
         _registration = op.get_endpoint("registration")
-        response_info = _registration.non_fed_process_request(req=req, **kwargs)
-
-        try:
-            return response_info["response_args"]["client_id"]
-        except KeyError:
-            return None
+        return register_client(_registration, req, **kwargs)
 
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index 3f861cb..22f52bb 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -2,6 +2,7 @@ import logging
 from typing import List
 
 from fedservice.appserver import import_client_keys
+from fedservice.appserver import register_client
 from fedservice.entity.function import get_verified_trust_chains
 from idpyoidc.message import oauth2
 from idpyoidc.node import topmost_unit
@@ -70,12 +71,7 @@ class PushedAuthorization(Authorization):
 
         op = topmost_unit(self)['oauth_authorization_server']
         _registration = op.get_endpoint("registration")
-        response_info = _registration.non_fed_process_request(req=req, **kwargs)
-
-        try:
-            return response_info["response_args"]["client_id"]
-        except KeyError:
-            return None
+        return register_client(_registration, req, **kwargs)
 
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index f14a5dd..59cfde7 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -7,6 +7,7 @@ from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.node import topmost_unit
 from idpyoidc.server.oidc import authorization
 
+from fedservice.appserver import register_client
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import get_verified_trust_chains
 from fedservice.entity.function import verify_provided_trust_chain
@@ -83,12 +84,7 @@ class Authorization(authorization.Authorization):
 
         op = topmost_unit(self)['openid_provider']
         _registration = op.get_endpoint("registration")
-        response_info = _registration.non_fed_process_request(req=req, **kwargs)
-
-        try:
-            return response_info["response_args"]["client_id"]
-        except KeyError:
-            return None
+        return register_client(_registration, req, **kwargs)
 
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
@@ -97,8 +93,6 @@ class Authorization(authorization.Authorization):
         client_info = _context.cdb.get(_cid)
         if client_info is None or "automatic_registered" in client_info:
             if 'automatic' in _context.provider_info.get('client_registration_types_supported', []):
-                if client_info and "automatic_registered" in client_info:  # Remove the old one
-                    del _context.cdb[_cid]
                 # try the federation way
                 _trust_chain = request.get('trust_chain', [])
                 registered_client_id = self.do_automatic_registration(_cid, _trust_chain)
-- 
2.43.0


From d0b7d043fa50b5c0e3705a8e69216a49bbcecce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:42 +0000
Subject: [PATCH 32/47] fix: the keys of an automatically registered client are
 the ones in the metadata it is registered with

---
 src/fedservice/appserver/__init__.py          | 24 ++++++++++++++++---
 .../appserver/oauth2/authorization.py         |  6 +----
 .../appserver/oauth2/pushed_authorization.py  |  6 +----
 .../appserver/oidc/authorization.py           | 12 +---------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/fedservice/appserver/__init__.py b/src/fedservice/appserver/__init__.py
index 018e941..1a38b21 100644
--- a/src/fedservice/appserver/__init__.py
+++ b/src/fedservice/appserver/__init__.py
@@ -22,6 +22,7 @@ from idpyoidc.server.user_authn.authn_context import populate_authn_broker
 from idpyoidc.server.util import execute
 
 from fedservice.entity.claims import OPClaims
+from fedservice.entity.utils import get_federation_entity
 from fedservice.message import AuthorizationServerMetadata
 from fedservice.message import OPMetadata
 from fedservice.server import ServerUnit
@@ -53,20 +54,32 @@ def import_client_keys(information: Union[Message, dict], keyjar: KeyJar, entity
                 keyjar = import_jwks(keyjar, _jwks, entity_id)
 
 
-def register_client(registration: Endpoint, request: Message, **kwargs):
+def register_client(registration: Endpoint, request: Message, metadata: dict, **kwargs):
     """
-    Register a client the way it's done outside a federation. If that doesn't succeed whatever was registered before
-    is still what's registered.
+    Register a client the way it's done outside a federation. What was registered before, information and keys,
+    is replaced if the registration succeeds and is otherwise left as it was.
 
     :param registration: The registration endpoint
     :param request: The registration request, with the client identifier
+    :param metadata: The metadata of the client
     :return: The identifier the client was registered under or None if the registration failed
     """
     _cdb = registration.upstream_get("context").cdb
+    _keyjar = registration.upstream_get("attribute", "keyjar")
     _client_id = request["client_id"]
     _old_info = _cdb.get(_client_id)
+    _old_keys = None
+    # A key jar shared with the federation entity contains the federation keys of the client too
+    _fe = get_federation_entity(registration)
+    _own_keyjar = _keyjar is not _fe.keyjar and _client_id != _fe.entity_id
+    if _own_keyjar and _client_id in _keyjar.owners():
+        _old_keys = _keyjar[_client_id]
+        del _keyjar[_client_id]
+
     _registered_id = None
     try:
+        # If there is a signed_jwks_uri, jwks_uri or jwks in the metadata import keys
+        import_client_keys(metadata, _keyjar, _client_id)
         response_info = registration.non_fed_process_request(req=request, **kwargs)
         _registered_id = response_info["response_args"]["client_id"]
     except KeyError:
@@ -77,6 +90,11 @@ def register_client(registration: Endpoint, request: Message, **kwargs):
                 _cdb[_client_id] = _old_info
             elif _client_id in _cdb:
                 del _cdb[_client_id]
+            if _own_keyjar:
+                if _old_keys is not None:
+                    _keyjar[_client_id] = _old_keys
+                elif _client_id in _keyjar.owners():
+                    del _keyjar[_client_id]
     return _registered_id
 
 
diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 1949dfe..10cd857 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -7,7 +7,6 @@ from idpyoidc.message.oauth2 import OauthClientMetadata
 from idpyoidc.node import topmost_unit
 from idpyoidc.server.oauth2 import authorization
 
-from fedservice.appserver import import_client_keys
 from fedservice.appserver import register_client
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import collect_trust_chains
@@ -69,9 +68,6 @@ class Authorization(authorization.Authorization):
         _fe.trust_chain_anchor = trust_chain.anchor
 
         # handle the registration request as in the non-federation case.
-        # If there is a signed_jwks_uri, jwks_uri or jwks in the metadata import keys
-        import_client_keys(trust_chain.metadata['oauth_client'], self.upstream_get('attribute', 'keyjar'), entity_id)
-
         req = OauthClientMetadata(**trust_chain.metadata['oauth_client'])
         req['client_id'] = entity_id
         kwargs = {}
@@ -79,7 +75,7 @@ class Authorization(authorization.Authorization):
 
         op = topmost_unit(self)['oauth_authorization_server']
         _registration = op.get_endpoint("registration")
-        return register_client(_registration, req, **kwargs)
+        return register_client(_registration, req, trust_chain.metadata['oauth_client'], **kwargs)
 
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index 22f52bb..88ade6a 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -1,7 +1,6 @@
 import logging
 from typing import List
 
-from fedservice.appserver import import_client_keys
 from fedservice.appserver import register_client
 from fedservice.entity.function import get_verified_trust_chains
 from idpyoidc.message import oauth2
@@ -60,9 +59,6 @@ class PushedAuthorization(Authorization):
 
         _metadata = trust_chain.metadata['oauth_client']
 
-        # If there is a signed_jwks_uri, jwks_uri or jwks in the metadata import the keys
-        import_client_keys(_metadata, self.upstream_get('attribute', 'keyjar'), entity_id)
-
         req = OauthClientMetadata(**_metadata)
         req['client_id'] = entity_id
         kwargs = {}
@@ -71,7 +67,7 @@ class PushedAuthorization(Authorization):
 
         op = topmost_unit(self)['oauth_authorization_server']
         _registration = op.get_endpoint("registration")
-        return register_client(_registration, req, **kwargs)
+        return register_client(_registration, req, _metadata, **kwargs)
 
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index 59cfde7..16b713c 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -12,7 +12,6 @@ from fedservice.entity.function import apply_policies
 from fedservice.entity.function import get_verified_trust_chains
 from fedservice.entity.function import verify_provided_trust_chain
 from fedservice.entity.utils import get_federation_entity
-from fedservice.entity.utils import get_keys
 from fedservice.exception import NoTrustedChains
 
 logger = logging.getLogger(__name__)
@@ -67,15 +66,6 @@ class Authorization(authorization.Authorization):
         # _fe.trust_chain_anchor = trust_chain.anchor
 
         # handle the registration request as in the non-federation case.
-        # If there is a jwks_uri in the metadata import keys
-        _root = topmost_unit(self)
-        if "openid_provider" in _root:
-            get_keys(
-                trust_chain.metadata['openid_relying_party'],
-                self.upstream_get('attribute', 'keyjar'),
-                client_entity_id,
-                self)
-
         req = RegistrationRequest(**trust_chain.metadata['openid_relying_party'])
         req['client_id'] = client_entity_id
         kwargs = {}
@@ -84,7 +74,7 @@ class Authorization(authorization.Authorization):
 
         op = topmost_unit(self)['openid_provider']
         _registration = op.get_endpoint("registration")
-        return register_client(_registration, req, **kwargs)
+        return register_client(_registration, req, trust_chain.metadata['openid_relying_party'], **kwargs)
 
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
-- 
2.43.0


From 8bfe21c624c2cf282b62dba0b134abcb48ce73d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:20 +0000
Subject: [PATCH 33/47] fix: an explicit registration registers what the trust
 chains say about the signed request

---
 src/fedservice/appserver/__init__.py          | 25 +++++++++++++------
 .../appserver/oauth2/registration.py          | 12 +++++++--
 src/fedservice/appserver/oidc/registration.py | 18 ++++++++++---
 3 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/fedservice/appserver/__init__.py b/src/fedservice/appserver/__init__.py
index 1a38b21..b0ae035 100644
--- a/src/fedservice/appserver/__init__.py
+++ b/src/fedservice/appserver/__init__.py
@@ -54,7 +54,7 @@ def import_client_keys(information: Union[Message, dict], keyjar: KeyJar, entity
                 keyjar = import_jwks(keyjar, _jwks, entity_id)
 
 
-def register_client(registration: Endpoint, request: Message, metadata: dict, **kwargs):
+def do_registration(registration: Endpoint, request: Message, metadata: dict, **kwargs):
     """
     Register a client the way it's done outside a federation. What was registered before, information and keys,
     is replaced if the registration succeeds and is otherwise left as it was.
@@ -62,7 +62,7 @@ def register_client(registration: Endpoint, request: Message, metadata: dict, **
     :param registration: The registration endpoint
     :param request: The registration request, with the client identifier
     :param metadata: The metadata of the client
-    :return: The identifier the client was registered under or None if the registration failed
+    :return: What the registration endpoint came up with
     """
     _cdb = registration.upstream_get("context").cdb
     _keyjar = registration.upstream_get("attribute", "keyjar")
@@ -76,16 +76,14 @@ def register_client(registration: Endpoint, request: Message, metadata: dict, **
         _old_keys = _keyjar[_client_id]
         del _keyjar[_client_id]
 
-    _registered_id = None
+    _registered = False
     try:
         # If there is a signed_jwks_uri, jwks_uri or jwks in the metadata import keys
         import_client_keys(metadata, _keyjar, _client_id)
         response_info = registration.non_fed_process_request(req=request, **kwargs)
-        _registered_id = response_info["response_args"]["client_id"]
-    except KeyError:
-        pass
+        _registered = "response_args" in response_info
     finally:
-        if _registered_id is None:
+        if not _registered:
             if _old_info is not None:
                 _cdb[_client_id] = _old_info
             elif _client_id in _cdb:
@@ -95,7 +93,18 @@ def register_client(registration: Endpoint, request: Message, metadata: dict, **
                     _keyjar[_client_id] = _old_keys
                 elif _client_id in _keyjar.owners():
                     del _keyjar[_client_id]
-    return _registered_id
+    return response_info
+
+
+def register_client(registration: Endpoint, request: Message, metadata: dict, **kwargs):
+    """
+    :return: The identifier the client was registered under or None if the registration failed
+    """
+    response_info = do_registration(registration, request, metadata, **kwargs)
+    try:
+        return response_info["response_args"]["client_id"]
+    except KeyError:
+        return None
 
 
 class ServerEntity(ServerUnit):
diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 31f1abc..61f4cb9 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -26,6 +26,7 @@ from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
+from fedservice.exception import NoTrustedChains
 from fedservice.message import OauthClientInformationResponse
 
 logger = logging.getLogger(__name__)
@@ -60,8 +61,12 @@ class Registration(Endpoint):
         :return:
         """
         payload = verify_self_signed_signature(request)
-        opponent_entity_type = set(payload['metadata'].keys()).difference({'federation_entity',
-                                                                           'trust_mark_issuer'}).pop()
+        _entity_types = set(payload['metadata'].keys())
+        if 'oauth_client' in _entity_types:
+            opponent_entity_type = 'oauth_client'
+        else:
+            opponent_entity_type = _entity_types.difference({'federation_entity',
+                                                             'trust_mark_issuer'}).pop()
         _federation_entity = get_federation_entity(self)
 
         # Collect trust chains
@@ -70,6 +75,9 @@ class Registration(Endpoint):
                                           signed_entity_configuration=request)
         _trust_chains = verify_trust_chains(_federation_entity, _chains, request)
         _trust_chains = apply_policies(_federation_entity, _trust_chains)
+        if not _trust_chains:
+            raise NoTrustedChains(f"No trust chains for {payload['sub']}")
+
         trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         _federation_entity.trust_chain_anchor = trust_chain.anchor
         # Perform non-federation registration
diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index a87f860..dd12bd3 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -1,11 +1,14 @@
 import logging
 
+from fedservice.appserver import do_registration
 from fedservice.exception import NoTrustedChains
 from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.server.oidc import registration
 
 from fedservice import save_trust_chains
+from fedservice.entity.function import apply_policies
 from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
 
@@ -37,7 +40,9 @@ class Registration(registration.Registration):
         """
         payload = verify_self_signed_signature(request)
         _entity_types = set(payload['metadata'].keys())
-        if len(_entity_types) == 1:
+        if 'openid_relying_party' in _entity_types:
+            opponent_entity_type = 'openid_relying_party'
+        elif len(_entity_types) == 1:
             opponent_entity_type = _entity_types.pop()
         else:
             opponent_entity_type = _entity_types.difference({'federation_entity'}).pop()
@@ -49,14 +54,21 @@ class Registration(registration.Registration):
         if not _trust_chains:
             raise NoTrustedChains(f"No trust chains for {payload['sub']}")
 
+        # What counts is what's in the request. It must be signed with keys the superiors vouch for.
+        _trust_chains = verify_trust_chains(_federation_entity,
+                                            [tc.chain[:-1] + [request] for tc in _trust_chains])
+        _trust_chains = apply_policies(_federation_entity, _trust_chains)
+        if not _trust_chains:
+            raise NoTrustedChains(f"Request not covered by the trust chains for {payload['sub']}")
+
         save_trust_chains(self.upstream_get("context"), _trust_chains)
         trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         _federation_entity.trust_chain_anchor = trust_chain.anchor
 
-        req = RegistrationRequest(**payload["metadata"][opponent_entity_type])
+        req = RegistrationRequest(**trust_chain.metadata[opponent_entity_type])
         req["client_id"] = payload['sub']
         # Perform non-federation registration
-        response_info = self.non_fed_process_request(req, **kwargs)
+        response_info = do_registration(self, req, trust_chain.metadata[opponent_entity_type], **kwargs)
         if "response_args" in response_info:
             logger.debug(f"Registration response args: {response_info['response_args']}")
             _context = _federation_entity.context
-- 
2.43.0


From 7e00f6560e32bac69ff15317a11c55410d65341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:20 +0000
Subject: [PATCH 34/47] fix: a registration response must be signed with keys
 the federation vouches for and be a response to me

---
 .../appclient/oauth2/registration.py          | 48 ++++++++++-------
 src/fedservice/appclient/oidc/registration.py | 51 ++++++++++++-------
 src/fedservice/entity/function/__init__.py    | 23 +++++++++
 3 files changed, 87 insertions(+), 35 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index bbe2e7d..1c19e18 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -11,11 +11,11 @@ from idpyoidc.message.oauth2 import ResponseMessage
 from idpyoidc.node import topmost_unit
 
 from fedservice.entity.function import apply_policies
-from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import get_verified_trust_chains
-from fedservice.entity.function import verify_trust_chains
+from fedservice.entity.function import verify_issued_by
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
+from fedservice.exception import NoTrustedChains
 from fedservice.exception import SignatureFailure
 
 logger = logging.getLogger(__name__)
@@ -120,16 +120,24 @@ class Registration(registration.Registration):
     def _get_trust_anchor_id(self, entity_statement):
         return entity_statement.get('trust_anchor_id')
 
-    def _signature_verifies(self, entity_id, trust_anchor, federation_entity):
-        _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                          entity_id=entity_id,
-                                          stop_at=trust_anchor)
-        if not _chains:
+    def _addressed_to_me(self, payload, **kwargs):
+        _my_id = self.upstream_get('attribute', 'entity_id')
+        if payload['sub'] != _my_id:
+            return False
+        _aud = payload.get('aud')
+        if isinstance(_aud, str):
+            _aud = [_aud]
+        if _aud is not None and _my_id not in _aud:
+            return False
+        # Is it from the server I sent the request to ?
+        _client = (kwargs.get("behaviour_args") or {}).get("client")
+        if _client and _client.context.issuer and _client.context.issuer != payload['iss']:
             return False
-
-        _trust_chains = verify_trust_chains(federation_entity, _chains)
         return True
 
+    def _signature_verifies(self, resp, entity_id, trust_anchor, federation_entity):
+        return verify_issued_by(federation_entity, resp, entity_id, trust_anchor) is not None
+
     def parse_federation_registration_response(self, resp, **kwargs):
         """
         Receives a dynamic client registration response,
@@ -149,6 +157,9 @@ class Registration(registration.Registration):
                 _federation_entity.function.trust_chain_collector.trust_anchors):
             raise ValueError("Trust anchor I don't trust")
 
+        if not self._addressed_to_me(payload, **kwargs):
+            raise ValueError("Not a response to my request")
+
         # This is where I should decide to use the metadata verification service or do it
         # all myself
         # Do I have the necessary Function/Service installed
@@ -160,23 +171,26 @@ class Registration(registration.Registration):
                 return _verifier_response
         else:
             # verify the signature on the response from the OP
-            if not self._signature_verifies(payload["iss"], payload['trust_anchor_id'],
+            if not self._signature_verifies(resp, payload["iss"], payload['trust_anchor_id'],
                                             _federation_entity):
                 raise SignatureFailure("Could not verify signature")
 
             # This is the trust chain from myself to the TA
-            _trust_chains = get_verified_trust_chains(self, entity_id=self.upstream_get('attribute',
-                                                                                        'entity_id'))
-
-            # should only be one chain
-            if len(_trust_chains) != 1:
-                raise SystemError(f"More then one chain ending in {payload['trust_anchor_id']}")
+            _trust_chains = get_verified_trust_chains(
+                self, entity_id=self.upstream_get('attribute', 'entity_id'),
+                stop_at=payload['trust_anchor_id'])
+            _trust_chains = [tc for tc in _trust_chains if tc.anchor == payload['trust_anchor_id']]
+            if not _trust_chains:
+                raise NoTrustedChains(f"No chain ending in {payload['trust_anchor_id']}")
 
             _metadata = payload.get("metadata")
             if _metadata:
-                _trust_chains[0].verified_chain[-1]['metadata'] = _metadata
+                for _trust_chain in _trust_chains:
+                    _trust_chain.verified_chain[-1]['metadata'] = _metadata
                 # If it's metadata_policy what to do ?
                 _trust_chains = apply_policies(_federation_entity, _trust_chains)
+                if not _trust_chains:
+                    raise NoTrustedChains("Metadata does not follow the policies")
 
             _resp = _trust_chains[0].metadata
             _context = self.upstream_get('context')
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index aed99df..1aef2fb 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -7,10 +7,11 @@ from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.message.oidc import RegistrationResponse
 
 from fedservice.entity.function import apply_policies
-from fedservice.entity.function import collect_trust_chains
-from fedservice.entity.function import verify_trust_chains
+from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function import verify_issued_by
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
+from fedservice.exception import NoTrustedChains
 from fedservice.exception import SignatureFailure
 
 logger = logging.getLogger(__name__)
@@ -99,16 +100,24 @@ class Registration(registration.Registration):
     def _get_trust_anchor_id(self, entity_statement):
         return entity_statement.get('trust_anchor_id')
 
-    def _signature_verifies(self, entity_id, trust_anchor, federation_entity):
-        _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                          entity_id=entity_id,
-                                          stop_at=trust_anchor)
-        if not _chains:
+    def _addressed_to_me(self, payload, **kwargs):
+        _my_id = self.upstream_get('attribute', 'entity_id')
+        if payload['sub'] != _my_id:
+            return False
+        _aud = payload.get('aud')
+        if isinstance(_aud, str):
+            _aud = [_aud]
+        if _aud is not None and _my_id not in _aud:
+            return False
+        # Is it from the server I sent the request to ?
+        _client = (kwargs.get("behaviour_args") or {}).get("client")
+        if _client and _client.context.issuer and _client.context.issuer != payload['iss']:
             return False
-
-        _trust_chains = verify_trust_chains(federation_entity, _chains)
         return True
 
+    def _signature_verifies(self, resp, entity_id, trust_anchor, federation_entity):
+        return verify_issued_by(federation_entity, resp, entity_id, trust_anchor) is not None
+
     def parse_federation_registration_response(self, resp, **kwargs):
         """
         Receives a dynamic client registration response,
@@ -127,6 +136,9 @@ class Registration(registration.Registration):
             'trust_anchor_id'] not in _federation_entity.function.trust_chain_collector.trust_anchors:
             raise ValueError("Trust anchor I don't trust")
 
+        if not self._addressed_to_me(payload, **kwargs):
+            raise ValueError("Not a response to my request")
+
         # This is where I should decide to use the metadata verification service or do it
         # all myself
         # Do I have the necessary Function/Service installed
@@ -138,23 +150,26 @@ class Registration(registration.Registration):
                 return _verifier_response
         else:
             # verify the signature on the response from the OP
-            if not self._signature_verifies(payload["iss"], payload['trust_anchor_id'],
+            if not self._signature_verifies(resp, payload["iss"], payload['trust_anchor_id'],
                                             _federation_entity):
                 raise SignatureFailure("Could not verify signature")
 
             # This is the trust chain from the RP to the TA
-            _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                              entity_id=self.upstream_get('attribute', 'entity_id'),
-                                              stop_at=payload['trust_anchor_id'])
-            _trust_chains = verify_trust_chains(_federation_entity, _chains, resp)
-            # should only be one chain
-            if len(_trust_chains) != 1:
-                raise SystemError(f"More then one chain ending in {payload['trust_anchor_id']}")
+            _trust_chains = get_verified_trust_chains(
+                self, entity_id=self.upstream_get('attribute', 'entity_id'),
+                stop_at=payload['trust_anchor_id'])
+            _trust_chains = [tc for tc in _trust_chains if tc.anchor == payload['trust_anchor_id']]
+            if not _trust_chains:
+                raise NoTrustedChains(f"No chain ending in {payload['trust_anchor_id']}")
+
             _metadata = payload.get("metadata")
             if _metadata:
-                _trust_chains[0].verified_chain[-1]['metadata'] = _metadata
+                for _trust_chain in _trust_chains:
+                    _trust_chain.verified_chain[-1]['metadata'] = _metadata
             # If it's metadata_policy what to do ?
             _trust_chains = apply_policies(_federation_entity, _trust_chains)
+            if not _trust_chains:
+                raise NoTrustedChains("Metadata does not follow the policies")
             _resp = _trust_chains[0].metadata['openid_relying_party']
             _context = self.upstream_get('context')
             _context.registration_response = _resp
diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index d8e0913..436ff8a 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -195,6 +195,29 @@ def get_verified_trust_chains(unit, entity_id, stop_at: Optional[str] = ""):
     return trust_chains
 
 
+def verify_issued_by(unit, entity_statement: str, issuer: str, trust_anchor: str):
+    """
+    Verify that an entity statement, which is not part of a trust chain, is signed by an entity
+    in the federation.
+
+    :param unit: A Unit instance
+    :param entity_statement: Signed JWT
+    :param issuer: Entity ID of the entity that should have signed the statement
+    :param trust_anchor: The trust anchor the issuer must have a trust chain to.
+    :return: The verified statement or None
+    """
+    _verifier = get_federation_entity(unit).function.verifier
+    for trust_chain in get_verified_trust_chains(unit, issuer, stop_at=trust_anchor):
+        if trust_chain.anchor != trust_anchor:
+            continue
+        try:
+            return _verifier.verify_entity_statement(entity_statement, issuer,
+                                                     trust_chain.verified_chain[-1]['jwks'])
+        except Exception as err:
+            logger.warning(f"Statement not verified: {err}")
+    return None
+
+
 def get_entity_endpoint(unit, entity_id, metadata_type, metadata_parameter):
     _federation_entity = get_federation_entity(unit)
     if entity_id in _federation_entity.trust_anchors:
-- 
2.43.0


From c60a9f0deb7875cc28307aeacbee980dd1aeed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 35/47] fix: an OAuth2 client whose registration is refused is
 not left registered

---
 .../appserver/oauth2/registration.py           | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 61f4cb9..92ba45a 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -363,12 +363,18 @@ class Registration(Endpoint):
         logger.debug("Stored client info in CDB under cid={}".format(client_id))
 
         _context.cdb[client_id] = _cinfo
-        _cinfo = self.do_client_registration(
-            request,
-            client_id,
-            ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
-        )
-        if isinstance(_cinfo, ResponseMessage):
+        _registered = False
+        try:
+            _cinfo = self.do_client_registration(
+                request,
+                client_id,
+                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
+            )
+            _registered = not isinstance(_cinfo, ResponseMessage)
+        finally:
+            if new_id and not _registered:
+                del _context.cdb[client_id]
+        if not _registered:
             return _cinfo
 
         args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
-- 
2.43.0


From ce62f00aec34130fd75d24cf1fc9e7da44dfd3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:55 +0000
Subject: [PATCH 36/47] fix: requests made by different threads must not share
 the issuer

The federation client's context holds whom the client is talking to. Two threads making
requests at the same time overwrote each other's, and answers got verified against (or
requests sent to) the wrong issuer.
---
 src/fedservice/entity/client/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/fedservice/entity/client/__init__.py b/src/fedservice/entity/client/__init__.py
index 1d40d71..f0d107c 100644
--- a/src/fedservice/entity/client/__init__.py
+++ b/src/fedservice/entity/client/__init__.py
@@ -1,4 +1,5 @@
 import logging
+import threading
 from json import JSONDecodeError
 from typing import Callable
 from typing import List
@@ -47,6 +48,9 @@ class FederationServiceContext(FederationContext):
         if config is None:
             config = {}
 
+        self._issuer = None
+        self._request = threading.local()
+
         FederationContext.__init__(self,
                                    config=config,
                                    entity_id=entity_id,
@@ -64,6 +68,17 @@ class FederationServiceContext(FederationContext):
             _key_jar = import_jwks(_key_jar, jwks, iss)
         self.server_metadata = {}
 
+    @property
+    def issuer(self):
+        """
+        Whom I'm talking to. Other threads may at the same time be talking to someone else.
+        """
+        return getattr(self._request, "issuer", self._issuer)
+
+    @issuer.setter
+    def issuer(self, value):
+        self._request.issuer = self._issuer = value
+
     def _get_crypt(self, typ, attr):
         _item_typ = CLI_REG_MAP.get(typ)
         _alg = ''
-- 
2.43.0


From fe9cfcca8fede6818e6dbb49b800d15a14502d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:55 +0000
Subject: [PATCH 37/47] fix: a listing must not fail because the registry
 changes meanwhile

---
 src/fedservice/entity/server/list.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 45fa704..20f652d 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -74,8 +74,8 @@ class List(Endpoint):
             return {'response_msg': json.dumps(list(_db.keys()))}
         else:
             subordinate_conf = None
-            # All the filters must match
-            matched_entity_ids = [entity_id for entity_id, item in _db.items()
+            # All the filters must match. The registry may change while I'm looking at it.
+            matched_entity_ids = [entity_id for entity_id, item in list(_db.items())
                                   if self.matching_registration(item, request)]
 
             # I don't expect to know about trust marks from the registration
@@ -97,7 +97,9 @@ class List(Endpoint):
         _collector = _federation_entity.function.trust_chain_collector
         sub = {}
         for entity_id in entity_ids:
-            conf = _federation_entity.server.subordinate[entity_id]
+            conf = _federation_entity.server.subordinate.get(entity_id)
+            if not conf:  # no longer a subordinate
+                continue
             try:
                 #  get entity configuration for subordinate
                 _entity_configuration = _collector.get_entity_configuration(entity_id)
-- 
2.43.0


From 12458562310c230211b3c67cb74d8120cc698db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:55 +0000
Subject: [PATCH 38/47] fix: one statement is about one registration

Looking the subordinate up twice may give two different registrations.
---
 src/fedservice/entity/server/fetch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index e3ddd4b..0b4f835 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -52,8 +52,8 @@ class Fetch(Endpoint):
                 raise UnknownEntity(_sub)
 
             # The registered information must not change because someone asks for it
+            _entity_types = _response.get('entity_types')
             _response = {k: v for k, v in _response.items() if k != 'entity_types'}
-            _entity_types = _server.subordinate[_sub].get('entity_types')
 
             if not 'authority_hints' in _response:
                 # If nothing specified add myself
-- 
2.43.0


From f4f351dfa76d65e1d6378b23bc002b95b892440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:30 +0000
Subject: [PATCH 39/47] fix: a cached statement must not be judged by the
 lifetime of the one that replaced it

A thread that had read an outdated statement could find the expiry time of a fresh one that
another thread just had collected, and then fail to verify the trust chain.
---
 src/fedservice/entity/function/trust_chain_collector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index a6af501..25b2d52 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -278,13 +278,15 @@ class TrustChainCollector(Function):
         # Try to get the entity statement from the cache
         _cache_key = cache_key(authority, entity)
         _time_key = time_key(authority, entity)
+        # In this order. If another thread replaces the statement meanwhile, I must not take the old
+        # statement for one that is valid as long as the new one.
+        _exp = self.entity_statement_cache[_time_key]
         entity_statement = self.entity_statement_cache[_cache_key]
 
         if entity_statement is not None:
             logger.debug("Have cached statement")
             # Verify that the cached statement is not too old
             _now = utc_time_sans_frac()
-            _exp = self.entity_statement_cache[_time_key]
             if _exp is None or _now > (_exp - self.allowed_delta):
                 logger.debug("Cached entity statement timed out")
                 del self.entity_statement_cache[_cache_key]
@@ -324,8 +326,8 @@ class TrustChainCollector(Function):
         logger.debug(f"Unverified entity statement from {fetch_endpoint} about {entity}: {statement}")
         if statement["iss"] != authority or statement["sub"] != entity:
             raise ValueError(f"Not an entity statement by {authority} about {entity}")
-        self.entity_statement_cache[time_key(authority, entity)] = statement["exp"]
         self.entity_statement_cache[cache_key(authority, entity)] = entity_statement
+        self.entity_statement_cache[time_key(authority, entity)] = statement["exp"]
         return entity_statement
 
     def forget_chain(self, chain: List[str], verified: Optional[list] = None):
-- 
2.43.0


From 78ad6955348cfbe1b01082a08883ef6972ebcb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:03 +0000
Subject: [PATCH 40/47] fix: trust marks issued at the same time are all
 remembered

SimpleDB looked whether there was something stored about a trust mark id and then acted on it,
so of two first trust marks issued by different threads one could get lost. And listing failed
when a trust mark was issued meanwhile.
---
 src/fedservice/trust_mark_entity/__init__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index dbe7be1..fa473e4 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -129,17 +129,15 @@ class SimpleDB(object):
         self._db = {}
 
     def add(self, tm_info: dict):
-        if tm_info['id'] in self._db:
-            self._db[tm_info['id']].setdefault(tm_info['sub'], []).append(tm_info)
-        else:
-            self._db[tm_info['id']] = {tm_info["sub"]: [tm_info]}
+        # Other threads may be adding too
+        self._db.setdefault(tm_info['id'], {}).setdefault(tm_info['sub'], []).append(tm_info)
 
     def list(self, trust_mark_id, sub: Optional[str] = ""):
         if sub:
             if self.find(trust_mark_id, sub):
                 return [sub]
         elif trust_mark_id in self._db:
-            return [_sub for _sub in self._db[trust_mark_id] if self.find(trust_mark_id, _sub)]
+            return [_sub for _sub in list(self._db[trust_mark_id]) if self.find(trust_mark_id, _sub)]
         return []
 
     def find(self, trust_mark_id, sub: str, iat: Optional[int] = 0) -> bool:
-- 
2.43.0


From de82d32bc516cf33ae8675a3b8505d9cc5bf90db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:24 +0000
Subject: [PATCH 41/47] fix: private and symmetric keys must not be published
 in entity statements

---
 src/fedservice/entity_statement/create.py | 37 +++++++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity_statement/create.py b/src/fedservice/entity_statement/create.py
index 3fe26a8..35a0cd5 100644
--- a/src/fedservice/entity_statement/create.py
+++ b/src/fedservice/entity_statement/create.py
@@ -2,9 +2,40 @@ import logging
 from typing import Callable
 
 from cryptojwt.jwt import JWT
+from idpyoidc.message import Message
 
 logger = logging.getLogger(__name__)
 
+PRIVATE_KEY_PARAMETERS = ['d', 'p', 'q', 'dp', 'dq', 'qi', 'oth', 'k']
+
+
+def is_jwks(item):
+    return isinstance(item, (dict, Message)) and isinstance(item.get('keys'), list)
+
+
+def public_jwks(jwks):
+    """
+    A key jar may also contain symmetric keys, like the one based on a client_secret. Those must not
+    be published and neither must the private parts of keys.
+
+    :param jwks: A JWKS
+    :return: A JWKS with only public keys.
+    """
+    if not is_jwks(jwks):
+        return jwks
+    return {'keys': [{k: v for k, v in key.items() if k not in PRIVATE_KEY_PARAMETERS}
+                     for key in jwks['keys'] if key.get('kty', '').lower() != 'oct']}
+
+
+def public_metadata(metadata):
+    res = {}
+    for entity_type, claims in metadata.items():
+        if isinstance(claims, (dict, Message)) and is_jwks(claims.get('jwks')):
+            claims = dict(claims.items())
+            claims['jwks'] = public_jwks(claims['jwks'])
+        res[entity_type] = claims
+    return res
+
 
 def create_entity_statement(iss, sub, key_jar, metadata=None, metadata_policy=None,
                             authority_hints=None, lifetime=86400, aud='', include_jwks=True,
@@ -28,7 +59,7 @@ def create_entity_statement(iss, sub, key_jar, metadata=None, metadata_policy=No
 
     msg = {'sub': sub}
     if metadata:
-        msg['metadata'] = metadata
+        msg['metadata'] = public_metadata(metadata)
 
     if metadata_policy:
         msg['metadata_policy'] = metadata_policy
@@ -50,10 +81,10 @@ def create_entity_statement(iss, sub, key_jar, metadata=None, metadata_policy=No
 
     if include_jwks:
         if "jwks" in kwargs:
-            msg['jwks'] = kwargs['jwks']
+            msg['jwks'] = public_jwks(kwargs['jwks'])
         else:
             # The public signing keys of the subject
-            msg['jwks'] = key_jar.export_jwks()
+            msg['jwks'] = public_jwks(key_jar.export_jwks())
 
     packer = JWT(key_jar=key_jar, iss=iss, lifetime=lifetime)
 
-- 
2.43.0


From 8710f1b16e00bccca7fdd59119d9a3a3db5fb3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:18 +0000
Subject: [PATCH 42/47] fix: importing keys must not change the dictionaries
 with the trust anchors' keys

---
 src/fedservice/entity/__init__.py                       | 4 +++-
 src/fedservice/entity/client/__init__.py                | 4 +++-
 src/fedservice/entity/function/trust_chain_collector.py | 7 +++++--
 src/fedservice/entity/function/verifier.py              | 4 +++-
 src/fedservice/utils.py                                 | 8 ++++++--
 5 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 456e3eb..6d7261b 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 from typing import Callable
 from typing import Optional
@@ -409,7 +410,8 @@ class FederationEntity(Unit):
         else:
             raise ValueError("Missing keyjar")
 
-        _keyjar = import_jwks(_keyjar, jwks, entity_id)
+        # Importing keys changes the dictionary
+        _keyjar = import_jwks(_keyjar, copy.deepcopy(jwks), entity_id)
         self.trust_anchors[entity_id] = jwks
 
     def supports(self):
diff --git a/src/fedservice/entity/client/__init__.py b/src/fedservice/entity/client/__init__.py
index f0d107c..7bf38b2 100644
--- a/src/fedservice/entity/client/__init__.py
+++ b/src/fedservice/entity/client/__init__.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 import threading
 from json import JSONDecodeError
@@ -65,7 +66,8 @@ class FederationServiceContext(FederationContext):
         self.signed_trust_marks = []
         _key_jar = self.upstream_get("attribute", "keyjar")
         for iss, jwks in self.trusted_roots.items():
-            _key_jar = import_jwks(_key_jar, jwks, iss)
+            # Importing keys changes the dictionary
+            _key_jar = import_jwks(_key_jar, copy.deepcopy(jwks), iss)
         self.server_metadata = {}
 
     @property
diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 25b2d52..279f85f 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 from ssl import SSLError
 from typing import Callable
@@ -83,7 +84,8 @@ class TrustChainCollector(Function):
             self.keyjar = None
             keyjar = upstream_get("attribute", "keyjar")
         for id, keys in trust_anchors.items():
-            keyjar = import_jwks(keyjar, keys, id)
+            # Importing keys changes the dictionary
+            keyjar = import_jwks(keyjar, copy.deepcopy(keys), id)
 
     def _get_service(self, service):
         federation_entity = get_federation_entity(self)
@@ -426,7 +428,8 @@ class TrustChainCollector(Function):
         else:
             raise ValueError("Missing keyjar")
 
-        _keyjar = import_jwks(_keyjar, jwks, entity_id)
+        # Importing keys changes the dictionary
+        _keyjar = import_jwks(_keyjar, copy.deepcopy(jwks), entity_id)
         self.trust_anchors[entity_id] = jwks
 
     def get_chain(self, iss_path, trust_anchor, with_ta_ec: Optional[bool] = False):
diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index afd6c9b..e10c89b 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 from typing import Callable
 from typing import List
@@ -78,7 +79,8 @@ class TrustChainVerifier(Function):
             raise ValueError(f'Entity statement not issued by {issuer}')
 
         # Only the keys vouched for in this trust chain counts
-        _keyjar = import_jwks(KeyJar(), jwks, issuer)
+        # Importing keys changes the dictionary
+        _keyjar = import_jwks(KeyJar(), copy.deepcopy(jwks), issuer)
         keys = _keyjar.get_jwt_verify_keys(_jwt.jwt)
         if keys == []:
             raise MissingKey(f'No keys matching: {_jwt.jwt.headers}')
diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 49bf178..7a37308 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import logging
 import os
@@ -143,7 +144,8 @@ def make_federation_entity(entity_id: str,
             trust_anchors = dict(trust_anchors)
 
         for id, jwk in trust_anchors.items():
-            fe.keyjar = import_jwks(fe.keyjar, jwk, id)
+            # Importing keys changes the dictionary
+            fe.keyjar = import_jwks(fe.keyjar, copy.deepcopy(jwk), id)
 
         fe.function.trust_chain_collector.trust_anchors = trust_anchors
 
@@ -238,7 +240,9 @@ def make_federation_combo(entity_id: str,
             trust_anchors = dict(trust_anchors)
 
         for id, jwk in trust_anchors.items():
-            federation_entity.keyjar = import_jwks(federation_entity.keyjar, jwk, id)
+            # Importing keys changes the dictionary
+            federation_entity.keyjar = import_jwks(federation_entity.keyjar,
+                                                   copy.deepcopy(jwk), id)
 
         federation_entity.function.trust_chain_collector.trust_anchors = trust_anchors
 
-- 
2.43.0


From 927ddeb4049ed452a6f9cd133f21d605575afb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:38 +0000
Subject: [PATCH 43/47] fix: a trust mark issuer must not change the
 specification it is given

---
 src/fedservice/trust_mark_entity/entity.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/entity.py b/src/fedservice/trust_mark_entity/entity.py
index f53b2ea..bba7f6e 100644
--- a/src/fedservice/trust_mark_entity/entity.py
+++ b/src/fedservice/trust_mark_entity/entity.py
@@ -37,13 +37,8 @@ class TrustMarkEntity(Unit):
         self.entity_id = entity_id or upstream_get("attribute", "entity_id")
         self.endpoint = do_endpoints({"endpoint": endpoint, "issuer": self.entity_id},
                                      self.unit_get)
-        self.trust_mark_specification = trust_mark_specification or {}
-
-        self.tm_lifetime = {}
-        for entity_id, tm in self.trust_mark_specification.items():
-            if "lifetime" in tm:
-                self.tm_lifetime[entity_id] = tm["lifetime"]
-                del tm["lifetime"]
+        # A copy, the specification may be used for more than one issuer
+        self.trust_mark_specification = dict(trust_mark_specification or {})
 
         if trust_mark_db:
             self.issued = init_service(trust_mark_db)
@@ -74,14 +69,14 @@ class TrustMarkEntity(Unit):
         """
         _now = utc_time_sans_frac()
         _add = {'iat': _now, 'id': id, 'sub': sub}
-        lifetime = self.tm_lifetime.get(id)
-        if lifetime:
-            _add['exp'] = _now + lifetime
-
         if id not in self.trust_mark_specification:
             raise ValueError('Unknown trust mark ID')
 
         content = self.trust_mark_specification[id].copy()
+        lifetime = content.pop('lifetime', None)
+        if lifetime:
+            _add['exp'] = _now + lifetime
+
         content.update(_add)
         if kwargs:
             content.update(kwargs)
-- 
2.43.0


From 3de9fa9bd45e413804e290cb883ff50730f8c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:38 +0000
Subject: [PATCH 44/47] fix: configurations handed to combos, servers and
 clients must not be changed

---
 src/fedservice/appclient/__init__.py |  5 +++--
 src/fedservice/appserver/__init__.py |  3 +++
 src/fedservice/combo/__init__.py     |  7 +++++--
 src/fedservice/entity/__init__.py    |  3 +++
 src/fedservice/entity/utils.py       | 12 ++++++++++++
 5 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/appclient/__init__.py b/src/fedservice/appclient/__init__.py
index ee9d2f7..687f93a 100644
--- a/src/fedservice/appclient/__init__.py
+++ b/src/fedservice/appclient/__init__.py
@@ -27,6 +27,7 @@ from idpyoidc.node import ClientUnit
 
 from fedservice.defaults import COMBINED_DEFAULT_OAUTH2_SERVICES
 from fedservice.defaults import COMBINED_DEFAULT_OIDC_SERVICES
+from fedservice.entity.utils import copy_config
 from fedservice.message import OauthClientMetadata
 from fedservice.message import OIDCRPMetadata
 
@@ -56,8 +57,8 @@ class ClientEntity(ClientUnit):
             client_type: Optional[str] = '',
             entity_type: Optional[str] = ''
     ):
-        if config is None:
-            config = {}
+        # The configuration may be used for more than one entity
+        config = copy_config(config or {})
 
         self.client_type = config.get('client_type', client_type)
         self.entity_type = config.get("entity_type", entity_type)
diff --git a/src/fedservice/appserver/__init__.py b/src/fedservice/appserver/__init__.py
index b0ae035..20a7afd 100644
--- a/src/fedservice/appserver/__init__.py
+++ b/src/fedservice/appserver/__init__.py
@@ -22,6 +22,7 @@ from idpyoidc.server.user_authn.authn_context import populate_authn_broker
 from idpyoidc.server.util import execute
 
 from fedservice.entity.claims import OPClaims
+from fedservice.entity.utils import copy_config
 from fedservice.entity.utils import get_federation_entity
 from fedservice.message import AuthorizationServerMetadata
 from fedservice.message import OPMetadata
@@ -146,6 +147,8 @@ class ServerEntity(ServerUnit):
                             config=config)
 
         if not isinstance(config, Base):
+            # The configuration may be used for more than one entity
+            config = copy_config(config)
             config['issuer'] = entity_id
             config['base_url'] = entity_id
             if self.server_type == "oauth2":
diff --git a/src/fedservice/combo/__init__.py b/src/fedservice/combo/__init__.py
index 678bb0e..83d8b38 100644
--- a/src/fedservice/combo/__init__.py
+++ b/src/fedservice/combo/__init__.py
@@ -13,6 +13,7 @@ from idpyoidc.server.util import execute
 from requests import request
 
 from fedservice.entity import FederationEntity
+from fedservice.entity.utils import copy_config
 
 logger = logging.getLogger(__name__)
 
@@ -26,6 +27,8 @@ class Combo(Unit):
                  keyjar: Optional[Union[KeyJar, bool]] = None,
                  httpc_params: Optional[dict] = None
                  ):
+        # The configuration may be used for more than one entity
+        config = copy_config(config)
         self.entity_id = entity_id or config.get('entity_id')
         if not httpc_params:
             httpc_params = self._get_httpc_params(config)
@@ -49,10 +52,10 @@ class Combo(Unit):
         spec_kwargs = spec.get("kwargs", {})
         if "config" in spec_kwargs:
             if httpc_params and "httpc_params" not in spec_kwargs["config"]:
-                spec_kwargs["config"]["httpc_params"] = httpc_params
+                spec_kwargs["config"]["httpc_params"] = dict(httpc_params)
         else:
             if "httpc_params" not in spec_kwargs:
-                spec_kwargs["httpc_params"] = httpc_params
+                spec_kwargs["httpc_params"] = dict(httpc_params)
 
     def __getitem__(self, item):
         if item in self._part:
diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 6d7261b..1676aa4 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -58,6 +58,9 @@ class FederationEntity(Unit):
         if not keyjar and not key_conf:
             keyjar = False
 
+        if httpc_params:  # may be shared with other entities
+            httpc_params = dict(httpc_params)
+
         self.entity_id = entity_id
         Unit.__init__(self, upstream_get=upstream_get, keyjar=keyjar, httpc=httpc,
                       httpc_params=httpc_params, key_conf=key_conf, issuer_id=entity_id)
diff --git a/src/fedservice/entity/utils.py b/src/fedservice/entity/utils.py
index 2352bd0..55a3634 100644
--- a/src/fedservice/entity/utils.py
+++ b/src/fedservice/entity/utils.py
@@ -57,3 +57,15 @@ def get_keys(metadata, keyjar, entity_id, unit):
         else:
             _jwks = metadata.get('jwks')
             _keyjar = import_jwks(keyjar, _jwks, entity_id)
+
+
+def copy_config(conf):
+    """
+    A copy of a configuration that can be modified without the original being changed. Objects that
+    aren't dictionaries or lists are the same objects in the copy.
+    """
+    if type(conf) is dict:
+        return {key: copy_config(val) for key, val in conf.items()}
+    elif type(conf) is list:
+        return [copy_config(val) for val in conf]
+    return conf
-- 
2.43.0


From 9c819ad79a1adb17164aec706b5c58ac356ddbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:05 +0000
Subject: [PATCH 45/47] fix: authority hints and trust marks read from files or
 functions must not prevent exporting a context

---
 src/fedservice/entity/context.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fedservice/entity/context.py b/src/fedservice/entity/context.py
index 20467b1..1625ee4 100644
--- a/src/fedservice/entity/context.py
+++ b/src/fedservice/entity/context.py
@@ -100,6 +100,13 @@ class FederationContext(ImpExp):
     def supports(self):
         return self.claims._supports
 
+    def dump(self, exclude_attributes: Optional[List[str]] = None) -> dict:
+        # What is read from a file, or fetched by a function, when needed is not part of the state
+        _elsewhere = [attr for attr in ("authority_hints", "trust_marks")
+                      if isinstance(getattr(self, attr, None), str) or
+                      callable(getattr(self, attr, None))]
+        return ImpExp.dump(self, exclude_attributes=list(exclude_attributes or []) + _elsewhere)
+
     def setup_client_authn_methods(self):
         self.client_authn_methods = client_auth_setup(self.config.get("client_authn_methods"))
 
-- 
2.43.0


From 28407119310ec79ef6a6de74a444eda4e5356139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:50 +0000
Subject: [PATCH 46/47] fix: an entity configuration that was asked for must
 not make the cache impossible to export

---
 src/fedservice/entity/client/entity_configuration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/client/entity_configuration.py b/src/fedservice/entity/client/entity_configuration.py
index ce29de8..c7631cc 100644
--- a/src/fedservice/entity/client/entity_configuration.py
+++ b/src/fedservice/entity/client/entity_configuration.py
@@ -113,6 +113,7 @@ class EntityConfiguration(FederationService):
     def post_parse_response(self, response, **kwargs):
         root = get_federation_entity(self)
         _collector = root.function.trust_chain_collector
-        _collector.config_cache[response["iss"]] = response
+        # The cache contains plain data only, such that it can be exported
+        _collector.config_cache[response["iss"]] = response.to_dict()
 
         return response
-- 
2.43.0


From 8dd7cd765b173fc1b2fb3a3bce3524a5f019cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:31 +0000
Subject: [PATCH 47/47] fix: what has been exported must not change, nor
 exporting fail, because the entity goes on working

---
 src/fedservice/entity_statement/cache.py     | 7 +++++++
 src/fedservice/trust_mark_entity/__init__.py | 5 +++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity_statement/cache.py b/src/fedservice/entity_statement/cache.py
index 5d3027c..69e31ba 100644
--- a/src/fedservice/entity_statement/cache.py
+++ b/src/fedservice/entity_statement/cache.py
@@ -1,5 +1,6 @@
 import logging
 from typing import Any
+from typing import List
 from typing import Optional
 
 from cryptojwt.jwt import utc_time_sans_frac
@@ -20,6 +21,12 @@ class ESCache(ImpExp):
         self._db = {}
         self.allowed_delta = allowed_delta
 
+    def dump_attr(self, cls, item, exclude_attributes: Optional[List[str]] = None):
+        if isinstance(item, dict):
+            # Other threads may be adding statements
+            item = dict(item)
+        return ImpExp.dump_attr(self, cls, item, exclude_attributes)
+
     def __setitem__(self, key, value):
         self._db[key] = value
 
diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index fa473e4..d7d5c34 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -159,13 +159,14 @@ class SimpleDB(object):
         return self._db[item]
 
     def dump(self):
-        return self._db
+        # A copy, what has been exported must not change when more trust marks are issued
+        return json.loads(self.dumps())
 
     def dumps(self):
         return json.dumps(self._db)
 
     def load(self, info):
-        self._db = info
+        self._db = json.loads(json.dumps(info))
 
     def loads(self, info):
         self._db = json.loads(info)
-- 
2.43.0

