From 692ec9de5ed509a1e0b6997eace594d98c0e4d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 01/46] fix: entities in the same process must not share
 configuration

The service, endpoint and function specifications in defaults, and the
specifications and trust anchors handed over by the caller, were used
without copying. Adding a trust anchor to one entity, or giving one entity
an argument of its own, changed every other entity built from the same
specification.
---
 src/fedservice/build_entity.py                | 23 +++++++++++++++----
 src/fedservice/defaults.py                    | 12 ++++++----
 .../entity/function/trust_chain_collector.py  |  3 ++-
 src/fedservice/utils.py                       |  4 ++++
 4 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/fedservice/build_entity.py b/src/fedservice/build_entity.py
index d7b9922..944f681 100644
--- a/src/fedservice/build_entity.py
+++ b/src/fedservice/build_entity.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import Callable
 from typing import Optional
 from typing import Union
@@ -12,6 +13,18 @@ KEYDEFS = [
 ]
 
 
+def copy_spec(spec: dict) -> dict:
+    # The specification belongs to the caller. Don't make changes to it.
+    res = {}
+    for name, item in spec.items():
+        if isinstance(item, dict):
+            item = item.copy()
+            if isinstance(item.get("kwargs"), dict):
+                item["kwargs"] = item["kwargs"].copy()
+        res[name] = item
+    return res
+
+
 class FederationEntityBuilder():
 
     def __init__(self,
@@ -36,9 +49,9 @@ class FederationEntityBuilder():
 
         kwargs = {}
         if services:
-            kwargs['services'] = services
+            kwargs['services'] = copy_spec(services)
         else:
-            kwargs['services'] = FEDERATION_ENTITY_SERVICES
+            kwargs['services'] = deepcopy(FEDERATION_ENTITY_SERVICES)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
@@ -66,7 +79,7 @@ class FederationEntityBuilder():
         # endpoints are accessible to services. Accepts requests and returns responses.
         kwargs = {}
         if endpoints:
-            kwargs['endpoint'] = endpoints
+            kwargs['endpoint'] = copy_spec(endpoints)
         else:
             kwargs['endpoint'] = federation_endpoints("entity_configuration", "fetch", "list")
 
@@ -97,9 +110,9 @@ class FederationEntityBuilder():
         # available services.
         kwargs = {}
         if functions:
-            kwargs['functions'] = functions
+            kwargs['functions'] = copy_spec(functions)
         else:
-            kwargs['functions'] = DEFAULT_FEDERATION_ENTITY_FUNCTIONS
+            kwargs['functions'] = deepcopy(DEFAULT_FEDERATION_ENTITY_FUNCTIONS)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
diff --git a/src/fedservice/defaults.py b/src/fedservice/defaults.py
index 59c3de9..13892c2 100644
--- a/src/fedservice/defaults.py
+++ b/src/fedservice/defaults.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from fedservice.message import AuthorizationServerMetadata
 from fedservice.message import FederationEntity
 from fedservice.message import OauthClientMetadata
@@ -87,11 +89,11 @@ def federation_services(*api):
         if isinstance(a, dict):
             continue
         if a in SERVICES:
-            res[a] = SERVICES[a]
+            res[a] = deepcopy(SERVICES[a])
         elif a in DEFAULT_OAUTH2_FED_SERVICES:
-            res[a] = DEFAULT_OAUTH2_FED_SERVICES[a]
+            res[a] = deepcopy(DEFAULT_OAUTH2_FED_SERVICES[a])
         elif a in DEFAULT_OIDC_FED_SERVICES:
-            res[a] = DEFAULT_OIDC_FED_SERVICES[a]
+            res[a] = deepcopy(DEFAULT_OIDC_FED_SERVICES[a])
 
     for a in api:
         if isinstance(a, dict):
@@ -171,7 +173,7 @@ FEDERATION_ENDPOINTS = {
 
 
 def federation_endpoints(*apis) -> dict:
-    interm = {a: FEDERATION_ENDPOINTS[a] for a in apis if isinstance(a, str)}
+    interm = {a: deepcopy(FEDERATION_ENDPOINTS[a]) for a in apis if isinstance(a, str)}
     for a in apis:
         if isinstance(a, dict):
             interm.update(a)
@@ -216,7 +218,7 @@ FEDERATION_ENTITY_FUNCTIONS = {
 
 
 def federation_functions(*apis):
-    return {a: FEDERATION_ENTITY_FUNCTIONS[a] for a in apis}
+    return {a: deepcopy(FEDERATION_ENTITY_FUNCTIONS[a]) for a in apis}
 
 
 DEFAULT_FEDERATION_ENTITY_FUNCTIONS = federation_functions("trust_chain_collector", "verifier",
diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 6f3a9ab..49ddf3c 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -75,7 +75,8 @@ class TrustChainCollector(Function):
                  **kwargs
                  ):
         Function.__init__(self, upstream_get)
-        self.trust_anchors = trust_anchors
+        # Each entity has its own set of trust anchors
+        self.trust_anchors = trust_anchors.copy() if isinstance(trust_anchors, dict) else trust_anchors
         self.allowed_delta = allowed_delta
         self.config_cache = ESCache(allowed_delta=allowed_delta)
         self.entity_statement_cache = ESCache(allowed_delta=allowed_delta)
diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 7e27057..163a1d2 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -138,6 +138,8 @@ def make_federation_entity(entity_id: str,
     if trust_anchors:
         if "class" in trust_anchors and "kwargs" in trust_anchors:
             trust_anchors = execute(trust_anchors)
+        else:
+            trust_anchors = dict(trust_anchors)  # The caller's is not ours to change
 
         for id, jwk in trust_anchors.items():
             fe.keyjar = import_jwks(fe.keyjar, jwk, id)
@@ -230,6 +232,8 @@ def make_federation_combo(entity_id: str,
     if trust_anchors:
         if "class" in trust_anchors and "kwargs" in trust_anchors:
             trust_anchors = execute(trust_anchors)
+        else:
+            trust_anchors = dict(trust_anchors)  # The caller's is not ours to change
 
         for id, jwk in trust_anchors.items():
             federation_entity.keyjar = import_jwks(federation_entity.keyjar, jwk, id)
-- 
2.43.0


From 6362b0fc45866538ab6f6b338e8fcbaf60ebe7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:23 +0000
Subject: [PATCH 02/46] fix: verify registration responses with the OP keys
 found in a verified trust chain

---
 .../appclient/oauth2/registration.py          | 38 ++++++++++++----
 src/fedservice/appclient/oidc/registration.py | 44 ++++++++++++++-----
 2 files changed, 62 insertions(+), 20 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index bbe2e7d..d7df814 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -1,10 +1,12 @@
 import logging
 from typing import Optional
 
+from cryptojwt import JWT
 from cryptojwt import KeyJar
 from idpyoidc.client.exception import ResponseError
 from idpyoidc.client.oidc import registration
 from idpyoidc.client.rp_handler import RPHandler
+from idpyoidc.key_import import import_jwks
 from idpyoidc.message.oauth2 import OauthClientInformationResponse
 from idpyoidc.message.oauth2 import OauthClientMetadata
 from idpyoidc.message.oauth2 import ResponseMessage
@@ -17,6 +19,7 @@ from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
 from fedservice.exception import SignatureFailure
+from fedservice.utils import statement_is_expired
 
 logger = logging.getLogger(__name__)
 
@@ -120,15 +123,27 @@ class Registration(registration.Registration):
     def _get_trust_anchor_id(self, entity_statement):
         return entity_statement.get('trust_anchor_id')
 
-    def _signature_verifies(self, entity_id, trust_anchor, federation_entity):
-        _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                          entity_id=entity_id,
-                                          stop_at=trust_anchor)
+    def _signature_verifies(self, resp, entity_id, trust_anchor, federation_entity):
+        """
+        The response must be signed by a key that a trusted superior of the OP has vouched for.
+        """
+        _chains, _ec = collect_trust_chains(self.upstream_get('unit'),
+                                            entity_id=entity_id,
+                                            stop_at=trust_anchor)
         if not _chains:
             return False
 
-        _trust_chains = verify_trust_chains(federation_entity, _chains)
-        return True
+        for _chain in verify_trust_chains(federation_entity, _chains, _ec):
+            if _chain.anchor != trust_anchor:
+                continue
+            _keyjar = import_jwks(KeyJar(), _chain.verified_chain[-1]['jwks'], entity_id)
+            try:
+                JWT(key_jar=_keyjar).unpack(resp)
+            except Exception as err:
+                logger.error(f"Could not verify the registration response: {err}")
+            else:
+                return True
+        return False
 
     def parse_federation_registration_response(self, resp, **kwargs):
         """
@@ -160,13 +175,18 @@ class Registration(registration.Registration):
                 return _verifier_response
         else:
             # verify the signature on the response from the OP
-            if not self._signature_verifies(payload["iss"], payload['trust_anchor_id'],
+            if not self._signature_verifies(resp, payload["iss"], payload['trust_anchor_id'],
                                             _federation_entity):
                 raise SignatureFailure("Could not verify signature")
 
+            # Is the response about me and still valid
+            _entity_id = self.upstream_get('attribute', 'entity_id')
+            if payload["sub"] != _entity_id or statement_is_expired(payload):
+                raise ValueError("Registration response not about me or not valid")
+
             # This is the trust chain from myself to the TA
-            _trust_chains = get_verified_trust_chains(self, entity_id=self.upstream_get('attribute',
-                                                                                        'entity_id'))
+            _trust_chains = get_verified_trust_chains(self, entity_id=_entity_id)
+            _trust_chains = [c for c in _trust_chains if c.anchor == payload['trust_anchor_id']]
 
             # should only be one chain
             if len(_trust_chains) != 1:
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index aed99df..45896c7 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -1,8 +1,11 @@
 import logging
 from typing import Optional
 
+from cryptojwt import JWT
+from cryptojwt import KeyJar
 from idpyoidc.client.exception import ResponseError
 from idpyoidc.client.oidc import registration
+from idpyoidc.key_import import import_jwks
 from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.message.oidc import RegistrationResponse
 
@@ -12,6 +15,7 @@ from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
 from fedservice.exception import SignatureFailure
+from fedservice.utils import statement_is_expired
 
 logger = logging.getLogger(__name__)
 
@@ -99,15 +103,27 @@ class Registration(registration.Registration):
     def _get_trust_anchor_id(self, entity_statement):
         return entity_statement.get('trust_anchor_id')
 
-    def _signature_verifies(self, entity_id, trust_anchor, federation_entity):
-        _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                          entity_id=entity_id,
-                                          stop_at=trust_anchor)
+    def _signature_verifies(self, resp, entity_id, trust_anchor, federation_entity):
+        """
+        The response must be signed by a key that a trusted superior of the OP has vouched for.
+        """
+        _chains, _ec = collect_trust_chains(self.upstream_get('unit'),
+                                            entity_id=entity_id,
+                                            stop_at=trust_anchor)
         if not _chains:
             return False
 
-        _trust_chains = verify_trust_chains(federation_entity, _chains)
-        return True
+        for _chain in verify_trust_chains(federation_entity, _chains, _ec):
+            if _chain.anchor != trust_anchor:
+                continue
+            _keyjar = import_jwks(KeyJar(), _chain.verified_chain[-1]['jwks'], entity_id)
+            try:
+                JWT(key_jar=_keyjar).unpack(resp)
+            except Exception as err:
+                logger.error(f"Could not verify the registration response: {err}")
+            else:
+                return True
+        return False
 
     def parse_federation_registration_response(self, resp, **kwargs):
         """
@@ -138,15 +154,21 @@ class Registration(registration.Registration):
                 return _verifier_response
         else:
             # verify the signature on the response from the OP
-            if not self._signature_verifies(payload["iss"], payload['trust_anchor_id'],
+            if not self._signature_verifies(resp, payload["iss"], payload['trust_anchor_id'],
                                             _federation_entity):
                 raise SignatureFailure("Could not verify signature")
 
+            # Is the response about me and still valid
+            _entity_id = self.upstream_get('attribute', 'entity_id')
+            if payload["sub"] != _entity_id or statement_is_expired(payload):
+                raise ValueError("Registration response not about me or not valid")
+
             # This is the trust chain from the RP to the TA
-            _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                              entity_id=self.upstream_get('attribute', 'entity_id'),
-                                              stop_at=payload['trust_anchor_id'])
-            _trust_chains = verify_trust_chains(_federation_entity, _chains, resp)
+            _chains, _ec = collect_trust_chains(self.upstream_get('unit'),
+                                                entity_id=_entity_id,
+                                                stop_at=payload['trust_anchor_id'])
+            _trust_chains = verify_trust_chains(_federation_entity, _chains, _ec)
+            _trust_chains = [c for c in _trust_chains if c.anchor == payload['trust_anchor_id']]
             # should only be one chain
             if len(_trust_chains) != 1:
                 raise SystemError(f"More then one chain ending in {payload['trust_anchor_id']}")
-- 
2.43.0


From a6a18a081e16ced859304c71ca998d68d49213e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:23 +0000
Subject: [PATCH 03/46] fix: trust chains must be linked, unexpired and
 anchored in a configured trust anchor

---
 src/fedservice/entity/function/verifier.py | 144 +++++++++++++--------
 1 file changed, 92 insertions(+), 52 deletions(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 6f698d0..7656521 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -1,16 +1,20 @@
+import copy
 import logging
 from typing import Callable
 from typing import List
 
 from cryptojwt import KeyBundle
+from cryptojwt import KeyJar
 from cryptojwt.exception import MissingKey
 from cryptojwt.jws.jws import factory
+from idpyoidc.key_import import import_jwks
 
 from fedservice.entity.function import Function
 from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.constraints import meets_restrictions
 from fedservice.entity_statement.statement import TrustChain
 from fedservice.exception import UnknownTrustAnchor
+from fedservice.utils import statement_is_expired
 
 logger = logging.getLogger(__name__)
 
@@ -20,23 +24,33 @@ class TrustChainVerifier(Function):
     def __init__(self, upstream_get: Callable):
         Function.__init__(self, upstream_get)
 
+    def _trust_anchors(self):
+        """
+        :return: The Trust Anchors I've been configured with and myself, together with the keys.
+        """
+        _federation_entity = get_federation_entity(self)
+        if _federation_entity:
+            _anchors = dict(_federation_entity.function.trust_chain_collector.trust_anchors)
+            if _federation_entity.entity_id not in _anchors:
+                # I might be a trust anchor myself
+                _keyjar = _federation_entity.get_attribute("keyjar")
+                _anchors[_federation_entity.entity_id] = _keyjar.export_jwks()
+            return _anchors
+
+        # No federation entity, then all I've got is a key jar
+        _keyjar = self.upstream_get("attribute", "keyjar")
+        if not _keyjar:
+            return {}
+        return {iss: _keyjar.export_jwks(issuer_id=iss) for iss in _keyjar.owners()}
+
     def trusted_anchor(self, entity_statement):
         _jwt = factory(entity_statement)
         payload = _jwt.jwt.payload()
-        _federation_entity = get_federation_entity(self)
-        if _federation_entity:
-            if payload['iss'] not in _federation_entity.keyjar:
-                logger.warning(
-                    f"Trust chain ending in a trust anchor I do not know: {payload['iss']}", )
-                return False
-        else:
-            _keyjar = self.upstream_get("attribute", "keyjar")
-            if not _keyjar:
-                return False
-            elif payload['iss'] not in _keyjar:
-                logger.warning(
-                    f"Trust chain ending in a trust anchor I do not know: {payload['iss']}", )
-                return False
+        # Having someone's keys doesn't make that someone a trust anchor
+        if payload['iss'] not in self._trust_anchors():
+            logger.warning(
+                f"Trust chain ending in a trust anchor I do not know: {payload['iss']}", )
+            return False
 
         return True
 
@@ -56,52 +70,78 @@ class TrustChainVerifier(Function):
             return ves
 
         n = len(entity_statement_list) - 1
-        _keyjar = self.upstream_get("attribute", "keyjar")
+        _trust_anchors = self._trust_anchors()
         for entity_statement in entity_statement_list:
             _jwt = factory(entity_statement)
-            if _jwt:
-                logger.debug(f"JWS header: {_jwt.jwt.headers}", )
-                logger.debug(f"JWS payload: {_jwt.jwt.payload()}")
-                keys = _keyjar.get_jwt_verify_keys(_jwt.jwt)
-                if keys == []:
-                    logger.error(f'No keys matching: {_jwt.jwt.headers}')
-                    logger.debug(f"keyjar contains: {_keyjar}")
-                    raise MissingKey(f'No keys matching: {_jwt.jwt.headers}')
-
-                _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in keys]
-                logger.debug("Possible verification keys: %s", _key_spec)
-                res = _jwt.verify_compact(keys=keys)
-                logger.debug("Verified entity statement: %s", res)
-                try:
-                    _jwks = res['jwks']
-                except KeyError:
-                    if len(ves) != n:
-                        raise ValueError('Missing signing JWKS')
-                else:
-                    _kb = KeyBundle(keys=_jwks['keys'])
-                    try:
-                        old = _keyjar.get_issuer_keys(res['sub'])
-                    except KeyError:
-                        _keyjar.add_kb(res['sub'], _kb)
-                    else:
-                        new = [k for k in _kb if k not in old]
-                        if new:
-                            _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in new]
-                            logger.debug(
-                                "New keys added to the federation key jar for '{}': {}".format(
-                                    res['sub'], _key_spec)
-                            )
-                            # Only add keys to the KeyJar if they are not already there.
-                            _kb.set(new)
-                            _keyjar.add_kb(res['sub'], _kb)
-
-                ves.append(res)
+            if not _jwt:
+                raise ValueError('Not a signed JWT')
+
+            logger.debug(f"JWS header: {_jwt.jwt.headers}", )
+            logger.debug(f"JWS payload: {_jwt.jwt.payload()}")
+            _iss = _jwt.jwt.payload()['iss']
+            if ves:
+                # The issuer must be the entity the superior's statement was about
+                if ves[-1]['sub'] != _iss:
+                    logger.error(f"Broken trust chain: '{_iss}' isn't '{ves[-1]['sub']}'")
+                    return []
+                _jwks = ves[-1]['jwks']
+            else:
+                _jwks = _trust_anchors[_iss]
+
+            # Only the keys the superior has vouched for in this very chain
+            _keyjar = import_jwks(KeyJar(), copy.deepcopy(_jwks), _iss)
+            keys = _keyjar.get_jwt_verify_keys(_jwt.jwt)
+            if keys == []:
+                logger.error(f'No keys matching: {_jwt.jwt.headers}')
+                raise MissingKey(f'No keys matching: {_jwt.jwt.headers}')
+
+            _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in keys]
+            logger.debug("Possible verification keys: %s", _key_spec)
+            res = _jwt.verify_compact(keys=keys)
+            logger.debug("Verified entity statement: %s", res)
+            if statement_is_expired(res):
+                logger.error(f"Expired statement: iss={res['iss']}, sub={res['sub']}")
+                return []
+
+            if 'jwks' not in res and len(ves) != n:
+                raise ValueError('Missing signing JWKS')
+
+            ves.append(res)
 
         if ves and meets_restrictions(ves):
+            self.store_keys(ves)
             return ves
         else:
             return []
 
+    def store_keys(self, verified_chain):
+        """
+        Remember the keys of the entities in a verified trust chain. What I know about the Trust
+        Anchors I know from the configuration, no one else can add to that.
+        """
+        _keyjar = self.upstream_get("attribute", "keyjar")
+        _trust_anchors = self._trust_anchors()
+        for res in verified_chain:
+            if 'jwks' not in res or res['sub'] in _trust_anchors:
+                continue
+
+            _kb = KeyBundle(keys=copy.deepcopy(res['jwks']['keys']))
+            try:
+                old = _keyjar.get_issuer_keys(res['sub'])
+            except KeyError:
+                _keyjar.add_kb(res['sub'], _kb)
+            else:
+                new = [k for k in _kb if k not in old]
+                if new:
+                    _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in new]
+                    logger.debug(
+                        "New keys added to the federation key jar for '{}': {}".format(
+                            res['sub'], _key_spec)
+                    )
+                    # Only add keys to the KeyJar if they are not already there.
+                    _kb.set(new)
+                    _keyjar.add_kb(res['sub'], _kb)
+
     def trust_chain_expires_at(self, trust_chain):
         exp = -1
         for entity_statement in trust_chain:
-- 
2.43.0


From 08138c40176911441ee6714f156d760288fc2fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:45 +0000
Subject: [PATCH 04/46] fix: one_of, subset_of and superset_of must handle both
 single values and lists

---
 src/fedservice/entity/function/policy_operator.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity/function/policy_operator.py b/src/fedservice/entity/function/policy_operator.py
index 6580b9d..92ba19c 100644
--- a/src/fedservice/entity/function/policy_operator.py
+++ b/src/fedservice/entity/function/policy_operator.py
@@ -44,7 +44,7 @@ class OneOf(PolicyOperator):
     def __call__(self, claim, metadata, metadata_policy):
         if claim in metadata:
             if isinstance(metadata[claim], list):  # Should not be
-                return None
+                raise PolicyError(f"{metadata[claim]} is not a single value")
             else:
                 if metadata[claim] in metadata_policy[claim][self.name]:
                     pass
@@ -82,8 +82,8 @@ class SubsetOf(PolicyOperator):
             if isinstance(metadata[claim], list):
                 _val = set(metadata_policy[claim][self.name]).intersection(set(metadata[claim]))
             else:
-                if metadata[claim] in metadata_policy[claim]:
-                    _val = metadata[claim]
+                if metadata[claim] in metadata_policy[claim][self.name]:
+                    return
                 else:
                     raise PolicyError(f"{metadata[claim]} not in allowed subset: {metadata_policy[claim]}")
 
@@ -99,7 +99,11 @@ class SupersetOf(PolicyOperator):
 
     def __call__(self, claim, metadata, metadata_policy):
         if claim in metadata:
-            if set(metadata_policy[claim][self.name]).difference(set(metadata[claim])):
+            if isinstance(metadata[claim], list):
+                _val = set(metadata[claim])
+            else:
+                _val = {metadata[claim]}
+            if set(metadata_policy[claim][self.name]).difference(_val):
                 raise PolicyError(f"{metadata[claim]} not superset of {metadata_policy[claim][self.name]}")
 
 
-- 
2.43.0


From e2e61dc27bd9e79f1b6b69719a1681f228d24a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:45 +0000
Subject: [PATCH 05/46] fix: a subordinate can not override what its superiors
 have decided

---
 src/fedservice/entity/function/policy.py | 91 ++++++++++++++----------
 1 file changed, 54 insertions(+), 37 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 34b7d21..2e90441 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 from typing import Optional
 
@@ -109,6 +110,49 @@ DO_POLICY = {
 }
 
 
+def as_set(val):
+    if isinstance(val, list):
+        return set(val)
+    return {val}
+
+
+def verify_consistency(rule):
+    """
+    Verifies that the operators in a combined rule doesn't contradict each other.
+
+    :param rule: A dictionary with policy operator names as keys
+    """
+    _allowed = set(rule.get('subset_of', []))
+    _needed = set(rule.get('superset_of', []))
+
+    if 'subset_of' in rule:
+        if _needed.difference(_allowed):
+            raise PolicyError('superset_of not a super set of subset_of')
+        if 'add' in rule and as_set(rule['add']).difference(_allowed):
+            raise PolicyError('"add" not a subset of "subset"')
+
+    if 'superset_of' in rule and 'add' in rule:
+        if _needed.difference(as_set(rule['add'])):
+            raise PolicyError('"add" not a superset of "superset"')
+
+    # Whatever is assigned to the claim must be something the other operators allow
+    for policy in ['default', 'value']:
+        if policy not in rule:
+            continue
+
+        if 'subset_of' in rule and as_set(rule[policy]).difference(_allowed):
+            raise PolicyError(f'{policy} not a sub set of subset_of')
+        if 'superset_of' in rule and _needed.difference(as_set(rule[policy])):
+            raise PolicyError(f'{policy} not a super set of superset_of')
+        if 'one_of' in rule and (isinstance(rule[policy], list)
+                                 or rule[policy] not in rule['one_of']):
+            raise PolicyError(f'{policy} not among one_of')
+
+    if 'value' in rule and 'add' in rule:
+        if as_set(rule['add']).difference(as_set(rule['value'])):
+            raise PolicyError('value not a super set of add')
+
+
 def combine_claim_policy(superior, child):
     """
     Combine policy rules.
@@ -154,37 +198,7 @@ def combine_claim_policy(superior, child):
         for policy in comb_policy:
             rule[policy] = DO_POLICY[policy](superior, child, policy)
 
-        if comb_policy == {'superset_of', 'subset_of'}:
-            # make sure the subset_of is a superset of superset_of.
-            if set(rule['superset_of']).difference(set(rule['subset_of'])):
-                raise PolicyError('superset_of not a super set of subset_of')
-        elif comb_policy == {'superset_of', 'subset_of', 'default'}:
-            # make sure the subset_of is a superset of superset_of.
-            if set(rule['superset_of']).difference(set(rule['subset_of'])):
-                raise PolicyError('superset_of not a super set of subset_of')
-            if set(rule['default']).difference(set(rule['subset_of'])):
-                raise PolicyError('default not a sub set of subset_of')
-            if set(rule['superset_of']).difference(set(rule['default'])):
-                raise PolicyError('default not a super set of subset_of')
-        elif comb_policy == {'subset_of', 'default'}:
-            if set(rule['default']).difference(set(rule['subset_of'])):
-                raise PolicyError('default not a sub set of subset_of')
-        elif comb_policy == {'superset_of', 'default'}:
-            if set(rule['superset_of']).difference(set(rule['default'])):
-                raise PolicyError('default not a super set of subset_of')
-        elif comb_policy == {'one_of', 'default'}:
-            if isinstance(rule['default'], list):
-                if set(rule['default']).difference(set(rule['one_of'])):
-                    raise PolicyError('default not a super set of one_of')
-            else:
-                if {rule['default']}.difference(set(rule['one_of'])):
-                    raise PolicyError('default not a super set of one_of')
-        elif comb_policy == {'subset_of', 'add'}:
-            if not set(rule['add']).issubset(set(rule['subset_of'])):
-                raise PolicyError('"add" not a subset of "subset"')
-        elif comb_policy == {'superset_of', 'add'}:
-            if not set(rule['add']).issuperset(set(rule['superset_of'])):
-                raise PolicyError('"add" not a superset of "superset"')
+        verify_consistency(rule)
     return rule
 
 
@@ -305,11 +319,14 @@ class TrustChainPolicy(Function):
         :return: The combined metadata policy
         """
 
+        # Only what superiors say about subordinates count, not what they say about themselves
+        chain = [es for es in chain if es.get('iss') != es.get('sub')]
+
         _rule = {'metadata_policy': {}, 'metadata': {}}
         for _item in ['metadata_policy', 'metadata']:
             try:
                 _rule[_item] = chain[0][_item][entity_type]
-            except KeyError:
+            except (KeyError, IndexError):
                 pass
 
         for es in chain[1:]:
@@ -340,11 +357,11 @@ class TrustChainPolicy(Function):
         :return: A metadata statement that adheres to a metadata policy
         """
 
-        _metadata = policy.get("metadata", None)
-        if _metadata:
-            _metadata = _metadata.copy()
-            _metadata.update(metadata)
-            metadata = _metadata
+        # The Entity Configuration should remain as it was
+        metadata = copy.deepcopy(metadata)
+
+        # What a superior has set can not be changed by a subordinate
+        metadata.update(policy.get("metadata", {}))
 
         _metadata_policy = policy.get('metadata_policy', None)
         if _metadata_policy:
-- 
2.43.0


From 02b239c44698b1a01b7c04fdcf6d7bb271dcfad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:34 +0000
Subject: [PATCH 06/46] fix: all the constraints in a trust chain must be
 enforced

---
 .../entity_statement/constraints.py           | 60 ++++++++-----------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 289c34c..91327e5 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -1,5 +1,6 @@
 from typing import List
 from typing import Union
+from urllib.parse import urlparse
 
 from idpyoidc.message import Message
 
@@ -36,9 +37,14 @@ def remove_scheme(url):
         raise ValueError('Wrong scheme: %s', url)
 
 
+def hostname(url):
+    # The constraints are about domains, not about ports or paths
+    return (urlparse(f"//{remove_scheme(url)}").hostname or "").rstrip(".")
+
+
 def more_specific(a, b):
-    a_part = remove_scheme(a).split('.')
-    b_part = remove_scheme(b).split('.')
+    a_part = hostname(a).split('.')
+    b_part = hostname(b).split('.')
     if len(a_part) >= len(b_part):
         a_part.reverse()
         b_part.reverse()
@@ -85,7 +91,7 @@ def add_constraints(new_constraints: dict, naming_constraints: dict):
 
             continue
         else:
-            if not new_constraints[key]:
+            if not new_constraints.get(key):
                 continue
 
         naming_constraints[key] = update_specs(new_constraints[key], naming_constraints[key])
@@ -130,45 +136,31 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
 
     current_max_path_length = 0
     max_assigned = False
-    naming_constraints = {
-        "permitted": None,
-        "excluded": None
-    }
-
-    for statement in trust_chain[:-1]:  # All but the last
-        try:
-            _constraints = statement['constraints']
-        except KeyError:
-            continue
+    naming_constraints = []
+
+    # What an entity states about itself doesn't count
+    for statement in [s for s in trust_chain if s['iss'] != s['sub']]:
+        _constraints = statement.get('constraints', {})
 
-        current_max_path_length = calculate_path_length(_constraints, current_max_path_length,
-                                                        max_assigned)
+        if max_assigned or 'max_path_length' in _constraints:
+            current_max_path_length = calculate_path_length(_constraints, current_max_path_length,
+                                                            max_assigned)
+            max_assigned = True
 
         if current_max_path_length < 0:
             return False
 
-        naming_constraints = update_naming_constraints(_constraints, naming_constraints)
+        if 'naming_constraints' in _constraints:
+            naming_constraints.append(_constraints['naming_constraints'])
 
-        # if explicitly excluded return False
-        if 'excluded' in naming_constraints and naming_constraints['excluded']:
-            if excluded(statement['sub'], naming_constraints['excluded']):
+        # A subordinate can not loosen the constraints set by a superior. Hence, all of them apply.
+        for _naming in naming_constraints:
+            # if explicitly excluded return False
+            if excluded(statement['sub'], _naming.get('excluded') or []):
                 return False
 
-        # If there is a list of permitted it must be in there
-        if 'permitted' in naming_constraints and naming_constraints['permitted']:
-            if not permitted(statement['sub'], naming_constraints["permitted"]):
+            # If there is a list of permitted it must be in there
+            if _naming.get('permitted') and not permitted(statement['sub'], _naming['permitted']):
                 return False
 
-    # Now check the leaf entity
-    statement = trust_chain[-1]
-    # if explicitly excluded return False
-    if 'excluded' in naming_constraints and naming_constraints['excluded']:
-        if excluded(statement['sub'], naming_constraints['excluded']):
-            return False
-
-    # If there is a list of permitted it must be in there
-    if 'permitted' in naming_constraints and naming_constraints['permitted']:
-        if not permitted(statement['sub'], naming_constraints["permitted"]):
-            return False
-
     return True
-- 
2.43.0


From 3cf7f9261215a5dbf287ad9d5c3c87a2011afddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 07/46] fix: a failing authority, loop or bad chain must only
 lose its own paths

---
 src/fedservice/entity/function/__init__.py       | 16 ++++++++++++----
 src/fedservice/entity/function/policy.py         |  2 +-
 .../entity/function/trust_chain_collector.py     | 16 +++++++++++++---
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index b5c9bf7..21f5dd7 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -105,9 +105,12 @@ def verify_trust_chains(unit, chains: List[List[str]], *entity_statements):
     logger.debug("verify_trust_chains")
     res = []
     for c in chains:
-        if entity_statements:
-            c.extend(entity_statements)
-        trust_chain = _verifier(c)
+        try:
+            trust_chain = _verifier(c + list(entity_statements))
+        except Exception as err:
+            # That one chain can't be verified doesn't mean that the others can't
+            logger.error(f"Trust chain verification failed: {err}")
+            continue
         if trust_chain:
             res.append(trust_chain)
     return res
@@ -133,7 +136,12 @@ def apply_policies(unit, trust_chains):
 
     res = []
     for trust_chain in trust_chains:
-        _policy_applier(trust_chain)
+        try:
+            _policy_applier(trust_chain)
+        except PolicyError as err:
+            # The entity doesn't conform to the rules of this federation, but maybe to another's
+            logger.error(f"Policy error: {err}")
+            continue
         res.append(trust_chain)
     return res
 
diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 2e90441..7b706d1 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -396,7 +396,7 @@ class TrustChainPolicy(Function):
             if entity_type:
                 trust_chain.metadata[entity_type] = self._policy(trust_chain, entity_type)
             else:
-                for _type in trust_chain.verified_chain[-1]['metadata'].keys():
+                for _type in trust_chain.verified_chain[-1].get('metadata', {}).keys():
                     trust_chain.metadata[_type] = self._policy(trust_chain, _type)
         else:
             trust_chain.metadata = trust_chain.verified_chain[0]["metadata"][entity_type]
diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 49ddf3c..5a12152 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -244,7 +244,7 @@ class TrustChainCollector(Function):
         """
         superior = {}
         if seen is None:
-            seen = []
+            seen = [entity_id]
 
         logger.debug(f'Collect superiors to: {entity_id}')
         logger.debug(f'Collect based on: {entity_configuration}')
@@ -258,8 +258,14 @@ class TrustChainCollector(Function):
         for authority in entity_configuration['authority_hints']:
             if authority in seen:  # loop ?!
                 logger.warning(f"Loop detected at {authority}")
-            superior[authority] = self.collect_branch(entity_id, authority, seen,
-                                                      max_superiors, stop_at=stop_at)
+                continue
+
+            try:
+                superior[authority] = self.collect_branch(entity_id, authority, seen,
+                                                          max_superiors, stop_at=stop_at)
+            except Exception as err:
+                # Other authorities may still lead to a trust anchor
+                logger.error(f"Could not collect what {authority} says about {entity_id}: {err}")
 
         return superior
 
@@ -333,6 +339,10 @@ class TrustChainCollector(Function):
 
         if entity_statement:
             _entity_configuration = self.config_cache[authority]
+            if _entity_configuration is None:
+                # Not in the cache or too close to its expiration time
+                _entity_configuration = verify_self_signed_signature(
+                    self.get_entity_configuration(authority))
             return entity_statement, self.collect_tree(authority,
                                                        _entity_configuration,
                                                        stop_at=stop_at,
-- 
2.43.0


From b600f1f05d99ebe33949ca00d6fb042d463aa746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 08/46] fix: outdated statements and trust chains must be
 replaced, not used

---
 src/fedservice/entity/__init__.py                 | 15 +++++++--------
 .../entity/function/trust_chain_collector.py      |  4 ++--
 src/fedservice/entity_statement/cache.py          | 11 +++++++----
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 1bac7c1..4eff217 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -266,8 +266,8 @@ class FederationEntity(Unit):
         return _info
 
     def get_trust_chains(self, entity_id):
-        _trust_chains = self.trust_chain.get(entity_id, None)
-        if _trust_chains is None:
+        _trust_chains = self._stored_trust_chains(entity_id)
+        if not _trust_chains:
             _trust_chains = get_verified_trust_chains(self, entity_id)
             if _trust_chains:
                 self.store_trust_chain(entity_id, _trust_chains)
@@ -276,6 +276,10 @@ class FederationEntity(Unit):
 
         return _trust_chains
 
+    def _stored_trust_chains(self, entity_id):
+        """The stored trust chains that can still be used."""
+        return [tc for tc in self.trust_chain.get(entity_id) or [] if not tc.is_expired()]
+
     def store_trust_chain(self, entity_id, trust_chains):
         self.trust_chain[entity_id] = trust_chains
 
@@ -283,12 +287,7 @@ class FederationEntity(Unit):
         self.trust_chain[entity_id] = chains
 
     def get_verified_metadata(self, entity_id: str, *args):
-        _trust_chains = self.trust_chain.get(entity_id)
-        if _trust_chains is None:
-            _trust_chains = get_verified_trust_chains(self, entity_id)
-            if _trust_chains:
-                self.store_trust_chain(entity_id, _trust_chains)
-
+        _trust_chains = self.get_trust_chains(entity_id)
         if _trust_chains:
             return _trust_chains[0].metadata
         else:
diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 5a12152..c06558d 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -280,7 +280,7 @@ class TrustChainCollector(Function):
             _now = utc_time_sans_frac()
             _time_key = time_key(authority, entity)
             _exp = self.entity_statement_cache[_time_key]
-            if _now > (_exp - self.allowed_delta):
+            if _exp is None or _now > (_exp - self.allowed_delta):
                 logger.debug("Cached entity statement timed out")
                 del self.entity_statement_cache[_cache_key]
                 del self.entity_statement_cache[_time_key]
@@ -353,7 +353,7 @@ class TrustChainCollector(Function):
 
     def too_old(self, statement):
         now = time.time()
-        if now >= statement["exp"] + self.allowed_delta:
+        if now >= statement["exp"] - self.allowed_delta:
             return True
         else:
             return False
diff --git a/src/fedservice/entity_statement/cache.py b/src/fedservice/entity_statement/cache.py
index 31f5ee4..b36c31c 100644
--- a/src/fedservice/entity_statement/cache.py
+++ b/src/fedservice/entity_statement/cache.py
@@ -34,13 +34,13 @@ class ESCache(ImpExp):
                 if _now < (statement["exp"] - self.allowed_delta):
                     return statement
                 else:
-                    del self._db[item]
+                    self._db.pop(item, None)
                     return None
             else:
                 return statement
 
     def __delitem__(self, key):
-        del self._db[key]
+        self._db.pop(key, None)
 
     def keys(self):
         return self._db.keys()
@@ -49,7 +49,10 @@ class ESCache(ImpExp):
         return len(self._db)
 
     def __contains__(self, item):
-        return item in self._db
+        return self[item] is not None
 
     def get(self, key, default: Optional[Any] = None):
-        return self._db.get(key, default)
+        _val = self[key]
+        if _val is None:
+            return default
+        return _val
-- 
2.43.0


From 037e5e1ae5d4c572230553b8ec53f1bcbe08bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 09/46] fix: fetch must speak for itself only, as configured,
 and leave the configuration alone

---
 .../entity/server/entity_configuration.py     | 51 ++++++++++---------
 src/fedservice/entity/server/fetch.py         | 28 +++++-----
 2 files changed, 40 insertions(+), 39 deletions(-)

diff --git a/src/fedservice/entity/server/entity_configuration.py b/src/fedservice/entity/server/entity_configuration.py
index b3fea94..95ee4b6 100644
--- a/src/fedservice/entity/server/entity_configuration.py
+++ b/src/fedservice/entity/server/entity_configuration.py
@@ -1,4 +1,3 @@
-from typing import Callable
 from typing import Optional
 from typing import Union
 
@@ -12,6 +11,31 @@ from idpyoidc.server import Endpoint
 from fedservice.message import EntityStatement
 
 
+def create_entity_configuration(federation_entity):
+    """
+    What an entity says about itself.
+
+    :param federation_entity: The entity
+    :return: A signed JSON Web Token
+    """
+    _entity_id = federation_entity.get_attribute('entity_id')
+
+    if federation_entity.upstream_get:
+        _metadata = federation_entity.upstream_get("metadata")
+    else:
+        _metadata = federation_entity.get_metadata()
+
+    _trust_marks = federation_entity.context.get_trust_marks()
+    args = {"trust_marks": _trust_marks} if _trust_marks else {}
+
+    return create_entity_statement(iss=_entity_id,
+                                   sub=_entity_id,
+                                   key_jar=federation_entity.get_attribute('keyjar'),
+                                   metadata=_metadata,
+                                   authority_hints=federation_entity.get_authority_hints(),
+                                   **args)
+
+
 class EntityConfiguration(Endpoint):
     request_cls = oauth2.Message
     response_cls = EntityStatement
@@ -29,30 +53,7 @@ class EntityConfiguration(Endpoint):
         Endpoint.__init__(self, upstream_get=upstream_get, **kwargs)
 
     def process_request(self, request=None, **kwargs):
-        _server = self.upstream_get("unit")
-        _fed_entity = get_federation_entity(self)
-        _entity_id = _fed_entity.get_attribute('entity_id')
-
-        if _fed_entity.upstream_get:
-            _metadata = _fed_entity.upstream_get("metadata")
-        else:
-            _metadata = _fed_entity.get_metadata()
-
-        if _fed_entity.context.trust_marks:
-            if isinstance(_fed_entity.context.trust_marks, Callable):
-                args = {"trust_marks": _fed_entity.context.get_trust_marks()}
-            else:
-                args = {"trust_marks": _fed_entity.context.trust_marks}
-        else:
-            args = {}
-
-        _ec = create_entity_statement(iss=_entity_id,
-                                      sub=_entity_id,
-                                      key_jar=_fed_entity.get_attribute('keyjar'),
-                                      metadata=_metadata,
-                                      authority_hints=_server.upstream_get('authority_hints'),
-                                      **args
-                                      )
+        _ec = create_entity_configuration(get_federation_entity(self))
         return {"response": _ec}
 
     def response_info(
diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index ab9f8f0..cc62474 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -3,6 +3,8 @@ import logging
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
 
+from fedservice.entity.server.entity_configuration import create_entity_configuration
+from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.create import create_entity_statement
 from fedservice.exception import UnknownEntity
 from fedservice.message import EntityStatement
@@ -26,21 +28,16 @@ class Fetch(Endpoint):
 
     def process_request(self, request=None, **kwargs):
         _context = self.upstream_get("context")
-        _issuer = request.get("iss")
-        if not _issuer:
-            _issuer = self.upstream_get('attribute','entity_id')
+        _issuer = self.upstream_get('attribute', 'entity_id')
+        _iss = request.get("iss") or _issuer
+        if _iss != _issuer:
+            # I only speak for myself
+            raise UnknownEntity(_iss)
 
         _sub = request.get("sub")
         _keyjar = self.upstream_get('attribute', 'keyjar')
         if not _sub or _sub == _issuer:
-            _server = self.upstream_get("server")
-            _entity = _server.upstream_get('unit')
-            _metadata = _entity.get_metadata()
-            _es = create_entity_statement(iss=_entity.context.entity_id,
-                                          sub=_entity.context.entity_id,
-                                          key_jar=_keyjar,
-                                          metadata=_metadata,
-                                          authority_hints=self.upstream_get('authority_hints'))
+            _es = create_entity_configuration(get_federation_entity(self))
         else:
             _server = self.upstream_get("unit")
             # Contains jwks and possibly entity type and authority_hints
@@ -50,15 +47,18 @@ class Fetch(Endpoint):
                 logger.debug(f"Known subordinates: {list(_server.subordinate.keys())}")
                 raise UnknownEntity(_sub)
 
+            _response = dict(_response)  # What's stored should remain as it is
             if not 'authority_hints' in _response:
                 # If nothing specified add myself
                 _response["authority_hints"] = [_issuer]
 
+            # What I use myself is not part of the statement
+            _entity_types = _response.pop('entity_types', None)
+            _response.pop('intermediate', None)
+
             _policy = _server.policy.get(_sub)
             if not _policy:  # No entity specific policy
-                if 'entity_types' in _response:
-                    _entity_types = _response['entity_types']
-                    _response = {k: v for k, v in _response.items() if k != 'entity_types'}
+                if _entity_types:
                     _policy = {'metadata': {}, 'metadata_policy': {}}
                     for entity_type in _entity_types:
                         _et_policy = _server.policy.get(entity_type)
-- 
2.43.0


From 7950ed884cea99df206caca8a9e95bc462204896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:05 +0000
Subject: [PATCH 10/46] fix: list must apply all the conditions in the request,
 on what subordinates are registered with

---
 src/fedservice/entity/server/list.py | 101 +++++++++++++++++----------
 1 file changed, 64 insertions(+), 37 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 921f697..9f7b7b8 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -1,15 +1,44 @@
 import json
 import logging
+from typing import Optional
 
 from cryptojwt import JWT
 from cryptojwt import KeyJar
+from cryptojwt.jws.jws import factory
 from idpyoidc.key_import import import_jwks
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
 
+from fedservice.utils import statement_is_expired
+
 logger = logging.getLogger(__name__)
 
 
+def is_true(val) -> bool:
+    """In a query a boolean is a string"""
+    if isinstance(val, str):
+        return val.lower() in ["true", "1"]
+    return bool(val)
+
+
+def as_list(val) -> list:
+    return [val] if isinstance(val, str) else list(val)
+
+
+def valid_trust_marks(entity_id: str, entity_configuration: dict) -> list:
+    """The content of the not yet expired trust marks this entity has been given"""
+    res = []
+    for trust_mark in entity_configuration.get('trust_marks') or []:
+        if isinstance(trust_mark, str):
+            _jws = factory(trust_mark)
+            if not _jws:
+                continue
+            trust_mark = _jws.jwt.payload()
+        if trust_mark.get('sub', entity_id) == entity_id and not statement_is_expired(trust_mark):
+            res.append(trust_mark)
+    return res
+
+
 class List(Endpoint):
     request_cls = oidc.Message
     # response_cls = EntityIDList
@@ -29,24 +58,14 @@ class List(Endpoint):
                **kwargs):
         match = []
         for entity_id, conf in subordinates.items():
-            matched = False
-            if entity_type:
-                if entity_type in conf['metadata']:
-                    matched = True
-            if trust_marked:
-                if 'trust_marks' in conf:
-                    matched = True
-                else:
-                    matched = False
-            if trust_mark_id:
-                trust_marks = conf.get('trust_marks')
-                matched = False
-                for trust_mark in trust_marks:
-                    if trust_mark['id'] == trust_mark_id:
-                        matched = True
-
-            if matched:
-                match.append(entity_id)
+            if entity_type and entity_type not in conf.get('metadata', {}):
+                continue
+            if is_true(trust_marked) or trust_mark_id:
+                ids = [m.get('id') for m in valid_trust_marks(entity_id, conf)]
+                if not ids or (trust_mark_id and trust_mark_id not in ids):
+                    continue
+
+            match.append(entity_id)
         return match
 
     def process_request(self, request=None, **kwargs):
@@ -54,22 +73,25 @@ class List(Endpoint):
         if not request or set(request.keys()).issubset({"client_id", "authenticated"}):
             return {'response_msg': json.dumps(list(_db.keys()))}
         else:
-            matched_entity_ids = set()
+            # All the conditions have to be fulfilled
+            matched_entity_ids = []
             subordinate_conf = None
             # I know about entity_types and intermediate or not from the registration
             for entity_id, item in _db.items():
-                if "intermediate" in request and request["intermediate"]:
-                    if "intermediate" in item and item["intermediate"]:
-                        matched_entity_ids.add(entity_id)
-                        continue
+                if is_true(request.get("intermediate")) and not item.get("intermediate"):
+                    continue
                 if "entity_type" in request:
-                    if request["entity_type"] in item["entity_type"]:
-                        matched_entity_ids.add(entity_id)
+                    if request["entity_type"] not in as_list(
+                            item.get("entity_types", item.get("entity_type", []))):
+                        continue
+                matched_entity_ids.append(entity_id)
 
             # I don't expect to know about trust marks from the registration
-            if "trust_marked" in request or "trust_mark_id" in request:
-                subordinate_conf = self.collect_subordinates()
-                matched_entity_ids.update(self.filter(subordinates=subordinate_conf, **request))
+            if is_true(request.get("trust_marked")) or request.get("trust_mark_id"):
+                subordinate_conf = self.collect_subordinates(matched_entity_ids)
+                matched_entity_ids = self.filter(subordinates=subordinate_conf,
+                                                 trust_mark_id=request.get("trust_mark_id"),
+                                                 trust_marked=request.get("trust_marked"))
 
             if self.extended and subordinate_conf:
                 return {"response_msg": json.dumps({id: subordinate_conf[id] for id in
@@ -77,18 +99,23 @@ class List(Endpoint):
             else:
                 return {"response_msg": json.dumps(list(matched_entity_ids))}
 
-    def collect_subordinates(self) -> dict:
+    def collect_subordinates(self, entity_ids: Optional[list] = None) -> dict:
         _server_entity = self.upstream_get("unit")
         _federation_entity = _server_entity.upstream_get("unit")
-        keyjar = KeyJar()
         _collector = _federation_entity.function.trust_chain_collector
         sub = {}
         for entity_id, conf in _federation_entity.server.subordinate.items():
-            #  get entity configuration for subordinate
-            _entity_configuration = _collector.get_entity_configuration(entity_id)
-            # Verify signature with the keys I have
-            keyjar = import_jwks(keyjar, conf['jwks'], entity_id)
-            _jwt = JWT(key_jar=keyjar)
-            _ec = _jwt.unpack(_entity_configuration)
-            sub[entity_id] = _ec
+            if entity_ids is not None and entity_id not in entity_ids:
+                continue
+            try:
+                #  get entity configuration for subordinate
+                _entity_configuration = _collector.get_entity_configuration(entity_id)
+                # Verify signature with the keys I have
+                keyjar = import_jwks(KeyJar(), conf['jwks'], entity_id)
+                _ec = JWT(key_jar=keyjar).unpack(_entity_configuration)
+            except Exception as err:
+                logger.error(f"No usable entity configuration for {entity_id}: {err}")
+                continue
+            if _ec["sub"] == entity_id and not statement_is_expired(_ec):
+                sub[entity_id] = _ec
         return sub
-- 
2.43.0


From 83c03717b0393a8cd335786d36858a390f2aa904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:08 +0000
Subject: [PATCH 11/46] fix: resolve must refuse when there is no trust chain
 and not outlive the one there is

---
 src/fedservice/entity/server/resolve.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/server/resolve.py b/src/fedservice/entity/server/resolve.py
index 7428323..dfaed96 100644
--- a/src/fedservice/entity/server/resolve.py
+++ b/src/fedservice/entity/server/resolve.py
@@ -2,6 +2,7 @@ import logging
 from typing import Optional
 from typing import Union
 
+from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.message import Message
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
@@ -43,18 +44,32 @@ class Resolve(Endpoint):
                 _chain = trust_chain
                 break
 
+        if _chain is None:
+            return self.error_cls(
+                error="not_found",
+                error_description=f"No trust chain from {request['sub']} to {_trust_anchor}")
+
         if "type" in request:
+            if request["type"] not in _chain.metadata:
+                return self.error_cls(
+                    error="not_found",
+                    error_description=f"{request['sub']} is no {request['type']}")
             metadata = {request['type']: _chain.metadata[request['type']]}
         else:
             metadata = _chain.metadata
 
-        trust_chain = _federation_entity.function.trust_chain_collector.get_chain(
-            _chain.iss_path, _trust_anchor, kwargs.get("with_ta_ec"))
+        # The statements the metadata is based on. The entity's own configuration first
+        trust_chain = list(reversed(_chain.chain))
+        if kwargs.get("with_ta_ec"):
+            _collector = _federation_entity.function.trust_chain_collector
+            trust_chain.append(_collector.get_entity_configuration(_trust_anchor))
 
+        # Must not outlive what it's based on
         _jws = create_entity_statement(_federation_entity.entity_id,
                                        sub=request["sub"],
                                        key_jar=_federation_entity.get_attribute('keyjar'),
                                        metadata=metadata,
+                                       lifetime=_chain.exp - utc_time_sans_frac(),
                                        trust_chain=trust_chain)
         return {'response_args': _jws}
 
-- 
2.43.0


From 1a406b6c1b48ea1be2ab0cd05b2b40327ca666bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:25 +0000
Subject: [PATCH 12/46] fix: a trust mark issuer must know all the trust marks
 it has issued that are active, and only those

---
 src/fedservice/trust_mark_entity/__init__.py  | 101 ++++++++++--------
 src/fedservice/trust_mark_entity/entity.py    |  16 +--
 .../server/trust_mark_list.py                 |   7 +-
 .../server/trust_mark_status.py               |  11 +-
 4 files changed, 68 insertions(+), 67 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 6c1ff10..d540f9f 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -5,6 +5,10 @@ from typing import Optional
 from cryptojwt.jwt import utc_time_sans_frac
 
 
+def _is_active(tm_info: dict) -> bool:
+    return 'exp' not in tm_info or utc_time_sans_frac() <= tm_info["exp"]
+
+
 class FileDB(object):
 
     def __init__(self, **kwargs):
@@ -18,8 +22,31 @@ class FileDB(object):
     def add(self, tm_info: dict):
         trust_mark_id = tm_info['id']
         # adds a line with info about a trust mark info to the end of a file
-        with open(self.config[trust_mark_id], "a") as fp:
-            fp.write(json.dumps(tm_info) + '\n')
+        self._append(self.config[trust_mark_id], [json.dumps(tm_info)])
+
+    def _append(self, file_name: str, lines: list):
+        with open(file_name, "ab+") as fp:
+            # What was written last may have been interrupted
+            if fp.tell():
+                fp.seek(-1, os.SEEK_END)
+                if fp.read(1) != b'\n':
+                    fp.write(b'\n')
+            fp.write("".join(f"{line}\n" for line in lines).encode("utf-8"))
+
+    def _issued(self, trust_mark_id: str) -> list:
+        """All the Trust Marks issued, starting with the last one"""
+        res = []
+        with open(self.config[trust_mark_id], "r") as fp:
+            for line in fp:
+                try:
+                    _tmi = json.loads(line)
+                except ValueError:
+                    # Interrupted while writing it. That Trust Mark was never handed out.
+                    continue
+                if isinstance(_tmi, dict):
+                    res.append(_tmi)
+        res.reverse()
+        return res
 
     def _match(self, sub, iat, tmi):
         if sub == tmi["sub"]:
@@ -31,18 +58,13 @@ class FileDB(object):
         return False
 
     def find(self, trust_mark_id: str, sub: str, iat: Optional[int] = 0):
-        with open(self.config[trust_mark_id], "r") as fp:
-            # Get the last issued
-            for line in reversed(list(fp)):
-                _tmi = json.loads(line.rstrip())
+        if trust_mark_id not in self.config:
+            return False
 
-                if 'exp' in _tmi:
-                    now = utc_time_sans_frac()
-                    if now > _tmi["exp"]:
-                        return False
-
-                if self._match(sub, iat, _tmi):
-                    return True
+        # Get the last issued
+        for _tmi in self._issued(trust_mark_id):
+            if self._match(sub, iat, _tmi):
+                return _is_active(_tmi)
         return False
 
     def __contains__(self, item):
@@ -65,30 +87,23 @@ class FileDB(object):
 
     def load(self, info):
         for entity_id in self.config.keys():
-            with open(self.config[entity_id], "a") as fp:
-                for tm_info in info[entity_id]:
-                    fp.write(tm_info + '\n')
+            if info.get(entity_id):
+                self._append(self.config[entity_id], info[entity_id])
 
     def loads(self, str):
         self.load(json.loads(str))
 
     def list(self, trust_mark_id: str, sub: Optional[str] = ""):
-        res = []
-        try:
-            with open(self.config[trust_mark_id], "r") as fp:
-                # Get the last issued
-                for line in reversed(list(fp)):
-                    _tmi = json.loads(line.rstrip())
-                    if _tmi["sub"] not in res:
-                        if sub:
-                            if _tmi["sub"] == sub:
-                                res.append(_tmi["sub"])
-                        else:
-                            res.append(_tmi["sub"])
-        except KeyError as err:
-            pass
+        if trust_mark_id not in self.config:
+            return []
 
-        return res
+        # Get the last issued
+        last = {}
+        for _tmi in self._issued(trust_mark_id):
+            if not sub or _tmi["sub"] == sub:
+                last.setdefault(_tmi["sub"], _tmi)
+
+        return [_sub for _sub, _tmi in last.items() if _is_active(_tmi)]
 
 
 class SimpleDB(object):
@@ -97,26 +112,18 @@ class SimpleDB(object):
         self._db = {}
 
     def add(self, tm_info: dict):
-        if tm_info['id'] in self._db:
-            self._db[tm_info['id']].append({tm_info['sub']: tm_info})
-        else:
-            self._db[tm_info['id']] = {tm_info["sub"]: tm_info}
+        # The last one issued comes last
+        self._db.setdefault(tm_info['id'], {}).setdefault(tm_info['sub'], []).append(tm_info)
 
     def list(self, trust_mark_id, sub: Optional[str] = ""):
-        if sub:
-            if self._db[trust_mark_id].get(sub, None):
-                return [sub]
-        elif trust_mark_id in self._db:
-            return self._db[trust_mark_id]
+        return [_sub for _sub in self._db.get(trust_mark_id, {}) if
+                (not sub or _sub == sub) and self.find(trust_mark_id, _sub)]
 
     def find(self, trust_mark_id, sub: str, iat: Optional[int] = 0) -> bool:
-        _tmi = self._db[trust_mark_id].get(sub, None)
-        if _tmi:
-            if iat:
-                if iat == _tmi["iat"]:
-                    return True
-            else:
-                return True
+        # Get the last issued
+        for _tmi in reversed(self._db.get(trust_mark_id, {}).get(sub, [])):
+            if not iat or iat == _tmi["iat"]:
+                return _is_active(_tmi)
 
         return False
 
diff --git a/src/fedservice/trust_mark_entity/entity.py b/src/fedservice/trust_mark_entity/entity.py
index 031f518..a84c151 100644
--- a/src/fedservice/trust_mark_entity/entity.py
+++ b/src/fedservice/trust_mark_entity/entity.py
@@ -39,12 +39,6 @@ class TrustMarkEntity(Unit):
                                      self.unit_get)
         self.trust_mark_specification = trust_mark_specification or {}
 
-        self.tm_lifetime = {}
-        for entity_id, tm in self.trust_mark_specification.items():
-            if "lifetime" in tm:
-                self.tm_lifetime[entity_id] = tm["lifetime"]
-                del tm["lifetime"]
-
         if trust_mark_db:
             self.issued = init_service(trust_mark_db)
         else:
@@ -74,14 +68,13 @@ class TrustMarkEntity(Unit):
         """
         _now = utc_time_sans_frac()
         _add = {'iat': _now, 'id': id, 'sub': sub}
-        lifetime = self.tm_lifetime.get(id)
-        if lifetime:
-            _add['exp'] = _now + lifetime
-
         if id not in self.trust_mark_specification:
             raise ValueError('Unknown trust mark ID')
 
         content = self.trust_mark_specification[id].copy()
+        lifetime = content.pop("lifetime", 0)
+        if lifetime:
+            _add['exp'] = _now + lifetime
         content.update(_add)
         if kwargs:
             content.update(kwargs)
@@ -123,8 +116,7 @@ class TrustMarkEntity(Unit):
 
     def list(self, trust_mark_id: str, sub: Optional[str] = "") -> list:
         if sub:
-            if self.find(trust_mark_id, sub):
-                return [sub]
+            return [sub] if self.find(trust_mark_id, sub) else []
         else:
             return self.issued.list(trust_mark_id)
 
diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_list.py b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
index 3a543ad..3b437d5 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_list.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
@@ -37,11 +37,8 @@ class TrustMarkList(Endpoint):
                         **kwargs) -> dict:
         _trust_mark_entity = self.upstream_get("unit")
 
-        if 'sub' in request and 'trust_mark_id' in request:
-            if _trust_mark_entity.find(request['trust_mark_id'], request['sub']):
-                return {"foo": request["sub"]}
-        elif 'trust_mark_id' in request:
-            _lst = _trust_mark_entity.list(request["trust_mark_id"])
+        if 'trust_mark_id' in request:
+            _lst = _trust_mark_entity.list(request["trust_mark_id"], request.get("sub", ""))
             if _lst:
                 return {"response_msg": json.dumps(_lst), "response_code": 200}
 
diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_status.py b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
index d5a86d7..4d6c262 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_status.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
@@ -8,6 +8,8 @@ from idpyoidc.message import Message
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
 
+from fedservice.utils import statement_is_expired
+
 logger = logging.getLogger(__name__)
 
 
@@ -38,8 +40,11 @@ class TrustMarkStatus(Endpoint):
 
         if 'trust_mark' in request:
             _mark = _trust_mark_issuer.unpack_trust_mark(request['trust_mark'])
-            if _trust_mark_issuer.find(_mark['id'], _mark['sub']):
-                return {'response_args': {'active': True}}
+            # Only know about those I've issued
+            if _mark['iss'] == _trust_mark_issuer.upstream_get("attribute", "entity_id"):
+                if not statement_is_expired(_mark) and _trust_mark_issuer.find(
+                        _mark['id'], _mark['sub'], _mark['iat']):
+                    return {'response_args': {'active': True}}
         else:
             if 'sub' in request:
                 _id = ""
@@ -49,7 +54,7 @@ class TrustMarkStatus(Endpoint):
                     _id = request['id']
 
                 if _id:
-                    if _trust_mark_issuer.find(_id, request['sub']):
+                    if _trust_mark_issuer.find(_id, request['sub'], int(request.get('iat') or 0)):
                         return {'response_args': {'active': True}}
 
         return self.error_cls(error="not_found", error_description="No active trust mark matching the query")
-- 
2.43.0


From 7ba11a7bb5aaec61604c86d40595545a790abb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:12 +0000
Subject: [PATCH 13/46] fix: only accept trust marks the trust anchor's
 federation stands behind

Who the trust mark is about was ignored, so was that the delegation couldn't be
verified, what the trust anchor had to say about who may issue the trust mark and
whose trust mark it is. Keys that the issuer had in some other federation, or had
replaced, could be used to verify the signature.
---
 src/fedservice/entity/__init__.py             |   5 +-
 .../entity/function/trust_anchor.py           |  29 ++++-
 .../entity/function/trust_mark_verifier.py    | 104 ++++++++++++------
 3 files changed, 101 insertions(+), 37 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 4eff217..c224d75 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -368,6 +368,8 @@ class FederationEntity(Unit):
         # Verifies the signature of the Trust Mark
         verified_trust_mark = self.function.trust_mark_verifier(
             trust_mark=trust_mark, trust_anchor=_tmi_trust_chain.anchor)
+        if not verified_trust_mark:
+            return None
 
         if check_with_issuer:
             # This to check that the Trust Mark is still valid according to the Trust Mark Issuer
@@ -375,7 +377,8 @@ class FederationEntity(Unit):
                                    request_args={
                                        'sub': verified_trust_mark['sub'],
                                        'id': verified_trust_mark['id'],
-                                       'trust_mark_id': verified_trust_mark['id']
+                                       'trust_mark_id': verified_trust_mark['id'],
+                                       'iat': verified_trust_mark['iat']
                                    },
                                    fetch_endpoint=_tmi_trust_chain.metadata["federation_entity"][
                                        "federation_trust_mark_status_endpoint"]
diff --git a/src/fedservice/entity/function/trust_anchor.py b/src/fedservice/entity/function/trust_anchor.py
index 483226f..0c9f529 100644
--- a/src/fedservice/entity/function/trust_anchor.py
+++ b/src/fedservice/entity/function/trust_anchor.py
@@ -1,17 +1,42 @@
+import copy
 from typing import Optional
 
+from cryptojwt import KeyJar
+from cryptojwt.exception import MissingKey
 from cryptojwt.jws.jws import factory
+from idpyoidc.key_import import import_jwks
 
 from fedservice.entity.function import get_verified_trust_chains
 from fedservice.entity.utils import get_federation_entity
+from fedservice.exception import UnknownTrustAnchor
+from fedservice.utils import statement_is_expired
 
 
 def get_verified_trust_anchor_statement(federation_entity, entity_id: str):
     _collector = federation_entity.function.trust_chain_collector
-    _ec = _collector.get_entity_configuration(entity_id)
+    if entity_id in _collector.trust_anchors:
+        _jwks = _collector.trust_anchors[entity_id]
+    elif entity_id == federation_entity.entity_id:
+        _jwks = federation_entity.get_attribute("keyjar").export_jwks()
+    else:
+        raise UnknownTrustAnchor(entity_id)
+
+    # May have collected it already
+    _ec = (_collector.config_cache[entity_id] or {}).get("_jws")
+    if not _ec:
+        _ec = _collector.get_entity_configuration(entity_id)
+
     _jwt = factory(_ec)
-    keys = federation_entity.keyjar.get_jwt_verify_keys(_jwt.jwt)
+    # What I know about the trust anchor's keys I know from the configuration
+    _key_jar = import_jwks(KeyJar(), copy.deepcopy(_jwks), entity_id)
+    keys = _key_jar.get_jwt_verify_keys(_jwt.jwt)
+    if not keys:
+        raise MissingKey(f'No keys matching: {_jwt.jwt.headers}')
     res = _jwt.verify_compact(keys=keys)
+    if res['iss'] != entity_id or res['sub'] != entity_id:
+        raise ValueError(f"Not the Entity Configuration of {entity_id}")
+    if statement_is_expired(res):
+        raise ValueError(f"Expired Entity Configuration: {entity_id}")
     return res
 
 
diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index ea64782..7b05c92 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -1,16 +1,18 @@
+import copy
 import logging
 from typing import Callable
 from typing import Optional
 
 from cryptojwt import KeyJar
+from cryptojwt.exception import MissingKey
 from cryptojwt.jws.jws import factory
 from idpyoidc.key_import import import_jwks
 
 from fedservice import message
-from fedservice.entity import apply_policies
 from fedservice.entity.function import Function
 from fedservice.entity.function import get_payload
 from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function.trust_anchor import get_verified_trust_anchor_statement
 from fedservice.entity.utils import get_federation_entity
 from fedservice.utils import statement_is_expired
 
@@ -41,16 +43,14 @@ class TrustMarkVerifier(Function):
         # Verify that everything that should be there, are there
         _trust_mark.verify()
 
+        if entity_id and entity_id != _trust_mark['sub']:
+            logger.warning(f"The trust mark is about {_trust_mark['sub']} not {entity_id}")
+            return None
+
         # Has it expired ?
         if statement_is_expired(_trust_mark):
             return None
 
-        # deal with delegation
-        if 'delegation' in _trust_mark:
-            _delegation = self.verify_delegation(_trust_mark, trust_anchor)
-            if not _delegation:
-                logger.warning("Could not verify the delegation")
-
         # Get trust chain
         # _federation_entity = get_federation_entity(self)
         # _chains, entity_conf = collect_trust_chains(_federation_entity, _trust_mark['iss'])
@@ -60,45 +60,81 @@ class TrustMarkVerifier(Function):
             logger.warning(f"Could not find any verifiable trust chains for {_trust_mark['iss']}")
             return None
 
-        if trust_anchor not in [_tc.anchor for _tc in _trust_chains]:
+        _trust_chains = [_tc for _tc in _trust_chains if _tc.anchor == trust_anchor]
+        if not _trust_chains:
             logger.warning(f'No verified trust chain to the trust anchor: {trust_anchor}')
             return None
 
-        # Now try to verify the signature on the trust_mark
-        # should have the necessary keys
-        _federation_entity = get_federation_entity(self)
-        _jwt = factory(trust_mark)
-        keyjar = _federation_entity.get_attribute('keyjar')
+        # What the trust anchor has to say about the trust mark
+        if not self.is_recognized(_trust_mark, trust_anchor):
+            return None
 
-        keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
+        # Now try to verify the signature on the trust_mark
+        # The keys that can be used are the ones the issuer has according to the trust chain
+        for _trust_chain in _trust_chains:
+            try:
+                return self.verify_signature(trust_mark, _trust_mark['iss'],
+                                             _trust_chain.verified_chain[-1]["jwks"])
+            except Exception as err:
+                logger.warning(f"Could not verify the signature of the trust mark: {err}")
+
+        return None
+
+    def verify_signature(self, token: str, issuer: str, jwks: dict) -> dict:
+        _jwt = factory(token)
+        _key_jar = import_jwks(KeyJar(), copy.deepcopy(jwks), issuer)
+        keys = _key_jar.get_jwt_verify_keys(_jwt.jwt)
         if not keys:
-            _trust_chains = apply_policies(_federation_entity, _trust_chains)
-            keyjar = import_jwks(keyjar,
-                                 _trust_chains[0].verified_chain[-1]["jwks"],
-                                 _trust_chains[0].iss_path[0])
-            keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
-
-        try:
-            _mark = _jwt.verify_compact(trust_mark, keys=keys)
-        except Exception as err:
-            return None
-        else:
-            return _mark
+            raise MissingKey(f'No keys matching: {_jwt.jwt.headers}')
+        return _jwt.verify_compact(token, keys=keys)
+
+    def trust_anchor_metadata(self, trust_anchor_id: str) -> dict:
+        _statement = get_verified_trust_anchor_statement(get_federation_entity(self),
+                                                         trust_anchor_id)
+        return _statement['metadata'].get('federation_entity', {})
+
+    def is_recognized(self, trust_mark, trust_anchor_id: str) -> bool:
+        """
+        Does the trust anchor recognize the issuer of the trust mark as someone who can issue
+        that kind of trust marks ?
+        """
+        ta_fe_metadata = self.trust_anchor_metadata(trust_anchor_id)
+
+        _issuers = ta_fe_metadata.get('trust_mark_issuers', {}).get(trust_mark['id'])
+        if isinstance(_issuers, str):
+            _issuers = [_issuers]
+        if _issuers and trust_mark['iss'] not in _issuers:
+            logger.warning(f"{trust_mark['iss']} is not an issuer of {trust_mark['id']}")
+            return False
+
+        # If someone owns the trust mark then others can only issue it if it's delegated to them
+        if 'delegation' in trust_mark or trust_mark['id'] in ta_fe_metadata.get(
+                'trust_mark_owners', {}):
+            try:
+                _delegation = self.verify_delegation(trust_mark, trust_anchor_id)
+            except Exception as err:
+                logger.warning(f"Delegation: {err}")
+                _delegation = None
+            if not _delegation:
+                logger.warning("Could not verify the delegation")
+                return False
+
+        return True
 
     def verify_delegation(self, trust_mark, trust_anchor_id):
-        _federation_entity = get_federation_entity(self)
-        _collector = _federation_entity.function.trust_chain_collector
         # Deal with the delegation
-        ta_fe_metadata = _collector.get_metadata(trust_anchor_id)['federation_entity']
+        ta_fe_metadata = self.trust_anchor_metadata(trust_anchor_id)
 
         if trust_mark['id'] not in ta_fe_metadata['trust_mark_issuers']:
             return None
         if trust_mark['id'] not in ta_fe_metadata['trust_mark_owners']:
             return None
 
-        _delegation = factory(trust_mark['delegation'])
         tm_owner_info = ta_fe_metadata['trust_mark_owners'][trust_mark['id']]
-        _key_jar = KeyJar()
-        _key_jar = import_jwks(_key_jar, tm_owner_info['jwks'], tm_owner_info['sub'])
-        keys = _key_jar.get_jwt_verify_keys(_delegation.jwt)
-        return _delegation.verify_compact(keys=keys)
+        _delegation = self.verify_signature(trust_mark['delegation'], tm_owner_info['sub'],
+                                            tm_owner_info['jwks'])
+        if _delegation['iss'] != tm_owner_info['sub'] or _delegation['sub'] != trust_mark['iss']:
+            return None
+        if _delegation['id'] != trust_mark['id'] or statement_is_expired(_delegation):
+            return None
+        return _delegation
-- 
2.43.0


From 865fe73d82e6fbb6f9b50fe18b10105dc961e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 14/46] fix: register what the trust chain makes of the
 request, and nothing when it is refused

The RP's published Entity Configuration was used to collect and verify the trust
chains while the metadata was taken, unfiltered by policies, from the request.
A request for several entity types could be handled as the wrong one, a missing
trust chain was not noticed by the OAuth2 registration, and refused requests
remained in the client database.
---
 .../appserver/oauth2/registration.py          | 33 +++++++++++++++----
 src/fedservice/appserver/oidc/registration.py | 29 ++++++++++++----
 2 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 31f1abc..9d39471 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -26,6 +26,7 @@ from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
+from fedservice.exception import NoTrustedChains
 from fedservice.message import OauthClientInformationResponse
 
 logger = logging.getLogger(__name__)
@@ -60,8 +61,12 @@ class Registration(Endpoint):
         :return:
         """
         payload = verify_self_signed_signature(request)
-        opponent_entity_type = set(payload['metadata'].keys()).difference({'federation_entity',
-                                                                           'trust_mark_issuer'}).pop()
+        _entity_types = set(payload['metadata'].keys())
+        if 'oauth_client' in _entity_types:
+            opponent_entity_type = 'oauth_client'
+        else:
+            opponent_entity_type = _entity_types.difference({'federation_entity',
+                                                             'trust_mark_issuer'}).pop()
         _federation_entity = get_federation_entity(self)
 
         # Collect trust chains
@@ -70,6 +75,9 @@ class Registration(Endpoint):
                                           signed_entity_configuration=request)
         _trust_chains = verify_trust_chains(_federation_entity, _chains, request)
         _trust_chains = apply_policies(_federation_entity, _trust_chains)
+        if not _trust_chains:
+            raise NoTrustedChains(f"No trust chains for {payload['sub']}")
+
         trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         _federation_entity.trust_chain_anchor = trust_chain.anchor
         # Perform non-federation registration
@@ -354,13 +362,24 @@ class Registration(Endpoint):
 
         logger.debug("Stored client info in CDB under cid={}".format(client_id))
 
+        _previous = _context.cdb.get(client_id)
         _context.cdb[client_id] = _cinfo
-        _cinfo = self.do_client_registration(
-            request,
-            client_id,
-            ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
-        )
+        try:
+            _cinfo = self.do_client_registration(
+                request,
+                client_id,
+                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
+            )
+        except Exception as err:
+            _cinfo = ResponseMessage(
+                error="invalid_configuration_request", error_description="%s" % err
+            )
         if isinstance(_cinfo, ResponseMessage):
+            # Nothing should remain of something that was refused
+            if _previous is None:
+                del _context.cdb[client_id]
+            else:
+                _context.cdb[client_id] = _previous
             return _cinfo
 
         args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index a87f860..0cb9bbb 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -5,7 +5,9 @@ from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.server.oidc import registration
 
 from fedservice import save_trust_chains
-from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function import apply_policies
+from fedservice.entity.function import collect_trust_chains
+from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
 
@@ -37,15 +39,19 @@ class Registration(registration.Registration):
         """
         payload = verify_self_signed_signature(request)
         _entity_types = set(payload['metadata'].keys())
-        if len(_entity_types) == 1:
+        if 'openid_relying_party' in _entity_types:
+            opponent_entity_type = 'openid_relying_party'
+        elif len(_entity_types) == 1:
             opponent_entity_type = _entity_types.pop()
         else:
             opponent_entity_type = _entity_types.difference({'federation_entity'}).pop()
 
         _federation_entity = get_federation_entity(self)
 
-        # Collect trust chains for client
-        _trust_chains = get_verified_trust_chains(self, entity_id=payload['sub'])
+        # Collect trust chains for client. They must hold for what's in the request.
+        _chains, _ = collect_trust_chains(self, entity_id=payload['sub'])
+        _trust_chains = verify_trust_chains(_federation_entity, _chains, request)
+        _trust_chains = apply_policies(_federation_entity, _trust_chains)
         if not _trust_chains:
             raise NoTrustedChains(f"No trust chains for {payload['sub']}")
 
@@ -53,7 +59,7 @@ class Registration(registration.Registration):
         trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         _federation_entity.trust_chain_anchor = trust_chain.anchor
 
-        req = RegistrationRequest(**payload["metadata"][opponent_entity_type])
+        req = RegistrationRequest(**trust_chain.metadata[opponent_entity_type])
         req["client_id"] = payload['sub']
         # Perform non-federation registration
         response_info = self.non_fed_process_request(req, **kwargs)
@@ -89,8 +95,19 @@ class Registration(registration.Registration):
     def non_fed_process_request(self, req, **kwargs):
         if "new_id" not in kwargs:
             kwargs["new_id"] = False
+
+        _cdb = self.upstream_get("context").cdb
+        _known = list(_cdb.keys())
+        _previous = _cdb.get(req.get("client_id"))
         # handle the registration request as in the non-federation case.
-        return registration.Registration.process_request(self, req, authn=None, **kwargs)
+        response_info = registration.Registration.process_request(self, req, authn=None, **kwargs)
+        if "error" in response_info:
+            # Nothing should remain of something that was refused
+            for _id in [k for k in _cdb.keys() if k not in _known]:
+                del _cdb[_id]
+            if _previous is not None:
+                _cdb[req["client_id"]] = _previous
+        return response_info
 
     @staticmethod
     def create_entity_statement(response_args, request, context,
-- 
2.43.0


From 54d412982f36a788f8c2c365e7c2d29d052a566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:28 +0000
Subject: [PATCH 15/46] fix: only register clients, also those without keys of
 their own

---
 src/fedservice/appserver/oauth2/registration.py | 8 +++++---
 src/fedservice/appserver/oidc/registration.py   | 6 +++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 9d39471..3514eab 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -64,9 +64,10 @@ class Registration(Endpoint):
         _entity_types = set(payload['metadata'].keys())
         if 'oauth_client' in _entity_types:
             opponent_entity_type = 'oauth_client'
+        elif 'openid_relying_party' in _entity_types:
+            opponent_entity_type = 'openid_relying_party'
         else:
-            opponent_entity_type = _entity_types.difference({'federation_entity',
-                                                             'trust_mark_issuer'}).pop()
+            raise ValueError(f"{payload['sub']} is not a client")
         _federation_entity = get_federation_entity(self)
 
         # Collect trust chains
@@ -301,7 +302,8 @@ class Registration(Endpoint):
                             del _cinfo[item]
 
         import_client_keys(request, _keyjar, client_id)
-        logger.debug(f"Keys for {client_id}: {_keyjar.key_summary(client_id)}")
+        if client_id in _keyjar:
+            logger.debug(f"Keys for {client_id}: {_keyjar.key_summary(client_id)}")
 
         return _cinfo
 
diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index 0cb9bbb..6f762ab 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -41,10 +41,10 @@ class Registration(registration.Registration):
         _entity_types = set(payload['metadata'].keys())
         if 'openid_relying_party' in _entity_types:
             opponent_entity_type = 'openid_relying_party'
-        elif len(_entity_types) == 1:
-            opponent_entity_type = _entity_types.pop()
+        elif 'oauth_client' in _entity_types:
+            opponent_entity_type = 'oauth_client'
         else:
-            opponent_entity_type = _entity_types.difference({'federation_entity'}).pop()
+            raise ValueError(f"{payload['sub']} is not a client")
 
         _federation_entity = get_federation_entity(self)
 
-- 
2.43.0


From b0f4b4c56d1da1a8556a8e79868e1eb8f80a44fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:47 +0000
Subject: [PATCH 16/46] fix: register automatically only what a valid chain
 about the client says

---
 src/fedservice/appserver/__init__.py          | 58 +++++++++++++++++++
 .../appserver/oauth2/authorization.py         | 43 ++++++++------
 .../appserver/oauth2/pushed_authorization.py  | 45 ++++++++------
 .../appserver/oidc/authorization.py           | 36 +++++++-----
 src/fedservice/entity_statement/statement.py  |  8 +--
 5 files changed, 133 insertions(+), 57 deletions(-)

diff --git a/src/fedservice/appserver/__init__.py b/src/fedservice/appserver/__init__.py
index 30df939..cc8da19 100644
--- a/src/fedservice/appserver/__init__.py
+++ b/src/fedservice/appserver/__init__.py
@@ -1,3 +1,4 @@
+import json
 import logging
 from typing import Any
 from typing import Callable
@@ -5,6 +6,7 @@ from typing import Optional
 from typing import Union
 
 from cryptojwt import KeyJar
+from cryptojwt.jwt import utc_time_sans_frac
 from cryptojwt.utils import importer
 from idpyoidc.configure import Base
 from idpyoidc.key_import import import_jwks
@@ -22,6 +24,9 @@ from idpyoidc.server.user_authn.authn_context import populate_authn_broker
 from idpyoidc.server.util import execute
 
 from fedservice.entity.claims import OPClaims
+from fedservice.entity.function import apply_policies
+from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function import verify_trust_chains
 from fedservice.message import AuthorizationServerMetadata
 from fedservice.message import OPMetadata
 from fedservice.server import ServerUnit
@@ -53,6 +58,59 @@ def import_client_keys(information: Union[Message, dict], keyjar: KeyJar, entity
                 keyjar = import_jwks(keyjar, _jwks, entity_id)
 
 
+def automatic_registration_expected(client_info: Optional[dict], context) -> bool:
+    """
+    Clients I don't know, and those I've registered automatically based on trust chains
+    that since have expired.
+    """
+    if 'automatic' not in (context.provider_info.get('client_registration_types_supported') or []):
+        return False
+    if client_info is None:
+        return True
+    return ("automatic_registered" in client_info and
+            client_info.get("registration_expires_at", 0) < utc_time_sans_frac())
+
+
+def provided_trust_chain(request: Union[Message, dict]) -> list:
+    """
+    The trust chain, if any, in a request
+    """
+    _trust_chain = request.get('trust_chain') or []
+    if isinstance(_trust_chain, str):
+        try:
+            _trust_chain = json.loads(_trust_chain)
+        except ValueError:
+            _trust_chain = []
+    return _trust_chain if isinstance(_trust_chain, list) else []
+
+
+def client_trust_chains(unit, entity_id: str, provided: list) -> list:
+    """
+    Trust chains, policies applied, that are about a client.
+
+    :param provided: A trust chain provided by the client. The client's Entity Configuration first.
+    """
+    if provided:
+        # So I get the TA's entity statement first
+        trust_chains = verify_trust_chains(unit, [provided[::-1]])
+        # Anyone can send me a trust chain, it must be the client's
+        trust_chains = [tc for tc in trust_chains if
+                        tc.verified_chain[-1]['iss'] == tc.verified_chain[-1]['sub'] == entity_id]
+        trust_chains = apply_policies(unit, trust_chains)
+        if trust_chains:
+            return trust_chains
+
+    return get_verified_trust_chains(unit, entity_id)
+
+
+def forget_client_keys(keyjar: KeyJar, entity_id: str):
+    """
+    The keys a client no longer uses must not be used to verify anything.
+    """
+    if entity_id in keyjar:
+        del keyjar[entity_id]
+
+
 class ServerEntity(ServerUnit):
     name = 'openid_provider'
     parameter = {"endpoint": [Endpoint], "context": EndpointContext}
diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 03e3ab8..6f89be3 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -7,10 +7,11 @@ from idpyoidc.message.oauth2 import OauthClientMetadata
 from idpyoidc.node import topmost_unit
 from idpyoidc.server.oauth2 import authorization
 
+from fedservice.appserver import automatic_registration_expected
+from fedservice.appserver import client_trust_chains
+from fedservice.appserver import forget_client_keys
 from fedservice.appserver import import_client_keys
-from fedservice.entity.function import apply_policies
-from fedservice.entity.function import collect_trust_chains
-from fedservice.entity.function import verify_trust_chains
+from fedservice.appserver import provided_trust_chain as get_provided_trust_chain
 from fedservice.entity.utils import get_federation_entity
 from fedservice.exception import NoTrustedChains
 
@@ -47,29 +48,27 @@ class Authorization(authorization.Authorization):
         return request
 
     def find_client_keys(self, iss):
+        _context = self.upstream_get("context")
+        if not automatic_registration_expected(_context.cdb.get(iss), _context):
+            return None
         return self.do_automatic_registration(iss, [])
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
-        if provided_trust_chain:
-            # So I get the TA's entity statement first
-            provided_trust_chain.reverse()
-            trust_chains = verify_trust_chains(self, [provided_trust_chain])
-        else:
-            chains, signed_entity_configuration = collect_trust_chains(self, entity_id)
-            trust_chains = verify_trust_chains(self, chains, signed_entity_configuration)
-
-        trust_chains = apply_policies(self, trust_chains)
-
+        trust_chains = client_trust_chains(self, entity_id, provided_trust_chain)
         if not trust_chains:
             raise NoTrustedChains()
 
         # pick one of the possible
-        trust_chain = trust_chains[0]
         _fe = topmost_unit(self)['federation_entity']
+        trust_chain = _fe.pick_trust_chain(trust_chains)
+        # The one I use first
+        _fe.store_trust_chains(entity_id, [trust_chain] + [
+            tc for tc in trust_chains if tc is not trust_chain])
         _fe.trust_chain_anchor = trust_chain.anchor
 
         # handle the registration request as in the non-federation case.
         # If there is a signed_jwks_uri, jwks_uri or jwks in the metadata import keys
+        forget_client_keys(self.upstream_get('attribute', 'keyjar'), entity_id)
         import_client_keys(trust_chain.metadata['oauth_client'], self.upstream_get('attribute', 'keyjar'), entity_id)
 
         req = OauthClientMetadata(**trust_chain.metadata['oauth_client'])
@@ -82,19 +81,27 @@ class Authorization(authorization.Authorization):
         response_info = _registration.non_fed_process_request(req=req, **kwargs)
 
         try:
-            return response_info["response_args"]["client_id"]
+            _client_id = response_info["response_args"]["client_id"]
         except KeyError:
             return None
 
+        # Doesn't last longer than what it's based on
+        _cdb = self.upstream_get("context").cdb
+        _cdb[_client_id] = {**_cdb[_client_id], "automatic_registered": True,
+                            "registration_expires_at": trust_chain.exp}
+        return _client_id
+
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
         _context = self.upstream_get("context")
         # If this is a registered client then this should return some info
         client_info = _context.cdb.get(_cid)
-        if client_info is None:
-            if 'automatic' in _context.provider_info.get('client_registration_types_supported'):
+        if client_info is None or automatic_registration_expected(client_info, _context):
+            if automatic_registration_expected(client_info, _context):
+                if client_info:  # Remove the old one
+                    del _context.cdb[_cid]
                 # try the federation way
-                _trust_chain = request.get('trust_chain', [])
+                _trust_chain = get_provided_trust_chain(request)
                 registered_client_id = self.do_automatic_registration(_cid, _trust_chain)
                 if registered_client_id is None:
                     return {
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index c35b1b5..4a71824 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -1,16 +1,16 @@
 import logging
 from typing import List
 
+from fedservice.appserver import automatic_registration_expected
+from fedservice.appserver import client_trust_chains
+from fedservice.appserver import forget_client_keys
 from fedservice.appserver import import_client_keys
-from fedservice.entity.function import get_verified_trust_chains
+from fedservice.appserver import provided_trust_chain as get_provided_trust_chain
 from idpyoidc.message import oauth2
 from idpyoidc.node import topmost_unit
 from idpyoidc.server.oauth2.authorization import Authorization
 from idpyoidc.server.oauth2 import authorization
 
-from fedservice.entity.function import apply_policies
-from fedservice.entity.function import collect_trust_chains
-from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.utils import get_federation_entity
 from fedservice.exception import NoTrustedChains
 from fedservice.message import OauthClientMetadata
@@ -40,54 +40,61 @@ class PushedAuthorization(Authorization):
         self.allowed_targets.append("")
 
     def find_client_keys(self, iss):
+        _context = self.upstream_get("context")
+        if not automatic_registration_expected(_context.cdb.get(iss), _context):
+            return None
         return self.do_automatic_registration(iss, [])
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
-        if provided_trust_chain:
-            # So I get the TA's entity statement first
-            provided_trust_chain.reverse()
-            trust_chains = verify_trust_chains(self, [provided_trust_chain])
-            trust_chains = apply_policies(self, trust_chains)
-        else:
-            trust_chains = get_verified_trust_chains(self, entity_id)
-
+        trust_chains = client_trust_chains(self, entity_id, provided_trust_chain)
         if not trust_chains:
             raise NoTrustedChains()
 
         # pick one of the possible
-        trust_chain = trust_chains[0]
         _fe = topmost_unit(self)['federation_entity']
+        trust_chain = _fe.pick_trust_chain(trust_chains)
+        # The one I use first
+        _fe.store_trust_chains(entity_id, [trust_chain] + [
+            tc for tc in trust_chains if tc is not trust_chain])
         _fe.trust_chain_anchor = trust_chain.anchor
 
         _metadata = trust_chain.metadata['oauth_client']
 
         # If there is a signed_jwks_uri, jwks_uri or jwks in the metadata import the keys
+        forget_client_keys(self.upstream_get('attribute', 'keyjar'), entity_id)
         import_client_keys(_metadata, self.upstream_get('attribute', 'keyjar'), entity_id)
 
         req = OauthClientMetadata(**_metadata)
         req['client_id'] = entity_id
         kwargs = {}
-        if self.new_client_id:
-            kwargs['new_id'] = self.new_client_id
+        kwargs['new_id'] = bool(self.new_client_id)
 
         op = topmost_unit(self)['oauth_authorization_server']
         _registration = op.get_endpoint("registration")
         response_info = _registration.non_fed_process_request(req=req, **kwargs)
 
         try:
-            return response_info["response_args"]["client_id"]
+            _client_id = response_info["response_args"]["client_id"]
         except KeyError:
             return None
 
+        # Doesn't last longer than what it's based on
+        _cdb = self.upstream_get("context").cdb
+        _cdb[_client_id] = {**_cdb[_client_id], "automatic_registered": True,
+                            "registration_expires_at": trust_chain.exp}
+        return _client_id
+
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
         _context = self.upstream_get("context")
         # If this is a registered client then this should return some info
         client_info = _context.cdb.get(_cid)
-        if client_info is None:
-            if 'automatic' in _context.provider_info.get('client_registration_types_supported'):
+        if client_info is None or automatic_registration_expected(client_info, _context):
+            if automatic_registration_expected(client_info, _context):
+                if client_info:  # Remove the old one
+                    del _context.cdb[_cid]
                 # try the federation way
-                _trust_chain = request.get('trust_chain', [])
+                _trust_chain = get_provided_trust_chain(request)
                 registered_client_id = self.do_automatic_registration(_cid, _trust_chain)
                 if registered_client_id is None:
                     return {
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index e4e1ae0..3133577 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -7,9 +7,9 @@ from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.node import topmost_unit
 from idpyoidc.server.oidc import authorization
 
-from fedservice.entity.function import apply_policies
-from fedservice.entity.function import get_verified_trust_chains
-from fedservice.entity.function import verify_trust_chains
+from fedservice.appserver import client_trust_chains
+from fedservice.appserver import forget_client_keys
+from fedservice.appserver import provided_trust_chain as get_provided_trust_chain
 from fedservice.entity.utils import get_federation_entity
 from fedservice.entity.utils import get_keys
 from fedservice.exception import NoTrustedChains
@@ -47,28 +47,29 @@ class Authorization(authorization.Authorization):
         return request
 
     def find_client_keys(self, iss):
+        _context = self.upstream_get("context")
+        if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):
+            return None
+        if "automatic_registered" not in _context.cdb.get(iss, {"automatic_registered": True}):
+            return None
         return self.do_automatic_registration(iss, [])
 
     def do_automatic_registration(self, client_entity_id: str, provided_trust_chain: List[str]):
-        if provided_trust_chain:
-            # So I get the TA's entity statement first
-            provided_trust_chain.reverse()
-            trust_chains = verify_trust_chains(self, [provided_trust_chain])
-            trust_chains = apply_policies(self, trust_chains)
-        else:
-            trust_chains = get_verified_trust_chains(self, client_entity_id)
-
+        trust_chains = client_trust_chains(self, client_entity_id, provided_trust_chain)
         if not trust_chains:
             raise NoTrustedChains()
 
         # pick one of the possible
-        trust_chain = trust_chains[0]
         _fe = get_federation_entity(self)
-        _fe.store_trust_chains(client_entity_id, trust_chains)
+        trust_chain = _fe.pick_trust_chain(trust_chains)
+        # The one I use first
+        _fe.store_trust_chains(client_entity_id, [trust_chain] + [
+            tc for tc in trust_chains if tc is not trust_chain])
         # _fe.trust_chain_anchor = trust_chain.anchor
 
         # handle the registration request as in the non-federation case.
         # If there is a jwks_uri in the metadata import keys
+        forget_client_keys(self.upstream_get('attribute', 'keyjar'), client_entity_id)
         _root = topmost_unit(self)
         if "openid_provider" in _root:
             get_keys(
@@ -88,10 +89,14 @@ class Authorization(authorization.Authorization):
         response_info = _registration.non_fed_process_request(req=req, **kwargs)
 
         try:
-            return response_info["response_args"]["client_id"]
+            _client_id = response_info["response_args"]["client_id"]
         except KeyError:
             return None
 
+        _cdb = self.upstream_get("context").cdb
+        _cdb[_client_id] = {**_cdb[_client_id], "automatic_registered": True}
+        return _client_id
+
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
         _context = self.upstream_get("context")
@@ -102,7 +107,7 @@ class Authorization(authorization.Authorization):
                 if client_info and "automatic_registered" in client_info:  # Remove the old one
                     del _context.cdb[_cid]
                 # try the federation way
-                _trust_chain = request.get('trust_chain', [])
+                _trust_chain = get_provided_trust_chain(request)
                 registered_client_id = self.do_automatic_registration(_cid, _trust_chain)
                 if registered_client_id is None:
                     return {
@@ -111,7 +116,6 @@ class Authorization(authorization.Authorization):
                     }
                 else:
                     logger.debug('Automatic registration done')
-                    _context.cdb[registered_client_id]["automatic_registered"] = True
                     if registered_client_id != _cid:
                         request["client_id"] = registered_client_id
                         kwargs["also_known_as"] = {_cid: registered_client_id}
diff --git a/src/fedservice/entity_statement/statement.py b/src/fedservice/entity_statement/statement.py
index bf40c6c..a578448 100644
--- a/src/fedservice/entity_statement/statement.py
+++ b/src/fedservice/entity_statement/statement.py
@@ -53,7 +53,8 @@ class TrustChain(ImpExp):
         self.metadata = metadata or {}
         self.exp = exp
         self.verified_chain = verified_chain
-        self.combined_policy = {}
+        self.chain = chain or []
+        self.combined_policy = combined_policy or {}
 
     def keys(self):
         return self.metadata.keys()
@@ -85,11 +86,10 @@ class TrustChain(ImpExp):
         """
         Exports the verified chain in such a way that it can be used as value on the
         trust_chain claim in an authorization or explicit registration request.
+        That is as signed statements, the entity's own Entity Configuration first.
         :return:
         """
-        _chain = self.verified_chain
-        _chain.reverse()
-        return _chain
+        return list(reversed(self.chain))
 
 
 def chains2dict(trust_chains: TrustChain) -> dict:
-- 
2.43.0


From a274bfac15f10148758be439193c39b626372ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:02 +0000
Subject: [PATCH 17/46] fix: only accept registration responses from the server
 asked, about a type the client is

---
 .../appclient/oauth2/registration.py          | 27 ++++++++++++++-----
 src/fedservice/appclient/oidc/registration.py |  5 ++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index d7df814..0446cfe 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -14,7 +14,6 @@ from idpyoidc.node import topmost_unit
 
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import collect_trust_chains
-from fedservice.entity.function import get_verified_trust_chains
 from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
@@ -164,6 +163,11 @@ class Registration(registration.Registration):
                 _federation_entity.function.trust_chain_collector.trust_anchors):
             raise ValueError("Trust anchor I don't trust")
 
+        # Anyone in the federation could sign a response. Only the one I asked counts.
+        _issuer = getattr(self.upstream_get('context'), 'issuer', '')
+        if _issuer and payload['iss'] != _issuer:
+            raise ValueError(f"Response from {payload['iss']}, not {_issuer}")
+
         # This is where I should decide to use the metadata verification service or do it
         # all myself
         # Do I have the necessary Function/Service installed
@@ -185,7 +189,10 @@ class Registration(registration.Registration):
                 raise ValueError("Registration response not about me or not valid")
 
             # This is the trust chain from myself to the TA
-            _trust_chains = get_verified_trust_chains(self, entity_id=_entity_id)
+            _chains, _ec = collect_trust_chains(self.upstream_get('unit'),
+                                                entity_id=_entity_id,
+                                                stop_at=payload['trust_anchor_id'])
+            _trust_chains = verify_trust_chains(_federation_entity, _chains, _ec)
             _trust_chains = [c for c in _trust_chains if c.anchor == payload['trust_anchor_id']]
 
             # should only be one chain
@@ -194,11 +201,17 @@ class Registration(registration.Registration):
 
             _metadata = payload.get("metadata")
             if _metadata:
-                _trust_chains[0].verified_chain[-1]['metadata'] = _metadata
-                # If it's metadata_policy what to do ?
-                _trust_chains = apply_policies(_federation_entity, _trust_chains)
-
+                # The server decides on the client, not on the federation entity I am
+                _own = {k: v for k, v in _trust_chains[0].verified_chain[-1]['metadata'].items() if
+                        k == 'federation_entity'}
+                _trust_chains[0].verified_chain[-1]['metadata'] = {**_own, **_metadata}
+            # If it's metadata_policy what to do ?
+            _trust_chains = apply_policies(_federation_entity, _trust_chains)
             _resp = _trust_chains[0].metadata
+            # Must be about something I am
+            if not [guise for guise, _ in topmost_unit(self).items() if
+                    guise in _resp and guise != 'federation_entity']:
+                raise ValueError("Registration response not about any of my entity types")
             _context = self.upstream_get('context')
             _context.registration_response = _resp
             return _resp
@@ -236,6 +249,8 @@ class Registration(registration.Registration):
                 except KeyError:
                     pass
             else:
+                if guise not in resp:
+                    continue
                 _context = item.get_context()
                 _context.map_preferred_to_registered(resp[guise])
 
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 45896c7..66605e7 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -143,6 +143,11 @@ class Registration(registration.Registration):
             'trust_anchor_id'] not in _federation_entity.function.trust_chain_collector.trust_anchors:
             raise ValueError("Trust anchor I don't trust")
 
+        # Anyone in the federation could sign a response. Only the one I asked counts.
+        _issuer = getattr(self.upstream_get('context'), 'issuer', '')
+        if _issuer and payload['iss'] != _issuer:
+            raise ValueError(f"Response from {payload['iss']}, not {_issuer}")
+
         # This is where I should decide to use the metadata verification service or do it
         # all myself
         # Do I have the necessary Function/Service installed
-- 
2.43.0


From f81f797e7ccb2583c2dfcbebbc23c3d538cf05ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:39 +0000
Subject: [PATCH 18/46] fix: HTTP parameters and trust mark specifications must
 not leak between entities

Combo stored the HTTP parameters of one entity in the caller's
specification, so that an entity later built from the same specification
used them. Trust mark issuers built from the same specification shared it.
---
 src/fedservice/combo/__init__.py           | 11 ++++++++---
 src/fedservice/trust_mark_entity/entity.py |  6 ++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/combo/__init__.py b/src/fedservice/combo/__init__.py
index 678bb0e..fbb3f94 100644
--- a/src/fedservice/combo/__init__.py
+++ b/src/fedservice/combo/__init__.py
@@ -1,4 +1,5 @@
 import logging
+from copy import copy
 from typing import Any
 from typing import Optional
 from typing import Union
@@ -36,7 +37,7 @@ class Combo(Unit):
         for key, spec in config.items():
             if isinstance(spec, dict) and 'class' in spec:
                 if httpc_params:
-                    self._add_httpc_params(spec, httpc_params)
+                    spec = self._add_httpc_params(spec, httpc_params)
                 logger.info(f"Initiating entity type: '{key}' with config: {spec}")
                 self._part[key] = execute(spec, upstream_get=self.unit_get,
                                           entity_id=self.entity_id, httpc=httpc,
@@ -46,13 +47,17 @@ class Combo(Unit):
         return config.get("httpc_params")
 
     def _add_httpc_params(self, spec, httpc_params):
-        spec_kwargs = spec.get("kwargs", {})
+        # The specification belongs to the caller, who may use it again.
+        spec = {**spec, "kwargs": dict(spec.get("kwargs", {}))}
+        spec_kwargs = spec["kwargs"]
         if "config" in spec_kwargs:
-            if httpc_params and "httpc_params" not in spec_kwargs["config"]:
+            if "httpc_params" not in spec_kwargs["config"]:
+                spec_kwargs["config"] = copy(spec_kwargs["config"])
                 spec_kwargs["config"]["httpc_params"] = httpc_params
         else:
             if "httpc_params" not in spec_kwargs:
                 spec_kwargs["httpc_params"] = httpc_params
+        return spec
 
     def __getitem__(self, item):
         if item in self._part:
diff --git a/src/fedservice/trust_mark_entity/entity.py b/src/fedservice/trust_mark_entity/entity.py
index a84c151..cea82d5 100644
--- a/src/fedservice/trust_mark_entity/entity.py
+++ b/src/fedservice/trust_mark_entity/entity.py
@@ -37,7 +37,8 @@ class TrustMarkEntity(Unit):
         self.entity_id = entity_id or upstream_get("attribute", "entity_id")
         self.endpoint = do_endpoints({"endpoint": endpoint, "issuer": self.entity_id},
                                      self.unit_get)
-        self.trust_mark_specification = trust_mark_specification or {}
+        # The caller's specification might be used for several entities
+        self.trust_mark_specification = dict(trust_mark_specification or {})
 
         if trust_mark_db:
             self.issued = init_service(trust_mark_db)
@@ -155,7 +156,8 @@ class SelfSignedTrustMarkEntity(Unit):
 
         self.entity_id = entity_id or upstream_get("attribute", "entity_id")
         self.trust_mark_ids = trust_mark_ids or []
-        self.trust_mark_specification = trust_mark_specification or {}
+        # The caller's specification might be used for several entities
+        self.trust_mark_specification = dict(trust_mark_specification or {})
         self.issued = []
         self.tm_lifetime = 86400*30
 
-- 
2.43.0


From d3dbc6902317acda610d6e586953aef0ccd290db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:38 +0000
Subject: [PATCH 19/46] fix: use a provider only as a trust chain about
 precisely it describes, and go by priority

Stored trust chains were not picked according to the trust anchor priority, metadata naming
another issuer was accepted (its keys becoming that issuer's), and the metadata of the server
was not available when creating authorization requests.
---
 src/fedservice/appclient/oauth2/authorization.py  |  5 ++++-
 src/fedservice/appclient/oidc/authorization.py    |  5 ++++-
 .../appclient/stand_alone_client_entity.py        | 15 ++++++++++-----
 src/fedservice/entity/__init__.py                 |  2 +-
 4 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index 2ee8ffb..913acc3 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -33,6 +33,8 @@ class Authorization(authorization.Authorization):
         else:  # Make it happen
             context.add_on['pushed_authorization']['apply'] = True
 
+        return post_args
+
     def _automatic_registration(self, request_args, post_args=None, **kwargs):
         _context = self.upstream_get("context")
         if post_args is None:
@@ -54,7 +56,8 @@ class Authorization(authorization.Authorization):
 
         # what if request_param is already set ??
         # What if request_param in not in client_auth ??
-        if _ams:
+        # get_metadata_claim returns an exception if the claim is missing
+        if _ams and not isinstance(_ams, KeyError):
             for endpoint in _request_endpoints:
                 if endpoint in _ams:
                     _func = getattr(self, f'_use_{endpoint}')
diff --git a/src/fedservice/appclient/oidc/authorization.py b/src/fedservice/appclient/oidc/authorization.py
index e816048..add941b 100644
--- a/src/fedservice/appclient/oidc/authorization.py
+++ b/src/fedservice/appclient/oidc/authorization.py
@@ -32,6 +32,8 @@ class Authorization(authorization.Authorization):
         else:  # Make it happen
             context.add_on['pushed_authorization']['apply'] = True
 
+        return post_args
+
     def _automatic_registration(self, request_args, post_args=None, **kwargs):
         _context = self.upstream_get("context")
         if post_args is None:
@@ -45,7 +47,8 @@ class Authorization(authorization.Authorization):
                                            ['openid_provider', 'oauth_authorization_server'])
         # what if request_param is already set ??
         # What if request_param in not in client_auth ??
-        if _auth_meth_supported:
+        # get_metadata_claim returns an exception if the claim is missing
+        if _auth_meth_supported and not isinstance(_auth_meth_supported, KeyError):
             for endpoint in _request_endpoints:
                 if endpoint in _auth_meth_supported:
                     _func = getattr(self, f'_use_{endpoint}')
diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 0b9ae28..d14833a 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -56,23 +56,28 @@ class StandAloneClientEntity(ClientEntity):
             if _hp:
                 if "verify" in _hp and "verify" not in keyjar.httpc_params:
                     keyjar.httpc_params["verify"] = _hp["verify"]
-            keyjar.load_keys(issuer, jwks_uri=resp["jwks_uri"])
+            keyjar.load_keys(issuer, jwks_uri=resp["jwks_uri"], replace=True)
         elif "jwks" in resp:
             logger.debug("'jwks' in provider info")
-            keyjar.load_keys(issuer, jwks=resp["jwks"])
+            keyjar.load_keys(issuer, jwks=resp["jwks"], replace=True)
         else:
             logger.debug("Neither jws or jwks_uri in provider info")
 
     def _collect_metadata(self, federation_entity, context):
         _trust_chains = get_verified_trust_chains(self, context.issuer)
         if _trust_chains:
-            save_trust_chains(context, _trust_chains)
             trust_chain = federation_entity.pick_trust_chain(_trust_chains)
-            federation_entity.trust_chain_anchor = trust_chain.anchor
             # _pi = trust_chain.metadata["openid_relying_party"]
             _pi = trust_chain.metadata["openid_provider"]
+            if _pi["issuer"] != context.issuer:
+                # Must not be able to speak, or provide keys, for someone else
+                raise ValueError(f"Issuer mismatch: {_pi['issuer']} != {context.issuer}")
+
+            save_trust_chains(context, _trust_chains)
+            federation_entity.trust_chain_anchor = trust_chain.anchor
             federation_entity.context.trust_chain[_pi["issuer"]] = trust_chain
             context.provider_info = context.metadata = _pi
+            context.server_metadata = trust_chain.metadata
             self._import_keys(_pi, context.keyjar, _pi["issuer"])
             return _pi
         else:
@@ -143,7 +148,7 @@ class StandAloneClientEntity(ClientEntity):
         elif federation_entity.context.tr_priority:
             # Go by priority
             for ta_id in federation_entity.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _trust_chains:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index c224d75..ff23512 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -236,7 +236,7 @@ class FederationEntity(Unit):
         elif self.context.tr_priority:
             # Go by priority
             for ta_id in self.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _trust_chains:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
-- 
2.43.0


From 96968912addf085c024c2e805dad7b23de3f2ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:48 +0000
Subject: [PATCH 20/46] fix: a request for authorization given arguments but no
 response_type uses the client's response type

---
 src/fedservice/appclient/stand_alone_client_entity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index d14833a..4ca3117 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -206,11 +206,11 @@ class StandAloneClientEntity(ClientEntity):
             _response_type = req_args.get("response_type")
             if _response_type:
                 return _response_type
+
+        if default_response_type in context.claims.get_usage("response_types"):
+            return default_response_type
         else:
-            if default_response_type in context.claims.get_usage("response_types"):
-                return default_response_type
-            else:
-                return context.claims.get_usage("response_types")[0]
+            return context.claims.get_usage("response_types")[0]
 
     def _get_response_mode(self, context, response_type, request_args):
         if request_args:
-- 
2.43.0


From 97d42c3b28d2f1a767a8c85a5d8af8024b8555ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:49 +0000
Subject: [PATCH 21/46] fix: services only take in answers that are signed and
 about what was asked

---
 src/fedservice/entity/client/__init__.py      | 16 +++++++++++-
 .../entity/client/entity_configuration.py     |  7 +++++-
 .../entity/client/entity_statement.py         |  5 ++++
 src/fedservice/entity/client/resolve.py       |  4 +++
 src/fedservice/entity/service.py              | 25 +++++++++++++++++++
 src/fedservice/message.py                     |  2 ++
 6 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/client/__init__.py b/src/fedservice/entity/client/__init__.py
index 1d40d71..850ab43 100644
--- a/src/fedservice/entity/client/__init__.py
+++ b/src/fedservice/entity/client/__init__.py
@@ -22,6 +22,7 @@ from idpyoidc.exception import FormatError
 from idpyoidc.exception import ParseError
 from idpyoidc.key_import import import_jwks
 from idpyoidc.message import Message
+from idpyoidc.message.oauth2 import is_error_message
 from idpyoidc.node import ClientUnit
 from requests import request
 
@@ -305,10 +306,23 @@ class FederationClient(FederationClientEntity):
         logger.debug("do_request info: {}".format(_info))
 
         _state = kwargs.get("state", "")
-        return self.service_request(
+        response = self.service_request(
             _srv, response_body_type=response_body_type, state=_state,
             behaviour_args=behaviour_args, **_info
         )
+        self._verify_subject(_srv, response, request_args=request_args, **kwargs)
+        return response
+
+    @staticmethod
+    def _verify_subject(service, response, **kwargs):
+        """An answer must be about the one I asked about."""
+        if not getattr(service, "signed_response", False) or not isinstance(response, Message) \
+                or is_error_message(response):
+            return
+
+        _subject = service.expected_subject(**kwargs)
+        if _subject and response.get("sub") != _subject:
+            raise ValueError(f"Response about {response.get('sub')}, not {_subject}")
 
     def set_client_id(self, client_id):
         self.get_context().set("client_id", client_id)
diff --git a/src/fedservice/entity/client/entity_configuration.py b/src/fedservice/entity/client/entity_configuration.py
index ce29de8..a1b8fc8 100644
--- a/src/fedservice/entity/client/entity_configuration.py
+++ b/src/fedservice/entity/client/entity_configuration.py
@@ -38,6 +38,7 @@ class EntityConfiguration(FederationService):
     service_name = "entity_configuration"
     http_method = "GET"
     response_body_type = "jwt"
+    signed_response = True
     response_content_type = "application/entity-statement+jwt"
 
     def __init__(self,
@@ -111,8 +112,12 @@ class EntityConfiguration(FederationService):
         return _info
 
     def post_parse_response(self, response, **kwargs):
+        if response["sub"] != response["iss"]:
+            raise ValueError(f"Not the Entity Configuration of {response['iss']}")
+
         root = get_federation_entity(self)
         _collector = root.function.trust_chain_collector
-        _collector.config_cache[response["iss"]] = response
+        # As a dictionary since that's what the cache knows when it has become too old
+        _collector.config_cache[response["iss"]] = {**response.to_dict(), "_jws": response._jws}
 
         return response
diff --git a/src/fedservice/entity/client/entity_statement.py b/src/fedservice/entity/client/entity_statement.py
index aecef8a..0c14d5f 100644
--- a/src/fedservice/entity/client/entity_statement.py
+++ b/src/fedservice/entity/client/entity_statement.py
@@ -39,6 +39,7 @@ class EntityStatement(FederationService):
     http_method = "GET"
     endpoint_name = "federation_fetch_endpoint"
     response_body_type = "jose"
+    signed_response = True
     response_content_type = "application/entity-statement+jwt"
 
     def __init__(self,
@@ -46,6 +47,10 @@ class EntityStatement(FederationService):
                  conf: Optional[Union[dict, Configuration]] = None):
         FederationService.__init__(self, upstream_get, conf=conf)
 
+    def expected_subject(self, request_args: Optional[dict] = None, subject: Optional[str] = "",
+                         **kwargs) -> Optional[str]:
+        return subject
+
     def get_request_parameters(
             self,
             request_args: Optional[dict] = None,
diff --git a/src/fedservice/entity/client/resolve.py b/src/fedservice/entity/client/resolve.py
index 165d54e..208d7ce 100644
--- a/src/fedservice/entity/client/resolve.py
+++ b/src/fedservice/entity/client/resolve.py
@@ -19,12 +19,16 @@ class Resolve(FederationService):
     service_name = "resolve"
     http_method = "GET"
     response_body_type = "jose"
+    signed_response = True
 
     def __init__(self,
                  upstream_get: Callable,
                  conf: Optional[Union[dict, Configuration]] = None):
         FederationService.__init__(self, upstream_get, conf=conf)
 
+    def expected_subject(self, request_args: Optional[dict] = None, **kwargs) -> Optional[str]:
+        return (request_args or {}).get("sub")
+
     def get_request_parameters(
             self,
             request_args: Optional[dict] = None,
diff --git a/src/fedservice/entity/service.py b/src/fedservice/entity/service.py
index 64339f5..619b887 100644
--- a/src/fedservice/entity/service.py
+++ b/src/fedservice/entity/service.py
@@ -1,13 +1,38 @@
+import json
 from typing import Optional
 from typing import Union
 
 from idpyoidc.client.service import Service
 from idpyoidc.message import Message
+from idpyoidc.message.oauth2 import ResponseMessage
+from idpyoidc.message.oauth2 import is_error_message
 
 from fedservice.entity.utils import get_federation_entity
 
 
 class FederationService(Service):
+    # If only a signed response will do
+    signed_response = False
+
+    def parse_response(self, info, sformat="", state="", behaviour_args=None, **kwargs):
+        if self.signed_response and not self._is_error_message(info):
+            # Whatever content type the response was said to have, it's of no use unless it's signed
+            sformat = "jwt"
+
+        return Service.parse_response(self, info, sformat=sformat, state=state,
+                                      behaviour_args=behaviour_args, **kwargs)
+
+    @staticmethod
+    def _is_error_message(info):
+        try:
+            return is_error_message(ResponseMessage(**json.loads(info)))
+        except Exception:
+            return False
+
+    def expected_subject(self, request_args: Optional[dict] = None, **kwargs) -> Optional[str]:
+        """Who a response must be about."""
+        return None
+
     def gather_verify_arguments(
             self,
             response: Optional[Union[dict, Message]] = None,
diff --git a/src/fedservice/message.py b/src/fedservice/message.py
index fd84528..cddbada 100644
--- a/src/fedservice/message.py
+++ b/src/fedservice/message.py
@@ -509,6 +509,8 @@ class ResolveRequest(Message):
 class ResolveResponse(JsonWebToken):
     c_param = JsonWebToken.c_param.copy()
     c_param.update({
+        "sub": SINGLE_REQUIRED_STRING,
+        'iss': SINGLE_REQUIRED_STRING,
         'metadata': SINGLE_REQUIRED_METADATA,
         'trust_chain': OPTIONAL_LIST_OF_STRINGS,
         'trust_marks': OPTIONAL_LIST_OF_TRUST_MARKS
-- 
2.43.0


From 03935bbdf2791e4d35f220c6e1f9fe823ffeacf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:16 +0000
Subject: [PATCH 22/46] fix: going down the tree terminates, uses only verified
 trust chains and survives failing authorities

---
 src/fedservice/entity/__init__.py             | 82 +++++++++++--------
 src/fedservice/entity/client/list.py          |  2 +
 .../entity/function/trust_anchor.py           |  3 +
 3 files changed, 54 insertions(+), 33 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index ff23512..218cde6 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -312,50 +312,66 @@ class FederationEntity(Unit):
                                       request_args=request_args, behaviour_args=behaviour_args,
                                       **kwargs)
 
-    def trawl(self, superior, subordinate, entity_type):
-        if subordinate in self.function.trust_chain_collector.config_cache:
-            _ec = self.function.trust_chain_collector.config_cache[subordinate]
-        else:
-            _es = self.client.do_request("entity_statement", issuer=superior, subject=subordinate)
+    def trawl(self, superior, subordinate, entity_type, seen: Optional[set] = None):
+        """
+        Go down the tree from a superior, by way of a subordinate of its, looking for entities
+        of a specific entity type.
+
+        :param superior: Entity ID of the superior
+        :param subordinate: Entity ID of the subordinate
+        :param entity_type: The entity type
+        :param seen: The places in the tree that have been visited.
+        :return: List of Entity IDs
+        """
+        if seen is None:
+            seen = set()
+        if (superior, subordinate) in seen:  # loop or somewhere I've been before
+            return []
+        seen.add((superior, subordinate))
 
-            # add subjects key/-s to keyjar
-            _kj = self.get_federation_entity().keyjar
-            _kj = import_jwks(_kj, _es["jwks"], _es["sub"])
+        try:
+            # What the superior, and those above it, says about the subordinate
+            _trust_chains = [tc for tc in get_verified_trust_chains(self, subordinate) if
+                             tc.iss_path[1:2] == [superior]]
+        except Exception as err:
+            logger.error(f"Could not collect trust chains for {subordinate}: {err}")
+            return []
+        if not _trust_chains:
+            logger.warning(f"No trust chain for {subordinate} by way of {superior}")
+            return []
 
-            # Fetch Entity Configuration
-            _ec = self.client.do_request("entity_configuration", entity_id=subordinate)
+        _metadata = self.pick_trust_chain(_trust_chains).metadata
 
-        if entity_type in _ec["metadata"]:
-            _issuers = [_ec["sub"]]
-        else:
-            _issuers = []
+        _issuers = [subordinate] if entity_type in _metadata else []
 
-        if "federation_list_endpoint" not in _ec["metadata"]["federation_entity"]:
+        _list_endpoint = _metadata.get("federation_entity", {}).get("federation_list_endpoint")
+        if not _list_endpoint:
             return _issuers
 
         # One step down the tree
         # All subordinates that are of a specific entity_type
-        _added_issuers = self.client.do_request("list",
-                                                entity_id=subordinate,
-                                                entity_type=entity_type)
-        if _added_issuers is None:
-            pass
-        else:
-            _issuers.extend(_added_issuers)
-
-        # All subordinates that are intermediates
-        _intermediates = self.client.do_request("list",
-                                                entity_id=subordinate,
-                                                intermediate=True)
+        _issuers.extend(self.list_subordinates(subordinate, _list_endpoint, entity_type=entity_type))
 
         # For all intermediates go further down the tree
-        if _intermediates:
-            for entity_id in _intermediates:
-                _ids = self.trawl(subordinate, entity_id, entity_type)
-                if _ids:
-                    _issuers.extend(_ids)
+        for entity_id in self.list_subordinates(subordinate, _list_endpoint, intermediate=True):
+            _issuers.extend(self.trawl(subordinate, entity_id, entity_type, seen=seen))
+
+        return list(dict.fromkeys(_issuers))
 
-        return _issuers
+    def list_subordinates(self, entity_id: str, endpoint: Optional[str] = "", **kwargs) -> list:
+        """
+        :return: The Entity IDs an entity says are its subordinates, none if it can't tell.
+        """
+        try:
+            _ids = self.client.do_request("list", entity_id=entity_id, endpoint=endpoint, **kwargs)
+        except Exception as err:
+            logger.error(f"Could not list the subordinates of {entity_id}: {err}")
+            return []
+
+        if not isinstance(_ids, list):
+            logger.error(f"Not a list of subordinates: {_ids}")
+            return []
+        return [_id for _id in _ids if isinstance(_id, str)]
 
     def verify_trust_mark(self, trust_mark: str, check_with_issuer: Optional[bool] = True):
         _trust_mark_payload = get_payload(trust_mark)
diff --git a/src/fedservice/entity/client/list.py b/src/fedservice/entity/client/list.py
index f269ccd..e736a29 100644
--- a/src/fedservice/entity/client/list.py
+++ b/src/fedservice/entity/client/list.py
@@ -45,6 +45,8 @@ class List(FederationService):
         """
         if not endpoint:
             endpoint = get_verified_endpoint(self, entity_id, self.endpoint_name)
+            if not endpoint:
+                return None
 
         qpart = {}
         for arg in ["entity_type", "trust_marked", "trust_mark_id", "intermediate"]:
diff --git a/src/fedservice/entity/function/trust_anchor.py b/src/fedservice/entity/function/trust_anchor.py
index 0c9f529..6169af5 100644
--- a/src/fedservice/entity/function/trust_anchor.py
+++ b/src/fedservice/entity/function/trust_anchor.py
@@ -51,6 +51,9 @@ def get_verified_endpoint(unit, entity_id: str, endpoint_name: str) -> Optional[
             endpoint = None
     else:
         _trust_chains = get_verified_trust_chains(unit, entity_id)
+        if not _trust_chains:
+            return None
+
         _trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         try:
             endpoint = _trust_chain.metadata["federation_entity"].get(endpoint_name)
-- 
2.43.0


From 851f83bd092463245a83c6170481ff8563cdae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:16 +0000
Subject: [PATCH 23/46] fix: who asks the right superior, and answers with
 entities having a trust chain to the anchor asked for

---
 src/fedservice/entity/server/who.py | 103 ++++++++++++++++++----------
 1 file changed, 65 insertions(+), 38 deletions(-)

diff --git a/src/fedservice/entity/server/who.py b/src/fedservice/entity/server/who.py
index c2dc3ab..6a537b7 100644
--- a/src/fedservice/entity/server/who.py
+++ b/src/fedservice/entity/server/who.py
@@ -12,6 +12,8 @@ from fedservice.message import WhoRequest
 
 logger = logging.getLogger(__name__)
 
+CREDENTIAL_ISSUER = "openid_credential_issuer"
+
 
 class Who(Endpoint):
     request_cls = WhoRequest
@@ -22,8 +24,8 @@ class Who(Endpoint):
 
     def __init__(self, upstream_get, **kwargs):
         Endpoint.__init__(self, upstream_get, **kwargs)
-        self.entity_type = kwargs.get("entity_type", "credential_issuer")
-        if self.entity_type == "credential_issuer":
+        self.entity_type = self._entity_type(kwargs.get("entity_type", CREDENTIAL_ISSUER))
+        if self.entity_type == CREDENTIAL_ISSUER:
             self.credential_type = kwargs.get("credential_type", "PersonIdentificationData")
             self.trust_mark_id = kwargs.get("trust_mark_id",
                                             "http://dc4eu.example.com/PersonIdentificationData/se")
@@ -31,6 +33,10 @@ class Who(Endpoint):
             self.credential_type = ""
             self.trust_mark_id = kwargs.get("trust_mark_id", "")
 
+    @staticmethod
+    def _entity_type(entity_type: str) -> str:
+        return CREDENTIAL_ISSUER if entity_type == "credential_issuer" else entity_type
+
     def process_request(self, request=None, trust_anchor: str = "" ,**kwargs):
         if not request:
             request = {}
@@ -38,63 +44,84 @@ class Who(Endpoint):
         _federation_entity = get_federation_entity(self)
         # _trust_anchor = request['anchor']
 
-        _entity_type = request.get("entity_type", self.entity_type)
-        servers = []
+        _entity_type = self._entity_type(request.get("entity_type", self.entity_type))
 
         # Am I the TA or not
         if trust_anchor and trust_anchor == self.upstream_get("attribute", "entity_id"):
             # list my subordinates
-            list_resp = _federation_entity.do_request(
-                'list', entity_id=self.upstream_get("attribute", "entity_id"))
+            list_resp = list(_federation_entity.server.subordinate.keys())
         elif trust_anchor:
             # ask the TA for it's subordinates
             # Check that it's a TA I trust
             if trust_anchor not in list(_federation_entity.trust_anchors.keys()):
                 raise NoTrustedClaims("Got a Trust anchor I don't trust")
 
-            list_resp = _federation_entity.do_request('list', entity_id=trust_anchor)
+            list_resp = _federation_entity.list_subordinates(trust_anchor)
         else: #
             raise AttributeError("Missing trust anchor specification")
 
         # print(f"Subordinates to TA: {list_resp}")
+        servers = []
+        seen = set()
         for entity_id in list_resp:
             servers.extend(
-                _federation_entity.trawl(_federation_entity.entity_id, entity_id,
-                                         entity_type=_entity_type))
-
-        _srv = {}
-        credential_type = request.get("credential_type", self.credential_type)
-        if credential_type:
-            for eid in set(servers):
-                _metadata = _federation_entity.get_verified_metadata(eid)
-                # logger.info(json.dumps(oci_metadata, sort_keys=True, indent=4))
-                for cs in _metadata['openid_credential_issuer']["credentials_supported"]:
-                    if credential_type in cs["credential_definition"]["type"]:
-                        _srv[eid] = _metadata
-                        break
+                _federation_entity.trawl(trust_anchor, entity_id, entity_type=_entity_type,
+                                         seen=seen))
 
+        credential_type = ""
+        if _entity_type == CREDENTIAL_ISSUER:
+            credential_type = request.get("credential_type", self.credential_type)
         tm_id = request.get("trust_mark_id", self.trust_mark_id)
-        if tm_id:
-            server_to_use = []
-            for eid, metadata in _srv.items():
-                _trust_chains = _federation_entity.get_trust_chains(eid)
-                if not _trust_chains:
-                    return "Couldn't collect Trust Chains", 400
-                else:
-                    _trust_chain = _trust_chains[0]
-
-                _ec = _trust_chain.verified_chain[-1]
-                if "trust_marks" in _ec:
-                    for _mark in _ec["trust_marks"]:
-                        _verified_trust_mark = _federation_entity.verify_trust_mark(
-                            _mark, check_with_issuer=True)
-                        if _verified_trust_mark.get("id") == tm_id:
-                            server_to_use.append(eid)
-        else:
-            server_to_use = list(_srv.keys())
+
+        server_to_use = []
+        for eid in dict.fromkeys(servers):
+            _trust_chain = self._trust_chain(_federation_entity, eid, trust_anchor)
+            if not _trust_chain or _entity_type not in _trust_chain.metadata:
+                continue
+            if credential_type and not self._issues(_trust_chain.metadata[_entity_type],
+                                                    credential_type):
+                continue
+            if tm_id and not self._trust_marked(_federation_entity, _trust_chain, eid, tm_id):
+                continue
+            server_to_use.append(eid)
 
         return {'response_args': {"entities_to_use": server_to_use}}
 
+    @staticmethod
+    def _trust_chain(federation_entity, entity_id: str, trust_anchor: str):
+        try:
+            _trust_chains = federation_entity.get_trust_chains(entity_id)
+        except Exception as err:
+            logger.error(f"Couldn't collect Trust Chains for {entity_id}: {err}")
+            return None
+
+        for _trust_chain in _trust_chains:
+            if _trust_chain.anchor == trust_anchor:
+                return _trust_chain
+        return None
+
+    @staticmethod
+    def _issues(metadata: dict, credential_type: str) -> bool:
+        for cs in metadata.get("credentials_supported") or []:
+            _type = cs.get("credential_definition", {}).get("type", [])
+            if credential_type in ([_type] if isinstance(_type, str) else _type):
+                return True
+        return False
+
+    @staticmethod
+    def _trust_marked(federation_entity, trust_chain, entity_id: str, trust_mark_id: str) -> bool:
+        for _mark in trust_chain.verified_chain[-1].get("trust_marks") or []:
+            try:
+                _verified_trust_mark = federation_entity.verify_trust_mark(
+                    _mark, check_with_issuer=True)
+            except Exception as err:
+                logger.error(f"Couldn't verify a trust mark of {entity_id}: {err}")
+                continue
+            if _verified_trust_mark and _verified_trust_mark.get("id") == trust_mark_id and \
+                    _verified_trust_mark.get("sub") == entity_id:
+                return True
+        return False
+
     def response_info(
             self,
             response_args: Optional[dict] = None,
-- 
2.43.0


From 8940bd79006607e434a08e870d0ee0c21285ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:45 +0000
Subject: [PATCH 24/46] fix: the status of a trust mark is asked for at the
 status endpoint of its issuer

---
 .../entity/client/trust_mark_status.py        | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fedservice/entity/client/trust_mark_status.py b/src/fedservice/entity/client/trust_mark_status.py
index 39d6ddb..5893343 100644
--- a/src/fedservice/entity/client/trust_mark_status.py
+++ b/src/fedservice/entity/client/trust_mark_status.py
@@ -10,6 +10,7 @@ from idpyoidc.message import oauth2
 from idpyoidc.message.oauth2 import ResponseMessage
 
 from fedservice import message
+from fedservice.entity.function.trust_anchor import get_verified_endpoint
 from fedservice.entity.service import FederationService
 
 
@@ -21,6 +22,7 @@ class TrustMarkStatus(FederationService):
     error_msg = ResponseMessage
     synchronous = True
     service_name = "trust_mark_status"
+    endpoint_name = "federation_trust_mark_status_endpoint"
     http_method = "GET"
 
     def __init__(self,
@@ -53,15 +55,18 @@ class TrustMarkStatus(FederationService):
 
         if "trust_mark" in request_args:
             _q_args = {'trust_mark': request_args["trust_mark"]}
-            _jws = factory(request_args["trust_mark"])
-            tm_payload = _jws.jwt.payload()
-            fetch_endpoint = tm_payload['iss']
         else:
             _q_args = {k: v for k, v in request_args.items() if k in ['sub', 'trust_mark_id', 'iat']}
-            if not fetch_endpoint:
-                fetch_endpoint = kwargs.get("endpoint")
-                if not fetch_endpoint:
-                    raise MissingAttribute('fetch_endpoint')
+
+        if not fetch_endpoint:
+            fetch_endpoint = kwargs.get("endpoint")
+        if not fetch_endpoint and "trust_mark" in request_args:
+            # The one who issued it knows
+            _jws = factory(request_args["trust_mark"])
+            fetch_endpoint = get_verified_endpoint(self, _jws.jwt.payload()['iss'],
+                                                   self.endpoint_name)
+        if not fetch_endpoint:
+            raise MissingAttribute('fetch_endpoint')
 
         _url = f"{fetch_endpoint}?{urlencode(_q_args)}"
 
-- 
2.43.0


From 6e4b3cff64d69a1a75188a2d4b20d0995b9d3a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:45 +0000
Subject: [PATCH 25/46] fix: a trust mark asked for is only taken in when
 signed by its issuer, unexpired and the one asked for

---
 src/fedservice/entity/client/__init__.py   | 6 +++---
 src/fedservice/entity/client/trust_mark.py | 7 ++++++-
 src/fedservice/entity/service.py           | 4 ++++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity/client/__init__.py b/src/fedservice/entity/client/__init__.py
index 850ab43..300524d 100644
--- a/src/fedservice/entity/client/__init__.py
+++ b/src/fedservice/entity/client/__init__.py
@@ -320,9 +320,9 @@ class FederationClient(FederationClientEntity):
                 or is_error_message(response):
             return
 
-        _subject = service.expected_subject(**kwargs)
-        if _subject and response.get("sub") != _subject:
-            raise ValueError(f"Response about {response.get('sub')}, not {_subject}")
+        for claim, value in service.expected_claims(**kwargs).items():
+            if value and response.get(claim) != value:
+                raise ValueError(f"Response about {response.get(claim)}, not {value}")
 
     def set_client_id(self, client_id):
         self.get_context().set("client_id", client_id)
diff --git a/src/fedservice/entity/client/trust_mark.py b/src/fedservice/entity/client/trust_mark.py
index b202eb7..54b97cd 100644
--- a/src/fedservice/entity/client/trust_mark.py
+++ b/src/fedservice/entity/client/trust_mark.py
@@ -20,18 +20,23 @@ class TrustMark(FederationService):
     """The service that talks to the Trust Mark endpoint."""
 
     msg_type = oauth2.Message
-    response_cls = message.Message
+    response_cls = message.TrustMark
     error_msg = ResponseMessage
     synchronous = True
     service_name = "trust_mark"
     http_method = "GET"
     response_body_type = "application/trust_mark+jwt"
+    signed_response = True
 
     def __init__(self,
                  upstream_get: Callable,
                  conf: Optional[Union[dict, Configuration]] = None):
         FederationService.__init__(self, upstream_get, conf=conf)
 
+    def expected_claims(self, request_args: Optional[dict] = None, **kwargs) -> dict:
+        _args = request_args or {}
+        return {"sub": _args.get("sub"), "id": _args.get("trust_mark_id")}
+
     def get_headers_args(self):
         # audience = _server_endpoint.full_path,
         # algorithm = "ES256",
diff --git a/src/fedservice/entity/service.py b/src/fedservice/entity/service.py
index 619b887..3dc1a4f 100644
--- a/src/fedservice/entity/service.py
+++ b/src/fedservice/entity/service.py
@@ -33,6 +33,10 @@ class FederationService(Service):
         """Who a response must be about."""
         return None
 
+    def expected_claims(self, **kwargs) -> dict:
+        """What a response must say."""
+        return {"sub": self.expected_subject(**kwargs)}
+
     def gather_verify_arguments(
             self,
             response: Optional[Union[dict, Message]] = None,
-- 
2.43.0


From 3d032fdcb5972e395f17e9698d3425320ea67a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:17 +0000
Subject: [PATCH 26/46] fix: authority hints kept in a file are followed even
 if there were none to begin with

---
 src/fedservice/entity/context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/context.py b/src/fedservice/entity/context.py
index 20467b1..5e49661 100644
--- a/src/fedservice/entity/context.py
+++ b/src/fedservice/entity/context.py
@@ -58,7 +58,10 @@ class FederationContext(ImpExp):
 
         self.trust_marks = trust_marks or config.get('trust_marks', [])
         self.trusted_roots = trusted_roots or config.get('trusted_roots', {})
-        self.authority_hints = authority_hints or config.get('authority_hints', [])
+        if authority_hints is None:
+            authority_hints = config.get('authority_hints', [])
+        # Might be a reference to where they are, there may not be any right now
+        self.authority_hints = authority_hints
 
         self.trust_chain = {}
         # self.issuer = self.entity_id
-- 
2.43.0


From 7d9b22e550b3031e337dbef8d46121053a1df598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:08 +0000
Subject: [PATCH 27/46] fix: an explicitly registering client learns what it
 got registered as, and only from the server asked

The service belongs to the federation entity. What it received ended up there and not with the client,
and the client's idea of who the server is was not used.
---
 .../appclient/oauth2/registration.py          |  3 ++-
 src/fedservice/appclient/oidc/registration.py | 19 ++++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index 0446cfe..d703d16 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -164,7 +164,8 @@ class Registration(registration.Registration):
             raise ValueError("Trust anchor I don't trust")
 
         # Anyone in the federation could sign a response. Only the one I asked counts.
-        _issuer = getattr(self.upstream_get('context'), 'issuer', '')
+        _unit = (kwargs.get("behaviour_args") or {}).get("client") or self.upstream_get('unit')
+        _issuer = getattr(_unit.get_context(), 'issuer', '')
         if _issuer and payload['iss'] != _issuer:
             raise ValueError(f"Response from {payload['iss']}, not {_issuer}")
 
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 66605e7..1635aa9 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -100,6 +100,13 @@ class Registration(registration.Registration):
 
         return resp
 
+    def _registering_unit(self, behaviour_args: Optional[dict] = None):
+        """
+        The one who registers. When this service belongs to a federation entity, then that
+        is a client next to it.
+        """
+        return (behaviour_args or {}).get("client") or self.upstream_get("unit")
+
     def _get_trust_anchor_id(self, entity_statement):
         return entity_statement.get('trust_anchor_id')
 
@@ -144,7 +151,8 @@ class Registration(registration.Registration):
             raise ValueError("Trust anchor I don't trust")
 
         # Anyone in the federation could sign a response. Only the one I asked counts.
-        _issuer = getattr(self.upstream_get('context'), 'issuer', '')
+        _unit = self._registering_unit(kwargs.get("behaviour_args"))
+        _issuer = getattr(_unit.get_context(), 'issuer', '')
         if _issuer and payload['iss'] != _issuer:
             raise ValueError(f"Response from {payload['iss']}, not {_issuer}")
 
@@ -183,9 +191,14 @@ class Registration(registration.Registration):
             # If it's metadata_policy what to do ?
             _trust_chains = apply_policies(_federation_entity, _trust_chains)
             _resp = _trust_chains[0].metadata['openid_relying_party']
-            _context = self.upstream_get('context')
+            _context = _unit.get_context()
             _context.registration_response = _resp
             return _resp
 
     def update_service_context(self, resp, **kwargs):
-        registration.Registration.update_service_context(self, resp, **kwargs)
+        _unit = self._registering_unit(kwargs.get("behaviour_args"))
+        if _unit is self.upstream_get("unit"):
+            registration.Registration.update_service_context(self, resp, **kwargs)
+        else:
+            _service = registration.Registration(upstream_get=_unit.unit_get)
+            _service.update_service_context(resp, **kwargs)
-- 
2.43.0


From 3ffacf36971f8a52d2fecc3f53cb87cd42275c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:08 +0000
Subject: [PATCH 28/46] fix: a client that was given another client_id than its
 entity ID uses that one

When asking for authorization, when authenticating, when verifying ID Tokens.
---
 src/fedservice/appclient/__init__.py             | 3 ++-
 src/fedservice/appclient/oauth2/authorization.py | 4 ++--
 src/fedservice/appclient/oauth2/registration.py  | 2 +-
 src/fedservice/appclient/oidc/authorization.py   | 4 ++--
 src/fedservice/appclient/oidc/registration.py    | 5 +++++
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/appclient/__init__.py b/src/fedservice/appclient/__init__.py
index ee9d2f7..f019701 100644
--- a/src/fedservice/appclient/__init__.py
+++ b/src/fedservice/appclient/__init__.py
@@ -140,7 +140,8 @@ class ClientEntity(ClientUnit):
         return self
 
     def get_client_id(self):
-        return self.entity_id
+        # The server may have chosen another identifier than my entity ID
+        return self.context.get_client_id() or self.entity_id
 
     def get_metadata(self, entity_type="", *args):
         if not entity_type:
diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index 913acc3..4b8a584 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -21,7 +21,7 @@ class Authorization(authorization.Authorization):
             post_args['recv'] = context.get_metadata_claim("authorization_endpoint", [entity_type])
             post_args["with_jti"] = True
             post_args["lifetime"] = self.conf.get("request_object_expires_in", 300)
-            post_args['issuer'] = self.upstream_get('attribute', 'entity_id')
+            post_args['issuer'] = self.upstream_get('unit').get_client_id()
         else:
             raise OtherError("Using request object in authentication not supported by OP")
 
@@ -71,7 +71,7 @@ class Authorization(authorization.Authorization):
 
         client_id = request_args.get('client_id')
         if not client_id:
-            request_args['client_id'] = self.upstream_get('attribute', 'entity_id')
+            request_args['client_id'] = self.upstream_get('unit').get_client_id()
 
         return request_args, post_args
 
diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index d703d16..fb5a834 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -257,4 +257,4 @@ class Registration(registration.Registration):
 
                 _client_id = _context.claims.get_usage("client_id")
                 if _client_id:
-                    _context.client_id = _client_id
+                    _context.client_id = item.client_id = _client_id
diff --git a/src/fedservice/appclient/oidc/authorization.py b/src/fedservice/appclient/oidc/authorization.py
index add941b..fb65858 100644
--- a/src/fedservice/appclient/oidc/authorization.py
+++ b/src/fedservice/appclient/oidc/authorization.py
@@ -20,7 +20,7 @@ class Authorization(authorization.Authorization):
                                                            ['openid_provider', 'oauth_authorization_server'])
             post_args["with_jti"] = True
             post_args["lifetime"] = self.conf.get("request_object_expires_in", 300)
-            post_args['issuer'] = self.upstream_get('attribute', 'entity_id')
+            post_args['issuer'] = self.upstream_get('unit').get_client_id()
         else:
             raise OtherError("Using request object in authentication not supported by OP")
 
@@ -62,6 +62,6 @@ class Authorization(authorization.Authorization):
 
         client_id = request_args.get('client_id')
         if not client_id:
-            request_args['client_id'] = self.upstream_get('attribute', 'entity_id')
+            request_args['client_id'] = self.upstream_get('unit').get_client_id()
 
         return request_args, post_args
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 1635aa9..697655a 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -202,3 +202,8 @@ class Registration(registration.Registration):
         else:
             _service = registration.Registration(upstream_get=_unit.unit_get)
             _service.update_service_context(resp, **kwargs)
+
+        # The name used when authenticating
+        _client_id = _unit.get_context().get_client_id()
+        if _client_id:
+            _unit.client_id = _client_id
-- 
2.43.0


From c600dab9f7e3f73baf84b955d167b2b4bf948fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:52 +0000
Subject: [PATCH 29/46] fix: a superior stating something that isn't a policy
 only costs the trust chains through it

---
 src/fedservice/entity/function/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index 21f5dd7..379e533 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -142,6 +142,11 @@ def apply_policies(unit, trust_chains):
             # The entity doesn't conform to the rules of this federation, but maybe to another's
             logger.error(f"Policy error: {err}")
             continue
+        except Exception as err:
+            # Someone has stated something that isn't a policy or metadata. That's no reason
+            # for not using the other chains
+            logger.error(f"Policies that can't be applied: {err!r}")
+            continue
         res.append(trust_chain)
     return res
 
-- 
2.43.0


From ead6b762045cc313a104aa9172fc964b27766965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:52 +0000
Subject: [PATCH 30/46] fix: trust chains with critical extensions that aren't
 understood are refused

---
 src/fedservice/entity/function/verifier.py | 8 ++++++++
 src/fedservice/message.py                  | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 7656521..f898afa 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -14,10 +14,14 @@ from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.constraints import meets_restrictions
 from fedservice.entity_statement.statement import TrustChain
 from fedservice.exception import UnknownTrustAnchor
+from fedservice.message import EntityStatement
 from fedservice.utils import statement_is_expired
 
 logger = logging.getLogger(__name__)
 
+# What determines which extensions must be understood, besides the extensions themselves
+CRITICAL = ["crit", "policy_language_crit", "metadata_policy"]
+
 
 class TrustChainVerifier(Function):
 
@@ -103,6 +107,10 @@ class TrustChainVerifier(Function):
                 logger.error(f"Expired statement: iss={res['iss']}, sub={res['sub']}")
                 return []
 
+            # Is there something I must, but don't, understand ?
+            EntityStatement(**{k: v for k, v in res.items() if
+                               k in CRITICAL or k not in EntityStatement.c_param}).verify_critical()
+
             if 'jwks' not in res and len(ves) != n:
                 raise ValueError('Missing signing JWKS')
 
diff --git a/src/fedservice/message.py b/src/fedservice/message.py
index cddbada..5d92f44 100644
--- a/src/fedservice/message.py
+++ b/src/fedservice/message.py
@@ -421,7 +421,12 @@ class EntityStatement(JsonWebToken):
 
     def verify(self, **kwargs):
         super(EntityStatement, self).verify(**kwargs)
+        self.verify_critical(**kwargs)
 
+    def verify_critical(self, **kwargs):
+        """
+        Verifies that everything in the statement that must be understood is known.
+        """
         _extra_parameters = list(self.extra().keys())
         if _extra_parameters:
             _critical = self.get("crit")
-- 
2.43.0


From db633e4cdb35eb19832b899e823168bb84dfa530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:29 +0000
Subject: [PATCH 31/46] fix: a trust chain has to end with an entity
 configuration

---
 src/fedservice/entity/function/verifier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index f898afa..ca4ba38 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -116,6 +116,11 @@ class TrustChainVerifier(Function):
 
             ves.append(res)
 
+        # What someone says about someone else isn't an Entity Configuration
+        if ves[-1]['iss'] != ves[-1].get('sub'):
+            logger.error("Trust chain not ending with an Entity Configuration")
+            return []
+
         if ves and meets_restrictions(ves):
             self.store_keys(ves)
             return ves
-- 
2.43.0


From d171a881338a13848c088a1a814e5a36d1469f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:29 +0000
Subject: [PATCH 32/46] fix: critical extensions that aren't used don't make
 other extensions critical

---
 src/fedservice/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/message.py b/src/fedservice/message.py
index 5d92f44..8447f04 100644
--- a/src/fedservice/message.py
+++ b/src/fedservice/message.py
@@ -341,7 +341,7 @@ class Policy(Message):
                 if _known:
                     if set(_known).issuperset(set(_musts)) is False:
                         raise UnknownCriticalExtension(_musts.difference(set(_known)))
-                else:
+                elif _musts:
                     raise UnknownCriticalExtension(_musts.intersection(_extra_parameters))
 
 
@@ -440,7 +440,7 @@ class EntityStatement(JsonWebToken):
                 if _known:
                     if set(_known).issuperset(set(_musts)) is False:
                         raise UnknownCriticalExtension(_musts.difference(set(_known)))
-                else:
+                elif _musts:
                     raise UnknownCriticalExtension(_musts.intersection(_extra_parameters))
 
         _metadata_policy = self.get('metadata_policy')
-- 
2.43.0


From 0188e304162c53f01a9dd4b535a03505fb33c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:03 +0000
Subject: [PATCH 33/46] fix: a cached statement isn't judged by the time of its
 predecessor

Another thread may replace the statement between reading it and reading when it
expires.
---
 src/fedservice/entity/function/trust_chain_collector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index c06558d..2255605 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -272,14 +272,15 @@ class TrustChainCollector(Function):
     def _get_entity_statement(self, entity: str, authority: str) -> Optional[str]:
         # Try to get the entity statement from the cache
         _cache_key = cache_key(authority, entity)
+        _time_key = time_key(authority, entity)
+        # The time comes first. Someone else may replace the statement in between, by a later one.
+        _exp = self.entity_statement_cache[_time_key]
         entity_statement = self.entity_statement_cache[_cache_key]
 
         if entity_statement is not None:
             logger.debug("Have cached statement")
             # Verify that the cached statement is not too old
             _now = utc_time_sans_frac()
-            _time_key = time_key(authority, entity)
-            _exp = self.entity_statement_cache[_time_key]
             if _exp is None or _now > (_exp - self.allowed_delta):
                 logger.debug("Cached entity statement timed out")
                 del self.entity_statement_cache[_cache_key]
-- 
2.43.0


From 978b8f5a05abaa2856f6523dda5782f0241fabaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:03 +0000
Subject: [PATCH 34/46] fix: lists can be asked for while something is added

Adding a subordinate or issuing a trust mark made simultaneous list requests
fail with a RuntimeError.
---
 src/fedservice/entity/server/list.py         | 4 ++--
 src/fedservice/trust_mark_entity/__init__.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 9f7b7b8..852951d 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -77,7 +77,7 @@ class List(Endpoint):
             matched_entity_ids = []
             subordinate_conf = None
             # I know about entity_types and intermediate or not from the registration
-            for entity_id, item in _db.items():
+            for entity_id, item in list(_db.items()):
                 if is_true(request.get("intermediate")) and not item.get("intermediate"):
                     continue
                 if "entity_type" in request:
@@ -104,7 +104,7 @@ class List(Endpoint):
         _federation_entity = _server_entity.upstream_get("unit")
         _collector = _federation_entity.function.trust_chain_collector
         sub = {}
-        for entity_id, conf in _federation_entity.server.subordinate.items():
+        for entity_id, conf in list(_federation_entity.server.subordinate.items()):
             if entity_ids is not None and entity_id not in entity_ids:
                 continue
             try:
diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index d540f9f..5bae8f5 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -116,7 +116,7 @@ class SimpleDB(object):
         self._db.setdefault(tm_info['id'], {}).setdefault(tm_info['sub'], []).append(tm_info)
 
     def list(self, trust_mark_id, sub: Optional[str] = ""):
-        return [_sub for _sub in self._db.get(trust_mark_id, {}) if
+        return [_sub for _sub in list(self._db.get(trust_mark_id, {})) if
                 (not sub or _sub == sub) and self.find(trust_mark_id, _sub)]
 
     def find(self, trust_mark_id, sub: str, iat: Optional[int] = 0) -> bool:
-- 
2.43.0


From 115f1febaead5829cd7ffad21d0be8a3f27b9d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:03 +0000
Subject: [PATCH 35/46] fix: clients are replaced in one step when they are
 registered

While a client was being registered it was in the client database without its
redirect URIs; authorization requests that came in meanwhile could have any
redirect_uri. While it was registered anew it wasn't there at all, or without keys,
and its other requests were refused. And a refused registration removed the clients
that were registered at the same time.
---
 src/fedservice/appserver/__init__.py          | 24 ++++++++++++++---
 .../appserver/oauth2/authorization.py         | 18 ++++++++-----
 .../appserver/oauth2/pushed_authorization.py  | 17 +++++++-----
 .../appserver/oauth2/registration.py          | 15 +++--------
 .../appserver/oidc/authorization.py           | 27 ++++++++++---------
 src/fedservice/appserver/oidc/registration.py | 27 ++++++++++++-------
 6 files changed, 80 insertions(+), 48 deletions(-)

diff --git a/src/fedservice/appserver/__init__.py b/src/fedservice/appserver/__init__.py
index cc8da19..486e7bf 100644
--- a/src/fedservice/appserver/__init__.py
+++ b/src/fedservice/appserver/__init__.py
@@ -103,14 +103,32 @@ def client_trust_chains(unit, entity_id: str, provided: list) -> list:
     return get_verified_trust_chains(unit, entity_id)
 
 
-def forget_client_keys(keyjar: KeyJar, entity_id: str):
+def replace_client_keys(keyjar: KeyJar, entity_id: str, import_keys: Callable):
     """
-    The keys a client no longer uses must not be used to verify anything.
+    The keys a client no longer uses must not be used to verify anything. At every moment
+    there are either the keys it had or the keys it has now.
+
+    :param import_keys: Function that adds the keys the client has now to a KeyJar
     """
-    if entity_id in keyjar:
+    _fresh = KeyJar(httpc=keyjar.httpc, httpc_params=keyjar.httpc_params)
+    import_keys(_fresh)
+    if entity_id in _fresh:
+        keyjar[entity_id] = _fresh[entity_id]
+    elif entity_id in keyjar:
         del keyjar[entity_id]
 
 
+def forget_client(context, client_id: str):
+    """
+    A client that was registered automatically and can't be any more
+    """
+    if "automatic_registered" in (context.cdb.get(client_id) or {}):
+        try:
+            del context.cdb[client_id]
+        except KeyError:  # Someone else did
+            pass
+
+
 class ServerEntity(ServerUnit):
     name = 'openid_provider'
     parameter = {"endpoint": [Endpoint], "context": EndpointContext}
diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 6f89be3..36c85ee 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -9,9 +9,10 @@ from idpyoidc.server.oauth2 import authorization
 
 from fedservice.appserver import automatic_registration_expected
 from fedservice.appserver import client_trust_chains
-from fedservice.appserver import forget_client_keys
+from fedservice.appserver import forget_client
 from fedservice.appserver import import_client_keys
 from fedservice.appserver import provided_trust_chain as get_provided_trust_chain
+from fedservice.appserver import replace_client_keys
 from fedservice.entity.utils import get_federation_entity
 from fedservice.exception import NoTrustedChains
 
@@ -68,8 +69,10 @@ class Authorization(authorization.Authorization):
 
         # handle the registration request as in the non-federation case.
         # If there is a signed_jwks_uri, jwks_uri or jwks in the metadata import keys
-        forget_client_keys(self.upstream_get('attribute', 'keyjar'), entity_id)
-        import_client_keys(trust_chain.metadata['oauth_client'], self.upstream_get('attribute', 'keyjar'), entity_id)
+        replace_client_keys(
+            self.upstream_get('attribute', 'keyjar'), entity_id,
+            lambda keyjar: import_client_keys(trust_chain.metadata['oauth_client'], keyjar,
+                                              entity_id))
 
         req = OauthClientMetadata(**trust_chain.metadata['oauth_client'])
         req['client_id'] = entity_id
@@ -98,12 +101,15 @@ class Authorization(authorization.Authorization):
         client_info = _context.cdb.get(_cid)
         if client_info is None or automatic_registration_expected(client_info, _context):
             if automatic_registration_expected(client_info, _context):
-                if client_info:  # Remove the old one
-                    del _context.cdb[_cid]
                 # try the federation way
                 _trust_chain = get_provided_trust_chain(request)
-                registered_client_id = self.do_automatic_registration(_cid, _trust_chain)
+                try:
+                    registered_client_id = self.do_automatic_registration(_cid, _trust_chain)
+                except Exception:
+                    forget_client(_context, _cid)  # Remove the old one
+                    raise
                 if registered_client_id is None:
+                    forget_client(_context, _cid)
                     return {
                         'error': 'unauthorized_client',
                         'error_description': 'Unknown client'
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index 4a71824..a1aed51 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -3,9 +3,10 @@ from typing import List
 
 from fedservice.appserver import automatic_registration_expected
 from fedservice.appserver import client_trust_chains
-from fedservice.appserver import forget_client_keys
+from fedservice.appserver import forget_client
 from fedservice.appserver import import_client_keys
 from fedservice.appserver import provided_trust_chain as get_provided_trust_chain
+from fedservice.appserver import replace_client_keys
 from idpyoidc.message import oauth2
 from idpyoidc.node import topmost_unit
 from idpyoidc.server.oauth2.authorization import Authorization
@@ -61,8 +62,9 @@ class PushedAuthorization(Authorization):
         _metadata = trust_chain.metadata['oauth_client']
 
         # If there is a signed_jwks_uri, jwks_uri or jwks in the metadata import the keys
-        forget_client_keys(self.upstream_get('attribute', 'keyjar'), entity_id)
-        import_client_keys(_metadata, self.upstream_get('attribute', 'keyjar'), entity_id)
+        replace_client_keys(
+            self.upstream_get('attribute', 'keyjar'), entity_id,
+            lambda keyjar: import_client_keys(_metadata, keyjar, entity_id))
 
         req = OauthClientMetadata(**_metadata)
         req['client_id'] = entity_id
@@ -91,12 +93,15 @@ class PushedAuthorization(Authorization):
         client_info = _context.cdb.get(_cid)
         if client_info is None or automatic_registration_expected(client_info, _context):
             if automatic_registration_expected(client_info, _context):
-                if client_info:  # Remove the old one
-                    del _context.cdb[_cid]
                 # try the federation way
                 _trust_chain = get_provided_trust_chain(request)
-                registered_client_id = self.do_automatic_registration(_cid, _trust_chain)
+                try:
+                    registered_client_id = self.do_automatic_registration(_cid, _trust_chain)
+                except Exception:
+                    forget_client(_context, _cid)  # Remove the old one
+                    raise
                 if registered_client_id is None:
+                    forget_client(_context, _cid)
                     return {
                         'error': 'unauthorized_client',
                         'error_description': 'Unknown client'
diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 3514eab..cdda99b 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -222,11 +222,11 @@ class Registration(Endpoint):
 
         return verified_redirect_uris
 
-    def do_client_registration(self, request, client_id, ignore=None):
+    def do_client_registration(self, request, client_id, ignore=None, cinfo=None):
         if ignore is None:
             ignore = []
         _context = self.upstream_get("context")
-        _cinfo = _context.cdb[client_id].copy()
+        _cinfo = (cinfo or _context.cdb[client_id]).copy()
         logger.debug("_cinfo: %s" % sanitize(_cinfo))
 
         for key, val in request.items():
@@ -362,26 +362,19 @@ class Registration(Endpoint):
         if set_secret:
             client_secret = self.add_client_secret(_cinfo, client_id, _context)
 
-        logger.debug("Stored client info in CDB under cid={}".format(client_id))
-
-        _previous = _context.cdb.get(client_id)
-        _context.cdb[client_id] = _cinfo
+        # Nobody gets to see the client in the CDB until all about it is known
         try:
             _cinfo = self.do_client_registration(
                 request,
                 client_id,
                 ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
+                cinfo=_cinfo
             )
         except Exception as err:
             _cinfo = ResponseMessage(
                 error="invalid_configuration_request", error_description="%s" % err
             )
         if isinstance(_cinfo, ResponseMessage):
-            # Nothing should remain of something that was refused
-            if _previous is None:
-                del _context.cdb[client_id]
-            else:
-                _context.cdb[client_id] = _previous
             return _cinfo
 
         args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index 3133577..31afbe3 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -8,8 +8,9 @@ from idpyoidc.node import topmost_unit
 from idpyoidc.server.oidc import authorization
 
 from fedservice.appserver import client_trust_chains
-from fedservice.appserver import forget_client_keys
+from fedservice.appserver import forget_client
 from fedservice.appserver import provided_trust_chain as get_provided_trust_chain
+from fedservice.appserver import replace_client_keys
 from fedservice.entity.utils import get_federation_entity
 from fedservice.entity.utils import get_keys
 from fedservice.exception import NoTrustedChains
@@ -69,14 +70,13 @@ class Authorization(authorization.Authorization):
 
         # handle the registration request as in the non-federation case.
         # If there is a jwks_uri in the metadata import keys
-        forget_client_keys(self.upstream_get('attribute', 'keyjar'), client_entity_id)
-        _root = topmost_unit(self)
-        if "openid_provider" in _root:
-            get_keys(
-                trust_chain.metadata['openid_relying_party'],
-                self.upstream_get('attribute', 'keyjar'),
-                client_entity_id,
-                self)
+        def import_keys(keyjar):
+            if "openid_provider" in topmost_unit(self):
+                get_keys(trust_chain.metadata['openid_relying_party'], keyjar, client_entity_id,
+                         self)
+
+        replace_client_keys(self.upstream_get('attribute', 'keyjar'), client_entity_id,
+                            import_keys)
 
         req = RegistrationRequest(**trust_chain.metadata['openid_relying_party'])
         req['client_id'] = client_entity_id
@@ -104,12 +104,15 @@ class Authorization(authorization.Authorization):
         client_info = _context.cdb.get(_cid)
         if client_info is None or "automatic_registered" in client_info:
             if 'automatic' in _context.provider_info.get('client_registration_types_supported', []):
-                if client_info and "automatic_registered" in client_info:  # Remove the old one
-                    del _context.cdb[_cid]
                 # try the federation way
                 _trust_chain = get_provided_trust_chain(request)
-                registered_client_id = self.do_automatic_registration(_cid, _trust_chain)
+                try:
+                    registered_client_id = self.do_automatic_registration(_cid, _trust_chain)
+                except Exception:
+                    forget_client(_context, _cid)  # Remove the old one
+                    raise
                 if registered_client_id is None:
+                    forget_client(_context, _cid)
                     return {
                         'error': 'unauthorized_client',
                         'error_description': 'Unknown client'
diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index 6f762ab..1618a21 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -1,3 +1,5 @@
+from collections import ChainMap
+from copy import copy
 import logging
 
 from fedservice.exception import NoTrustedChains
@@ -96,17 +98,22 @@ class Registration(registration.Registration):
         if "new_id" not in kwargs:
             kwargs["new_id"] = False
 
-        _cdb = self.upstream_get("context").cdb
-        _known = list(_cdb.keys())
-        _previous = _cdb.get(req.get("client_id"))
+        # While it's being registered nobody else gets to see the client, and nothing should remain
+        # of something that was refused.
+        _context = self.upstream_get("context")
+        _trial_context = copy(_context)
+        _trial_context.cdb = ChainMap({}, _context.cdb)
+        _trial = copy(self)
+        _trial.upstream_get = lambda what, *args: (
+            _trial_context if what == "context" else self.upstream_get(what, *args))
+
         # handle the registration request as in the non-federation case.
-        response_info = registration.Registration.process_request(self, req, authn=None, **kwargs)
-        if "error" in response_info:
-            # Nothing should remain of something that was refused
-            for _id in [k for k in _cdb.keys() if k not in _known]:
-                del _cdb[_id]
-            if _previous is not None:
-                _cdb[req["client_id"]] = _previous
+        response_info = registration.Registration.process_request(_trial, req, authn=None, **kwargs)
+        if "error" not in response_info:
+            _context.cdb.update(_trial_context.cdb.maps[0])
+            # Not all databases can be sync'ed
+            if hasattr(_context.cdb, "sync") and callable(_context.cdb.sync):
+                _context.cdb.sync()
         return response_info
 
     @staticmethod
-- 
2.43.0


From b673a11144ef7d1a6499f1f56c49982c3cd2ec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:04 +0000
Subject: [PATCH 36/46] fix: registering with authority hints or trust marks
 kept elsewhere

What's kept in a file, or is to be asked for, was put into explicit registration
requests and responses by reference instead of what's there.
---
 src/fedservice/appclient/oidc/registration.py | 2 +-
 src/fedservice/entity/context.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 697655a..d7ac0e9 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -77,7 +77,7 @@ class Registration(registration.Registration):
 
         kwargs = {}
         if _context.trust_marks:
-            kwargs["trust_marks"] = _context.trust_marks
+            kwargs["trust_marks"] = _context.get_trust_marks()
 
         _jws = _context.create_entity_statement(
             iss=_entity_id,
diff --git a/src/fedservice/entity/context.py b/src/fedservice/entity/context.py
index 5e49661..65a9b71 100644
--- a/src/fedservice/entity/context.py
+++ b/src/fedservice/entity/context.py
@@ -118,7 +118,7 @@ class FederationContext(ImpExp):
         key_jar = key_jar or self.upstream_get("attribute", "keyjar")
 
         if not authority_hints:
-            authority_hints = self.authority_hints
+            authority_hints = self.get_authority_hints()
         if not lifetime:
             lifetime = self.default_lifetime
 
-- 
2.43.0


From b46c97e1c136956711c601d75d01aa7e0d2d8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:53 +0000
Subject: [PATCH 37/46] fix: references to files in lists are loaded

load_values_from_file looked at the list instead of at its items.
---
 src/fedservice/utils.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 163a1d2..125cebe 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -302,26 +302,19 @@ def _import(val):
     raise ValueError("Unknown file type")
 
 
+def _load_value(val):
+    if isinstance(val, str) and val.startswith("file:"):
+        return _import(val)
+    elif isinstance(val, dict):
+        return load_values_from_file(val)
+    elif isinstance(val, list):
+        return [_load_value(v) for v in val]
+    return val
+
+
 def load_values_from_file(config):
-    res = {}
     for key, val in config.items():
-        if isinstance(val, str) and val.startswith("file:"):
-            res[key] = _import(val)
-        elif isinstance(val, dict):
-            res[key] = load_values_from_file(val)
-        elif isinstance(val, list):
-            _list = []
-            for v in val:
-                if isinstance(v, dict):
-                    _list.append(load_values_from_file(v))
-                elif isinstance(val, str) and val.startswith("file:"):
-                    res[key] = _import(val)
-                else:
-                    _list.append(v)
-            res[key] = _list
-
-    for k, v in res.items():
-        config[k] = v
+        config[key] = _load_value(val)
 
     return config
 
-- 
2.43.0


From 80a98fc6daf6258f398fb270a17a44f9e4a1bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:41 +0000
Subject: [PATCH 38/46] fix: pushing authorization requests when registration
 is automatic

The endpoint is called pushed_authorization_request_endpoint in metadata and configuration.
---
 src/fedservice/appclient/oauth2/authorization.py | 2 +-
 src/fedservice/appclient/oidc/authorization.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index 4b8a584..33b26a2 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -27,7 +27,7 @@ class Authorization(authorization.Authorization):
 
         return post_args
 
-    def _use_pushed_authorization_endpoint(self, context, post_args, ams, entity_type):
+    def _use_pushed_authorization_request_endpoint(self, context, post_args, ams, entity_type):
         if 'pushed_authorization' not in context.add_on:
             raise UnSupported('Pushed Authorization not supported')
         else:  # Make it happen
diff --git a/src/fedservice/appclient/oidc/authorization.py b/src/fedservice/appclient/oidc/authorization.py
index fb65858..9d49ddc 100644
--- a/src/fedservice/appclient/oidc/authorization.py
+++ b/src/fedservice/appclient/oidc/authorization.py
@@ -26,7 +26,7 @@ class Authorization(authorization.Authorization):
 
         return post_args
 
-    def _use_pushed_authorization_endpoint(self, context, post_args, ams):
+    def _use_pushed_authorization_request_endpoint(self, context, post_args, ams):
         if 'pushed_authorization' not in context.add_on:
             raise UnSupported('Pushed Authorization not supported')
         else:  # Make it happen
-- 
2.43.0


From ce8bf7ae482064704e75db4d7081804179e1e7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:31 +0000
Subject: [PATCH 39/46] fix: statements about subjects in quoted directories
 carry their keys

---
 src/fedservice/fetch_entity_statement/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/fetch_entity_statement/__init__.py b/src/fedservice/fetch_entity_statement/__init__.py
index 21e3ef2..c6cbda2 100644
--- a/src/fedservice/fetch_entity_statement/__init__.py
+++ b/src/fedservice/fetch_entity_statement/__init__.py
@@ -28,10 +28,10 @@ class FetchEntityStatement:
     def create_entity_statement(self, sub, **kwargs):
         _info = self.gather_info(sub)
         _info.update(kwargs)
-        _info['jwks'] = self.keyjar.export_jwks(issuer_id=self.make_entity_id(sub))
-        if sub.startswith("https"):
-            return create_entity_statement(self.make_entity_id(self.iss), unquote_plus(sub),
-                                           self.keyjar, **_info)
+        if sub.startswith("https%3A%2F%2F"):
+            sub_id = unquote_plus(sub)
+        else:
+            sub_id = self.make_entity_id(sub)
 
-        return create_entity_statement(self.make_entity_id(self.iss), self.make_entity_id(sub),
-                                       self.keyjar, **_info)
+        _info['jwks'] = self.keyjar.export_jwks(issuer_id=sub_id)
+        return create_entity_statement(self.make_entity_id(self.iss), sub_id, self.keyjar, **_info)
-- 
2.43.0


From 80c3b3235180bb63fea9ac79bef7a6367a30cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:31 +0000
Subject: [PATCH 40/46] fix: statements from a directory are about the subject,
 by its superior

---
 src/fedservice/fetch_entity_statement/fs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/fetch_entity_statement/fs2.py b/src/fedservice/fetch_entity_statement/fs2.py
index a59c346..f49bf73 100644
--- a/src/fedservice/fetch_entity_statement/fs2.py
+++ b/src/fedservice/fetch_entity_statement/fs2.py
@@ -101,6 +101,6 @@ class FSPublisher():
         else:
             _qs = parse_qs(p.query)
             pt = urlparse(_qs['sub'][0])
-            _jws = self._create_entity_statement(p.netloc, pt.netloc)
+            _jws = self._create_entity_statement(pt.netloc, p.netloc)
 
         return MockResponse(200, f"{_jws}", headers={'Content-Type': "application/jose"})
-- 
2.43.0


From 9c6bb56c96c8c34213eaa0d2482ed80865c084ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:06 +0000
Subject: [PATCH 41/46] fix: arguments for services and functions are used

---
 src/fedservice/build_entity.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fedservice/build_entity.py b/src/fedservice/build_entity.py
index 944f681..78b8769 100644
--- a/src/fedservice/build_entity.py
+++ b/src/fedservice/build_entity.py
@@ -56,15 +56,15 @@ class FederationEntityBuilder():
         if kwargs_spec:
             for key, val in kwargs_spec.items():
                 if key in kwargs["services"]:
-                    kwargs["services"][key]["kwargs"].update(val)
+                    kwargs["services"][key].setdefault("kwargs", {}).update(val)
 
         if preference:
             kwargs['preference'] = {}
 
-        if kwargs_spec:
-            for key, val in kwargs_spec.items():
-                if key in kwargs["services"]:
-                    kwargs["services"][key]["kwargs"].update(val)
+        if args:
+            for item_type, _kwargs in args.items():
+                if item_type in kwargs["services"]:
+                    kwargs["services"][item_type].setdefault("kwargs", {}).update(_kwargs)
 
         self.conf['client'] = {
             'class': 'fedservice.entity.client.FederationClient',
@@ -86,7 +86,7 @@ class FederationEntityBuilder():
         if kwargs_spec:
             for key, val in kwargs_spec.items():
                 if key in kwargs["endpoint"]:
-                    kwargs["endpoint"][key]["kwargs"].update(val)
+                    kwargs["endpoint"][key].setdefault("kwargs", {}).update(val)
 
         if preference:
             kwargs['preference'] = {}
@@ -94,7 +94,7 @@ class FederationEntityBuilder():
         if args:
             for item_type, _kwargs in args.items():
                 if item_type in kwargs["endpoint"]:
-                    kwargs["endpoint"][item_type]["kwargs"].update(_kwargs)
+                    kwargs["endpoint"][item_type].setdefault("kwargs", {}).update(_kwargs)
 
         self.conf['server'] = {
             'class': 'fedservice.entity.server.FederationServerEntity',
@@ -117,15 +117,15 @@ class FederationEntityBuilder():
         if kwargs_spec:
             for key, val in kwargs_spec.items():
                 if key in kwargs["functions"]:
-                    kwargs["functions"][key]["kwargs"].update(val)
+                    kwargs["functions"][key].setdefault("kwargs", {}).update(val)
 
         if preference:
             kwargs['preference'] = {}
 
-        if kwargs_spec:
-            for key, val in kwargs_spec.items():
-                if key in kwargs["functions"]:
-                    kwargs["functions"][key]["kwargs"].update(val)
+        if args:
+            for item_type, _kwargs in args.items():
+                if item_type in kwargs["functions"]:
+                    kwargs["functions"][item_type].setdefault("kwargs", {}).update(_kwargs)
 
         self.conf['function'] = {
             'class': 'idpyoidc.node.Collection',
-- 
2.43.0


From 633840f7ea0fc33af5340501cf1ea15a2df450be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:06 +0000
Subject: [PATCH 42/46] fix: functions of one's own are used, and an empty list
 means none

---
 src/fedservice/entity/__init__.py | 2 +-
 src/fedservice/utils.py           | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 218cde6..9c5a0a1 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -83,7 +83,7 @@ class FederationEntity(Unit):
         self.trust_chain = {}
 
         self.context.provider_info = self.context.claims.get_server_metadata(
-            endpoints=self.server.endpoint.values(),
+            endpoints=self.get_all_endpoints(),
             metadata_schema=message.FederationEntity,
         )
         self.context.provider_info["issuer"] = self.context.entity_id
diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 125cebe..b4da71f 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -81,14 +81,17 @@ def build_entity_config(entity_id: str,
                 else:
                     func(args=_args, kwargs_spec=kwargs_spec, **federation_services(*items))
             elif name == "function":
-                func(args=_args, kwargs_spec=kwargs_spec, **federation_functions(*items))
+                if isinstance(items, dict):
+                    func(args=_args, kwargs_spec=kwargs_spec, **items)
+                else:
+                    func(args=_args, kwargs_spec=kwargs_spec, **federation_functions(*items))
             elif name == "endpoint":
                 if isinstance(items, dict):
                     # _filtered_spec = {k: v for k, v in items.items() if k in FEDERATION_ENDPOINTS}
                     func(args=_args, kwargs_spec=kwargs_spec, **items)
                 else:
                     func(args=_args, kwargs_spec=kwargs_spec, **federation_endpoints(*items))
-        elif services == []:
+        elif items == []:
             pass
         else:  # There is a difference between None == default and [] which means none
             func(args=_args, kwargs_spec=kwargs_spec)
-- 
2.43.0


From af5e717d0c5e44f14184b3e2f2f373ea608b012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:13 +0000
Subject: [PATCH 43/46] fix: malformed statements and trust marks cost only
 their own place in the list

---
 src/fedservice/entity/server/list.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 852951d..5332b9b 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -28,14 +28,19 @@ def as_list(val) -> list:
 def valid_trust_marks(entity_id: str, entity_configuration: dict) -> list:
     """The content of the not yet expired trust marks this entity has been given"""
     res = []
-    for trust_mark in entity_configuration.get('trust_marks') or []:
-        if isinstance(trust_mark, str):
-            _jws = factory(trust_mark)
-            if not _jws:
-                continue
-            trust_mark = _jws.jwt.payload()
-        if trust_mark.get('sub', entity_id) == entity_id and not statement_is_expired(trust_mark):
-            res.append(trust_mark)
+    _trust_marks = entity_configuration.get('trust_marks')
+    for trust_mark in _trust_marks if isinstance(_trust_marks, list) else []:
+        try:
+            if isinstance(trust_mark, str):
+                _jws = factory(trust_mark)
+                if not _jws:
+                    continue
+                trust_mark = _jws.jwt.payload()
+            if trust_mark.get('sub', entity_id) == entity_id and \
+                    not statement_is_expired(trust_mark):
+                res.append(trust_mark)
+        except (AttributeError, TypeError) as err:  # Malformed
+            logger.error(f"No usable trust mark for {entity_id}: {err}")
     return res
 
 
@@ -113,9 +118,10 @@ class List(Endpoint):
                 # Verify signature with the keys I have
                 keyjar = import_jwks(KeyJar(), conf['jwks'], entity_id)
                 _ec = JWT(key_jar=keyjar).unpack(_entity_configuration)
+                _valid = _ec["sub"] == entity_id and not statement_is_expired(_ec)
             except Exception as err:
                 logger.error(f"No usable entity configuration for {entity_id}: {err}")
                 continue
-            if _ec["sub"] == entity_id and not statement_is_expired(_ec):
+            if _valid:
                 sub[entity_id] = _ec
         return sub
-- 
2.43.0


From 04eb9759851c15ef630736d9c13abfc164591512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:17 +0000
Subject: [PATCH 44/46] fix: malformed metadata and trust marks only cost the
 entity that has them

---
 src/fedservice/entity/server/who.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/entity/server/who.py b/src/fedservice/entity/server/who.py
index 6a537b7..b71d901 100644
--- a/src/fedservice/entity/server/who.py
+++ b/src/fedservice/entity/server/who.py
@@ -102,15 +102,20 @@ class Who(Endpoint):
 
     @staticmethod
     def _issues(metadata: dict, credential_type: str) -> bool:
-        for cs in metadata.get("credentials_supported") or []:
-            _type = cs.get("credential_definition", {}).get("type", [])
-            if credential_type in ([_type] if isinstance(_type, str) else _type):
-                return True
+        _supported = metadata.get("credentials_supported")
+        for cs in _supported if isinstance(_supported, list) else []:
+            try:
+                _type = cs.get("credential_definition", {}).get("type", [])
+                if credential_type in ([_type] if isinstance(_type, str) else _type):
+                    return True
+            except (AttributeError, TypeError) as err:  # Malformed
+                logger.error(f"Couldn't understand a supported credential: {err}")
         return False
 
     @staticmethod
     def _trust_marked(federation_entity, trust_chain, entity_id: str, trust_mark_id: str) -> bool:
-        for _mark in trust_chain.verified_chain[-1].get("trust_marks") or []:
+        _marks = trust_chain.verified_chain[-1].get("trust_marks")
+        for _mark in _marks if isinstance(_marks, list) else []:
             try:
                 _verified_trust_mark = federation_entity.verify_trust_mark(
                     _mark, check_with_issuer=True)
-- 
2.43.0


From 53e37d408c3be0b9fc54d7e05d9827018d324666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:39 +0000
Subject: [PATCH 45/46] fix: the trust anchor's configuration in a resolve
 response is verified and bounds its lifetime

---
 src/fedservice/entity/server/resolve.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/server/resolve.py b/src/fedservice/entity/server/resolve.py
index dfaed96..92dd4c5 100644
--- a/src/fedservice/entity/server/resolve.py
+++ b/src/fedservice/entity/server/resolve.py
@@ -60,16 +60,25 @@ class Resolve(Endpoint):
 
         # The statements the metadata is based on. The entity's own configuration first
         trust_chain = list(reversed(_chain.chain))
+        _exp = _chain.exp
         if kwargs.get("with_ta_ec"):
             _collector = _federation_entity.function.trust_chain_collector
-            trust_chain.append(_collector.get_entity_configuration(_trust_anchor))
+            _ta_ec = _collector.get_entity_configuration(_trust_anchor)
+            # Must be what the Trust Anchor, with the keys I know, states about itself
+            _verified = verify_trust_chains(_federation_entity, [[]], _ta_ec)
+            if not _verified or _verified[0].anchor != _trust_anchor:
+                return self.error_cls(
+                    error="not_found",
+                    error_description=f"No valid Entity Configuration for {_trust_anchor}")
+            trust_chain.append(_ta_ec)
+            _exp = min(_exp, _verified[0].exp)
 
         # Must not outlive what it's based on
         _jws = create_entity_statement(_federation_entity.entity_id,
                                        sub=request["sub"],
                                        key_jar=_federation_entity.get_attribute('keyjar'),
                                        metadata=metadata,
-                                       lifetime=_chain.exp - utc_time_sans_frac(),
+                                       lifetime=_exp - utc_time_sans_frac(),
                                        trust_chain=trust_chain)
         return {'response_args': _jws}
 
-- 
2.43.0


From 2121821a492ba764bc6f229fac88d649e5a5ef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:28 +0000
Subject: [PATCH 46/46] fix: an OAuth client doesn't decide its client_id,
 secret or their times when registering

---
 src/fedservice/appserver/oauth2/registration.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index cdda99b..b6a77b4 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -32,6 +32,10 @@ from fedservice.message import OauthClientInformationResponse
 logger = logging.getLogger(__name__)
 
 
+# Not for the client to decide
+ASSIGNED = ["client_id", "client_id_issued_at", "client_salt", "client_secret", "client_secret_expires_at"]
+
+
 class Registration(Endpoint):
     msg_type = oauth2.OauthClientMetadata
     response_cls = OauthClientInformationResponse
@@ -82,7 +86,8 @@ class Registration(Endpoint):
         trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         _federation_entity.trust_chain_anchor = trust_chain.anchor
         # Perform non-federation registration
-        req = oauth2.OauthClientMetadata(**trust_chain.metadata[opponent_entity_type])
+        req = oauth2.OauthClientMetadata(**{
+            k: v for k, v in trust_chain.metadata[opponent_entity_type].items() if k not in ASSIGNED})
         response_info = self.step2_process_request(req, **kwargs)
         if "response_args" in response_info:
             _context = _federation_entity.context
@@ -144,6 +149,8 @@ class Registration(Endpoint):
         _args = {}
         _context = self.upstream_get("context")
         for key, val in request.items():
+            if key in ASSIGNED and key != "client_id":
+                continue
             if key not in _context.claims.register2preferred:
                 _args[key] = val
                 continue
-- 
2.43.0

