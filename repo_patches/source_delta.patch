From a2b102ec90f934646f7d1dafd865179f2492da67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 01/45] fix: secured and pushed authorization requests skip the
 generic verification

Neither verify ran the inherited checks, so an empty pushed request was
accepted, and a wire-supplied verified request was kept when the message
carried no request object.
---
 src/oidcmsg/oauth2/__init__.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 30f65b0..ceff5bd 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -329,11 +329,11 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
@@ -347,8 +347,11 @@ class JWTSecuredAuthorizationRequest(AuthorizationRequest):
             self[_vc_name] = _req
         elif "request_uri" not in self:
             raise MissingAttribute("One of request or request_uri must be present")
+        else:
+            # The parameters are in the object request_uri refers to.
+            return True
 
-        return True
+        return super(JWTSecuredAuthorizationRequest, self).verify(**kwargs)
 
 
 class PushedAuthorizationRequest(AuthorizationRequest):
@@ -358,11 +361,11 @@ class PushedAuthorizationRequest(AuthorizationRequest):
     })
 
     def verify(self, **kwargs):
-        if "request" in self:
-            _vc_name = verified_claim_name("request")
-            if _vc_name in self:
-                del self[_vc_name]
+        _vc_name = verified_claim_name("request")
+        if _vc_name in self:
+            del self[_vc_name]
 
+        if "request" in self:
             args = {}
             for arg in ["keyjar", "opponent_id", "sender", "alg", "encalg",
                         "encenc"]:
@@ -375,7 +378,7 @@ class PushedAuthorizationRequest(AuthorizationRequest):
             self.merge(_req, "lax")
             self[_vc_name] = _req
 
-        return True
+        return super(PushedAuthorizationRequest, self).verify(**kwargs)
 
 
 class SecurityEventToken(Message):
-- 
2.43.0


From b4660af781833a54d3c5d78ae24beff7f2b48ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 02/45] fix: merging with an empty whitelist or unknown
 treatment keeps everything

An empty whitelist, and any treatment that was not recognised, behaved like
the lax treatment.
---
 src/oidcmsg/oauth2/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index ceff5bd..5a99214 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -127,11 +127,13 @@ class AuthorizationRequest(Message):
                     del self[param]
         elif treatement == "lax":
             pass
-        elif treatement == "whitelist" and whitelist:
+        elif treatement == "whitelist":
             params = list(self.keys())
             for param in params:
-                if param not in whitelist:
+                if param not in (whitelist or []):
                     del self[param]
+        else:
+            raise ValueError("Unknown treatment: {}".format(treatement))
 
         self.update(request_object)
 
-- 
2.43.0


From 4b5e18974cf83cff71da3b8ac6b535e4c6f491bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 03/45] fix: ID token verification ignores the verdict of the
 inherited one

OpenIDSchema.verify answers False for claims with null values; IdToken
dropped that answer and accepted the token.
---
 src/oidcmsg/oidc/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index e21a7cb..d7ef68d 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -764,7 +764,8 @@ class IdToken(OpenIDSchema):
         return Message.to_jwt(self, key=key, algorithm=algorithm, lev=lev)
 
     def verify(self, **kwargs):
-        super(IdToken, self).verify(**kwargs)
+        if not super(IdToken, self).verify(**kwargs):
+            return False
 
         try:
             if kwargs['iss'] != self['iss']:
-- 
2.43.0


From 638e964ea2770945a1230c27ca9d5d1307ffeaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 04/45] fix: four verify methods return None for a message they
 accept

---
 src/oidcmsg/oauth2/device_authorization.py | 2 ++
 src/oidcmsg/oidc/identity_assurance.py     | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/oidcmsg/oauth2/device_authorization.py b/src/oidcmsg/oauth2/device_authorization.py
index 4cb4e4f..c8a1aad 100644
--- a/src/oidcmsg/oauth2/device_authorization.py
+++ b/src/oidcmsg/oauth2/device_authorization.py
@@ -34,3 +34,5 @@ class AccessTokenRequest(oidc.AccessTokenRequest):
             for claim in ["grant_type", "client_id"]:
                 if claim not in self:
                     raise MissingRequiredAttribute(claim)
+
+        return True
diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index cff6eb2..f85dda0 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -481,6 +481,7 @@ class VerificationElementRequest(Message):
     def verify(self, **kwargs):
         super(VerificationElementRequest, self).verify(**kwargs)
         verify_claims_request(self, VerificationElement())
+        return True
 
 
 def verification_element_request_deser(val, sformat="urlencoded"):
@@ -500,6 +501,7 @@ class VerifiedClaimsRequest(Message):
     def verify(self, **kwargs):
         super(VerifiedClaimsRequest, self).verify(**kwargs)
         verify_claims_request(self, VerifiedClaims())
+        return True
 
 
 class IDAClaimsRequest(ClaimsRequest):
@@ -511,6 +513,8 @@ class IDAClaimsRequest(ClaimsRequest):
             _vci.verify()
             self["verified_claims"] = _vci
 
+        return True
+
 
 class ClaimsConstructor:
     def __init__(self, base_class=Message):
-- 
2.43.0


From a1ace615d34a488022404720434c97571d3e809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 05/45] fix: typed evidence can never be verified

Evidence.verify was inherited by the specific evidence classes it
instantiates, so it recursed until to_dict or the interpreter gave up; the
inherited checks were never run, the guessing branch could not match and an
accepted message got None as verdict.
---
 src/oidcmsg/oidc/identity_assurance.py | 41 ++++++++++++--------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index f85dda0..d8c68bd 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -227,34 +227,31 @@ class Evidence(Message):
     }
 
     def verify(self, **kwargs):
+        if not super(Evidence, self).verify(**kwargs):
+            return False
+
+        _evidence = {"id_document": IdDocument, "utility_bill": UtilityBill, "qes": QES}
+
         _type = self.get("type")
         if _type:
-            if _type == "id_document":
-                _doc = IdDocument(**self.to_dict())
-                _doc.verify(**kwargs)
-            elif _type == "utility_bill":
-                _bill = UtilityBill(**self.to_dict())
-                _bill.verify(**kwargs)
-            elif _type == "qes":
-                _qes = QES(**self.to_dict())
-                _qes.verify(**kwargs)
-            else:
+            if _type not in _evidence:
                 raise ValueError("Unknown type")
+            # An instance of the specific class is already verified
+            if not isinstance(self, _evidence[_type]):
+                return _evidence[_type](**self.to_dict()).verify(**kwargs)
         else:  # let the guessing begin
-            if all(x in self.keys() for x in IdDocument.c_param.keys()):
-                _doc = IdDocument(**self.to_dict())
-                _doc.verify(**kwargs)
-                self["type"] = "id_document"
-            elif all(x in self.keys() for x in UtilityBill.c_param.keys()):
-                _bill = UtilityBill(**self.to_dict())
-                _bill.verify(**kwargs)
-                self["type"] = "utility_bill"
-            elif all(x in self.keys() for x in QES.c_param.keys()):
-                _qes = QES(**self.to_dict())
-                _qes.verify(**kwargs)
-                self["type"] = "qes"
+            for _type, _cls in _evidence.items():
+                if isinstance(self, _cls):
+                    break
+                if all(x in self.keys() for x in _cls.c_param.keys() if x != "type"):
+                    if not _cls(type=_type, **self.to_dict()).verify(**kwargs):
+                        return False
+                    break
             else:
                 raise ValueError("Unknown object")
+            self["type"] = _type
+
+        return True
 
 
 def evidence_deser(val, sformat="urlencoded"):
-- 
2.43.0


From 681592cf8f7b7c5ac72ed793a9f04788528d2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:10 +0000
Subject: [PATCH 06/45] fix: time stamps held as ISO 8601 strings cannot be
 serialised

The value is stored as the string it was received as, but the serializer
only accepted strings of digits.
---
 src/oidcmsg/oidc/identity_assurance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index d8c68bd..017413f 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -107,6 +107,8 @@ def time_stamp_ser(val, sformat="", lev=0):
     elif isinstance(val, float):
         return to_iso8601_2004_time(int(val))
     elif isinstance(val, str):
+        if not val.isdigit():  # already in ISO 8601 format
+            return val
         return to_iso8601_2004_time(int(val))
     else:
         raise ValueError("Wrong type of value")
@@ -132,6 +134,8 @@ def date_ser(val, sformat="", lev=0):
     elif isinstance(val, float):
         return to_iso8601_2004_date(int(val))
     elif isinstance(val, str):
+        if not val.isdigit():  # already in ISO 8601 format
+            return val
         return to_iso8601_2004_date(int(val))
     else:
         raise ValueError("Wrong type of value")
-- 
2.43.0


From f56a852ae6bac2e6873bfa78483b3380c848d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 07/45] fix: character sets of error descriptions and scopes
 are incomplete

Digits and most punctuation were refused in error_description, and the
scope alphabet held the builtin 'set' instead of '!'.
---
 src/oidcmsg/oauth2/__init__.py | 4 ++--
 src/oidcmsg/oidc/__init__.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 5a99214..86b5051 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -1,6 +1,5 @@
 import inspect
 import logging
-import string
 import sys
 
 from oidcmsg import verified_claim_name
@@ -28,7 +27,8 @@ def is_error_message(msg):
         return False
 
 
-error_chars = set(string.ascii_uppercase + string.ascii_lowercase + " " + "!")
+# %x20-21 / %x23-5B / %x5D-7E
+error_chars = {chr(c) for c in range(0x20, 0x7f)} - {'"', '\\'}
 
 
 class ResponseMessage(Message):
diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index d7ef68d..328b31f 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -227,7 +227,7 @@ for char in ['\x21', ('\x23', '\x5b'), ('\x5d', '\x7E')]:
             SCOPE_CHARSET.append(c)
             c = chr(ord(c) + 1)
     else:
-        SCOPE_CHARSET.append(set)
+        SCOPE_CHARSET.append(char)
 
 
 def check_char_set(string, allowed):
-- 
2.43.0


From e9b7a4bbc0a110996774ee4e18e96e0bf09426e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 08/45] fix: clock skew makes the not-before check stricter
 instead of more tolerant

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 328b31f..ef8a2d6 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -984,7 +984,7 @@ class JsonWebToken(Message):
         except KeyError:
             pass
         else:
-            if _nbf > (_now - _skew):
+            if _nbf > (_now + _skew):
                 raise EXPError('Not valid yet')
 
         try:
-- 
2.43.0


From f055676b58fefa2f6a287bd272612bdf41e7685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:25 +0000
Subject: [PATCH 09/45] fix: OpenID error codes leak into the OAuth2
 authorization error response

The shallow copy shares the list, so extending it changed the vocabulary of
the parent class.
---
 src/oidcmsg/oidc/__init__.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index ef8a2d6..31b74ac 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -390,15 +390,16 @@ class AuthorizationResponse(oauth2.AuthorizationResponse,
 class AuthorizationErrorResponse(oauth2.AuthorizationErrorResponse):
     c_allowed_values = oauth2.AuthorizationErrorResponse.c_allowed_values \
         .copy()
-    c_allowed_values["error"].extend(["interaction_required",
-                                      "login_required",
-                                      "session_selection_required",
-                                      "consent_required",
-                                      "invalid_request_uri",
-                                      "invalid_request_object",
-                                      "registration_not_supported",
-                                      "request_not_supported",
-                                      "request_uri_not_supported"])
+    c_allowed_values["error"] = c_allowed_values["error"] + [
+        "interaction_required",
+        "login_required",
+        "session_selection_required",
+        "consent_required",
+        "invalid_request_uri",
+        "invalid_request_object",
+        "registration_not_supported",
+        "request_not_supported",
+        "request_uri_not_supported"]
 
 
 class AuthorizationRequest(oauth2.AuthorizationRequest):
-- 
2.43.0


From c19e556c291bab648e0c356e9b3d1d8b717f6c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 10/45] fix: message instances share the mutable default values
 of their class

---
 src/oidcmsg/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index f2991ed..b9969dd 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -36,7 +36,7 @@ class Message(MutableMapping):
 
     def __init__(self, set_defaults=True, **kwargs):
         if set_defaults:
-            self._dict = self.c_default.copy()
+            self._dict = copy.deepcopy(self.c_default)
         else:
             self._dict = {}
         self.lax = False
@@ -75,7 +75,7 @@ class Message(MutableMapping):
         Based on specification set a parameters value to the default value.
         """
         for key, val in self.c_default.items():
-            self._dict.setdefault(key, val)
+            self._dict.setdefault(key, copy.deepcopy(val))
 
     def to_urlencoded(self, lev=0):
         """
-- 
2.43.0


From 394a2d88f87668b864540ab7163741f21a083bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 11/45] fix: a request object can smuggle in verified tokens
 and drop required parameters

Parameters of the request object were merged after the verified claims had
been cleared and the required parameters and permitted values checked; the
slot for the verified id_token_hint was not cleared at all.
---
 src/oidcmsg/oidc/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 31b74ac..e2259f7 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -247,8 +247,10 @@ CLAIMS_WITH_VERIFIED = ['id_token', 'id_token_hint', 'request']
 
 
 def clear_verified_claims(msg):
-    for claim in CLAIMS_WITH_VERIFIED:
-        _vc_name = verified_claim_name(claim)
+    _names = [verified_claim_name(claim) for claim in CLAIMS_WITH_VERIFIED]
+    # the name AuthorizationRequest uses
+    _names.append("verified_id_token_hint")
+    for _vc_name in _names:
         try:
             del msg[_vc_name]
         except KeyError:
@@ -475,6 +477,11 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
 
                 self.update(oidr)
 
+                # What is true for the request must also be true for the
+                # result of the merge
+                clear_verified_claims(self)
+                super(AuthorizationRequest, self).verify(**kwargs)
+
                 # replace the JWT with the parsed and verified instance
                 self[verified_claim_name("request")] = oidr
 
-- 
2.43.0


From 5341b2fe26f8f0900bc36b5e9304083fa7369412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 12/45] fix: an unsigned id_token_hint is presented as verified

---
 src/oidcmsg/oidc/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index e2259f7..c5b85c3 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -488,6 +488,9 @@ class AuthorizationRequest(oauth2.AuthorizationRequest):
         if "id_token_hint" in self:
             if isinstance(self["id_token_hint"], str):
                 idt = IdToken().from_jwt(str(self["id_token_hint"]), **args)
+                if not idt.jws_header or idt.jws_header["alg"] == "none":
+                    if not kwargs.get("allow_sign_alg_none"):
+                        raise UnsupportedAlgorithm("Unsigned id_token_hint not allowed")
                 self["verified_id_token_hint"] = idt
 
         if "response_type" not in self:
-- 
2.43.0


From 1581b43c68bbb5189d0d60eabf5757528c948cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:07 +0000
Subject: [PATCH 13/45] fix: unsigned logout tokens are accepted

A logout token with alg=none, or a plain JSON document, passed as verified
without unsigned tokens being allowed.
---
 src/oidcmsg/oidc/session.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/oidc/session.py b/src/oidcmsg/oidc/session.py
index 7a9550a..841f3a9 100644
--- a/src/oidcmsg/oidc/session.py
+++ b/src/oidcmsg/oidc/session.py
@@ -177,6 +177,9 @@ class BackChannelLogoutRequest(Message):
             except KeyError:
                 pass
         idt = LogoutToken().from_jwt(str(self["logout_token"]), **args)
+        if not idt.jws_header or idt.jws_header["alg"] == "none":
+            if not kwargs.get("allow_sign_alg_none") and kwargs.get("sigalg") != "none":
+                raise UnsupportedAlgorithm("Unsigned logout token not allowed")
         if not idt.verify(**kwargs):
             return False
 
-- 
2.43.0


From ebade40f02224a85b290e2ffbe34134d7f814016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:31 +0000
Subject: [PATCH 14/45] fix: proper_path returns a path without './' for names
 that start with dots

---
 src/oidcmsg/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/__init__.py b/src/oidcmsg/__init__.py
index 6c54ecc..8cd8ae2 100755
--- a/src/oidcmsg/__init__.py
+++ b/src/oidcmsg/__init__.py
@@ -22,6 +22,8 @@ def proper_path(path):
             path = path[1:]
         if path.startswith("/"):
             path = ".%s" % path
+        else:
+            path = "./%s" % path
     else:
         path = "./%s" % path
 
-- 
2.43.0


From d41ea24fd390ecac01f032d3a14657754da40910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 15/45] fix: add_base_path fails with a NameError

---
 src/oidcmsg/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/__init__.py b/src/oidcmsg/__init__.py
index 8cd8ae2..87ed2c5 100755
--- a/src/oidcmsg/__init__.py
+++ b/src/oidcmsg/__init__.py
@@ -1,3 +1,5 @@
+import os
+
 __author__ = 'Roland Hedberg'
 __version__ = '1.1.3'
 
-- 
2.43.0


From a95c0ebcc7f86e5383f6b0b4c4dc118d3904b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:19 +0000
Subject: [PATCH 16/45] fix: deletions in the SQL store are never committed

---
 src/oidcmsg/storage/absqlalchemy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 9314ab8..b2bb4b9 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -24,7 +24,7 @@ class AbstractStorageSQLAlchemy:
         return entry.data
 
     def set(self, k, v):
-        self.delete(k)
+        self._delete(k)
         ins = self.table.insert().values(owner=k,
                                          data=v)
         self.session.execute(ins)
@@ -47,6 +47,11 @@ class AbstractStorageSQLAlchemy:
         """
         return the count of deleted objects
         """
+        n_entries = self._delete(v)
+        self.session.commit()
+        return n_entries
+
+    def _delete(self, v):
         delquery = self.table.delete().where(self.table.c.owner == v)
         n_entries = self.session.query(self.table).filter(self.table.c.owner == v).count()
         self.session.execute(delquery)
-- 
2.43.0


From 07809b5e417753b93cd88c20f109bff11f14bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:25 +0000
Subject: [PATCH 17/45] fix: the SQL store has no item access, which the
 context needs

---
 src/oidcmsg/storage/absqlalchemy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index b2bb4b9..4edefd4 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -90,5 +90,8 @@ class AbstractStorageSQLAlchemy:
             self.session.rollback()
             self.session.flush()
 
+    def __getitem__(self, k):
+        return self.get(k)
+
     def __setitem__(self, k, v):
         return self.set(k, v)
-- 
2.43.0


From e5babac410e6a4950b9c8224772fd01ad373a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:30 +0000
Subject: [PATCH 18/45] fix: membership in the SQL store also matches stored
 data and row ids

---
 src/oidcmsg/storage/absqlalchemy.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 4edefd4..3457dc8 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -58,9 +58,7 @@ class AbstractStorageSQLAlchemy:
         return n_entries
 
     def __contains__(self, k):
-        for entry in self():
-            if k in entry:
-                return 1
+        return self.get(k) is not None
 
     def __call__(self):
         return self.session.query(self.table).all()
-- 
2.43.0


From 5f72b207c90ce4dd36bff13975b9e4fb5abdcdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:35 +0000
Subject: [PATCH 19/45] fix: deleting from the file store uses the key as file
 name

Deleting a key that the converter changes was a silent no-op, a key with
path separators could address files outside the store, clear() treated lock
files as entries (leaving a longer lock file each time), and the recorded
modification time survived the deletion.
---
 src/oidcmsg/storage/abfile.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 248b99b..8fd9506 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -126,16 +126,25 @@ class AbstractFileSystem(Storage):
         self.fmtime[_key] = self.get_mtime(fname)
 
     def __delitem__(self, key):
-        fname = os.path.join(self.fdir, key)
+        self._remove(self.key_conv.serialize(key))
+
+    def _remove(self, item):
+        """
+        Remove the file with a specific name and what is known about it.
+
+        :param item: File name, that is a serialized key
+        """
+        fname = os.path.join(self.fdir, item)
         if os.path.isfile(fname):
             lock = FileLock('{}.lock'.format(fname))
             with lock:
                 os.unlink(fname)
 
-        try:
-            del self.storage[key]
-        except KeyError:
-            pass
+        self._forget(item)
+
+    def _forget(self, item):
+        self.storage.pop(item, None)
+        self.fmtime.pop(item, None)
 
     def keys(self):
         """
@@ -249,7 +258,12 @@ class AbstractFileSystem(Storage):
             return
 
         for f in os.listdir(self.fdir):
-            del self[f]
+            if f.endswith('.lock') or not os.path.isfile(os.path.join(self.fdir, f)):
+                continue
+            self._remove(f)
+
+        self.storage.clear()
+        self.fmtime.clear()
 
     def update(self, ava):
         """
-- 
2.43.0


From 7508058de1373f08d07fbed2e7a3064d3e5c4c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:40 +0000
Subject: [PATCH 20/45] fix: the file store records the modification time of a
 write after releasing the lock

A write by someone else in between was never noticed.
---
 src/oidcmsg/storage/abfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 8fd9506..052509b 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -120,10 +120,11 @@ class AbstractFileSystem(Storage):
         with lock:
             with open(fname, 'w') as fp:
                 fp.write(self.value_conv.serialize(value))
+            mtime = self.get_mtime(fname)
 
         self.storage[_key] = value
         logger.debug('Wrote to "%s"', key)
-        self.fmtime[_key] = self.get_mtime(fname)
+        self.fmtime[_key] = mtime
 
     def __delitem__(self, key):
         self._remove(self.key_conv.serialize(key))
-- 
2.43.0


From 69c8f7dc526a390feb351e8d261731feb2af839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:46 +0000
Subject: [PATCH 21/45] fix: the file store serves data its directory
 contradicts

A file was marked as seen before its content had been read, so after a failed
read the old content was served, and entries whose file had been removed by
someone else stayed in the cache and in listings.
---
 src/oidcmsg/storage/abfile.py | 38 ++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 052509b..fab533a 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -88,10 +88,13 @@ class AbstractFileSystem(Storage):
         """
         item = self.key_conv.serialize(item)
 
-        if self.is_changed(item):
-            logger.info("File content change in {}".format(item))
-            fname = os.path.join(self.fdir, item)
-            self.storage[item] = self._read_info(fname)
+        try:
+            if self.is_changed(item):
+                logger.info("File content change in {}".format(item))
+                self._load(item)
+        except KeyError:
+            self._forget(item)
+            raise
 
         logger.debug('Read from "%s"', item)
         return self.storage[item]
@@ -187,11 +190,9 @@ class AbstractFileSystem(Storage):
             try:
                 _ftime = self.fmtime[item]
             except KeyError:  # Never been seen before
-                self.fmtime[item] = mtime
                 return True
 
             if mtime > _ftime:  # has changed
-                self.fmtime[item] = mtime
                 return True
             else:
                 return False
@@ -211,7 +212,19 @@ class AbstractFileSystem(Storage):
                 raise
         else:
             logger.error('No such file: {}'.format(fname))
-        return None
+            raise KeyError(os.path.basename(fname))
+
+    def _load(self, item):
+        """
+        Read a file into the cache. The modification time is picked up before
+        the content and only remembered if the content could be read.
+
+        :param item: File name, that is a serialized key
+        """
+        fname = os.path.join(self.fdir, item)
+        mtime = self.get_mtime(fname)
+        self.storage[item] = self._read_info(fname)
+        self.fmtime[item] = mtime
 
     def synch(self):
         """
@@ -231,15 +244,16 @@ class AbstractFileSystem(Storage):
 
             if f in self.fmtime:
                 if self.is_changed(f):
-                    self.storage[f] = self._read_info(fname)
+                    self._load(f)
             else:
-                mtime = self.get_mtime(fname)
                 try:
-                    self.storage[f] = self._read_info(fname)
+                    self._load(f)
                 except Exception as err:
                     logger.warning('Bad content in {} ({})'.format(fname, err))
-                else:
-                    self.fmtime[f] = mtime
+
+        for f in list(self.storage.keys()):
+            if not os.path.isfile(os.path.join(self.fdir, f)):
+                self._forget(f)
 
     def items(self):
         """
-- 
2.43.0


From b0fa08d9975f112f9ef238b1741694c56bc731a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:51 +0000
Subject: [PATCH 22/45] fix: membership in the file store ignores what others
 did to the directory

---
 src/oidcmsg/storage/abfile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index fab533a..4aa8270 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -291,13 +291,14 @@ class AbstractFileSystem(Storage):
             self[key] = val
 
     def __contains__(self, item):
-        return self.key_conv.serialize(item) in self.storage
+        _name = self.key_conv.serialize(item)
+        return not _name.endswith('.lock') and os.path.isfile(os.path.join(self.fdir, _name))
 
     def __iter__(self):
         return self.items()
 
     def __call__(self, *args, **kwargs):
-        return [self.key_conv.deserialize(k) for k in self.storage.keys()]
+        return list(self.keys())
 
     def __len__(self):
         if not os.path.isdir(self.fdir):
-- 
2.43.0


From 8f740f28089eb3fe9634476723c57a9ae4229406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 23/45] fix: keys that end in '.lock' are taken for lock files

---
 src/oidcmsg/storage/converter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/converter.py b/src/oidcmsg/storage/converter.py
index 018d03d..e9357bc 100644
--- a/src/oidcmsg/storage/converter.py
+++ b/src/oidcmsg/storage/converter.py
@@ -5,7 +5,11 @@ from urllib.parse import unquote_plus
 
 class QPKey:
     def serialize(self, str):
-        return quote_plus(str)
+        _name = quote_plus(str)
+        # Names that end in .lock belong to the lock files
+        if _name.endswith('.lock'):
+            _name = _name[:-len('.lock')] + '%2Elock'
+        return _name
 
     def deserialize(self, str):
         return unquote_plus(str)
-- 
2.43.0


From f2ce5611975015f9461f7582ee1106725b526a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:20 +0000
Subject: [PATCH 24/45] fix: labelled stores cannot be updated, iterated or
 counted

update() used the mapping as a key, LabeledDict iteration unpacked keys as
pairs, get() refused its default as keyword, and the length compared file
names with the unconverted label.
---
 src/oidcmsg/storage/abfile.py    | 20 +++-----------------
 src/oidcmsg/storage/extension.py | 10 +++++-----
 2 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 4aa8270..14d0c75 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -336,9 +336,9 @@ class LabeledAbstractFileSystem(Storage):
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for key, val in ava.items():
+            self[key] = val
 
     @key_label
     def __getitem__(self, k):
@@ -370,18 +370,4 @@ class LabeledAbstractFileSystem(Storage):
                 yield key[len(self.label):], val
 
     def __len__(self):
-        if not os.path.isdir(self.storage.fdir):
-            return 0
-
-        n = 0
-        for f in os.listdir(self.storage.fdir):
-            if f.startswith(self.label):
-                fname = os.path.join(self.storage.fdir, f)
-
-                if not os.path.isfile(fname):
-                    continue
-                if fname.endswith('.lock'):
-                    continue
-
-                n += 1
-        return n
+        return len(self.keys())
diff --git a/src/oidcmsg/storage/extension.py b/src/oidcmsg/storage/extension.py
index 5554688..7b373e0 100644
--- a/src/oidcmsg/storage/extension.py
+++ b/src/oidcmsg/storage/extension.py
@@ -1,7 +1,7 @@
 def key_label(func):
-    def add_label(self, k, *args):
+    def add_label(self, k, *args, **kwargs):
         _k = "{}{}".format(self.label, k)
-        return func(self, _k, *args)
+        return func(self, _k, *args, **kwargs)
 
     return add_label
 
@@ -35,9 +35,9 @@ class LabeledDict():
     def get(self, k, default=None):
         return self.storage.get(k, default)
 
-    @key_label
     def update(self, ava):
-        return self.storage.update(ava)
+        for key, val in ava.items():
+            self[key] = val
 
     @key_label
     def __getitem__(self, k):
@@ -60,7 +60,7 @@ class LabeledDict():
         return self.storage.__contains__(k)
 
     def __iter__(self):
-        for key, val in self.storage.__iter__():
+        for key, val in self.storage.items():
             if key.startswith(self.label):
                 yield key[self.label_len:], val
 
-- 
2.43.0


From e0d171fda4e637ed3fbaa068864e5eb1af4bffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:25 +0000
Subject: [PATCH 25/45] fix: unimplemented storage methods raise TypeError
 instead of NotImplementedError

---
 src/oidcmsg/storage/__init__.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/oidcmsg/storage/__init__.py b/src/oidcmsg/storage/__init__.py
index eda66cd..5693857 100644
--- a/src/oidcmsg/storage/__init__.py
+++ b/src/oidcmsg/storage/__init__.py
@@ -14,38 +14,38 @@ class Storage(object):
         pass
 
     def get(self, k, default=None):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def update(self, ava):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def delete(self, k, v):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def __getitem__(self, k):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def __setitem__(self, k, v):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def __delitem__(self, v):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def __call__(self):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def __len__(self):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def __contains__(self, k):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def __iter__(self):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def synch(self):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def keys(self):
-        raise NotImplemented()
+        raise NotImplementedError()
 
-- 
2.43.0


From 9ae80bcb622465295455e7b96f416604ea8b4e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:24 +0000
Subject: [PATCH 26/45] fix: claims requests with falsy constraint values of
 the wrong type pass

---
 src/oidcmsg/oidc/identity_assurance.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 017413f..f293608 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -418,11 +418,12 @@ def _verify_claims_request_value(value, value_type=str):
         return True
     elif isinstance(value, dict):
         # know about keys: essential, value and values, purpose
-        if not value.get("essential") in (None, True, False):
+        _essential = value.get("essential")
+        if not (_essential is None or isinstance(_essential, bool)):
             return False
 
         _v = value.get("value")
-        if _v:
+        if _v is not None:
             if not _correct_value_type(_v, value_type):
                 return False
 
@@ -432,7 +433,7 @@ def _verify_claims_request_value(value, value_type=str):
                 return False
 
         _p = value.get("purpose")
-        if _p:
+        if _p is not None:
             if len(_p) < 3 or len(_p) > 300:
                 return False
             if not all(x in error_chars for x in _p):
-- 
2.43.0


From c437e2545d3e415feb36ab8dfddb08e575d5be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:22 +0000
Subject: [PATCH 27/45] fix: list parameters take a JSON object as their value

---
 src/oidcmsg/message.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index b9969dd..fe50d46 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -379,13 +379,11 @@ class Message(MutableMapping):
                                 ERRTXT % (key, "type != %s (%s)" % (vtype, type(v))))
 
                 self._dict[skey] = val
-            elif isinstance(val, dict):
+            elif isinstance(val, dict) and issubclass(vtype, Message):
                 try:
-                    val = _deser(val, sformat="dict")
+                    self._dict[skey] = [vtype(**val)]
                 except Exception as exc:
                     raise DecodeError(ERRTXT % (key, exc))
-                else:
-                    self._dict[skey] = val
             else:
                 raise DecodeError(ERRTXT % (key, "type != %s" % vtype))
         else:
-- 
2.43.0


From 483f3625b51a870e38e2e2f6fc44a79024e16c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:27 +0000
Subject: [PATCH 28/45] fix: JSON object parameters hold text and numbers

---
 src/oidcmsg/message.py       | 3 +++
 src/oidcmsg/oidc/__init__.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index fe50d46..6185c92 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -414,6 +414,9 @@ class Message(MutableMapping):
                         #     else:
                         #         raise TooManyValues(key)
                         # else:
+                        if vtyp is dict and not isinstance(val, dict):
+                            raise DecodeError(
+                                ERRTXT % (key, "type != %s (%s)" % (vtyp, type(val))))
                         self._dict[skey] = val
                 elif vtyp is int:
                     try:
diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index c5b85c3..c85effb 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -37,6 +37,7 @@ from oidcmsg.message import SINGLE_OPTIONAL_JSON
 from oidcmsg.message import SINGLE_OPTIONAL_STRING
 from oidcmsg.message import SINGLE_REQUIRED_STRING
 from oidcmsg.message import Message
+from oidcmsg.message import json_deserializer
 from oidcmsg.message import msg_ser
 from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.time_util import utc_time_sans_frac
@@ -214,7 +215,7 @@ SINGLE_OPTIONAL_REGISTRATION_REQUEST = (Message, False, msg_ser,
 SINGLE_OPTIONAL_CLAIMSREQ = (Message, False, msg_ser_json, claims_request_deser,
                              False)
 
-SINGLE_OPTIONAL_DICT = (dict, False, msg_ser_json, dict_deser, False)
+SINGLE_OPTIONAL_DICT = (dict, False, msg_ser_json, json_deserializer, False)
 
 # ----------------------------------------------------------------------------
 
-- 
2.43.0


From 205863f96f9878f9a983eb7131c84af883623359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:24 +0000
Subject: [PATCH 29/45] fix: provider metadata with an http issuer was accepted
 when allow_http was False

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index c85effb..df92162 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -933,7 +933,7 @@ class ProviderConfigurationResponse(ResponseMessage):
                 check_char_set(scope, SCOPE_CHARSET)
 
         parts = urlparse(self["issuer"])
-        if 'allow_http' in kwargs:
+        if kwargs.get('allow_http'):
             pass
         elif parts.scheme != "https":
             raise SchemeError("Not HTTPS")
-- 
2.43.0


From 964264a972ba73f0b4e58c0e8a5c72ebb6ce1244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:12 +0000
Subject: [PATCH 30/45] fix: iterating over an SQL storage raised TypeError

---
 src/oidcmsg/storage/absqlalchemy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/absqlalchemy.py b/src/oidcmsg/storage/absqlalchemy.py
index 3457dc8..35520ea 100644
--- a/src/oidcmsg/storage/absqlalchemy.py
+++ b/src/oidcmsg/storage/absqlalchemy.py
@@ -64,7 +64,7 @@ class AbstractStorageSQLAlchemy:
         return self.session.query(self.table).all()
 
     def __iter__(self):
-        return self.session.query(self.table)
+        return iter(self.session.query(self.table))
 
     def __str__(self):
         entries = []
-- 
2.43.0


From 8161b12ce86404b975fae303011abb7f54a6d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:01 +0000
Subject: [PATCH 31/45] fix: a resource owner password credentials request
 needs user name and password

---
 src/oidcmsg/oauth2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 86b5051..8c485ef 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -203,8 +203,8 @@ class ROPCAccessTokenRequest(Message):
     """
     c_param = {
         "grant_type": SINGLE_REQUIRED_STRING,
-        "username": SINGLE_OPTIONAL_STRING,
-        "password": SINGLE_OPTIONAL_STRING,
+        "username": SINGLE_REQUIRED_STRING,
+        "password": SINGLE_REQUIRED_STRING,
         "scope": OPTIONAL_LIST_OF_SP_SEP_STRINGS
     }
 
-- 
2.43.0


From 2b2a95e5a3f1a5c8d366930d93847f69cc524cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:05 +0000
Subject: [PATCH 32/45] fix: grant_types_supported is optional in authorization
 server metadata

---
 src/oidcmsg/oauth2/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 8c485ef..7c55ee1 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -254,7 +254,7 @@ class ASConfigurationResponse(Message):
         "scopes_supported": OPTIONAL_LIST_OF_STRINGS,
         "response_types_supported": REQUIRED_LIST_OF_STRINGS,
         "response_modes_supported": OPTIONAL_LIST_OF_STRINGS,
-        "grant_types_supported": REQUIRED_LIST_OF_STRINGS,
+        "grant_types_supported": OPTIONAL_LIST_OF_STRINGS,
         "token_endpoint_auth_methods_supported": OPTIONAL_LIST_OF_STRINGS,
         "token_endpoint_auth_signing_alg_values_supported":
             OPTIONAL_LIST_OF_STRINGS,
-- 
2.43.0


From ebd3beac6096a8ecaee550f63426f195d6556a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:08 +0000
Subject: [PATCH 33/45] fix: the nationalities claim is a list

---
 src/oidcmsg/oidc/identity_assurance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index f293608..35f2704 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -2,6 +2,7 @@ import abc
 import datetime
 import json
 
+from oidcmsg.message import OPTIONAL_LIST_OF_STRINGS
 from oidcmsg.message import OPTIONAL_MESSAGE
 from oidcmsg.message import SINGLE_OPTIONAL_JSON
 from oidcmsg.message import SINGLE_OPTIONAL_STRING
@@ -156,7 +157,7 @@ class IdentityAssuranceClaims(OpenIDSchema):
     c_param = OpenIDSchema.c_param.copy()
     c_param.update({
         "place_of_birth": SINGLE_OPTIONAL_JSON,
-        "nationalities": SINGLE_OPTIONAL_STRING,
+        "nationalities": OPTIONAL_LIST_OF_STRINGS,
         "birth_family_name": SINGLE_OPTIONAL_STRING,
         "birth_given_name": SINGLE_OPTIONAL_STRING,
         "birth_middle_name": SINGLE_OPTIONAL_STRING,
-- 
2.43.0


From 9b87039d770079af8e7c45ca46309d5785155205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:11 +0000
Subject: [PATCH 34/45] fix: the sub_jwk claim is a JSON object

---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index df92162..39df4aa 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -734,7 +734,7 @@ class IdToken(OpenIDSchema):
         "acr": SINGLE_OPTIONAL_STRING,
         "amr": OPTIONAL_LIST_OF_STRINGS,
         "azp": SINGLE_OPTIONAL_STRING,
-        "sub_jwk": SINGLE_OPTIONAL_STRING,
+        "sub_jwk": SINGLE_OPTIONAL_DICT,
         "sid": SINGLE_OPTIONAL_STRING
     })
     hashable = {'access_token': 'at_hash', 'code': 'c_hash'}
-- 
2.43.0


From 092f4655e9264b12d963f8989de8c75ea0357591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:15 +0000
Subject: [PATCH 35/45] fix: backchannel_logout_session_required was not
 declared as client metadata

---
 src/oidcmsg/oidc/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 39df4aa..ba93a8d 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -638,6 +638,7 @@ class RegistrationRequest(Message):
         "frontchannel_logout_uri": SINGLE_OPTIONAL_STRING,
         "frontchannel_logout_session_required": SINGLE_OPTIONAL_BOOLEAN,
         "backchannel_logout_uri": SINGLE_OPTIONAL_STRING,
+        "backchannel_logout_session_required": SINGLE_OPTIONAL_BOOLEAN,
         "backchannel_logout_session_supported": SINGLE_OPTIONAL_BOOLEAN,
         "federation_type": OPTIONAL_LIST_OF_STRINGS,
         "organization_name": SINGLE_OPTIONAL_STRING
-- 
2.43.0


From ceb0f0fed85ec39ec015663a6a4a9cb3d10baefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:19 +0000
Subject: [PATCH 36/45] fix: verified claims need both the verification and the
 claims

---
 src/oidcmsg/oidc/identity_assurance.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 35f2704..e4b3a4a 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -166,6 +166,7 @@ class IdentityAssuranceClaims(OpenIDSchema):
     })
 
 
+REQUIRED_IDA_CLAIMS = (IdentityAssuranceClaims, True, msg_ser, msg_deser, False)
 OPTIONAL_IDA_CLAIMS = (IdentityAssuranceClaims, False, msg_ser, msg_deser, False)
 
 
@@ -391,12 +392,14 @@ def verification_element_deser(val, sformat="urlencoded"):
 
 OPTIONAL_VERIFICATION_ELEMENT = (
     VerificationElement, False, msg_ser, verification_element_deser, False)
+REQUIRED_VERIFICATION_ELEMENT = (
+    VerificationElement, True, msg_ser, verification_element_deser, False)
 
 
 class VerifiedClaims(Message):
     c_param = {
-        "verification": OPTIONAL_VERIFICATION_ELEMENT,
-        "claims": OPTIONAL_IDA_CLAIMS
+        "verification": REQUIRED_VERIFICATION_ELEMENT,
+        "claims": REQUIRED_IDA_CLAIMS
     }
 
 
-- 
2.43.0


From 0bb705ea28b3c38858f0fe53452496a8914647d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:22 +0000
Subject: [PATCH 37/45] fix: the scope of a device authorization request is a
 space separated list

---
 src/oidcmsg/oauth2/device_authorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/oauth2/device_authorization.py b/src/oidcmsg/oauth2/device_authorization.py
index c8a1aad..5143458 100644
--- a/src/oidcmsg/oauth2/device_authorization.py
+++ b/src/oidcmsg/oauth2/device_authorization.py
@@ -1,5 +1,6 @@
 from oidcmsg import oidc
 from oidcmsg.exception import MissingRequiredAttribute
+from oidcmsg.message import OPTIONAL_LIST_OF_SP_SEP_STRINGS
 from oidcmsg.message import SINGLE_OPTIONAL_INT
 from oidcmsg.message import SINGLE_OPTIONAL_STRING
 from oidcmsg.message import SINGLE_REQUIRED_INT
@@ -10,7 +11,7 @@ from oidcmsg.message import Message
 class AuthorizationRequest(Message):
     c_param = {
         "client_id": SINGLE_REQUIRED_STRING,
-        "scope": SINGLE_OPTIONAL_STRING,
+        "scope": OPTIONAL_LIST_OF_SP_SEP_STRINGS,
     }
 
 
-- 
2.43.0


From c0c0874ddc3ad6d9d6ef069af46d92d37b76867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:26 +0000
Subject: [PATCH 38/45] fix: a device access token request has neither a code
 nor a redirect_uri

---
 src/oidcmsg/oauth2/device_authorization.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/oidcmsg/oauth2/device_authorization.py b/src/oidcmsg/oauth2/device_authorization.py
index 5143458..5165baf 100644
--- a/src/oidcmsg/oauth2/device_authorization.py
+++ b/src/oidcmsg/oauth2/device_authorization.py
@@ -27,6 +27,14 @@ class AuthorizationResponse(Message):
 
 
 class AccessTokenRequest(oidc.AccessTokenRequest):
+    c_param = oidc.AccessTokenRequest.c_param.copy()
+    c_param.update({
+        "device_code": SINGLE_OPTIONAL_STRING,
+        # required unless there is a device code
+        "code": SINGLE_OPTIONAL_STRING,
+        "redirect_uri": SINGLE_OPTIONAL_STRING,
+    })
+
     def verify(self, **kwargs):
         super(AccessTokenRequest, self).verify(**kwargs)
 
@@ -35,5 +43,9 @@ class AccessTokenRequest(oidc.AccessTokenRequest):
             for claim in ["grant_type", "client_id"]:
                 if claim not in self:
                     raise MissingRequiredAttribute(claim)
+        else:
+            for claim in ["code", "redirect_uri"]:
+                if not self.get(claim):
+                    raise MissingRequiredAttribute(claim)
 
         return True
-- 
2.43.0


From 235b9f884b33a153ab4b31032187d855f37a4d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:16 +0000
Subject: [PATCH 39/45] fix: a JSON valued parameter became a string within
 JSON

---
 src/oidcmsg/message.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/message.py b/src/oidcmsg/message.py
index 6185c92..06774d1 100755
--- a/src/oidcmsg/message.py
+++ b/src/oidcmsg/message.py
@@ -897,6 +897,9 @@ def sp_sep_list_deserializer(val, sformat="urlencoded"):
 
 
 def json_serializer(obj, sformat="urlencoded", lev=0):
+    if sformat == "dict" and isinstance(obj, dict):
+        # is JSON encoded together with the rest of the message
+        return obj
     return json.dumps(obj)
 
 
-- 
2.43.0


From 4f1c27e7ee93ab94fa77150f2e73dd701046a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 40/45] fix: account_selection_required was not a permitted
 authentication error code

OpenID Connect Core 3.1.2.6 names it account_selection_required; the list
had session_selection_required, which is not defined anywhere.
---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index ba93a8d..53fceda 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -396,7 +396,7 @@ class AuthorizationErrorResponse(oauth2.AuthorizationErrorResponse):
     c_allowed_values["error"] = c_allowed_values["error"] + [
         "interaction_required",
         "login_required",
-        "session_selection_required",
+        "account_selection_required",
         "consent_required",
         "invalid_request_uri",
         "invalid_request_object",
-- 
2.43.0


From 8c182bb39c82de2cd349717f4b31f9dc7347c4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:37 +0000
Subject: [PATCH 41/45] fix: require_request_uri_registration defaults to false

OpenID Connect Discovery, section 3: if omitted, the default value is false.
---
 src/oidcmsg/oidc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcmsg/oidc/__init__.py b/src/oidcmsg/oidc/__init__.py
index 53fceda..3cd85bd 100755
--- a/src/oidcmsg/oidc/__init__.py
+++ b/src/oidcmsg/oidc/__init__.py
@@ -920,7 +920,7 @@ class ProviderConfigurationResponse(ResponseMessage):
         "claims_parameter_supported": False,
         "request_parameter_supported": False,
         "request_uri_parameter_supported": True,
-        "require_request_uri_registration": True,
+        "require_request_uri_registration": False,
         "grant_types_supported": ["authorization_code", "implicit"]
     }
 
-- 
2.43.0


From 07d8204a8de174d3972e48a5f8a5a1fc7642bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:49 +0000
Subject: [PATCH 42/45] fix: a resource owner password request accepts any
 grant type

RFC 6749 4.3.2: the value MUST be set to "password".
---
 src/oidcmsg/oauth2/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcmsg/oauth2/__init__.py b/src/oidcmsg/oauth2/__init__.py
index 7c55ee1..e046ccc 100755
--- a/src/oidcmsg/oauth2/__init__.py
+++ b/src/oidcmsg/oauth2/__init__.py
@@ -207,6 +207,8 @@ class ROPCAccessTokenRequest(Message):
         "password": SINGLE_REQUIRED_STRING,
         "scope": OPTIONAL_LIST_OF_SP_SEP_STRINGS
     }
+    c_default = {"grant_type": "password"}
+    c_allowed_values = {"grant_type": ["password"]}
 
 
 class CCAccessTokenRequest(Message):
-- 
2.43.0


From e945a4a51b677cc5d03b0380141f141a2460e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:42 +0000
Subject: [PATCH 43/45] fix: the claims constructor refused the claims requests
 it documents

---
 src/oidcmsg/oidc/identity_assurance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index e4b3a4a..87d4504 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -547,6 +547,9 @@ class ClaimsConstructor:
                 if isinstance(value, ClaimsConstructor):
                     if not isinstance(value.base_class, _value_type):
                         raise ValueError("Wrong type of value '{}':'{}'".format(key, type(value.base_class)))
+                elif isinstance(value, dict) and _value_type in (str, int, bool):
+                    if not _verify_claims_request_value(value, _value_type):
+                        raise ValueError("Wrong claims request '{}':'{}'".format(key, value))
                 elif not _correct_value_type(value, _value_type):
                     raise ValueError("Wrong type of value '{}':'{}'".format(key, type(value)))
 
-- 
2.43.0


From 2e84e18899c851bd3946006aa24f0c0fa7830962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:46 +0000
Subject: [PATCH 44/45] fix: a value that cannot be converted destroys what the
 file store held

---
 src/oidcmsg/storage/abfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcmsg/storage/abfile.py b/src/oidcmsg/storage/abfile.py
index 14d0c75..6d57897 100644
--- a/src/oidcmsg/storage/abfile.py
+++ b/src/oidcmsg/storage/abfile.py
@@ -118,11 +118,14 @@ class AbstractFileSystem(Storage):
         except KeyError:
             _key = key
 
+        # A value that can not be converted must not affect the file
+        _info = self.value_conv.serialize(value)
+
         fname = os.path.join(self.fdir, _key)
         lock = FileLock('{}.lock'.format(fname))
         with lock:
             with open(fname, 'w') as fp:
-                fp.write(self.value_conv.serialize(value))
+                fp.write(_info)
             mtime = self.get_mtime(fname)
 
         self.storage[_key] = value
-- 
2.43.0


From 587471428eac9a09711e5768014d23a5fb7e175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:54 +0000
Subject: [PATCH 45/45] fix: time stamps of 1970 or of another season denote
 another instant

---
 src/oidcmsg/oidc/identity_assurance.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/oidcmsg/oidc/identity_assurance.py b/src/oidcmsg/oidc/identity_assurance.py
index 87d4504..d705500 100644
--- a/src/oidcmsg/oidc/identity_assurance.py
+++ b/src/oidcmsg/oidc/identity_assurance.py
@@ -52,16 +52,13 @@ TIME_FORMAT = "%Y-%m-%dT%H:%M:%S%z"
 DATE_FORMAT = "%Y-%m-%d"
 
 
-def to_iso8601_2004(val=0, format=TIME_FORMAT):
+def to_iso8601_2004(val=None, format=TIME_FORMAT):
     """
     :param val: integer/float/datetime.datetime
     :return: A string following the DATE_FORMAT format
     """
 
-    # Finds the local time zone
-    ltz = datetime.datetime.utcnow().astimezone().tzinfo
-
-    if val:
+    if val is not None:
         if isinstance(val, datetime.datetime):
             d = val
         elif isinstance(val, (int, float)):
@@ -71,7 +68,8 @@ def to_iso8601_2004(val=0, format=TIME_FORMAT):
     else:
         d = datetime.datetime.now()
 
-    return d.replace(tzinfo=ltz).strftime(format)
+    # in the local time zone, with the UTC offset that applied at that time
+    return d.astimezone().strftime(format)
 
 
 def from_iso8601_2004(isotime, format=TIME_FORMAT):
@@ -83,11 +81,11 @@ def from_iso8601_2004(isotime, format=TIME_FORMAT):
     return d.timestamp()
 
 
-def to_iso8601_2004_time(val=0):
+def to_iso8601_2004_time(val=None):
     return to_iso8601_2004(val, format=TIME_FORMAT)
 
 
-def to_iso8601_2004_date(val=0):
+def to_iso8601_2004_date(val=None):
     return to_iso8601_2004(val, format=DATE_FORMAT)
 
 
-- 
2.43.0

