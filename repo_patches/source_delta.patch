From 2c7cec685f884957d2f2131b8e8766e921a97c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 01/67] fix: user info and introspection honour only tokens of
 a live grant

After a grant or client session was revoked its access tokens were still
accepted by the user info endpoint and reported active by introspection.
---
 src/oidcop/oauth2/introspection.py | 2 +-
 src/oidcop/oidc/userinfo.py        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index c298c12..8c0610f 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -30,7 +30,7 @@ class Introspection(Endpoint):
         if token.token_class not in ["access_token", "refresh_token"]:
             return None
 
-        if not token.is_active():
+        if not token.is_active() or not grant.is_active():
             return None
 
         scope = token.scope
diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 6e6ce97..83fdc77 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -121,8 +121,8 @@ class UserInfo(Endpoint):
         if token and token.token_class != "access_token":
             return self.error_cls(error="invalid_token", error_description="Wrong type of token")
 
-        # And it should be valid
-        if token.is_active() is False:
+        # And it, as well as the grant it belongs to, should be valid
+        if token is None or token.is_active() is False or _grant.is_active() is False:
             return self.error_cls(error="invalid_token", error_description="Invalid Token")
 
         allowed = True
-- 
2.43.0


From 366a2e745e2fa76f82488e963c3d9294d893cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:24 +0000
Subject: [PATCH 02/67] fix: introspection answers inactive for expired and
 unknown tokens

An expired JWT access token (ToOld), a token of a session that is gone or a
token the grant does not know made the endpoint raise instead.
---
 src/oidcop/oauth2/introspection.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index 8c0610f..bfd4e9b 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -5,8 +5,8 @@ from typing import Optional
 from oidcmsg import oauth2
 
 from oidcop.endpoint import Endpoint
-from oidcop.token.exception import UnknownToken
-from oidcop.token.exception import WrongTokenClass
+from oidcop.exception import ToOld
+from oidcop.token.exception import TokenException
 
 LOGGER = logging.getLogger(__name__)
 
@@ -95,11 +95,13 @@ class Introspection(Endpoint):
             _session_info = _context.session_manager.get_session_info_by_token(
                 request_token, grant=True
             )
-        except (UnknownToken, WrongTokenClass):
+        except (KeyError, ValueError, TokenException, ToOld):
             return {"response_args": _resp}
 
         grant = _session_info["grant"]
         _token = grant.get_token(request_token)
+        if _token is None:
+            return {"response_args": _resp}
 
         _info = self._introspect(_token, _session_info["client_id"], _session_info["grant"])
         if _info is None:
-- 
2.43.0


From 98f445b94817491d5d7651e40f259a807319e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 03/67] fix: logging out everywhere ends every client session
 of the user

logout_all_clients only revoked sessions with clients that registered a
logout URI and had been given an ID token; all others stayed alive.
---
 src/oidcop/oidc/session.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 79a7f9d..b41332a 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -165,7 +165,6 @@ class Session(Endpoint):
 
         bc_logouts = {}
         fc_iframes = {}
-        _rel_sid = []
         for _client_id in _session_info["user_session_info"].subordinate:
             # I prefer back-channel. Should it be configurable ?
             if "backchannel_logout_uri" in _cdb[_client_id]:
@@ -177,7 +176,6 @@ class Session(Endpoint):
                         continue
                     idt = grant.last_issued_token_of_type("id_token")
                     if idt:
-                        _rel_sid.append(idt.session_id)
                         _spec = self.do_back_channel_logout(_cdb[_client_id], idt.session_id)
                         if _spec:
                             bc_logouts[_client_id] = _spec
@@ -191,7 +189,6 @@ class Session(Endpoint):
                         continue
                     idt = grant.last_issued_token_of_type("id_token")
                     if idt:
-                        _rel_sid.append(idt.session_id)
                         # Construct an IFrame
                         _spec = do_front_channel_logout_iframe(
                             _cdb[_client_id], _iss, idt.session_id
@@ -200,7 +197,13 @@ class Session(Endpoint):
                             fc_iframes[_client_id] = _spec
                         break
 
-        self.clean_sessions(_rel_sid)
+        # No session of this user survives, whether its client could be notified or not
+        self.clean_sessions(
+            [
+                _mngr.encrypted_session_id(_user_id, _client_id)
+                for _client_id in _session_info["user_session_info"].subordinate
+            ]
+        )
 
         res = {}
         if bc_logouts:
-- 
2.43.0


From d18d7d4f9a69d2a6951edbbd70d03ded5c583c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 04/67] fix: back-channel logout of clients whose information
 lacks client_id

Client information of statically configured clients has no client_id member;
logging such a client out over the back channel raised KeyError.
---
 src/oidcop/oidc/session.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index b41332a..083a6b3 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -107,11 +107,12 @@ class Session(Endpoint):
         ctx, tag = split_ctx_and_tag(_msg)
         return as_unicode(encrypter.decrypt(as_bytes(ctx), iv=self.iv, tag=as_bytes(tag)))
 
-    def do_back_channel_logout(self, cinfo, sid):
+    def do_back_channel_logout(self, cinfo, sid, client_id=""):
         """
 
         :param cinfo: Client information
         :param sid: The session ID
+        :param client_id: The client ID, needed if the client information does not contain it
         :return: Tuple with logout URI and signed logout token
         """
 
@@ -137,7 +138,7 @@ class Session(Endpoint):
 
         _jws = JWT(_context.keyjar, iss=_context.issuer, lifetime=86400, sign_alg=alg)
         _jws.with_jti = True
-        _logout_token = _jws.pack(payload=payload, recv=cinfo["client_id"])
+        _logout_token = _jws.pack(payload=payload, recv=client_id or cinfo["client_id"])
 
         return back_channel_logout_uri, _logout_token
 
@@ -176,7 +177,9 @@ class Session(Endpoint):
                         continue
                     idt = grant.last_issued_token_of_type("id_token")
                     if idt:
-                        _spec = self.do_back_channel_logout(_cdb[_client_id], idt.session_id)
+                        _spec = self.do_back_channel_logout(
+                            _cdb[_client_id], idt.session_id, _client_id
+                        )
                         if _spec:
                             bc_logouts[_client_id] = _spec
                         break
@@ -234,7 +237,7 @@ class Session(Endpoint):
 
         res = {}
         if "backchannel_logout_uri" in _cdb[_client_id]:
-            _spec = self.do_back_channel_logout(_cdb[_client_id], sid)
+            _spec = self.do_back_channel_logout(_cdb[_client_id], sid, _client_id)
             if _spec:
                 res["blu"] = {_client_id: _spec}
         elif "frontchannel_logout_uri" in _cdb[_client_id]:
-- 
2.43.0


From f1f5c7089a9a611209fa629ac4b1fb25ccc79542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 05/67] fix: an unreachable client does not keep others from
 being logged out

An exception while posting a logout token ended do_verified_logout, so the
remaining clients and the front-channel frames were never notified.
---
 src/oidcop/oidc/session.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 083a6b3..2c6ccb4 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -414,12 +414,17 @@ class Session(Endpoint):
                 _url, sjwt = spec
                 logger.info("logging out from {} at {}".format(_cid, _url))
 
-                res = _context.httpc.post(
-                    _url,
-                    data="logout_token={}".format(sjwt),
-                    headers={"Content-Type": "application/x-www-form-urlencoded"},
-                    **_context.httpc_params,
-                )
+                try:
+                    res = _context.httpc.post(
+                        _url,
+                        data="logout_token={}".format(sjwt),
+                        headers={"Content-Type": "application/x-www-form-urlencoded"},
+                        **_context.httpc_params,
+                    )
+                except Exception as err:
+                    # One client that can't be reached must not keep the others from being told
+                    logger.error("failed to reach {}: {}".format(_cid, err))
+                    continue
 
                 if res.status_code < 300:
                     logger.info("Logged out from {}".format(_cid))
-- 
2.43.0


From a4f0a325ab7bbe790f27f15af36eccb908947250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 06/67] fix: redirect URIs are compared as they are given

verify_uri compared the percent-decoded URI with the registered ones, so
https://rp/c%62 or https://rp/%63b was accepted although it is not the
registered URI; an empty fragment (https://rp/cb#) was accepted as well.
---
 src/oidcop/oauth2/authorization.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 86b7ce8..65c3224 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -3,9 +3,7 @@ import logging
 from typing import List
 from typing import Optional
 from typing import Union
-from urllib.parse import unquote
 from urllib.parse import urlencode
-from urllib.parse import urlparse
 
 from cryptojwt import BadSyntax
 from cryptojwt import as_unicode
@@ -116,13 +114,11 @@ def verify_uri(
     if _uri is None:
         raise ValueError(f"Wrong uri_type: {uri_type}")
 
-    _redirect_uri = unquote(_uri)
-
-    part = urlparse(_redirect_uri)
-    if part.fragment:
+    # The URI is what will be redirected to, so it must be compared as it is
+    if "#" in _uri:
         raise URIError("Contains fragment")
 
-    (_base, _query) = split_uri(_redirect_uri)
+    (_base, _query) = split_uri(_uri)
 
     # Get the clients registered redirect uris
     client_info = endpoint_context.cdb.get(_cid)
-- 
2.43.0


From e41508d25f23d89d0938df574c157f4a12ce0726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 07/67] fix: the query of a redirect URI must be exactly a
 registered one

verify_uri ignored parameters without value (https://rp/cb?x), accepted repeated
values, and gave up at the first registered URI with the same base even if a
later one has the very query of the request.
---
 src/oidcop/oauth2/authorization.py | 47 +++++++++++++-----------------
 src/oidcop/util.py                 |  2 +-
 2 files changed, 21 insertions(+), 28 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 65c3224..362213c 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -87,6 +87,18 @@ def max_age(request):
     return request.get(verified_request, {}).get("max_age") or request.get("max_age", 0)
 
 
+def _same_query(query, registered):
+    """
+    :param query: The query part of a URI, as dictionary of lists
+    :param registered: The query part of a registered URI, ditto
+    :return: True if they contain the same parameters with the same values
+    """
+    query, registered = query or {}, registered or {}
+    return set(query) == set(registered) and all(
+        sorted(vals) == sorted(registered[key]) for key, vals in query.items()
+    )
+
+
 def verify_uri(
     endpoint_context: EndpointContext,
     request: Union[dict, Message],
@@ -130,7 +142,7 @@ def verify_uri(
     if redirect_uris is None:
         raise RedirectURIError(f"No registered {uri_type} for {_cid}")
     else:
-        match = False
+        match = query_mismatch = False
         for _item in redirect_uris:
             if isinstance(_item, str):
                 regbase = _item
@@ -141,32 +153,13 @@ def verify_uri(
             # The URI MUST exactly match one of the Redirection URI
             if _base == regbase:
                 # every registered query component must exist in the uri
-                if rquery:
-                    if not _query:
-                        raise ValueError("Missing query part")
-
-                    for key, vals in rquery.items():
-                        if key not in _query:
-                            raise ValueError('"{}" not in query part'.format(key))
-
-                        for val in vals:
-                            if val not in _query[key]:
-                                raise ValueError("{}={} value not in query part".format(key, val))
-
-                # and vice versa, every query component in the uri
-                # must be registered
-                if _query:
-                    if not rquery:
-                        raise ValueError("No registered query part")
-
-                    for key, vals in _query.items():
-                        if key not in rquery:
-                            raise ValueError('"{}" extra in query part'.format(key))
-                        for val in vals:
-                            if val not in rquery[key]:
-                                raise ValueError("Extra {}={} value in query part".format(key, val))
-                match = True
-                break
+                # and vice versa, every query component in the uri must be registered
+                if _same_query(_query, rquery):
+                    match = True
+                    break
+                query_mismatch = True
+        if not match and query_mismatch:
+            raise ValueError("Query part doesn't match the registered one")
         if not match:
             raise RedirectURIError("Doesn't match any registered uris")
 
diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index 5800405..420527c 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -190,7 +190,7 @@ def split_uri(uri):
     if p.query:
         o = p._replace(query="")
         base = urlunsplit(o)
-        return base, parse_qs(p.query)
+        return base, parse_qs(p.query, keep_blank_values=True)
     else:
         base = urlunsplit(p)
         return base, ""
-- 
2.43.0


From 56bc0ac04dc9188dc0d5727134bcd7f58a46fd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 08/67] fix: redirect URIs with white space or control
 characters are refused

urlsplit drops tabs, newlines and leading control characters, so such a URI was
taken for the registered one and then used, newline included, in the redirect.
---
 src/oidcop/oauth2/authorization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 362213c..3169975 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -130,6 +130,10 @@ def verify_uri(
     if "#" in _uri:
         raise URIError("Contains fragment")
 
+    # Would be dropped when the URI is split
+    if any(chr(c) in _uri for c in range(33)):
+        raise URIError("Contains white space or control characters")
+
     (_base, _query) = split_uri(_uri)
 
     # Get the clients registered redirect uris
-- 
2.43.0


From 8f834ec1bb752a9f8e6004fb99e6445a81cd1fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 09/67] fix: only ID tokens issued by this provider are
 accepted as ID token hints at logout

---
 src/oidcop/oidc/session.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 2c6ccb4..8bacf14 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -299,6 +299,10 @@ class Session(Endpoint):
             _id_token = request[verified_claim_name("id_token_hint")]
             logger.debug("ID token hint: {}".format(_id_token))
 
+            # A client can sign a JWT too, but only what this provider issued is an ID token hint
+            if _id_token["iss"] != _context.issuer:
+                raise ValueError("Not issued by this provider")
+
             _aud = _id_token["aud"]
             if _session_info["client_id"] not in _aud:
                 raise ValueError("Client ID doesn't match")
-- 
2.43.0


From 3ee8575249f8b82fd4987326d9ee4b77449f965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 10/67] fix: a logout request that names another client than
 the one with the session is refused

---
 src/oidcop/oidc/session.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 8bacf14..a758061 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -295,6 +295,11 @@ class Session(Endpoint):
             logger.debug("No relevant cookie")
             raise ValueError("Missing cookie")
 
+        # The post logout redirect URI must be one of the client that has this session
+        _client_id = _session_info["client_id"]
+        if "client_id" in request and request["client_id"] != _client_id:
+            raise ValueError("Client ID doesn't match")
+
         if "id_token_hint" in request and _session_info:
             _id_token = request[verified_claim_name("id_token_hint")]
             logger.debug("ID token hint: {}".format(_id_token))
-- 
2.43.0


From 3d021729bcfec65257dacc54993dc5eed3a372f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 11/67] fix: the state is added to a post logout redirect URI
 that already has a query

---
 src/oidcop/oidc/session.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index a758061..d88a11d 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -345,7 +345,9 @@ class Session(Endpoint):
 
         # redirect user to OP logout verification page
         if plur and "state" in request:
-            _uri = "{}?{}".format(_uri, urlencode({"state": request["state"]}))
+            _uri = "{}{}{}".format(
+                _uri, "&" if "?" in _uri else "?", urlencode({"state": request["state"]})
+            )
             payload["state"] = request["state"]
 
         payload["redirect_uri"] = _uri
-- 
2.43.0


From e6e453932701da4d7031aeae45ea920b80e84bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:34 +0000
Subject: [PATCH 12/67] fix: cookie values that contain the separators can be
 read back

---
 src/oidcop/cookie_handler.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index cb8130e..923e857 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -6,6 +6,8 @@ import time
 from typing import List
 from typing import Optional
 from typing import Union
+from urllib.parse import quote
+from urllib.parse import unquote
 from urllib.parse import urlparse
 
 from cryptography.exceptions import InvalidTag
@@ -217,10 +219,10 @@ class CookieHandler:
         if not value and not typ:
             _cookie_value = ""
         else:
-            try:
-                cookie_payload = "::".join([value, typ])
-            except TypeError:
-                cookie_payload = "::".join([value[0], typ])
+            if not isinstance(value, str):
+                value = value[0]
+            # quoted, such that the separators can not appear in them
+            cookie_payload = "::".join([quote(value, safe=""), quote(typ, safe="")])
 
             _cookie_value = self._sign_enc_payload(cookie_payload, timestamp)
 
@@ -262,7 +264,9 @@ class CookieHandler:
                 if _content:
                     payload, timestamp = self._ver_dec_content(_cookie["value"].split("|"))
                     value, typ = payload.split("::")
-                    res.append({"value": value, "type": typ, "timestamp": timestamp})
+                    res.append(
+                        {"value": unquote(value), "type": unquote(typ), "timestamp": timestamp}
+                    )
                 else:
                     LOGGER.debug(f"Could not verify {name} cookie")
         return res
-- 
2.43.0


From 7266b3354f2a82ee943e2a20600c4ad57545d866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:34 +0000
Subject: [PATCH 13/67] fix: the boundary between value and time of a signed
 cookie is authenticated

---
 src/oidcop/cookie_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index 923e857..cef5b16 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -111,7 +111,7 @@ class CookieHandler:
 
         if self.sign_key:
             signer = HMACSigner(algorithm=self.sign_alg)
-            mac = signer.sign(bytes_load + bytes_timestamp, self.sign_key.key)
+            mac = signer.sign(bytes_load + b"|" + bytes_timestamp, self.sign_key.key)
         else:
             mac = b""
 
@@ -156,7 +156,7 @@ class CookieHandler:
             mac = base64.b64decode(b64_mac)
             verifier = HMACSigner(algorithm=self.sign_alg)
             if verifier.verify(
-                    payload.encode("utf-8") + timestamp.encode("utf-8"),
+                    payload.encode("utf-8") + b"|" + timestamp.encode("utf-8"),
                     mac,
                     self.sign_key.key,
             ):
@@ -181,7 +181,7 @@ class CookieHandler:
             if len(p) == 3:
                 verifier = HMACSigner(algorithm=self.sign_alg)
                 if verifier.verify(
-                        payload.encode("utf-8") + timestamp.encode("utf-8"),
+                        payload.encode("utf-8") + b"|" + timestamp.encode("utf-8"),
                         base64.b64decode(p[2]),
                         self.sign_key.key,
                 ):
-- 
2.43.0


From 695e756529cc0d6e3832b0730bd59dccf9de01d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 14/67] fix: a grant is stored under its own path after minting

---
 src/oidcop/oauth2/authorization.py | 2 +-
 src/oidcop/oauth2/token.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 3169975..01ab1db 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -337,7 +337,7 @@ class Authorization(Endpoint):
             token.expires_at = utc_time_sans_frac() + _exp_in
 
         _mngr = self.server_get("endpoint_context").session_manager
-        _mngr.set(_mngr.unpack_session_key(session_id), grant)
+        _mngr[session_id] = grant
 
         return token
 
diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index bfee6df..b1279a9 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -91,7 +91,7 @@ class TokenEndpointHelper(object):
             if _exp_in:
                 token.expires_at = utc_time_sans_frac() + _exp_in
 
-        _context.session_manager.set(_context.session_manager.unpack_session_key(session_id), grant)
+        _context.session_manager[session_id] = grant
 
         return token
 
-- 
2.43.0


From 656f65b88aec921b39810efaece87ab1d5f9437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 15/67] fix: deleting from the session store removes exactly
 what is below the path

---
 src/oidcop/session/database.py | 60 +++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 8f4e79e..03478e1 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -126,46 +126,68 @@ class Database(ImpExp):
                 raise NoSuchGrant(grant_id)
 
     def delete(self, path: List[str]):
+        """
+        Removes what is stored under a path and everything below that. A client or user
+        session that has nothing below it anymore is also removed.
+
+        :param path: a list of identifiers
+        """
         uid, client_id, grant_id = self._eval_path(path)
 
         if uid not in self.db:
             return
-        elif not client_id:
-            self.db.__delitem__(uid)
-            return
 
         _user_info = self.db[uid]
-        skey_uid_client = self.session_key(uid, client_id)
-        skey_uid_client_grant = self.session_key(uid, client_id, grant_id or "")
+
+        if not client_id:
+            for _client_id in list(_user_info.subordinate):
+                self._delete_below_client(uid, _client_id)
+                _skey = self.session_key(uid, _client_id)
+                if _skey in self.db:
+                    self.db.__delitem__(_skey)
+            self.db.__delitem__(uid)
+            return
 
         if client_id not in _user_info.subordinate:
-            self.db.__delitem__(client_id)
             return
 
-        elif skey_uid_client in self.db:
-            _client_info = self.db[skey_uid_client]
-            if grant_id:
-                if skey_uid_client_grant in self.db:
-                    self.db.__delitem__(skey_uid_client_grant)
-                if grant_id in _client_info.subordinate:
-                    _client_info.subordinate.remove(grant_id)
-            else:
-                for grant_id in _client_info.subordinate:
-                    if skey_uid_client_grant in self.db:
-                        self.db.__delitem__(skey_uid_client_grant)
-                _client_info.subordinate = []
+        skey_uid_client = self.session_key(uid, client_id)
+        if skey_uid_client in self.db:
+            if grant_id and grant_id not in self.db[skey_uid_client].subordinate:
+                return
+
+            _client_info = self._delete_below_client(uid, client_id, grant_id)
 
             if len(_client_info.subordinate) == 0:
                 self.db.__delitem__(skey_uid_client)
                 _user_info.subordinate.remove(client_id)
             else:
-                self.db[client_id] = _client_info
+                self.db[skey_uid_client] = _client_info
 
         if len(_user_info.subordinate) == 0:
             self.db.__delitem__(uid)
         else:
             self.db[uid] = _user_info
 
+    def _delete_below_client(self, uid: str, client_id: str, grant_id: Optional[str] = None):
+        """
+        Removes one or all of the grants of a client session
+
+        :return: The client session information, or None if there is none
+        """
+        _client_info = self.db.get(self.session_key(uid, client_id))
+        if _client_info is None:
+            return None
+
+        for _grant_id in [grant_id] if grant_id else list(_client_info.subordinate):
+            _skey = self.session_key(uid, client_id, _grant_id)
+            if _skey in self.db:
+                self.db.__delitem__(_skey)
+            if _grant_id in _client_info.subordinate:
+                _client_info.subordinate.remove(_grant_id)
+
+        return _client_info
+
     def update(self, path: List[str], new_info: dict):
         _info = self.get(path)
         for key, val in new_info.items():
-- 
2.43.0


From 1c171c92162e7a2d1483365cb909602e7a1f9d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 16/67] fix: identifiers that contain the divider do not get
 mixed up in the session store

---
 src/oidcop/session/database.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 03478e1..53c3beb 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -82,17 +82,17 @@ class Database(ImpExp):
                 cid_info.add_subordinate(grant_id)
                 self.db[cid_key] = cid_info
 
-        userinfo = self.db.get(uid, UserSessionInfo())
+        userinfo = self.db.get(self.session_key(uid), UserSessionInfo())
         if client_id is None:
-            self.db[uid] = value
+            self.db[self.session_key(uid)] = value
         if client_id and client_id not in userinfo.subordinate:
             userinfo.add_subordinate(client_id)
-            self.db[uid] = userinfo
+            self.db[self.session_key(uid)] = userinfo
 
     def get(self, path: List[str]) -> Union[SessionInfo, Grant]:
         uid, client_id, grant_id = self._eval_path(path)
         try:
-            user_info = self.db[uid]
+            user_info = self.db[self.session_key(uid)]
         except KeyError:
             raise KeyError("No such UserID")
         except TypeError:
@@ -134,10 +134,10 @@ class Database(ImpExp):
         """
         uid, client_id, grant_id = self._eval_path(path)
 
-        if uid not in self.db:
+        if self.session_key(uid) not in self.db:
             return
 
-        _user_info = self.db[uid]
+        _user_info = self.db[self.session_key(uid)]
 
         if not client_id:
             for _client_id in list(_user_info.subordinate):
@@ -145,7 +145,7 @@ class Database(ImpExp):
                 _skey = self.session_key(uid, _client_id)
                 if _skey in self.db:
                     self.db.__delitem__(_skey)
-            self.db.__delitem__(uid)
+            self.db.__delitem__(self.session_key(uid))
             return
 
         if client_id not in _user_info.subordinate:
@@ -165,9 +165,9 @@ class Database(ImpExp):
                 self.db[skey_uid_client] = _client_info
 
         if len(_user_info.subordinate) == 0:
-            self.db.__delitem__(uid)
+            self.db.__delitem__(self.session_key(uid))
         else:
-            self.db[uid] = _user_info
+            self.db[self.session_key(uid)] = _user_info
 
     def _delete_below_client(self, uid: str, client_id: str, grant_id: Optional[str] = None):
         """
@@ -195,10 +195,11 @@ class Database(ImpExp):
         self.set(path, _info)
 
     def session_key(self, *args):
-        return DIVIDER.join(args)
+        # The divider must not appear in the parts
+        return DIVIDER.join([a.replace("%", "%25").replace(";", "%3B") for a in args])
 
     def unpack_session_key(self, key):
-        return key.split(DIVIDER)
+        return [a.replace("%3B", ";").replace("%25", "%") for a in key.split(DIVIDER)]
 
     def encrypted_session_id(self, *args) -> str:
         rnd = rndstr(32)
-- 
2.43.0


From f9e34a84ecddf714e8d635f232862f2ca180d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 17/67] fix: packed values may start or end with white space

---
 src/oidcop/util.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index 420527c..5b2937c 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -131,7 +131,6 @@ def lv_unpack(txt):
     :param txt: The input string
     :return: a list og values
     """
-    txt = txt.strip()
     res = []
     while txt:
         l, v = txt.split(":", 1)
-- 
2.43.0


From e878f180ff8e1c2f8f9aec598340c18f209a880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 18/67] fix: identifiers that end with white space survive in
 session IDs

---
 src/oidcop/session/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 53c3beb..b2d668d 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -203,8 +203,9 @@ class Database(ImpExp):
 
     def encrypted_session_id(self, *args) -> str:
         rnd = rndstr(32)
+        # Ends with an empty value, white space at the end would not survive the encryption
         return base64.b64encode(
-            self.crypt.encrypt(lv_pack(rnd, self.session_key(*args)).encode())
+            self.crypt.encrypt(lv_pack(rnd, self.session_key(*args), "").encode())
         ).decode("utf-8")
 
     def decrypt_session_id(self, key: str) -> List[str]:
-- 
2.43.0


From 3cb185fe763cf8785d5e10772b164b2e28484e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:18 +0000
Subject: [PATCH 19/67] fix: an opaque token keeps the token class it is asked
 for

---
 src/oidcop/token/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/token/__init__.py b/src/oidcop/token/__init__.py
index b1de26f..32635bd 100755
--- a/src/oidcop/token/__init__.py
+++ b/src/oidcop/token/__init__.py
@@ -90,10 +90,11 @@ class DefaultToken(Token):
         :param payload: Token information
         :return:
         """
-        if not token_class and self.token_class:
-            token_class = self.token_class
-        else:
-            token_class = "authorization_code"
+        if not token_class:
+            if self.token_class:
+                token_class = self.token_class
+            else:
+                token_class = "authorization_code"
 
         if self.lifetime >= 0:
             exp = str(utc_time_sans_frac() + self.lifetime)
-- 
2.43.0


From 8bb3ab50ba50140dbfe74ca8c1b7d51ba0072398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:41 +0000
Subject: [PATCH 20/67] fix: the usage rules of a grant are not those of the
 client configuration itself

---
 src/oidcop/authz/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcop/authz/__init__.py b/src/oidcop/authz/__init__.py
index 72b6979..d8e94b9 100755
--- a/src/oidcop/authz/__init__.py
+++ b/src/oidcop/authz/__init__.py
@@ -34,6 +34,7 @@ class AuthzHandling(object):
         except KeyError:
             pass
         else:
+            _per_client = copy.deepcopy(_per_client)
             if _usage_rules:
                 for _token_type, _rule in _usage_rules.items():
                     _pc = _per_client.get(_token_type)
-- 
2.43.0


From 356f4b5617c248694c16fa044489841215c661d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:41 +0000
Subject: [PATCH 21/67] fix: the default usage rules are not changed by the
 rules of a grant

---
 src/oidcop/session/grant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index a7c6f8d..3c3b000 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -427,7 +427,7 @@ def get_usage_rules(token_type, endpoint_context, grant, client_id):
 
     _usage = endpoint_context.authz.usage_rules_for(client_id, token_type)
     if not _usage:
-        _usage = DEFAULT_USAGE[token_type]
+        _usage = DEFAULT_USAGE[token_type].copy()
 
     _grant_usage = grant.usage_rules.get(token_type)
     if _grant_usage:
-- 
2.43.0


From e426b117860c7b48771e2cf00b676e0fd6e45cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:22 +0000
Subject: [PATCH 22/67] fix: a claims request without value or values matches
 any value

---
 src/oidcop/session/claims.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index bcea058..07489da 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -254,7 +254,7 @@ def claims_match(value: Union[str, int], claimspec: Optional[dict]) -> bool:
             break
 
     if matched is False:
-        if list(claimspec.keys()) == ["essential"]:
+        if "value" not in claimspec and "values" not in claimspec:  # No restriction
             return True
 
     return matched
-- 
2.43.0


From a80bb0101e076e62d9ace2abf66cef68f45a5e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:22 +0000
Subject: [PATCH 23/67] fix: working out the claims for a client does not
 change its configuration

---
 src/oidcop/session/claims.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index 07489da..6aafbe1 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -82,7 +82,7 @@ class ClaimsInterface:
         _always_add = add_claims_always.get(claims_release_point, [])
         if secondary_identifier:
             _always_2 = add_claims_always.get(secondary_identifier, [])
-            _always_add.extend(_always_2)
+            _always_add = list(_always_add) + list(_always_2)
 
         return _claims_by_scope, _always_add
 
-- 
2.43.0


From f782f9f6e56c8c559fd8942d275acaa4fa92a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:22 +0000
Subject: [PATCH 24/67] fix: user claims do not replace the subject and other
 members of a token

---
 src/oidcop/session/grant.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index 3c3b000..0dc3605 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -237,7 +237,8 @@ class Grant(Item):
         )
         user_id, _, _ = endpoint_context.session_manager.decrypt_session_id(session_id)
         user_info = endpoint_context.claims_interface.get_user_claims(user_id, _claims_restriction)
-        payload.update(user_info)
+        # Claims about the user must not replace what the token says about itself
+        payload.update({k: v for k, v in user_info.items() if k not in payload})
 
         # Should I add the acr value
         if self.add_acr_value(claims_release_point):
-- 
2.43.0


From 5f25569c8013d4d7dbafa395a8280b23dcb8c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:22 +0000
Subject: [PATCH 25/67] fix: user claims do not replace the hashes and session
 ID of an ID token

---
 src/oidcop/token/id_token.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index e8555ef..42b6d07 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -181,7 +181,19 @@ class IDToken(Token):
                 pass
 
             # Make sure that there are no name clashes
-            for key in ["iss", "sub", "aud", "exp", "acr", "nonce", "auth_time"]:
+            for key in [
+                "iss",
+                "sub",
+                "aud",
+                "exp",
+                "iat",
+                "acr",
+                "nonce",
+                "auth_time",
+                "sid",
+                "c_hash",
+                "at_hash",
+            ]:
                 try:
                     del user_info[key]
                 except KeyError:
-- 
2.43.0


From e6c4e9aa9fbf8dcd5e7edb8a7e4c4584b7eedab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:22 +0000
Subject: [PATCH 26/67] fix: user claims do not replace what introspection says
 about the token

---
 src/oidcop/oauth2/introspection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index bfd4e9b..4f79de1 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -123,7 +123,8 @@ class Introspection(Endpoint):
                 _session_info["user_id"], _claims_restriction
             )
             if user_info:
-                _resp.update(user_info)
+                # Claims about the user must not replace what is known about the token
+                _resp.update({k: v for k, v in user_info.items() if k not in _resp})
 
         _resp["active"] = True
 
-- 
2.43.0


From d0d96328b97a4dd76e3aaef86ffa3a9c4a718407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:18 +0000
Subject: [PATCH 27/67] fix: a client configured not to get claims by scope
 does not get them

---
 src/oidcop/session/claims.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index 6aafbe1..24089b7 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -68,13 +68,15 @@ class ClaimsInterface:
     ):
         _context = self.server_get("endpoint_context")
         add_claims_by_scope = _context.cdb[client_id].get("add_claims", {}).get("by_scope", {})
-        if add_claims_by_scope:
-            _claims_by_scope = add_claims_by_scope.get(claims_release_point, False)
-            if not _claims_by_scope and secondary_identifier:
-                _claims_by_scope = add_claims_by_scope.get(secondary_identifier, False)
-
-            if not _claims_by_scope:
-                _claims_by_scope = module.kwargs.get("add_claims_by_scope", {})
+        # What is configured for the client, that includes False, goes before what is
+        # configured for the module
+        _by_scope = [
+            add_claims_by_scope[point]
+            for point in (claims_release_point, secondary_identifier)
+            if point in add_claims_by_scope
+        ]
+        if _by_scope:
+            _claims_by_scope = any(_by_scope)
         else:
             _claims_by_scope = module.kwargs.get("add_claims_by_scope", {})
 
-- 
2.43.0


From 8e3cc49bdf11f540e97fcca8fe4b4965ca6922b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:18 +0000
Subject: [PATCH 28/67] fix: the claims always released to a client may be a
 dictionary in more than one place

---
 src/oidcop/session/claims.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index 24089b7..a9e7d28 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -81,10 +81,12 @@ class ClaimsInterface:
             _claims_by_scope = module.kwargs.get("add_claims_by_scope", {})
 
         add_claims_always = _context.cdb[client_id].get("add_claims", {}).get("always", {})
-        _always_add = add_claims_always.get(claims_release_point, [])
-        if secondary_identifier:
-            _always_2 = add_claims_always.get(secondary_identifier, [])
-            _always_add = list(_always_add) + list(_always_2)
+        _always_add = {}
+        for point in (claims_release_point, secondary_identifier):
+            _add = add_claims_always.get(point, [])
+            if isinstance(_add, list):
+                _add = {k: None for k in _add}
+            _always_add.update(_add)
 
         return _claims_by_scope, _always_add
 
-- 
2.43.0


From 1998aef2f8d02f5186dbe9f834a0cbdf335b8824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:38 +0000
Subject: [PATCH 29/67] fix: user claims are not mistaken for instructions to
 the token handler

---
 src/oidcop/session/grant.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index 0dc3605..843240c 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -99,6 +99,10 @@ def token_map_load(items: dict, **kwargs):
     return {k: importer(v) for k, v in items.items()}
 
 
+# What the token handlers are told beside the claims to place in a token
+HANDLER_ARGS = ["session_id", "ttype", "encrypt", "code", "access_token", "usage_rules"]
+
+
 class Grant(Item):
     parameter = Item.parameter.copy()
     parameter.update(
@@ -238,7 +242,9 @@ class Grant(Item):
         user_id, _, _ = endpoint_context.session_manager.decrypt_session_id(session_id)
         user_info = endpoint_context.claims_interface.get_user_claims(user_id, _claims_restriction)
         # Claims about the user must not replace what the token says about itself
-        payload.update({k: v for k, v in user_info.items() if k not in payload})
+        payload.update(
+            {k: v for k, v in user_info.items() if k not in payload and k not in HANDLER_ARGS}
+        )
 
         # Should I add the acr value
         if self.add_acr_value(claims_release_point):
-- 
2.43.0


From ce858f9cc914c67fefb41cea359369b9ab142a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:54 +0000
Subject: [PATCH 30/67] fix: values placed in the auto-submitted form are
 escaped

---
 src/oidcop/oauth2/authorization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 01ab1db..f6c6e48 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -1,5 +1,6 @@
 import json
 import logging
+from html import escape
 from typing import List
 from typing import Optional
 from typing import Union
@@ -78,7 +79,7 @@ def inputs(form_args):
     for name, value in form_args.items():
         if name == "scope" and isinstance(value, list):
             value = " ".join(value)
-        element.append(html_field.format(name, value))
+        element.append(html_field.format(escape(str(name)), escape(str(value))))
     return "\n".join(element)
 
 
@@ -670,7 +671,7 @@ class Authorization(Endpoint):
                 if "return_type" in _args:
                     del _args["return_type"]
 
-            msg = FORM_POST.format(inputs=inputs(_args), action=return_uri)
+            msg = FORM_POST.format(inputs=inputs(_args), action=escape(return_uri))
             kwargs.update(
                 {
                     "response_msg": msg,
-- 
2.43.0


From bd6356caca8a3c0c56f995e4f8d48d9a6e76840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:54 +0000
Subject: [PATCH 31/67] fix: a front-channel logout URI can not add markup to
 the logout page

---
 src/oidcop/oidc/session.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index d88a11d..f209d44 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -1,5 +1,6 @@
 import json
 import logging
+from html import escape
 from typing import Optional
 from typing import Union
 from urllib.parse import parse_qs
@@ -64,11 +65,11 @@ def do_front_channel_logout_iframe(cinfo, iss, sid):
             frontchannel_logout_uri = _np.geturl()
 
         logger.debug(f"IFrame query: {_query}")
-        _iframe = '<iframe src="{}?{}">'.format(
-            frontchannel_logout_uri, urlencode(_query, doseq=True)
+        _iframe = '<iframe src="{}">'.format(
+            escape("{}?{}".format(frontchannel_logout_uri, urlencode(_query, doseq=True)))
         )
     else:
-        _iframe = '<iframe src="{}">'.format(frontchannel_logout_uri)
+        _iframe = '<iframe src="{}">'.format(escape(frontchannel_logout_uri))
 
     return _iframe
 
-- 
2.43.0


From fe418437c8a40e8fe99c7972bd402e327d4d7b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:20 +0000
Subject: [PATCH 32/67] fix: a reloaded grant keeps its identifier

---
 src/oidcop/session/grant.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index 843240c..f95474b 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -112,6 +112,7 @@ class Grant(Item):
             "authorization_request": AuthorizationRequest,
             "claims": {},
             "extra": {},
+            "id": "",
             "issued_token": [SessionToken],
             "resources": [],
             "scope": [],
@@ -142,6 +143,7 @@ class Grant(Item):
         token_map: Optional[dict] = None,
         sub: Optional[str] = "",
         extra: Optional[Dict[str, str]] = None,
+        id: Optional[str] = "",
     ):
         Item.__init__(
             self,
@@ -158,7 +160,7 @@ class Grant(Item):
         self.claims = claims or {}  # default is to not release any user information
         self.resources = resources or []
         self.issued_token = issued_token or []
-        self.id = uuid1().hex
+        self.id = id or uuid1().hex
         self.sub = sub
         self.extra = extra or {}
 
-- 
2.43.0


From b824f4ffd5604f571a94ab7db2f15eff147c413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:20 +0000
Subject: [PATCH 33/67] fix: a reloaded provider mints subject identifiers as
 configured

---
 src/oidcop/endpoint_context.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcop/endpoint_context.py b/src/oidcop/endpoint_context.py
index fd13539..22faa11 100755
--- a/src/oidcop/endpoint_context.py
+++ b/src/oidcop/endpoint_context.py
@@ -309,6 +309,12 @@ class EndpointContext(OidcContext):
                 else:
                     self._sub_func[key] = args["function"]
 
+    def local_load_adjustments(self, **kwargs):
+        # What stems from the configuration isn't stored with the session manager
+        if self.session_manager is not None:
+            self.session_manager.sub_func = self._sub_func
+            self.session_manager.userinfo = self.userinfo
+
     def create_providerinfo(self, capabilities):
         """
         Dynamically create the provider info response
-- 
2.43.0


From 346f798c12554dfbf2bbfcf96eb0d6eaeb5d5808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 34/67] fix: a session cookie for an unknown session is no
 authentication

---
 src/oidcop/oauth2/authorization.py |  3 +++
 src/oidcop/user_authn/user.py      | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index f6c6e48..d6d3a35 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -578,6 +578,9 @@ class Authorization(Endpoint):
                     except Revoked:
                         logger.debug("Authentication session revoked!!")
                         identity = None
+                    except (KeyError, ValueError):
+                        logger.debug("Unknown authentication session")
+                        identity = None
                     else:
                         logger.debug(f"Session info type: {_csi.__class__.__name__}")
                         if _csi.is_active() is False:
diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index 9e54e3a..0d9d230 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -107,9 +107,13 @@ class UserAuthnMethod(object):
             pass
         else:
             for val in cookie:
-                _info = json.loads(val["value"])
-                _info["timestamp"] = int(val["timestamp"])
-                session_id = _context.session_manager.decrypt_session_id(_info["sid"])
+                try:
+                    _info = json.loads(val["value"])
+                    _info["timestamp"] = int(val["timestamp"])
+                    session_id = _context.session_manager.decrypt_session_id(_info["sid"])
+                except (KeyError, TypeError, ValueError):
+                    logger.debug("Not a cookie that names a session")
+                    continue
                 logger.debug("cookie_info: session id={}".format(session_id))
                 # _, cid, _ = _context.session_manager.decrypt_session_id(_info["sid"])
                 if session_id[1] != client_id:
-- 
2.43.0


From e61c0b927e8f2d945eab4aa697bf42d967cba30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 35/67] fix: a user identifier that looks like base64 is a user
 identifier

---
 src/oidcop/oauth2/authorization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index d6d3a35..046baa6 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -511,6 +511,10 @@ class Authorization(Endpoint):
 
     def _unwrap_identity(self, identity):
         if isinstance(identity, dict):
+            if isinstance(identity["uid"], str):
+                # A user identifier, even if it looks like something that is base64 encoded
+                return identity
+
             try:
                 _id = b64d(as_bytes(identity["uid"]))
             except BadSyntax:
-- 
2.43.0


From 6a72a77fefc66464043adcf352cf41e81036112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 36/67] fix: prompt none, maximum age and grant state are
 honoured whatever session the cookie names

---
 src/oidcop/oauth2/authorization.py | 59 ++++++++++++++++++------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 046baa6..57866a4 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -84,8 +84,14 @@ def inputs(form_args):
 
 
 def max_age(request):
+    """
+    :return: The maximum authentication age asked for or None if there is no such limit
+    """
     verified_request = verified_claim_name("request")
-    return request.get(verified_request, {}).get("max_age") or request.get("max_age", 0)
+    _max_age = request.get(verified_request, {}).get("max_age")
+    if _max_age is None:
+        _max_age = request.get("max_age")
+    return _max_age
 
 
 def _same_query(query, registered):
@@ -524,6 +530,20 @@ class Authorization(Endpoint):
 
         return json.loads(as_unicode(_id))
 
+    def _demand_authentication(self, request, redirect_uri, authn, authn_args):
+        if "prompt" in request and "none" in request["prompt"]:
+            # Need to authenticate but not allowed
+            return self._login_required_error(redirect_uri, request)
+
+        return {"function": authn, "args": authn_args}
+
+    def _authentication_too_old(self, request, authn_event):
+        _max_age = max_age(request)
+        if _max_age is None:
+            return False
+
+        return utc_time_sans_frac() > authn_event["authn_time"] + int(_max_age)
+
     def setup_auth(
         self,
         request: Optional[Union[Message, dict]],
@@ -556,7 +576,7 @@ class Authorization(Endpoint):
             if "upm_answer" in request and request["upm_answer"] == "true":
                 _max_age = 0
             else:
-                _max_age = max_age(request)
+                _max_age = int(max_age(request) or 0)
             logger.debug(f"Max age: {_max_age}")
             identity, _ts = authn.authenticated_as(
                 client_id, cookie, authorization=_auth_info, max_age=_max_age
@@ -599,26 +619,19 @@ class Authorization(Endpoint):
             logger.info("No active authentication")
             logger.debug("Known clients: {}".format(list(_context.cdb.keys())))
 
-            if "prompt" in request and "none" in request["prompt"]:
-                # Need to authenticate but not allowed
-                return self._login_required_error(redirect_uri, request)
-            else:
-                return {"function": authn, "args": authn_args}
+            return self._demand_authentication(request, redirect_uri, authn, authn_args)
         else:
             logger.info(f"Active authentication: {identity}")
             if re_authenticate(request, authn):
                 # demand re-authentication
-                return {"function": authn, "args": authn_args}
+                return self._demand_authentication(request, redirect_uri, authn, authn_args)
             else:
                 # I got back a dictionary
                 user = identity["uid"]
                 if "req_user" in kwargs:
                     if user != kwargs["req_user"]:
                         logger.debug("Wanted to be someone else!")
-                        if "prompt" in request and "none" in request["prompt"]:
-                            return self._login_required_error(redirect_uri, request)
-                        else:
-                            return {"function": authn, "args": authn_args}
+                        return self._demand_authentication(request, redirect_uri, authn, authn_args)
 
                 if "sid" in identity:
                     _session_id = identity["sid"]
@@ -626,16 +639,20 @@ class Authorization(Endpoint):
                     # make sure the client is the same
                     _uid, _cid, _gid = _mngr.decrypt_session_id(_session_id)
                     if request["client_id"] != _cid:
-                        return {"function": authn, "args": authn_args}
+                        return self._demand_authentication(request, redirect_uri, authn, authn_args)
 
                     grant = _mngr[_session_id]
                     if grant.is_active() is False:
-                        return {"function": authn, "args": authn_args}
-                    elif request != grant.authorization_request:
-                        authn_event = _mngr.get_authentication_event(session_id=_session_id)
-                        if authn_event.is_valid() is False:  # if not valid, do new login
-                            return {"function": authn, "args": authn_args}
+                        return self._demand_authentication(request, redirect_uri, authn, authn_args)
 
+                    authn_event = _mngr.get_authentication_event(session_id=_session_id)
+                    # if not valid or too old, do new login
+                    if authn_event.is_valid() is False or self._authentication_too_old(
+                        request, authn_event
+                    ):
+                        return self._demand_authentication(request, redirect_uri, authn, authn_args)
+
+                    if request != grant.authorization_request:
                         # create new grant
                         _session_id = _mngr.create_grant(
                             authn_event=authn_event,
@@ -644,11 +661,7 @@ class Authorization(Endpoint):
                             client_id=request["client_id"],
                         )
 
-        if _session_id:
-            authn_event = _mngr.get_authentication_event(session_id=_session_id)
-            if authn_event.is_valid() is False:  # if not valid, do new login
-                return {"function": authn, "args": authn_args}
-        else:
+        if not _session_id:
             _session_id = self.create_session(request, identity["uid"], authn_class_ref, _ts, authn)
 
         return {"session_id": _session_id, "identity": identity, "user": user}
-- 
2.43.0


From 11561e7d052bd554a992391e70ca307f91f620da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:48 +0000
Subject: [PATCH 37/67] fix: an acr claim request without value asks for no
 particular class

---
 src/oidcop/user_authn/authn_context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/user_authn/authn_context.py b/src/oidcop/user_authn/authn_context.py
index 8aa94df..e439716 100755
--- a/src/oidcop/user_authn/authn_context.py
+++ b/src/oidcop/user_authn/authn_context.py
@@ -114,7 +114,9 @@ def _acr_claim(request):
         _id_token_claim = _claims.get("id_token")
         if _id_token_claim:
             _acr = _id_token_claim.get("acr")
-            if "value" in _acr:
+            if not _acr:
+                return None
+            elif "value" in _acr:
                 return [_acr["value"]]
             elif "values" in _acr:
                 return _acr["values"]
-- 
2.43.0


From 8c0c4219a2192df29c8d1a36554ccdb84ddb4ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:48 +0000
Subject: [PATCH 38/67] fix: no method for the requested context class is an
 error answer, not a failure

---
 src/oidcop/oauth2/authorization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 57866a4..3dbb628 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -565,6 +565,8 @@ class Authorization(Endpoint):
         """
 
         res = self.pick_authn_method(request, redirect_uri, acr, **kwargs)
+        if "error" in res:
+            return res
 
         authn = res["method"]
         authn_class_ref = res["acr"]
-- 
2.43.0


From 13b436dca41490abc6709375f23567a50bb230ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:09 +0000
Subject: [PATCH 39/67] fix: only accept login state that this provider signed

---
 src/oidcop/user_authn/user.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index 0d9d230..cb6e102 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -9,6 +9,8 @@ from urllib.parse import unquote
 import warnings
 
 from cryptography.hazmat.primitives.ciphers.aead import AESGCM
+from cryptojwt import as_unicode
+from cryptojwt.jws.jws import factory as jws_factory
 from cryptojwt.jwt import JWT
 from oidcmsg.time_util import utc_time_sans_frac
 
@@ -84,7 +86,12 @@ class UserAuthnMethod(object):
         raise NotImplementedError
 
     def unpack_token(self, token):
-        return verify_signed_jwt(token=token, keyjar=self.server_get("endpoint_context").keyjar)
+        _context = self.server_get("endpoint_context")
+        _info = verify_signed_jwt(token=token, keyjar=_context.keyjar)
+        # The key jar also contains the keys of the clients
+        if _info.get("iss") != _context.issuer:
+            raise FailedAuthentication("Not a token from this provider")
+        return _info
 
     def done(self, areq):
         """
@@ -131,6 +138,9 @@ def create_signed_jwt(issuer, keyjar, sign_alg="RS256", **kwargs):
 
 
 def verify_signed_jwt(token, keyjar, allowed_sign_algs=None):
+    if not jws_factory(token):
+        raise FailedAuthentication("Not a signed JWT")
+
     verifier = JWT(keyjar, allowed_sign_algs=allowed_sign_algs)
     return verifier.unpack(token)
 
-- 
2.43.0


From e0c14e2c6025c4332195be937d8c194e098e3c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:17 +0000
Subject: [PATCH 40/67] fix: HTTP Basic passwords may contain a colon

---
 src/oidcop/user_authn/user.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index cb6e102..ac16f27 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -237,7 +237,7 @@ class BasicAuthn(UserAuthnMethod):
         if authorization.startswith("Basic"):
             authorization = authorization[6:]
 
-        (user, pwd) = base64.b64decode(authorization).split(b":")
+        (user, pwd) = base64.b64decode(authorization).split(b":", 1)
         user = unquote(user.decode())
         self.verify_password(user, pwd.decode())
         res = {"uid": user}
@@ -266,7 +266,7 @@ class SymKeyAuthn(UserAuthnMethod):
         :param kwargs: extra key word arguments
         :return:
         """
-        (encmsg, iv) = base64.b64decode(authorization).split(b":")
+        (encmsg, iv) = base64.b64decode(authorization).split(b":", 1)
         try:
             aesgcm = AESGCM(self.symkey)
             user = aesgcm.decrypt(iv, encmsg, None)
-- 
2.43.0


From e435ab251fd1313d678f143c570617ecdb86400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:17 +0000
Subject: [PATCH 41/67] fix: a cookie does not replace the user that was
 authenticated

---
 src/oidcop/user_authn/user.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index ac16f27..fffbe63 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -131,6 +131,16 @@ class UserAuthnMethod(object):
                     return _info
         return {}
 
+    def session_of(self, user_id: str, cookie: List[dict], client_id: str) -> dict:
+        """
+        :return: Information about the session a cookie points at if it is a session of this user
+        """
+        _info = self.cookie_info(cookie, client_id)
+        if _info and _info["uid"] != as_unicode(user_id):
+            logger.debug("The cookie belongs to another user")
+            return {}
+        return _info
+
 
 def create_signed_jwt(issuer, keyjar, sign_alg="RS256", **kwargs):
     signer = JWT(keyjar, iss=issuer, sign_alg=sign_alg)
@@ -242,7 +252,7 @@ class BasicAuthn(UserAuthnMethod):
         self.verify_password(user, pwd.decode())
         res = {"uid": user}
         if cookie:
-            res.update(self.cookie_info(cookie, client_id))
+            res.update(self.session_of(res["uid"], cookie, client_id))
         return res, utc_time_sans_frac()
 
 
@@ -266,7 +276,7 @@ class SymKeyAuthn(UserAuthnMethod):
         :param kwargs: extra key word arguments
         :return:
         """
-        (encmsg, iv) = base64.b64decode(authorization).split(b":", 1)
+        (encmsg, iv) = base64.b64decode(authorization).split(b":")
         try:
             aesgcm = AESGCM(self.symkey)
             user = aesgcm.decrypt(iv, encmsg, None)
@@ -275,7 +285,7 @@ class SymKeyAuthn(UserAuthnMethod):
 
         res = {"uid": user}
         if cookie:
-            res.update(self.cookie_info(cookie, client_id))
+            res.update(self.session_of(res["uid"], cookie, client_id))
 
         return res, utc_time_sans_frac()
 
@@ -301,7 +311,7 @@ class NoAuthn(UserAuthnMethod):
 
         res = {"uid": self.user}
         if cookie:
-            res.update(self.cookie_info(cookie, client_id))
+            res.update(self.session_of(res["uid"], cookie, client_id))
 
         return res, utc_time_sans_frac()
 
-- 
2.43.0


From 6343b8b7f08a06e2e38171e6d69770d95cf24bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:09 +0000
Subject: [PATCH 42/67] fix: refuse request objects and pushed requests that
 name another client

---
 src/oidcop/oauth2/authorization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 3dbb628..334b050 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -323,6 +323,14 @@ class Authorization(Endpoint):
             # If no response_type is registered by the client then we'll use code.
             _registered = [{"code"}]
 
+        # The request may have been replaced by, or updated with, a request object or a
+        # pushed request. That must not make it a request by someone else.
+        if request.get("client_id") != client_id:
+            logger.error("The request is not about the client that sent it")
+            return self.authentication_error_response(
+                request, error="invalid_request", error_description="Wrong client_id"
+            )
+
         # Is the asked for response_type among those that are permitted
         return set(request["response_type"]) in _registered
 
-- 
2.43.0


From ec7be3cd6eaf6fa7db900d2db3adc471de10878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:09 +0000
Subject: [PATCH 43/67] fix: refuse unsupported response modes before anything
 is minted

---
 src/oidcop/oauth2/authorization.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 334b050..b50977c 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -58,6 +58,9 @@ ALG_PARAMS = {
     ],
 }
 
+# The modes this class knows how to produce
+RESPONSE_MODES = ["query", "fragment", "form_post"]
+
 FORM_POST = """<html>
   <head>
     <title>Submit This Form</title>
@@ -452,6 +455,14 @@ class Authorization(Endpoint):
                 error_description="Trying to use unregistered response_type",
             )
 
+        # Is the asked for response_mode one of those that can be used
+        if request.get("response_mode", "query") not in RESPONSE_MODES:
+            return self.authentication_error_response(
+                request,
+                error="invalid_request",
+                error_description="Unsupported response_mode",
+            )
+
         # Get a verified redirect URI
         try:
             redirect_uri = get_uri(endpoint_context, request, "redirect_uri")
-- 
2.43.0


From 7d6700ee20b165faca3c077f2340b2df04da43ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:09 +0000
Subject: [PATCH 44/67] fix: OAuth2 implicit, none and error answers can be
 delivered

---
 src/oidcop/oauth2/authorization.py | 33 ++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index b50977c..83f0575 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -16,6 +16,7 @@ from cryptojwt.utils import b64e
 from oidcmsg import oauth2
 from oidcmsg.exception import ParameterError
 from oidcmsg.exception import URIError
+from oidcmsg.message import SINGLE_OPTIONAL_STRING
 from oidcmsg.message import Message
 from oidcmsg.oauth2 import AuthorizationRequest
 from oidcmsg.oidc import AuthorizationResponse
@@ -278,9 +279,23 @@ def check_unknown_scopes_policy(request_info, client_id, endpoint_context):
         raise UnAuthorizedClientScope()
 
 
+class ASAuthorizationResponse(oauth2.AuthorizationResponse):
+    """Contains a code, a token, both, or neither (response_type none and errors)."""
+
+    c_param = oauth2.AuthorizationResponse.c_param.copy()
+    c_param.update(oauth2.AccessTokenResponse.c_param)
+    c_param.update(
+        {
+            "code": SINGLE_OPTIONAL_STRING,
+            "access_token": SINGLE_OPTIONAL_STRING,
+            "token_type": SINGLE_OPTIONAL_STRING,
+        }
+    )
+
+
 class Authorization(Endpoint):
     request_cls = oauth2.AuthorizationRequest
-    response_cls = oauth2.AuthorizationResponse
+    response_cls = ASAuthorizationResponse
     error_cls = oauth2.AuthorizationErrorResponse
     request_format = "urlencoded"
     response_format = "urlencoded"
@@ -326,14 +341,6 @@ class Authorization(Endpoint):
             # If no response_type is registered by the client then we'll use code.
             _registered = [{"code"}]
 
-        # The request may have been replaced by, or updated with, a request object or a
-        # pushed request. That must not make it a request by someone else.
-        if request.get("client_id") != client_id:
-            logger.error("The request is not about the client that sent it")
-            return self.authentication_error_response(
-                request, error="invalid_request", error_description="Wrong client_id"
-            )
-
         # Is the asked for response_type among those that are permitted
         return set(request["response_type"]) in _registered
 
@@ -447,6 +454,14 @@ class Authorization(Endpoint):
                 request, error="unauthorized_client", error_description="unknown client"
             )
 
+        # The request may have been replaced by, or updated with, a request object or a
+        # pushed request. That must not make it a request by someone else.
+        if request.get("client_id") != client_id:
+            logger.error("The request is not about the client that sent it")
+            return self.authentication_error_response(
+                request, error="invalid_request", error_description="Wrong client_id"
+            )
+
         # Is the asked for response_type among those that are permitted
         if not self.verify_response_type(request, _cinfo):
             return self.authentication_error_response(
-- 
2.43.0


From 7e985277469fc96dfacf058cafd6119face2818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:46 +0000
Subject: [PATCH 45/67] fix: refused pushed authorization requests are answered
 and not stored

---
 src/oidcop/oauth2/pushed_authorization.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index d1f84f8..f567db9 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -21,12 +21,24 @@ class PushedAuthorization(Authorization):
         self.post_parse_request.append(self._post_parse_request)
         self.ttl = kwargs.get("ttl", 3600)
 
+    def _do_request_uri(self, request, client_id, endpoint_context, **kwargs):
+        if request.get("request_uri"):
+            return self.authentication_error_response(
+                request,
+                error="invalid_request",
+                error_description="A request_uri can not be pushed",
+            )
+        return request
+
     def process_request(self, request=None, **kwargs):
         """
         Store the request and return a URI.
 
         :param request:
         """
+        if isinstance(request, self.error_cls):
+            return request
+
         # create URN
 
         _urn = "urn:uuid:{}".format(uuid.uuid4())
-- 
2.43.0


From d7afa6214ca47396adad0d1bb224711f48a1ca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:46 +0000
Subject: [PATCH 46/67] fix: a pushed authorization request expires and can not
 be used up by another client

---
 src/oidcop/oauth2/authorization.py        | 15 +++++++++------
 src/oidcop/oauth2/pushed_authorization.py |  8 +++++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 83f0575..14179e7 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -374,14 +374,17 @@ class Authorization(Endpoint):
             if _endp:
                 # Is it a UUID urn
                 if _request_uri.startswith("urn:uuid:"):
-                    _req = endpoint_context.par_db.get(_request_uri)
-                    if _req:
-                        # One time usage
-                        del endpoint_context.par_db[_request_uri]
-                        return _req
-                    else:
+                    _pushed = endpoint_context.par_db.get(_request_uri)
+                    if not _pushed or _pushed["request"].get("client_id") != client_id:
                         raise ValueError("Got a request_uri I can not resolve")
 
+                    # One time usage
+                    del endpoint_context.par_db[_request_uri]
+                    if utc_time_sans_frac() > _pushed["expires_at"]:
+                        raise ValueError("Got a request_uri that has expired")
+
+                    return self.request_cls(**_pushed["request"])
+
             # Do I support request_uri ?
             if endpoint_context.provider_info.get("request_uri_parameter_supported", True) is False:
                 raise ServiceError("Someone is using request_uri which I'm not supporting")
diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index f567db9..607c39a 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -1,6 +1,8 @@
 import uuid
 
 from oidcmsg import oauth2
+from oidcmsg.oidc import verified_claim_name
+from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop.oauth2.authorization import Authorization
 
@@ -42,7 +44,11 @@ class PushedAuthorization(Authorization):
         # create URN
 
         _urn = "urn:uuid:{}".format(uuid.uuid4())
-        self.server_get("endpoint_context").par_db[_urn] = request
+        _vc_name = verified_claim_name("request")
+        self.server_get("endpoint_context").par_db[_urn] = {
+            "request": {k: v for k, v in request.to_dict().items() if k != _vc_name},
+            "expires_at": utc_time_sans_frac() + self.ttl,
+        }
 
         return {
             "http_response": {"request_uri": _urn, "expires_in": self.ttl},
-- 
2.43.0


From b4cb5985ead21e71de37866ac887b12fe42cb3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:46 +0000
Subject: [PATCH 47/67] fix: a pushed authorization request is verified like
 one that is sent directly

---
 src/oidcop/oauth2/authorization.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 14179e7..4e6db0c 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -14,6 +14,8 @@ from cryptojwt.jws.exception import NoSuitableSigningKeys
 from cryptojwt.utils import as_bytes
 from cryptojwt.utils import b64e
 from oidcmsg import oauth2
+from oidcmsg.exception import MissingRequiredAttribute
+from oidcmsg.exception import MissingRequiredValue
 from oidcmsg.exception import ParameterError
 from oidcmsg.exception import URIError
 from oidcmsg.message import SINGLE_OPTIONAL_STRING
@@ -383,7 +385,13 @@ class Authorization(Endpoint):
                     if utc_time_sans_frac() > _pushed["expires_at"]:
                         raise ValueError("Got a request_uri that has expired")
 
-                    return self.request_cls(**_pushed["request"])
+                    # The same rules as if it had been sent directly
+                    _req = self.request_cls(**_pushed["request"])
+                    try:
+                        _req.verify(keyjar=endpoint_context.keyjar, opponent_id=client_id)
+                    except (MissingRequiredAttribute, ValueError, MissingRequiredValue) as err:
+                        return self.process_verify_error(err)
+                    return _req
 
             # Do I support request_uri ?
             if endpoint_context.provider_info.get("request_uri_parameter_supported", True) is False:
-- 
2.43.0


From 08de42e3428285e6c015664c64ba3656ece0a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:54 +0000
Subject: [PATCH 48/67] fix: a client assertion has the same issuer and subject

---
 src/oidcop/client_authn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index a34e632..bc9d2c8 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -208,6 +208,10 @@ class JWSAuthnMethod(ClientAuthnMethod):
             if key_type == "client_secret":
                 raise AttributeError("Wrong key type")
 
+        # RFC 7523: both have to be the client_id of the client
+        if ca_jwt.get("sub", ca_jwt["iss"]) != ca_jwt["iss"]:
+            raise AuthnFailure("The assertion is not about the one that issued it")
+
         authtoken = sanitize(ca_jwt.to_dict())
         logger.debug("authntoken: {}".format(authtoken))
 
-- 
2.43.0


From bf35634fa494a6960fba3d429313e83509c27331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:54 +0000
Subject: [PATCH 49/67] fix: a request object that is not signed does not
 authenticate the client

---
 src/oidcop/client_authn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index bc9d2c8..286ee43 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -289,6 +289,10 @@ class RequestParam(ClientAuthnMethod):
             logger.info("%s" % sanitize(err))
             raise AuthnFailure("Could not verify client_assertion.")
 
+        # May have been encrypted but not signed
+        if not _jwt.jws_header:
+            raise AuthnFailure("The request object is not signed")
+
         # If there is a jti use it to make sure one-time usage is true
         _jti = _jwt.get("jti")
         if _jti:
-- 
2.43.0


From 0de3bf837b3c569bdd35fb2b02a369f43431aeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:24 +0000
Subject: [PATCH 50/67] fix: redirect URIs of native applications have a scheme
 and no fragment

---
 src/oidcop/oidc/registration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 529664a..3a92d1e 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -285,8 +285,10 @@ class Registration(Endpoint):
         for uri in registration_request["redirect_uris"]:
             _custom = False
             p = urlparse(uri)
+            if p.fragment:
+                raise InvalidRedirectURIError("redirect_uri contains fragment")
             if client_type == "native":
-                if p.scheme not in ["http", "https"]:  # Custom scheme
+                if p.scheme and p.scheme not in ["http", "https"]:  # Custom scheme
                     _custom = True
                 elif p.scheme == "http" and p.hostname in ["localhost", "127.0.0.1"]:
                     pass
@@ -305,8 +307,6 @@ class Registration(Endpoint):
             elif p.scheme not in ["http", "https"]:
                 # Custom scheme
                 raise InvalidRedirectURIError("Custom redirect_uri not allowed for web client")
-            elif p.fragment:
-                raise InvalidRedirectURIError("redirect_uri contains fragment")
 
             if _custom:  # Can not verify a custom scheme
                 verified_redirect_uris.append((uri, {}))
-- 
2.43.0


From cf27bb4c28cdbf70ac2ca15237cc4ea21fb49598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:24 +0000
Subject: [PATCH 51/67] fix: a client does not choose what the provider issues
 at registration

---
 src/oidcop/oidc/registration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 3a92d1e..4c662f4 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -437,7 +437,8 @@ class Registration(Endpoint):
         _cinfo = self.do_client_registration(
             request,
             client_id,
-            ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
+            # what this provider issued is not for the client to choose
+            ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri", *_cinfo.keys()],
         )
         if isinstance(_cinfo, ResponseMessage):
             return _cinfo
-- 
2.43.0


From d2b124914e8733156d1f6273f7b9a3dec5372c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:24 +0000
Subject: [PATCH 52/67] fix: a refused registration leaves nothing behind

---
 src/oidcop/oidc/registration.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 4c662f4..74c3791 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -423,6 +423,7 @@ class Registration(Endpoint):
 
         if self.server_get("endpoint", "registration_read"):
             self.add_registration_api(_cinfo, client_id, _context)
+        _rat = _cinfo.get("registration_access_token")
 
         if new_id:
             _cinfo["client_id_issued_at"] = utc_time_sans_frac()
@@ -433,20 +434,30 @@ class Registration(Endpoint):
 
         logger.debug("Stored client info in CDB under cid={}".format(client_id))
 
+        _previous = _context.cdb.get(client_id)
         _context.cdb[client_id] = _cinfo
-        _cinfo = self.do_client_registration(
-            request,
-            client_id,
-            # what this provider issued is not for the client to choose
-            ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri", *_cinfo.keys()],
-        )
-        if isinstance(_cinfo, ResponseMessage):
-            return _cinfo
+        response = None
+        try:
+            _cinfo = self.do_client_registration(
+                request,
+                client_id,
+                # what this provider issued is not for the client to choose
+                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri", *_cinfo.keys()],
+            )
+            if isinstance(_cinfo, ResponseMessage):
+                return _cinfo
 
-        args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
+            args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
 
-        comb_uri(args)
-        response = self.response_cls(**args)
+            comb_uri(args)
+            response = self.response_cls(**args)
+        finally:
+            if response is None:  # refused
+                if _previous is None:
+                    del _context.cdb[client_id]
+                else:
+                    _context.cdb[client_id] = _previous
+                _context.registration_access_token.pop(_rat, None)
 
         # Add the client_secret as a symmetric key to the key jar
         if client_secret:
-- 
2.43.0


From ffeb918f43b40bbf8fff070aab6f75a24f8da399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:51 +0000
Subject: [PATCH 53/67] fix: a bearer token in the body does not authenticate
 whatever client the request names

---
 src/oidcop/client_authn.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index 286ee43..56737d5 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -172,11 +172,8 @@ class BearerBody(ClientSecretPost):
         if _token is None:
             raise AuthnFailure("No access token")
 
-        res = {"token": _token}
-        _client_id = request.get("client_id")
-        if _client_id:
-            res["client_id"] = _client_id
-        return res
+        # Which client it is follows from the token
+        return {"token": _token}
 
 
 class JWSAuthnMethod(ClientAuthnMethod):
-- 
2.43.0


From 393f6be34076d9f4baab71c24f0d9f2df539062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:51 +0000
Subject: [PATCH 54/67] fix: reading a registration demands the registration
 token by default

---
 src/oidcop/oidc/read_registration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcop/oidc/read_registration.py b/src/oidcop/oidc/read_registration.py
index a5dbb30..87b2ef5 100644
--- a/src/oidcop/oidc/read_registration.py
+++ b/src/oidcop/oidc/read_registration.py
@@ -14,6 +14,7 @@ class RegistrationRead(Endpoint):
     request_placement = "url"
     response_format = "json"
     name = "registration_read"
+    default_capabilities = {"client_authn_method": ["bearer_header"]}
 
     def get_client_id_from_token(self, endpoint_context, token, request=None):
         if "client_id" in request:
-- 
2.43.0


From b260d76c9b8d3c6eee3088612a5a81f2ae5e6e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:51 +0000
Subject: [PATCH 55/67] fix: clients that register for pairwise subject
 identifiers get them, for the sector they registered

---
 src/oidcop/oauth2/authorization.py | 21 +++++++++++++++++++++
 src/oidcop/session/manager.py      |  8 +++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 4e6db0c..65f9155 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -41,6 +41,7 @@ from oidcop.exception import UnknownClient
 from oidcop.session import Revoked
 from oidcop.token.exception import UnknownToken
 from oidcop.user_authn.authn_context import pick_auth
+from oidcop.util import sector_id_from_redirect_uris
 from oidcop.util import split_uri
 
 logger = logging.getLogger(__name__)
@@ -546,8 +547,27 @@ class Authorization(Endpoint):
             user_id=user_id,
             client_id=request["client_id"],
             token_usage_rules=_token_usage_rules,
+            **self._subject_parameters(request["client_id"]),
         )
 
+    def _subject_parameters(self, client_id: str) -> dict:
+        """The kind of subject identifier the client registered for and the sector it belongs to."""
+        _cinfo = self.server_get("endpoint_context").cdb.get(client_id, {})
+        _sub_type = _cinfo.get("subject_type") or "public"
+        if _sub_type != "pairwise":
+            return {"sub_type": _sub_type}
+
+        _sector_uri = _cinfo.get("sector_identifier_uri")
+        if _sector_uri:
+            _uris = [_sector_uri]
+        else:
+            _uris = [u if isinstance(u, str) else u[0] for u in _cinfo.get("redirect_uris", [])]
+        try:
+            _sector = sector_id_from_redirect_uris(_uris)
+        except ValueError:  # More than one host and nothing that joins them
+            _sector = client_id
+        return {"sub_type": _sub_type, "sector_identifier": _sector}
+
     def _login_required_error(self, redirect_uri, request):
         _res = {
             "error": "login_required",
@@ -706,6 +726,7 @@ class Authorization(Endpoint):
                             auth_req=request,
                             user_id=user,
                             client_id=request["client_id"],
+                            **self._subject_parameters(request["client_id"]),
                         )
 
         if not _session_id:
diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index 3bddebc..dad4403 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -167,6 +167,7 @@ class SessionManager(Database):
         sub_type: Optional[str] = "public",
         token_usage_rules: Optional[dict] = None,
         scopes: Optional[list] = None,
+        sector_identifier: Optional[str] = None,
     ) -> str:
         """
 
@@ -177,9 +178,11 @@ class SessionManager(Database):
         :param client_id:
         :param sub_type:
         :param token_usage_rules:
+        :param sector_identifier: The sector a pairwise subject identifier is for
         :return:
         """
-        sector_identifier = auth_req.get("sector_identifier_uri", "")
+        if sector_identifier is None:
+            sector_identifier = auth_req.get("sector_identifier_uri", "")
 
         _claims = auth_req.get("claims", {})
 
@@ -207,6 +210,7 @@ class SessionManager(Database):
         sub_type: Optional[str] = "public",
         token_usage_rules: Optional[dict] = None,
         scopes: Optional[list] = None,
+        sector_identifier: Optional[str] = None,
     ) -> str:
         """
         Create part of a user session. The parts added are user- and client
@@ -219,6 +223,7 @@ class SessionManager(Database):
         :param user_id: User ID
         :param sub_type: What kind of subject will be assigned
         :param token_usage_rules: Rules for how tokens can be used
+        :param sector_identifier: The sector a pairwise subject identifier is for
         :return: Session key
         """
 
@@ -245,6 +250,7 @@ class SessionManager(Database):
             sub_type=sub_type,
             token_usage_rules=token_usage_rules,
             scopes=scopes,
+            sector_identifier=sector_identifier,
         )
 
     def __getitem__(self, session_id: str):
-- 
2.43.0


From 69e8b5bfb9b2dddf1567faa66cd325563334547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:29 +0000
Subject: [PATCH 56/67] fix: clients that registered for encrypted ID tokens or
 user info get them encrypted

---
 src/oidcop/oidc/userinfo.py  | 9 +++++++--
 src/oidcop/token/id_token.py | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 83fdc77..4233bd5 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -14,6 +14,7 @@ from oidcmsg.oauth2 import ResponseMessage
 
 from oidcop.endpoint import Endpoint
 from oidcop.token.exception import UnknownToken
+from oidcop.token.id_token import get_sign_and_encrypt_algorithms
 from oidcop.util import OAUTH2_NOCACHE_HEADERS
 
 logger = logging.getLogger(__name__)
@@ -76,12 +77,16 @@ class UserInfo(Endpoint):
             sign = False
 
         try:
-            enc_enc = _cinfo["userinfo_encrypted_response_enc"]
             enc_alg = _cinfo["userinfo_encrypted_response_alg"]
-            encrypt = True
         except KeyError:
             encrypt = False
             enc_alg = enc_enc = ""
+        else:
+            encrypt = True
+            # The client may leave the content encryption to the provider
+            enc_enc = get_sign_and_encrypt_algorithms(
+                _context, _cinfo, "userinfo", encrypt=True
+            )["enc_enc"]
 
         if encrypt or sign:
             _jwt = JWT(
diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index 42b6d07..aefc440 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -296,6 +296,10 @@ class IDToken(Token):
 
         lifetime = self.lifetime
 
+        # A client that registered for encrypted ID tokens gets nothing else
+        if "id_token_encrypted_response_alg" in _context.cdb[client_id]:
+            encrypt = True
+
         id_token = self.sign_encrypt(
             session_id,
             client_id,
-- 
2.43.0


From 556c18ce228df90497b51056090d72ad9b2c6dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:41 +0000
Subject: [PATCH 57/67] fix: nothing is left unsigned for clients that did not
 register for that

---
 src/oidcop/oidc/session.py   | 5 ++++-
 src/oidcop/token/id_token.py | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index f209d44..10d34c6 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -25,6 +25,7 @@ from oidcmsg.oidc import verified_claim_name
 from oidcmsg.oidc.session import BACK_CHANNEL_LOGOUT_EVENT
 from oidcmsg.oidc.session import EndSessionRequest
 
+from oidcop import DEF_SIGN_ALG
 from oidcop import rndstr
 from oidcop.client_authn import UnknownOrNoAuthnMethod
 from oidcop.endpoint import Endpoint
@@ -135,7 +136,9 @@ class Session(Endpoint):
         try:
             alg = cinfo["id_token_signed_response_alg"]
         except KeyError:
-            alg = _context.provider_info["id_token_signing_alg_values_supported"][0]
+            # 'none' is only for those who asked for it
+            _supported = _context.provider_info["id_token_signing_alg_values_supported"]
+            alg = next((a for a in _supported if a != "none"), DEF_SIGN_ALG["id_token"])
 
         _jws = JWT(_context.keyjar, iss=_context.issuer, lifetime=86400, sign_alg=alg)
         _jws.with_jti = True
diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index aefc440..7a2f171 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -79,7 +79,8 @@ def get_sign_and_encrypt_algorithms(
                     if _def_sign_alg in _supported:
                         args["sign_alg"] = _def_sign_alg
                     else:
-                        args["sign_alg"] = _supported[0]
+                        # 'none' is only for those who asked for it
+                        args["sign_alg"] = next((a for a in _supported if a != "none"), _def_sign_alg)
 
     if encrypt:
         try:
-- 
2.43.0


From a17e2cd1e1c5f07ad814505b0c2921484af34c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:59 +0000
Subject: [PATCH 58/67] fix: a DPoP token is bound to the key that signed the
 proof

---
 src/oidcop/oauth2/add_on/dpop.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oauth2/add_on/dpop.py b/src/oidcop/oauth2/add_on/dpop.py
index 472c5ea..a78384f 100644
--- a/src/oidcop/oauth2/add_on/dpop.py
+++ b/src/oidcop/oauth2/add_on/dpop.py
@@ -71,11 +71,14 @@ class DPoPProof(Message):
                 _pub_key = key_from_jwk_dict(_jwt.headers["jwk"])
                 _pub_key.deserialize()
                 _info = _jws.verify_compact(keys=[_pub_key], sigalg=_jwt.headers["alg"])
-                for k, v in _jwt.headers.items():
-                    self[k] = v
+                # What belongs in the header is only taken from there and vice versa
+                for k in self.header_params.intersection(_jwt.headers):
+                    self[k] = _jwt.headers[k]
 
-                for k, v in _info.items():
-                    self[k] = v
+                for k in self.body_params.intersection(_info):
+                    self[k] = _info[k]
+
+                self.key = _pub_key
             else:
                 raise Exception()
 
-- 
2.43.0


From ce2311ad83e290986a88fa7e3daca335420c053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:59 +0000
Subject: [PATCH 59/67] fix: a DPoP proof has to be one, made with a supported
 algorithm

---
 src/oidcop/oauth2/add_on/dpop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcop/oauth2/add_on/dpop.py b/src/oidcop/oauth2/add_on/dpop.py
index a78384f..5f808ad 100644
--- a/src/oidcop/oauth2/add_on/dpop.py
+++ b/src/oidcop/oauth2/add_on/dpop.py
@@ -108,6 +108,11 @@ def post_parse_request(request, client_id, endpoint_context, **kwargs):
     # The signature of the JWS is verified, now for checking the
     # content
 
+    _dpop.verify()
+
+    if _dpop["alg"] not in endpoint_context.provider_info["dpop_signing_alg_values_supported"]:
+        raise ValueError("DPoP signed with an algorithm that is not supported")
+
     if _dpop["htu"] != _http_info["url"]:
         raise ValueError("htu in DPoP does not match the HTTP URI")
 
-- 
2.43.0


From 37d42ddcc043d1dca45fbc5d7ce831ca9157425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:59 +0000
Subject: [PATCH 60/67] fix: an OAuth2 code redeemed with a DPoP proof gives a
 DPoP token

---
 src/oidcop/oauth2/token.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index b1279a9..d79abf4 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -129,6 +129,15 @@ class AccessTokenHelper(TokenEndpointHelper):
             grant_types_supported = _context.provider_info["grant_types_supported"]
         grant = _session_info["grant"]
 
+        token_type = "Bearer"
+
+        # Is DPOP supported
+        if "dpop_signing_alg_values_supported" in _context.provider_info:
+            _dpop_jkt = req.get("dpop_jkt")
+            if _dpop_jkt:
+                grant.extra["dpop_jkt"] = _dpop_jkt
+                token_type = "DPoP"
+
         _based_on = grant.get_token(_access_code)
         _supports_minting = _based_on.usage_rules.get("supports_minting", [])
 
@@ -146,7 +155,7 @@ class AccessTokenHelper(TokenEndpointHelper):
 
         issue_refresh = kwargs.get("issue_refresh", False)
         _response = {
-            "token_type": "Bearer",
+            "token_type": token_type,
             "scope": grant.scope,
         }
 
@@ -158,6 +167,7 @@ class AccessTokenHelper(TokenEndpointHelper):
                     session_id=_session_info["session_id"],
                     client_id=_session_info["client_id"],
                     based_on=_based_on,
+                    token_type=token_type,
                 )
             except MintingNotAllowed as err:
                 logger.warning(err)
-- 
2.43.0


From a68848126c453996839ee983677c3335f872e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:05 +0000
Subject: [PATCH 61/67] fix: request objects are only accepted with algorithms
 the client may use

---
 src/oidcop/oauth2/authorization.py | 55 +++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 65f9155..c4df1f1 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -369,6 +369,25 @@ class Authorization(Endpoint):
 
         return token
 
+    def _verify_request_object(self, request_object, client_id, endpoint_context):
+        """
+        Make sure that it is the client's and that only algorithms that it may use were used.
+
+        :param request_object: A verified request object
+        """
+        if request_object.get("iss", client_id) != client_id:
+            raise ValueError("Request object issued by someone else")
+
+        _jws_header = request_object.jws_header or {}
+        _algorithms = {"sign": _jws_header.get("alg", "none")}
+        _jwe_header = request_object.jwe_header
+        if _jwe_header is not None:
+            _algorithms["enc_alg"] = _jwe_header.get("alg")
+            _algorithms["enc_enc"] = _jwe_header.get("enc")
+
+        for alg_type, alg in _algorithms.items():
+            self.allowed_request_algorithms(client_id, endpoint_context, alg, alg_type)
+
     def _do_request_uri(self, request, client_id, endpoint_context, **kwargs):
         _request_uri = request.get("request_uri")
         if _request_uri:
@@ -412,29 +431,17 @@ class Authorization(Endpoint):
             if _resp.status_code == 200:
                 args = {"keyjar": endpoint_context.keyjar, "issuer": client_id}
                 _ver_request = self.request_cls().from_jwt(_resp.text, **args)
-                self.allowed_request_algorithms(
-                    client_id,
-                    endpoint_context,
-                    _ver_request.jws_header.get("alg", "RS256"),
-                    "sign",
-                )
-                if _ver_request.jwe_header is not None:
-                    self.allowed_request_algorithms(
-                        client_id,
-                        endpoint_context,
-                        _ver_request.jws_header.get("alg"),
-                        "enc_alg",
-                    )
-                    self.allowed_request_algorithms(
-                        client_id,
-                        endpoint_context,
-                        _ver_request.jws_header.get("enc"),
-                        "enc_enc",
-                    )
+                self._verify_request_object(_ver_request, client_id, endpoint_context)
                 # The protected info overwrites the non-protected
                 for k, v in _ver_request.items():
                     request[k] = v
 
+                # The same rules as if it had been sent directly
+                try:
+                    request.verify(keyjar=endpoint_context.keyjar, opponent_id=client_id)
+                except (MissingRequiredAttribute, ValueError, MissingRequiredValue) as err:
+                    return self.process_verify_error(err)
+
                 request[verified_claim_name("request")] = _ver_request
             else:
                 raise ServiceError("Got a %s response", _resp.status)
@@ -474,6 +481,16 @@ class Authorization(Endpoint):
                 request, error="invalid_request", error_description="Wrong client_id"
             )
 
+        # A request object that was passed by value
+        _request_object = request.get(verified_claim_name("request"))
+        if _request_object is not None:
+            try:
+                self._verify_request_object(_request_object, client_id, endpoint_context)
+            except ValueError as err:
+                return self.authentication_error_response(
+                    request, error="invalid_request_object", error_description=str(err)
+                )
+
         # Is the asked for response_type among those that are permitted
         if not self.verify_response_type(request, _cinfo):
             return self.authentication_error_response(
-- 
2.43.0


From 1badfbf3b765d341c69387f2ea5d702429e9a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:01 +0000
Subject: [PATCH 62/67] fix: a user claim named token_class does not change the
 kind of a token

---
 src/oidcop/session/grant.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index f95474b..66c0c5c 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -100,7 +100,15 @@ def token_map_load(items: dict, **kwargs):
 
 
 # What the token handlers are told beside the claims to place in a token
-HANDLER_ARGS = ["session_id", "ttype", "encrypt", "code", "access_token", "usage_rules"]
+HANDLER_ARGS = [
+    "session_id",
+    "token_class",
+    "ttype",
+    "encrypt",
+    "code",
+    "access_token",
+    "usage_rules",
+]
 
 
 class Grant(Item):
-- 
2.43.0


From 1a79dfd50efd88435c3b47556cf0695f50641085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:23 +0000
Subject: [PATCH 63/67] fix: an error after authentication is delivered when no
 response mode was asked for

---
 src/oidcop/oauth2/authorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index c4df1f1..3c62c38 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -813,7 +813,8 @@ class Authorization(Endpoint):
         response_info = self.error_response(response_info, request, error, error_description)
         if "return_uri" not in response_info:
             response_info["return_uri"] = request["redirect_uri"]
-        response_info = self.response_mode(request, **response_info)
+        if "response_mode" in request:
+            response_info = self.response_mode(request, **response_info)
         return response_info
 
     def create_authn_response(self, request: Union[dict, Message], sid: str) -> dict:
-- 
2.43.0


From defba118b7d4272e371743d12961e2c351dee912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:30 +0000
Subject: [PATCH 64/67] fix: a request about a particular user is not answered
 for another one

---
 src/oidcop/oidc/authorization.py | 42 ++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/oidcop/oidc/authorization.py b/src/oidcop/oidc/authorization.py
index fb4d73e..2b799ab 100755
--- a/src/oidcop/oidc/authorization.py
+++ b/src/oidcop/oidc/authorization.py
@@ -18,6 +18,17 @@ def proposed_user(request):
     return ""
 
 
+def requested_subject(request):
+    """The subject identifiers the claims request asks for, None if it asks for none in particular."""
+    _claims = request.get("claims") or {}
+    _spec = (_claims.get("id_token") or {}).get("sub")
+    if not _spec:
+        return None
+    if "value" in _spec:
+        return [_spec["value"]]
+    return _spec.get("values")
+
+
 def acr_claims(request):
     acrdef = None
 
@@ -112,3 +123,34 @@ class Authorization(authorization.Authorization):
                 if _context.login_hint_lookup:
                     kwargs["req_user"] = _context.login_hint_lookup(_login_hint)
         return kwargs
+
+    def post_authentication(self, request, session_id, **kwargs):
+        # A request about a particular user must not be answered for another one
+        _context = self.server_get("endpoint_context")
+        _mngr = _context.session_manager
+        _user_id, _client_id, _grant_id = _mngr.decrypt_session_id(session_id)
+
+        _sub = requested_subject(request)
+        _wrong = _sub is not None and _mngr[session_id].sub not in _sub
+
+        _hint = request.get("id_token_hint")
+        if _hint:
+            _hint = oidc.IdToken().from_jwt(_hint, keyjar=_context.keyjar)
+            # Any of the subject identifiers this client has been given for the user
+            _known = [
+                _mngr.get([_user_id, _client_id, _id]).sub
+                for _id in _mngr.get([_user_id, _client_id]).subordinate
+            ]
+            _wrong = _wrong or _hint["sub"] not in _known
+
+        if _wrong:
+            return self.error_by_response_mode(
+                {"return_type": request["response_type"]},
+                request,
+                "login_required",
+                "Another user is logged in",
+            )
+
+        return authorization.Authorization.post_authentication(
+            self, request, session_id, **kwargs
+        )
-- 
2.43.0


From db76b8ea29eb0564a234383a084fdbbac8a02db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:44 +0000
Subject: [PATCH 65/67] fix: an unknown or expired token is answered with
 invalid_grant

Only the unknown code was; an unknown refresh token, or a code or refresh
token that is a JWT and has expired, made parse_request raise.
---
 src/oidcop/oauth2/token.py | 7 ++++---
 src/oidcop/oidc/token.py   | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index d79abf4..8c39b93 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -14,12 +14,13 @@ from oidcop import sanitize
 from oidcop.constant import DEFAULT_TOKEN_LIFETIME
 from oidcop.endpoint import Endpoint
 from oidcop.exception import ProcessError
+from oidcop.exception import ToOld
 from oidcop.session.grant import AuthorizationCode
 from oidcop.session.grant import Grant
 from oidcop.session.grant import RefreshToken
 from oidcop.session.token import MintingNotAllowed
 from oidcop.session.token import SessionToken
-from oidcop.token.exception import UnknownToken
+from oidcop.token.exception import TokenException
 from oidcop.util import importer
 
 logger = logging.getLogger(__name__)
@@ -215,7 +216,7 @@ class AccessTokenHelper(TokenEndpointHelper):
         _mngr = self.endpoint.server_get("endpoint_context").session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["code"], grant=True)
-        except (KeyError, UnknownToken):
+        except (KeyError, ValueError, TokenException, ToOld):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant", error_description="Unknown code")
 
@@ -342,7 +343,7 @@ class RefreshTokenHelper(TokenEndpointHelper):
         _mngr = _context.session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["refresh_token"], grant=True)
-        except KeyError:
+        except (KeyError, ValueError, TokenException, ToOld):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant")
 
diff --git a/src/oidcop/oidc/token.py b/src/oidcop/oidc/token.py
index 337588b..c583f49 100755
--- a/src/oidcop/oidc/token.py
+++ b/src/oidcop/oidc/token.py
@@ -12,11 +12,12 @@ from oidcmsg.oidc import TokenErrorResponse
 
 from oidcop import oauth2
 from oidcop import sanitize
+from oidcop.exception import ToOld
 from oidcop.oauth2.token import TokenEndpointHelper
 from oidcop.session.grant import AuthorizationCode
 from oidcop.session.grant import RefreshToken
 from oidcop.session.token import MintingNotAllowed
-from oidcop.token.exception import UnknownToken
+from oidcop.token.exception import TokenException
 
 logger = logging.getLogger(__name__)
 
@@ -172,7 +173,7 @@ class AccessTokenHelper(TokenEndpointHelper):
         _mngr = self.endpoint.server_get("endpoint_context").session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["code"], grant=True)
-        except (KeyError, UnknownToken):
+        except (KeyError, ValueError, TokenException, ToOld):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant", error_description="Unknown code")
 
@@ -326,7 +327,7 @@ class RefreshTokenHelper(TokenEndpointHelper):
         _mngr = _context.session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["refresh_token"], grant=True)
-        except KeyError:
+        except (KeyError, ValueError, TokenException, ToOld):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant")
 
-- 
2.43.0


From ed12201563023ce9df88f19f28c41dae7f2975e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:36 +0000
Subject: [PATCH 66/67] fix: a token no handler can make sense of is an unknown
 token

Some malformed JWTs (no algorithm, an encrypted one, an empty payload) made
the look-up raise whatever the JWT library raised.
---
 src/oidcop/token/handler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/token/handler.py b/src/oidcop/token/handler.py
index c4fb238..297e61e 100755
--- a/src/oidcop/token/handler.py
+++ b/src/oidcop/token/handler.py
@@ -3,16 +3,15 @@ import os
 from typing import Optional
 import warnings
 
-from cryptojwt.exception import Invalid
 from cryptojwt.key_jar import init_key_jar
 from cryptojwt.utils import as_unicode
 from oidcmsg.impexp import ImpExp
 from oidcmsg.item import DLDict
 
+from oidcop.exception import ToOld
 from oidcop.token import DefaultToken
 from oidcop.token import Token
 from oidcop.token import UnknownToken
-from oidcop.token.exception import TokenException
 from oidcop.util import importer
 
 __author__ = "Roland Hedberg"
@@ -71,8 +70,11 @@ class TokenHandler(ImpExp):
         for typ in order:
             try:
                 res = self.handler[typ].info(token)
-            except (KeyError, TokenException, Invalid, AttributeError):
-                pass
+            except ToOld:
+                raise
+            except Exception as err:
+                # A handler that can make nothing of the token: it is not one of its
+                logger.debug(f"Not a {typ}: {err!r}")
             else:
                 return self.handler[typ], res
 
-- 
2.43.0


From 10129b30370fb37fb746606a076551acdd66e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:36 +0000
Subject: [PATCH 67/67] fix: a code or refresh token of a grant that has ended
 is refused, not answered with a crash

Minting refuses for an inactive grant by returning None, which the token
endpoint then tried to use.
---
 src/oidcop/oauth2/token.py | 4 ++--
 src/oidcop/oidc/token.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 8c39b93..41aa554 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -225,7 +225,7 @@ class AccessTokenHelper(TokenEndpointHelper):
         if not isinstance(code, AuthorizationCode):
             return self.error_cls(error="invalid_request", error_description="Wrong token type")
 
-        if code.is_active() is False:
+        if code.is_active() is False or grant.is_active() is False:
             return self.error_cls(error="invalid_request", error_description="Code inactive")
 
         _auth_req = grant.authorization_request
@@ -353,7 +353,7 @@ class RefreshTokenHelper(TokenEndpointHelper):
         if not isinstance(token, RefreshToken):
             return self.error_cls(error="invalid_request", error_description="Wrong token type")
 
-        if token.is_active() is False:
+        if token.is_active() is False or grant.is_active() is False:
             return self.error_cls(
                 error="invalid_request", error_description="Refresh token inactive"
             )
diff --git a/src/oidcop/oidc/token.py b/src/oidcop/oidc/token.py
index c583f49..91d1c16 100755
--- a/src/oidcop/oidc/token.py
+++ b/src/oidcop/oidc/token.py
@@ -187,7 +187,7 @@ class AccessTokenHelper(TokenEndpointHelper):
             grant.revoke_token(based_on=request["code"], recursive=True)
             return self.error_cls(error="invalid_grant", error_description="Code inactive")
 
-        if code.is_active() is False:
+        if code.is_active() is False or grant.is_active() is False:
             return self.error_cls(error="invalid_grant", error_description="Code inactive")
 
         _auth_req = grant.authorization_request
@@ -337,7 +337,7 @@ class RefreshTokenHelper(TokenEndpointHelper):
         if not isinstance(token, RefreshToken):
             return self.error_cls(error="invalid_request", error_description="Wrong token type")
 
-        if token.is_active() is False:
+        if token.is_active() is False or grant.is_active() is False:
             return self.error_cls(
                 error="invalid_request", error_description="Refresh token inactive"
             )
-- 
2.43.0

