"""Concrete worlds the harnesses start from (servers built from fixed keys and a fixed configuration).

Runs both instrumented (symbolic exploration) and on the plain implementation (replay).
"""
import copy
import json
import os

from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.key_jar import KeyJar
from oidcmsg.oidc import AuthorizationRequest

from oidcop.authn_event import create_authn_event
from oidcop.authz import AuthzHandling
from oidcop.configure import ASConfiguration
from oidcop.configure import OPConfiguration
from oidcop.server import Server
from oidcop.user_info import UserInfo

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")
ISS = "https://op.example.com"
NOW = 1_700_000_000


def jwks(name):
    with open(os.path.join(DATA, name)) as f:
        return json.load(f)


USERS = {
    "diana": {
        "name": "Diana Krall",
        "given_name": "Diana",
        "family_name": "Krall",
        "nickname": "Dina",
        "email": "diana@example.org",
        "email_verified": False,
        "phone_number": "+46907865000",
        "address": {"locality": "Umea", "country": "Sweden"},
    },
    "babs": {"name": "Barbara J Jensen", "email": "babs@example.com", "email_verified": True, "nickname": "babs"},
}

ALL_AUTHN = ["client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"]

USAGE = {
    "authorization_code": {
        "expires_in": 300,
        "supports_minting": ["access_token", "refresh_token", "id_token"],
        "max_usage": 1,
    },
    "access_token": {"expires_in": 600},
    "refresh_token": {"expires_in": 86400, "supports_minting": ["access_token", "refresh_token", "id_token"]},
}

SESSION_PARAMS = {"password": "ses_key_0123456789abcdef", "salt": "ses_salt_0123456789abcdef"}

RESPONSE_TYPES = [
    ["code"], ["token"], ["id_token"], ["code", "token"], ["code", "id_token"], ["id_token", "token"],
    ["code", "token", "id_token"], ["none"],
]


def base_conf(oauth2=False, jwt_tokens=True):
    if oauth2:
        authz_cls = "oidcop.oauth2.authorization.Authorization"
        token_cls = "oidcop.oauth2.token.Token"
    else:
        authz_cls = "oidcop.oidc.authorization.Authorization"
        token_cls = "oidcop.oidc.token.Token"
    jt = {"class": "oidcop.token.jwt_token.JWTToken", "kwargs": {"lifetime": 3600, "aud": ["https://rs.example.com"]}}
    dt = {"kwargs": {"lifetime": 3600}}
    tha = {
        "jwks_def": {"private_path": os.path.join(DATA, "token_jwks.json"), "read_only": True},
        "code": {"kwargs": {"lifetime": 600}},
        "token": copy.deepcopy(jt if jwt_tokens else dt),
        "refresh": copy.deepcopy(jt if jwt_tokens else dt),
    }
    if not oauth2:
        tha["id_token"] = {"class": "oidcop.token.id_token.IDToken", "kwargs": {}}
    conf = {
        "issuer": ISS,
        "httpc_params": {"verify": False, "timeout": 1},
        "capabilities": {
            "response_types_supported": [" ".join(x) for x in RESPONSE_TYPES],
            "response_modes_supported": ["query", "fragment", "form_post"],
            "subject_types_supported": ["public", "pairwise", "ephemeral"],
            "grant_types_supported": ["authorization_code", "implicit", "refresh_token"],
            "claim_types_supported": ["normal"],
            "claims_parameter_supported": True,
            "request_parameter_supported": True,
            "request_uri_parameter_supported": True,
        },
        "token_handler_args": tha,
        "cookie_handler": {
            "class": "oidcop.cookie_handler.CookieHandler",
            "kwargs": {
                "keys": {"private_path": os.path.join(DATA, "cookie_jwks.json"), "read_only": True},
                "name": {"session": "oidc_op", "register": "oidc_op_rp", "session_management": "oidc_op_sman"},
            },
        },
        "endpoint": {
            "authorization": {
                "path": "authorization",
                "class": authz_cls,
                "kwargs": {
                    "response_types_supported": [" ".join(x) for x in RESPONSE_TYPES],
                    "response_modes_supported": ["query", "fragment", "form_post"],
                    "request_parameter_supported": True,
                    "request_uri_parameter_supported": True,
                    "claims_parameter_supported": True,
                },
            },
            "token": {"path": "token", "class": token_cls, "kwargs": {"client_authn_method": list(ALL_AUTHN)}},
            "introspection": {
                "path": "introspection",
                "class": "oidcop.oauth2.introspection.Introspection",
                "kwargs": {"client_authn_method": ["client_secret_post"], "release": ["username"]},
            },
        },
        "authentication": {
            "anon": {
                "acr": "urn:oasis:names:tc:SAML:2.0:ac:classes:InternetProtocolPassword",
                "class": "oidcop.user_authn.user.NoAuthn",
                "kwargs": {"user": "diana"},
            }
        },
        "userinfo": {"class": UserInfo, "kwargs": {"db": copy.deepcopy(USERS)}},
        "client_authn": "oidcop.client_authn.verify_client",
        "authz": {
            "class": AuthzHandling,
            "kwargs": {"grant_config": {"usage_rules": copy.deepcopy(USAGE), "expires_in": 43200}},
        },
        "session_params": dict(SESSION_PARAMS),
    }
    if not oauth2:
        conf["endpoint"].update(
            {
                "provider_config": {
                    "path": ".well-known/openid-configuration",
                    "class": "oidcop.oidc.provider_config.ProviderConfiguration",
                    "kwargs": {},
                },
                "registration": {
                    "path": "registration",
                    "class": "oidcop.oidc.registration.Registration",
                    "kwargs": {"client_authn_method": None},
                },
                "userinfo": {
                    "path": "userinfo",
                    "class": "oidcop.oidc.userinfo.UserInfo",
                    "kwargs": {"client_authn_method": ["bearer_header", "bearer_body"]},
                },
                "session": {
                    "path": "end_session",
                    "class": "oidcop.oidc.session.Session",
                    "kwargs": {
                        "post_logout_uri_path": "post_logout",
                        "signing_alg": "ES256",
                        "logout_verify_url": ISS + "/verify_logout",
                        "client_authn_method": None,
                    },
                },
            }
        )
    return conf


CLIENT_BASE = {
    "client_secret": "hemligt_for_client_1",
    "redirect_uris": [("https://rp1.example.com/cb", None)],
    "client_salt": "salted",
    "token_endpoint_auth_method": "client_secret_post",
    "response_types": ["code", "token", "id_token", "code token", "code id_token", "id_token token",
                       "code id_token token", "none"],
}


def clients():
    c1 = copy.deepcopy(CLIENT_BASE)
    c2 = copy.deepcopy(CLIENT_BASE)
    c2["client_secret"] = "hemligt_for_client_2"
    c2["redirect_uris"] = [("https://rp2.example.com/cb", None)]
    return {"client_1": c1, "client_2": c2}


WARM = {
    "warm_1": {"id_token_signed_response_alg": "RS384", "userinfo_signed_response_alg": "RS384", "subject_type": "pairwise",
               "backchannel_logout_uri": "https://rpw.example.com/back", "backchannel_logout_session_required": True,
               "token_usage_rules": {"access_token": {"expires_in": 77}, "refresh_token": {"supports_minting": ["access_token", "refresh_token"]}},
               "add_claims": {"always": {"userinfo": ["phone_number"], "id_token": ["phone_number"], "introspection": ["phone_number"]},
                              "by_scope": {"userinfo": True, "id_token": True}},
               "scopes_to_claims": {"openid": ["sub", "phone_number"], "email": ["phone_number"]}},
    "warm_2": {"id_token_signed_response_alg": "ES256", "id_token_encrypted_response_alg": "RSA-OAEP", "id_token_encrypted_response_enc": "A256GCM",
               "userinfo_encrypted_response_alg": "RSA-OAEP", "userinfo_encrypted_response_enc": "A256GCM", "subject_type": "ephemeral",
               "frontchannel_logout_uri": "https://rpw.example.com/front", "frontchannel_logout_session_required": True,
               "allowed_scopes": ["openid"], "revoke_refresh_on_issue": True},
}


class World:
    """A server plus shorthands."""

    def __init__(self, conf=None, oauth2=False, jwt_tokens=True, tweak=None):
        self.oauth2 = oauth2
        conf = conf or base_conf(oauth2, jwt_tokens)
        if tweak:
            tweak(conf)
        self.conf = conf
        kj = KeyJar()
        kj.import_jwks(jwks("op_jwks.json"), "")
        kj.import_jwks(jwks("op_jwks.json"), ISS)
        cls = ASConfiguration if oauth2 else OPConfiguration
        self.server = Server(cls(conf=conf, base_path=DATA), keyjar=kj, cwd=DATA)
        self.ctx = self.server.endpoint_context
        self.ctx.httpc_params = {}
        for cid, info in clients().items():
            self.ctx.cdb[cid] = info
            kj.import_jwks({"keys": [k for k in jwks("client%s_jwks.json" % cid[-1])["keys"]]}, cid)
            kj.add_symmetric(cid, info["client_secret"])
        self.sm = self.ctx.session_manager
        self.warm()

    # -- a past: what others did before must not matter ---------------------------------------
    def warm(self):
        """Everything once, for a user and two clients nobody hears of again: what a provider
        remembers of them must not show in answers to others."""
        if self.ctx.cdb is None or self.sm.db:
            return
        kj = self.ctx.keyjar
        userdb = getattr(self.ctx.userinfo, "db", None)
        broker = [self.ctx.authn_broker[k]["method"] for k in self.ctx.authn_broker.db]
        was = [(m, m.user) for m in broker if hasattr(m, "user")]
        for m, _ in was:
            m.user = "wanda"
        if isinstance(userdb, dict):
            userdb["wanda"] = {"name": "Wanda Warm", "email": "wanda@example.net", "nickname": "wanda", "phone_number": "+1"}
        for cid, more in WARM.items():
            info = copy.deepcopy(CLIENT_BASE)
            info.update(copy.deepcopy(more), client_secret="hemligt_for_" + cid, client_id=cid, redirect_uris=[("https://rpw.example.com/cb", None)])
            self.ctx.cdb[cid] = info
            kj.import_jwks({"keys": jwks("client_enc_jwks.json")["keys"] + jwks("client1_jwks.json")["keys"]}, cid)
            kj.add_symmetric(cid, info["client_secret"])
            for step in (self._warm_answers, self._warm_tokens, self._warm_tokens):
                try:
                    step(cid)
                except Exception:
                    pass
        for m, user in was:
            m.user = user
        for cid in WARM:
            for user in [u for u in ("wanda", "diana") if u in self.sm.db]:
                try:
                    self.sm.delete([user, cid])
                except Exception:
                    pass
            del self.ctx.cdb[cid]
            try:
                kj.remove(cid) if hasattr(kj, "remove") else kj._issuers.pop(cid, None)
            except Exception:
                kj._issuers.pop(cid, None)
        if isinstance(userdb, dict):
            userdb.pop("wanda", None)

    def _warm_request(self, cid, **kw):
        return dict({"client_id": cid, "redirect_uri": "https://rpw.example.com/cb", "scope": "openid email phone offline_access", "state": "W",
                     "nonce": "warm_nonce_123", "max_age": 100,
                     "response_type": "code token" if self.oauth2 else "code id_token token",
                     "claims": {"userinfo": {"phone_number": None, "name": {"essential": True}}, "id_token": {"nickname": None, "auth_time": None}}}, **kw)

    def _warm_answers(self, cid):
        ep = self.ep("authorization")
        for kw in ({}, {"response_type": "code", "prompt": "consent", "response_mode": "form_post"}, {"scope": "openid", "redirect_uri": "https://wrong.example.com"}):
            p = ep.parse_request(self._warm_request(cid, **kw))
            if "error" not in p:
                a = ep.process_request(p)
                ep.do_response(request=p, **a)

    def _warm_tokens(self, cid):
        req = AuthorizationRequest(**self._warm_request(cid, response_type="code"))
        sid = self.sm.create_session(create_authn_event("wanda"), req, "wanda", client_id=cid, sub_type="public")
        g = self.authorized(sid)
        code = self.mint(sid, "authorization_code")
        auth = {"client_id": cid, "client_secret": "hemligt_for_" + cid}

        def ask(name, req, **kw):
            ep = self.ep(name)
            if ep is None:
                return {}
            try:
                p = ep.parse_request(req, **kw)
                a = p if "error" in p else ep.process_request(p, **({"issue_refresh": True} if name == "token" else {}))
                if "error" not in p:
                    ep.do_response(request=p, **a)
                return a.get("response_args", a)
            except Exception:
                return {}

        a = ask("token", dict(auth, grant_type="authorization_code", code=code.value, redirect_uri="https://rpw.example.com/cb"))
        ask("token", dict(auth, grant_type="authorization_code", code=code.value, redirect_uri="https://rpw.example.com/cb"))
        tok, ref = a.get("access_token"), a.get("refresh_token")
        if ref:
            b = ask("token", dict(auth, grant_type="refresh_token", refresh_token=ref, scope="openid email"))
            ask("introspection", dict(auth, token=ref))
        for t in [tok, code.value]:
            if t:
                ask("introspection", dict(auth, token=t))
                if not self.oauth2:
                    ask("userinfo", {}, http_info={"headers": {"authorization": "Bearer " + t}})
        if not self.oauth2:
            for kw in ({}, {"as_if": "userinfo"}):
                self.mint(sid, "id_token", based_on=None, **kw)
            self.ep("session").logout_all_clients(sid)

    def ep(self, name):
        return self.server.server_get("endpoint", name)

    # -- building concrete-shaped state through the implementation's own API ----------------
    def session(self, client_id="client_1", user="diana", scope=("openid",), response_type="code",
                redirect_uri=None, authn_valid_until=None, sub_type="public", **extra):
        areq = AuthorizationRequest(
            client_id=client_id,
            redirect_uri=redirect_uri or "https://rp%s.example.com/cb" % client_id[-1],
            scope=list(scope), state="STATE", response_type=response_type, **extra
        )
        ae = create_authn_event(user)
        if authn_valid_until is not None:
            ae["valid_until"] = authn_valid_until
        sid = self.sm.create_session(ae, areq, user, client_id=client_id, sub_type=sub_type)
        return sid

    def authorized(self, sid, **kw):
        """Run the configured authorization policy on a session, as the authorization endpoint does."""
        grant = self.sm[sid]
        grant = self.ctx.authz(sid, grant.authorization_request)
        return grant

    def mint(self, sid, token_class, based_on=None, **kw):
        grant = self.sm[sid]
        rules = grant.usage_rules.get(token_class)
        tok = grant.mint_token(
            sid, endpoint_context=self.ctx, token_class=token_class,
            token_handler=self.sm.token_handler[token_class], based_on=based_on, usage_rules=rules, **kw
        )
        return tok


def oidc_world():
    return World()


def oauth2_world():
    return World(oauth2=True)


def ids(session_manager, sid):
    return session_manager.decrypt_session_id(sid)


def err_of(resp):
    """The OAuth error code of a response, or None."""
    if resp is None:
        return None
    try:
        if "error" in resp:
            return resp["error"]
    except TypeError:
        pass
    return None
