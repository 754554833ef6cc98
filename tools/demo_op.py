"""A small provider for the demonstrations (keys and files in a scratch directory)."""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

warnings.simplefilter("ignore")
SCRATCH = tempfile.mkdtemp(prefix="demo_op")
atexit.register(shutil.rmtree, SCRATCH, True)

from cryptojwt.key_jar import build_keyjar
from oidcmsg.oidc import AuthorizationRequest

from oidcop.authn_event import create_authn_event
from oidcop.authz import AuthzHandling
from oidcop.configure import ASConfiguration
from oidcop.configure import OPConfiguration
from oidcop.server import Server
from oidcop.user_info import UserInfo

ISS = "https://op.example.com"
KEYDEFS = [{"type": "RSA", "key": "", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}]
USERS = {
    "diana": {"name": "Diana Krall", "given_name": "Diana", "nickname": "Dina", "email": "diana@example.org", "email_verified": False},
    "babs": {"name": "Barbara J Jensen", "email": "babs@example.com", "email_verified": True, "nickname": "babs"},
}
RT = ["code", "token", "id_token", "code token", "code id_token", "id_token token", "code id_token token"]
AUTHN = ["client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"]
USAGE = {
    "authorization_code": {"expires_in": 300, "supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1},
    "access_token": {"expires_in": 600},
    "refresh_token": {"expires_in": 86400, "supports_minting": ["access_token", "refresh_token", "id_token"]},
}


class OP:
    def __init__(self, oauth2=False, jwt_tokens=True, tweak=None):
        pre = "oidcop.oauth2." if oauth2 else "oidcop.oidc."
        jt = {"class": "oidcop.token.jwt_token.JWTToken", "kwargs": {"lifetime": 3600, "aud": ["https://rs.example.com"]}}
        dt = {"kwargs": {"lifetime": 3600}}
        tha = {
            "jwks_def": {"private_path": os.path.join(SCRATCH, "token_jwks.json"), "read_only": False,
                         "key_defs": [{"type": "oct", "bytes": 24, "use": ["enc"], "kid": k} for k in ("code", "token", "refresh")]},
            "code": {"kwargs": {"lifetime": 600}},
            "token": dict(jt if jwt_tokens else dt),
            "refresh": dict(jt if jwt_tokens else dt),
        }
        if not oauth2:
            tha["id_token"] = {"class": "oidcop.token.id_token.IDToken", "kwargs": {}}
        args = {
            "response_types_supported": RT, "response_modes_supported": ["query", "fragment", "form_post"],
            "request_parameter_supported": True, "request_uri_parameter_supported": True, "claims_parameter_supported": True,
        }
        conf = {
            "issuer": ISS, "httpc_params": {"verify": False, "timeout": 1},
            "capabilities": {
                "response_types_supported": RT, "subject_types_supported": ["public", "pairwise", "ephemeral"],
                "grant_types_supported": ["authorization_code", "implicit", "refresh_token"], "claims_parameter_supported": True,
                "request_parameter_supported": True, "request_uri_parameter_supported": True,
            },
            "token_handler_args": tha,
            "cookie_handler": {
                "class": "oidcop.cookie_handler.CookieHandler",
                "kwargs": {"sign_key": "ghsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch",
                           "enc_key": "NXi6HD473d_YS4exVRn7z9z23mGmvU641MuvKqH0o7Y",
                           "name": {"session": "oidc_op", "register": "oidc_op_rp", "session_management": "oidc_op_sman"}},
            },
            "endpoint": {
                "authorization": {"path": "authorization", "class": pre + "authorization.Authorization", "kwargs": args},
                "token": {"path": "token", "class": pre + "token.Token", "kwargs": {"client_authn_method": list(AUTHN)}},
                "introspection": {"path": "introspection", "class": "oidcop.oauth2.introspection.Introspection",
                                  "kwargs": {"client_authn_method": ["client_secret_post"], "release": ["username"]}},
            },
            "authentication": {"anon": {"acr": "urn:oasis:names:tc:SAML:2.0:ac:classes:InternetProtocolPassword",
                                        "class": "oidcop.user_authn.user.NoAuthn", "kwargs": {"user": "diana"}}},
            "userinfo": {"class": UserInfo, "kwargs": {"db": {k: dict(v) for k, v in USERS.items()}}},
            "client_authn": "oidcop.client_authn.verify_client",
            "authz": {"class": AuthzHandling, "kwargs": {"grant_config": {"usage_rules": {k: dict(v) for k, v in USAGE.items()}, "expires_in": 43200}}},
            "session_params": {"password": "ses_key_0123456789abcdef", "salt": "ses_salt_0123456789abcdef"},
        }
        if not oauth2:
            conf["endpoint"].update({
                "provider_config": {"path": ".well-known/openid-configuration", "class": "oidcop.oidc.provider_config.ProviderConfiguration", "kwargs": {}},
                "registration": {"path": "registration", "class": "oidcop.oidc.registration.Registration", "kwargs": {"client_authn_method": None}},
                "userinfo": {"path": "userinfo", "class": "oidcop.oidc.userinfo.UserInfo", "kwargs": {"client_authn_method": ["bearer_header", "bearer_body"]}},
                "session": {"path": "end_session", "class": "oidcop.oidc.session.Session",
                            "kwargs": {"post_logout_uri_path": "post_logout", "signing_alg": "ES256", "logout_verify_url": ISS + "/verify_logout",
                                       "client_authn_method": None}},
            })
        if tweak:
            tweak(conf)
        kj = build_keyjar(KEYDEFS)
        kj.import_jwks(kj.export_jwks(True, ""), ISS)
        self.client_keys = {}
        self.server = Server((ASConfiguration if oauth2 else OPConfiguration)(conf=conf, base_path=SCRATCH), keyjar=kj, cwd=SCRATCH)
        self.ctx = self.server.endpoint_context
        self.sm = self.ctx.session_manager
        for n in "123":
            cid = "client_" + n
            self.ctx.cdb[cid] = {
                "client_secret": "hemligt_for_client_" + n, "redirect_uris": [("https://rp%s.example.com/cb" % n, None)],
                "client_salt": "salted", "token_endpoint_auth_method": "client_secret_post", "response_types": list(RT) + ["none"],
            }
            k = build_keyjar(KEYDEFS)
            self.client_keys[cid] = k
            kj.import_jwks(k.export_jwks(False, ""), cid)
            kj.add_symmetric(cid, self.ctx.cdb[cid]["client_secret"])

    def ep(self, name):
        return self.server.server_get("endpoint", name)

    def session(self, client_id="client_1", user="diana", scope=("openid",), response_type="code", sub_type="public", **extra):
        areq = AuthorizationRequest(client_id=client_id, redirect_uri="https://rp%s.example.com/cb" % client_id[-1],
                                    scope=list(scope), state="STATE", response_type=response_type, **extra)
        sid = self.sm.create_session(create_authn_event(user), areq, user, client_id=client_id, sub_type=sub_type)
        self.ctx.authz(sid, self.sm[sid].authorization_request)
        return sid

    def mint(self, sid, token_class, based_on=None, **kw):
        grant = self.sm[sid]
        return grant.mint_token(sid, endpoint_context=self.ctx, token_class=token_class, token_handler=self.sm.token_handler[token_class],
                                based_on=based_on, usage_rules=grant.usage_rules.get(token_class), **kw)

    def run(self, name, req, **kw):
        """parse and process; the response or None when refused."""
        ep = self.ep(name)
        try:
            p = ep.parse_request(req, **kw)
            if "error" in p:
                return None
            r = ep.process_request(p, **kw)
        except Exception:
            return None
        return None if r is None or "error" in r else r

    def redeem(self, code, client="client_1", **kw):
        r = self.run("token", dict({"grant_type": "authorization_code", "code": code, "client_id": client,
                                    "client_secret": self.ctx.cdb[client]["client_secret"],
                                    "redirect_uri": "https://rp%s.example.com/cb" % client[-1]}, **kw))
        return r and r.get("response_args")

    def refresh(self, token, client="client_1", **kw):
        r = self.run("token", dict({"grant_type": "refresh_token", "refresh_token": token, "client_id": client,
                                    "client_secret": self.ctx.cdb[client]["client_secret"]}, **kw))
        return r and r.get("response_args")

    def userinfo(self, token):
        r = self.run("userinfo", {}, http_info={"headers": {"authorization": "Bearer " + token}})
        return r and r.get("response_args")

    def introspect(self, token, client="client_1"):
        r = self.run("introspection", {"token": token, "client_id": client, "client_secret": self.ctx.cdb[client]["client_secret"]})
        return r and r.get("response_args")


def verdict(ok, what):
    print(("holds: " if ok else "BROKEN: ") + what)
    sys.exit(0 if ok else 1)
