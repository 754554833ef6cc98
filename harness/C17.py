"""C17: prompt, max_age and single sign-on are honoured."""
import json

from engine.harness_api import Harness
from harness.common import BIG
from harness.common import all_tokens
from harness.world import NOW
from harness.world import World

AUTHN = {
    "user": {
        "acr": "urn:oasis:names:tc:SAML:2.0:ac:classes:InternetProtocolPassword",
        "class": "oidcop.user_authn.user.UserPassJinja2",
        "kwargs": {"verify_endpoint": "verify/user", "template": "user_pass.jinja2",
                   "db": {"class": dict, "kwargs": {"diana": "krall", "babs": "howes"}}},
    }
}


class Pages:
    def render(self, template, **kw):
        return "PAGE"


def login(conf):
    conf["authentication"] = {"user": dict(AUTHN["user"], kwargs=dict(AUTHN["user"]["kwargs"]))}


def _world(oauth2):
    w = World(oauth2=oauth2, tweak=login)
    w.method = w.ctx.authn_broker["user"]["method"]
    w.method.template_handler = Pages()
    return w


def oidc():
    return _world(False)


def oauth2():
    return _world(True)


def area(w, **kw):
    req = {"client_id": "client_1", "redirect_uri": "https://rp1.example.com/cb", "scope": "openid", "state": "STATE",
           "response_type": "code", "nonce": "NONCE"}
    req.update(kw)
    return req


def outcome(ctx, r):
    if not r.ok:
        return "exc"
    v = r.value
    if "http_response" in v:
        return "page" if v["http_response"] == "PAGE" else "broken"
    if "response_msg" in v:
        return "error:login_required" if "login_required" in str(v["response_msg"]) else (
            "code" if 'name="code"' in str(v["response_msg"]) else "form")
    if "error" in v:
        return "error:" + v["error"]
    ra = v.get("response_args") or {}
    if "error" in ra:
        return "error:" + ra["error"]
    return "code" if "code" in ra else "other"


def sso(ctx, w):
    """Any request, any cookie, any state of the session behind it, at any time."""
    ep = w.ep("authorization")
    user = ctx.pick("user", ["diana", "babs"])
    sid = w.session("client_1", user=user, nonce="NONCE")
    grant = w.authorized(sid)
    other = w.session("client_2", user=user)
    w.authorized(other)
    cookie = ctx.pick("cookie", ["mine", "none", "other_client", "gone", "both", "old_style"])
    prompt = ctx.pick("prompt", ["", "none", "login", "consent", "consent login"])
    kw = {}
    if prompt:
        kw["prompt"] = prompt
    same_request = ctx.flag("same_request")
    if not same_request:
        kw["state"] = "ANOTHER"
    if ctx.flag("upm_answer"):
        kw["upm_answer"] = "true"
    hint = ctx.pick("login_hint", ["", "same", "other"]) if not w.oauth2 and not same_request and not kw.get("upm_answer") else ""
    if hint:
        w.ctx.login_hint_lookup = lambda h: h
        kw["login_hint"] = user if hint == "same" else "somebody"
    mode = ctx.pick("response_mode", ["", "form_post"]) if prompt == "none" else ""
    if mode:
        kw["response_mode"] = mode
    r = ctx.call(ep.parse_request, area(w, **kw))
    ctx.assume(r.ok and "error" not in r.value)
    request = r.value
    ma = None
    if ctx.flag("with_max_age"):
        ma = ctx.int("max_age", 0, BIG)
        request["max_age"] = ma
    # the state of the session
    ae = grant.authentication_event
    authn_time = ctx.int("authn_time", 1, BIG)
    valid_until = ctx.int("valid_until", 1, BIG)
    ae["authn_time"], ae["valid_until"] = authn_time, valid_until
    grant.revoked = revoked = ctx.bool("revoked")
    grant.expires_at = expires_at = ctx.int("expires_at", 0, BIG)
    stamp = ctx.int("cookie_time", 1, BIG)
    now = NOW  # every other instant is relative to it
    # the cookie was handed out by an earlier answer, after the user had authenticated
    ctx.assume(ctx.all(authn_time <= stamp, stamp <= now))
    ctx.set_time(now)
    if cookie == "gone":
        w.sm.delete(list(w.sm.decrypt_session_id(sid)))
    val = {"mine": [sid], "none": [], "other_client": [other], "gone": [sid], "both": [other, sid],
           "old_style": [w.sm.session_key(*w.sm.decrypt_session_id(sid))]}[cookie]
    cookies = [{"value": json.dumps({"sid": s, "state": "STATE"}), "type": "", "timestamp": stamp} for s in val]
    n0 = len(all_tokens(w.sm))
    w.ctx.cookie_handler.parse_cookie = lambda name, c: c
    p = ctx.call(ep.process_request, request, http_info={"cookie": cookies} if cookies else {})
    kind = outcome(ctx, p)
    ctx.note(kind)
    ctx.check(kind in ("code", "page", "error:login_required"), "the request is neither answered nor sent to authentication nor refused")
    fresh = ctx.all(ctx.neg(revoked), ctx.any(expires_at == 0, now <= expires_at), now < valid_until,
                    True if ma is None else now <= authn_time + ma, cookie in ("mine", "both"))
    if kind == "code":
        ctx.cover("single sign-on")
        ctx.check("login" not in prompt, "login was demanded, but the user is not asked")
        ctx.check(cookie in ("mine", "both", "old_style"), "answered without a cookie for a session of this user and client")
        ctx.check(hint != "other", "answered for another user than the request is about")
        ctx.check(ctx.neg(revoked), "answered on a revoked session")
        ctx.check(now < valid_until, "answered on an authentication that is no longer valid")
        if ma is not None:
            ctx.check(now <= authn_time + ma, "answered on an authentication older than the requested maximum age")
        ctx.check(w.sm.decrypt_session_id(p.value["session_id"])[0] == user, "answered for another user")
        ev = w.sm.get_authentication_event(p.value["session_id"])
        ctx.check(ctx.all(ev["authn_time"] == authn_time, ev["valid_until"] == valid_until, ev["uid"] == user),
                  "single sign-on makes the authentication look newer than it is")
    else:
        ctx.check(len(all_tokens(w.sm)) == n0, "tokens come into being without an answer")
        if kind == "page":
            ctx.cover("asked")
            ctx.check(prompt != "none", "an authentication page although prompt is none")
        else:
            ctx.cover("refused")
            ctx.check(prompt == "none", "an error although the user may be asked")
        if "login" not in prompt and hint != "other" and cookie in ("mine", "both"):
            if ma is None or not ma == 0:
                ctx.check(ctx.neg(fresh), "the user is asked although the session is good")


HARNESSES = [
    Harness("sso", sso, oidc, covers=["single sign-on", "asked", "refused"],
            bounds="five prompts, six cookies, any maximum age, authentication time, validity, clock and cookie time, any grant state"),
    Harness("sso_oauth2", sso, oauth2, covers=["single sign-on", "asked", "refused"], bounds="the same at the OAuth2 endpoint"),
]
