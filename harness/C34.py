"""C34: the algorithms of what the provider signs and encrypts."""
from cryptojwt.jwe.jwe import factory as jwe_factory
from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import factory

from oidcop.token.id_token import get_sign_and_encrypt_algorithms

from engine.harness_api import Harness
from harness.C01 import redeem
from harness.C24 import message
from harness.C24 import register
from harness.world import ISS
from harness.world import NOW
from harness.world import World
from harness.world import jwks

SIGN = [None, "RS256", "RS384", "ES256", "none"]
ENC = [(None, None), ("RSA-OAEP", None), ("RSA-OAEP", "A256GCM"), ("ECDH-ES", "A128CBC-HS256"), (None, "A256GCM")]
PROVIDERS = {
    "usual": None,
    "no_rs256": ["ES256", "RS512"],
    "none_first": ["none", "ES256"],
    "none_before": ["none", "RS256", "ES256"],
}
ENC_SUPPORTED = ["A192GCM", "A128CBC-HS256", "A256GCM"]


def tweak(which):
    def f(conf):
        idt, ui = conf["token_handler_args"]["id_token"]["kwargs"], conf["endpoint"]["userinfo"]["kwargs"]
        if PROVIDERS[which]:
            idt["id_token_signing_alg_values_supported"] = list(PROVIDERS[which])
            ui["userinfo_signing_alg_values_supported"] = list(PROVIDERS[which])
            idt["id_token_encryption_enc_values_supported"] = list(ENC_SUPPORTED)
            ui["userinfo_encryption_enc_values_supported"] = list(ENC_SUPPORTED)

    return f


def world(which):
    def setup():
        w = World(tweak=tweak(which))
        w.which = which
        for c in ("client_1", "client_2"):
            w.ctx.keyjar.import_jwks(jwks("client_enc_jwks.json"), c)
            w.ctx.cdb[c]["client_id"] = c
        return w

    return setup


def opened(ctx, value):
    """-> headers of the encryption (None if there is none) and of what is inside (None if unsigned)"""
    if value.startswith("{"):
        return None, None
    e = jwe_factory(value)
    eh = None
    if e is not None:
        eh = e.jwt.headers
        value = e.decrypt(value, keys=[key_from_jwk_dict(k) for k in jwks("client_enc_jwks.json")["keys"]])
        if isinstance(value, bytes):
            value = value.decode()
    s = factory(value)
    return eh, (s.jwt.headers if s is not None else None)


def default_sign(w, kind):
    """What the provider signs with when nobody said: one algorithm, or None when any but "none" will do."""
    sup = PROVIDERS[w.which]
    if kind in w.ctx.jwx_def.get("signing_alg", {}):
        return w.ctx.jwx_def["signing_alg"][kind]
    if sup is None or "RS256" in sup:
        return "RS256"
    return next(a for a in sup if a != "none")


def expect(ctx, w, kind, value, sign, enc, what, always_signed=True):
    eh, sh = opened(ctx, value)
    if enc[0]:
        ctx.check(eh is not None, what + " is not encrypted for a client that registered for it")
        ctx.check(eh["alg"] == enc[0], what + " is not encrypted with the registered algorithm")
        if enc[1]:
            ctx.check(eh["enc"] == enc[1], what + " is not encrypted with the registered content encryption")
        else:
            sup = w.ctx.provider_info[kind + "_encryption_enc_values_supported"]
            d = w.ctx.jwx_def.get("encryption_enc", {}).get(kind)
            ctx.check(eh["enc"] == d if d else eh["enc"] in sup, what + " is not encrypted with the provider's content encryption")
    else:
        ctx.check(eh is None, what + " is encrypted for a client that did not register for it")
    if sign:
        ctx.check(sh is not None and sh["alg"] == sign, what + " is not signed with the registered algorithm")
    elif always_signed:
        ctx.check(sh is not None and sh["alg"] != "none", what + " is unsigned and nobody asked for that")
        ctx.check(sh["alg"] == default_sign(w, kind), what + " is not signed with the provider's default")
    else:
        ctx.check(sh is None, what + " is signed and nobody asked for that")


def client_registers(ctx, w, kind, client, ns=len(SIGN), ne=len(ENC)):
    sign = ctx.pick("signed_response_alg", SIGN[:ns] if ns < len(SIGN) else SIGN)
    enc = ctx.pick("encrypted_response", ENC[:ne])
    info = w.ctx.cdb[client]
    if sign:
        info[kind + "_signed_response_alg"] = sign
    if enc[0]:
        info[kind + "_encrypted_response_alg"] = enc[0]
    if enc[1]:
        info[kind + "_encrypted_response_enc"] = enc[1]
    # another client's choice, and one for another kind of answer
    o = w.ctx.cdb["client_2" if client == "client_1" else "client_1"]
    o[kind + "_signed_response_alg"] = "RS512"
    o[kind + "_encrypted_response_alg"] = "RSA-OAEP-256"
    info[("userinfo" if kind == "id_token" else "id_token") + "_signed_response_alg"] = "RS512"
    d = {}
    if ctx.flag("provider_signing_default"):
        d["signing_alg"] = {kind: "ES256", "userinfo" if kind == "id_token" else "id_token": "RS512"}
    if ctx.flag("provider_encryption_default"):
        d["encryption_enc"] = {kind: "A192GCM"}
    w.ctx.jwx_def = d
    return sign, enc


def id_tokens(ctx, w):
    """ID tokens: minted, with an authorization answer, redeemed, refreshed."""
    ctx.set_time(NOW)
    client = ctx.pick("client", ["client_1", "client_2"])
    sign, enc = client_registers(ctx, w, "id_token", client)
    route = ctx.pick("route", ["authorization", "hybrid", "redeem", "refresh"])
    rt = {"authorization": "id_token", "hybrid": "code id_token token"}.get(route, "code")
    sid = w.session(client, scope=["openid", "offline_access"], response_type=rt, nonce="nonce_value_123")
    g = w.authorized(sid)
    if route in ("authorization", "hybrid"):
        r = ctx.call(w.ep("authorization").create_authn_response, g.authorization_request, sid)
    else:
        code = w.mint(sid, "authorization_code")
        if route == "redeem":
            req = {"grant_type": "authorization_code", "code": code.value, "redirect_uri": "https://rp%s.example.com/cb" % client[-1]}
        else:
            req = {"grant_type": "refresh_token", "refresh_token": w.mint(sid, "refresh_token", based_on=code).value}
        req.update(client_id=client, client_secret="hemligt_for_" + client)
        r = redeem(ctx, w, req)
    ctx.check(r.ok and "response_args" in r.value and "id_token" in r.value["response_args"], "no ID token in the answer")
    ctx.cover(route)
    ctx.cover("encrypted" if enc[0] else "plain")
    expect(ctx, w, "id_token", r.value["response_args"]["id_token"], sign, enc, "the ID token")


def userinfo(ctx, w):
    """User info answers."""
    ctx.set_time(NOW)
    client = ctx.pick("client", ["client_1", "client_2"])
    sign, enc = client_registers(ctx, w, "userinfo", client)
    sid = w.session(client, scope=["openid", "email"])
    w.authorized(sid)
    tok = w.mint(sid, "access_token")
    ep = w.ep("userinfo")
    p = ctx.call(ep.parse_request, {}, http_info={"headers": {"authorization": "Bearer " + tok.value}})
    ctx.check(p.ok and "error" not in p.value, "a good request is refused")
    a = ctx.call(ep.process_request, p.value)
    ctx.check(a.ok and "response_args" in a.value, "a good request is refused")
    r = ctx.call(ep.do_response, request=p.value, **a.value)
    ctx.check(r.ok, "no user info")
    ctx.cover("signed" if sign else "unsigned")
    ctx.cover("encrypted" if enc[0] else "plain")
    expect(ctx, w, "userinfo", r.value["response"], sign, enc, "the user info", always_signed=False)
    want = "application/jwt" if sign or enc[0] else "application/json"
    ctx.check(("Content-type", want) in r.value["http_headers"], "the user info is not labelled as what it is")


def logout(ctx, w):
    """Logout tokens sent to clients."""
    ctx.set_time(NOW)
    sign = ctx.pick("signed_response_alg", SIGN)
    for c in ("client_1", "client_2"):
        w.ctx.cdb[c]["backchannel_logout_uri"] = "https://rp.example.com/back"
        if c == "client_2":
            w.ctx.cdb[c]["id_token_signed_response_alg"] = "RS512"
        elif sign:
            w.ctx.cdb[c]["id_token_signed_response_alg"] = sign
    w.ctx.cdb["client_1"]["userinfo_signed_response_alg"] = "RS384"
    sid = w.session("client_1", scope=["openid"])
    w.authorized(sid)
    code = w.mint(sid, "authorization_code")
    w.mint(sid, "id_token", based_on=code)
    r = ctx.call(w.ep("session").logout_all_clients, sid)
    ctx.check(r.ok and "client_1" in r.value["blu"], "no logout token")
    ctx.cover("registered" if sign else "default")
    eh, sh = opened(ctx, r.value["blu"]["client_1"][1])
    ctx.check(sh is not None, "the logout token is not a signed JWT")
    if sign:
        ctx.check(sh["alg"] == sign, "the logout token is not signed with the registered algorithm")
    else:
        ctx.check(sh["alg"] != "none", "the logout token is unsigned and nobody asked for that")
        ctx.check(sh["alg"] in w.ctx.provider_info["id_token_signing_alg_values_supported"], "the logout token's algorithm is not one of the provider's")


def access_tokens(ctx, w):
    """JWT access and refresh tokens use the algorithm configured for them, whatever clients registered."""
    ctx.set_time(NOW)
    cls = ctx.pick("class", ["access_token", "refresh_token"])
    alg = ctx.pick("alg", [None, "ES256", "RS256", "RS512"])
    w.ctx.cdb["client_1"]["id_token_signed_response_alg"] = ctx.pick("registered", ["none", "RS384"])
    h = w.sm.token_handler[cls]
    if alg:
        h.alg = alg
    sid = w.session("client_1", scope=["openid", "offline_access"])
    w.authorized(sid)
    code = w.mint(sid, "authorization_code")
    t = w.mint(sid, cls, based_on=code)
    eh, sh = opened(ctx, t.value)
    ctx.cover(cls)
    ctx.check(eh is None and sh is not None and sh["alg"] == (alg or "ES256"), "the token is not signed with the algorithm configured for it")


def dynamic(ctx, w):
    """What a client registers itself."""
    ctx.set_time(NOW)
    sign = ctx.pick("signed_response_alg", [None, "RS256", "RS512", "ES256", "ES384", "none", "XX256"])
    ui = ctx.pick("userinfo_signed_response_alg", [None, "RS384", "none"])
    enc = ctx.pick("encrypted_response", [(None, None), ("RSA-OAEP", "A256GCM"), ("ECDH-ES", None)])
    req = {"redirect_uris": ["https://new.example.com/cb"], "response_types": ["code"], "client_name": "new"}
    if sign:
        req["id_token_signed_response_alg"] = sign
    if ui:
        req["userinfo_signed_response_alg"] = ui
    if enc[0]:
        req["id_token_encrypted_response_alg"] = enc[0]
        if enc[1]:
            req["id_token_encrypted_response_enc"] = enc[1]
    a = register(ctx, w, message(req))
    if a is None:
        ctx.cover("refused")
        return
    ctx.cover("registered")
    cid = a["client_id"]
    w.ctx.keyjar.import_jwks(jwks("client_enc_jwks.json"), cid)
    told = a.get("id_token_signed_response_alg")
    supported = sign is None or sign in w.ctx.provider_info["id_token_signing_alg_values_supported"]
    if sign and supported and sign != "ES384":
        ctx.check(told == sign, "a supported algorithm is not registered")
        ctx.cover("as_asked")
    sid = w.session(cid, scope=["openid"], redirect_uri="https://new.example.com/cb", response_type="code")
    w.authorized(sid)
    t = ctx.call(w.mint, sid, "id_token")
    ctx.check(t.ok, "no ID token")
    expect(ctx, w, "id_token", t.value.value, sign if supported and sign != "ES384" else None, enc, "the ID token")


def choice(ctx, w):
    """The choice itself over algorithm names nobody has heard of."""
    kind = ctx.pick("kind", ["id_token", "userinfo", "request_object"])
    info, d, want = {"client_id": "client_1"}, {}, {}
    deny = {"id_token": "userinfo", "userinfo": "id_token", "request_object": "id_token"}[kind]
    info[deny + "_signed_response_alg"] = "NOT_THIS"
    which = ctx.pick("which", ["sign_alg", "enc_alg", "enc_enc"]) if ctx.params.get("one", True) else None
    for key, reg, dflt, sup in (("sign_alg", "_signed_response_alg", "signing_alg", "_signing_alg_values_supported"),
                                ("enc_alg", "_encrypted_response_alg", "encryption_alg", "_encryption_alg_values_supported"),
                                ("enc_enc", "_encrypted_response_enc", "encryption_enc", "_encryption_enc_values_supported")):
        names = [ctx.str(key + ".%d" % i, 8, minlen=1) for i in range(4)]
        free = which in (None, key)
        on = ctx.pick(key + ".supported", [None, 1, 2]) if free else 2
        if on is None:
            w.ctx.provider_info.pop(kind + sup, None)
        else:
            w.ctx.provider_info[kind + sup] = names[2: 2 + on]
        d[dflt] = {deny: "NOT_THIS"}
        if free and ctx.flag(key + ".default"):
            d[dflt][kind] = names[1]
        if not free or ctx.flag(key + ".registered"):
            info[kind + reg] = names[0]
            want[key] = names[0]
        elif kind in d[dflt]:
            want[key] = names[1]
        elif key == "sign_alg":
            if on is None:
                want[key] = "RS256"
            else:
                s = names[2: 2 + on]
                w1 = "RS256"
                for x in reversed(s):
                    w1 = ctx.ite(x != "none", x, w1)
                want[key] = ctx.ite(ctx.any(False, *[x == "RS256" for x in s]), "RS256", w1)
        elif on is not None:
            want[key] = names[2]
    w.ctx.jwx_def = d
    sign, enc = ctx.flag("sign"), ctx.flag("encrypt")
    r = ctx.call(get_sign_and_encrypt_algorithms, w.ctx, info, kind, sign=sign, encrypt=enc)
    ctx.check(r.ok, "no choice")
    a = r.value
    ctx.check(a["sign"] == sign and a["encrypt"] == enc, "not signed or encrypted as told")
    ctx.cover("signed" if sign else "unsigned")
    ctx.cover("encrypted" if enc else "plain")
    for key, on in (("sign_alg", sign), ("enc_alg", enc), ("enc_enc", enc)):
        if on and key in want:
            ctx.check(key in a and a[key] == want[key], key + " is neither the registered nor the default one")
        elif on:
            ctx.check(not a.get(key), key + " out of thin air")


def per(name, fn, **kw):
    return [Harness(name + "_" + k, fn, world(k), **kw) for k in PROVIDERS]


HARNESSES = [
    Harness("choice", choice, world("usual"), covers=["signed", "unsigned", "encrypted", "plain"], thorough={"one": False},
            bounds="every presence of registered, default and up to two supported values for each of the three algorithms; names any text <= 8 chars"),
] + per("id_tokens", id_tokens, covers=["authorization", "hybrid", "redeem", "refresh", "encrypted", "plain"],
        bounds="5 registered signing algorithms (and none), 5 registered encryptions, provider defaults present or not, two clients, four routes") + per(
    "userinfo", userinfo, covers=["signed", "unsigned", "encrypted", "plain"], bounds="as id_tokens") + per(
    "logout", logout, covers=["registered", "default"], bounds="5 registered signing algorithms") + [
    Harness("access_tokens", access_tokens, world("usual"), covers=["access_token", "refresh_token"], bounds="4 configured algorithms"),
] + per("dynamic", dynamic, covers=["registered", "as_asked"], bounds="7 x 3 x 3 registrations")
