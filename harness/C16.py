"""C16: values placed in HTML answers cannot break out of them."""
from engine.harness_api import Harness
from harness.C13 import registered
from harness.C13 import parse_query
from harness.world import NOW
from harness.world import oauth2_world
from harness.world import oidc_world

from oidcop.oidc.session import do_front_channel_logout_iframe

# every character that means something to an HTML parser in or around attribute values, and some that do not
META = "<>\"'&;=/ \t\n`#xla3-"
ENTITIES = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'"}
SPACE = " \t\n\r\f"


class Broken(Exception):
    pass


def one_of(c, chars):
    for x in chars:
        if c == x:
            return True
    return False


def entity(v, i):
    """The character reference at v[i] (an ampersand) and where it ends; (None, i): a bare ampersand."""
    j = i + 1
    name = ""
    while j < len(v) and len(name) < 8:
        c = v[j]
        if c == ";":
            if name in ENTITIES:
                return ENTITIES[name], j + 1
            if name[:1] == "#":
                if name in ("#", "#x", "#X") or not all(h in "0123456789abcdefABCDEF" for h in name[2:]):
                    return None, i
                return chr(int(name[2:], 16) if name[1:2] in ("x", "X") else int(name[1:])), j + 1
            raise Broken("unknown character reference")
        if one_of(c, '&<>"\' '):
            break
        for known in "#xX0123456789ampltgtquotabcdefs":
            if c == known:
                name += known
                break
        else:
            break
        j += 1
    if name[:1] == "#" and name[-1] in "0123456789":
        raise Broken("a character reference without end")
    for n in ("amp", "lt", "gt", "quot"):  # references that are understood without their semicolon
        if name[:len(n)] == n:
            raise Broken("a character reference without end")
    return None, i


def decode(v):
    out, i = "", 0
    while i < len(v):
        if v[i] == "&":
            c, j = entity(v, i)
            if c is None:
                out = out + "&"
                i += 1
            else:
                out = out + c
                i = j
        else:
            out = out + v[i]
            i += 1
    return out


def parse(page):
    """The tags of a page with their decoded attributes, as a browser would find them."""
    tags, text = [], []
    i, n = 0, len(page)
    while i < n:
        if page[i] != "<":
            text.append(page[i])
            i += 1
            continue
        i += 1
        close = i < n and page[i] == "/"
        if close:
            i += 1
        name = ""
        while i < n and not one_of(page[i], SPACE + "/>"):
            name = name + page[i]
            i += 1
        attrs = []
        while True:
            while i < n and one_of(page[i], SPACE + "/"):
                i += 1
            if i >= n:
                raise Broken("a tag without end")
            if page[i] == ">":
                i += 1
                break
            a = ""
            while i < n and not one_of(page[i], SPACE + "/>="):
                a = a + page[i]
                i += 1
            while i < n and one_of(page[i], SPACE):
                i += 1
            v = None
            if i < n and page[i] == "=":
                i += 1
                while i < n and one_of(page[i], SPACE):
                    i += 1
                if i < n and one_of(page[i], "\"'"):
                    q = '"' if page[i] == '"' else "'"
                    i += 1
                    v = ""
                    while i < n and page[i] != q:
                        v = v + page[i]
                        i += 1
                    if i >= n:
                        raise Broken("an attribute without end")
                    i += 1
                else:
                    v = ""
                    while i < n and not one_of(page[i], SPACE + ">"):
                        v = v + page[i]
                        i += 1
                v = decode(v)
            attrs.append((a, v))
        if not close:
            tags.append((name, attrs))
    return tags, text


def page_of(ctx, page):
    try:
        return parse(page)
    except Broken:
        ctx.fail("the page does not parse")


def judge(ctx, page, action, fields):
    """One form, posting to ``action``, with exactly the given hidden fields and no other markup."""
    tags, text = page_of(ctx, page)
    for name, attrs in tags:
        ctx.check(name in ("html", "head", "title", "body", "form", "input", "meta", "!DOCTYPE", "!doctype", "noscript", "button"),
                  "markup appears in the page that does not belong there")
    for name, attrs in tags:
        for a, v in attrs:
            if a[:2] == "on":
                ctx.check(name == "body" and a == "onload", "an event handler appears in the page")
    forms = [dict(a) for n, a in tags if n == "form"]
    ctx.check(len(forms) == 1 and forms[0].get("method") in ("post", "POST"), "not exactly one form that is posted")
    ctx.check(forms[0]["action"] == action, "the form's target is not the redirect URI")
    got = []
    for n, attrs in tags:
        if n != "input":
            continue
        ctx.check(len(attrs) == len(set(a for a, _ in attrs)) and set(a for a, _ in attrs) <= {"type", "name", "value"},
                  "an input field with other attributes")
        d = dict(attrs)
        ctx.check(d.get("type") == "hidden", "an input field that is not hidden")
        got.append((d["name"], d["value"]))
    ctx.check(len(got) == len(fields), "fields are missing from the form, or there are more than there should be")
    left = list(got)
    for k, v in fields.items():
        for i, (n, w) in enumerate(left):
            if type(n) is str and n == k:
                ctx.check(w == v, "a field's value is not the parameter's value")
                del left[i]
                break
        else:
            ctx.fail("a parameter has no field")


def text_of(v):
    if isinstance(v, (list, tuple)):
        return " ".join(str(x) for x in v)
    if isinstance(v, int):
        return str(v)
    return v


def answer(ctx, w):
    """A whole authorization answered by form post, the state arbitrary."""
    n = ctx.params.get("chars", 2)
    state = "s" + ctx.chars("state", n, 1, META)
    w.ctx.cdb["client_1"]["redirect_uris"] = [("https://rp1.example.com/cb", {"a": ['x"y'], "b": ["1"]})]
    uri = "https://rp1.example.com/cb?a=x\"y&b=1"
    ep = w.ep("authorization")
    rt = ctx.pick("response_type", ["code", "code token"] if w.oauth2 else ["code", "code id_token token"])
    req = {"client_id": "client_1", "redirect_uri": uri, "scope": "openid email", "response_type": rt, "nonce": "N",
           "response_mode": "form_post", "state": "STATE"}
    r = ctx.call(ep.parse_request, req)
    ctx.assume(r.ok and "error" not in r.value)
    r.value["state"] = state
    ctx.set_time(NOW)
    sid = w.session("client_1", scope=["openid", "email"], redirect_uri=uri, response_type=rt)
    seen = {}
    create = ep.create_authn_response

    def spy(*a, **kw):
        info = create(*a, **kw)
        seen.update(info["response_args"])
        return info

    ep.create_authn_response = spy
    p = ctx.call(ep.post_authentication, r.value, sid)
    ctx.check(p.ok and "response_msg" in p.value, "no form is answered")
    d = ctx.call(ep.do_response, **p.value)
    ctx.check(d.ok, "the answer can not be delivered")
    ctx.check(("Content-type", "text/html") in d.value["http_headers"] or any(
        "text/html" in str(v) for k, v in d.value["http_headers"]), "the form is not delivered as a page")
    fields = {k: text_of(v) for k, v in seen.items()}
    ctx.check(fields.get("state") == state and "code" in fields, "the answer is not the one that was made")
    judge(ctx, d.value["response"], uri, fields)
    ctx.cover("answered")


def form(ctx, w):
    """The form itself: any parameter value, any name, any target."""
    n = ctx.params.get("chars", 3)
    what = ctx.pick("symbolic", ["value", "description", "action", "name"])
    ep = w.ep("authorization")
    args = {"state": "STATE", "code": "abc"}
    action = "https://rp1.example.com/cb"
    s = ctx.chars("s", n, 1, META)
    if what == "value":
        args["state"] = s
    elif what == "description":
        args = {"error": "invalid_request", "error_description": s, "state": "STATE"}
    elif what == "action":
        action = "https://rp1.example.com/cb?" + s
    else:
        args["x" + s] = "y"
    fields = dict(args)
    r = ctx.call(ep.response_mode, {"response_mode": "form_post"}, response_args=args, return_uri=action)
    ctx.check(r.ok, "no form is made")
    if what == "name":
        tags, _ = page_of(ctx, r.value["response_msg"])
        ins = [dict(a) for t, a in tags if t == "input"]
        ctx.check(len(ins) == 3 and len([t for t in tags if t[0] not in ("input", "form", "body", "head", "html", "title")]) == 0,
                  "a parameter's name changes the form")
        ctx.check(ctx.any(*[i["name"] == "x" + s for i in ins]), "a parameter has no field")
    else:
        judge(ctx, r.value["response_msg"], action, fields)
    ctx.cover(what)


def frames(ctx, w):
    """The frames of a front-channel logout: one frame, no way out of it, whatever URI was registered."""
    n = ctx.params.get("chars", 3)
    s = ctx.chars("uri", n, 1, META)
    url = "https://rp1.example.com/fc" + ctx.pick("sep", ["", "?x="]) + s
    c = {"frontchannel_logout_uri": url}
    req = ctx.flag("session_required")
    if req:
        c["frontchannel_logout_session_required"] = True
    r = ctx.call(do_front_channel_logout_iframe, c, "https://op.example.com", "SID")
    ctx.check(r.ok, "no frame is made")
    tags, text = page_of(ctx, r.value)
    ctx.check(len(tags) == 1 and tags[0][0] == "iframe", "not exactly one frame")
    a = tags[0][1]
    ctx.check(len(a) == 1 and a[0][0] == "src", "the frame has other attributes than its source")
    if not req:
        ctx.check(a[0][1] == url, "the frame's source is not the client's URI")
    ctx.cover("framed")


HARNESSES = [
    Harness("form", form, oidc_world, covers=["value", "description", "action", "name"], quick={"chars": 3}, thorough={"chars": 4},
            bounds="one parameter value, name or the target, up to 3 (thorough: 4) arbitrary characters, every HTML metacharacter among them"),
    Harness("answer", answer, oidc_world, covers=["answered"], quick={"chars": 2}, thorough={"chars": 3},
            bounds="a whole OIDC authorization, state of up to 3 (4) characters"),
    Harness("answer_oauth2", answer, oauth2_world, covers=["answered"], quick={"chars": 2}, thorough={"chars": 3},
            bounds="the same at the OAuth2 endpoint"),
    Harness("frames", frames, oidc_world, covers=["framed"], quick={"chars": 3}, thorough={"chars": 4},
            bounds="a front-channel logout URI ending in up to 3 (4) arbitrary characters"),
]
