"""The properties: single source for properties.jsonl and MANIFEST.json (run tools/gen.py)."""

P = []


def prop(id, title, statement, over, qtext, why, files, mech):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": ["src/oidcop/" + f for f in files],
                    "mechanism": [{"name": n, "where": "src/oidcop/" + w} for n, w in mech]},
    })


prop("C01", "An authorization code is redeemed at most once, in time, by its owner",
     "The token endpoint hands out tokens for an authorization code only if this code was issued to the very client that "
     "authenticated, the request names the redirect URI of the authorization request, and neither the code nor the grant "
     "behind it is used up, revoked, expired or not yet valid. However several requests presenting the same code interleave "
     "(parsed before any is processed, processed in any order, from the owner or another client), at most one of them yields tokens.",
     ["inputs", "schedules", "histories"],
     "Every client/code/redirect-URI combination, every life-cycle state of code and grant, every clock value, every parse/process interleaving of up to three requests; OAuth2 and OIDC token endpoints.",
     "Tests redeem one fresh code once or twice sequentially; the property ranges over all life-cycle states, clock values and interleavings.",
     ["oauth2/token.py", "oidc/token.py", "session/grant.py", "session/token.py"],
     [("code checks and minting", "oauth2/token.py:AccessTokenHelper"), ("code checks and minting", "oidc/token.py:AccessTokenHelper"),
      ("usage counting", "session/token.py:Item")])

prop("C02", "Replaying an authorization code invalidates the tokens it produced",
     "When an authorization code that has already been redeemed is presented again at the OpenID Connect token endpoint, the "
     "request is refused and every access and refresh token that was minted from that code, directly or through any chain of "
     "refreshes, is revoked; tokens of other codes and of other grants stay as they were.",
     ["histories", "inputs"],
     "Every token tree of up to five tokens below two codes, every prior revocation pattern.",
     "Tests replay a code after a single redemption, never with arbitrary derivation trees beside unrelated tokens.",
     ["oidc/token.py", "session/grant.py"],
     [("replay detection", "oidc/token.py:AccessTokenHelper.post_parse_request"), ("recursive revocation", "session/grant.py:Grant.revoke_token")])

prop("C03", "PKCE: a challenged code is only redeemed with the matching verifier",
     "With proof key for code exchange enabled, a code obtained with a code challenge yields tokens only in a token request whose "
     "code verifier hashes to that challenge under the recorded challenge method; a missing or different verifier is refused. "
     "Where the challenge is mandatory a request without one gets no code, and a challenge method that is not supported is refused.",
     ["inputs", "configurations"],
     "Every challenge and verifier string up to the bound, every challenge method name, essential or optional challenge.",
     "Tests use a handful of fixed verifiers; the property is about every verifier that is not the right one.",
     ["oidc/add_on/pkce.py"],
     [("challenge recording", "oidc/add_on/pkce.py:post_authn_parse"), ("verifier check", "oidc/add_on/pkce.py:post_token_parse")])

prop("C04", "A refresh token works only for its client, while active, never widening",
     "A refresh request yields tokens only if the refresh token was issued to the client that authenticated and neither it nor "
     "its grant is used up, revoked, expired or not yet valid; the scope of a new token is contained in the scope of what the refresh token "
     "was made from (the code or refresh token, or else the grant), whatever scope the request asks for. Where the client is configured to have refresh tokens replaced on use, the old refresh token no longer works once a new one was issued.",
     ["inputs", "histories", "configurations"],
     "Every presenting client, every life-cycle state and clock value, every requested scope list over the server's scopes, chains of up to three refreshes.",
     "Tests refresh once or twice with a valid token; not every life-cycle state, scope subset and chain.",
     ["oauth2/token.py", "oidc/token.py", "session/grant.py"],
     [("refresh", "oauth2/token.py:RefreshTokenHelper"), ("refresh", "oidc/token.py:RefreshTokenHelper")])

prop("C05", "Tokens are minted only as the usage rules of their source permit",
     "A token is minted from another token only if the latter's usage rules list the new token's class and the latter is neither "
     "revoked, expired, not yet valid nor at its usage limit; a source with a usage limit of n lets at most n mintings succeed, and "
     "a refused minting leaves no new token behind. A minted token gets the lifetime its usage rules state, counted from the time of minting.",
     ["inputs", "histories", "configurations"],
     "Every usage limit, usage count, life-cycle state, permitted-class list, clock value, and sequences of up to four mintings.",
     "Tests sample a few rules; the property ranges over all rule tables and states.",
     ["session/grant.py", "session/token.py"],
     [("minting", "session/grant.py:Grant.mint_token"), ("permission", "session/token.py:SessionToken.supports_minting")])

prop("C06", "Validity windows: nothing is honoured when expired, early, used up or revoked",
     "An item with a life cycle (code, token, grant) counts as active exactly when it is not revoked, its usage count is below its "
     "limit if it has one, the clock is not before its start time and not past its expiry, a zero meaning no bound; once inactive "
     "through expiry or revocation it never becomes active again as time goes on. The same holds for the validity of a user authentication event.",
     ["inputs", "histories"],
     "All integer values of start, expiry, usage count, limit and of an arbitrary non-decreasing clock.",
     "Tests probe a few instants; boundaries and all orderings of the five quantities are a solver's job.",
     ["session/token.py", "session/grant.py", "authn_event.py"],
     [("activity", "session/token.py:Item.is_active"), ("authentication validity", "authn_event.py:AuthnEvent.is_valid")])

prop("C07", "Recursive revocation reaches exactly the descendants",
     "Revoking a token together with what was derived from it marks that token and every token derived from it through any chain "
     "as revoked and leaves every other token of the grant unchanged; revoking without recursion touches that token alone. "
     "Revocation by source does the same for the tokens minted from a given source value.",
     ["histories", "inputs"],
     "Every derivation forest over up to five tokens of a grant, every prior revocation pattern, every choice of revoked token.",
     "Tests use one or two fixed chains; the property is over all derivation forests.",
     ["session/grant.py", "session/manager.py"],
     [("revocation", "session/grant.py:Grant.revoke_token"), ("revocation by value", "session/manager.py:SessionManager.revoke_token")])

prop("C08", "Revoking a session or grant ends exactly that session's power",
     "After a grant, a client session or a user's whole session is revoked, no code, access token or refresh token below it yields new tokens at the token "
     "endpoint, user information, or an active answer from introspection. "
     "Grants of other clients and other users keep working as before.",
     ["histories", "inputs"],
     "Every choice of revoked scope (grant, client session, whole logout) over two users by two clients, and every endpoint at which the tokens are then presented.",
     "Tests check the revoked flag of single objects, not effect and confinement across endpoints.",
     ["session/manager.py", "session/grant.py", "oidc/userinfo.py", "oauth2/introspection.py"],
     [("session revocation", "session/manager.py:SessionManager.revoke_client_session"), ("grant revocation", "session/manager.py:SessionManager.revoke_grant")])

prop("C09", "The session store keeps user, client and grant entries apart",
     "Whatever sequence of set, get and delete operations is applied to paths of user, client and grant identifiers, a read "
     "returns what was last stored at exactly that path, a deleted path and everything below it is gone, and entries whose path is "
     "neither equal to nor below the path operated on are unaffected; parents list exactly their present children, and a parent that a deletion leaves without children vanishes with them.",
     ["inputs", "histories"],
     "Identifiers are arbitrary strings up to the bound (any aliasing pattern), sequences of up to four operations at any of the three levels.",
     "Tests use a handful of distinct literal identifiers and short fixed sequences.",
     ["session/database.py"],
     [("store", "session/database.py:Database")])

prop("C10", "Session identifiers and opaque tokens decode to what was encoded",
     "For any user, client and grant identifiers, the encrypted session identifier made from them decrypts to the same three "
     "identifiers, and an opaque code or token decodes to exactly the session it was minted in and its own token class. "
     "The length-prefixed packing underneath is injective: unpacking a packed sequence of strings returns exactly that sequence.",
     ["inputs"],
     "All identifier strings and all packed sequences up to the bound, including ones containing separators, digits and colons.",
     "Tests use two or three tame literals; separators inside values are the interesting inputs.",
     ["session/database.py", "util.py", "token/__init__.py", "token/handler.py"],
     [("packing", "util.py:lv_pack"), ("packing", "util.py:lv_unpack"), ("session ids", "session/database.py:Database.encrypted_session_id")])

prop("C11", "Client secrets: a request is authenticated only by the right live secret",
     "A request that authenticates with a client secret (HTTP Basic or in the body) is accepted only for the client whose stored "
     "secret equals the presented one, only while that secret has not expired, and only if the endpoint allows the method used; the "
     "client it is attributed to is the one that presented the secret, whatever client identifier the request otherwise names.",
     ["inputs", "configurations"],
     "All client identifiers, secrets, expiry times and clock values; every subset of allowed methods.",
     "Tests use the right secret and one wrong one; not every id/secret/method/expiry combination.",
     ["client_authn.py", "endpoint.py"],
     [("basic", "client_authn.py:ClientSecretBasic"), ("post", "client_authn.py:ClientSecretPost"), ("dispatch", "client_authn.py:verify_client")])

prop("C12", "JWT client assertions bind issuer, subject, audience, time and signature",
     "A signed client assertion authenticates a client only if it is signed with that client's own key (its secret for the symmetric "
     "method, a registered key for the asymmetric one), its issuer and (where given) subject are that client, its audience names this provider or the endpoint, it is not "
     "expired (the JWT library's leeway of 15 seconds aside), and its identifier was not used before by the same client. A request object authenticates only the client that signed it.",
     ["inputs", "histories", "configurations"],
     "Every combination of issuer, subject, audience, times, identifier, signing key and algorithm over two clients; two consecutive requests.",
     "Tests sign a few good and one or two bad assertions.",
     ["client_authn.py"],
     [("assertions", "client_authn.py:JWSAuthnMethod.verify")])

prop("C13", "Only registered redirect URIs are ever used",
     "An authorization request is answered at a redirect URI only if that URI matches one registered for the client: same scheme, host, "
     "port and path as registered, and a query that is exactly the registered one (none if none was registered), and never a fragment. A request without "
     "redirect URI is answered only when exactly one is registered.",
     ["inputs", "configurations"],
     "Every URI built from symbolic components around up to two registered URIs (with and without query).",
     "Tests try a few literal URIs; near-misses (prefixes, encodings, extra query, order of registration) are unbounded.",
     ["oauth2/authorization.py"],
     [("matching", "oauth2/authorization.py:verify_uri"), ("default", "oauth2/authorization.py:get_uri")])

prop("C14", "Refused authorization requests hand out nothing",
     "An authorization request that names an unknown client, an unregistered redirect URI, a response type the client is not registered for, an unsupported "
     "response mode, or (OpenID Connect) lacks the openid scope or a nonce for an implicit ID token, produces an error; the answer "
     "contains no code or token and no grant or token is created by it. That also holds when the parameters come in a request object or a pushed request.",
     ["inputs", "configurations"],
     "Every combination of those parameters, symbolic response type and mode strings, both authorization endpoints.",
     "Tests send one malformed request at a time.",
     ["oauth2/authorization.py", "oidc/authorization.py"],
     [("parsing", "oauth2/authorization.py:Authorization")])

prop("C15", "An authorization answer carries exactly what the response type asks for",
     "A successful authorization answer contains a code exactly if the response type includes code, an access token exactly if it includes token, and an ID token exactly if it includes id_token, "
     "echoes the request's state unchanged, and goes to the request's redirect URI; answers carrying a token or ID token are never put in the query part of it "
     "unless the client asked for that mode. Everything in it was minted for this user and client.",
     ["inputs", "configurations"],
     "All eight response types, all response modes or none, arbitrary state strings, both authorization endpoints.",
     "Tests look at three or four response types with fixed states.",
     ["oauth2/authorization.py", "oidc/authorization.py"],
     [("composition", "oauth2/authorization.py:Authorization.create_authn_response"), ("mode", "oauth2/authorization.py:Authorization.response_mode")])

prop("C16", "Values placed in HTML answers cannot break out of them",
     "In an auto-submitted form answer the form's target is the request's redirect URI and every parameter appears as exactly one "
     "hidden field whose decoded value equals the parameter; no request-controlled character string can add markup to the page. Nor can a client's logout URI add anything but the one frame of a front-channel logout page.",
     ["inputs"],
     "Every state string up to the bound, over an alphabet containing all HTML metacharacters.",
     "Tests render one page with a tame state.",
     ["oauth2/authorization.py"],
     [("form post", "oauth2/authorization.py:FORM_POST"), ("inputs", "oauth2/authorization.py:inputs")])

prop("C17", "prompt, max_age and single sign-on are honoured",
     "A user is answered without being asked to authenticate only if a valid session cookie names a session of this user and client whose authentication is "
     "still valid and no older than the requested maximum age, and the prompt does not demand login; with prompt none and no such session "
     "the answer is an error redirect, never an authentication page. With login demanded, the user is always asked. Being answered that way does not make the authentication look newer than it is.",
     ["inputs", "histories", "configurations"],
     "Every prompt combination, maximum age, authentication time, validity end and clock; cookie of same/other client or absent; revoked or live grant.",
     "Tests use a few prompts at one instant.",
     ["oauth2/authorization.py", "user_authn/user.py"],
     [("decision", "oauth2/authorization.py:Authorization.setup_auth"), ("re-authentication", "oauth2/authorization.py:re_authenticate")])

prop("C18", "Claims are released only when asked for or configured, never carried over",
     "User claims released in user info, an ID token or introspection are exactly those asked for by the claims request, by "
     "the granted scopes where scope-based release is on, or by the configuration for that place and client, that the user has and whose requested values match (the authentication context class aside, which accompanies released claims); nothing a previous "
     "request asked for or another client is configured for leaks into a later answer.",
     ["inputs", "configurations", "histories"],
     "Every combination of configuration switches (server and client), requested claims and scopes over a small claim universe; two consecutive requests by different clients.",
     "Tests check a few configurations once; not history independence or all switch combinations.",
     ["session/claims.py", "oidc/userinfo.py", "user_info/__init__.py", "scopes.py"],
     [("restriction", "session/claims.py:ClaimsInterface"), ("mapping", "scopes.py:convert_scopes2claims")])

prop("C19", "A claim request with values is satisfied only by a matching claim",
     "A requested claim with a value or a list of values is satisfied exactly when the user's claim equals the "
     "value or is among the values; a request without value constraints accepts any value and an absent claim satisfies none that is constrained.",
     ["inputs"],
     "Every claim value and request over symbolic strings and lists of up to three elements.",
     "Tests list a few literal pairs.",
     ["session/claims.py", "user_info/__init__.py"],
     [("matching", "session/claims.py:claims_match")])

prop("C20", "User info is given only for an active access token with a live grant",
     "The user info endpoint returns claims only for a value that is an access token of a known session, is neither used up, revoked, expired nor not yet "
     "valid, and whose user authentication is still valid; the returned subject is the one of that session. Codes, refresh tokens, ID tokens and unknown values never yield claims.",
     ["inputs", "histories"],
     "Every token class presented, every life-cycle state of token and authentication, every clock value.",
     "Tests use one fresh access token and one or two bad ones.",
     ["oidc/userinfo.py"],
     [("endpoint", "oidc/userinfo.py:UserInfo")])

prop("C21", "Introspection says active only for what is active, and tells the truth",
     "Introspection answers active only for a token of this provider that is active at that moment (not revoked, used up, expired or not yet valid, grant "
     "likewise); the scope, client, subject, audience and expiry it reports are the token's own. For everything else the answer is inactive with no other member.",
     ["inputs", "histories"],
     "Every token class, life-cycle state, clock value and requesting client; garbage values.",
     "Tests introspect a fresh token and a few broken ones.",
     ["oauth2/introspection.py"],
     [("endpoint", "oauth2/introspection.py:Introspection")])

prop("C22", "ID tokens say who, for whom, when, and bind their companions",
     "Every ID token carries this provider as issuer, the requesting client in its audience, the session's subject, an expiry exactly the configured "
     "lifetime after issue, the request's nonce if there was one, and the time and class of the actual authentication; the hashes bind exactly the code and "
     "access token delivered with it, where they are carried. Claims about the user cannot replace any of these.",
     ["inputs", "configurations"],
     "Every nonce, lifetime, clock, authentication time, code/token companion and user claim names and values.",
     "Tests decode a few ID tokens with default settings.",
     ["token/id_token.py"],
     [("construction", "token/id_token.py:IDToken.payload"), ("construction", "token/id_token.py:IDToken.sign_encode")])

prop("C23", "A cookie is accepted only as issued",
     "Parsing a cookie the provider issued returns exactly the value, type and time it was issued with, whatever characters the value "
     "contains; a cookie that was altered in any authenticated part, made with other keys, or carries another name yields nothing (no content, or an error).",
     ["inputs", "configurations"],
     "Every value/type/time string up to the bound; key set-ups: sign only, encrypt only, both; every single altered part.",
     "Tests round-trip two literals; separators inside values and recombined parts are untested.",
     ["cookie_handler.py"],
     [("packing", "cookie_handler.py:CookieHandler._sign_enc_payload"), ("parsing", "cookie_handler.py:CookieHandler.parse_cookie")])

prop("C24", "Dynamic registration admits only what the policy allows",
     "A client registered dynamically has only redirect URIs without fragments that fit its application type (web: https, or http "
     "where it only uses the code flow; native: custom scheme or http on localhost), and only values the provider supports for the "
     "parameters it negotiates; its identifier, secret, registration token and their times are issued by the provider, whatever the "
     "request says; a registration request that is refused leaves no client, secret or access token behind. Two registrations never "
     "share a client identifier or registration token.",
     ["inputs", "configurations", "histories"],
     "Every application type, scheme/host/fragment combination and supported/unsupported value of each negotiated parameter.",
     "Tests submit a few good and bad registrations.",
     ["oidc/registration.py"],
     [("registration", "oidc/registration.py:Registration"), ("redirects", "oidc/registration.py:Registration.verify_redirect_uris")])

prop("C25", "A client's registration is read only with its own registration token",
     "The registration read endpoint returns a client's data only when the request carries that client's own registration access token as bearer token and "
     "names that client; a token of another client, a client secret or an access token does not do.",
     ["inputs"],
     "Every presented token string and client identifier over three clients.",
     "Tests read one registration with the right token.",
     ["oidc/read_registration.py", "client_authn.py"],
     [("read", "oidc/read_registration.py:RegistrationRead")])

prop("C26", "End-session requests act only on verified identity and registered URIs",
     "A logout request is accepted only if its ID token hint, when present, is signed by this provider for a known client matching the session cookie and any client named in the request, and its "
     "post-logout redirect URI, when present, is one registered for that client; otherwise no session is revoked and no redirect to that URI happens. A state given with it is returned unchanged.",
     ["inputs", "configurations"],
     "Every hint/cookie/client/URI combination, symbolic URIs and states.",
     "Tests follow a few end-session flows.",
     ["oidc/session.py"],
     [("end session", "oidc/session.py:Session.process_request"), ("URI", "oidc/session.py:verify_post_logout_uri")])

prop("C27", "Logging out everywhere reaches every client of the user, and only them",
     "When the user's whole session is ended, every client the user has a session with, was given an ID token and registered a back-channel or front-channel logout URI is notified "
     "with the right subject and session, every one of the user's grants stops working, and no other user's session changes.",
     ["histories", "configurations"],
     "Every subset of clients with each kind of logout URI or none, two users, up to three sessions.",
     "Tests have one or two clients with one kind of URI.",
     ["oidc/session.py", "session/manager.py"],
     [("logout", "oidc/session.py:Session.logout_all_clients")])

prop("C28", "A pushed authorization request is used once, unchanged, by its client",
     "A reference returned for a pushed authorization request stands for exactly the parameters that were pushed, can be used for at most one authorization, "
     "only by the client that pushed it and within the life time it was told, and unknown, used or expired references are refused; nothing that would be refused directly is accepted by way of a push.",
     ["inputs", "histories"],
     "Every pushed parameter set over symbolic strings, sequences of push/use/use by two clients.",
     "Tests push and use one request.",
     ["oauth2/pushed_authorization.py", "oauth2/authorization.py"],
     [("push", "oauth2/pushed_authorization.py:PushedAuthorization.process_request"), ("use", "oauth2/authorization.py:Authorization._do_request_uri")])

prop("C29", "Subject identifiers are stable, and pairwise ones do not correlate",
     "A client gets the kind of subject identifier it registered for, whatever a request says. For the same user, a public subject identifier is the same at every client; "
     "a pairwise one is the same for every session with the same sector - the host of the registered sector identifier URI, else of the client's redirect URIs - and "
     "different for different sectors; different users never get the same identifier within a sector or at one client; an ephemeral one is fresh for every session.",
     ["inputs", "histories"],
     "Every user identifier, sector and salt up to the bound (digests as injective functions).",
     "Tests compare two or three literals.",
     ["session/manager.py", "oauth2/authorization.py"],
     [("public", "session/manager.py:PublicID"), ("pairwise", "session/manager.py:PairWiseID"),
      ("kind", "oauth2/authorization.py:_subject_parameters")])

prop("C30", "A stored and reloaded provider continues where it was",
     "Dumping the session store and loading it into a fresh provider preserves every user, client and grant entry with its life-cycle state: what was active, "
     "used, expired or revoked before is so afterwards, every token is found under its value with its lineage and rules, and revocations still reach the same tokens.",
     ["crash_points", "histories", "inputs"],
     "Every life-cycle state of grant and tokens, every derivation forest of up to four tokens, dump/load at any point between operations.",
     "Tests dump and load one session and compare a few keys.",
     ["session/database.py", "session/grant.py", "session/token.py"],
     [("dump", "session/grant.py:Grant"), ("dump", "session/token.py:SessionToken")])

prop("C31", "Usage rules: client settings override the provider's, and nothing bleeds",
     "The usage rules of a new grant are the provider's, with each rule the client is configured with taking its place, and the grant lives as long as the provider configures; "
     "computing them or authorizing a session changes neither the provider's, nor the defaults, nor any client's configuration.",
     ["configurations", "histories"],
     "Every subset of rules set at provider and client level, symbolic values, two consecutive sessions of different clients.",
     "Tests check one override; not absence of bleed between requests.",
     ["authz/__init__.py", "session/grant.py"],
     [("precedence", "authz/__init__.py:AuthzHandling.usage_rules")])

prop("C32", "Tokens of one kind are never accepted as another kind",
     "A code, access token, refresh token or ID token presented where another of these kinds is expected is refused, at the token endpoint, the refresh grant and the user info endpoint, whatever token format is configured "
     "and whichever client presents it.",
     ["inputs", "configurations"],
     "Every ordered pair of token kind and place of use, both token formats, any life-cycle state, both token endpoints.",
     "Tests try two or three confusions with default formats.",
     ["token/handler.py", "oauth2/token.py", "oidc/token.py", "oidc/userinfo.py"],
     [("lookup", "token/handler.py:TokenHandler")])

prop("C33", "Granted scopes stay within what the client may have",
     "The scopes of a grant and of every token minted under it are among those requested; the scopes an authorization answer reports, and those that release claims, are also among the ones the "
     "server (or the client's own setting) allows; where unknown scopes are to be denied a request for a scope that is not allowed is refused.",
     ["inputs", "configurations"],
     "Every requested scope set over six scopes, every allowed set at server and client level, refusing or dropping.",
     "Tests try a couple of scope lists.",
     ["scopes.py", "authz/__init__.py", "oauth2/authorization.py"],
     [("filter", "scopes.py:Scopes"), ("policy", "oauth2/authorization.py:check_unknown_scopes_policy")])

prop("C34", "Response algorithms are those the client registered, or the provider's default",
     "The signing and encryption algorithms of ID tokens and user info, and the signing algorithm of logout tokens, are the ones the client registered where it did - what it "
     "registered to have encrypted is encrypted - and the provider's default otherwise; JWT access tokens use the algorithm configured for them; the algorithm none is never used "
     "unless it was registered for.",
     ["configurations"],
     "Every combination of client-registered, provider-level and default values (any algorithm names for the choice itself).",
     "Tests check one registered algorithm each.",
     ["token/id_token.py", "oidc/userinfo.py", "oidc/session.py"],
     [("choice", "token/id_token.py:get_sign_and_encrypt_algorithms")])

prop("C35", "Sender-constrained (DPoP) tokens carry the prover's key",
     "A token request with a proof of possession is accepted only if the proof is of the DPoP type, is signed by the key inside its header with an algorithm the provider "
     "supports, and names the request's method and URI; the access token then issued - for a code or a refresh token, by an OpenID Connect or an OAuth2 provider - is of the "
     "sender-constrained type and, when it is a JWT, carries the thumbprint of exactly that key.",
     ["inputs", "histories"],
     "Every method/URI pair in the proof and the request, every pairing of three asymmetric keys and a symmetric one as proved and signing key, proof contents in the wrong place.",
     "Tests use one valid proof.",
     ["oauth2/add_on/dpop.py", "oidc/token.py", "oauth2/token.py"],
     [("proof", "oauth2/add_on/dpop.py:post_parse_request")])

prop("C36", "Authentication methods are chosen by the requested context class",
     "When a request asks for particular authentication context classes and the provider has a method for one of them, only a method registered for one of them is used, "
     "and with several acceptable ones the first the client asked for. When it has several methods and none of them fits, the request is refused. A provider with a single method uses that one, and a request that asks for no class gets the default.",
     ["inputs", "configurations"],
     "Every list of up to three requested classes over symbolic class names, up to three registered methods.",
     "Tests pick from fixed lists.",
     ["user_authn/authn_context.py"],
     [("choice", "user_authn/authn_context.py:pick_auth"), ("store", "user_authn/authn_context.py:AuthnBroker")])

prop("C37", "A user is authenticated only with the right password or a valid token",
     "Password verification (login form and HTTP Basic) succeeds exactly for a user that exists with exactly the stored password; a session cookie that belongs to another user does not "
     "change which user a method authenticated; the state carried through the login page comes back unchanged and only if it was signed by this provider; the page of one request shows nothing that came with another.",
     ["inputs"],
     "Every user/password string pair against a password table with up to two users.",
     "Tests log in with one right and one wrong password.",
     ["user_authn/user.py"],
     [("password", "user_authn/user.py:UserPassJinja2.verify"), ("state", "user_authn/user.py:UserAuthnMethod.unpack_token")])

prop("C38", "Request objects hold only as signed by the client, by its algorithm",
     "A request object, passed by value or by reference, is used only if it is signed with a key of the very client that makes the "
     "request and with the algorithm that client registered (or, if it registered none, one the provider supports, which never "
     "includes an unsigned object), also when it is encrypted. A reference is followed only to an address the client registered. "
     "What the object says takes the place of what the request says: the grant, its redirect URI and the answer's state are those of the "
     "object. A request made with an object has to fulfil everything a direct one has to (scope, nonce, redirect URI, response type, prompt). "
     "A refused object leaves no grant or token behind.",
     ["inputs"],
     "Every combination of signer, algorithm, encryption, issuer, registered algorithm, way of passing; any state and nonce; any address near a registered one; OIDC and OAuth2.",
     "Tests use one well-signed object per way of passing it; the property ranges over all signers, registrations, addresses and contents.",
     ["oauth2/authorization.py", "oidc/authorization.py"],
     [("request objects", "oauth2/authorization.py:Authorization._do_request_uri"),
      ("request objects", "oauth2/authorization.py:Authorization._post_parse_request"),
      ("allowed algorithms", "oauth2/authorization.py:AllowedAlgorithms")])

prop("C39", "JWT tokens tell resource servers the truth",
     "A JWT access or refresh token, from the token endpoint (redeemed or refreshed) or the authorization endpoint, is signed by this provider with the "
     "configured algorithm and states: this provider as issuer, the subject of its session, the client it was given to, the audience of the grant, exactly the "
     "scope of this token (the narrowed one after a narrowing refresh), the kind of token, the session, the time it was made and the configured "
     "lifetime after that, which is also what the answer says; its identifier is unique. Nothing else is in it but the user claims configured for access "
     "tokens, and those never take the place of the above, whatever they are called.",
     ["inputs", "histories"],
     "Every client, user, subject, scope word, resource, lifetime (rule or handler), clock value and clashing claim name; redeemed, refreshed, implicit; OIDC and OAuth2.",
     "Tests decode tokens of one fixed session; the property ranges over all session contents, times and claim names.",
     ["token/jwt_token.py", "session/grant.py", "oauth2/token.py"],
     [("content", "session/grant.py:Grant.payload_arguments"), ("content", "token/jwt_token.py:JWTToken.__call__"),
      ("scope", "session/grant.py:Grant.find_scope"), ("minting", "oauth2/token.py:TokenEndpointHelper._mint_token")])

prop("C40", "A request about a particular user is answered for nobody else",
     "A request that names a user - by an id_token_hint, by the subject value(s) it asks for in the claims parameter, or by a login_hint the provider can look up - is answered "
     "with a code or tokens only if the user who has authenticated is that one (an id_token_hint may hold any subject identifier this client knows the user by). "
     "Otherwise the client is told login_required at the redirect URI it asked from, with its state and where it looks for answers (or, for a login_hint, the user "
     "gets the login page), and no token comes into being. An id_token_hint signed with anybody else's key is refused.",
     ["inputs", "histories"],
     "Every requested subject string, every earlier subject identifier, every login hint; two users, three subject types, response types and modes; directly, after the login page, by request object, with a session.",
     "No test asks for a particular user through a hint or a subject value while another one is logged in.",
     ["oidc/authorization.py", "oauth2/authorization.py"],
     [("subject", "oidc/authorization.py:Authorization.post_authentication"), ("login_hint", "oidc/authorization.py:Authorization.do_request_user"),
      ("delivery", "oauth2/authorization.py:Authorization.error_by_response_mode")])

prop("C41", "The published metadata is the provider's configuration, and true",
     "What the provider publishes about itself (discovery document, webfinger) is what it was configured to be: its issuer verbatim; every endpoint it has at the "
     "issuer plus its path, none it does not have; the authentication methods the token endpoint really works with; capabilities, scopes, claims, context classes and "
     "algorithms as configured. A provider configured with an algorithm that does not exist is not started; weak algorithms (none, RSA1_5) are published only if configured. Nothing private "
     "is published. The metadata does not change with use, and providers in one process do not change each other's.",
     ["configurations", "histories"],
     "Any endpoint paths, scope, claim, class and subject type words and custom scopes; issuers with and without path and slash; every subset of authentication methods; algorithm lists right and wrong; missing endpoints; any webfinger resource.",
     "Tests look at one configuration; the property ranges over configurations and over what happened before.",
     ["server.py", "endpoint_context.py", "construct.py", "util.py", "oidc/provider_config.py", "oidc/discovery.py"],
     [("endpoints", "util.py:build_endpoints"), ("capabilities", "construct.py:construct_endpoint_info"),
      ("metadata", "endpoint_context.py:EndpointContext.create_providerinfo"), ("webfinger", "oidc/discovery.py:Discovery.process_request")])

prop("C42", "Answers arrive whole, uncached, as what they are; bad tokens get an error",
     "What the token, introspection, user info, registration and pushed authorization endpoints decide is what is sent: JSON with exactly the members of the answer (or the JWT the client registered for), "
     "called that, never cacheable, with its cookie; errors carry code and description and nothing else; additions of the extra_args add-on only show at the endpoint they are configured for; "
     "an answer has nothing of the one before. A code or refresh token that is no good for whatever reason - unknown, malformed, expired, revoked, used, of another kind, of another client, of a grant that ended or was removed - is "
     "answered with invalid_grant or invalid_request, and introspection says inactive; the endpoint does not crash on it.",
     ["inputs", "histories"],
     "Any scope words, subjects, claim values, names; right and wrong requests at five endpoints; codes and refresh tokens, opaque and JWT, at any time and malformed in fifteen ways; OIDC and OAuth2.",
     "Tests look at the decided arguments, seldom at what is sent, and only at one or two kinds of bad token.",
     ["endpoint.py", "oauth2/token.py", "oidc/token.py", "token/handler.py", "oidc/userinfo.py"],
     [("delivery", "endpoint.py:Endpoint.do_response"), ("bad tokens", "oauth2/token.py:AccessTokenHelper.post_parse_request"),
      ("look-up", "token/handler.py:TokenHandler.get_handler"), ("additions", "oauth2/add_on/extra_args.py:pre_construct")])
