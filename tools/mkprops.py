#!/usr/bin/env python3
"""Writes properties.jsonl (the statements are maintained here)."""
import json, os
A = "adapter/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": [A + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": A + w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": A + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


GRPC = "the answer of the gRPC method HandleAuthnZ"

prop("C01", "The most specific policy entry decides every request",
     "Among the policy entries that cover a request's service, path and method, the most specific one decides it: an exact path before any prefix, a longer prefix before a shorter one, and on the same path the request's own method before \"all methods\" (an absent or unknown method, in an entry or a request, means all methods). "
     "Prefixes match whole path segments, trailing slashes do not matter, and a path's login callback (/oidc/callback) and logout (/oidc/logout) endpoints are decided exactly as the path itself. "
     "A request passes without authentication only if no entry covers it.",
     ["inputs", "configurations"], "for every set of policy entries and every request path and method",
     "the tests look up a handful of paths in small tries; overlap of exact, prefix and method entries is combinatorial and a wrong winner silently removes protection",
     ["policy/store/policy/localstore.go", "policy/store/pathtrie/pathtrie.go", "policy/engine/engine.go", "policy/handler/crdeventhandler/utils.go", "policy/action.go", "adapter.go"],
     [("lookup from the path to its enclosing prefixes, method before ALL", "policy/store/policy/localstore.go GetPolicies"), ("normalisation of configured paths", "policy/handler/crdeventhandler/utils.go ParseTarget"), ("callback and logout suffix, root", "policy/engine/engine.go Evaluate"), ("trailing slashes", "adapter.go validateAuthnzRequest")],
     [("policies", "endpoint -> deciding entry, per service", "policy/store/policy/localstore.go")], [GRPC])

prop("C02", "Decisions depend on the live policies alone, not on how they came about",
     "Once the adapter has processed the changes, decisions follow from the policies that exist now, whatever creations, updates and deletions led there: what a policy no longer lists is no longer decided by it, and changing or deleting one policy never takes away or alters the protection another one gives. "
     "Where several live policies list the same endpoint, one of them decides it. "
     "While a policy is being updated, a request that both its old and its new version cover is never let through unauthenticated.",
     ["histories", "schedules"], "for every history of policy creations, updates and deletions, and every request in between",
     "the tests apply one or two events to a fresh store; leftovers and lost protection need a history of overlapping policies",
     ["policy/handler/crdeventhandler/add_event.go", "policy/handler/crdeventhandler/delete_event.go", "policy/store/policy/localstore.go", "policy/store/pathtrie/pathtrie.go"],
     [("release of endpoints no longer listed", "policy/handler/crdeventhandler/add_event.go PolicyAddEventHandler"), ("hand-over to another claimant", "policy/store/policy/localstore.go otherClaim"), ("deletion of own endpoints only", "policy/handler/crdeventhandler/delete_event.go PolicyDeleteEventHandler")],
     [("policyMappings", "policy -> endpoints it listed when last processed", "policy/store/policy/localstore.go")], [GRPC])

prop("C03", "A protected request is never let through for want of usable configuration",
     "A request that a policy entry decides is rejected, never let through, as long as a JWT or OIDC configuration the entry names does not exist or was deleted, or a policy type the entry lists is not supported. "
     "As soon as the configuration exists, decisions use its current contents: a changed configuration replaces the old one completely, and credentials that only a former version would accept are rejected.",
     ["histories", "configurations"], "for every order of creation, update and deletion of policies and the configurations they name",
     "tests cover one missing configuration; order of events and re-creation under the same name are not explored",
     ["policy/engine/engine.go", "policy/handler/crdeventhandler/add_event.go", "policy/handler/crdeventhandler/delete_event.go", "policy/store/policy/localstore.go", "policy/policy.go"],
     [("missing configuration is an error", "policy/engine/engine.go getPolicies"), ("replacement on update", "policy/handler/crdeventhandler/add_event.go"), ("removal on delete", "policy/handler/crdeventhandler/delete_event.go")],
     [("clients, keysets", "configuration name -> live configuration", "policy/store/policy/localstore.go")], [GRPC])

prop("C04", "Policies and configurations act only within their namespace and service",
     "A policy decides only requests to the services it names, in its own namespace; requests to other services or to the same service name in another namespace are unaffected by it. "
     "A policy refers only to configurations of its own namespace: creating, changing or deleting a configuration or policy of the same name in another namespace changes nothing.",
     ["configurations", "histories"], "for every set of namespaces, services, policies and configurations, with names shared between namespaces",
     "tests use a single namespace and distinct names",
     ["policy/engine/engine.go", "policy/handler/crdeventhandler/add_event.go", "policy/handler/crdeventhandler/utils.go", "policy/store/policy/localstore.go"],
     [("service identified by namespace and name", "policy/service.go"), ("namespace-qualified configuration names", "policy/engine/engine.go getPolicies")], (), [GRPC])

prop("C05", "An API request passes exactly if its bearer tokens are valid",
     "A request decided by a JWT policy is let through if and only if its authorization header has the form \"Bearer <access token>\" or \"Bearer <access token> <ID token>\" and every token given is valid for the policy. "
     "Otherwise it is rejected with HTTP status 401 and a WWW-Authenticate header carrying a Bearer challenge with error=\"invalid_token\", which, when a token was rejected and the policy has a rule on the scope claim, names the scopes required by that rule.",
     ["inputs"], "for every authorization header and every combination of valid and invalid tokens",
     "tests mock the token validator or use a few header values",
     ["strategy/api/api.go", "errors/oautherror.go", "validator/validator.go"],
     [("header parsing", "strategy/api/api.go getAuthTokensFromRequest"), ("challenge", "strategy/api/api.go buildErrorResponse"), ("required scopes", "validator/validator.go findRequiredScopes")], (), [GRPC])

prop("C06", "Only unexpired tokens genuinely signed by the provider are accepted",
     "A JWT is accepted only if it is signed, with an RSA signature algorithm over exactly its present header and payload, by the key the provider publishes under the key id the token names, and is within its validity period (exp and nbf); unsigned, HMAC-signed, altered or foreign-signed tokens, tokens without key id and expired tokens are rejected. "
     "Tokens that satisfy all this are not rejected for their signature or validity period. "
     "Only in an OIDC flow may an access token that cannot be verified in this way be accepted, and only if the provider's userinfo endpoint accepts it (HTTP status 200) and it is not an expired but genuine token.",
     ["inputs"], "for every token: algorithm, key id, signer, tampering, validity period, and every userinfo answer",
     "tests have about a dozen fixed tokens; forgeries are combinations of header, key and signature",
     ["validator/validator.go", "authserver/keyset/keyset.go", "authserver/keyset/key.go", "strategy/web/web.go", "strategy/api/api.go"],
     [("signature and validity period", "validator/validator.go validateSignature"), ("userinfo fallback", "validator/validator.go validateAccessTokenString"), ("JWK decoding", "authserver/keyset/key.go decodePublicKey")], (), [GRPC, "requests to the provider's userinfo endpoint"])

prop("C07", "Access rules are enforced exactly as configured",
     "A token is accepted only if all rules for its kind (source access_token, which is the default, or id_token) hold: ALL (the default) requires every listed value, ANY at least one, NOT none of them, among the values of the possibly nested claim (dotted path) - a string's space separated words, the elements of a list, or a number or boolean compared by its plain notation. "
     "A missing claim fails ALL and ANY and satisfies NOT; a claim that is an object, or a list containing other than strings, numbers and booleans, fails the rule; tokens satisfying all rules are accepted. "
     "An OIDC policy without rules requires JWT access tokens to list the client's id in aud.",
     ["inputs", "configurations"], "for every set of rules and every claim value",
     "tests try a few rule/claim pairs; match kind, value list, claim shape, nesting and source are a product",
     ["validator/validator.go", "policy/engine/engine.go"],
     [("rule evaluation", "validator/validator.go checkAccessPolicy, convertClaimType, getNestedClaim"), ("default rules", "policy/engine/engine.go createDefaultRules")], (), [GRPC])

prop("C08", "Signing key changes at the provider are followed",
     "A token signed with a key the provider has newly published under a key id not used before is accepted on first use, and once the keys were fetched anew tokens signed with a withdrawn or replaced key are rejected. "
     "A failed or unusable answer from the key endpoint never costs the keys already held. "
     "Concurrent requests that need an unknown key share the key request under way instead of each sending one.",
     ["histories", "schedules", "fault_sequences"], "for every history of key publications, withdrawals, key endpoint failures and token uses, and concurrent uses",
     "tests fetch keys once from a mock; rotation histories and concurrent fetches are not exercised",
     ["authserver/keyset/keyset.go", "authserver/keyset/key.go", "validator/validator.go"],
     [("fetch on unknown key id", "authserver/keyset/keyset.go PublicKey"), ("replacement of the whole set on success", "authserver/keyset/keyset.go updateKeys"), ("request grouping", "authserver/keyset/keyset.go updateKeysGrouped")],
     [("publicKeys", "keys of the last successful fetch", "authserver/keyset/keyset.go")], [GRPC, "requests to the provider's key endpoint"])

prop("C09", "A login completes only in the browser that began it",
     "A login callback is accepted, and the authorization code sent to the provider, only if the request carries the unexpired, unaltered state cookie the adapter issued for that same client when the login began and its state parameter is non-empty and equal to that login's state. "
     "In every other case - missing, foreign, forged, altered, expired or other client's cookie, missing or different state, error parameter - the callback is rejected, no code is exchanged and no session is created.",
     ["inputs", "histories"], "for every interleaving of logins in several browsers and for several clients, and every cookie and state presented",
     "tests check a few mocked cookies; mix-ups between logins, browsers and clients are not explored",
     ["strategy/web/web.go", "strategy/web/utils.go"],
     [("state comparison", "strategy/web/web.go validateState"), ("authenticated, encrypted, expiring cookie", "strategy/web/web.go generateEncryptedCookie, parseAndValidateCookie")], (), [GRPC, "requests to the provider's token endpoint"])

prop("C10", "Sessions pass requests with exactly their own tokens, everyone else logs in",
     "A request decided by an OIDC policy passes if and only if it carries the session cookie, for the policy's client, of a session that was created by a completed login and not ended since and whose tokens are valid for the policy (or could be refreshed). "
     "The service then receives the authorization \"Bearer <access token> <ID token>\" with exactly the tokens of that session. "
     "Every other request is redirected to the provider's login and passes nothing on.",
     ["histories", "inputs"], "for every history of logins, logouts and requests of several browsers and clients, and every cookie header",
     "tests load one session into the cache by hand; mixing sessions and clients needs histories",
     ["strategy/web/web.go", "strategy/web/utils.go"],
     [("session lookup and validation", "strategy/web/web.go isAuthorized"), ("session creation", "strategy/web/web.go handleAuthorizationCodeCallback")],
     [("tokenCache", "session id -> tokens", "strategy/web/web.go")], [GRPC])

prop("C11", "Logout is final",
     "A logout request ends the browser's session for the policy's client: once it has been answered, no request carrying that session's cookie ever passes again, not even when a token refresh for the session was under way at that moment. "
     "Other sessions are unaffected. "
     "The answer expires the client's session cookie and redirects, always within the same host, to the path that was logged out from.",
     ["schedules", "histories", "inputs"], "for every interleaving of logout with requests and token refreshes of the same and other sessions",
     "tests log out once, sequentially; the refresh/logout race needs a schedule",
     ["strategy/web/web.go"],
     [("session removal", "strategy/web/web.go handleLogout"), ("refresh stores only into a session still alive", "strategy/web/web.go handleRefreshTokens logoutMutex")],
     [("tokenCache", "session id -> tokens", "strategy/web/web.go")], [GRPC])

prop("C12", "Expired sessions are refreshed, and only validly",
     "When a session's access or ID token has expired and the provider issued a refresh token, the request triggers a refresh with that session's current refresh token; if the new tokens are valid, the request passes with them, the session continues under the same cookie with the new tokens and the newest refresh token (the old one if none was issued). "
     "If the refresh fails or yields invalid tokens, or there is no refresh token, the request is redirected to login and never passes with expired or invalid tokens.",
     ["histories", "fault_sequences"], "for every sequence of expiries and refresh answers",
     "tests mock the token validation and a single refresh; chains and provider failures are not explored",
     ["strategy/web/web.go", "authserver/authserver.go", "client/client.go", "validator/validator.go"],
     [("refresh", "strategy/web/web.go handleRefreshTokens"), ("expiry recognised", "validator/validator.go Validate"), ("refresh grant", "authserver/authserver.go GetTokens")],
     [("tokenCache", "session id -> tokens", "strategy/web/web.go")], [GRPC, "requests to the provider's token endpoint"])

prop("C13", "A login asks for the right thing and returns the user where they were",
     "A login redirects to the provider's authorization endpoint with response_type code, the client's id, its configured scopes (openid profile email if none), a state, and as redirect URI the requested URL followed by /oidc/callback; it sets a cookie for that client. "
     "The callback exchanges the code using the same redirect URI and, on success, redirects to the URL first requested, or to the policy's redirect URI if one is configured, with a session cookie for path /. "
     "If the exchange fails or returns tokens that are missing or invalid, the callback is rejected and no session is created.",
     ["inputs", "configurations"], "for every scheme, host, path, scope list, redirect URI and every token endpoint answer",
     "tests look for the presence of a redirect with fixed inputs",
     ["strategy/web/web.go", "strategy/web/utils.go", "client/client.go", "authserver/authserver.go"],
     [("authorization URL", "strategy/web/utils.go generateAuthorizationURL"), ("code exchange and redirect", "strategy/web/web.go handleAuthorizationCodeCallback"), ("token response validation", "authserver/authserver.go OK")], (), [GRPC, "requests to the provider's token endpoint"])

prop("C14", "Session and state identifiers are never repeated and cannot be guessed",
     "The session ids and login states handed out are all different, also when issued at the same moment and across restarts of the adapter, and each of their characters varies over the whole alphabet without recognisable pattern.",
     ["schedules", "histories"], "for all logins begun and completed, concurrently and across restarts",
     "tests check the length of one random string",
     ["strategy/web/utils.go", "strategy/web/web.go"],
     [("random identifiers", "strategy/web/utils.go randString")], (), [GRPC])

prop("C15", "Concurrent requests and configuration changes are safe",
     "Under any interleaving of concurrent requests with one another and with changes of policies and configurations the adapter neither crashes nor deadlocks nor has data races, and answers each request as some order of the concurrent events would have it.",
     ["schedules"], "for every schedule of concurrent requests and configuration changes",
     "the tests are sequential",
     ["policy/store/policy/localstore.go", "authserver/authserver.go", "authserver/keyset/keyset.go", "strategy/web/web.go", "policy/controller/controller.go"],
     [("store lock", "policy/store/policy/localstore.go mutex"), ("discovery lock", "authserver/authserver.go mutex"), ("key set lock", "authserver/keyset/keyset.go mutex"), ("session map, encryptor lock", "strategy/web/web.go")],
     (), [GRPC, "the race detector"])

prop("C16", "Cookie keys survive restarts and are never silently replaced",
     "The keys that protect the login cookies are those of the stored secret if it exists, else newly generated random ones of the configured sizes that were stored successfully before any cookie is issued with them; an existing secret is never overwritten, replaced or deleted. "
     "So a login begun before a restart or crash, at whatever point, can be completed afterwards or through another instance, concurrent first requests all use one and the same key pair, and while the keys cannot be read or stored no cookie is issued and logins resume once they can.",
     ["crash_points", "fault_sequences", "schedules"], "for every crash point and API server fault during key set-up, and concurrent first use by requests and instances",
     "tests use a fake client that always answers, and one thread",
     ["strategy/web/web.go", "networking/networking.go"],
     [("read or create", "strategy/web/web.go generateSecureCookie, generateKeySecret"), ("single initialisation", "strategy/web/web.go getSecureCookie"), ("retry", "networking/networking.go Retry")],
     [("encrpytor", "cookie keys in use", "strategy/web/web.go")], [GRPC, "requests to the API server"])

prop("C17", "Identity provider outages end where the outage ends",
     "Configurations created or used while the provider's discovery or key endpoint is down or answers nonsense do no lasting harm: requests are rejected, never let through, and as soon as the endpoints answer correctly the very next requests are served as if there had been no outage, without restart or configuration change. "
     "Until the discovery document was obtained nobody is redirected anywhere.",
     ["fault_sequences", "histories"], "for every sequence of outages of the provider's endpoints relative to configuration changes and requests",
     "tests use a mock server that is either up or down for the whole test",
     ["authserver/authserver.go", "authserver/keyset/keyset.go", "policy/handler/crdeventhandler/add_event.go", "strategy/web/web.go"],
     [("lazy discovery", "authserver/authserver.go initialize"), ("lazy keys", "authserver/authserver.go KeySet, authserver/keyset/keyset.go PublicKey"), ("no redirect without discovery", "strategy/web/web.go handleAuthorizationCodeFlow")],
     [("initialized", "discovery document was loaded", "authserver/authserver.go")], [GRPC, "requests to the provider"])

prop("C18", "The adapter's policies converge to the cluster's",
     "Whatever happens to the connection to the API server - dropped or expired watches, failed lists, missed deletions, repeated or collapsed notifications - once it works again the adapter enforces exactly the policies and configurations that exist in the cluster, and while it does not the adapter keeps enforcing what it last knew; a transient failure to read a resource is never taken for its deletion, and after a restart no protected request is let through because the policies are not known yet.",
     ["fault_sequences", "histories"], "for every sequence of resource changes and API server faults",
     "tests have no API server; the controller loop has no tests",
     ["policy/controller/controller.go", "policy/initializer/policyinitializer.go", "policy/handler/handler.go", "policy/handler/crdeventhandler/delete_event.go"],
     [("informer events to queue", "policy/initializer/policyinitializer.go initPolicyController"), ("queue to handler", "policy/controller/controller.go processNextItem")],
     [("Queue", "keys still to be processed", "policy/controller/controller.go")], [GRPC])

prop("C19", "A hung identity provider does not hang the adapter",
     "Every request is answered within a bounded time (30 seconds) even if the identity provider accepts connections but never answers, whichever of its endpoints hangs, and is then rejected rather than let through. "
     "Meanwhile requests and configuration changes that do not need the hung provider are served without delay.",
     ["fault_sequences", "schedules"], "for every endpoint that hangs, at every step of a request, with concurrent requests for other providers",
     "tests have no hanging server",
     ["networking/networking.go", "authserver/authserver.go", "authserver/keyset/keyset.go", "validator/validator.go"],
     [("HTTP client timeout", "networking/networking.go New"), ("userinfo client", "validator/validator.go validateAccessTokenString")], (), [GRPC])

prop("C20", "No request, token, cookie or provider answer can crash or fool the adapter",
     "Requests lacking any part of the required structure are rejected with an error, and whatever bytes a request's fields, headers, cookies or tokens, a configuration resource, or the provider's answers contain, the adapter answers that request and keeps serving others. "
     "Malformed input never lets a protected request through.",
     ["inputs"], "for every malformed request, token, cookie, configuration and provider answer",
     "tests have a few malformed requests",
     ["adapter.go", "strategy/api/api.go", "strategy/web/web.go", "validator/validator.go", "authserver/keyset/key.go", "networking/networking.go", "policy/handler/crdeventhandler/utils.go"],
     [("request validation", "adapter.go validateAuthnzRequest"), ("decoding with validation", "networking/networking.go decodeJSON"), ("JWK decoding", "authserver/keyset/key.go")], (), [GRPC])

prop("C21", "Client credentials go only to their own provider, in the configured way",
     "Each code exchange and refresh goes to the token endpoint of the configuration's own provider, with that configuration's client id and secret, in the request body if its authentication method is client_secret_post and as HTTP basic authentication otherwise, never both. "
     "The secret is the referenced Kubernetes secret's value if that secret and key exist and are not empty, else the one given in the configuration. "
     "A transient failure to read the secret does not change that. Neither the secret nor tokens ever appear in redirects, cookies or answers to the browser.",
     ["configurations", "histories"], "for every combination of authentication method, secret reference, plain secret, and configuration update",
     "tests check one method against a mock and not what is sent",
     ["authserver/authserver.go", "client/client.go", "policy/handler/crdeventhandler/add_event.go", "policy/handler/crdeventhandler/utils.go"],
     [("token request", "authserver/authserver.go GetTokens"), ("secret selection", "policy/handler/crdeventhandler/add_event.go GetClientSecret")], (), ["requests to the provider's token endpoint", GRPC])

prop("C22", "Every protected request is decided anew",
     "No pass given to a protected request, by a JWT or an OIDC policy, may be reused by Mixer or Envoy for a later request, be it of the very same attributes: the validity that comes with the pass rules that out, where a result of all zeros, which Mixer takes to be valid for a minute, does not. "
     "So logouts, the expiry of tokens, changed rules and deleted configurations take effect with the next request, not when some kept pass has run out.",
     ["histories", "configurations"], "for every pass and everything that may end what it was based on",
     "tests look at the status of results, not at their validity",
     ["adapter.go", "strategy/api/api.go", "strategy/web/web.go"],
     [("passes", "adapter.go HandleAuthnZ, strategy/api/api.go HandleAuthnZRequest, strategy/web/web.go isAuthorized and handleRefreshTokens")], (), [GRPC])

prop("C23", "Credentials reach neither the log nor anyone they are not for",
     "Nothing the adapter writes to its output at the default log level contains a bearer, access, ID or refresh token, an authorization code, the value of a session or state cookie, a client secret or a cookie key, whatever requests arrive and however the provider and the API server answer or fail. "
     "Codes and refresh tokens are sent to the token endpoint only, and access tokens to the userinfo endpoint only, of the provider of the client they belong to; ID tokens and the bearer tokens of API requests are sent to no one.",
     ["inputs", "histories", "configurations"], "for every request and every way in which a request, its provider or the API server may fail",
     "tests neither look at the log nor at what other servers receive; it is the rare failure paths that log what they were given",
     ["adapter.go", "validator/validator.go", "strategy/web/web.go", "authserver/authserver.go", "networking/networking.go"],
     [("what is logged of rejected tokens", "validator/validator.go validateAccessTokenString"), ("what is logged of malformed requests", "adapter.go HandleAuthnZ"), ("calls to providers", "authserver/authserver.go, validator/validator.go")], (), ["the output of the adapter's program", "the requests its providers and the API server receive", GRPC])

prop("C24", "Work leaves nothing behind",
     "What the adapter's process holds does not grow with what it has done. Once requests have been answered or given up, whatever their outcome and however the provider answered, failed or did not answer, no connection, open file, task or memory stays in use on their behalf, "
     "except one set of tokens for each login that succeeded and was not logged out (the newest set where it was refreshed). Resources that were deleted or replaced are no longer held, nor is anything that was made for them.",
     ["inputs", "histories", "configurations"], "for every kind and number of requests and configuration changes, and every way in which calls to providers may end",
     "what is held shows only after many repetitions, of rare failures above all; tests look at single answers",
     ["authserver/authserver.go", "authserver/keyset/keyset.go", "networking/networking.go", "validator/validator.go", "strategy/web/web.go", "policy/store/policy/localstore.go", "policy/handler/crdeventhandler/add_event.go", "policy/handler/crdeventhandler/delete_event.go"],
     [("calls to providers", "networking/networking.go Do, validator/validator.go validateAccessTokenString"), ("what is kept of sessions", "strategy/web/web.go tokenCache"), ("what is kept of the configuration", "policy/store/policy/localstore.go")], (), ["what the adapter's process holds: goroutines, open files, heap", GRPC])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
