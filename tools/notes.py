"""Technique and level note of each check."""
TRUST = " Trusted: TLC, the fake API server and identity provider of the harness, Go's toolchain."
NOTES = {
    "C01": ("TLA+ resolution rules checked with TLC; TLC-generated cases replayed into the running adapter",
            "TLC checks exhaustively (paths up to depth 3, up to 2 or 3 entries) that the lookup equals the declarative definition; all pairs of 24 entries and random larger sets are replayed over gRPC and every decision compared with the specification. Bounded: path alphabet, depth and number of entries." + TRUST),
    "C02": ("TLA+ state machine of live policies checked with TLC; every transition replayed into the running adapter",
            "All transitions between the states of 3 policies x 7 contents are taken in the real adapter through a fake API server, all probe requests compared after each step, and requests protected on both sides of a change watched during it. Bounded: number of policies and contents." + TRUST),
    "C03": ("TLA+ state machine of policies and configurations checked with TLC; every transition replayed into the running adapter",
            "Every transition of a policy (10 contents), a JWT and an OIDC configuration (2 versions each, re-creation included) is taken in the real adapter, in several orders, and after each step every request is tried without credentials, with the tokens and with the sessions of every version. Bounded: one policy and one configuration name per type." + TRUST),
    "C04": ("TLA+ state machine of two namespaces using the same names, checked with TLC; every transition replayed into the running adapter",
            "Policies and configurations of the same names in two namespaces are created, changed and deleted in every state of the other namespace; requests to both services of both namespaces are tried after each step with the credentials of either namespace. Bounded: two namespaces, two services, one name." + TRUST),
    "C05": ("TLA+ grammar of the authorization header checked with TLC; all headers of bounded length replayed into the running adapter",
            "All headers of up to 3 atoms and all of up to 5 that begin like a bearer header, over valid, badly signed, expired, rule-failing tokens and garbage, for six policies; verdict, status and challenge are compared with the specification. Bounded: number and alphabet of atoms." + TRUST),
    "C06": ("TLA+ model of token validation checked with TLC; generated tokens replayed into the running adapter",
            "The product of algorithm, key id, signer, tampering, exp and nbf (as API tokens completely, in OIDC flows all that differ from a valid token in one respect and a random sample of the rest) with every userinfo answer. Bounded: two published keys; tampering at fixed places." + TRUST),
    "C07": ("TLA+ semantics of access rules checked with TLC; generated rules and tokens replayed into the running adapter",
            "Every single rule over 4 claims x 4 match kinds x 20 value lists x 3 sources and random conjunctions of 2 or 3, against about 120 claim shapes, in API requests (access and ID tokens) and a sample in OIDC logins. Bounded: the value alphabet, nesting depth 3." + TRUST),
    "C08": ("TLA+ state machine of provider keys and cached keys; histories recorded from the running adapter judged by TLC against it",
            "Key rotations, withdrawals and every kind of failed key answer in histories of bounded length and of concurrent bursts; the provider's own log of key requests and the adapter's answers form traces that the trace specification must explain. Bounded: three keys, length of the histories." + TRUST),
    "C09": ("TLA+ state machine of logins, sessions and browsers checked with TLC; its behaviours and a grammar of state cookies replayed into the running adapter",
            "Simulated behaviours of two browsers, two clients and an attacker who moves cookies, codes and states between them, plus every kind of altered, expired, foreign and minted state cookie with every state parameter; every answer and every request reaching the provider's token endpoint compared with the specification, including two callbacks racing. Bounded: two browsers, two clients, length of the behaviours." + TRUST),
    "C10": ("TLA+ state machine of logins and sessions and table of cookie headers checked with TLC; behaviours replayed into the running adapter",
            "Behaviours as for C09 with every request observed for the authorization passed on, all cookie headers of bounded length over own, foreign, ended, unknown and malformed sessions, and walks over sessions whose tokens expire or stop being valid. Bounded: two browsers, two clients, header length." + TRUST),
    "C11": ("TLA+ state machine of logins, logouts and refreshes checked with TLC (the unguarded variant is refuted); interleavings replayed into the running adapter",
            "All interleavings of a refresh held at the provider with logouts and requests, behaviours with logouts of several sessions, and logout answers over a table of hosts and paths. The implementation's steps are modelled and shown to refine the property; a stress run adds schedules the harness does not control. Bounded: two concurrent refreshes, number of sessions." + TRUST),
    "C12": ("TLA+ state machine of token refresh chains checked with TLC; all chains replayed into the running adapter",
            "All chains of up to 3 (thorough: 4) refreshes over 20 kinds of provider answer, with the refresh token presented, the tokens passed on and the session's cookie compared after each. Bounded: chain length, kinds of answer; expiry in real time with short-lived tokens." + TRUST),
    "C13": ("TLA+ specification of the login redirect, callback and cookie, checked with TLC; generated cases replayed into the running adapter",
            "About 22,000 combinations of request (scheme, host, path, method), configuration (client id, scopes, endpoint query) and 30 kinds of token answer; redirect parameters, provider's view of the exchange, landing page and cookie are compared with the specification. Bounded: these alphabets; TLS at the provider is not exercised." + TRUST),
    "C14": ("TLA+ model of id sources checked with TLC (weak variants are refuted); ids recorded from the running adapter judged by TLC",
            "Ids of sequential and concurrent logins, of simultaneous and of successive adapter processes must be distinct, uniform per position and between positions, and not reproducible by an attacker who tries every seed of math/rand. Unpredictability cannot be decided from outside in general; the check refutes weak sources of these kinds. Statistical thresholds have a false-alarm probability below 1e-9." + TRUST),
    "C15": ("TLA+ judge of linearizability and model of the policy store checked with TLC (unordered and stale variants refuted); histories recorded from the running adapter under load judged by TLC; race detector",
            "About 30 writers and 100 readers on policies of up to 600 entries, OIDC and JWT configurations and sessions run against the adapter, with and without the race detector, with lost watches, repeated callbacks and key fetches going on; every object's history (about 800,000 events) must be explained by one version in effect during each request. Bounded: the schedules that occur in about 30 s (thorough: 4 min); changes of different objects are not ordered with one another." + TRUST),
    "C16": ("TLA+ model of key set-up with faults and crashes checked with TLC (safety and liveness; variants refuted); its events replayed into running adapters, histories of the secret judged by TLC",
            "Walks over the starts, deaths (at each call to the API server, before and after its effect), faults and concurrent first logins of two instances sharing a secret; every cookie must verify under the stored keys, every login begun before must be completable, the secret must never change. Quick takes a sample of the 1119 transitions, thorough all of them repeatedly. Bounded: two instances, walks of 14 steps." + TRUST),
    "C17": ("TLA+ model of a configuration whose provider comes and goes, checked with TLC (the variant remembering failures is refuted); every transition replayed into the running adapter",
            "Every transition of a JWT configuration (12 states) and of an OIDC configuration (124 states): discovery and key endpoints going down in 18 and 8 ways and coming back, the configuration made anew, API requests, logins, callbacks and sessions, singly and six at a time. When the adapter fetches is left open; what it must answer is not. Bounded: one configuration per walk, walks of 30 steps." + TRUST),
    "C18": ("TLA+ models of the controller loop and of the cluster as seen through a failing connection, checked with TLC (broken loops refuted); behaviours replayed into running adapters",
            "Behaviours of 40 steps over changes, bursts, cut, stalled, expired and broken watches, failing lists, repeated notifications and restarts, each against an adapter and an API server of its own; after each step every request is compared with what the adapter can have known. Bounded: two namespaces, one resource name per kind, number of behaviours." + TRUST),
    "C19": ("TLA+ model of requests, calls with time limits and the configuration worker, checked with TLC (unbounded, locked, waiting and trusting variants refuted); its cases replayed into the running adapter",
            "Every combination of request, knowledge of the provider and endpoints that do not answer, each in two (thorough: all nine) ways of not answering, from connections never established to answers that trickle for ever, with eight requests at once; answers within 30 s and as specified, while logins, requests and configuration changes of other providers are timed. Bounded: nine ways; 'without delay' means 3 s." + TRUST),
    "C20": ("TLA+ model of requests served among malformed input, checked with TLC (crashing, fooled, wedged and sticking variants refuted); a TLA+ table of malformed input replayed into the running adapter",
            "About 8,300 malformed requests, tokens (at 7 places), cookies, discovery documents, keys, key and token answers, wire-level answers, policies and configurations, each with what TLC says may come of it, are put to the adapter; what was malformed is then put right and must work; unaffected requests are watched all along; nobody's signatures are tried against every malformed key; 3,600 (thorough: 180,000) mutated gRPC messages. Bounded: the table; policies and configurations are those the resources' schema lets through." + TRUST),
    "C21": ("TLA+ model of a configuration, the secrets it may refer to and its logins, checked with TLC (broken variants refuted); behaviours and a TLA+ table replayed into running adapters",
            "300 (thorough: 2000) behaviours of 26 steps over changes of provider, client id, method, reference and plain secret, over changes, deletions and failing reads of secrets, logins, refreshes and another configuration's logins; every token request's receiver, client id, secret and method compared with what the specification allows, every answer searched for secrets and tokens; 324 texts of ids and secrets. Bounded: one changing and one fixed configuration; secrets changed without an event of the configuration are open until the next." + TRUST),
    "C22": ("TLA+ model of Mixer keeping the adapter's passes, checked with TLC (variants with reusable passes refuted); behaviours replayed into the running adapter behind a front that keeps passes as Mixer does",
            "About 120 (thorough: 1200) behaviours of 32 steps over requests of the same attributes, logouts, expiring tokens, changed rules, deleted and recreated configurations; what a pass's validity means is Mixer's own code (CheckResult.IsDefault of the version the adapter is built against). Bounded: one JWT and one OIDC policy per behaviour; validity below a millisecond counts as none." + TRUST),
    "C23": ("TLA+ model of who learns which credential, checked with TLC (leaking variants refuted); every kind of request with every failure replayed into the delivered program, whose output and correspondents are searched for each credential",
            "84 combinations of request kind and failure (four variations each of secret source, authentication method, log format and start; thorough: four times as many) run concurrently, each with its own client, provider and credentials, against the program built from cmd/ with its default log level; each of about 2000 credentials, in several spellings, is searched in all the program wrote and in all any endpoint, the API server and any client received. Bounded: default log level, failures enumerated; providers that echo credentials are not among them." + TRUST),
    "C24": ("TLA+ model of what the adapter holds while it works, checked with TLC (variants that leave connections, tasks or entries behind refuted); each kind of work with each way it may end repeated in the running adapter, whose holdings are compared before and after",
            "58 combinations of work and ending, each done 40 (thorough: 160) times more after a first few, with 40 kB of tokens, ids, specifications or answers of its own each time, and ten of them 3000 (12000) times with ordinary data; goroutines, open files and heap after collection are compared once they settle, and a growth by more than half per repetition (100 bytes each with ordinary data) has to show twice. Bounded: a growth that is rarer than every other time of one combination, or smaller than that, is not seen; sessions that were not logged out are meant to stay." + TRUST),
}
NOT_APPLICABLE = {}
