"""What each property's check does: models, generated behaviours, drivers, traces."""
import json, os, random
from check import edge_walks, key


def write(c, name, rows):
    with open(os.path.join(c.dir, name), "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")


def c01(c):
    c.mc("MC_Resolution")
    c.gen("Gen_Resolution", "cases.ndjson")
    c.conform()


def walks_with_probes(c, module, cfg, length, init=None, limit=None, env=None, prefix="", repeat=1):
    """Exports a state graph and writes states.ndjson, walks.ndjson, consts.json."""
    trans, states, consts = c.graph(module, cfg, env=env)
    if init is None:
        init = states[0]["state"]
    index = {key(s["state"]): i for i, s in enumerate(states)}
    rng = random.Random(c.seed)
    walks, left = edge_walks(trans, init, length, rng, limit)
    for _ in range(repeat - 1):
        walks += edge_walks(trans, init, length, rng, limit)[0]
    write(c, prefix + "states.ndjson", states)
    write(c, prefix + "consts.ndjson", consts)
    write(c, prefix + "walks.ndjson", [[{"act": t["act"], "to": index[key(t["to"])]} for t in w] for w in walks])
    c.log("%s: %d transitions, %d states, %d walks, %d transitions not covered" % (module, len(trans), len(states), len(walks), left))
    c.counts[prefix + "transitions of the specification"] = len(trans)
    c.counts[prefix + "transitions covered by walks"] = len(trans) - left
    return walks


def c02(c):
    c.mc("MC_PolicySystem")
    walks_with_probes(c, "MC_PolicySystem", "Gen_PolicySystem.cfg", 120)
    c.conform()


def c03(c):
    c.mc("ConfigSystem", "MC_ConfigSystem_C03.cfg")
    walks_with_probes(c, "ConfigSystem", "Gen_ConfigSystem_C03.cfg", 100, repeat=6 if not c.big else 40)
    c.conform()


def c04(c):
    c.mc("ConfigSystem", "MC_ConfigSystem_C04.cfg")
    walks_with_probes(c, "ConfigSystem", "Gen_ConfigSystem_C04.cfg", 100, repeat=1 if not c.big else 5)
    c.conform()


def c05(c):
    c.mc("MC_Bearer")
    c.gen("Gen_Bearer", "cases.ndjson")
    c.conform()


def c07(c):
    c.mc("MC_Rules")
    c.gen("Gen_Rules", "cases.ndjson", env={"OUT2": os.path.join(c.dir, "default.ndjson")})
    c.conform()


def c06(c):
    c.mc("MC_Tokens")
    c.gen("Gen_Tokens", "cases.ndjson")
    c.conform()


def traces(c, rep, module, cfg, name, what):
    """Has TLC judge the histories a driver recorded."""
    path = os.path.join(rep["trace_dir"], name)
    why = c.check_trace(module, path, cfg)
    if why:
        c.viol("%s: %s" % (what, why[:400]), {"trace": open(path).read()[:200000] if os.path.getsize(path) < 200000 else "(too long)", "why": why},
               "a behaviour allowed by %s" % module, why[:8000])


def c08(c):
    c.mc("KeySet", "MC_KeySet.cfg")
    walks_with_probes(c, "KeySet", "Gen_KeySet.cfg", 60, repeat=8 if not c.big else 80)
    rep = c.conform()
    traces(c, rep, "Trace_KeySet", "Trace_KeySet.cfg", "keyset.ndjson", "history of keys")


def web(c, walks=500):
    """Random behaviours of logins and sessions"""
    c.mc("WebFlow", "MC_WebFlow_big.cfg" if c.big else "MC_WebFlow.cfg")
    sims = c.simulate("Sim_WebFlow", "Sim_WebFlow.cfg", walks if not c.big else walks * 12, 40)
    write(c, "web.ndjson", sims)


def c09(c):
    web(c)
    c.gen("StateCookie", "cookies.ndjson")
    c.conform()


def c10(c):
    web(c)
    c.gen("CookieHeader", "headers.ndjson")
    c.mc("SessionValidity", "MC_SessionValidity.cfg")
    for kind in ("jwt", "opaque"):
        walks_with_probes(c, "SessionValidity", "Gen_SessionValidity_%s.cfg" % kind, 30, repeat=4 if not c.big else 40, prefix=kind + "-")
    c.conform()


def race(c):
    c.mc("RefreshRace", "MC_RefreshRace.cfg")
    c.mc("RefreshImpl", "MC_RefreshImpl_TRUE_TRUE.cfg")
    c.refuted("RefreshImpl", "MC_RefreshImpl_FALSE_TRUE.cfg")
    c.refuted("RefreshImpl", "MC_RefreshImpl_TRUE_FALSE.cfg")
    walks_with_probes(c, "RefreshRace", "Gen_RefreshRace.cfg", 12, repeat=4 if not c.big else 40, prefix="race-")


def c11(c):
    web(c)
    race(c)
    c.gen("Logout", "pages.ndjson")
    c.conform()


def c12(c):
    c.mc("RefreshChain", "MC_RefreshChain.cfg")
    walks_with_probes(c, "RefreshChain", "Gen_RefreshChain_%d.cfg" % (4 if c.big else 3), 20, repeat=1 if not c.big else 5, prefix="chain-")
    race(c)
    c.conform()


def c13(c):
    c.mc("WebFlow", "MC_WebFlow_big.cfg" if c.big else "MC_WebFlow.cfg")
    c.gen("Login", "login.ndjson")
    c.conform()


def c14(c):
    c.mc("IdSource", "MC_IdSource_TRUE_TRUE.cfg")
    c.refuted("IdSource", "MC_IdSource_FALSE_TRUE.cfg")
    c.refuted("IdSource", "MC_IdSource_TRUE_FALSE.cfg")
    rep = c.conform()
    traces(c, rep, "Trace_Ids", "Trace_Ids.cfg", "ids.ndjson", "ids handed out")


def c15(c):
    c.mc("PolicyStore", "MC_PolicyStore_TRUE_FALSE.cfg")
    c.mc("PolicyStore", "MC_PolicyStore_FALSE_TRUE.cfg")
    c.refuted("PolicyStore", "MC_PolicyStore_FALSE_FALSE.cfg")
    c.mc("MC_Linear", "MC_Linear_FALSE.cfg")
    c.refuted("MC_Linear", "MC_Linear_TRUE.cfg")
    for i, (name, race) in enumerate([("C15", False), ("C15race", True)] * (1 if not c.big else 8)):
        rep = c.conform(name, race=race, args=["-seed", str(c.seed + 1000 * i)])
        if os.path.exists(os.path.join(rep["trace_dir"], "linear.ndjson")):
            traces(c, rep, "Trace_Linear", "Trace_Linear.cfg", "linear.ndjson", "answers of concurrent requests")


def c16(c):
    c.mc("CookieKeys", "MC_CookieKeys_FALSE_FALSE.cfg")
    c.refuted("CookieKeys", "MC_CookieKeys_TRUE_FALSE.cfg")
    c.refuted("CookieKeys", "MC_CookieKeys_FALSE_TRUE.cfg")
    walks_with_probes(c, "KeyBootstrap", "Gen_KeyBootstrap.cfg", 14, init={"up": [], "secret": "none", "pend": 0}, repeat=1 if not c.big else 8,
                      limit=80 if not c.big else None)
    rep = c.conform()
    traces(c, rep, "Trace_CookieKeys", "Trace_CookieKeys.cfg", "keys.ndjson", "history of the cookie keys")


def c17(c):
    for kind in ("jwt", "oidc"):
        c.mc("Outage", "MC_Outage_%s_FALSE.cfg" % kind)
        c.refuted("Outage", "MC_Outage_%s_TRUE.cfg" % kind)
        init = {"disc": "up", "jwks": "up", "doc": "none", "keys": "none", "pend": False, "sess": "no"}
        walks_with_probes(c, "Outage", "Gen_Outage_%s.cfg" % kind, 30, init=init, repeat={"jwt": 10, "oidc": 3}[kind] * (1 if not c.big else 25), prefix=kind + "-")
    c.conform()


def c18(c):
    c.mc("Convergence", "MC_Convergence_FALSE_FALSE_FALSE.cfg")
    for cfg in ("TRUE_FALSE_FALSE", "FALSE_TRUE_FALSE", "FALSE_FALSE_TRUE"):
        c.refuted("Convergence", "MC_Convergence_%s.cfg" % cfg)
    c.mc("ClusterView", "MC_ClusterView.cfg")
    write(c, "views.ndjson", c.simulate("Sim_ClusterView", "Sim_ClusterView.cfg", 32 if not c.big else 320, 40))
    c.conform()


def c19(c):
    c.mc("HungProvider", "MC_HungProvider_TRUE_FALSE_FALSE_FALSE.cfg")
    for cfg in ("FALSE_FALSE_FALSE_FALSE", "TRUE_TRUE_FALSE_FALSE", "TRUE_FALSE_TRUE_FALSE", "TRUE_FALSE_FALSE_TRUE"):
        c.refuted("HungProvider", "MC_HungProvider_%s.cfg" % cfg)
    c.gen("Gen_HungProvider", "cases.ndjson")
    c.conform()


def c20(c):
    c.mc("Serving", "MC_Serving_FALSE_FALSE_FALSE_FALSE.cfg")
    for cfg in ("TRUE_FALSE_FALSE_FALSE", "FALSE_TRUE_FALSE_FALSE", "FALSE_FALSE_TRUE_FALSE", "FALSE_FALSE_FALSE_TRUE"):
        c.refuted("Serving", "MC_Serving_%s.cfg" % cfg)
    c.gen("Gen_Malformed", "malformed.ndjson")
    c.conform()


def c21(c):
    c.mc("Credentials", "MC_Credentials_FALSE_FALSE_FALSE_FALSE.cfg")
    for cfg in ("TRUE_FALSE_FALSE_FALSE", "FALSE_TRUE_FALSE_FALSE", "FALSE_FALSE_TRUE_FALSE", "FALSE_FALSE_FALSE_TRUE"):
        c.refuted("Credentials", "MC_Credentials_%s.cfg" % cfg)
    c.gen("Gen_Credentials", "texts.ndjson", cfg="Gen_Credentials.cfg")
    write(c, "walks.ndjson", c.simulate("Sim_Credentials", "Sim_Credentials.cfg", 300 if not c.big else 2000, 26))
    c.conform()


def c22(c):
    c.mc("Front", "MC_Front_none.cfg")
    for cfg in ("default", "token"):
        c.refuted("Front", "MC_Front_%s.cfg" % cfg)
    write(c, "walks.ndjson", c.simulate("Sim_Front", "Sim_Front.cfg", 120 if not c.big else 1200, 32))
    c.conform()


def c23(c):
    c.mc("Disclosure", "MC_Disclosure.cfg")
    for d in ("log-rejected", "log-malformed", "log-exchange", "log-keys", "answer-refresh", "shared-endpoint", "follow-redirect"):
        c.refuted("Disclosure", "MC_Disclosure_%s.cfg" % d)
    c.gen("Gen_Disclosure", "cases.ndjson", env={"OUT2": os.path.join(c.dir, "may.ndjson")})
    program = c.build(pkg="github.com/ibm-cloud-security/app-identity-and-access-adapter/cmd")
    c.conform(args=("-program", program))


def c24(c):
    c.mc("Resources", "MC_Resources.cfg")
    for d in ("unclosed-error", "task-left", "kept-replaced", "kept-removed", "kept-loggedout", "kept-refreshed", "kept-answers"):
        c.refuted("Resources", "MC_Resources_%s.cfg" % d)
    c.gen("Gen_Resources", "cases.ndjson")
    c.conform()


CHECKS = {n.upper(): f for n, f in list(globals().items()) if len(n) == 3 and n[0] == "c" and n[1:].isdigit()}
