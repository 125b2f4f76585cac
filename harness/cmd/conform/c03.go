package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"verif/harness/world"
)

type cfgCred struct {
	Kind, NS string
	Ver      int
}

type cfgProbe struct {
	NS, Svc, Path string
	Cred          cfgCred
	Expect        string
}

type cfgState struct {
	State interface{}
	Probe []cfgProbe
}

type cfgEntry struct {
	Svc, Path, Type, Cfg string
	Also                 []struct{ Type, Cfg string }
}

func init() {
	props["C03"] = func() { configSystem(false) }
	props["C04"] = func() { configSystem(true) }
}

const sharedClient = "shared-client"

// configSystem takes the walks of ConfigSystem.tla in lockstep; each walk has its own
// copies of the namespaces.
func configSystem(confusable bool) {
	w := newWorld()
	defer w.Close()
	var contents map[string][]cfgEntry
	load("consts.ndjson", func(raw []byte) { mustUnmarshal(raw, &contents) })
	var states []cfgState
	load("states.ndjson", func(raw []byte) {
		var s cfgState
		mustUnmarshal(raw, &s)
		states = append(states, s)
	})
	var walks [][]polStep
	load("walks.ndjson", func(raw []byte) {
		var s []polStep
		mustUnmarshal(raw, &s)
		walks = append(walks, s)
	})
	// both namespaces use the same names, or names that are the same once joined with the namespace
	style := func(i int, n string) (string, string) {
		base := fmt.Sprintf("w%d", i)
		if !confusable || i%3 == 0 {
			return base + "-" + strings.ToLower(n), ""
		}
		sep := []string{"-", ""}[i%3-1]
		if n == "B" {
			return base + sep + "x", ""
		}
		return base, "x" + sep
	}
	ns := func(i int, n string) string { s, _ := style(i, n); return s }
	name := func(i int, n, of string) string { _, p := style(i, n); return p + of }
	jt := func(n string, v int) *world.Tenant { return w.IdP.Tenant(fmt.Sprintf("j%s%d", n, v)) }
	ot := func(n string, v int) *world.Tenant { return w.IdP.Tenant(fmt.Sprintf("o%s%d", n, v)) }
	tokens := map[cfgCred]string{}
	sets := map[cfgCred]tokenSet{}
	for _, p := range states[0].Probe {
		c := p.Cred
		switch c.Kind {
		case "token":
			if tokens[c] == "" {
				k := fmt.Sprintf("j%s%d", c.NS, c.Ver)
				jt(c.NS, c.Ver).SetKeys(world.PubKey("k", k))
				tokens[c] = mintUser(k, "k", "x", 10*time.Hour)
			}
		case "session":
			if _, ok := sets[c]; !ok {
				k := fmt.Sprintf("o%s%d", c.NS, c.Ver)
				ot(c.NS, c.Ver).SetKeys(world.PubKey("k", k))
				sets[c] = mintSet(k, "k", sharedClient, 10*time.Hour)
			}
		}
	}
	unsupported := []string{"saml", "JWT", "", "Oidc", "none", "jwt "}
	apply := func(i int, act []interface{}) {
		kind, n := act[0].(string), ns(i, act[1].(string))
		cfg, pol := name(i, act[1].(string), "cfg"), name(i, act[1].(string), "pol")
		switch kind {
		case "jwt":
			if v := int(act[2].(float64)); v == 0 {
				w.Delete("jwtconfigs", n, cfg)
			} else {
				w.Jwt(n, cfg, jt(act[1].(string), v).Jwks())
			}
		case "oidc":
			if v := int(act[2].(float64)); v == 0 {
				w.Delete("oidcconfigs", n, cfg)
			} else {
				w.Oidc(n, cfg, ot(act[1].(string), v), sharedClient, "secret", nil)
			}
		case "policy":
			k := act[2].(string)
			if k == "none" {
				w.Delete("policies", n, pol)
				return
			}
			concrete := func(t, c string) (string, string) {
				if t == "unsupported" {
					t = unsupported[rng.Intn(len(unsupported))]
				}
				named := c
				switch c {
				case "cfg":
					named = cfg
				case "other": // the other namespace's
					other := map[string]string{"A": "B", "B": "A"}[act[1].(string)]
					named = ns(i, other) + []string{"/", "/", ".", "", ":"}[rng.Intn(5)] + name(i, other, "cfg")
					if rng.Intn(4) == 0 {
						named = "../" + ns(i, other) + "/" + name(i, other, "cfg")
					}
				}
				return t, named
			}
			bySvc := map[string][]Obj{}
			for _, e := range contents[k] {
				pk := "exact"
				if e.Path == "/" {
					pk = "prefix"
				}
				t, named := concrete(e.Type, e.Cfg)
				svc := name(i, act[1].(string), e.Svc)
				pe := world.PathEntry(pk, e.Path, "", t, named, nil)
				for _, a := range e.Also {
					t, named := concrete(a.Type, a.Cfg)
					pe["policies"] = append(pe["policies"].([]interface{}), Obj{"policyType": t, "config": named})
				}
				bySvc[svc] = append(bySvc[svc], pe)
			}
			var targets []interface{}
			for s, ps := range bySvc {
				targets = append(targets, world.Paths(s, ps...)["targets"].([]interface{})...)
			}
			w.Apply("policies", n, pol, Obj{"targets": targets})
		}
	}
	matches := func(expect string, res world.Resp) bool {
		switch {
		case expect == "ok":
			return res.Kind == "OK"
		case expect == "deny":
			return res.Kind != "OK" && res.Kind != "REDIRECT"
		case strings.HasPrefix(expect, "login:"):
			return res.IsLogin(w.IdP.Tenant("o" + strings.TrimPrefix(expect, "login:")))
		}
		return false
	}
	cur := make([]int, len(walks))
	dead := make([]bool, len(walks))
	hist := make([][]interface{}, len(walks))
	sessions := make([]map[cfgCred]string, len(walks))
	steps := 0
	for i, s := range walks {
		sessions[i] = map[cfgCred]string{}
		if len(s) > steps {
			steps = len(s)
		}
	}
	var mu sync.Mutex
	for step := 0; step < steps; step++ {
		for i, s := range walks {
			if step < len(s) && !dead[i] {
				apply(i, s[step].Act)
				cur[i] = s[step].To
				hist[i] = append(hist[i], s[step].Act)
			}
		}
		if !w.Barrier(20 * time.Second) {
			rep.count("barrier timeout")
		}
		world.Parallel(16, len(walks), func(i int) {
			if step >= len(walks[i]) || dead[i] {
				return
			}
			for _, q := range states[cur[i]].Probe {
				r := Req{NS: ns(i, q.NS), Svc: name(i, q.NS, q.Svc), Path: q.Path, Method: "GET"}
				plain := r
				attempt := func() (bool, world.Resp, bool) {
					r := plain
					switch q.Cred.Kind {
					case "token":
						r.Authz = "Bearer " + tokens[q.Cred]
					case "session":
						c := sessions[i][q.Cred]
						if c == "" && q.Expect == "ok" && q.Cred.NS == q.NS {
							var err error
							c, err = login(w, ot(q.Cred.NS, q.Cred.Ver), plain, sets[q.Cred])
							if err != nil {
								// unprotected services need no login
								if res := w.A.Do(plain); res.Kind == "OK" {
									return true, res, true
								}
								return false, world.Resp{Kind: "ERR", Err: err.Error()}, true
							}
							sessions[i][q.Cred] = c
						}
						if c == "" {
							return true, world.Resp{}, false
						}
						r.Cookies = c
					}
					res := w.A.Do(r)
					if q.Cred.Kind == "session" && res.Kind != "OK" {
						delete(sessions[i], q.Cred) // it may have been ended by this
					}
					return matches(q.Expect, res), res, true
				}
				ok, res, done := attempt()
				for end := time.Now().Add(2 * time.Second); !ok && time.Now().Before(end); {
					time.Sleep(50 * time.Millisecond)
					ok, res, done = attempt()
				}
				if done {
					rep.ok(1)
					mu.Lock()
					rep.count("expect " + strings.SplitN(q.Expect, ":", 2)[0] + " with " + q.Cred.Kind)
					mu.Unlock()
				}
				if !ok {
					rep.viol(fmt.Sprintf("%s%s with %v after %v", q.NS+"/"+q.Svc, q.Path, q.Cred, hist[i]),
						map[string]interface{}{"history": hist[i], "probe": q, "state": states[cur[i]].State}, q.Expect, res.String())
					dead[i] = true
					break
				}
			}
		})
		if rep.crash(w.A, fmt.Sprintf("step %d", step)) {
			return
		}
		if rep.nviol() > 60 {
			break
		}
	}
	for i := range walks {
		rep.behaviour()
		if i < 2 {
			n := len(hist[i])
			if n > 12 {
				n = 12
			}
			rep.sample(map[string]interface{}{"walk": hist[i][:n]})
		}
	}
	rep.countN("steps", steps)
}
