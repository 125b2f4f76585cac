package main

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/world"
)

type specEntry struct {
	Svc, Kind, Text, Method string
}

type polProbe struct {
	Svc, Path, Method string
	Allow             []string
}

type polState struct {
	State map[string]int
	Probe []polProbe
}

type polStep struct {
	Act []interface{}
	To  int
}

func init() { props["C02"] = c02 }

// policySpec builds the contents of version v of policy p
func policySpec(entries []specEntry, m marker) Obj {
	bySvc := map[string][]Obj{}
	var order []string
	for _, e := range entries {
		if bySvc[e.Svc] == nil {
			order = append(order, e.Svc)
		}
		bySvc[e.Svc] = append(bySvc[e.Svc], world.PathEntry(e.Kind, e.Text, e.Method, m.typ, m.config, m.more))
	}
	targets := []interface{}{}
	for _, s := range order {
		targets = append(targets, world.Paths(s, bySvc[s]...)["targets"].([]interface{})...)
	}
	return Obj{"targets": targets}
}

// c02 takes the walks through the policies' lives in lockstep, each in a namespace of its
// own, and compares the decisions with the specification after every step. While a change
// is being applied, requests protected before and after it must not get through.
func c02() {
	w := newWorld()
	defer w.Close()
	var versions [][]specEntry
	load("consts.ndjson", func(raw []byte) { mustUnmarshal(raw, &versions) })
	var states []polState
	load("states.ndjson", func(raw []byte) {
		var s polState
		mustUnmarshal(raw, &s)
		states = append(states, s)
	})
	var walks [][]polStep
	load("walks.ndjson", func(raw []byte) {
		var s []polStep
		mustUnmarshal(raw, &s)
		walks = append(walks, s)
	})
	marks := make([]map[string]marker, len(walks))
	ns := func(i int) string { return fmt.Sprintf("w%d", i) }
	for i := range walks {
		marks[i] = map[string]marker{}
		for p := range states[0].State {
			for v := 1; v <= len(versions); v++ {
				name := fmt.Sprintf("%s-%d", p, v)
				if p == "p2" { // only the rules of its entries change
					marks[i][name] = ruleMarker(w, ns(i), "j-"+p, p, name)
				} else if p == "p3" {
					marks[i][name] = oidcMarker(w, ns(i), "o-"+name, "client-"+name)
				} else {
					marks[i][name] = jwtMarker(w, ns(i), "j-"+name, name)
				}
			}
		}
	}
	if !w.Barrier(60 * time.Second) {
		rep.count("barrier timeout")
	}
	cur := make([]int, len(walks))
	dead := make([]bool, len(walks))
	hist := make([][]interface{}, len(walks))
	steps := 0
	for _, s := range walks {
		if len(s) > steps {
			steps = len(s)
		}
	}
	var windowViol int32
	for step := 0; step < steps; step++ {
		// requests that stay protected through this step
		var watch []struct {
			i int
			r Req
		}
		for i, s := range walks {
			if step >= len(s) || dead[i] {
				continue
			}
			before, after := states[cur[i]], states[s[step].To]
			var both []Req
			for n, q := range before.Probe {
				if len(q.Allow) > 0 && len(after.Probe[n].Allow) > 0 {
					both = append(both, Req{NS: ns(i), Svc: q.Svc, Path: q.Path, Method: q.Method})
				}
			}
			if len(both) > 0 {
				watch = append(watch, struct {
					i int
					r Req
				}{i, both[rng.Intn(len(both))]})
			}
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		if len(watch) > 0 {
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for n := g; ; n += 4 {
						select {
						case <-stop:
							return
						default:
						}
						x := watch[n%len(watch)]
						if res := w.A.Do(x.r); res.Kind == "OK" {
							if atomic.AddInt32(&windowViol, 1) < 20 {
								rep.viol(fmt.Sprintf("update window: %s during %v after %v", reqKey(x.r), walks[x.i][step].Act, hist[x.i]),
									map[string]interface{}{"request": x.r, "history": hist[x.i], "change": walks[x.i][step].Act},
									"protected before, during and after the change", res.String())
							}
							return
						}
						rep.ok(1)
					}
				}(g)
			}
		}
		for i, s := range walks {
			if step >= len(s) || dead[i] {
				continue
			}
			p, v := s[step].Act[1].(string), int(s[step].Act[2].(float64))
			if v == 0 {
				w.Delete("policies", ns(i), p)
			} else {
				w.Apply("policies", ns(i), p, policySpec(versions[v-1], marks[i][fmt.Sprintf("%s-%d", p, v)]))
			}
			cur[i] = s[step].To
			hist[i] = append(hist[i], s[step].Act)
		}
		if !w.Barrier(20 * time.Second) {
			rep.count("barrier timeout")
		}
		close(stop)
		wg.Wait()
		world.Parallel(16, len(walks), func(i int) {
			if step >= len(walks[i]) || dead[i] {
				return
			}
			for _, q := range states[cur[i]].Probe {
				r := Req{NS: ns(i), Svc: q.Svc, Path: q.Path, Method: q.Method}
				var allowed []marker
				for _, a := range q.Allow {
					allowed = append(allowed, marks[i][a])
				}
				ok, exp, obs := expectMarkers(w, r, allowed, 2*time.Second)
				rep.ok(1)
				if len(allowed) > 1 {
					rep.count("ties")
				}
				if !ok {
					rep.viol(fmt.Sprintf("%s after %v", reqKey(r), hist[i]), map[string]interface{}{"history": hist[i], "request": r, "live": states[cur[i]].State}, exp, obs)
					dead[i] = true // the rest of the walk would only repeat it
					break
				}
			}
		})
		if rep.crash(w.A, fmt.Sprintf("step %d", step)) {
			return
		}
		if rep.nviol() > 60 {
			break
		}
	}
	for i := range walks {
		rep.behaviour()
		if i < 2 && len(hist[i]) > 12 {
			rep.sample(map[string]interface{}{"walk": hist[i][:12], "live after": states[walks[i][11].To].State})
		}
	}
	rep.countN("steps", steps)
}
