package main

import (
	"fmt"
	"time"

	"verif/harness/world"
)

type c01Entry struct {
	Kind, Text, Mtext string
}

type c01Case struct {
	Entries []c01Entry
	Reqs    []struct {
		Path, Method string
		Allow        []int
	}
}

func init() { props["C01"] = c01 }

// c01 replays the resolution cases: each case is a service of its own, whose entries are
// listed by one policy or by several.
func c01() {
	w := newWorld()
	defer w.Close()
	const ns = "c01"
	maxEntries := 0
	var cases []c01Case
	load("cases.ndjson", func(raw []byte) {
		var c c01Case
		mustUnmarshal(raw, &c)
		cases = append(cases, c)
		if len(c.Entries) > maxEntries {
			maxEntries = len(c.Entries)
		}
	})
	var jm, om []marker
	for i := 0; i < maxEntries; i++ {
		jm = append(jm, jwtMarker(w, ns, fmt.Sprintf("j%d", i), fmt.Sprintf("m%d", i)))
		om = append(om, oidcMarker(w, ns, fmt.Sprintf("o%d", i), fmt.Sprintf("c01-client-%d", i)))
	}
	marks := make([][]marker, len(cases))
	var combined []interface{}
	for i, c := range cases {
		svc := fmt.Sprintf("s%d", i)
		var paths []Obj
		for n, e := range c.Entries {
			m := jm[n]
			if rng.Intn(3) == 0 {
				m = om[n]
			}
			marks[i] = append(marks[i], m)
			paths = append(paths, world.PathEntry(e.Kind, e.Text, e.Mtext, m.typ, m.config, nil))
		}
		switch rng.Intn(3) {
		case 0: // one policy for the service
			w.Apply("policies", ns, "p-"+svc, world.Paths(svc, paths...))
		case 1: // one policy per entry
			for n, p := range paths {
				w.Apply("policies", ns, fmt.Sprintf("p-%s-%d", svc, n), world.Paths(svc, p))
			}
		default: // one target of a policy for many services
			combined = append(combined, world.Paths(svc, paths...)["targets"].([]interface{})...)
		}
	}
	w.Apply("policies", ns, "combined", Obj{"targets": combined})
	if !w.Barrier(40 * time.Second) {
		rep.count("barrier timeout")
	}
	world.Parallel(16, len(cases), func(i int) {
		c := cases[i]
		rep.behaviour()
		if i%200 == 7 {
			rep.sample(map[string]interface{}{"entries": c.Entries, "request": c.Reqs[len(c.Reqs)/2]})
		}
		patience := 1500 * time.Millisecond
		for _, q := range c.Reqs {
			r := Req{NS: ns, Svc: fmt.Sprintf("s%d", i), Path: q.Path, Method: q.Method}
			var allowed []marker
			for _, a := range q.Allow {
				allowed = append(allowed, marks[i][a-1])
			}
			ok, exp, obs := expectMarkers(w, r, allowed, patience)
			rep.ok(1)
			if len(allowed) > 0 {
				rep.count("protected")
			} else {
				rep.count("unprotected")
			}
			if !ok {
				patience = 100 * time.Millisecond
				if rep.crash(w.A, r) {
					return
				}
				rep.viol(fmt.Sprintf("entries=%v request=%s %s", c.Entries, q.Method, q.Path), map[string]interface{}{"entries": c.Entries, "request": r, "allow": q.Allow}, exp, obs)
				if rep.nviol() > 50 {
					return
				}
			}
		}
	})
}
