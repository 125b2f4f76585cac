package world

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// World is an adapter with everything around it
type World struct {
	*Kube
	IdP     *IdP
	A       *Adapter
	Scratch string

	seq   int64
	barMu sync.Mutex
}

// NewWorld starts everything
func NewWorld(scratch string) (*World, error) {
	return NewWorldOn(NewKube(), NewIdP(), scratch)
}

// NewWorldOn starts an adapter on an API server and a provider that may serve others too
func NewWorldOn(k *Kube, p *IdP, scratch string) (*World, error) {
	w := &World{Kube: k, IdP: p, Scratch: scratch}
	a, err := StartAdapter(w.Kube, scratch, 60*time.Second)
	if err != nil {
		return nil, err
	}
	w.A = a
	if !w.WaitWatching(30 * time.Second) {
		return nil, errors.New("the adapter does not watch its configuration")
	}
	return w, nil
}

// WaitWatching waits until the adapter watches all resource types
func (w *World) WaitWatching(d time.Duration) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		n := 0
		for p := range Kinds {
			for _, c := range w.Kube.Calls(apiPrefix) {
				if strings.HasSuffix(c.Path, p) && c.Body == "watch" {
					n++
					break
				}
			}
		}
		if n == len(Kinds) {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

// Close ends everything
func (w *World) Close() {
	w.A.Kill()
	w.Kube.Close()
	w.IdP.Close()
}

// Obj is JSON made simple
type Obj = map[string]interface{}

// Jwt creates a JwtConfig
func (w *World) Jwt(ns, name, jwksURL string) {
	w.Apply("jwtconfigs", ns, name, Obj{"jwksUrl": jwksURL})
}

// Oidc creates an OidcConfig
func (w *World) Oidc(ns, name string, t *Tenant, clientID, secret string, more Obj) {
	o := Obj{"discoveryUrl": t.Discovery(), "clientId": clientID, "clientSecret": secret}
	for k, v := range more {
		o[k] = v
	}
	w.Apply("oidcconfigs", ns, name, o)
}

// Paths makes the spec of a policy for one service
func Paths(service string, paths ...Obj) Obj {
	list := []interface{}{}
	for _, p := range paths {
		list = append(list, p)
	}
	return Obj{"targets": []interface{}{Obj{"serviceName": service, "paths": list}}}
}

// PathEntry makes a path entry with one policy
func PathEntry(kind, path, method, ptype, cfg string, more Obj) Obj {
	p := Obj{"policyType": ptype, "config": cfg}
	for k, v := range more {
		p[k] = v
	}
	e := Obj{kind: path, "policies": []interface{}{p}}
	if method != "" {
		e["method"] = method
	}
	return e
}

const sentinelNS = "vsent"

// Barrier returns once the adapter has processed all changes made so far. It is best
// effort: false means that the adapter does not follow within the time limit.
func (w *World) Barrier(limit time.Duration) bool {
	w.barMu.Lock()
	defer w.barMu.Unlock()
	n := atomic.AddInt64(&w.seq, 1)
	t := w.IdP.Tenant(sentinelNS)
	j, o, p := fmt.Sprintf("sj%d", n), fmt.Sprintf("so%d", n), fmt.Sprintf("sp%d", n)
	w.Jwt(sentinelNS, j, t.Jwks())
	w.Oidc(sentinelNS, o, t, "client-"+o, "s", nil)
	w.Apply("policies", sentinelNS, p, Paths("svc-"+p,
		PathEntry("exact", "/s", "", "jwt", j, nil), PathEntry("exact", "/o", "", "oidc", o, nil)))
	end := time.Now().Add(limit)
	ok := false
	for wait := time.Millisecond; time.Now().Before(end); {
		r1 := w.A.Do(Req{NS: sentinelNS, Svc: "svc-" + p, Path: "/s", Method: "GET"})
		r2 := w.A.Do(Req{NS: sentinelNS, Svc: "svc-" + p, Path: "/o", Method: "GET"})
		if r1.Kind == "DENY" && r2.Kind == "REDIRECT" {
			ok = true
			break
		}
		if c, _ := w.A.Crashed(); c {
			break
		}
		time.Sleep(wait)
		if wait < 20*time.Millisecond {
			wait *= 2
		}
	}
	w.Delete("jwtconfigs", sentinelNS, j)
	w.Delete("oidcconfigs", sentinelNS, o)
	w.Delete("policies", sentinelNS, p)
	return ok
}

// Parallel runs f(0..n-1) on the given number of goroutines
func Parallel(workers, n int, f func(i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}
