package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verif/harness/world"
)

type c05Row struct {
	H      []string
	Allow  map[string][]string
	Scopes map[string]bool
}

func init() { props["C05"] = c05 }

func contains(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// challenge checks a rejection's form; scopes are those that have to be named
func challenge(res world.Resp, scopes []string) string {
	if res.Kind != "DENY" {
		return "not rejected: " + res.String()
	}
	if res.HTTP != 401 {
		return fmt.Sprintf("HTTP status %d", res.HTTP)
	}
	h := res.Header("WWW-Authenticate")
	if !strings.HasPrefix(h, "Bearer") {
		return "no Bearer challenge: " + h
	}
	if !strings.Contains(h, `error="invalid_token"`) {
		return "no error=\"invalid_token\": " + h
	}
	for _, s := range scopes {
		if !strings.Contains(h, s) {
			return "scope " + s + " not named: " + h
		}
	}
	return ""
}

func c05() {
	w := newWorld()
	defer w.Close()
	const ns = "c05"
	t := w.IdP.Tenant("c05")
	t.SetKeys(world.PubKey("kid1", "k1"))
	w.Jwt(ns, "j", t.Jwks())
	scopes := []string{"read:things", "write:things"}
	rule := func(claim, source string) Obj {
		r := Obj{"claim": claim}
		if claim == "scope" {
			r["values"] = scopes
		} else {
			r["values"] = []string{"admin"}
		}
		if source != "" {
			r["source"] = source
		}
		return r
	}
	// as in Bearer.tla
	rules := map[string][]Obj{"none": nil, "scope": {rule("scope", "")}, "scopeacc": {rule("scope", "access_token")}, "scopeid": {rule("scope", "id_token")},
		"role": {rule("role", "access_token")}, "rolescope": {rule("role", "id_token"), rule("scope", "")}}
	var entries []Obj
	var names []string
	for n, r := range rules {
		names = append(names, n)
		more := Obj{}
		if r != nil {
			more["rules"] = r
		}
		entries = append(entries, world.PathEntry("prefix", "/"+n, "", "jwt", "j", more))
	}
	sort.Strings(names)
	w.Apply("policies", ns, "p", world.Paths("api", entries...))
	w.Barrier(20 * time.Second)
	exp := time.Now().Add(10 * time.Hour).Unix()
	full := world.Claims{"sub": "u", "exp": exp, "scope": "read:things other write:things", "role": []string{"admin", "user"}}
	atoms := map[string]string{"SP": " ", "TAB": "\t", "Bearer": "Bearer", "bearer": "bearer", "Basic": "Basic",
		"a": world.Mint("RS256", "kid1", "k1", full),
		"n": world.Mint("RS256", "kid1", "k1", world.Claims{"sub": "u", "exp": exp, "scope": "read:things", "role": "administrator"}),
		"x": world.Mint("RS256", "kid1", "foreign", full),
		"e": world.Mint("RS256", "kid1", "k1", world.Claims{"sub": "u", "exp": time.Now().Add(-time.Hour).Unix(), "scope": "read:things write:things", "role": "admin"}),
		"g": "garbage"}
	var rows []c05Row
	load("cases.ndjson", func(raw []byte) {
		var r c05Row
		mustUnmarshal(raw, &r)
		rows = append(rows, r)
	})
	world.Parallel(16, len(rows), func(i int) {
		row := rows[i]
		if rep.nviol() > 50 {
			return
		}
		rep.behaviour()
		header := ""
		for _, a := range row.H {
			header += atoms[a]
		}
		for _, p := range names {
			r := Req{NS: ns, Svc: "api", Path: "/" + p + "/x", Method: "GET", Authz: header}
			var want []string
			if row.Scopes[p] {
				want = scopes
			}
			bad := func(res world.Resp) string {
				if res.Kind == "OK" {
					if contains(row.Allow[p], "accept") {
						return ""
					}
					return "accepted"
				}
				if !contains(row.Allow[p], "reject") {
					return "rejected: " + res.String() + " " + res.Header("WWW-Authenticate")
				}
				return challenge(res, want)
			}
			b := ""
			for n := 0; n < 3; n++ {
				if b = bad(w.A.Do(r)); b == "" {
					break
				}
				time.Sleep(200 * time.Millisecond)
			}
			rep.ok(1)
			rep.count(strings.Join(row.Allow[p], " or "))
			if row.Scopes[p] {
				rep.count("challenges with scopes")
			}
			if b != "" {
				if rep.crash(w.A, row) {
					return
				}
				rep.viol(fmt.Sprintf("policy %s, header %v", p, row.H), map[string]interface{}{"policy": p, "header": row.H, "text": header},
					strings.Join(row.Allow[p], " or ")+fmt.Sprintf(", rejections: 401 with a Bearer challenge, invalid_token, scopes %v", want), b)
			}
		}
		if i%900 == 5 {
			rep.sample(map[string]interface{}{"header": row.H, "allow": row.Allow})
		}
	})
}
