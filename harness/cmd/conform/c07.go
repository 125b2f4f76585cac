package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"verif/harness/world"
)

type c07Rule struct {
	Claim  string   `json:"claim"`
	Match  string   `json:"match"`
	Values []string `json:"values"`
	Source string   `json:"source"`
}

type c07Row struct {
	Tokens []string
	Rules  []c07Rule
	Access []string
	ID     []string
}

func init() { props["C07"] = c07 }

func (r c07Rule) obj() Obj {
	o := Obj{"claim": r.Claim, "values": r.Values}
	if r.Match != "" {
		o["match"] = r.Match
	}
	if r.Source != "" {
		o["source"] = r.Source
	}
	return o
}

const c07Client = "c07-client"

// c07Token mints a token with the given claims (JSON text) besides the usual ones
func c07Token(claims string) string {
	payload := fmt.Sprintf(`{"sub":"u","iss":"i","aud":["other","%s"],"jti":"%s","exp":%d`, c07Client, unique("t"), time.Now().Add(10*time.Hour).Unix())
	if claims != "{}" {
		payload += "," + claims[1:len(claims)-1]
	}
	return world.MintRaw("RS256", "kid1", "k1", json.RawMessage(payload+"}"))
}

func c07() {
	w := newWorld()
	defer w.Close()
	const ns = "c07"
	t := w.IdP.Tenant("c07")
	t.SetKeys(world.PubKey("kid1", "k1"))
	w.Jwt(ns, "j", t.Jwks())
	w.Oidc(ns, "o", t, c07Client, "s", nil)
	var rows []c07Row
	var texts []string
	load("cases.ndjson", func(raw []byte) {
		var r c07Row
		mustUnmarshal(raw, &r)
		if r.Tokens != nil {
			texts = r.Tokens
		} else {
			rows = append(rows, r)
		}
	})
	tokens := make([]string, len(texts))
	for i, s := range texts {
		tokens[i] = c07Token(s)
	}
	for from := 0; from < len(rows); from += 150 {
		var api, web []Obj
		for i := from; i < from+150 && i < len(rows); i++ {
			var rules []Obj
			for _, r := range rows[i].Rules {
				rules = append(rules, r.obj())
			}
			api = append(api, world.PathEntry("exact", fmt.Sprintf("/r%d", i), "", "jwt", "j", Obj{"rules": rules}))
			web = append(web, world.PathEntry("exact", fmt.Sprintf("/r%d", i), "", "oidc", "o", Obj{"rules": rules}))
		}
		w.Apply("policies", ns, fmt.Sprintf("api%d", from), world.Paths("api", api...))
		w.Apply("policies", ns, fmt.Sprintf("web%d", from), world.Paths("web", web...))
	}
	w.Apply("policies", ns, "default", world.Paths("def", world.PathEntry("prefix", "/", "", "oidc", "o", nil)))
	if !w.Barrier(40 * time.Second) {
		rep.count("barrier timeout")
	}
	and := func(a, b string) string {
		if a == "no" || b == "no" {
			return "no"
		}
		if a == "open" || b == "open" {
			return "open"
		}
		return "yes"
	}
	disagree := func(expect string, accepted bool) bool {
		return expect == "yes" && !accepted || expect == "no" && accepted
	}
	api := func(i int, expect string, access, id int, desc string) {
		r := Req{NS: ns, Svc: "api", Path: fmt.Sprintf("/r%d", i), Method: "GET", Authz: "Bearer " + tokens[access]}
		if id >= 0 {
			r.Authz += " " + tokens[id]
		}
		res := w.A.Do(r)
		for n := 0; n < 2 && (disagree(expect, res.Kind == "OK") || res.Kind != "OK" && res.HTTP != 401); n++ {
			time.Sleep(200 * time.Millisecond)
			res = w.A.Do(r)
		}
		rep.ok(1)
		rep.count(desc + " " + expect)
		if disagree(expect, res.Kind == "OK") || res.Kind != "OK" && res.HTTP != 401 {
			if rep.crash(w.A, rows[i]) {
				return
			}
			c := map[string]interface{}{"rules": rows[i].Rules, "access token": texts[access]}
			k := fmt.Sprintf("JWT rules=%+v access=%s", rows[i].Rules, texts[access])
			if id >= 0 {
				c["ID token"] = texts[id]
				k += " id=" + texts[id]
			}
			rep.viol(k, c, expect, res.String())
		}
	}
	world.Parallel(16, len(rows), func(i int) {
		row := rows[i]
		if rep.nviol() > 50 {
			return
		}
		rep.behaviour()
		rnd := rand.New(rand.NewSource(*seed*100003 + int64(i)))
		var fine []int
		for k := range tokens {
			if row.Access[k] == "yes" {
				fine = append(fine, k)
			}
		}
		for k := range tokens {
			api(i, row.Access[k], k, -1, "access")
		}
		for k := range tokens {
			if *tier != "thorough" && len(row.Rules) == 1 && row.Rules[0].Source != "id_token" && rnd.Intn(8) != 0 {
				continue // no rule for ID tokens
			}
			a := rnd.Intn(len(tokens))
			if len(fine) > 0 && rnd.Intn(10) != 0 {
				a = fine[rnd.Intn(len(fine))]
			}
			api(i, and(row.Access[a], row.ID[k]), a, k, "access and ID")
		}
		if i%300 == 9 {
			rep.sample(map[string]interface{}{"rules": row.Rules, "access token": texts[i%len(texts)], "verdict": row.Access[i%len(texts)]})
		}
	})
	// the same in OIDC flows: a login either yields a session or is rejected
	flow := func(r Req, set tokenSet) (bool, string) {
		p, err := beginLogin(w, t, r)
		if err != nil {
			return false, err.Error()
		}
		code := unique("code")
		t.Grant("code:"+code, set.reply())
		res := w.A.Do(p.callback(code))
		ck := res.SetCookie()
		if res.Kind == "DENY" && ck == nil {
			return false, ""
		}
		if res.Kind != "REDIRECT" || ck == nil || res.IsLogin(t) {
			return false, "unexpected answer to the callback: " + res.String()
		}
		r.Cookies = ck.Name + "=" + ck.Value
		if res = w.A.Do(r); res.Kind != "OK" || res.Authz != set.authz() {
			return true, "session created, then: " + res.String()
		}
		return true, ""
	}
	n := 6000
	if *tier == "thorough" {
		n = 60000
	}
	world.Parallel(16, n, func(k int) {
		if rep.nviol() > 50 {
			return
		}
		rnd := rand.New(rand.NewSource(*seed*7 + int64(k)))
		i := rnd.Intn(len(rows))
		pick := func(verdicts []string) int {
			for n := 0; n < 30; n++ {
				if k := rnd.Intn(len(verdicts)); verdicts[k] == "yes" {
					return k
				}
			}
			return rnd.Intn(len(verdicts))
		}
		a, d := rnd.Intn(len(tokens)), rnd.Intn(len(tokens))
		switch rnd.Intn(3) {
		case 0:
			a = pick(rows[i].Access)
		case 1:
			d = pick(rows[i].ID)
		default:
			a, d = pick(rows[i].Access), pick(rows[i].ID)
		}
		expect := and(rows[i].Access[a], rows[i].ID[d])
		r := Req{NS: ns, Svc: "web", Path: fmt.Sprintf("/r%d", i), Method: "GET"}
		acc, note := flow(r, tokenSet{Access: tokens[a], ID: tokens[d]})
		for n := 0; n < 2 && (note != "" || disagree(expect, acc)); n++ {
			time.Sleep(200 * time.Millisecond)
			acc, note = flow(r, tokenSet{Access: tokens[a], ID: tokens[d]})
		}
		rep.ok(1)
		rep.behaviour()
		rep.count("OIDC " + expect)
		if note != "" || disagree(expect, acc) {
			if rep.crash(w.A, rows[i]) {
				return
			}
			rep.viol(fmt.Sprintf("OIDC rules=%+v access=%s id=%s", rows[i].Rules, texts[a], texts[d]),
				map[string]interface{}{"rules": rows[i].Rules, "access token": texts[a], "ID token": texts[d]}, expect, fmt.Sprintf("accepted=%v %s", acc, note))
		}
	})
	// policies without rules: the access token has to list the client in aud
	var def []struct {
		Aud    string
		Expect string
	}
	load("default.ndjson", func(raw []byte) { mustUnmarshal(raw, &def) })
	for _, d := range def {
		claims := fmt.Sprintf(`{"sub":"u","exp":%d,"jti":"%s"`, time.Now().Add(time.Hour).Unix(), unique("t"))
		if d.Aud != "" {
			claims += `,"aud":` + d.Aud
		}
		set := tokenSet{Access: world.MintRaw("RS256", "kid1", "k1", json.RawMessage(claims+"}")), ID: tokens[0]}
		acc, note := flow(Req{NS: ns, Svc: "def", Path: "/x", Method: "GET"}, set)
		rep.ok(1)
		rep.behaviour()
		rep.count("default rule " + d.Expect)
		if note != "" || disagree(d.Expect, acc) {
			rep.viol("default rule aud="+d.Aud, d, d.Expect, fmt.Sprintf("accepted=%v %s", acc, note))
		}
	}
	// access tokens that are not JWTs cannot satisfy rules about them
	for i, row := range rows {
		if i%9 != 0 || len(row.Rules) == 0 {
			continue
		}
		explicit, implicit, ids := false, false, false
		for _, r := range row.Rules {
			explicit = explicit || r.Source == "access_token"
			implicit = implicit || r.Source == ""
			ids = ids || r.Source == "id_token"
		}
		if ids && !explicit && !implicit && len(row.Rules) > 1 {
			continue
		}
		d := -1
		for k, v := range row.ID {
			if v == "yes" {
				d = k
			}
		}
		if d < 0 {
			continue
		}
		op := unique("opaque")
		t.UserInfo(op, world.Reply{Body: `{"sub":"u"}`})
		acc, note := flow(Req{NS: ns, Svc: "web", Path: fmt.Sprintf("/r%d", i), Method: "GET"}, tokenSet{Access: op, ID: tokens[d]})
		rep.ok(1)
		rep.behaviour()
		rep.count("opaque access token")
		c := map[string]interface{}{"rules": row.Rules, "access token": "opaque, accepted by userinfo"}
		switch {
		case note != "":
			rep.viol(fmt.Sprintf("opaque access token, rules=%+v", row.Rules), c, "login accepted or rejected", note)
		case acc && explicit:
			rep.viol(fmt.Sprintf("opaque access token, rules=%+v", row.Rules), c, "rejected", "accepted")
		case acc && implicit:
			rep.viol("opaque access token accepted by userinfo, all rules about access tokens without source", c, "rejected", "accepted")
		case !acc && !explicit && !implicit:
			rep.viol(fmt.Sprintf("opaque access token, rules=%+v", row.Rules), c, "accepted (no rule is about access tokens)", "rejected "+strings.TrimSpace(note))
		}
	}
}
