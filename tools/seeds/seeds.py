SEEDS = {}
def seed(i, prop, edits, needs, breaks, demo, imports=(), race=False):
    SEEDS[i] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, imports=imports, race=race)

seed("c01-double-slash", "C01", [("adapter/adapter.go", 'r.Instance.Target.Path = strings.TrimRight(r.Instance.Target.Path, "/")', 'r.Instance.Target.Path = strings.TrimSuffix(r.Instance.Target.Path, "/")')],
 "a request whose path ends in two slashes, and a policy for the exact path", "only one trailing slash is removed: /private// is not matched by the exact path /private and passes unauthenticated",
 '''
	w.Apply("policies", "d", "p", world.Paths("s", world.PathEntry("exact", "/private", "", "jwt", "j", nil)))
	w.Jwt("d", "j", w.IdP.Tenant("t").Jwks())
	barrier(w)
	for _, p := range []string{"/private", "/private/", "/private//", "/private///"} {
		r := w.A.Do(Req{NS: "d", Svc: "s", Path: p, Method: "GET"})
		must(r.Kind == "DENY", "%s: %s", p, r)
	}
''')

seed("c02-same-spec-size", "C02", [("adapter/policy/initializer/policyinitializer.go", '''			key, err := cache.MetaNamespaceKeyFunc(newObj)
			zap.L().Debug("Updating resource", zap.String("key", key))
			if err == nil {''', '''			key, err := cache.MetaNamespaceKeyFunc(newObj)
			zap.L().Debug("Updating resource", zap.String("key", key))
			if err == nil && !onlyMetadata(oldObj, newObj) {'''),
 ("adapter/policy/initializer/policyinitializer.go", 'func initPolicyController(', '''// onlyMetadata tells whether an update left the policy itself as it was
func onlyMetadata(oldObj, newObj interface{}) bool {
	before, ok := oldObj.(*v1.Policy)
	if !ok {
		return false
	}
	a, b := before.Spec.Target, newObj.(*v1.Policy).Spec.Target
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ServiceName != b[i].ServiceName || len(a[i].Paths) != len(b[i].Paths) {
			return false
		}
		for n := range a[i].Paths {
			x, y := a[i].Paths[n], b[i].Paths[n]
			if x.Exact != y.Exact || x.Prefix != y.Prefix || x.Method != y.Method || len(x.Policies) != len(y.Policies) {
				return false
			}
			for m := range x.Policies {
				if x.Policies[m].PolicyType != y.Policies[m].PolicyType || x.Policies[m].Config != y.Policies[m].Config {
					return false
				}
			}
		}
	}
	return true
}

func initPolicyController(''')],
 "an update of a policy that changes only the rules of an endpoint", "such an update is taken for a change of metadata: the previous rules stay in force",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Jwt("d", "j", t.Jwks())
	rules := func(v string) Obj { return Obj{"rules": []interface{}{Obj{"claim": "role", "match": "ALL", "values": []string{v}}}} }
	protect(w, "d", "s", "jwt", "j", rules("user"))
	barrier(w)
	tok := "Bearer " + mint("a", "k", time.Hour, Obj{"role": "user"})
	r := w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: tok})
	must(r.Kind == "OK", "before: %s", r)
	protect(w, "d", "s", "jwt", "j", rules("admin"))
	barrier(w)
	r = w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: tok})
	must(r.Kind == "DENY", "after: %s", r)
''', ["time"])

seed("c03-same-endpoints", "C03", [("adapter/policy/handler/crdeventhandler/add_event.go", '''	e.Store.AddClient(oidcClient.Name(), oidcClient)
''', '''	if known := e.Store.GetClient(oidcClient.Name()); known == nil || known.ID() != oidcClient.ID() || known.Secret() != oidcClient.Secret() {
		e.Store.AddClient(oidcClient.Name(), oidcClient)
	}
''')], "an update of an OIDC configuration that changes only its provider or its scopes", "the update is ignored: users are still sent to the old provider",
 '''
	a, b := w.IdP.Tenant("a"), w.IdP.Tenant("b")
	w.Oidc("d", "o", a, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	q := Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}
	r := w.A.Do(q)
	must(r.IsLogin(a), "before: %s", r)
	w.Oidc("d", "o", b, "client", "secret", nil)
	barrier(w)
	r = w.A.Do(q)
	must(r.IsLogin(b), "after: %s", r)
''')

seed("c04-qualified-names", "C04", [("adapter/policy/engine/engine.go", '''				configName := ep.Service.Namespace + "/" + p.Config
''', '''				configName := p.Config
				if !strings.Contains(configName, "/") {
					configName = ep.Service.Namespace + "/" + configName
				}
''')], "a policy naming a configuration as namespace/name", "a policy can use the configuration of another namespace",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Jwt("other", "j", t.Jwks())
	protect(w, "d", "s", "jwt", "other/j", nil)
	barrier(w)
	r := w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: "Bearer " + mint("a", "k", time.Hour, nil)})
	must(r.Kind != "OK", "a token of another namespace's provider: %s", r)
''', ["time"])

seed("c05-scheme-prefix", "C05", [("adapter/strategy/api/api.go", 'if parts[0] != "Bearer" && parts[0] != "bearer" {', 'if !strings.HasPrefix(strings.ToLower(parts[0]), "bearer") {')],
 "an authorization header whose scheme merely begins with bearer", "headers of other schemes are taken for bearer headers",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Jwt("d", "j", t.Jwks())
	protect(w, "d", "s", "jwt", "j", nil)
	barrier(w)
	tok := mint("a", "k", time.Hour, nil)
	for _, h := range []string{"BearerX " + tok, "bearer: " + tok, "Bearer, " + tok} {
		r := w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: h})
		must(r.Kind == "DENY" && r.HTTP == 401, "%.10s: %s", h, r)
	}
''', ["time"])

seed("c06-userinfo-2xx", "C06", [("adapter/validator/validator.go", 'if res.StatusCode != http.StatusOK {', 'if res.StatusCode >= http.StatusMultipleChoices {')],
 "a userinfo endpoint answering an access token with 202 or 204", "tokens the provider did not vouch for with 200 are accepted",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	for _, status := range []int{202, 204, 206} {
		p := begin(w, t, Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"})
		s := tokenSet{Access: unique("opaque"), ID: mint("a", "k", time.Hour, nil)}
		code := unique("code")
		t.Grant("code:"+code, s.reply())
		t.UserInfo(s.Access, world.Reply{Status: status})
		r := w.A.Do(p.callback(code))
		must(r.Kind == "DENY", "userinfo %d: %s", status, r)
	}
''', ["time"])

seed("c07-list-words", "C07", [("adapter/validator/validator.go", '''			case string:
				m[s2] = struct{}{}
''', '''			case string:
				for _, word := range strings.Fields(s2) {
					m[word] = struct{}{}
				}
''')], "a list claim with an element containing a space", "the words of list elements satisfy rules: a role named 'not admin' makes an admin",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Jwt("d", "j", t.Jwks())
	protect(w, "d", "s", "jwt", "j", Obj{"rules": []interface{}{Obj{"claim": "roles", "match": "ANY", "values": []string{"admin"}}}})
	barrier(w)
	r := w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: "Bearer " + mint("a", "k", time.Hour, Obj{"roles": []string{"not admin"}})})
	must(r.Kind == "DENY", "%s", r)
	r = w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: "Bearer " + mint("a", "k", time.Hour, Obj{"roles": []string{"x", "admin"}})})
	must(r.Kind == "OK", "%s", r)
''', ["time"])

seed("c07-nested-literal", "C07", [("adapter/validator/validator.go", '''	tiers := strings.Split(claim, ".")
	for i, tier := range tiers {
''', '''	tiers := strings.SplitN(claim, ".", 2)
	if last := strings.LastIndex(claim, "."); last > len(tiers[0]) {
		tiers[1] = claim[last+1:]
	}
	for i, tier := range tiers {
''')], "a rule about a claim nested three deep, and a token with a claim of the last name directly below the first", "the rule is decided by another claim than the one it names",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Jwt("d", "j", t.Jwks())
	protect(w, "d", "s", "jwt", "j", Obj{"rules": []interface{}{Obj{"claim": "a.b.role", "match": "ALL", "values": []string{"admin"}}}})
	barrier(w)
	do := func(c Obj) world.Resp {
		return w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: "Bearer " + mint("a", "k", time.Hour, c)})
	}
	r := do(Obj{"a": Obj{"role": "admin", "b": Obj{"role": "user"}}})
	must(r.Kind == "DENY", "%s", r)
	r = do(Obj{"a": Obj{"b": Obj{"role": "admin"}}})
	must(r.Kind == "OK", "%s", r)
''', ["time"])

seed("c08-merge-keys", "C08", [("adapter/authserver/keyset/keyset.go", '''	keymap := make(map[string]crypto.PublicKey)
''', '''	keymap := make(map[string]crypto.PublicKey, len(s.publicKeys))
	for known, k := range s.publicKeys {
		keymap[known] = k // keep serving tokens signed before a rotation
	}
''')], "a key withdrawn by the provider, followed by a fetch caused by a token of a new key", "withdrawn keys are trusted for ever",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k1", "a"))
	w.Jwt("d", "j", t.Jwks())
	protect(w, "d", "s", "jwt", "j", nil)
	barrier(w)
	do := func(key, kid string) world.Resp {
		return w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: "Bearer " + mint(key, kid, time.Hour, nil)})
	}
	r := do("a", "k1")
	must(r.Kind == "OK", "%s", r)
	t.SetKeys(world.PubKey("k2", "b"))
	r = do("b", "k2")
	must(r.Kind == "OK", "%s", r)
	r = do("a", "k1")
	must(r.Kind == "DENY", "withdrawn key: %s", r)
''', ["time"])

seed("c08-fetch-limit", "C08", [("adapter/authserver/keyset/keyset.go", '''	_ = s.updateKeysGrouped()
''', '''	s.mutex.Lock()
	recent := time.Since(s.asked) < 2*time.Second
	s.asked = time.Now()
	s.mutex.Unlock()
	if !recent { // do not let unknown key ids flood the provider
		_ = s.updateKeysGrouped()
	}
'''), ("adapter/authserver/keyset/keyset.go", '''	publicKeyURL string
''', '''	publicKeyURL string
	asked        time.Time
'''), ("adapter/authserver/keyset/keyset.go", '''import (
''', '''import (
	"time"
''')], "a token with an unknown key id shortly before a key rotation", "a genuine token signed with a new key is rejected: the keys are not fetched since they were just asked for",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k1", "a"))
	w.Jwt("d", "j", t.Jwks())
	protect(w, "d", "s", "jwt", "j", nil)
	barrier(w)
	do := func(key, kid string) world.Resp {
		return w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: "Bearer " + mint(key, kid, time.Hour, nil)})
	}
	r := do("a", "unknown")
	must(r.Kind == "DENY", "%s", r)
	t.SetKeys(world.PubKey("k2", "b"))
	r = do("b", "k2")
	must(r.Kind == "OK", "a published key: %s", r)
''', ["time"])

seed("c09-state-fold", "C09", [("adapter/strategy/web/web.go", 'if request.Params.State != storedHttpCookie.Value {', 'if !strings.EqualFold(request.Params.State, storedHttpCookie.Value) {')],
 "a callback whose state differs from the browser's in the case of letters", "a login is completed with a state that was never issued",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	p := begin(w, t, Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"})
	if up := strings.ToUpper(p.state); up != p.state {
		p.state = up
	} else {
		p.state = strings.ToLower(p.state)
	}
	t.Grant("code:c", mintSet("a", "k", time.Hour, nil).reply())
	r := w.A.Do(p.callback("c"))
	must(r.Kind == "DENY", "%s", r)
''', ["strings", "time"])

seed("c10-any-cookie", "C10", [("adapter/strategy/web/web.go", '''	sessionCookie, err := request.Cookie(buildTokenCookieName(sessionCookie, action.Client))
''', '''	sessionCookie, err := w.findSession(&request, buildTokenCookieName(sessionCookie, action.Client))
'''), ("adapter/strategy/web/web.go", "// handleRefreshTokens attempts", '''// findSession finds the session's cookie, also if the client was renamed since
func (w *WebStrategy) findSession(request *http.Request, name string) (*http.Cookie, error) {
	cookie, err := request.Cookie(name)
	if err != nil {
		for _, c := range request.Cookies() {
			if _, ok := w.tokenCache.Load(c.Value); ok && strings.HasPrefix(c.Name, sessionCookie) {
				return c, nil
			}
		}
	}
	return cookie, err
}

// handleRefreshTokens attempts''')], "a browser with a session of another client and none of this one", "the session of one client is accepted by the policies of another client of the same provider",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o1", t, "client1", "secret", nil)
	w.Oidc("d", "o2", t, "client2", "secret", nil)
	protect(w, "d", "s1", "oidc", "o1", nil)
	protect(w, "d", "s2", "oidc", "o2", nil)
	barrier(w)
	c := login(w, t, Req{NS: "d", Svc: "s1", Path: "/x", Method: "GET"}, mintSet("a", "k", time.Hour, nil))
	r := w.A.Do(Req{NS: "d", Svc: "s2", Path: "/x", Method: "GET", Cookies: c})
	must(r.IsLogin(t), "%s", r)
''', ["time"])

seed("c11-refresh-renames", "C11", [("adapter/strategy/web/web.go", '''		cookie := generateSessionIDCookie(c, &sessionID)
''', '''		cookie := generateSessionIDCookie(c, nil)
		w.tokenCache.Store(cookie.Value, tokens)
''')], "a session whose tokens are refreshed, then a logout with the renewed cookie, then the cookie from before", "the session keeps living under its old id after the logout",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	q := Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}
	s := mintSet("a", "k", 3*time.Second, nil)
	s.Refresh = "r"
	t.Grant("refresh:r", mintSet("a", "k", time.Hour, nil).reply())
	c := login(w, t, q, s)
	time.Sleep(4500 * time.Millisecond)
	q.Cookies = c
	r := w.A.Do(q)
	must(r.Kind == "OK", "refresh: %s", r)
	now := c
	if r.Cookie != "" {
		k := world.ParseSetCookie(r.Cookie)
		now = k.Name + "=" + k.Value
	}
	out := q
	out.Path, out.Cookies = "/x/oidc/logout", now
	r = w.A.Do(out)
	must(r.Kind == "REDIRECT", "logout: %s", r)
	for _, old := range []string{now, c} {
		q.Cookies = old
		r = w.A.Do(q)
		must(r.Kind != "OK", "after logout: %s", r)
	}
''', ["time"])

seed("c12-refresh-rules", "C12", [("adapter/strategy/web/web.go", '''	} else if validationErr := w.tokenUtil.Validate(tokens.IdentityToken, validator.ID, keySet, rules, userInfoEndpoint); validationErr != nil {
''', '''	} else if validationErr := w.tokenUtil.Validate(tokens.IdentityToken, validator.ID, keySet, nil, userInfoEndpoint); validationErr != nil {
''')], "a policy with a rule about ID tokens, and a refresh that returns an ID token no longer satisfying it", "the refreshed session passes once although the rule is not satisfied",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", Obj{"rules": []interface{}{Obj{"claim": "role", "match": "ALL", "values": []string{"admin"}, "source": "id_token"}}})
	barrier(w)
	q := Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}
	s := mintSet("a", "k", 3*time.Second, Obj{"role": "admin"})
	s.Refresh = "r"
	t.Grant("refresh:r", mintSet("a", "k", time.Hour, Obj{"role": "user"}).reply())
	q.Cookies = login(w, t, q, s)
	time.Sleep(4500 * time.Millisecond)
	r := w.A.Do(q)
	must(r.Kind != "OK", "%s", r)
''', ["time"])

seed("c13-default-port", "C13", [("adapter/strategy/web/utils.go", '''	return action.Scheme + "://" + action.Host + action.Path
''', '''	host := strings.TrimSuffix(strings.TrimSuffix(action.Host, ":443"), ":80")
	return action.Scheme + "://" + host + action.Path
'''), ("adapter/strategy/web/utils.go", '''	"net/url"
''', '''	"net/url"
	"strings"
''')], "an http service on port 443, or an https service on port 80", "the redirect URI and the page returned to are of another port than the one asked for",
 '''
	t := w.IdP.Tenant("t")
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	for _, h := range []string{"app.example.com:8443", "app.example.com:80"} {
		r := w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Scheme: "https", Host: h})
		u := r.LocationURL().Query().Get("redirect_uri")
		must(u == "https://"+h+"/x/oidc/callback", "%s", u)
	}
''')

seed("c14-state-is-session", "C14", [("adapter/strategy/web/web.go", '''	cookie := generateSessionIDCookie(action.Client, nil)
	w.tokenCache''', '''	cookie := generateSessionIDCookie(action.Client, &request.Params.State)
	w.tokenCache''')], "a login: the session id can be read off the URLs it involved", "the session's id is the state that the provider, its logs and the browser history have seen",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	p := begin(w, t, Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"})
	t.Grant("code:c", mintSet("a", "k", time.Hour, nil).reply())
	r := w.A.Do(p.callback("c"))
	must(r.SetCookie() != nil, "%s", r)
	must(r.SetCookie().Value != p.state, "the session's id is the state")
''', ["time"])

seed("c16-unstored-keys", "C16", [("adapter/strategy/web/web.go", '''	return networking.Retry(3, 1, func() (interface{}, error) {
		return w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
	})
}''', '''	stored, err := networking.Retry(3, 1, func() (interface{}, error) {
		return w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
	})
	if err != nil && len(data[hashKey]) == hashKeySize {
		zap.L().Warn("Could not store the keys, using them anyway", zap.Error(err))
		return &newSecret, nil
	}
	return stored, err
}''')], "an API server at which the keys can be neither read nor stored when the adapter starts", "the adapter signs cookies with keys that were never stored: other instances and its own restart reject them",
 '''
	k := world.NewKube()
	defer k.Close()
	var healthy int32
	k.SecretHook = func(tag, method, name string) (int, bool) {
		if atomic.LoadInt32(&healthy) == 0 {
			return 500, false
		}
		return 0, false
	}
	w1, err := world.NewWorldOn(k, w.IdP, w.Scratch)
	must(err == nil, "%v", err)
	defer w1.A.Kill()
	atomic.StoreInt32(&healthy, 1)
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w1.Oidc("d", "o", t, "client", "secret", nil)
	protect(w1, "d", "s", "oidc", "o", nil)
	barrier(w1)
	p := begin(w1, t, Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"})
	w2, err := world.NewWorldOn(k, w.IdP, w.Scratch)
	must(err == nil, "%v", err)
	defer w2.A.Kill()
	barrier(w2)
	t.Grant("code:c", mintSet("a", "k", time.Hour, nil).reply())
	r := w2.A.Do(p.callback("c"))
	must(r.Kind == "REDIRECT", "login begun at one instance, ended at the other: %s", r)
''', ["sync/atomic", "time"])

seed("c18-missed-delete", "C18", [("adapter/policy/initializer/policyinitializer.go", "cache.DeletionHandlingMetaNamespaceKeyFunc(obj)", "cache.MetaNamespaceKeyFunc(obj)")],
 "a resource deleted while the watch is broken and its events are compacted", "the deletion is never noticed: the deleted policy stays in force",
 '''
	protect(w, "d", "s", "jwt", "j", nil)
	barrier(w)
	q := Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}
	r := w.A.Do(q)
	must(r.Kind == "ERR" || r.Kind == "DENY", "before: %s", r)
	resume := w.Suspend("policies")
	w.Delete("policies", "d", "p-s")
	resume(true)
	barrier(w)
	barrier(w)
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end) && r.Kind != "OK"; time.Sleep(50 * time.Millisecond) {
		r = w.A.Do(q)
	}
	must(r.Kind == "OK", "after the deletion: %s", r)
''', ["time"])

seed("c19-header-timeout", "C19", [("adapter/networking/networking.go", '''		&http.Client{
			Timeout: defaultTimeout,
		},''', '''		&http.Client{
			Transport: &http.Transport{Proxy: http.ProxyFromEnvironment, ResponseHeaderTimeout: defaultTimeout},
		},''')], "a provider that sends the headers of its answer and then nothing", "the request hangs for ever",
 '''
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err == nil, "%v", err)
	go http.Serve(l, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		rw.WriteHeader(200)
		rw.(http.Flusher).Flush()
		<-r.Context().Done()
	}))
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	t.SetDoc(Obj{"token_endpoint": "http://" + l.Addr().String() + "/token"})
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	p := begin(w, t, Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"})
	r := w.A.DoMsg(p.callback("c").Msg(), 35*time.Second)
	must(r.Took < 31*time.Second && r.Kind != "OK", "after %s: %s", r.Took, r)
''', ["net", "net/http", "time"])

seed("c20-kid-type", "C20", [("adapter/validator/validator.go", '''		keyID, ok := token.Header[kid].(string)
		if keyID == "" || !ok {''', '''		keyID := ""
		if v, ok := token.Header[kid]; ok {
			keyID = v.(string)
		}
		if keyID == "" {''')], "a token whose kid is not a string", "the adapter crashes",
 '''
	w.Jwt("d", "j", w.IdP.Tenant("t").Jwks())
	protect(w, "d", "s", "jwt", "j", nil)
	barrier(w)
	tok := world.MintHeader(Obj{"alg": "RS256", "kid": 7}, "RS256", "a", Obj{"sub": "u"})
	r := w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: "Bearer " + tok})
	must(r.Kind == "DENY", "%s", r)
''')

seed("c21-refresh-post", "C21", [("adapter/authserver/authserver.go", '''	if authnMethod == clientPostSecret {
		form.Add("client_id", clientID)''', '''	if authnMethod == clientPostSecret && refreshToken == "" {
		form.Add("client_id", clientID)''')], "a configuration with client_secret_post, and a session that is refreshed", "the refresh request carries no credentials",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", Obj{"authMethod": "client_secret_post"})
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	q := Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}
	s := mintSet("a", "k", 3*time.Second, nil)
	s.Refresh = "r"
	t.Grant("refresh:r", mintSet("a", "k", time.Hour, nil).reply())
	q.Cookies = login(w, t, q, s)
	time.Sleep(4500 * time.Millisecond)
	w.A.Do(q)
	hits := t.Hits("token")
	last := hits[len(hits)-1]
	must(last.Form.Get("grant_type") == "refresh_token" && last.Form.Get("client_id") == "client" && last.Form.Get("client_secret") == "secret" && !last.HasBasic, "%v", last)
''', ["time"])

seed("c21-secret-unchanged", "C21", [("adapter/policy/handler/crdeventhandler/add_event.go", '''	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
''', '''	if known := e.Store.GetClient(e.Obj.Spec.ClientName); known != nil && known.ID() == e.Obj.Spec.ClientID && e.Obj.Spec.ClientSecret == "" {
		e.Obj.Spec.ClientSecret = known.Secret() // spare the API server
	} else {
		e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
	}
''')], "an update of a configuration that refers to a secret, to refer to another one", "the previous secret is used",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.SetSecret("d", "one", map[string][]byte{"key": []byte("s1")})
	w.SetSecret("d", "two", map[string][]byte{"key": []byte("s2")})
	cfg := func(name string) {
		w.Apply("oidcconfigs", "d", "o", Obj{"discoveryUrl": t.Discovery(), "clientId": "client", "clientSecretRef": Obj{"name": name, "key": "key"}})
	}
	cfg("one")
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	q := Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}
	for _, name := range []string{"one", "two"} {
		cfg(name)
		barrier(w)
		login(w, t, q, mintSet("a", "k", time.Hour, nil))
		hits := t.Hits("token")
		want := "client:s" + map[string]string{"one": "1", "two": "2"}[name]
		must(hits[len(hits)-1].Basic == want, "%s instead of %s", hits[len(hits)-1].Basic, want)
	}
''', ["time"])

seed("c05-extra-token", "C05", [("adapter/strategy/api/api.go", 'parts := strings.SplitN(authHeader, " ", 3)', 'parts := strings.SplitN(authHeader, " ", 4)'), ("adapter/strategy/api/api.go", "if len(parts) != 2 && len(parts) != 3 {", "if len(parts) < 2 {"), ("adapter/strategy/api/api.go", "	if len(parts) == 3 {\n", "	if len(parts) >= 3 {\n")],
 "an authorization header with something after the ID token", "what follows the ID token is ignored instead of rejected",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Jwt("d", "j", t.Jwks())
	protect(w, "d", "s", "jwt", "j", nil)
	barrier(w)
	tok := mint("a", "k", time.Hour, nil)
	r := w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: "Bearer " + tok + " " + tok})
	must(r.Kind == "OK", "%s", r)
	r = w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: "Bearer " + tok + " " + tok + " x"})
	must(r.Kind == "DENY", "%s", r)
''', ["time"])

seed("c15-header-cache", "C15", [("adapter/strategy/api/api.go", '''	parts := strings.SplitN(authHeader, " ", 3)
''', '''	parts, known := headers[authHeader]
	if !known {
		parts = strings.SplitN(authHeader, " ", 3)
		if len(headers) > 10000 {
			headers = make(map[string][]string)
		}
		headers[authHeader] = parts
	}
'''), ("adapter/strategy/api/api.go", "// Parse authorization header from gRPC props\n", '''// headers caches parsed authorization headers
var headers = make(map[string][]string)

// Parse authorization header from gRPC props
''')], "concurrent requests with new tokens", "concurrent map writes crash the adapter",
 '''
	w.Jwt("d", "j", w.IdP.Tenant("t").Jwks())
	protect(w, "d", "s", "jwt", "j", nil)
	barrier(w)
	world.Parallel(64, 60000, func(i int) {
		w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: unique("Bearer ")})
	})
	crashed, words := w.A.Crashed()
	must(!crashed, "crashed: %.300s", words)
''')

seed("c17-backoff", "C17", [("adapter/authserver/authserver.go", '''	if res, err := s.httpclient.Do(req, config, oa2Err); err != nil {
''', '''	if res, err := s.attempt(req, config, oa2Err); err != nil {
'''), ("adapter/authserver/authserver.go", "// JwksEndpoint returns the /publicKeys", '''// attempt asks the discovery endpoint, unless that has failed too often
func (s *RemoteService) attempt(req *http.Request, successV, failV networking.OK) (*http.Response, error) {
	s.attempts++
	if s.attempts > 10 {
		return nil, errors.New("discovery endpoint is unavailable")
	}
	return s.httpclient.Do(req, successV, failV)
}

// JwksEndpoint returns the /publicKeys'''), ("adapter/authserver/authserver.go", "	initialized  bool\n", "	initialized  bool\n	attempts     int\n")], "ten failed attempts at discovery, then the provider is back", "the provider's return goes unnoticed: no login succeeds any more",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	t.Fault("discovery", &world.Reply{Status: 503, Body: "{}"})
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	q := Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}
	for i := 0; i < 15; i++ {
		r := w.A.Do(q)
		must(r.Kind != "OK" && r.Kind != "REDIRECT", "%s", r)
	}
	t.Fault("discovery", nil)
	login(w, t, q, mintSet("a", "k", time.Hour, nil))
''', ["time"])

seed("c19-exchange-lock", "C19", [("adapter/strategy/web/web.go", "	response, err := action.Client.ExchangeGrantCode(code.(string), redirectURI)\n", '''	response, err := w.exchangeOnce(action.Client, code.(string), redirectURI)
'''), ("adapter/strategy/web/web.go", "// handleAuthorizationCodeFlow initiates", '''// exchangeOnce exchanges one code at a time, so that none is used twice
func (w *WebStrategy) exchangeOnce(c client.Client, code, redirectURI string) (*authserver.TokenResponse, error) {
	w.mutex.Lock()
	defer w.mutex.Unlock()
	return c.ExchangeGrantCode(code, redirectURI)
}

// handleAuthorizationCodeFlow initiates''')], "logins at a provider whose token endpoint does not answer, at the same time as logins elsewhere", "every login waits for those that hang",
 '''
	hung, fine := w.IdP.Tenant("hung"), w.IdP.Tenant("fine")
	for i, t := range []*world.Tenant{hung, fine} {
		t.SetKeys(world.PubKey("k", "a"))
		n := string('1' + rune(i))
		w.Oidc("d", "o"+n, t, "client"+n, "secret", nil)
		protect(w, "d", "s"+n, "oidc", "o"+n, nil)
	}
	barrier(w)
	hung.Fault("token", &world.Reply{Hang: true})
	for i := 0; i < 10; i++ {
		p := begin(w, hung, Req{NS: "d", Svc: "s1", Path: "/x", Method: "GET"})
		go w.A.Do(p.callback(unique("c")))
	}
	time.Sleep(500 * time.Millisecond)
	start := time.Now()
	login(w, fine, Req{NS: "d", Svc: "s2", Path: "/x", Method: "GET"}, mintSet("a", "k", time.Hour, nil))
	must(time.Since(start) < 3*time.Second, "a login at another provider took %s", time.Since(start))
''', ["time"])

seed("c19-keys-patience", "C19", [("adapter/authserver/keyset/keyset.go", '''	if res, err := s.httpClient.Do(req, ks, oa2Err); err != nil {
''', '''	res, err := s.httpClient.Do(req, ks, oa2Err)
	for wait := time.Second; err != nil && wait <= 64*time.Second; wait *= 2 { // it may be overloaded
		time.Sleep(wait)
		res, err = s.httpClient.Do(req, ks, oa2Err)
	}
	if err != nil {
'''), ("adapter/authserver/keyset/keyset.go", '''	"sync"
''', '''	"sync"
	"time"
''')], "a key endpoint that does not answer", "requests wait minutes for it",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	t.Fault("jwks", &world.Reply{Hang: true})
	w.Jwt("d", "j", t.Jwks())
	protect(w, "d", "s", "jwt", "j", nil)
	time.Sleep(2 * time.Second)
	r := w.A.DoMsg(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: "Bearer " + mint("a", "k", time.Hour, nil)}.Msg(), 35*time.Second)
	must(r.Took < 31*time.Second && r.Kind == "DENY", "after %s: %s", r.Took, r)
''', ["time"])

seed("c06-kid-fold", "C06", [("adapter/authserver/keyset/keyset.go", "		keymap[k.Kid] = pubKey\n", "		keymap[strings.ToLower(k.Kid)] = pubKey\n"), ("adapter/authserver/keyset/keyset.go", "	return s.publicKeys[kid]\n", "	return s.publicKeys[strings.ToLower(kid)]\n"),
 ("adapter/authserver/keyset/keyset.go", '	"net/http"\n', '	"net/http"\n	"strings"\n')],
 "two published keys whose ids differ in case only, or a token whose key id differs in case from a published one", "tokens naming no published key are accepted, and genuine tokens of one of the keys are rejected",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"), world.PubKey("K", "b"))
	w.Jwt("d", "j", t.Jwks())
	protect(w, "d", "s", "jwt", "j", nil)
	barrier(w)
	for _, k := range [][2]string{{"a", "k"}, {"b", "K"}} {
		r := w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: "Bearer " + mint(k[0], k[1], time.Hour, nil)})
		must(r.Kind == "OK", "%s", r)
	}
''', ["time"])

seed("c20-no-params", "C20", [("adapter/adapter.go", "if r.Instance.Request.Params == nil || r.Instance.Request.Headers == nil {", "if r.Instance.Request.Headers == nil {")],
 "a request without query parameters' part", "the adapter crashes",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	m := Req{NS: "d", Svc: "s", Path: "/x/oidc/callback", Method: "GET"}.Msg()
	m.Instance.Request.Params = nil
	r := w.A.DoMsg(m, 10*time.Second)
	must(r.Kind == "ERR", "%s", r)
	time.Sleep(time.Second)
	r = w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"})
	must(r.Kind == "REDIRECT", "%s", r)
''', ["time"])

seed("c20-userinfo-url", "C20", [("adapter/validator/validator.go", '''		zap.L().Warn("Failed to get the userinfo", zap.String("url", userInfoEndpoint))
		return errors.BadRequestHTTPException(err.Error())
''', '''		zap.L().Warn("Failed to get the userinfo", zap.String("url", userInfoEndpoint), zap.Error(err))
''')], "a provider whose discovery document names a malformed userinfo endpoint, and an opaque access token", "the adapter crashes",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	t.SetDoc(Obj{"userinfo_endpoint": "http://[::1"})
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	q := Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}
	p := begin(w, t, q)
	s := mintSet("a", "k", time.Hour, nil)
	s.Access = "opaque"
	t.Grant("code:c", s.reply())
	w.A.Do(p.callback("c"))
	time.Sleep(time.Second)
	r := w.A.Do(q)
	must(r.Kind == "REDIRECT", "%s", r)
''', ["time"])

seed("c22-pass-with-token", "C22", [("adapter/strategy/web/web.go", '''			Result: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},
			Output: &authnz.OutputMsg{
				Authorization: strings.Join([]string{bearer, tokens.AccessToken, tokens.IdentityToken}, " "),
''', '''			Result: &v1beta1.CheckResult{
				Status:        status.WithMessage(rpc.OK, "User is authenticated"),
				ValidDuration: time.Duration(tokens.ExpiresIn) * time.Second, // new tokens need no further look until they expire
			},
			Output: &authnz.OutputMsg{
				Authorization: strings.Join([]string{bearer, tokens.AccessToken, tokens.IdentityToken}, " "),
''')], "a session whose tokens were just refreshed, and a logout soon after", "the pass of the refresh is kept by Mixer for the life of the new tokens, so that requests pass after the logout",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	q := Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}
	s := mintSet("a", "k", 3*time.Second, nil)
	s.Refresh = "r"
	t.Grant("refresh:r", mintSet("a", "k", time.Hour, nil).reply())
	q.Cookies = login(w, t, q, s)
	time.Sleep(4500 * time.Millisecond)
	r := w.A.Do(q)
	must(r.Kind == "OK", "%s", r)
	must(r.ValidFor <= time.Second, "the pass may be kept for %s", r.ValidFor)
''', ["time"])

seed("c22-api-uses", "C22", [("adapter/strategy/api/api.go", "		Result: &adapter.CheckResult{Status: status.OK},\n", '''		// Repeated requests with the very same token are decided alike
		Result: &adapter.CheckResult{Status: status.OK, ValidDuration: time.Minute, ValidUseCount: 10},
'''), ("adapter/strategy/api/api.go", "	\"strings\"\n", "	\"strings\"\n	\"time\"\n")], "requests repeated with a token that expires, or is no longer accepted, in between", "Mixer lets further requests through on the kept pass",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Jwt("d", "j", t.Jwks())
	protect(w, "d", "s", "jwt", "j", nil)
	barrier(w)
	r := w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: "Bearer " + mint("a", "k", time.Hour, nil)})
	must(r.Kind == "OK", "%s", r)
	must(r.ValidFor <= time.Second && r.ValidFor > 0, "the pass may be kept for %s and %d uses", r.ValidFor, r.ValidUses)
''', ["time"])

seed("c01-case", "C01", [("adapter/policy/store/pathtrie/utils.go", '''		return path[start:], -1
	}
	return path[start : start+end+1], start + end + 1
''', '''		return normalize(path[start:]), -1
	}
	return normalize(path[start : start+end+1]), start + end + 1
'''), ("adapter/policy/store/pathtrie/utils.go", '''// PathSegmenter segments''', '''// normalize removes what servers ignore: a segment's parameters
func normalize(segment string) string {
	if i := strings.IndexByte(segment, ';'); i > 0 {
		return segment[:i]
	}
	return segment
}

// PathSegmenter segments''')], "paths with a semicolon, which are other paths to the policies", "the entry of a path with a semicolon replaces that of the path without",
 '''
	t := w.IdP.Tenant("t")
	w.Jwt("d", "j", t.Jwks())
	w.Oidc("d", "o", t, "client", "secret", nil)
	w.Apply("policies", "d", "p", world.Paths("s", world.PathEntry("exact", "/a", "", "jwt", "j", nil), world.PathEntry("exact", "/a;v=1", "", "oidc", "o", nil)))
	barrier(w)
	r := w.A.Do(Req{NS: "d", Svc: "s", Path: "/a", Method: "GET"})
	must(r.Kind == "DENY" && r.HTTP == 401, "%s", r)
''')

seed("c03-first-existing", "C03", [("adapter/policy/engine/engine.go", '''					if set := m.store.GetKeySet(configName); set != nil {
''', '''					if set := m.store.GetKeySet(configName); set != nil || i < len(routeNode.Actions)-1 {
'''), ("adapter/policy/engine/engine.go", '''			return endpointActions, nil
''', '''			for endpointActions[0].KeySet == nil && endpointActions[0].Client == nil {
				endpointActions = endpointActions[1:]
			}
			return endpointActions, nil
''')], "an entry with two policies, the first of a configuration that does not exist", "the request is decided by the other policy's configuration",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Jwt("d", "good", t.Jwks())
	pol := func(cfg string) Obj { return Obj{"policyType": "jwt", "config": cfg} }
	e := world.PathEntry("prefix", "/", "", "jwt", "missing", nil)
	e["policies"] = []interface{}{pol("missing"), pol("good")}
	w.Apply("policies", "d", "p", world.Paths("s", e))
	barrier(w)
	r := w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: "Bearer " + mint("a", "k", time.Hour, nil)})
	must(r.Kind != "OK", "%s", r)
''', ["time"])

seed("c09-grace", "C09", [("adapter/strategy/web/web.go", '''	if cookieObj.Expiration.Before(time.Now()) {
''', '''	if cookieObj.Expiration.Before(time.Now().Add(-clockSkew)) {
'''), ("adapter/strategy/web/web.go", '''// Encryptor signs and encrypts values.''', '''// clockSkew is how far the clocks of replicas may be apart
const clockSkew = 10 * time.Minute

// Encryptor signs and encrypts values.''')], "a state cookie that expired within the last ten minutes", "the login is completed with an expired cookie",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	p := begin(w, t, Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"})
	b, _ := json.Marshal(w.Secret("istio-system", "appidentityandaccessadapter-cookie-sig-enc-keys")["data"])
	keys := map[string][]byte{}
	must(json.Unmarshal(b, &keys) == nil, "%s", b)
	sc := securecookie.New(keys["HASH_KEY"], keys["BLOCK_KEY"])
	name := p.cookie[:strings.IndexByte(p.cookie, '=')]
	data, _ := bson.Marshal(struct {
		Value      string
		Expiration time.Time
	}{p.state, time.Now().Add(-5 * time.Minute)})
	v, err := sc.Encode(name, data)
	must(err == nil, "%v", err)
	t.Grant("code:c", mintSet("a", "k", time.Hour, nil).reply())
	ok := w.A.Do(p.callback("c"))
	must(ok.Kind == "REDIRECT", "%s", ok)
	p.cookie = name + "=" + v
	t.Grant("code:d", mintSet("a", "k", time.Hour, nil).reply())
	r := w.A.Do(p.callback("d"))
	must(r.Kind == "DENY", "%s", r)
''', ["encoding/json", "strings", "time", "github.com/gorilla/securecookie", "gopkg.in/mgo.v2/bson"])

seed("c10-validated-once", "C10", [("adapter/strategy/web/web.go", '''	if validationErr := w.tokenUtil.Validate(session.AccessToken, validator.Access, keySet, action.Rules, userInfoEndpoint); validationErr != nil {
		return handleTokenValidationError(validationErr)
	}

	if validationErr''', '''	// Opaque access tokens were accepted by the provider when the session began
	if strings.Count(session.AccessToken, ".") == 2 {
		if validationErr := w.tokenUtil.Validate(session.AccessToken, validator.Access, keySet, action.Rules, userInfoEndpoint); validationErr != nil {
			return handleTokenValidationError(validationErr)
		}
	}

	if validationErr''')], "a session with an opaque access token that the provider revokes, or two policies for its client", "the session keeps passing",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	q := Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}
	s := mintSet("a", "k", time.Hour, nil)
	s.Access = "opaque"
	t.UserInfo("opaque", world.Reply{Body: `{"sub":"u"}`})
	q.Cookies = login(w, t, q, s)
	r := w.A.Do(q)
	must(r.Kind == "OK", "%s", r)
	t.UserInfo("opaque", world.Reply{Status: 401, Body: "{}"})
	r = w.A.Do(q)
	must(r.Kind != "OK", "%s", r)
''', ["time"])

seed("c11-cookie-path", "C11", [("adapter/strategy/web/web.go", '''			Value:   "deleted",
			Path:    "/",
			Expires: time.Now().Add(-100 * time.Hour),
		},
	}
	return''', '''			Value:   "deleted",
			Path:    redirectURL,
			Expires: time.Now().Add(-100 * time.Hour),
		},
	}
	return''')], "a logout from another path than /", "the answer does not expire the session's cookie, which is for /",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	q := Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}
	q.Cookies = login(w, t, q, mintSet("a", "k", time.Hour, nil))
	q.Path += "/oidc/logout"
	r := w.A.Do(q)
	must(r.Kind == "REDIRECT" && r.SetCookie() != nil && r.SetCookie().Path == "/", "%s", r)
''', ["time"])

seed("c12-shared-refresh", "C12", [("adapter/strategy/web/web.go", '''	if tokens, err := c.RefreshToken(session.RefreshToken); err != nil {
''', '''	if tokens, err := w.refreshOnce(c, session.RefreshToken); err != nil {
'''), ("adapter/strategy/web/web.go", '''// handleErrorCallback returns''', '''type refreshCall struct {
	done   chan struct{}
	tokens *authserver.TokenResponse
	err    error
}

// refreshOnce spares the provider the same refresh at the same time
func (w *WebStrategy) refreshOnce(c client.Client, token string) (*authserver.TokenResponse, error) {
	key := "refresh " + c.Name() + token[:len(token)/2]
	call := &refreshCall{done: make(chan struct{})}
	if other, busy := w.tokenCache.LoadOrStore(key, call); busy {
		call = other.(*refreshCall)
		<-call.done
		return call.tokens, call.err
	}
	call.tokens, call.err = c.RefreshToken(token)
	w.tokenCache.Delete(key)
	close(call.done)
	return call.tokens, call.err
}

// handleErrorCallback returns''')], "two sessions with similar refresh tokens refreshed at the same moment", "one user gets the other's tokens",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	q := Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}
	var cookies, want [2]string
	for i := range cookies {
		s := mintSet("a", "k", 3*time.Second, nil)
		s.Refresh = fmt.Sprintf("refresh-token-of-a-user-%d", i)
		n := mintSet("a", "k", time.Hour, nil)
		want[i] = n.authz()
		t.Grant("refresh:"+s.Refresh, n.reply())
		cookies[i] = login(w, t, q, s)
	}
	time.Sleep(4500 * time.Millisecond)
	release := t.Gate("token")
	var got [2]world.Resp
	var wg sync.WaitGroup
	for i := range cookies {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			q := q
			q.Cookies = cookies[i]
			got[i] = w.A.Do(q)
		}(i)
		time.Sleep(200 * time.Millisecond)
	}
	release()
	wg.Wait()
	for i, r := range got {
		must(r.Kind == "OK" && r.Authz == want[i], "%d: %s", i, r)
	}
''', ["fmt", "sync", "time"])

seed("c13-unescape", "C13", [("adapter/strategy/web/utils.go", '''	return action.Scheme + "://" + action.Host + action.Path
}
''', '''	return action.Scheme + "://" + action.Host + plain(action.Path)
}

// plain spells a path without needless escapes
func plain(path string) string {
	if p, err := url.PathUnescape(path); err == nil && p != path {
		return (&url.URL{Path: p}).EscapedPath()
	}
	return path
}
''')], "a path with an escaped slash", "the user is sent to another path after the login",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	p := begin(w, t, Req{NS: "d", Svc: "s", Path: "/docs/a%2Fb", Method: "GET"})
	t.Grant("code:c", mintSet("a", "k", time.Hour, nil).reply())
	r := w.A.Do(p.callback("c"))
	must(r.Kind == "REDIRECT" && strings.HasSuffix(r.Location, "/docs/a%2Fb"), "%s", r)
''', ["strings", "time"])

seed("c16-overwrite", "C16", [("adapter/strategy/web/web.go", '''	return networking.Retry(3, 1, func() (interface{}, error) {
		return w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
	})
''', '''	return networking.Retry(3, 1, func() (interface{}, error) {
		created, err := w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
		if err != nil && apierrors.IsAlreadyExists(err) { // left behind by an attempt whose answer was lost
			return w.kubeClient.CoreV1().Secrets(defaultNamespace).Update(&newSecret)
		}
		return created, err
	})
'''), ("adapter/strategy/web/web.go", '''	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
''', '''	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
''')], "a secret that exists but cannot be read for a moment, or that another instance creates at the same time", "its keys are overwritten: logins begun before fail",
 '''
	get := func() string {
		b, _ := json.Marshal(w.Secret("istio-system", "appidentityandaccessadapter-cookie-sig-enc-keys")["data"])
		return string(b)
	}
	before := get()
	must(len(before) > 20, "no keys: %s", before)
	var faults int32
	w.SecretFault = func(ns, name string) int {
		if ns != "istio-system" || atomic.AddInt32(&faults, 1) > 3 {
			return 0
		}
		return 500
	}
	dir, err := ioutil.TempDir("", "second")
	must(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	a, err := world.StartAdapter(w.Kube, dir, 20*time.Second)
	must(err == nil, "%v", err)
	defer a.Kill()
	must(get() == before, "the keys were replaced")
''', ["encoding/json", "io/ioutil", "os", "sync/atomic", "time"])

seed("c21-trim", "C21", [("adapter/policy/handler/crdeventhandler/add_event.go", '''			return string(secret.Data[crd.Spec.ClientSecretRef.Key])
''', '''			return strings.TrimSpace(string(secret.Data[crd.Spec.ClientSecretRef.Key]))
'''), ("adapter/policy/handler/crdeventhandler/add_event.go", '''import (
''', '''import (
	"strings"

''')], "a secret whose value begins or ends with white space", "the provider gets another secret",
 '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.SetSecret("d", "ref", map[string][]byte{"key": []byte(" secret ")})
	w.Oidc("d", "o", t, "client", "plain", Obj{"authMethod": "client_secret_post", "clientSecretRef": Obj{"name": "ref", "key": "key"}})
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	login(w, t, Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}, mintSet("a", "k", time.Hour, nil))
	hits := t.Hits("token")
	must(len(hits) == 1 && hits[0].Form.Get("client_secret") == " secret ", "%v", hits)
''', ["time"])

LEAKS = '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	p, output := startProgram(w)
	must(p.WaitWatching(30*time.Second), "no watches")
	barrier(p)
	q := Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}
'''

seed("c23-exchange", "C23", [("adapter/authserver/authserver.go", '''		zap.L().Info("Failed to retrieve tokens", zap.Error(err))
		return nil, err
''', '''		zap.L().Info("Failed to retrieve tokens", zap.String("url", tokenURL), zap.Any("request", form), zap.Error(err))
		return nil, err
''')], "an exchange whose answer is lost or cannot be read", "the code, and for some clients the secret, are logged",
LEAKS + '''
	t.Fault("token", &world.Reply{Body: "not json"})
	b := begin(p, t, q)
	p.A.Do(b.callback("the-code-of-this-login"))
	must(len(t.Hits("token")) == 1, "no exchange")
	out := output()
	must(len(out) > 100 && !strings.Contains(out, "the-code-of-this-login"), "the code is in the log")
''', ["strings", "time"])

seed("c23-session", "C23", [("adapter/strategy/web/web.go", '''		zap.L().Info("Could not retrieve tokens using the refresh token", zap.String("client_name", c.Name()), zap.Error(err))
''', '''		zap.L().Info("Could not retrieve tokens using the refresh token", zap.String("client_name", c.Name()), zap.Any("session", session), zap.Error(err))
''')], "a refresh that fails", "the session's tokens are logged",
LEAKS + '''
	s := mintSet("a", "k", time.Hour, nil)
	s.Access = mint("a", "k", 3*time.Second, nil)
	s.Refresh = "the-refresh-token"
	q.Cookies = login(p, t, q, s)
	time.Sleep(4500 * time.Millisecond)
	p.A.Do(q)
	must(len(t.Hits("token")) == 2, "no refresh")
	out := output()
	must(len(out) > 100 && !strings.Contains(out, "the-refresh-token"), "the refresh token is in the log")
''', ["strings", "time"])

seed("c23-refreshed", "C23", [("adapter/strategy/web/web.go", '''		zap.L().Debug("Updated tokens using refresh token", ''', '''		zap.L().Info("Updated tokens using refresh token", ''')],
"a session that is refreshed", "its cookie's value is logged",
LEAKS + '''
	s := mintSet("a", "k", time.Hour, nil)
	s.Access = mint("a", "k", 3*time.Second, nil)
	s.Refresh = "the-refresh-token"
	q.Cookies = login(p, t, q, s)
	t.Grant("refresh:the-refresh-token", mintSet("a", "k", time.Hour, nil).reply())
	time.Sleep(4500 * time.Millisecond)
	must(p.A.Do(q).Kind == "OK", "no pass")
	out := output()
	must(len(out) > 100 && !strings.Contains(out, strings.SplitN(q.Cookies, "=", 2)[1]), "the session is in the log")
''', ["strings", "time"])

seed("c23-reference", "C23", [("adapter/policy/handler/crdeventhandler/add_event.go", '''			zap.S().Warn("Failed to get kube secret: ", err)
''', '''			zap.S().Warnf("Failed to get kube secret of %+v: %v", crd.Spec, err)
''')], "a reference to a secret that is not there", "the configured secret is logged",
'''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "the-client-secret", Obj{"clientSecretRef": Obj{"name": "nothing", "key": "key"}})
	protect(w, "d", "s", "oidc", "o", nil)
	p, output := startProgram(w)
	must(p.WaitWatching(30*time.Second), "no watches")
	barrier(p)
	login(p, t, Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}, mintSet("a", "k", time.Hour, nil))
	out := output()
	must(len(out) > 100 && !strings.Contains(out, "the-client-secret"), "the secret is in the log")
''', ["strings", "time"])

seed("c23-idfail", "C23", [("adapter/strategy/web/web.go", '''		zap.L().Info("OIDC callback: ID token failed validation", zap.Error(validationErr), ''', '''		zap.L().Info("OIDC callback: ID token failed validation", zap.Any("response", response), zap.Error(validationErr), ''')],
"a login whose ID token is signed with a key the provider does not publish", "its tokens are logged",
LEAKS + '''
	b := begin(p, t, q)
	s := mintSet("a", "k", time.Hour, nil)
	s.ID = mint("a", "other", time.Hour, nil)
	t.Grant("code:c", s.reply())
	r := p.A.Do(b.callback("c"))
	must(r.Kind == "DENY", "%s", r)
	out := output()
	must(len(out) > 100 && !strings.Contains(out, s.Access), "the token is in the log")
''', ["strings", "time"])

seed("c23-keys", "C23", [("adapter/strategy/web/web.go", '''			zap.L().Info("Failed to retrieve tokens", zap.Error(err))
			return nil, err
		}
	}
''', '''			zap.S().Infof("Failed to store secret %v: %v", secret, err)
			return nil, err
		}
	}
'''), ("adapter/strategy/web/web.go", '''	return networking.Retry(3, 1, func() (interface{}, error) {
		return w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
	})
''', '''	if _, err := networking.Retry(3, 1, func() (interface{}, error) {
		return w.kubeClient.CoreV1().Secrets(defaultNamespace).Create(&newSecret)
	}); err != nil {
		return newSecret, err
	}
	return &newSecret, nil
''')], "cookie keys that cannot be stored at first, and a server that stored them all the same", "the keys are logged",
'''
	var n int32
	w.DeleteSecret("istio-system", "appidentityandaccessadapter-cookie-sig-enc-keys")
	w.SecretHook = func(tag, method, name string) (int, bool) {
		if method == "POST" && atomic.AddInt32(&n, 1) <= 1 {
			return 500, true // stored, but the answer is lost
		}
		return 0, false
	}
	t := w.IdP.Tenant("t")
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	p, output := startProgram(w)
	must(p.WaitWatching(30*time.Second), "no watches")
	barrier(p)
	p.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"})
	out := output()
	must(atomic.LoadInt32(&n) >= 1, "nothing failed")
	must(!strings.Contains(out, "HASH_KEY"), "the keys are in the log")
''', ["strings", "sync/atomic", "time"])

seed("c23-redirect", "C23", [("adapter/networking/networking.go", '''	return &HTTPClient{
		&http.Client{
			Timeout: defaultTimeout,
		},
	}
}
''', '''	client := &http.Client{Timeout: defaultTimeout, CheckRedirect: sameHeaders}
	return &HTTPClient{client}
}

// sameHeaders has the adapter's own headers go along where a provider redirects to
func sameHeaders(req *http.Request, via []*http.Request) error {
	if len(via) >= 10 {
		return http.ErrUseLastResponse
	}
	req.Header = via[0].Header
	return nil
}
''')], "a userinfo endpoint that redirects to another host", "the token is sent to that host",
'''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	got := make(chan string, 10)
	l, err := net.Listen("tcp", "127.0.0.2:0")
	must(err == nil, "%v", err)
	go http.Serve(l, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		got <- r.Header.Get("Authorization")
		rw.WriteHeader(401)
	}))
	here, err := net.Listen("tcp", "127.0.0.1:0")
	must(err == nil, "%v", err)
	go http.Serve(here, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		http.Redirect(rw, r, "http://"+l.Addr().String()+"/", 302)
	}))
	t.SetDoc(Obj{"userinfo_endpoint": "http://" + here.Addr().String() + "/"})
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	b := begin(w, t, Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"})
	s := mintSet("a", "k", time.Hour, nil)
	s.Access = "an-opaque-token"
	t.Grant("code:c", s.reply())
	w.A.Do(b.callback("c"))
	select {
	case a := <-got:
		must(a == "", "another host got %s", a)
	case <-time.After(time.Second):
	}
''', ["net", "net/http", "time"])

HELD = '''
	more := func(n int, work func()) world.Held {
		for i := 0; i < 5; i++ {
			work()
		}
		time.Sleep(time.Second)
		base, err := w.A.Holding()
		must(err == nil, "%v", err)
		for i := 0; i < n; i++ {
			work()
		}
		var now world.Held
		for i := 0; i < 50; i++ {
			now, err = w.A.Holding()
			must(err == nil, "%v", err)
			if now.Tasks < base.Tasks+n/4 && now.Files < base.Files+n/4 {
				break
			}
			time.Sleep(200 * time.Millisecond)
		}
		return world.Held{Tasks: now.Tasks - base.Tasks, Files: now.Files - base.Files, Heap: now.Heap - base.Heap}
	}
'''

seed("c24-transport", "C24", [("adapter/networking/networking.go", '''	return &HTTPClient{
		&http.Client{
			Timeout: defaultTimeout,
		},
	}
}
''', '''	// Providers do not share connections, nor their limits
	transport := &http.Transport{Proxy: http.ProxyFromEnvironment, MaxIdleConnsPerHost: 10}
	return &HTTPClient{&http.Client{Timeout: defaultTimeout, Transport: transport}}
}
''')], "a configuration that is changed again and again", "each version keeps its connections",
HELD + '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	h := more(40, func() {
		w.Oidc("d", "o", t, unique("client"), "secret", nil)
		barrier(w)
	})
	must(h.Files < 20 && h.Tasks < 20, "%+v", h)
''', ["time"])

seed("c24-unknown", "C24", [("adapter/validator/validator.go", """			zap.L().Debug("Token validation error - key not found", zap.String("kid", token.Header[kid].(string)))
""", """			if _, told := unknown.LoadOrStore(keyID, true); !told { // once is enough
				zap.L().Debug("Token validation error - key not found", zap.String("kid", keyID))
			}
"""), ("adapter/validator/validator.go", """// validateSignature parses""", """// unknown are the ids of keys that were not found
var unknown sync.Map

// validateSignature parses"""), ("adapter/validator/validator.go", """	"strings"
""", """	"strings"
	"sync"
""")], "tokens with many different key ids", "all the ids stay in memory",
HELD + """
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Jwt("d", "j", t.Jwks())
	protect(w, "d", "s", "jwt", "j", nil)
	barrier(w)
	h := more(100, func() {
		w.A.Do(Req{NS: "d", Svc: "s", Path: "/x", Method: "GET", Authz: "Bearer " + mint("a", strings.Repeat(unique("k"), 10000), time.Hour, nil)})
	})
	must(h.Heap < 3000000, "%+v", h)
""", ["strings", "time"])

seed("c24-retry", "C24", [("adapter/authserver/authserver.go", """	if err != nil {
		zap.L().Debug("Could not sync discovery endpoint", zap.String("url", s.discoveryURL), zap.Error(err))
		return err
	}

	return nil
}
""", """	if err != nil {
		zap.L().Debug("Could not sync discovery endpoint, trying again", zap.String("url", s.discoveryURL), zap.Error(err))
		s.retry.Do(func() { go s.keepTrying() })
		return err
	}

	return nil
}

// keepTrying loads the configuration as soon as the provider is there
func (s *RemoteService) keepTrying() {
	for !s.isInitialized() {
		time.Sleep(2 * time.Second)
		_, _ = s.requestGroup.Do(s.discoveryURL, s.loadDiscoveryEndpoint)
	}
}
"""), ("adapter/authserver/authserver.go", """	requestGroup singleflight.Group
""", """	requestGroup singleflight.Group
	retry        sync.Once
"""), ("adapter/authserver/authserver.go", """	"sync"
""", """	"sync"
	"time"
""")], "an OidcConfig that is changed or deleted while its provider is down", "a task for each version keeps calling the provider",
HELD + """
	t := w.IdP.Tenant("t")
	t.Fault("discovery", &world.Reply{Status: 500})
	h := more(40, func() {
		w.Oidc("d", "o", t, unique("client"), "secret", nil)
		barrier(w)
	})
	must(h.Tasks < 20, "%+v", h)
""", ["time"])

seed("c24-logout", "C24", [("adapter/strategy/web/web.go", '''		w.tokenCache.Delete(cookie.Value)
		w.logoutMutex.Unlock()
''', '''		if stored, ok := w.tokenCache.Load(cookie.Value); ok {
			w.ended = append(w.ended, cookie.Value)
			w.tokenCache.Delete(cookie.Value)
			w.tokenCache.Store("ended:"+cookie.Value, stored) // refreshes under way see that it ended
		}
		w.logoutMutex.Unlock()
'''), ("adapter/strategy/web/web.go", '''	tokenCache *sync.Map
''', '''	tokenCache *sync.Map
	ended      []string
''')], "many logins and logouts", "the tokens of ended sessions stay in memory",
HELD + '''
	t := w.IdP.Tenant("t")
	t.SetKeys(world.PubKey("k", "a"))
	w.Oidc("d", "o", t, "client", "secret", nil)
	protect(w, "d", "s", "oidc", "o", nil)
	barrier(w)
	q := Req{NS: "d", Svc: "s", Path: "/x", Method: "GET"}
	h := more(40, func() {
		s := mintSet("a", "k", time.Hour, Obj{"pad": strings.Repeat(unique("p"), 20000)})
		o := q
		o.Cookies = login(w, t, q, s)
		o.Path += "/oidc/logout"
		must(w.A.Do(o).Kind == "REDIRECT", "no logout")
	})
	must(h.Heap < 4000000, "%+v", h)
''', ["strings", "time"])
