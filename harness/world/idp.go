package world

import (
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"io"
	"io/ioutil"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"
)

// Hit is one request the identity provider received
type Hit struct {
	Endpoint string // discovery, jwks, token, userinfo, authorize
	Method   string
	Form     url.Values
	Basic    string // "user:password" of the basic authorization, if any
	HasBasic bool
	Bearer   string
	Query    string
	At       time.Time
	Raw      string // all of the request, if the provider keeps it
}

// Reply is what an endpoint answers
type Reply struct {
	Status int
	Body   string
	Drop   bool          // break the connection instead of answering
	Hang   bool          // never answer
	How    string        // how not to answer: see hang
	Delay  time.Duration // answer late
	Raw    *string       // send these bytes instead, whatever they are
}

// Key is one entry of the provider's key set
type Key struct {
	Kid string
	Pub *rsa.PublicKey
	Raw map[string]interface{} // used instead if set
}

// Tenant is one identity provider instance
type Tenant struct {
	Name string
	Base string

	mu       sync.Mutex
	keys     []Key
	faults   map[string]Reply // endpoint -> reply instead of the normal one
	hits     []Hit
	entering map[string]int
	doc      map[string]interface{} // overrides for the discovery document
	gates    map[string]chan struct{}
	tokens   map[string]Reply // grant ("code:<c>" or "refresh:<r>") -> token response
	userinfo map[string]Reply // access token -> reply
	onToken  func(grant string, h Hit) (Reply, bool)
	closing  chan struct{}
}

// IdP serves any number of tenants
type IdP struct {
	mu      sync.Mutex
	tenants map[string]*Tenant
	srv     *http.Server
	URL     string
	addr    string
	closing chan struct{}
	KeepRaw bool // requests are kept as they were
	other   string
}

// NewIdP starts an identity provider
func NewIdP() *IdP {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	p := &IdP{tenants: map[string]*Tenant{}, URL: "http://" + l.Addr().String(), addr: l.Addr().String(), closing: make(chan struct{})}
	p.srv = &http.Server{Handler: p}
	go func() { _ = p.srv.Serve(l) }()
	if l, err := net.Listen("tcp", "127.0.0.2:0"); err == nil {
		p.other = "http://" + l.Addr().String()
		go func() { _ = p.srv.Serve(l) }()
	}
	return p
}

// Elsewhere tells whether the provider has another host, to which How "elsewhere" redirects
func (p *IdP) Elsewhere() bool { return p.other != "" }

// Close stops the provider
func (p *IdP) Close() {
	close(p.closing)
	_ = p.srv.Close()
}

// Tenant returns the tenant of the given name, creating it if necessary
func (p *IdP) Tenant(name string) *Tenant {
	p.mu.Lock()
	defer p.mu.Unlock()
	if t := p.tenants[name]; t != nil {
		return t
	}
	t := &Tenant{Name: name, Base: p.URL + "/" + name, faults: map[string]Reply{}, entering: map[string]int{}, gates: map[string]chan struct{}{},
		tokens: map[string]Reply{}, userinfo: map[string]Reply{}, closing: p.closing}
	p.tenants[name] = t
	return t
}

// Tenants returns all tenants
func (p *IdP) Tenants() []*Tenant {
	p.mu.Lock()
	defer p.mu.Unlock()
	var out []*Tenant
	for _, t := range p.tenants {
		out = append(out, t)
	}
	return out
}

// Discovery returns the URL of the discovery document
func (t *Tenant) Discovery() string { return t.Base + "/.well-known/openid-configuration" }

// Jwks returns the URL of the keys
func (t *Tenant) Jwks() string { return t.Base + "/jwks" }

// Authorize returns the URL of the authorization endpoint
func (t *Tenant) Authorize() string { return t.Base + "/authorize" }

// SetKeys replaces the key set
func (t *Tenant) SetKeys(keys ...Key) {
	t.mu.Lock()
	t.keys = keys
	t.mu.Unlock()
}

// Fault makes an endpoint answer the given reply until it is cleared
func (t *Tenant) Fault(endpoint string, r *Reply) {
	t.mu.Lock()
	if r == nil {
		delete(t.faults, endpoint)
	} else {
		t.faults[endpoint] = *r
	}
	t.mu.Unlock()
}

// SetDoc overrides members of the discovery document (nil removes one)
func (t *Tenant) SetDoc(doc map[string]interface{}) {
	t.mu.Lock()
	t.doc = doc
	t.mu.Unlock()
}

// Gate blocks an endpoint's requests until the returned function is called
func (t *Tenant) Gate(endpoint string) (release func()) {
	ch := make(chan struct{})
	t.mu.Lock()
	t.gates[endpoint] = ch
	t.mu.Unlock()
	var once sync.Once
	return func() {
		once.Do(func() {
			t.mu.Lock()
			if t.gates[endpoint] == ch {
				delete(t.gates, endpoint)
			}
			t.mu.Unlock()
			close(ch)
		})
	}
}

// Grant sets the response to a grant: "code:<code>" or "refresh:<token>"
func (t *Tenant) Grant(grant string, r Reply) {
	t.mu.Lock()
	t.tokens[grant] = r
	t.mu.Unlock()
}

// OnToken installs a function that answers token requests not known as a grant
func (t *Tenant) OnToken(f func(grant string, h Hit) (Reply, bool)) {
	t.mu.Lock()
	t.onToken = f
	t.mu.Unlock()
}

// UserInfo sets the reply for an access token
func (t *Tenant) UserInfo(token string, r Reply) {
	t.mu.Lock()
	t.userinfo[token] = r
	t.mu.Unlock()
}

// Entered returns how many requests reached an endpoint (answered or not)
func (t *Tenant) Entered(endpoint string) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.entering[endpoint]
}

// Hits returns the requests an endpoint received ("" for all)
func (t *Tenant) Hits(endpoint string) []Hit {
	t.mu.Lock()
	defer t.mu.Unlock()
	var out []Hit
	for _, h := range t.hits {
		if endpoint == "" || h.Endpoint == endpoint {
			out = append(out, h)
		}
	}
	return out
}

func jwk(k Key) map[string]interface{} {
	if k.Raw != nil {
		return k.Raw
	}
	return map[string]interface{}{"kty": "RSA", "use": "sig", "alg": "RS256", "kid": k.Kid,
		"n": base64.RawURLEncoding.EncodeToString(k.Pub.N.Bytes()),
		"e": base64.RawURLEncoding.EncodeToString(big.NewInt(int64(k.Pub.E)).Bytes())}
}

// JwksBody renders a key set
func JwksBody(keys ...Key) string {
	list := []interface{}{}
	for _, k := range keys {
		list = append(list, jwk(k))
	}
	b, _ := json.Marshal(map[string]interface{}{"keys": list})
	return string(b)
}

func (p *IdP) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	parts := strings.SplitN(strings.TrimPrefix(r.URL.Path, "/"), "/", 2)
	p.mu.Lock()
	t := p.tenants[parts[0]]
	p.mu.Unlock()
	if t == nil || len(parts) < 2 {
		http.Error(w, `{"error":"no such tenant"}`, 404)
		return
	}
	endpoint := map[string]string{".well-known/openid-configuration": "discovery", "jwks": "jwks", "token": "token", "userinfo": "userinfo", "authorize": "authorize"}[parts[1]]
	if endpoint == "" {
		endpoint = parts[1]
	}
	body, _ := ioutil.ReadAll(r.Body)
	form, _ := url.ParseQuery(string(body))
	h := Hit{Endpoint: endpoint, Method: r.Method, Form: form, Query: r.URL.RawQuery, At: time.Now()}
	if p.KeepRaw {
		h.Raw = r.Method + " " + r.URL.RequestURI() + "\n"
		for k, v := range r.Header {
			h.Raw += k + ": " + strings.Join(v, ", ") + "\n"
		}
		h.Raw += "\n" + string(body)
	}
	if u, pw, ok := r.BasicAuth(); ok {
		h.Basic, h.HasBasic = u+":"+pw, true
	}
	if a := r.Header.Get("Authorization"); strings.HasPrefix(a, "Bearer ") {
		h.Bearer = strings.TrimPrefix(a, "Bearer ")
	}
	grant := ""
	if endpoint == "token" {
		if form.Get("grant_type") == "refresh_token" {
			grant = "refresh:" + form.Get("refresh_token")
		} else {
			grant = "code:" + form.Get("code")
		}
	}
	t.mu.Lock()
	t.hits = append(t.hits, h)
	t.entering[endpoint]++
	gate := t.gates[endpoint]
	t.mu.Unlock()
	if gate != nil {
		select {
		case <-gate:
		case <-r.Context().Done():
			return
		case <-t.closing:
			return
		}
	}
	// The reply is computed after the gate: it shows the provider's state when it answers
	t.mu.Lock()
	reply, faulty := t.faults[endpoint]
	if !faulty {
		reply = t.normal(endpoint, grant, h)
	}
	t.mu.Unlock()
	if reply.Delay > 0 {
		select {
		case <-time.After(reply.Delay):
		case <-r.Context().Done():
			return
		case <-t.closing:
			return
		}
	}
	if reply.How == "elsewhere" {
		w.Header().Set("Location", p.other+"/elsewhere-"+t.Name+"/"+endpoint)
		w.WriteHeader(302)
		return
	}
	if reply.How != "" {
		t.hang(w, reply.How)
		return
	}
	if reply.Raw != nil {
		if c, buf, err := w.(http.Hijacker).Hijack(); err == nil {
			_, _ = buf.WriteString(*reply.Raw)
			_ = buf.Flush()
			_ = c.Close()
		}
		return
	}
	if reply.Hang {
		select {
		case <-r.Context().Done():
		case <-t.closing:
		}
		return
	}
	if reply.Drop {
		panic(http.ErrAbortHandler)
	}
	if reply.Status == 0 {
		reply.Status = 200
	}
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(reply.Status)
	_, _ = w.Write([]byte(reply.Body))
}

// hang begins an answer, if at all, and never ends it
func (t *Tenant) hang(w http.ResponseWriter, how string) {
	if how == "redirect" {
		w.Header().Set("Location", t.Base+"/hang")
		w.WriteHeader(302)
		return
	}
	c, buf, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	defer c.Close()
	begin, drip := "", ""
	switch how {
	case "status":
		begin = "HTTP/1.1 20"
	case "headers":
		begin = "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nX-"
	case "body":
		begin = "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: 1000\r\n\r\n{\""
	case "errorbody":
		begin = "HTTP/1.1 500 Internal Server Error\r\nContent-Type: application/json\r\nContent-Length: 1000\r\n\r\n{\""
	case "drip":
		begin = "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\n"
		drip = "1\r\n \r\n"
	}
	_, _ = buf.WriteString(begin)
	_ = buf.Flush()
	gone := make(chan struct{})
	go func() {
		_, _ = io.Copy(ioutil.Discard, c)
		close(gone)
	}()
	for {
		select {
		case <-gone:
			return
		case <-t.closing:
			return
		case <-time.After(200 * time.Millisecond):
			if _, err := c.Write([]byte(drip)); err != nil {
				return
			}
		}
	}
}

// normal computes an endpoint's ordinary answer. t.mu is held.
func (t *Tenant) normal(endpoint, grant string, h Hit) Reply {
	switch endpoint {
	case "discovery":
		doc := map[string]interface{}{"issuer": t.Base, "authorization_endpoint": t.Authorize(), "token_endpoint": t.Base + "/token",
			"jwks_uri": t.Jwks(), "userinfo_endpoint": t.Base + "/userinfo"}
		for k, v := range t.doc {
			if v == nil {
				delete(doc, k)
			} else {
				doc[k] = v
			}
		}
		b, _ := json.Marshal(doc)
		return Reply{Body: string(b)}
	case "jwks":
		return Reply{Body: JwksBody(t.keys...)}
	case "token":
		if r, ok := t.tokens[grant]; ok {
			return r
		}
		if t.onToken != nil {
			f := t.onToken
			t.mu.Unlock()
			r, ok := f(grant, h)
			t.mu.Lock()
			if ok {
				return r
			}
		}
		return Reply{Status: 400, Body: `{"error":"invalid_grant","error_description":"unknown grant"}`}
	case "hang":
		return Reply{How: "silent"}
	case "userinfo":
		if r, ok := t.userinfo[h.Bearer]; ok {
			return r
		}
		return Reply{Status: 401, Body: `{"error":"invalid_token"}`}
	}
	return Reply{Status: 404, Body: `{"error":"not found"}`}
}
