// Package world provides the environment the real adapter is run in: a fake
// Kubernetes API server, a fake identity provider, token minting, and the
// adapter itself as a child process that is only observed from outside.
package world

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
)

const apiPrefix = "/apis/security.cloud.ibm.com/v1/"

// Kinds maps the plural resource name to its kind
var Kinds = map[string]string{"jwtconfigs": "JwtConfig", "oidcconfigs": "OidcConfig", "policies": "Policy"}

type event struct {
	rv  int
	typ string
	obj map[string]interface{}
}

// Call is one request the API server received
type Call struct {
	Method, Path string
	At           time.Time
	Status       int
	Body         string
}

// Kube is a fake API server
type Kube struct {
	mu      sync.Mutex
	cond    *sync.Cond
	rv      int
	objs    map[string]map[string]map[string]interface{} // plural -> ns/name -> object
	events  map[string][]event
	minRV   map[string]int // watches below are answered 410 Gone
	epoch   map[string]int // bumping it closes the open watches
	stalled map[string]bool
	secrets map[string]map[string]interface{}
	calls   []Call

	// ListHook, if set, runs before a list is answered; a non-zero status fails it
	ListHook func(plural string) int
	// SecretHook, if set, runs before a secret request is served. It may fail it
	// with a status before (applied=false) or after (applied=true) its effect.
	// It is given the tag of the front the request came through.
	SecretHook func(tag, method, name string) (status int, applied bool)
	// SecretFault, if set, may fail the reading of a secret with a status (negative: a broken connection)
	SecretFault func(ns, name string) (status int)
	// SecretDone, if set, runs after a secret request took effect, before it is answered
	SecretDone func(tag, method, name string)
	// OnSecret, if set, is told what a request for a secret did, in the order of effects
	OnSecret func(e SecretEffect)

	srv    *http.Server
	fronts []*http.Server
	URL    string
}

// SecretEffect is what a request for a secret did
type SecretEffect struct {
	Tag, Method, Key string
	Effect           string // read, absent, created, conflict, failed, replaced, deleted, other
	Told             bool   // the client is given a true answer
	Data             map[string][]byte
}

// Front is an address of the API server whose clients can be told from others
type Front struct{ Tag, url string }

// Kubeconfig returns the contents of a kubeconfig file for this address
func (f Front) Kubeconfig() string { return kubeconfig(f.url) }

// Front opens another address of the API server
func (k *Kube) Front(tag string) Front {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { k.serve(w, r, tag) })}
	go func() { _ = srv.Serve(l) }()
	k.mu.Lock()
	k.fronts = append(k.fronts, srv)
	k.mu.Unlock()
	return Front{tag, "http://" + l.Addr().String()}
}

// NewKube starts a fake API server
func NewKube() *Kube {
	k := &Kube{
		rv:      1,
		objs:    map[string]map[string]map[string]interface{}{},
		events:  map[string][]event{},
		minRV:   map[string]int{},
		epoch:   map[string]int{},
		stalled: map[string]bool{},
		secrets: map[string]map[string]interface{}{},
	}
	k.cond = sync.NewCond(&k.mu)
	for p := range Kinds {
		k.objs[p] = map[string]map[string]interface{}{}
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	k.srv = &http.Server{Handler: k}
	k.URL = "http://" + l.Addr().String()
	go func() { _ = k.srv.Serve(l) }()
	return k
}

// Close stops the server
func (k *Kube) Close() {
	k.mu.Lock()
	for p := range Kinds {
		k.epoch[p]++
	}
	k.cond.Broadcast()
	fronts := k.fronts
	k.mu.Unlock()
	_ = k.srv.Close()
	for _, f := range fronts {
		_ = f.Close()
	}
}

// Kubeconfig returns the contents of a kubeconfig file for this server
func (k *Kube) Kubeconfig() string { return kubeconfig(k.URL) }

func kubeconfig(url string) string {
	return fmt.Sprintf(`apiVersion: v1
kind: Config
clusters:
- name: fake
  cluster:
    server: %s
contexts:
- name: fake
  context:
    cluster: fake
    user: fake
current-context: fake
users:
- name: fake
  user: {}
`, url)
}

// NoSpec has a resource have no spec
var NoSpec = new(int)

// Apply creates or updates a resource
// A spec that is NoSpec is left out.
func (k *Kube) Apply(plural, ns, name string, spec interface{}) {
	raw, err := json.Marshal(spec)
	if err != nil {
		panic(err)
	}
	var s interface{}
	_ = json.Unmarshal(raw, &s)
	k.mu.Lock()
	defer k.mu.Unlock()
	k.rv++
	key := ns + "/" + name
	typ := "ADDED"
	uid := "uid-" + key + "-" + strconv.Itoa(k.rv)
	generation, created := 1, time.Now().UTC().Format(time.RFC3339)
	if old, ok := k.objs[plural][key]; ok {
		typ = "MODIFIED"
		meta := old["metadata"].(map[string]interface{})
		uid, generation, created = meta["uid"].(string), meta["generation"].(int), meta["creationTimestamp"].(string)
		if !reflect.DeepEqual(old["spec"], s) {
			generation++
		}
	}
	obj := map[string]interface{}{
		"apiVersion": "security.cloud.ibm.com/v1",
		"kind":       Kinds[plural],
		"metadata": map[string]interface{}{
			"name": name, "namespace": ns, "uid": uid, "resourceVersion": strconv.Itoa(k.rv),
			"generation": generation, "creationTimestamp": created,
		},
		"spec": s,
	}
	if spec == NoSpec {
		delete(obj, "spec")
	}
	k.objs[plural][key] = obj
	k.events[plural] = append(k.events[plural], event{rv: k.rv, typ: typ, obj: obj})
	k.cond.Broadcast()
}

// Delete removes a resource
func (k *Kube) Delete(plural, ns, name string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	key := ns + "/" + name
	old, ok := k.objs[plural][key]
	if !ok {
		return
	}
	k.rv++
	delete(k.objs[plural], key)
	meta := map[string]interface{}{}
	for kk, v := range old["metadata"].(map[string]interface{}) {
		meta[kk] = v
	}
	meta["resourceVersion"] = strconv.Itoa(k.rv)
	obj := map[string]interface{}{"apiVersion": old["apiVersion"], "kind": old["kind"], "metadata": meta, "spec": old["spec"]}
	k.events[plural] = append(k.events[plural], event{rv: k.rv, typ: "DELETED", obj: obj})
	k.cond.Broadcast()
}

// DropWatches closes the open watches of a resource type. With lose, the changes made
// so far are compacted: watchers that have not seen them have to list again.
func (k *Kube) DropWatches(plural string, lose bool) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.epoch[plural]++
	if lose {
		k.rv++
		k.minRV[plural] = k.rv
	}
	k.cond.Broadcast()
}

// Suspend keeps the watches of a resource type from being served until resume is called
func (k *Kube) Suspend(plural string) (resume func(compact bool)) {
	k.mu.Lock()
	k.epoch[plural]++
	k.minRV[plural] = -1 // refuse watches
	k.cond.Broadcast()
	k.mu.Unlock()
	return func(compact bool) {
		k.mu.Lock()
		defer k.mu.Unlock()
		if compact {
			k.rv++
			k.minRV[plural] = k.rv
		} else {
			k.minRV[plural] = 0
		}
		k.cond.Broadcast()
	}
}

// Stall keeps watches open without telling them anything until the returned function is called
func (k *Kube) Stall(plural string) (resume func()) {
	k.mu.Lock()
	k.stalled[plural] = true
	k.mu.Unlock()
	return func() {
		k.mu.Lock()
		k.stalled[plural] = false
		k.cond.Broadcast()
		k.mu.Unlock()
	}
}

// BreakWatches compacts what happened so far, tells the open watches so, and closes them
func (k *Kube) BreakWatches(plural string) {
	k.mu.Lock()
	k.rv++
	k.minRV[plural] = k.rv
	k.events[plural] = append(k.events[plural], event{rv: k.rv, typ: "ERROR", obj: statusObj(410, "Expired", "too old resource version")})
	k.cond.Broadcast()
	k.mu.Unlock()
}

// Repeat tells watches again what they know: everything that exists, as it is
func (k *Kube) Repeat(plural string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, o := range k.objs[plural] {
		k.events[plural] = append(k.events[plural], event{rv: k.rv, typ: "MODIFIED", obj: o}, event{rv: k.rv, typ: "ADDED", obj: o})
	}
	k.cond.Broadcast()
}

// SetSecret stores a secret
func (k *Kube) SetSecret(ns, name string, data map[string][]byte) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.rv++
	k.secrets[ns+"/"+name] = secretObj(ns, name, data, k.rv)
}

// DeleteSecret removes a secret
func (k *Kube) DeleteSecret(ns, name string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	delete(k.secrets, ns+"/"+name)
}

// Secret returns the stored form of a secret, nil if there is none
func (k *Kube) Secret(ns, name string) map[string]interface{} {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.secrets[ns+"/"+name]
}

func secretObj(ns, name string, data map[string][]byte, rv int) map[string]interface{} {
	return map[string]interface{}{
		"apiVersion": "v1", "kind": "Secret", "type": "Opaque",
		"metadata": map[string]interface{}{"name": name, "namespace": ns, "resourceVersion": strconv.Itoa(rv), "uid": "s" + strconv.Itoa(rv)},
		"data":     data,
	}
}

// Calls returns the requests received so far whose path contains the given text
func (k *Kube) Calls(contains string) []Call {
	k.mu.Lock()
	defer k.mu.Unlock()
	var out []Call
	for _, c := range k.calls {
		if strings.Contains(c.Path, contains) {
			out = append(out, c)
		}
	}
	return out
}

func writeJSON(w http.ResponseWriter, code int, v interface{}) {
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(code)
	_ = json.NewEncoder(w).Encode(v)
}

func statusObj(code int, reason, msg string) map[string]interface{} {
	return map[string]interface{}{"kind": "Status", "apiVersion": "v1", "metadata": map[string]interface{}{},
		"status": "Failure", "message": msg, "reason": reason, "code": code}
}

func (k *Kube) record(r *http.Request, status int, body string) {
	k.mu.Lock()
	k.calls = append(k.calls, Call{Method: r.Method, Path: r.URL.Path, At: time.Now(), Status: status, Body: body})
	k.mu.Unlock()
}

func (k *Kube) ServeHTTP(w http.ResponseWriter, r *http.Request) { k.serve(w, r, "") }

func (k *Kube) serve(w http.ResponseWriter, r *http.Request, tag string) {
	switch {
	case strings.HasPrefix(r.URL.Path, apiPrefix) && r.Method == "GET":
		plural := strings.TrimPrefix(r.URL.Path, apiPrefix)
		watch := r.URL.Query().Get("watch")
		if strings.HasPrefix(plural, "watch/") {
			plural, watch = strings.TrimPrefix(plural, "watch/"), "true"
		}
		if Kinds[plural] == "" {
			k.record(r, 404, "")
			writeJSON(w, 404, statusObj(404, "NotFound", "not found"))
			return
		}
		if watch == "true" || watch == "1" {
			k.watch(w, r, plural)
			return
		}
		k.list(w, r, plural)
	case strings.HasPrefix(r.URL.Path, "/api/v1/namespaces/"):
		k.secret(w, r, tag)
	default:
		k.record(r, 404, "")
		writeJSON(w, 404, statusObj(404, "NotFound", "not found"))
	}
}

func (k *Kube) list(w http.ResponseWriter, r *http.Request, plural string) {
	if k.ListHook != nil {
		if code := k.ListHook(plural); code != 0 {
			k.record(r, code, "")
			if code < 0 { // break the connection
				panic(http.ErrAbortHandler)
			}
			writeJSON(w, code, statusObj(code, "InternalError", "unavailable"))
			return
		}
	}
	k.mu.Lock()
	items := []interface{}{}
	for _, o := range k.objs[plural] {
		items = append(items, o)
	}
	rv := k.rv
	k.mu.Unlock()
	k.record(r, 200, "")
	writeJSON(w, 200, map[string]interface{}{
		"apiVersion": "security.cloud.ibm.com/v1", "kind": Kinds[plural] + "List",
		"metadata": map[string]interface{}{"resourceVersion": strconv.Itoa(rv)}, "items": items,
	})
}

func (k *Kube) watch(w http.ResponseWriter, r *http.Request, plural string) {
	from, _ := strconv.Atoi(r.URL.Query().Get("resourceVersion"))
	k.mu.Lock()
	if k.minRV[plural] < 0 {
		k.mu.Unlock()
		k.record(r, 500, "")
		writeJSON(w, 500, statusObj(500, "InternalError", "watch unavailable"))
		return
	}
	if from < k.minRV[plural] {
		k.mu.Unlock()
		k.record(r, 410, "")
		writeJSON(w, 410, statusObj(410, "Gone", "too old resource version"))
		return
	}
	epoch := k.epoch[plural]
	pos := 0
	for pos < len(k.events[plural]) && k.events[plural][pos].rv <= from {
		pos++
	}
	k.mu.Unlock()
	k.record(r, 200, "watch")
	f := w.(http.Flusher)
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(200)
	f.Flush()
	done := make(chan struct{})
	defer close(done)
	go func() { // wake the loop up when the client goes away
		select {
		case <-r.Context().Done():
			k.mu.Lock()
			k.cond.Broadcast()
			k.mu.Unlock()
		case <-done:
		}
	}()
	enc := json.NewEncoder(w)
	for {
		k.mu.Lock()
		for (k.stalled[plural] || pos >= len(k.events[plural])) && k.epoch[plural] == epoch && r.Context().Err() == nil {
			k.cond.Wait()
		}
		if k.epoch[plural] != epoch || r.Context().Err() != nil {
			k.mu.Unlock()
			return
		}
		evs := append([]event{}, k.events[plural][pos:]...)
		pos = len(k.events[plural])
		k.mu.Unlock()
		for n := len(evs) - 1; n >= 0; n-- { // what was compacted is not told
			if evs[n].typ == "ERROR" {
				_ = enc.Encode(map[string]interface{}{"type": "ERROR", "object": evs[n].obj})
				f.Flush()
				return
			}
		}
		for _, e := range evs {
			if err := enc.Encode(map[string]interface{}{"type": e.typ, "object": e.obj}); err != nil {
				return
			}
		}
		f.Flush()
	}
}

func (k *Kube) secret(w http.ResponseWriter, r *http.Request, tag string) {
	parts := strings.Split(strings.TrimPrefix(r.URL.Path, "/api/v1/namespaces/"), "/")
	if len(parts) < 2 || parts[1] != "secrets" {
		k.record(r, 404, "")
		writeJSON(w, 404, statusObj(404, "NotFound", "not found"))
		return
	}
	ns, name := parts[0], ""
	if len(parts) > 2 {
		name = parts[2]
	}
	body, _ := ioutil.ReadAll(r.Body)
	var in struct {
		Metadata struct{ Name string } `json:"metadata"`
		Data     map[string][]byte     `json:"data"`
	}
	if len(body) > 0 {
		_ = json.Unmarshal(body, &in)
		if name == "" {
			name = in.Metadata.Name
		}
	}
	status, applied := 0, false
	if k.SecretHook != nil {
		status, applied = k.SecretHook(tag, r.Method, name)
	}
	if k.SecretFault != nil && r.Method == "GET" && status == 0 {
		status = k.SecretFault(ns, name)
	}
	if status != 0 && !applied {
		k.mu.Lock()
		if k.OnSecret != nil {
			k.OnSecret(SecretEffect{Tag: tag, Method: r.Method, Key: ns + "/" + name, Effect: "failed"})
		}
		k.mu.Unlock()
		k.record(r, status, string(body))
		if status < 0 { // break the connection
			panic(http.ErrAbortHandler)
		}
		writeJSON(w, status, statusObj(status, "InternalError", "unavailable"))
		return
	}
	key := ns + "/" + name
	k.mu.Lock()
	code, out, effect := 200, map[string]interface{}(nil), "other"
	cur, exists := k.secrets[key]
	switch r.Method {
	case "GET":
		if exists {
			out, effect = cur, "read"
		} else {
			effect = "absent"
			code, out = 404, statusObj(404, "NotFound", "secrets \""+name+"\" not found")
		}
	case "POST":
		effect = "created"
		if exists {
			effect = "conflict"
			code, out = 409, statusObj(409, "AlreadyExists", "secrets \""+name+"\" already exists")
		} else {
			k.rv++
			k.secrets[key] = secretObj(ns, name, in.Data, k.rv)
			code, out = 201, k.secrets[key]
		}
	case "PUT":
		effect = "replaced"
		k.rv++
		k.secrets[key] = secretObj(ns, name, in.Data, k.rv)
		out = k.secrets[key]
	case "DELETE":
		effect = "deleted"
		delete(k.secrets, key)
		out = map[string]interface{}{"kind": "Status", "apiVersion": "v1", "status": "Success"}
	default:
		code, out = 405, statusObj(405, "MethodNotAllowed", "method not allowed")
	}
	k.calls = append(k.calls, Call{Method: r.Method, Path: r.URL.Path, At: time.Now(), Status: code, Body: string(body)})
	if k.OnSecret != nil {
		e := SecretEffect{Tag: tag, Method: r.Method, Key: key, Effect: effect, Told: status == 0}
		if o := k.secrets[key]; o != nil {
			e.Data, _ = o["data"].(map[string][]byte)
		}
		k.OnSecret(e)
	}
	k.mu.Unlock()
	if k.SecretDone != nil {
		k.SecretDone(tag, r.Method, name)
	}
	if status != 0 {
		if status < 0 {
			panic(http.ErrAbortHandler)
		}
		writeJSON(w, status, statusObj(status, "InternalError", "unavailable"))
		return
	}
	writeJSON(w, code, out)
}
