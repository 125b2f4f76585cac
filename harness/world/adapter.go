package world

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"

	"github.com/gogo/googleapis/google/rpc"
	"github.com/gogo/protobuf/types"
	mixerpolicy "istio.io/api/policy/v1beta1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// AdapterMain is the child process: the real adapter, nothing else
func AdapterMain() {
	cfg := config.NewConfig()
	cfg.AdapterPort = 0
	if n, err := strconv.Atoi(os.Getenv("VERIF_HASH_SIZE")); err == nil {
		cfg.HashKeySize.Value = n
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_BLOCK_SIZE")); err == nil {
		cfg.BlockKeySize.Value = n
	}
	s, err := adapter.NewAppIDAdapter(cfg)
	if err != nil {
		fmt.Println("FAILED", err)
		os.Exit(3)
	}
	fmt.Println("ADDR", s.Addr())
	go func() { // tell what is held when asked; end with the parent
		for in := bufio.NewScanner(os.Stdin); in.Scan(); {
			b, _ := json.Marshal(holding())
			fmt.Println("HELD", string(b))
		}
		os.Exit(0)
	}()
	shutdown := make(chan error, 1)
	s.Run(shutdown)
	fmt.Println("ENDED", <-shutdown)
}

// Held is what a process holds
type Held struct {
	Tasks, Files int
	Heap         int64
}

func holding() (h Held) {
	runtime.GC()
	runtime.GC() // what pools keep goes with the second
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	files, _ := ioutil.ReadDir("/proc/self/fd")
	return Held{Tasks: runtime.NumGoroutine(), Files: len(files), Heap: int64(m.HeapAlloc)}
}

// Holding asks the adapter's process what it holds
func (a *Adapter) Holding() (h Held, err error) {
	a.asking.Lock()
	defer a.asking.Unlock()
	if _, err = a.stdin.Write([]byte("\n")); err != nil {
		return
	}
	select {
	case s := <-a.held:
		err = json.Unmarshal([]byte(s), &h)
	case <-a.exited:
		err = errors.New("ended")
	case <-time.After(60 * time.Second):
		err = errors.New("no answer")
	}
	return
}

// Adapter is a running adapter process
type Adapter struct {
	cmd    *exec.Cmd
	stdin  io.WriteCloser
	held   chan string
	asking sync.Mutex
	conn   *grpc.ClientConn
	Client authnz.HandleAuthnZServiceClient
	stderr *tail
	mu     sync.Mutex
	killed bool
	exited chan struct{}
	state  string
}

// tail keeps the beginning and the end of a stream
type tail struct {
	mu   sync.Mutex
	head []byte
	end  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, b := range p {
		if len(t.head) < 60000 {
			t.head = append(t.head, b)
		} else {
			t.end = append(t.end, b)
		}
	}
	if len(t.end) > 60000 {
		t.end = append([]byte{}, t.end[len(t.end)-60000:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.end)
}

// StartAdapter starts the adapter against the given API server. It may take long
// (secrets it cannot read, for instance): ready is called as soon as it listens.
func StartAdapter(k interface{ Kubeconfig() string }, scratch string, timeout time.Duration) (*Adapter, error) {
	return StartAdapterWith(k, scratch, timeout, nil, nil)
}

// StartAdapterWith also sets environment variables and tells of the process as soon as it runs
func StartAdapterWith(k interface{ Kubeconfig() string }, scratch string, timeout time.Duration, env []string, started func(*Adapter)) (*Adapter, error) {
	dir, err := ioutil.TempDir(scratch, "adapter")
	if err != nil {
		return nil, err
	}
	kc := filepath.Join(dir, "kubeconfig")
	if err := ioutil.WriteFile(kc, []byte(k.Kubeconfig()), 0600); err != nil {
		return nil, err
	}
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	a := &Adapter{cmd: exec.Command(self, "adapter"), stderr: &tail{}, held: make(chan string, 1), exited: make(chan struct{})}
	a.cmd.Env = append(os.Environ(), "KUBECONFIG="+kc, "HOME="+dir, "GORACE=halt_on_error=0 exitcode=66")
	a.cmd.Env = append(a.cmd.Env, env...)
	a.cmd.Stderr = a.stderr
	in, err := a.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	a.stdin = in
	out, err := a.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := a.cmd.Start(); err != nil {
		return nil, err
	}
	if started != nil {
		started(a)
	}
	addr := make(chan string, 1)
	go func() {
		for sc := bufio.NewReader(out); ; { // a Scanner would stop at a long line, and the adapter with it
			line, _, err := sc.ReadLine()
			if err != nil {
				break
			}
			if strings.HasPrefix(string(line), "ADDR ") {
				addr <- strings.TrimPrefix(string(line), "ADDR ")
			}
			if strings.HasPrefix(string(line), "HELD ") {
				a.held <- strings.TrimPrefix(string(line), "HELD ")
			}
		}
		err := a.cmd.Wait()
		a.mu.Lock()
		a.state = fmt.Sprint(err)
		a.mu.Unlock()
		close(a.exited)
	}()
	select {
	case s := <-addr:
		port := s[strings.LastIndex(s, ":")+1:]
		a.conn, err = grpc.Dial("127.0.0.1:"+port, grpc.WithInsecure())
		if err != nil {
			return nil, err
		}
		a.Client = authnz.NewHandleAuthnZServiceClient(a.conn)
		return a, nil
	case <-a.exited:
		return a, errors.New("adapter ended during start: " + a.Stderr())
	case <-time.After(timeout):
		a.Kill()
		return a, errors.New("adapter did not start in time")
	}
}

// StartProgram starts the program as it is delivered, on a port of our choice. All it
// writes goes to a file.
func StartProgram(k interface{ Kubeconfig() string }, scratch, program string, timeout time.Duration, args ...string) (*Adapter, string, error) {
	dir, err := ioutil.TempDir(scratch, "program")
	if err != nil {
		return nil, "", err
	}
	kc := filepath.Join(dir, "kubeconfig")
	if err := ioutil.WriteFile(kc, []byte(k.Kubeconfig()), 0600); err != nil {
		return nil, "", err
	}
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		return nil, "", err
	}
	port := strconv.Itoa(l.Addr().(*net.TCPAddr).Port)
	_ = l.Close()
	path := filepath.Join(dir, "output")
	out, err := os.Create(path)
	if err != nil {
		return nil, "", err
	}
	defer out.Close()
	a := &Adapter{cmd: exec.Command(program, append([]string{"--port", port}, args...)...), stderr: &tail{}, exited: make(chan struct{})}
	a.cmd.Env = append(os.Environ(), "KUBECONFIG="+kc, "HOME="+dir)
	a.cmd.Stdout, a.cmd.Stderr = out, out
	if err := a.cmd.Start(); err != nil {
		return nil, "", err
	}
	go func() {
		err := a.cmd.Wait()
		if b, e := ioutil.ReadFile(path); e == nil {
			if len(b) > 60000 {
				b = b[len(b)-60000:]
			}
			_, _ = a.stderr.Write(b)
		}
		a.mu.Lock()
		a.state = fmt.Sprint(err)
		a.mu.Unlock()
		close(a.exited)
	}()
	for end := time.Now().Add(timeout); ; {
		if c, err := net.DialTimeout("tcp", "127.0.0.1:"+port, time.Second); err == nil {
			_ = c.Close()
			break
		}
		select {
		case <-a.exited:
			return a, path, errors.New("the program ended during start: " + a.Stderr())
		case <-time.After(20 * time.Millisecond):
		}
		if time.Now().After(end) {
			a.Kill()
			return a, path, errors.New("the program did not start in time")
		}
	}
	a.conn, err = grpc.Dial("127.0.0.1:"+port, grpc.WithInsecure())
	if err != nil {
		return nil, path, err
	}
	a.Client = authnz.NewHandleAuthnZServiceClient(a.conn)
	return a, path, nil
}

// Kill ends the adapter at once
func (a *Adapter) Kill() {
	a.mu.Lock()
	a.killed = true
	a.mu.Unlock()
	if a.conn != nil {
		_ = a.conn.Close()
	}
	_ = a.cmd.Process.Kill()
	<-a.exited
}

// Crashed tells whether the adapter ended by itself, and its last words
func (a *Adapter) Crashed() (bool, string) {
	if a == nil {
		return false, ""
	}
	select {
	case <-a.exited:
		a.mu.Lock()
		defer a.mu.Unlock()
		if a.killed {
			return false, ""
		}
		return true, a.state + "\n" + a.Stderr()
	default:
		return false, ""
	}
}

// Stderr returns what the adapter wrote to its standard error
func (a *Adapter) Stderr() string { return a.stderr.String() }

// Req is a request to be authorized
type Req struct {
	NS, Svc, Path, Method string
	Scheme, Host          string
	Authz, Cookies        string
	Code, Error, State    string
}

// Msg builds the gRPC message
func (r Req) Msg() *authnz.HandleAuthnZRequest {
	if r.Scheme == "" {
		r.Scheme = "https"
	}
	if r.Host == "" {
		r.Host = "app.example.com"
	}
	return &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Name:   "v",
		Target: &authnz.TargetMsg{Namespace: r.NS, Service: r.Svc, Path: r.Path, Method: r.Method},
		Request: &authnz.RequestMsg{Scheme: r.Scheme, Host: r.Host, Path: r.Path,
			Headers: &authnz.HeadersMsg{Cookies: r.Cookies, Authorization: r.Authz},
			Params:  &authnz.QueryParamsMsg{Code: r.Code, Error: r.Error, State: r.State}},
	}}
}

// Resp is what the adapter answered
type Resp struct {
	Kind     string // OK, REDIRECT, DENY (rejected), ERR (gRPC error)
	HTTP     int    // HTTP status the client is given, 0 if left to Mixer
	Authz    string // authorization header handed to the service
	Cookie   string // session cookie handed to the service's response
	Headers  map[string]string
	Body     string
	Msg      string
	Err      string
	Took     time.Duration
	Location string
	// how long and how often Mixer may reuse the answer
	ValidFor  time.Duration
	ValidUses int32
}

func (r Resp) String() string {
	s := r.Kind
	if r.HTTP != 0 {
		s += fmt.Sprintf("/%d", r.HTTP)
	}
	if r.Location != "" {
		s += " -> " + r.Location
	}
	if r.Msg != "" {
		s += " (" + r.Msg + ")"
	}
	if r.Err != "" {
		s += " err=" + r.Err
	}
	if r.Authz != "" {
		s += " authz"
	}
	return s
}

// Header returns a header of the answer, whatever its case
func (r Resp) Header(name string) string {
	for k, v := range r.Headers {
		if strings.EqualFold(k, name) {
			return v
		}
	}
	return ""
}

// SetCookie parses the cookie the answer sets
func (r Resp) SetCookie() *http.Cookie { return ParseSetCookie(r.Header("Set-Cookie")) }

// ParseSetCookie parses a Set-Cookie header value
func ParseSetCookie(s string) *http.Cookie {
	if s == "" {
		return nil
	}
	res := http.Response{Header: http.Header{"Set-Cookie": {s}}}
	for _, c := range res.Cookies() {
		return c
	}
	return nil
}

// LocationURL parses the redirect's target
func (r Resp) LocationURL() *url.URL {
	u, err := url.Parse(r.Location)
	if err != nil {
		return &url.URL{}
	}
	return u
}

// IsLogin tells whether the answer redirects to the given tenant's login page
func (r Resp) IsLogin(t *Tenant) bool {
	return r.Kind == "REDIRECT" && strings.HasPrefix(r.Location, t.Authorize()+"?")
}

// LoginClient returns the client id of a login redirect, "" for anything else
func (r Resp) LoginClient() string {
	if r.Kind != "REDIRECT" {
		return ""
	}
	return r.LocationURL().Query().Get("client_id")
}

// Do has a request authorized
func (a *Adapter) Do(r Req) Resp { return a.DoMsg(r.Msg(), 60*time.Second) }

// DoMsg has a request authorized
func (a *Adapter) DoMsg(m *authnz.HandleAuthnZRequest, timeout time.Duration) Resp {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	start := time.Now()
	res, err := a.Client.HandleAuthnZ(ctx, m)
	return classify(res, err, time.Since(start))
}

// DoWith has a request authorized the way f does it
func (a *Adapter) DoWith(timeout time.Duration, f func(context.Context, *grpc.ClientConn) (*authnz.HandleAuthnZResponse, error)) Resp {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	start := time.Now()
	res, err := f(ctx, a.conn)
	return classify(res, err, time.Since(start))
}

func classify(res *authnz.HandleAuthnZResponse, err error, took time.Duration) Resp {
	out := Resp{Took: took}
	if err != nil {
		out.Kind, out.Err = "ERR", err.Error()
		return out
	}
	if res == nil || res.Result == nil {
		out.Kind = "ERR"
		out.Err = "no result"
		return out
	}
	if res.Output != nil {
		out.Authz, out.Cookie = res.Output.Authorization, res.Output.SessionCookie
	}
	st := res.Result.Status
	out.Msg = st.Message
	out.ValidFor, out.ValidUses = res.Result.ValidDuration, res.Result.ValidUseCount
	for _, d := range st.Details {
		direct := &mixerpolicy.DirectHttpResponse{}
		if types.Is(d, direct) {
			if types.UnmarshalAny(d, direct) == nil {
				out.HTTP, out.Headers, out.Body = int(direct.Code), direct.Headers, direct.Body
			}
		}
	}
	if st.Code == int32(rpc.OK) {
		out.Kind = "OK"
		return out
	}
	out.Kind = "DENY"
	if out.HTTP == 302 {
		out.Kind = "REDIRECT"
		out.Location = out.Header("Location")
	}
	return out
}

// Exited is closed when the process has ended
func (a *Adapter) Exited() <-chan struct{} { return a.exited }
