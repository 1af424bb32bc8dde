package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/signal"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	fiber "github.com/gofiber/fiber/v3"

	"github.com/hyp3rd/hypercache/zzsim/node"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
	"github.com/hyp3rd/hypercache/zzsim/simnet"
)

// Fiber and fasthttp start process-wide clocks on first use: start them before
// any simulation.
func init() {
	app := fiber.New()
	app.Get("/m/:x", func(c fiber.Ctx) error { return c.JSON(fiber.Map{"x": c.Params("x")}) })
	a, b := net.Pipe()
	done := make(chan struct{})
	go func() { _ = app.Server().ServeConn(b); close(done) }()
	app.Handler()
	fmt.Fprint(a, "GET /m/x HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
	_, _ = io.ReadAll(a)
	_ = a.Close()
	<-done
}

// proc is one server process: the shipped command's main, run under the
// environment variables that configure it.
type proc struct {
	id      string
	gid     uint64
	vars    map[string]string
	sig     chan<- os.Signal
	ready   chan struct{}
	done    chan struct{}
	code    int
	running bool
}

func (p *proc) api() string  { return p.id + ".sim:8080" }
func (p *proc) mgmt() string { return p.id + ".sim:8081" }
func (p *proc) dist() string { return p.id + ".sim:7946" }

// stack is a cluster of server processes.
type stack struct {
	env      *simkit.Env
	net      *simnet.Net
	mu       sync.Mutex
	procs    []*proc
	starting *proc
	tr       *http.Transport
	hc       *http.Client
	vars     map[string]string // for every process
	old      http.RoundTripper
	watchers []*watcher
	wg       sync.WaitGroup
	ctx      context.Context
	cancel   context.CancelFunc
}

type exitCode int

func newStack(env *simkit.Env) *stack {
	if os.Getenv("SIM_LOG") == "" {
		if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout, os.Stderr = f, f
		}
	}
	s := &stack{env: env, net: simnet.New(env), vars: map[string]string{}, old: http.DefaultTransport}
	s.net.Base = 20 * time.Microsecond
	s.net.ByID, s.net.Reuse, s.net.Slow = true, true, 20*time.Millisecond
	s.tr = &http.Transport{MaxIdleConnsPerHost: 4, IdleConnTimeout: 90 * time.Second}
	http.DefaultTransport = s.tr
	s.ctx, s.cancel = context.WithCancel(context.Background())
	s.hc = &http.Client{Transport: s.tr, Timeout: time.Minute}
	signal.SimNotify = func(c chan<- os.Signal, _ []os.Signal) {
		s.mu.Lock()
		defer s.mu.Unlock()
		if p := s.starting; p != nil {
			p.sig = c
			close(p.ready)
			s.starting = nil
		}
	}
	os.SimExit = func(code int) {
		s.mu.Lock()
		ours := false
		for _, p := range s.procs {
			ours = ours || p.running && p.gid == simkit.GID()
		}
		s.mu.Unlock()
		if ours {
			panic(exitCode(code))
		}
	}

	return s
}

func (s *stack) close() {
	for _, p := range s.procs {
		s.stop(p)
	}
	s.cancel()
	s.wg.Wait()
	s.tr.CloseIdleConnections()
	s.net.CloseAll()
	time.Sleep(25 * time.Second) // fasthttp's idle workers end
	s.env.Cleanup(func() {
		s.net.Uninstall()
		http.DefaultTransport = s.old
		signal.SimNotify, os.SimExit = nil, nil
	})
}

// start runs one server process and waits until it handles signals, which is
// the last thing it sets up.
func (s *stack) start(p *proc) bool {
	for _, kv := range os.Environ() {
		if k, _, _ := strings.Cut(kv, "="); strings.HasPrefix(k, "HYPERCACHE_") {
			_ = os.Unsetenv(k)
		}
	}
	for k, v := range s.vars {
		_ = os.Setenv(k, v)
	}
	for k, v := range p.vars {
		_ = os.Setenv(k, v)
	}
	p.ready, p.done, p.sig, p.code = make(chan struct{}), make(chan struct{}), nil, -1
	s.mu.Lock()
	s.starting = p
	s.mu.Unlock()
	go func() {
		defer func() {
			r := recover()
			c, ok := r.(exitCode)
			if r != nil && !ok {
				panic(r)
			}
			if ok {
				p.code = int(c)
			}
			s.mu.Lock()
			p.running = false
			if s.starting == p {
				s.starting = nil
			}
			s.mu.Unlock()
			close(p.done)
		}()
		s.mu.Lock()
		p.gid, p.running = simkit.GID(), true
		s.mu.Unlock()
		node.Main()
		p.code = 0
	}()
	select {
	case <-p.ready:
		return true
	case <-p.done:
		return false
	}
}

// stop ends a process the way an orchestrator does, and waits for it.
func (s *stack) stop(p *proc) {
	if p.sig != nil {
		select {
		case p.sig <- syscall.SIGTERM:
		default:
		}
	}
	if p.done != nil {
		<-p.done
	}
	p.sig = nil
}

// reply is one HTTP answer.
type reply struct {
	status int
	head   http.Header
	body   []byte
	err    error
}

func (r reply) json(v any) error {
	if r.err != nil {
		return r.err
	}

	return json.Unmarshal(r.body, v)
}

func (r reply) String() string {
	if r.err != nil {
		return r.err.Error()
	}

	return fmt.Sprintf("%d %.300q", r.status, r.body)
}

// call sends one request.
func (s *stack) call(method, addr, path, token string, body []byte, head ...string) reply {
	req, err := http.NewRequestWithContext(context.Background(), method, "http://"+addr+path, bytes.NewReader(body))
	if err != nil {
		return reply{err: err}
	}
	if token != "" {
		req.Header.Set("Authorization", "Bearer "+token)
	}
	for i := 0; i+1 < len(head); i += 2 {
		req.Header.Set(head[i], head[i+1])
	}
	resp, err := s.hc.Do(req)
	if err != nil {
		return reply{err: err}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)

	return reply{resp.StatusCode, resp.Header, b, err}
}

type memberView struct {
	Members []struct {
		ID, Address, State string
		Incarnation        uint64
	}
}

// alive lists the members a process considers alive.
func (s *stack) alive(p *proc, token string) []string {
	var v memberView
	r := s.call("GET", p.mgmt(), "/cluster/members", token, nil)
	if r.json(&v) != nil || r.status != 200 {
		return nil
	}
	var out []string
	for _, m := range v.Members {
		if m.State == "alive" {
			out = append(out, m.ID)
		}
	}
	sort.Strings(out)

	return out
}

// converge waits until every running process sees exactly the running ones.
func (s *stack) converge(token string, limit time.Duration) error {
	var want []string
	for _, p := range s.procs {
		if p.running {
			want = append(want, p.id)
		}
	}
	sort.Strings(want)
	for end := time.Now().Add(limit); ; time.Sleep(100 * time.Millisecond) {
		var odd string
		for _, p := range s.procs {
			if p.running {
				if got := s.alive(p, token); fmt.Sprint(got) != fmt.Sprint(want) {
					odd = fmt.Sprintf("%s sees %v alive, running are %v", p.id, got, want)
				}
			}
		}
		if odd == "" {
			return nil
		}
		if time.Now().After(end) {
			return fmt.Errorf("after %s %s", limit, odd)
		}
	}
}
