package main

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"sync"
	"time"

	fiber "github.com/gofiber/fiber/v3"

	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
	"github.com/hyp3rd/hypercache/zzsim/simnet"
)

var fiberWarm sync.Once

// Fiber and fasthttp start process-wide clocks on first use: start them before
// any simulation.
func warmFiber() {
	fiberWarm.Do(func() {
		app := fiber.New()
		app.Get("/m/:x", func(c fiber.Ctx) error { return c.JSON(fiber.Map{"x": c.Params("x")}) })
		a, b := net.Pipe()
		done := make(chan struct{})
		go func() { _ = app.Server().ServeConn(b); close(done) }()
		app.Handler()
		fmt.Fprint(a, "GET /m/x HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
		_, _ = io.ReadAll(a)
		_ = a.Close()
		<-done
	})
}

func init() { warmFiber() }

// useHTTP puts every node behind its real HTTP server: what the simulated
// network delivers travels as a request of the real HTTP transport.
func (w *world) useHTTP() {
	w.net = simnet.New(w.env)
	w.net.Base = 20 * time.Microsecond
	w.net.Reuse, w.net.ByID = true, true
	old := http.DefaultTransport
	tr := &http.Transport{MaxIdleConnsPerHost: 4}
	http.DefaultTransport = tr
	w.env.Cleanup(func() { http.DefaultTransport = old })
	w.env.Cleanup(w.net.Uninstall)
	w.closers = append(w.closers, tr.CloseIdleConnections, w.net.CloseAll)
}

func (w *world) closeHTTP() {
	for _, f := range w.closers {
		f()
	}
	w.closers = nil
	if w.net != nil {
		time.Sleep(25 * time.Second) // fasthttp's idle workers end
	}
}

func (w *world) httpLimits() backend.DistHTTPLimits {
	l := backend.DistHTTPLimits{CompressionThreshold: w.env.PI("gzip")}
	if b := w.env.PI("body_max"); b > 0 {
		l.BodyLimit, l.ResponseLimit = b, int64(b)
	}

	return l
}

func (w *world) httpHop() backend.DistTransport {
	return backend.NewDistHTTPTransportWithLimits(w.httpLimits(), func(id string) (string, bool) {
		return "http://" + addrOf(id), true
	})
}

// register adds a scenario and its variant over HTTP.
func register(s *simkit.Scenario) {
	simkit.Register(s)
	h := *s
	h.Name += "-http"
	h.MaxYields = 1_000_000_000
	h.Gen = func(r *simkit.Rand, tier string) *simkit.Plan {
		p := s.Gen(r, tier)
		p.P["http"], p.P["gzip"] = 1, simkit.Pick(r, int64(0), 1, 120)
		if p.P["lat_us"] == 0 {
			p.P["lat_us"] = 200
		}

		return p
	}
	simkit.Register(&h)
}
