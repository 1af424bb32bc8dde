package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

// watcher follows the event stream of one server, and connects again whenever
// the stream ends.
type watcher struct {
	p         *proc
	mu        sync.Mutex
	connected bool
	last      string // the last word about the members
	at        time.Time
	frames    int
	ended     int
	code      int
}

func (s *stack) watch(p *proc, token string) *watcher {
	wt := &watcher{p: p}
	s.watchers = append(s.watchers, wt)
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for s.ctx.Err() == nil {
			wt.follow(s.ctx, s, token)
			select {
			case <-s.ctx.Done():
			case <-time.After(500 * time.Millisecond):
			}
		}
	}()

	return wt
}

func (wt *watcher) follow(ctx context.Context, s *stack, token string) {
	req, err := http.NewRequestWithContext(ctx, http.MethodGet, "http://"+wt.p.mgmt()+"/cluster/events", nil)
	if err != nil {
		return
	}
	if token != "" {
		req.Header.Set("Authorization", "Bearer "+token)
	}
	resp, err := s.tr.RoundTrip(req)
	if err != nil {
		return
	}
	defer resp.Body.Close()
	wt.mu.Lock()
	wt.connected, wt.code, wt.last, wt.frames = resp.StatusCode == 200, resp.StatusCode, "", 0
	wt.mu.Unlock()
	defer func() {
		wt.mu.Lock()
		wt.connected = false
		wt.ended++
		wt.mu.Unlock()
	}()
	sc := bufio.NewScanner(resp.Body)
	sc.Buffer(nil, 1<<20)
	event := ""
	for sc.Scan() {
		line := sc.Text()
		switch {
		case strings.HasPrefix(line, "event: "):
			event = line[len("event: "):]
		case strings.HasPrefix(line, "data: "):
			wt.mu.Lock()
			wt.frames++
			wt.at = time.Now()
			if event == "members" {
				wt.last = line[len("data: "):]
			}
			wt.mu.Unlock()
		}
	}
}

func canonicalMembers(s string) string {
	var v memberView
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		return s
	}
	m := map[string]string{}
	for _, x := range v.Members {
		m[x.ID] = fmt.Sprintf("%s %s %d", x.Address, x.State, x.Incarnation)
	}
	out := ""
	for _, id := range simkit.SortedKeys(m) {
		out += id + " " + m[id] + "\n"
	}

	return out
}

// judgeStreams: while nothing changes every server streams events, and the last
// word of each stream about the members is how its server sees them.
func (s *stack) judgeStreams(token string) {
	for _, wt := range s.watchers {
		if !wt.p.running {
			continue
		}
		for try := 0; ; try++ {
			before := s.call("GET", wt.p.mgmt(), "/cluster/members", token, nil)
			time.Sleep(2500 * time.Millisecond)
			after := s.call("GET", wt.p.mgmt(), "/cluster/members", token, nil)
			wt.mu.Lock()
			connected, last, at, frames, code := wt.connected, wt.last, wt.at, wt.frames, wt.code
			wt.mu.Unlock()
			b, a := canonicalMembers(string(before.body)), canonicalMembers(string(after.body))
			if before.status != 200 || after.status != 200 {
				s.env.Fail("refused", "/cluster/members of %s: %v, %v", wt.p.id, before, after)
			}
			if !connected || time.Since(at) > 2*time.Second {
				s.env.Fail("stream", "%s: connected %v (status %d), %d events, the last %v ago", wt.p.id, connected, code, frames, time.Since(at))
			}
			if b == a || try > 10 {
				if l := canonicalMembers(last); b == a && l != a {
					s.env.Fail("stream", "%s: the last event about the members says\n%sbut they are\n%s", wt.p.id, l, a)
				}

				break
			}
		}
		s.env.Probe("stream")
	}
}
