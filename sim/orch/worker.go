package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

// These mirror zzsim/simkit/plan.go.

type Op struct {
	K string `json:"k"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
	S string `json:"s,omitempty"`
}

type Plan struct {
	P       map[string]int64 `json:"p,omitempty"`
	Rates   map[string]int64 `json:"rates,omitempty"`
	Threads [][]Op           `json:"threads,omitempty"`
}

type Fired struct {
	Kind  string `json:"kind"`
	Point string `json:"point"`
	N     int64  `json:"n"`
	V     uint64 `json:"v,omitempty"`
}

type Dev struct {
	Y bool   `json:"y,omitempty"`
	I uint64 `json:"i"`
	C uint32 `json:"c,omitempty"`
}

type Spec struct {
	Prop       string   `json:"prop"`
	Scenario   string   `json:"scenario"`
	Seed       uint64   `json:"seed"`
	Tier       string   `json:"tier,omitempty"`
	Warmup     []uint64 `json:"warmup,omitempty"`
	Replay     bool     `json:"replay,omitempty"`
	Plan       *Plan    `json:"plan,omitempty"`
	Faults     []Fired  `json:"faults,omitempty"`
	Devs       []Dev    `json:"devs,omitempty"`
	KeepSched  bool     `json:"keep_sched,omitempty"`
	KeepFaults bool     `json:"keep_faults,omitempty"`
	Full       bool     `json:"full,omitempty"`
	PlanOnly   bool     `json:"plan_only,omitempty"`
}

type Result struct {
	Seed     uint64           `json:"seed"`
	Scenario string           `json:"scenario"`
	Class    string           `json:"class,omitempty"`
	Msg      string           `json:"msg,omitempty"`
	Hash     uint64           `json:"hash"`
	State    uint64           `json:"state"`
	Yields   uint64           `json:"yields"`
	Picks    uint64           `json:"picks"`
	Preempts uint64           `json:"preempts"`
	Switches uint64           `json:"switches"`
	SimNanos int64            `json:"sim_nanos"`
	Ops      int64            `json:"ops"`
	Faults   map[string]int64 `json:"faults,omitempty"`
	Probes   map[string]int64 `json:"probes,omitempty"`
	Nontriv  bool             `json:"nontriv"`
	Inconcl  bool             `json:"inconclusive,omitempty"`
	Plan     *Plan            `json:"plan,omitempty"`
	Fired    []Fired          `json:"fired,omitempty"`
	Devs     []Dev            `json:"devs,omitempty"`
	DevsLost bool             `json:"devs_lost,omitempty"`
	Trace    []string         `json:"trace,omitempty"`

	crashed bool   // the worker died
	harness string // the fault is the harness's
	exited  bool   // the worker process ended with this run
}

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tail
	dead   bool
}

// tail keeps the first and last part of a stream.
type tail struct {
	mu   sync.Mutex
	head bytes.Buffer
	last []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if room := 1<<18 - t.head.Len(); room > 0 {
		k := min(room, len(p))
		t.head.Write(p[:k])
		p = p[k:]
	}
	t.last = append(t.last, p...)
	if len(t.last) > 1<<16 {
		t.last = t.last[len(t.last)-1<<16:]
	}

	return n, nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()

	return t.head.String() + string(t.last)
}

func startWorker(bin, dir string) (*worker, error) {
	cmd := exec.Command(bin)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off", "GOTRACEBACK=all", "GODEBUG=",
		"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=3")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w := &worker{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), stderr: &tail{}}
	cmd.Stderr = w.stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}

	return w, nil
}

func (w *worker) stop() {
	if w == nil || w.dead {
		return
	}
	w.dead = true
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

// run executes one spec. When the worker dies, the result says why.
func (w *worker) run(sp *Spec, limit time.Duration) *Result {
	b, err := json.Marshal(sp)
	if err != nil {
		return &Result{harness: err.Error()}
	}
	b = append(b, '\n')
	timedOut := false
	timer := time.AfterFunc(limit, func() {
		timedOut = true
		w.cmd.Process.Signal(syscall.SIGQUIT)
		time.AfterFunc(5*time.Second, func() { w.cmd.Process.Kill() })
	})
	defer timer.Stop()
	go w.in.Write(b)
	line, err := w.out.ReadBytes('\n')
	if err == nil {
		r := &Result{}
		if err := json.Unmarshal(line, r); err != nil {
			w.stop()

			return &Result{Seed: sp.Seed, Scenario: sp.Scenario, harness: "bad result line: " + err.Error() + ": " + string(line)}
		}
		if r.Class != "" {
			// The worker may have ended with this run.
			w.stop()
			r.exited = true
		}

		return r
	}
	w.dead = true
	werr := w.cmd.Wait()
	r := &Result{Seed: sp.Seed, Scenario: sp.Scenario, crashed: true, exited: true}
	text := w.stderr.String()
	if timedOut {
		r.harness = fmt.Sprintf("a run took longer than %v of real time (scenario %s seed %d)\n%s", limit, sp.Scenario, sp.Seed, clip(text, 6000))

		return r
	}
	classifyCrash(r, text, werr)

	return r
}

// classifyCrash turns the stderr of a dead worker into a violation, or into a
// harness error when the code under test took no part in it.
func classifyCrash(r *Result, text string, werr error) {
	code := -1
	if ee, ok := werr.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	switch {
	case strings.Contains(text, "WARNING: DATA RACE"):
		rep := text[strings.Index(text, "WARNING: DATA RACE"):]
		if i := strings.Index(rep, "\n=================="); i > 0 {
			rep = rep[:i]
		}
		if !raceInCode(rep) {
			r.harness = "data race in the harness:\n" + clip(rep, 4000)

			return
		}
		r.Class = "data-race"
		r.Msg = clip(rep, 6000)
	case strings.Contains(text, "HARNESS-ERROR"):
		r.harness = clip(text[strings.Index(text, "HARNESS-ERROR"):], 4000)
	case strings.Contains(text, "concurrent map"):
		r.Class = "concurrent-map"
		r.Msg = clip(fromFirst(text, "fatal error:"), 4000)
	case strings.Contains(text, "all goroutines are asleep"):
		r.Class = "deadlock"
		r.Msg = clip(fromFirst(text, "fatal error:"), 6000)
	case strings.Contains(text, "panic: ") || strings.Contains(text, "fatal error: "):
		s := fromFirst(text, "panic: ")
		if !strings.Contains(text, "panic: ") {
			s = fromFirst(text, "fatal error: ")
		}
		top := topFrame(s)
		if strings.Contains(top, "/zzsim/") || top == "" {
			r.harness = "panic outside the code under test:\n" + clip(s, 5000)

			return
		}
		r.Class = "panic"
		r.Msg = clip(s, 5000)
	default:
		r.harness = fmt.Sprintf("worker ended unexpectedly (exit %d, %v):\n%s", code, werr, clip(text, 3000))
	}
}

// topFrame finds the first frame of the panicking goroutine that belongs to the
// module under test or the harness.
func topFrame(s string) string {
	if i := strings.Index(s, "\ngoroutine "); i >= 0 {
		s = s[i+1:]
	}
	if i := strings.Index(s, "\n\n"); i >= 0 {
		s = s[:i]
	}
	// Frames below the last runtime panic frame.
	if i := strings.LastIndex(s, "\npanic("); i >= 0 {
		s = s[i:]
	}
	return ownerOf(s)
}

// moduleDir is where the sources of the module under test are.
var moduleDir = "/repo/"

// ownerOf returns the first source line in a stack that belongs to the harness
// or to the module under test, skipping the toolchain and third-party modules.
func ownerOf(stack string) string {
	for _, line := range strings.Split(stack, "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "/") || !strings.Contains(line, ".go:") {
			continue
		}
		if strings.Contains(line, "/zzsim/") || strings.Contains(line, "/sim/src/") || strings.Contains(line, "zz_sim") {
			return "/zzsim/ " + line
		}
		if strings.Contains(line, "/go/pkg/mod/") || strings.Contains(line, "/go1.26") {
			continue
		}
		if strings.Contains(line, "/repo/") || strings.HasPrefix(line, moduleDir) {
			return line
		}
	}

	return ""
}

// raceInCode reports whether an access of the race is in the module under test,
// or in what it called: a simulated network reads the items it is handed.
func raceInCode(rep string) bool {
	parts := strings.Split(rep, "\n\n")
	for _, p := range parts {
		if strings.HasPrefix(strings.TrimSpace(p), "Goroutine ") {
			continue // where the goroutines were created
		}
		for _, line := range strings.Split(p, "\n") {
			if o := ownerOf(line); o != "" && !strings.HasPrefix(o, "/zzsim/") {
				return true
			}
		}
	}

	return false
}

func fromFirst(s, sub string) string {
	if i := strings.Index(s, sub); i >= 0 {
		return s[i:]
	}

	return s
}

func clip(s string, n int) string {
	s = strings.Map(func(r rune) rune { // keys may hold anything
		if (r < ' ' && r != '\n' && r != '\t') || r == 0x7f {
			return '?'
		}

		return r
	}, s)
	if len(s) > n {
		return s[:n] + "\n...[cut]"
	}

	return s
}
