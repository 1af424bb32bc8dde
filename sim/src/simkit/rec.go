package simkit

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
)

// Event is one operation of a recorded history.
type Event struct {
	Thread   int
	Op       string
	In, Out  any
	Call     int64
	Ret      int64
	CallTime time.Duration
	RetTime  time.Duration
}

// Rec records histories without synchronising the threads it observes: each
// thread appends to its own slice and timestamps come from the scheduler.
type Rec struct {
	th [][]Event
}

// NewRec returns a recorder for n threads.
func NewRec(n int) *Rec { return &Rec{th: make([][]Event, n)} }

// Do runs one operation and records it.
func (r *Rec) Do(thread int, op string, in any, f func() any) any {
	c := Seq()
	out := f()
	r.th[thread] = append(r.th[thread], Event{Thread: thread, Op: op, In: in, Out: out, Call: c, Ret: Seq()})

	return out
}

// Add appends a finished event.
func (r *Rec) Add(e Event) { r.th[e.Thread] = append(r.th[e.Thread], e) }

// All returns every event in order of invocation.
func (r *Rec) All() []Event {
	var out []Event
	for _, t := range r.th {
		out = append(out, t...)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Call < out[j].Call })

	return out
}

// Linearizable checks a history against a model. It returns "" when a
// linearization exists; decided is false when the search ran out of time.
func Linearizable(model porcupine.Model, evs []Event, limit time.Duration) (msg string, decided bool) {
	ops := make([]porcupine.Operation, 0, len(evs))
	for _, e := range evs {
		ops = append(ops, porcupine.Operation{ClientId: e.Thread, Input: e, Call: e.Call, Output: e.Out, Return: e.Ret})
	}
	res := porcupine.CheckOperationsTimeout(model, ops, limit)
	switch res {
	case porcupine.Ok:
		return "", true
	case porcupine.Unknown:
		return "", false
	}

	return "no sequential order of these operations explains their results:\n" + Dump(evs), true
}

// Dump formats a history.
func Dump(evs []Event) string {
	var b strings.Builder
	for i, e := range evs {
		if i > 80 {
			fmt.Fprintf(&b, "  ... %d more\n", len(evs)-i)

			break
		}
		fmt.Fprintf(&b, "  [%d,%d] thread %d %s(%v) -> %v\n", e.Call, e.Ret, e.Thread, e.Op, e.In, e.Out)
	}

	return b.String()
}
