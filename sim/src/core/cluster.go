package main

import (
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

var states = []cluster.NodeState{cluster.NodeAlive, cluster.NodeSuspect, cluster.NodeDead}

func nid(i int64) cluster.NodeID { return cluster.NodeID(fmt.Sprintf("node-%d", i)) }

func genMembership(maxThreads, maxOps, ids int) func(r *simkit.Rand, tier string) *simkit.Plan {
	return func(r *simkit.Rand, tier string) *simkit.Plan {
		p := &simkit.Plan{P: map[string]int64{
			"ids": int64(r.I(2, ids)), "vn": simkit.Pick(r, int64(0), 1, 3, 16, 64, 300),
			"rep": int64(r.I(1, 4)),
		}}
		nt := r.I(2, maxThreads)
		for range nt {
			var ops []simkit.Op
			for range r.I(2, maxOps) {
				id := int64(r.N(int(p.P["ids"])))
				switch r.PickW(34, 22, 18, 8, 8, 5, 5, 4) {
				case 0:
					ops = append(ops, simkit.Op{K: "upsert", A: id, B: int64(r.PickW(6, 2, 2)), C: int64(r.I(1, 9))})
				case 1:
					ops = append(ops, simkit.Op{K: "remove", A: id})
				case 2:
					ops = append(ops, simkit.Op{K: "mark", A: id, B: int64(r.N(3))})
				case 3:
					ops = append(ops, simkit.Op{K: "refute", A: id})
				case 4:
					ops = append(ops, simkit.Op{K: "list"})
				case 5:
					ops = append(ops, simkit.Op{K: "version"})
				case 6:
					ops = append(ops, simkit.Op{K: "lookup", A: int64(r.N(1000))})
				case 7:
					ops = append(ops, simkit.Op{K: "sleep", A: int64(r.I(1, 5000))})
				}
			}
			p.Threads = append(p.Threads, ops)
		}

		return p
	}
}

// --- C01: ring and membership agree ---

func init() {
	simkit.Register(&simkit.Scenario{Name: "ring", Gen: genMembership(5, 8, 7), Exec: execRing})
	simkit.Register(&simkit.Scenario{Name: "ring-disrupt", Gen: genDisrupt, Exec: execDisrupt})
}

func ringOpts(env *simkit.Env) []cluster.RingOption {
	return []cluster.RingOption{cluster.WithReplication(env.PI("rep")), cluster.WithVirtualNodes(env.PI("vn"))}
}

func execRing(env *simkit.Env) {
	ring := cluster.NewRing(ringOpts(env)...)
	m := cluster.NewMembership(ring)
	bad := make([]string, len(env.Plan.Threads))
	var mutations int
	env.Par(func(t int, ops []simkit.Op) {
		for _, op := range ops {
			switch op.K {
			case "upsert":
				n := cluster.NewNode(string(nid(op.A)), fmt.Sprintf("10.0.0.%d:9000", op.A))
				n.State = states[op.B%3]
				n.Incarnation = uint64(op.C)
				m.Upsert(n)
			case "remove":
				m.Remove(nid(op.A))
			case "mark":
				m.Mark(nid(op.A), states[op.B%3])
			case "refute":
				m.Refute(nid(op.A))
			case "sleep":
				time.Sleep(time.Duration(op.A) * time.Millisecond)
			case "lookup":
				if msg := shape(ring.Lookup(fmt.Sprintf("key-%d", op.A)), env.PI("rep"), -1); msg != "" && bad[t] == "" {
					bad[t] = msg
				}
			}
		}
	})
	for _, t := range env.Plan.Threads {
		for _, op := range t {
			if op.K == "upsert" || op.K == "remove" {
				mutations++
			}
		}
		env.Ops(len(t))
	}
	for _, b := range bad {
		if b != "" {
			env.Fail("lookup-shape", "%s (concurrent lookup)", b)
		}
	}
	if mutations >= 2 {
		env.Nontrivial()
	}
	// Quiescent: the ring must be the one the final member set determines.
	var live []*cluster.Node
	var ids []string
	for _, n := range m.List() {
		env.Observe(fmt.Sprint(n.ID, n.State, n.Incarnation))
		if n.State != cluster.NodeDead {
			live = append(live, n)
			ids = append(ids, string(n.ID))
		}
	}
	slices.Sort(ids)
	slices.SortFunc(live, func(a, b *cluster.Node) int { return -strings.Compare(string(a.ID), string(b.ID)) })
	env.Tracef("final live members: %v", ids)
	// A node that reached the same member set by another history.
	other := cluster.NewRing(ringOpts(env)...)
	om := cluster.NewMembership(other)
	om.Upsert(cluster.NewNode("someone-else", "10.0.1.1:1"))
	for _, n := range live {
		om.Upsert(n)
	}
	om.Remove("someone-else")
	hit := map[cluster.NodeID]int{}
	for k := range 300 {
		key := fmt.Sprintf("key-%d", k)
		got := ring.Lookup(key)
		if msg := shape(got, env.PI("rep"), len(live)); msg != "" {
			env.Fail("owner-count", "key %s: %s; live members %v", key, msg, ids)
		}
		for _, o := range got {
			if !slices.Contains(ids, string(o)) {
				env.Fail("ghost-owner", "key %s is owned by %s, which is not a live member: owners %v, live members %v", key, o, got, ids)
			}
		}
		want := other.Lookup(key)
		if !slices.Equal(got, want) {
			env.Fail("disagree", "key %s: owners %v here, %v on a node that reached the same members %v by another history", key, got, want, ids)
		}
		if len(got) > 0 {
			hit[got[0]]++
		}
	}
	if vn := env.P("vn"); (vn == 0 || vn >= 64) && len(live) > 0 && len(live) <= 7 {
		for _, id := range ids {
			if hit[cluster.NodeID(id)] == 0 {
				env.Fail("unbalanced", "live member %s is primary for none of 300 keys (members %v)", id, ids)
			}
		}
	}
}

func shape(owners []cluster.NodeID, rep, live int) string {
	seen := map[cluster.NodeID]bool{}
	for _, o := range owners {
		if seen[o] {
			return fmt.Sprintf("owner list %v repeats %s", owners, o)
		}
		seen[o] = true
	}
	if len(owners) > rep {
		return fmt.Sprintf("%d owners %v with replication %d", len(owners), owners, rep)
	}
	if live >= 0 && len(owners) != min(rep, live) {
		return fmt.Sprintf("%d owners %v, want min(replication %d, %d live members)", len(owners), owners, rep, live)
	}

	return ""
}

// --- C01b: membership changes move only the keys they must ---

func genDisrupt(r *simkit.Rand, tier string) *simkit.Plan {
	p := &simkit.Plan{P: map[string]int64{"rep": int64(r.I(1, 4)), "vn": simkit.Pick(r, int64(1), 2, 16, 64), "n": int64(r.I(1, 7))}}
	var ops []simkit.Op
	for range r.I(3, 12) {
		ops = append(ops, simkit.Op{K: simkit.Pick(r, "join", "leave", "die", "revive"), A: int64(r.N(9))})
	}
	p.Threads = [][]simkit.Op{ops}

	return p
}

func execDisrupt(env *simkit.Env) {
	ring := cluster.NewRing(ringOpts(env)...)
	m := cluster.NewMembership(ring)
	for i := range env.P("n") {
		m.Upsert(cluster.NewNode(string(nid(i)), fmt.Sprintf("10.0.0.%d:9000", i)))
	}
	snap := func() map[string][]cluster.NodeID {
		o := map[string][]cluster.NodeID{}
		for k := range 120 {
			key := fmt.Sprintf("key-%d", k)
			o[key] = ring.Lookup(key)
		}

		return o
	}
	before := snap()
	for _, op := range env.Plan.Threads[0] {
		id := nid(op.A)
		gone := false
		switch op.K {
		case "join":
			m.Upsert(cluster.NewNode(string(id), fmt.Sprintf("10.0.0.%d:9000", op.A)))
		case "leave":
			m.Remove(id)
			gone = true
		case "die":
			m.Mark(id, cluster.NodeDead)
			gone = true
		case "revive":
			m.Mark(id, cluster.NodeAlive)
		}
		after := snap()
		for _, key := range simkit.SortedKeys(before) {
			was, is := before[key], after[key]
			// Apart from the node that changed, relative order and presence of
			// owners must survive; only a replacement at the end may appear.
			a := without(was, id)
			b := without(is, id)
			n := min(len(a), len(b))
			if !slices.Equal(a[:n], b[:n]) {
				env.Fail("disruption", "%s of %s changed the owners of %s from %v to %v", op.K, id, key, was, is)
			}
			if gone && slices.Contains(is, id) {
				env.Fail("ghost-owner", "%s of %s left it an owner of %s: %v", op.K, id, key, is)
			}
		}
		before = after
		env.Ops(1)
		env.Nontrivial()
	}
	for _, k := range simkit.SortedKeys(before) {
		env.Observe(fmt.Sprint(before[k]))
	}
}

func without(o []cluster.NodeID, id cluster.NodeID) []cluster.NodeID {
	var r []cluster.NodeID
	for _, x := range o {
		if x != id {
			r = append(r, x)
		}
	}

	return r
}

// --- C02: membership is linearizable, versions and notifications exact ---

type mIn struct {
	op  simkit.Op
	now time.Duration
}

type note struct {
	id    cluster.NodeID
	state cluster.NodeState
	ver   uint64
}

type mOut struct {
	ok    bool
	notes []note
	list  string
	ver   uint64
}

type mNode struct {
	state cluster.NodeState
	inc   uint64
	seen  time.Duration
	addr  string
}

type mState struct {
	nodes [8]mNode
	has   [8]bool
	ver   uint64
}

func (s mState) list() string {
	var out []string
	for i, n := range s.nodes {
		if s.has[i] {
			out = append(out, fmt.Sprintf("%s=%v/%d/%s/%s", nid(int64(i)), n.state, n.inc, n.seen, n.addr))
		}
	}

	return strings.Join(out, " ")
}

var membershipModel = porcupine.Model{
	Init: func() any { return mState{} },
	Step: func(st, input, output any) (bool, any) {
		s := st.(mState)
		e := input.(simkit.Event)
		in, out := e.In.(mIn), e.Out.(mOut)
		i := int(in.op.A) % 8
		id := nid(int64(i))
		want := func(ok bool, changed bool, state cluster.NodeState) bool {
			if out.ok != ok {
				return false
			}
			if !changed {
				return len(out.notes) == 0
			}
			s.ver++

			return len(out.notes) == 1 && out.notes[0] == note{id, state, s.ver}
		}
		switch in.op.K {
		case "upsert":
			s.has[i] = true
			s.nodes[i] = mNode{states[in.op.B%3], uint64(in.op.C), in.now, fmt.Sprintf("10.0.%d.%d:9000", in.op.C, in.op.A)}

			return want(true, true, s.nodes[i].state), s
		case "remove":
			had := s.has[i]
			s.has[i] = false
			s.nodes[i] = mNode{}

			return want(had, had, cluster.NodeDead), s
		case "mark":
			if !s.has[i] {
				return want(false, false, 0), s
			}
			n := &s.nodes[i]
			n.seen = in.now
			if n.state == states[in.op.B%3] {
				return want(true, false, 0), s
			}
			n.inc++
			n.state = states[in.op.B%3]

			return want(true, true, n.state), s
		case "refute":
			if !s.has[i] {
				return want(false, false, 0), s
			}
			n := &s.nodes[i]
			n.seen, n.state = in.now, cluster.NodeAlive
			n.inc++

			return want(true, true, n.state), s
		case "list":
			return out.list == s.list(), s
		case "version":
			return out.ver == s.ver, s
		}

		return true, s
	},
	Equal:             func(a, b any) bool { return a.(mState) == b.(mState) },
	DescribeOperation: func(in, out any) string { return fmt.Sprint(in, out) },
}

func init() {
	simkit.Register(&simkit.Scenario{
		Name: "membership", Gen: genMembership(4, 7, 4), Exec: execMembership,
		After: func(env *simkit.Env) {
			evs := env.Data.([]simkit.Event)
			msg, ok := simkit.Linearizable(membershipModel, evs, 20*time.Second)
			if msg != "" {
				env.Fail("not-linearizable", "%s", msg)
			}
			if !ok {
				env.Inconclusive()
			}
		},
	})
}

func execMembership(env *simkit.Env) {
	ring := cluster.NewRing(ringOpts(env)...)
	m := cluster.NewMembership(ring)
	nt := len(env.Plan.Threads)
	rec := simkit.NewRec(nt)
	// Observers run on the goroutine that performed the mutation, so each
	// thread collects its own notifications.
	cur := map[uint64]*[]note{}
	bufs := make([][]note, nt)
	second := make([][]note, nt)
	cur2 := map[uint64]*[]note{}
	start := make(chan struct{})
	m.OnStateChange(func(id cluster.NodeID, st cluster.NodeState, v uint64) {
		if b := cur[simkit.GID()]; b != nil {
			*b = append(*b, note{id, st, v})
		}
	})
	m.OnStateChange(func(id cluster.NodeID, st cluster.NodeState, v uint64) {
		if b := cur2[simkit.GID()]; b != nil {
			*b = append(*b, note{id, st, v})
		}
	})
	reg := make(chan [2]any)
	done := make(chan struct{})
	for t, ops := range env.Plan.Threads {
		go func() {
			defer func() { done <- struct{}{} }()
			reg <- [2]any{simkit.GID(), t}
			<-start
			for _, op := range ops {
				if op.K == "sleep" {
					time.Sleep(time.Duration(op.A) * time.Millisecond)

					continue
				}
				if op.K == "lookup" {
					ring.Lookup(fmt.Sprintf("key-%d", op.A))

					continue
				}
				op.A %= 8
				rec.Do(t, op.K, mIn{op, env.Now()}, func() any {
					var out mOut
					bufs[t], second[t] = nil, nil
					switch op.K {
					case "upsert":
						n := cluster.NewNode(string(nid(op.A)), fmt.Sprintf("10.0.%d.%d:9000", op.C, op.A))
						n.State = states[op.B%3]
						n.Incarnation = uint64(op.C)
						m.Upsert(n)
						out.ok = true
					case "remove":
						out.ok = m.Remove(nid(op.A))
					case "mark":
						out.ok = m.Mark(nid(op.A), states[op.B%3])
					case "refute":
						out.ok = m.Refute(nid(op.A))
					case "list":
						out.list = listString(env, m.List())
					case "version":
						out.ver = m.Version()
					}
					out.notes = bufs[t]
					if !slices.Equal(bufs[t], second[t]) {
						env.Fail("observers-differ", "%s: the first observer saw %v, the second %v", op.K, bufs[t], second[t])
					}

					return out
				})
			}
		}()
	}
	for range nt {
		x := <-reg
		cur[x[0].(uint64)] = &bufs[x[1].(int)]
		cur2[x[0].(uint64)] = &second[x[1].(int)]
	}
	close(start)
	for range nt {
		<-done
	}
	// A final read pins the outcome; mutating what List returned must not
	// reach the membership.
	l := m.List()
	for _, n := range l {
		n.State = 77
		n.Incarnation += 1000
		n.Address = "changed"
	}
	rec.Do(0, "list", mIn{simkit.Op{K: "list"}, env.Now()}, func() any { return mOut{list: listString(env, m.List())} })
	rec.Do(0, "version", mIn{simkit.Op{K: "version"}, env.Now()}, func() any { return mOut{ver: m.Version()} })
	evs := rec.All()
	env.Data = evs
	env.Ops(len(evs))
	muts := 0
	for _, e := range evs {
		if len(e.Out.(mOut).notes) > 0 {
			muts++
		}
		env.Observe(fmt.Sprint(e.Op, e.Out))
	}
	if muts >= 2 {
		env.Nontrivial()
	}
}

func listString(env *simkit.Env, l []*cluster.Node) string {
	slices.SortFunc(l, func(a, b *cluster.Node) int { return strings.Compare(string(a.ID), string(b.ID)) })
	var out []string
	for _, n := range l {
		out = append(out, fmt.Sprintf("%s=%v/%d/%s/%s", n.ID, n.State, n.Incarnation, env.Since(n.LastSeen), n.Address))
	}

	return strings.Join(out, " ")
}
