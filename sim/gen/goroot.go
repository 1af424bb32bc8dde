package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

type edit struct{ old, new string }

// gorootPatches are the edits that put the toolchain's own sources of
// nondeterminism (goroutine order, preemption, randomness, dial and listen)
// behind the simulator. Each old text must occur exactly once.
var gorootPatches = map[string][]edit{
	"runtime/rand.go": {
		{"	seed := &globalRand.seed\n", "	seed := &globalRand.seed\n	startupRand = nil\n	for i := range seed {\n		seed[i] = byte(i*7 + 1)\n	}\n	if true {\n		goto seeded\n	}\n"},
		{"	globalRand.state.Init(*seed)\n", "seeded:\n	globalRand.state.Init(*seed)\n"},
		{"func rand() uint64 {\n", "func rand() uint64 {\n	if simRandOn() {\n		return simDraw(0)\n	}\n"},
		{"func maps_rand() uint64 {\n", "func maps_rand() uint64 {\n	if simRandOn() {\n		return simDraw(1)\n	}\n"},
		{"	mp.cheaprand = rand()\n", "	mp.cheaprand = bootstrapRand()\n"},
	},
	"runtime/select.go": {
		{"		j := cheaprandn(uint32(norder + 1))\n", "		var j uint32\n		if sim.on {\n			j = simRandn(uint32(norder + 1))\n		} else {\n			j = cheaprandn(uint32(norder + 1))\n		}\n"},
	},
	"runtime/time.go": {
		{"t.rand = cheaprand()\n", "t.rand = simTimerRand()\n"},
	},
	"runtime/proc.go": {
		{"const randomizeScheduler = raceenabled\n", "const randomizeScheduler = false\n"},
		{"	// Check the global runnable queue once in a while to ensure fairness.\n	// Otherwise two goroutines can completely occupy the local runqueue\n", "	if sim.on {\n		if gp := simFindRunnable(pp); gp != nil {\n			return gp, false, false\n		}\n	}\n\n	// Check the global runnable queue once in a while to ensure fairness.\n	// Otherwise two goroutines can completely occupy the local runqueue\n"},
		{"	if randomizeScheduler && next && randn(2) == 0 {\n", "	if sim.on && next && gp.bubble == nil {\n		// It must not change the order of the goroutines in the bubble.\n		next = false\n	}\n	if randomizeScheduler && next && randn(2) == 0 {\n"},
		{"func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n	if sim.on {\n		return 0\n	}\n"},
		{"func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n	if sim.on && !sched.gcwaiting.Load() {\n		return false\n	}\n"},
		{"		newg.bubble = callergp.bubble\n", "		newg.bubble = callergp.bubble\n		newg.simid = 0\n		newg.simprio = 1\n		if sim.on && newg.bubble != nil {\n			simNewG(newg)\n		}\n"},
	},
	"runtime/runtime2.go": {
		{"	bubble  *synctestBubble\n", "	bubble  *synctestBubble\n	simid   uint32\n	simprio uint64\n"},
		{"	waitReasonSynctestSelect:        true,\n}\n", "	waitReasonSynctestSelect:        true,\n	waitReasonSyncMutexLock:         true,\n	waitReasonSyncRWMutexRLock:      true,\n	waitReasonSyncRWMutexLock:       true,\n	waitReasonSyncWaitGroupWait:     true,\n	waitReasonSemacquire:            true,\n}\n"},
	},
	// A map of pointers is walked in an order their addresses decide. The
	// groups that ask for it have theirs cancelled in order of creation.
	"context/context.go": {
		{"type cancelCtx struct {\n", "// SimInOrder makes contexts cancel their children in the order they came.\nvar SimInOrder bool\n\nvar (\n	simMu    sync.Mutex\n	simSeq   uint64\n	simOrder map[canceler]uint64\n)\n\nfunc simInOrder(children map[canceler]struct{}) []canceler {\n	simMu.Lock()\n	defer simMu.Unlock()\n	var list []canceler\n	for child := range children {\n		i := len(list)\n		list = append(list, child)\n		for ; i > 0 && simOrder[list[i-1]] > simOrder[child]; i-- {\n			list[i] = list[i-1]\n		}\n		list[i] = child\n	}\n	for _, child := range list {\n		delete(simOrder, child)\n	}\n	return list\n}\n\ntype cancelCtx struct {\n"},
		{"			p.children[child] = struct{}{}\n", "			p.children[child] = struct{}{}\n			if SimInOrder {\n				simMu.Lock()\n				simSeq++\n				if simOrder == nil {\n					simOrder = map[canceler]uint64{}\n				}\n				simOrder[child] = simSeq\n				simMu.Unlock()\n			}\n"},
		{"	for child := range c.children {\n", "	if SimInOrder {\n		for _, child := range simInOrder(c.children) {\n			child.cancel(false, err, cause)\n		}\n		c.children = nil\n	}\n	for child := range c.children {\n"},
		{"		delete(p.children, child)\n", "		delete(p.children, child)\n		if SimInOrder {\n			simMu.Lock()\n			delete(simOrder, child)\n			simMu.Unlock()\n		}\n"},
	},
	"runtime/debug.go": {
		{"	return int(numCPUStartup)\n", "	if sim.on {\n		return 3\n	}\n	return int(numCPUStartup)\n"},
	},
	"runtime/sema.go": {
		{"func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n	if gp := getg(); gp.bubble != nil {\n		return gp.bubble.now\n	}\n"},
	},
	"crypto/internal/sysrand/rand.go": {
		{"func Read(b []byte) {\n", "func Read(b []byte) {\n	if runtime.SimOn() {\n		for i := range b {\n			b[i] = byte(runtime.SimRand() >> 32)\n		}\n		return\n	}\n"},
		{"	\"os\"\n", "	\"os\"\n	\"runtime\"\n"},
	},
	"os/proc.go": {
		{"func Exit(code int) {\n", "// SimExit, when set, ends a simulated process.\nvar SimExit func(code int)\n\nfunc Exit(code int) {\n	if SimExit != nil {\n		SimExit(code)\n	}\n"},
	},
	"os/signal/signal.go": {
		{"func Notify(c chan<- os.Signal, sig ...os.Signal) {\n", "// SimNotify, when set, replaces the delivery of signals.\nvar SimNotify func(c chan<- os.Signal, sig []os.Signal)\n\nfunc Notify(c chan<- os.Signal, sig ...os.Signal) {\n	if SimNotify != nil {\n		SimNotify(c, sig)\n		return\n	}\n"},
		{"func Stop(c chan<- os.Signal) {\n", "func Stop(c chan<- os.Signal) {\n	if SimNotify != nil {\n		return\n	}\n"},
	},
	"net/dial.go": {
		{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if SimDial != nil {\n		return SimDial(ctx, network, address)\n	}\n"},
		{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if SimListen != nil {\n		return SimListen(ctx, network, address)\n	}\n"},
		{"type Dialer struct {\n", "// SimDial and SimListen, when set, replace the operating system's network.\nvar (\n	SimDial   func(ctx context.Context, network, address string) (Conn, error)\n	SimListen func(ctx context.Context, network, address string) (Listener, error)\n)\n\ntype Dialer struct {\n"},
	},
}

func patchGoroot(goroot, genDir, out string, ov map[string]string) error {
	for rel, edits := range gorootPatches {
		src := filepath.Join(goroot, "src", rel)
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		s := string(b)
		for _, e := range edits {
			if n := strings.Count(s, e.old); n != 1 {
				return fmt.Errorf("%s: patch anchor occurs %d times: %q", rel, n, e.old)
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		dst := filepath.Join(out, "goroot", rel)
		if err := writeFile(dst, []byte(s)); err != nil {
			return err
		}
		ov[src] = dst
	}
	ov[filepath.Join(goroot, "src/runtime/zsim.go")] = filepath.Join(genDir, "sim_runtime.go.txt")

	return nil
}

func writeFile(name string, b []byte) error {
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		return err
	}

	return os.WriteFile(name, b, 0o644)
}
