package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/ugorji/go/codec"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/zzsim/simkit"
)

type hyper = hypercache.HyperCache[backend.InMemory]

const forever = int64(math.MaxInt64)

var algos = []string{"lru", "lfu", "clock", "cawolfu"}

func key(n int64) string { return "key-" + strconv.FormatInt(n, 10) }

// newCache's configuration is read from the plan's parameters.
func newCache(env *simkit.Env, more ...hypercache.Option[backend.InMemory]) (*hyper, error) {
	return newCacheCtx(context.Background(), env, more...)
}

func newCacheCtx(ctx context.Context, env *simkit.Env, more ...hypercache.Option[backend.InMemory]) (*hyper, error) {
	cfg, err := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
	if err != nil {
		return nil, err
	}
	ms := func(n string) time.Duration { return time.Duration(env.P(n)) * time.Millisecond }
	opts := []hypercache.Option[backend.InMemory]{
		hypercache.WithEvictionAlgorithm[backend.InMemory](algos[env.P("algo")%int64(len(algos))]),
		hypercache.WithEvictionInterval[backend.InMemory](ms("evict_ms")),
		hypercache.WithExpirationInterval[backend.InMemory](ms("expire_ms")),
	}
	if s := env.PI("shards"); s > 0 {
		opts = append(opts, hypercache.WithEvictionShardCount[backend.InMemory](s))
	}
	if m := env.P("max_evict"); m > 0 {
		opts = append(opts, hypercache.WithMaxEvictionCount[backend.InMemory](uint(m)))
	}
	if m := env.P("max_size"); m > 0 {
		opts = append(opts, hypercache.WithMaxCacheSize[backend.InMemory](m))
	}
	if m := env.P("debounce_ms"); m > 0 {
		opts = append(opts, hypercache.WithExpirationTriggerDebounce[backend.InMemory](ms("debounce_ms")))
	}
	if m := env.P("trigger_buf"); m > 0 {
		opts = append(opts, hypercache.WithExpirationTriggerBuffer[backend.InMemory](int(m)))
	}
	cfg.HyperCacheOptions = append(opts, more...)
	cfg.InMemoryOptions = []backend.Option[backend.InMemory]{backend.WithCapacity[backend.InMemory](env.PI("cap"))}

	return hypercache.New(ctx, hypercache.GetDefaultManager(), cfg)
}

// Values carry the key they were written under and a unique number, in one of
// the shapes the cache sizes differently.
type rec struct {
	K   string
	N   int64
	Pad []byte
}

type sized struct {
	k string
	n int64
	s int
}

func (s sized) SizeBytes() int { return s.s }

func makeVal(k string, n, shape, pad int64) any {
	switch shape % 4 {
	case 0:
		return k + "|" + strconv.FormatInt(n, 10) + "|" + strings.Repeat("x", int(pad))
	case 1:
		return []byte(k + "|" + strconv.FormatInt(n, 10) + "|" + strings.Repeat("y", int(pad)))
	case 2:
		return rec{k, n, make([]byte, pad)}
	default:
		return sized{k, n, int(pad) + 1}
	}
}

func parse(s string) (string, int64) {
	p := strings.SplitN(s, "|", 3)
	if len(p) < 2 {
		return "?" + s, -1
	}
	n, err := strconv.ParseInt(p[1], 10, 64)
	if err != nil {
		return "?" + s, -1
	}

	return p[0], n
}

// readVal returns the key and number a value was made with.
func readVal(v any) (string, int64) {
	switch x := v.(type) {
	case string:
		return parse(x)
	case []byte:
		return parse(string(x))
	case rec:
		return x.K, x.N
	case sized:
		return x.k, x.n
	}

	return fmt.Sprintf("?%T", v), -1
}

// trueSize is what a value weighs, by the documented rules.
func trueSize(v any) int64 {
	switch x := v.(type) {
	case string:
		return int64(len(x))
	case []byte:
		return int64(len(x))
	case sized:
		return int64(x.s)
	}
	var b []byte
	if err := codec.NewEncoderBytes(&b, &codec.CborHandle{}).Encode(v); err != nil {
		return -1
	}

	return int64(len(b))
}

// kvIn and kvOut are per-key history entries: one cell that is written, read,
// removed and, where the configuration allows it, lost.
type kvIn struct {
	Op  string
	Key string
	Val int64
}

type kvOut struct {
	OK  bool
	Val int64
}

func kvModel(lossy bool) porcupine.Model {
	return porcupine.Model{
		Init: func() any { return int64(0) },
		Step: func(state, in, out any) (bool, any) {
			cur := state.(int64)
			e := in.(simkit.Event)
			i, o := e.In.(kvIn), out.(kvOut)
			switch i.Op {
			case "set":
				return true, i.Val
			case "remove":
				return true, int64(0)
			case "get":
				if o.OK {
					return cur == o.Val, cur
				}

				return cur == 0 || lossy, int64(0)
			case "has":
				if o.OK {
					return cur != 0, cur
				}

				return cur == 0 || lossy, int64(0)
			}

			return false, cur
		},
		Equal: func(a, b any) bool { return a.(int64) == b.(int64) },
		DescribeOperation: func(in, out any) string {
			return fmt.Sprint(in, out)
		},
	}
}

// history collects per-key events without synchronising the threads.
type history struct{ th [][]simkit.Event }

func newHistory(n int) *history { return &history{th: make([][]simkit.Event, n)} }

func (h *history) add(t int, op, k string, val int64, ok bool, out, call, ret int64) {
	h.th[t] = append(h.th[t], simkit.Event{
		Thread: t, Op: op, In: kvIn{op, k, val}, Out: kvOut{ok, out}, Call: call, Ret: ret,
	})
}

// check decides every key's history.
func (h *history) check(env *simkit.Env, class string, lossy bool) {
	byKey := map[string][]simkit.Event{}
	var all []simkit.Event
	for _, t := range h.th {
		all = append(all, t...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].Call < all[j].Call })
	for _, e := range all {
		k := e.In.(kvIn).Key
		byKey[k] = append(byKey[k], e)
	}
	for _, k := range simkit.SortedKeys(byKey) {
		evs := byKey[k]
		msg, decided := simkit.Linearizable(kvModel(lossy), evs, 5*time.Second)
		if !decided {
			env.Inconclusive()

			continue
		}
		if msg != "" {
			env.Fail(class, "key %s: %s", k, msg)
		}
	}
}

// itemOK checks that an item handed out belongs to the key it was asked for.
func itemOK(env *simkit.Env, k string, it *cache.Item) {
	vk, _ := readVal(it.Value)
	if it.Key != k || vk != k {
		env.Fail("wrong-item", "asked for %s, got an item of key %q holding a value written under %q", k, it.Key, vk)
	}
	if want := trueSize(it.Value); it.Size != want {
		env.Fail("wrong-size", "item %s reports size %d, its value weighs %d", k, it.Size, want)
	}
}
