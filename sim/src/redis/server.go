package main

import (
	"bufio"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/zzsim/simkit"
	"github.com/hyp3rd/hypercache/zzsim/simnet"
)

// A model of a Redis server: the commands a cache uses, executed one at a time,
// with millisecond lifetimes on the virtual clock. Several of them form a
// cluster that splits the hash slots. The data survives broken connections.

type entry struct {
	hash map[string]string
	set  map[string]bool
	dead time.Duration // virtual time it expires at; 0: never
	ver  int64
}

type farm struct {
	env     *simkit.Env
	net     *simnet.Net
	nodes   []*node
	cluster bool
	resp3   bool
	wg      sync.WaitGroup
	closed  chan struct{}
}

type node struct {
	f      *farm
	id     int
	addr   string
	lo, hi int // slots
	mu     sync.Mutex
	db     map[string]*entry
	ver    int64
	l      *simnet.Listener
}

const slots = 16384

func newFarm(env *simkit.Env, n *simnet.Net, count int, cluster, resp3 bool) *farm {
	f := &farm{env: env, net: n, cluster: cluster, resp3: resp3, closed: make(chan struct{})}
	for i := range count {
		nd := &node{f: f, id: i, addr: fmt.Sprintf("10.9.0.%d:6379", i+1), lo: i * slots / count, hi: (i+1)*slots/count - 1, db: map[string]*entry{}}
		l, err := n.Listen(nd.addr)
		if err != nil {
			env.Fail("setup", "listen: %v", err)
		}
		nd.l = l
		f.nodes = append(f.nodes, nd)
		f.wg.Add(1)
		go nd.accept()
	}

	return f
}

func (f *farm) addrs() []string {
	var as []string
	for _, n := range f.nodes {
		as = append(as, n.addr)
	}

	return as
}

func (f *farm) close() {
	for _, n := range f.nodes {
		_ = n.l.Close()
	}
	f.net.CloseAll()
	f.wg.Wait()
}

func (n *node) accept() {
	defer n.f.wg.Done()
	for {
		c, err := n.l.Accept()
		if err != nil {
			return
		}
		n.f.wg.Add(1)
		go func() {
			defer n.f.wg.Done()
			defer c.Close()
			(&session{n: n, r: bufio.NewReader(c), w: bufio.NewWriter(c), proto: 2}).run()
		}()
	}
}

type session struct {
	n      *node
	r      *bufio.Reader
	w      *bufio.Writer
	proto  int
	multi  bool
	queued [][]string
	dirty  bool             // a queued command was refused
	watch  map[string]int64 // versions
	asked  int
}

// run serves one connection. A fault may cut it before or after any command.
func (s *session) run() {
	env := s.n.f.env
	for {
		if s.r.Buffered() == 0 && s.w.Flush() != nil {
			return
		}
		cmd, err := readCommand(s.r)
		if err != nil {
			return
		}
		s.asked++
		if hit, v := env.Fault("redis-stall", s.n.addr); hit {
			time.Sleep(time.Duration(v%200) * time.Millisecond)
		}
		if hit, _ := env.Fault("redis-cut-before", s.n.addr); hit {
			return
		}
		name := strings.ToUpper(cmd[0])
		s.do(name, cmd)
		if hit, _ := env.Fault("redis-cut-after", s.n.addr); hit {
			return
		}
	}
}

func readCommand(r *bufio.Reader) ([]string, error) {
	n, err := readLen(r, '*')
	if err != nil {
		return nil, err
	}
	cmd := make([]string, 0, n)
	for range n {
		l, err := readLen(r, '$')
		if err != nil {
			return nil, err
		}
		b := make([]byte, l+2)
		if _, err = io.ReadFull(r, b); err != nil {
			return nil, err
		}
		cmd = append(cmd, string(b[:l]))
	}
	if n == 0 {
		return nil, io.ErrUnexpectedEOF
	}

	return cmd, nil
}

func readLen(r *bufio.Reader, kind byte) (int, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return 0, err
	}
	if line[0] != kind {
		return 0, fmt.Errorf("protocol: %q", line)
	}

	return strconv.Atoi(strings.TrimSpace(line[1:]))
}

func (s *session) simple(v string) { s.w.WriteString("+" + v + "\r\n") }
func (s *session) err(v string)    { s.w.WriteString("-" + v + "\r\n") }
func (s *session) num(v int)       { s.w.WriteString(":" + strconv.Itoa(v) + "\r\n") }
func (s *session) bulk(v string)   { s.w.WriteString("$" + strconv.Itoa(len(v)) + "\r\n" + v + "\r\n") }
func (s *session) array(n int)     { s.w.WriteString("*" + strconv.Itoa(n) + "\r\n") }

func (s *session) null() {
	if s.proto == 3 {
		s.w.WriteString("_\r\n")
	} else {
		s.w.WriteString("$-1\r\n")
	}
}

func (s *session) nullArray() {
	if s.proto == 3 {
		s.w.WriteString("_\r\n")
	} else {
		s.w.WriteString("*-1\r\n")
	}
}

func (s *session) pairs(n int) {
	if s.proto == 3 {
		s.w.WriteString("%" + strconv.Itoa(n) + "\r\n")
	} else {
		s.array(2 * n)
	}
}

func (s *session) members(n int) {
	if s.proto == 3 {
		s.w.WriteString("~" + strconv.Itoa(n) + "\r\n")
	} else {
		s.array(n)
	}
}

var arity = map[string]int{ // minimum number of words; keys from word 1
	"HSET": 4, "HGET": 3, "HGETALL": 2, "HDEL": 3, "HEXISTS": 3, "SADD": 3, "SREM": 3, "SMEMBERS": 2, "SISMEMBER": 3, "SCARD": 2,
	"EXPIRE": 3, "PEXPIRE": 3, "PERSIST": 2, "PTTL": 2, "TTL": 2, "DEL": 2, "UNLINK": 2, "EXISTS": 2, "TYPE": 2,
	"DBSIZE": 1, "FLUSHDB": 1, "PING": 1, "WATCH": 2, "PEXPIREAT": 3, "SMISMEMBER": 3,
}

func keysOf(name string, cmd []string) []string {
	switch name {
	case "DBSIZE", "FLUSHDB", "PING":
		return nil
	case "DEL", "UNLINK", "EXISTS", "WATCH":
		return cmd[1:]
	}

	return cmd[1:2]
}

func (s *session) do(name string, cmd []string) {
	env, n := s.n.f.env, s.n
	switch name {
	case "HELLO":
		if !n.f.resp3 {
			s.err("ERR unknown command 'HELLO'")

			return
		}
		s.proto = 3
		s.pairs(3)
		s.bulk("server")
		s.bulk("redis")
		s.bulk("version")
		s.bulk("7.4.0")
		s.bulk("proto")
		s.num(3)

		return
	case "CLIENT":
		if len(cmd) > 1 && strings.EqualFold(cmd[1], "SETINFO") {
			s.simple("OK")
		} else {
			s.err("ERR unknown subcommand")
		}

		return
	case "AUTH", "SELECT", "READONLY", "READWRITE":
		s.simple("OK")

		return
	case "QUIT":
		s.simple("OK")

		return
	case "COMMAND":
		s.err("ERR unknown command 'COMMAND'")

		return
	case "CLUSTER":
		s.clusterSlots(cmd)

		return
	case "MULTI":
		s.multi, s.queued, s.dirty = true, nil, false
		s.simple("OK")

		return
	case "DISCARD":
		s.multi, s.queued, s.watch = false, nil, nil
		s.simple("OK")

		return
	case "UNWATCH":
		s.watch = nil
		s.simple("OK")

		return
	case "EXEC":
		s.exec()

		return
	}
	if a, ok := arity[name]; !ok || len(cmd) < a {
		s.refuse("ERR unknown command or wrong number of arguments for '" + name + "'")

		return
	}
	if why := n.owns(keysOf(name, cmd)); why != "" {
		s.refuse(why)

		return
	}
	if hit, v := env.Fault("redis-refuse", n.addr); hit {
		s.refuse([]string{
			"LOADING Redis is loading the dataset in memory", "OOM command not allowed when used memory > 'maxmemory'.", "ERR internal", "READONLY You can't write against a read only replica.",
		}[v%4])

		return
	}
	if s.multi {
		s.queued = append(s.queued, cmd)
		s.simple("QUEUED")

		return
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if name == "WATCH" {
		if s.watch == nil {
			s.watch = map[string]int64{}
		}
		for _, k := range cmd[1:] {
			s.watch[k] = n.version(k)
		}
		s.simple("OK")

		return
	}
	s.apply(name, cmd)
}

func (s *session) refuse(why string) {
	s.dirty = s.dirty || s.multi
	s.err(why)
}

func (s *session) exec() {
	if !s.multi {
		s.err("ERR EXEC without MULTI")

		return
	}
	q, watch, dirty := s.queued, s.watch, s.dirty
	s.multi, s.queued, s.watch, s.dirty = false, nil, nil, false
	if dirty {
		s.err("EXECABORT Transaction discarded because of previous errors.")

		return
	}
	n := s.n
	n.mu.Lock()
	defer n.mu.Unlock()
	for k, v := range watch {
		if n.version(k) != v {
			s.nullArray()

			return
		}
	}
	s.array(len(q))
	for _, cmd := range q {
		s.apply(strings.ToUpper(cmd[0]), cmd)
	}
}

func (s *session) clusterSlots(cmd []string) {
	if !s.n.f.cluster || len(cmd) < 2 || !strings.EqualFold(cmd[1], "SLOTS") {
		s.err("ERR This instance has cluster support disabled")

		return
	}
	s.array(len(s.n.f.nodes))
	for _, n := range s.n.f.nodes {
		host, port, _ := strings.Cut(n.addr, ":")
		s.array(3)
		s.num(n.lo)
		s.num(n.hi)
		s.array(3)
		s.bulk(host)
		p, _ := strconv.Atoi(port)
		s.num(p)
		s.bulk(fmt.Sprintf("node%d", n.id))
	}
}

// owns says why the node does not serve these keys.
func (n *node) owns(keys []string) string {
	if !n.f.cluster || len(keys) == 0 {
		return ""
	}
	slot := slotOf(keys[0])
	for _, k := range keys[1:] {
		if slotOf(k) != slot {
			return "CROSSSLOT Keys in request don't hash to the same slot"
		}
	}
	if slot < n.lo || slot > n.hi {
		for _, o := range n.f.nodes {
			if slot >= o.lo && slot <= o.hi {
				return fmt.Sprintf("MOVED %d %s", slot, o.addr)
			}
		}
	}

	return ""
}

func slotOf(k string) int {
	if i := strings.IndexByte(k, '{'); i >= 0 {
		if j := strings.IndexByte(k[i+1:], '}'); j > 0 {
			k = k[i+1 : i+1+j]
		}
	}
	var crc uint16
	for i := range len(k) {
		crc ^= uint16(k[i]) << 8
		for range 8 {
			if crc&0x8000 != 0 {
				crc = crc<<1 ^ 0x1021
			} else {
				crc <<= 1
			}
		}
	}

	return int(crc) % slots
}

func (n *node) get(k string) *entry {
	e := n.db[k]
	if e != nil && e.dead > 0 && n.f.env.Now() >= e.dead {
		delete(n.db, k)

		return nil
	}

	return e
}

func (n *node) version(k string) int64 {
	if e := n.get(k); e != nil {
		return e.ver
	}

	return 0
}

func (n *node) sweep() {
	for _, k := range simkit.SortedKeys(n.db) {
		n.get(k)
	}
}

const wrongType = "WRONGTYPE Operation against a key holding the wrong kind of value"

func (s *session) apply(name string, cmd []string) {
	n := s.n
	var e *entry
	if len(cmd) > 1 {
		e = n.get(cmd[1])
	}
	touch := func() {
		n.ver++
		e.ver = n.ver
	}
	switch name {
	case "PING":
		s.simple("PONG")
	case "DBSIZE":
		n.sweep()
		s.num(len(n.db))
	case "FLUSHDB":
		clear(n.db)
		s.simple("OK")
	case "TYPE":
		switch {
		case e == nil:
			s.simple("none")
		case e.set != nil:
			s.simple("set")
		default:
			s.simple("hash")
		}
	case "DEL", "UNLINK":
		c := 0
		for _, k := range cmd[1:] {
			if n.get(k) != nil {
				delete(n.db, k)
				c++
			}
		}
		s.num(c)
	case "EXISTS":
		c := 0
		for _, k := range cmd[1:] {
			if n.get(k) != nil {
				c++
			}
		}
		s.num(c)
	case "EXPIRE", "PEXPIRE":
		d, err := strconv.ParseInt(cmd[2], 10, 64)
		unit := time.Second
		if name == "PEXPIRE" {
			unit = time.Millisecond
		}
		switch {
		case err != nil:
			s.err("ERR value is not an integer or out of range")
		case e == nil:
			s.num(0)
		case d <= 0:
			delete(n.db, cmd[1])
			s.num(1)
		default:
			now := n.f.env.Now().Truncate(time.Millisecond)
			e.dead = now + time.Duration(d)*unit
			touch()
			s.num(1)
		}
	case "PERSIST":
		if e == nil || e.dead == 0 {
			s.num(0)
		} else {
			e.dead = 0
			touch()
			s.num(1)
		}
	case "TTL", "PTTL":
		switch {
		case e == nil:
			s.num(-2)
		case e.dead == 0:
			s.num(-1)
		case name == "TTL":
			s.num(int((e.dead - n.f.env.Now() + 500*time.Millisecond) / time.Second))
		default:
			s.num(int((e.dead - n.f.env.Now()) / time.Millisecond))
		}
	case "HSET":
		if e == nil {
			e = &entry{hash: map[string]string{}}
			n.db[cmd[1]] = e
		}
		if e.hash == nil {
			s.err(wrongType)

			return
		}
		c := 0
		for i := 2; i+1 < len(cmd); i += 2 {
			if _, ok := e.hash[cmd[i]]; !ok {
				c++
			}
			e.hash[cmd[i]] = cmd[i+1]
		}
		touch()
		s.num(c)
	case "HGET", "HEXISTS":
		switch {
		case e != nil && e.hash == nil:
			s.err(wrongType)
		case name == "HEXISTS":
			c := 0
			if e != nil {
				if _, ok := e.hash[cmd[2]]; ok {
					c = 1
				}
			}
			s.num(c)
		case e == nil:
			s.null()
		default:
			if v, ok := e.hash[cmd[2]]; ok {
				s.bulk(v)
			} else {
				s.null()
			}
		}
	case "HGETALL":
		if e == nil {
			s.pairs(0)

			return
		}
		if e.hash == nil {
			s.err(wrongType)

			return
		}
		s.pairs(len(e.hash))
		for _, k := range simkit.SortedKeys(e.hash) {
			s.bulk(k)
			s.bulk(e.hash[k])
		}
	case "SADD":
		if e == nil {
			e = &entry{set: map[string]bool{}}
			n.db[cmd[1]] = e
		}
		if e.set == nil {
			s.err(wrongType)

			return
		}
		c := 0
		for _, m := range cmd[2:] {
			if !e.set[m] {
				e.set[m] = true
				c++
			}
		}
		touch()
		s.num(c)
	case "SREM":
		if e != nil && e.set == nil {
			s.err(wrongType)

			return
		}
		c := 0
		for _, m := range cmd[2:] {
			if e != nil && e.set[m] {
				delete(e.set, m)
				c++
			}
		}
		if e != nil {
			touch()
			if len(e.set) == 0 {
				delete(n.db, cmd[1])
			}
		}
		s.num(c)
	case "SISMEMBER", "SMISMEMBER", "SCARD", "SMEMBERS":
		if e != nil && e.set == nil {
			s.err(wrongType)

			return
		}
		has := func(m string) int {
			if e != nil && e.set[m] {
				return 1
			}

			return 0
		}
		switch name {
		case "SISMEMBER":
			s.num(has(cmd[2]))
		case "SMISMEMBER":
			s.array(len(cmd) - 2)
			for _, m := range cmd[2:] {
				s.num(has(m))
			}
		case "SCARD":
			if e == nil {
				s.num(0)
			} else {
				s.num(len(e.set))
			}
		default:
			var ms []string
			if e != nil {
				for m := range e.set {
					ms = append(ms, m)
				}
			}
			sort.Strings(ms)
			s.members(len(ms))
			for _, m := range ms {
				s.bulk(m)
			}
		}
	default:
		s.err("ERR unknown command '" + name + "'")
	}
}

// keys lists what the servers hold, for a failure's report.
func (f *farm) keys() string {
	var out []string
	for _, n := range f.nodes {
		n.mu.Lock()
		n.sweep()
		for _, k := range simkit.SortedKeys(n.db) {
			e := n.db[k]
			if e.set != nil {
				out = append(out, k+"="+strings.Join(simkit.SortedKeys(e.set), "+"))
			} else {
				out = append(out, fmt.Sprintf("%s(dead %v)", k, e.dead))
			}
		}
		n.mu.Unlock()
	}

	return strings.Join(out, " ")
}
