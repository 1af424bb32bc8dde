// Command orch decides one property: it builds the simulator from the current
// working tree of the module under test, searches seeds across worker
// processes, confirms and minimises what fails, and writes the evidence file.
package main

import (
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type config struct {
	verif, repo, goroot string
	prop                string
	seed                uint64
	tier                string
	replay              string
	work                string
	jobs                int
	keep                bool
	only                string
	scale               float64
}

func main() {
	var c config
	flag.StringVar(&c.verif, "verif", "/verif", "verification tree")
	flag.StringVar(&c.repo, "repo", "/repo", "module under test")
	flag.StringVar(&c.goroot, "goroot", "/opt/veriftools/go1.26.10", "Go toolchain")
	flag.StringVar(&c.prop, "prop", "", "property id")
	flag.StringVar(&c.replay, "replay", "", "replay file")
	flag.StringVar(&c.only, "only", "", "run only this scenario")
	flag.IntVar(&c.jobs, "jobs", 8, "worker processes")
	flag.BoolVar(&c.keep, "keep", false, "keep the work directory")
	flag.Float64Var(&c.scale, "scale", 1, "multiply run counts")
	flag.Parse()
	moduleDir = strings.TrimSuffix(c.repo, "/") + "/"
	c.seed = 1
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.seed = s
	}
	c.tier = "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		c.tier = "thorough"
	}
	code := run(&c)
	if c.work != "" && !c.keep {
		os.RemoveAll(c.work)
	}
	os.Exit(code)
}

func harnessError(format string, args ...any) int {
	fmt.Printf("HARNESS-ERROR: "+format+"\n", args...)

	return 3
}

func run(c *config) int {
	start := time.Now()
	work, err := os.MkdirTemp("", "hcsim-")
	if err != nil {
		return harnessError("%v", err)
	}
	c.work = work
	if c.replay != "" {
		return runReplay(c)
	}
	p := props[c.prop]
	if p == nil {
		return harnessError("unknown property %q", c.prop)
	}
	b, err := buildAll(c, p)
	if err != nil {
		return harnessError("build: %v", err)
	}
	fmt.Printf("built %s in %.1fs (instrumentation level %d)\n", p.Group, time.Since(start).Seconds(), b.level)

	return explore(c, p, b, start)
}

type build struct {
	level    int
	plain    string
	race     string
	buildSec float64
}

func (b *build) bin(race bool) string {
	if race {
		return b.race
	}

	return b.plain
}

func buildAll(c *config, p *propDef) (*build, error) {
	race := false
	for _, bt := range p.Batches {
		race = race || bt.Race
	}

	return buildGroup(c, p.Group, true, race)
}

func goEnv(c *config) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		if strings.HasPrefix(k, "GO") || k == "CGO_ENABLED" || k == "PATH" {
			continue
		}
		env = append(env, e)
	}
	gocache := os.Getenv("GOCACHE")
	if gocache == "" {
		gocache = "/root/.cache/go-build"
	}

	return append(env,
		"PATH="+c.goroot+"/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off",
		"GOPATH=/root/go", "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOCACHE="+gocache, "GOWORK=off",
		"GOEXPERIMENT=norandomizedheapbase64", "CGO_ENABLED=1")
}

func buildGroup(c *config, group string, plain, race bool) (*build, error) {
	t0 := time.Now()
	sim := filepath.Join(c.verif, "sim")
	gen := filepath.Join(c.work, "gen")
	cmd := exec.Command(filepath.Join(c.goroot, "bin/go"), "build", "-o", gen, ".")
	cmd.Dir = filepath.Join(sim, "gen")
	cmd.Env = append(goEnv(c), "GOEXPERIMENT=")
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("gen: %v\n%s", err, out)
	}
	var firstErr error
	for _, level := range []int{2, 1, 0} {
		out := filepath.Join(c.work, fmt.Sprintf("o%d", level))
		cmd := exec.Command(gen, "-goroot", c.goroot, "-repo", c.repo, "-sim", sim, "-out", out, "-level", strconv.Itoa(level))
		if o, err := cmd.CombinedOutput(); err != nil {
			if firstErr == nil {
				firstErr = fmt.Errorf("gen level %d: %v\n%s", level, err, o)
			}

			continue
		}
		b := &build{level: level}
		type res struct {
			err error
			out []byte
		}
		ch := make(chan res, 2)
		n := 0
		start := func(race bool) string {
			bin := filepath.Join(c.work, fmt.Sprintf("%s-%v-%d", group, race, level))
			args := []string{"build"}
			if race {
				args = append(args, "-race")
			}
			args = append(args, "-overlay", filepath.Join(out, "overlay.json"), "-modfile", filepath.Join(out, "go.mod"),
				"-ldflags=-checklinkname=0", "-o", bin, "./zzsim/"+group)
			n++
			go func() {
				cmd := exec.Command(filepath.Join(c.goroot, "bin/go"), args...)
				cmd.Dir = c.repo
				cmd.Env = goEnv(c)
				o, err := cmd.CombinedOutput()
				ch <- res{err, o}
			}()

			return bin
		}
		if plain {
			b.plain = start(false)
		}
		if race {
			b.race = start(true)
		}
		var err error
		for range n {
			r := <-ch
			if r.err != nil && err == nil {
				o := string(r.out)
				if len(o) > 3000 {
					o = o[:3000]
				}
				err = fmt.Errorf("level %d: %v\n%s", level, r.err, o)
			}
		}
		if err == nil {
			b.buildSec = time.Since(t0).Seconds()

			return b, nil
		}
		if firstErr == nil {
			firstErr = err
		}
	}

	return nil, firstErr
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)

	return ks
}
