// Command gen writes the build overlay of the simulator: patched toolchain
// files, instrumented copies of the packages under test, and the harness
// packages mapped into the module tree.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"slices"
	"strings"
)

func main() {
	goroot := flag.String("goroot", "", "GOROOT to overlay")
	repo := flag.String("repo", "/repo", "module under test")
	sim := flag.String("sim", "", "directory of the simulator (holds gen, src, stubs)")
	out := flag.String("out", "", "output directory")
	level := flag.Int("level", 2, "instrumentation: 0 none, 1 statements, 2 also inside statements")
	flag.Parse()

	if err := run(*goroot, *repo, *sim, *out, *level); err != nil {
		fmt.Fprintln(os.Stderr, "gen:", err)
		os.Exit(3)
	}
}

func run(goroot, repo, sim, out string, level int) error {
	ov := map[string]string{}
	if err := patchGoroot(goroot, filepath.Join(sim, "gen"), out, ov); err != nil {
		return err
	}
	// Harness packages appear under <repo>/zzsim/...
	src := filepath.Join(sim, "src")
	err := filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if strings.HasPrefix(rel, "inpkg/") { // files added to existing packages
			ov[filepath.Join(repo, strings.TrimPrefix(rel, "inpkg/"))] = p
			return nil
		}
		ov[filepath.Join(repo, "zzsim", rel)] = p
		return nil
	})
	if err != nil {
		return err
	}
	if level > 0 {
		if err := instrumentTree(repo, out, level, ov); err != nil {
			return err
		}
	}
	if err := importable(repo, "cmd/hypercache-server", "node", out, ov); err != nil {
		return err
	}
	// go.mod with the stand-in for the module missing from the cache.
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	extra := "\nreplace github.com/hyp3rd/sectools => " + filepath.Join(sim, "stubs/sectools") + "\n\nrequire github.com/anishathalye/porcupine " + porcupineVersion + "\n"
	if err := writeFile(filepath.Join(out, "go.mod"), append(mod, extra...)); err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return err
	}
	pre, _ := os.ReadFile("/opt/veriftools/go.sum.prefetched")
	if err := writeFile(filepath.Join(out, "go.sum"), append(append(sum, '\n'), pre...)); err != nil {
		return err
	}
	b, err := json.MarshalIndent(map[string]any{"Replace": ov}, "", " ")
	if err != nil {
		return err
	}

	return writeFile(filepath.Join(out, "overlay.json"), b)
}

// importable makes the command in dir available as the package zzsim/<name>, so
// that the simulator can run several of them in one process. A file that adds
// the entry points the harness uses comes from sim/src/<name>.
func importable(repo, dir, name, out string, ov map[string]string) error {
	entries, err := os.ReadDir(filepath.Join(repo, dir))
	if err != nil {
		return nil // only the groups that use it fail to build
	}
	for _, e := range entries {
		p := filepath.Join(repo, dir, e.Name())
		to := filepath.Join(repo, "zzsim", name, e.Name())
		switch {
		case e.IsDir() || strings.HasSuffix(p, "_test.go"):
		case !strings.HasSuffix(p, ".go"):
			ov[to] = p
		default:
			src := p
			if o, ok := ov[p]; ok {
				src = o
			}
			b, err := os.ReadFile(src)
			if err != nil {
				return err
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, b, parser.PackageClauseOnly)
			if err != nil {
				return err
			}
			at := fset.Position(f.Name.Pos()).Offset
			b = slices.Concat(b[:at], []byte(name), b[at+len(f.Name.Name):])
			dst := filepath.Join(out, name, e.Name())
			if err := writeFile(dst, b); err != nil {
				return err
			}
			ov[to] = dst
		}
	}

	return nil
}
