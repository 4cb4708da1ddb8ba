// simbuild generates, under /verif/.build, everything the simulation rigs are
// built from:
//
//   - patched copies of a few Go standard library files, which put the
//     runtime's own randomness (map seeds and iteration order, select order,
//     temp-file names) and, for the CLI rig, every file/stdio system call
//     behind a seam the simulator owns;
//   - instrumented copies of the repository's non-test sources, with a
//     scheduling point in front of every statement and package sync replaced
//     by a cooperative one.
//
// Nothing is written outside -out; the sources in /repo are only read. Every
// patch has an anchor that must match exactly once: otherwise it fails loudly.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var (
	repo = flag.String("repo", "/repo", "repository root")
	out  = flag.String("out", "/verif/.build", "output directory")
	src  = flag.String("src", "/verif/tools/stdpatch", "directory of added std files")
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simbuild: "+f+"\n", a...)
	os.Exit(2)
}

type patch struct {
	file string
	subs [][2]string
	n    int // expected number of matches of each anchor (default 1)
}

func goroot() string {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die("go env GOROOT: %v", err)
	}
	return strings.TrimSpace(string(b))
}

// writeIfChanged keeps mtimes stable.
func writeIfChanged(p string, data []byte) {
	if old, err := os.ReadFile(p); err == nil && string(old) == string(data) {
		return
	}
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(p, data, 0644); err != nil {
		die("%v", err)
	}
}

func main() {
	flag.Parse()
	root := filepath.Join(goroot(), "src")

	base := map[string]string{}
	apply := func(dst map[string]string, tag string, ps []patch) {
		for _, p := range ps {
			orig := filepath.Join(root, p.file)
			data, err := os.ReadFile(orig)
			if err != nil {
				die("%v", err)
			}
			s := string(data)
			for _, sub := range p.subs {
				want := 1
				if p.n > 0 {
					want = p.n
				}
				if c := strings.Count(s, sub[0]); c != want {
					die("anchor %q occurs %d times in %s, want %d", sub[0], c, orig, want)
				}
				s = strings.ReplaceAll(s, sub[0], sub[1])
			}
			to := filepath.Join(*out, "std", tag, p.file)
			writeIfChanged(to, []byte(s))
			dst[orig] = to
		}
	}
	add := func(dst map[string]string, rel string) {
		data, err := os.ReadFile(filepath.Join(*src, strings.ReplaceAll(rel, "/", "__")+".txt"))
		if err != nil {
			die("%v", err)
		}
		to := filepath.Join(*out, "std", "added", rel)
		writeIfChanged(to, data)
		dst[filepath.Join(root, rel)] = to
	}

	apply(base, "base", []patch{
		{file: "runtime/rand.go", subs: [][2]string{{
			"func rand() uint64 {\n\t// Note: We avoid acquirem",
			"func rand() uint64 {\n\tif simMode != 0 && simWants() {\n\t\treturn simNext()\n\t}\n\t// Note: We avoid acquirem",
		}, {
			// a new thread, which may start at any time, draws nothing
			"mp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()",
			"mp.cheaprand = uint32(seed[0] | 1)\n\tmp.cheaprand64 = seed[1] | 1",
		}}},
		{file: "internal/runtime/maps/runtime_alg.go", subs: [][2]string{
			{"hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(bootstrapRand()&0 + 0x9e3779b97f4a7c15*uint64(i+1))"},
			{"key[i] = bootstrapRand()", "key[i] = bootstrapRand()&0 + 0xd1342543de82ef95*uint64(i+1)"},
		}},
		{file: "runtime/select.go", subs: [][2]string{{
			"j := cheaprandn(uint32(norder + 1))",
			"j := simSelectRand(uint32(norder + 1))",
		}}},
		{file: "runtime/proc.go", subs: [][2]string{
			{"const forcePreemptNS = 10 * 1000 * 1000 // 10ms", "const forcePreemptNS = 1000 * 1000 * 1000 * 1000 * 1000"},
			{"const randomizeScheduler = raceenabled", "const randomizeScheduler = false"},
		}},
	})
	add(base, "runtime/zz_sim.go")
	add(base, "testing/synctest/zz_sim.go")

	cli := map[string]string{}
	for k, v := range base {
		cli[k] = v
	}
	apply(cli, "cli", []patch{
		{file: "syscall/syscall_linux.go", subs: [][2]string{{
			"\tvar errno uintptr\n\tr1, r2, errno = linux.Syscall6(trap, a1, a2, a3, a4, a5, a6)\n\terr = Errno(errno)\n\treturn\n",
			"\tvar errno uintptr\n\tif simOn && simWants(trap, a1, a2, a3) {\n\t\tr1, errno = simCall(trap, a1, a2, a3, a4, a5, a6)\n\t\terr = Errno(errno)\n\t\treturn\n\t}\n\tr1, r2, errno = linux.Syscall6(trap, a1, a2, a3, a4, a5, a6)\n\terr = Errno(errno)\n\treturn\n",
		}}},
		{file: "runtime/vgetrandom_linux.go", subs: [][2]string{{
			"if vgetrandomAlloc.stateSize == 0 {\n\t\treturn -1, false",
			"if vgetrandomAlloc.stateSize == 0 || simMode != 9 {\n\t\treturn -1, false",
		}}},
	})
	add(cli, "syscall/zz_sim.go")

	lib := map[string]string{}
	for k, v := range base {
		lib[k] = v
	}
	instrument(lib)

	// an added test-free file keeps the overlay self-describing
	for name, m := range map[string]map[string]string{"base": base, "cli": cli, "lib": lib} {
		b, err := json.MarshalIndent(map[string]interface{}{"Replace": m}, "", " ")
		if err != nil {
			die("%v", err)
		}
		writeIfChanged(filepath.Join(*out, "overlay_"+name+".json"), b)
	}

	// module files for building the repository's own main package
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*repo, n))
		if err != nil {
			die("%v", err)
		}
		if n == "go.mod" {
			b = append(b, "\nexclude docker.io/go-docker v1.0.0\n"...)
		}
		writeIfChanged(filepath.Join(*out, "repo"+strings.TrimPrefix(n, "go")), b)
	}
}

// instrument writes instrumented copies of every non-test source file of the
// repository's library packages.
func instrument(dst map[string]string) {
	var files []string
	err := filepath.Walk(filepath.Join(*repo, "yaml"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); n == "testdata" || n == "vendor" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	sort.Strings(files)
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			die("%v", err)
		}
		o, err := instrumentFile(f, data)
		if err != nil {
			die("%s: %v", f, err)
		}
		rel, _ := filepath.Rel(*repo, f)
		to := filepath.Join(*out, "inst", rel)
		writeIfChanged(to, o)
		dst[f] = to
	}
}

func instrumentFile(name string, data []byte) ([]byte, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, data, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type ins struct {
		off int
		del int
		txt string
	}
	var list []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	list = append(list, ins{off: off(file.Name.End()), txt: `; import __simrt "verif.local/sim/simrt"`})
	for _, im := range file.Imports {
		if im.Path.Value == `"sync"` {
			txt := `"verif.local/sim/simsync"`
			if im.Name == nil {
				txt = `sync ` + txt
			}
			list = append(list, ins{off: off(im.Path.Pos()), del: len(im.Path.Value), txt: txt})
		}
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			list = append(list, ins{off: off(s.Pos()), txt: "__simrt.Y();"})
			inner := s
			if ls, ok := inner.(*ast.LabeledStmt); ok {
				inner = ls.Stmt
			}
			if g, ok := inner.(*ast.GoStmt); ok {
				list = append(list, ins{off: off(g.End()), txt: ";__simrt.Spawned()"})
			}
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		}
		return true
	})
	// drop the insertions made in front of case/comm clauses
	clause := map[int]bool{}
	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CaseClause:
			clause[off(n.Pos())] = true
		case *ast.CommClause:
			clause[off(n.Pos())] = true
		}
		return true
	})
	var keep []ins
	for _, i := range list {
		if i.del == 0 && clause[i.off] && strings.HasPrefix(i.txt, "__simrt.Y") {
			continue
		}
		keep = append(keep, i)
	}
	sort.SliceStable(keep, func(a, b int) bool { return keep[a].off < keep[b].off })
	var sb strings.Builder
	pos := 0
	for _, i := range keep {
		sb.Write(data[pos:i.off])
		sb.WriteString(i.txt)
		pos = i.off + i.del
	}
	sb.Write(data[pos:])
	sb.WriteString("\nvar _ = __simrt.Y\n")
	return []byte(sb.String()), nil
}
