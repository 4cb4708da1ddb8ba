// Command mark is what the commands of a step run in the simulated container
// (C38): it records how it was called and ends as the scenario says.
package main

import (
	"encoding/json"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

type rec struct {
	ID    string            `json:"id"`
	Args  []string          `json:"args"`
	Cwd   string            `json:"cwd"`
	In    string            `json:"in"`
	Env   map[string]string `json:"env"`
	Netrc string            `json:"netrc"`
	Mode  uint32            `json:"mode"`
}

func main() {
	root := filepath.Dir(os.Getenv("PATH"))
	r := rec{ID: "?", Env: map[string]string{}, Args: []string{}}
	if len(os.Args) > 1 {
		r.ID, r.Args = os.Args[1], os.Args[2:]
	}
	if wd, err := os.Getwd(); err == nil {
		r.Cwd, _ = filepath.Rel(filepath.Join(root, "work"), wd)
	}
	if filepath.Base(os.Args[0]) == "markin" {
		b, _ := io.ReadAll(os.Stdin)
		r.In = string(b)
	}
	for _, kv := range os.Environ() {
		k, v, _ := strings.Cut(kv, "=")
		if strings.HasPrefix(k, "V_") || strings.Contains(k, "NETRC_") {
			r.Env[k] = v
		}
	}
	if st, err := os.Stat(filepath.Join(os.Getenv("HOME"), ".netrc")); err == nil && st.Mode().IsRegular() {
		r.Mode = uint32(st.Mode().Perm())
		b, _ := os.ReadFile(filepath.Join(os.Getenv("HOME"), ".netrc"))
		r.Netrc = string(b)
	}
	b, _ := json.Marshal(r)
	f, err := os.OpenFile(filepath.Join(root, "log"), os.O_WRONLY|os.O_APPEND, 0)
	if err != nil {
		os.Exit(99)
	}
	f.Write(append(b, '\n'))
	f.Close()
	os.Stdout.WriteString("out:" + r.ID + "\n")
	var plan map[string]int
	b, _ = os.ReadFile(filepath.Join(root, "plan"))
	json.Unmarshal(b, &plan)
	switch n := plan[r.ID]; {
	case n < 0:
		syscall.Kill(os.Getpid(), syscall.Signal(-n))
		time.Sleep(5 * time.Second)
		os.Exit(128 - n)
	case n > 0:
		os.Exit(n)
	}
}
