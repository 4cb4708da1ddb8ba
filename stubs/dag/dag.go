// Package dag stands in for github.com/natessilva/dag, whose source is not in
// the offline module cache. It follows the published implementation: vertices
// with no unresolved dependency start in their own goroutine, a vertex starts
// as soon as all its dependencies returned, and after the first error no
// further vertex starts.
package dag

import "errors"

var errMissingVertex = errors.New("missing vertex")
var errCycleDetected = errors.New("dependency cycle detected")

// Runner collects functions and dependencies.
type Runner struct {
	order []string
	fns   map[string]func() error
	graph map[string][]string
}

// AddVertex adds a function as a vertex in the graph.
func (d *Runner) AddVertex(name string, fn func() error) {
	if d.fns == nil {
		d.fns = make(map[string]func() error)
	}
	if _, ok := d.fns[name]; !ok {
		d.order = append(d.order, name)
	}
	d.fns[name] = fn
}

// AddEdge establishes a dependency between two vertices: to runs after from.
func (d *Runner) AddEdge(from, to string) {
	if d.graph == nil {
		d.graph = make(map[string][]string)
	}
	d.graph[from] = append(d.graph[from], to)
}

type result struct {
	name string
	err  error
}

func (d *Runner) detectCycles() bool {
	visited := make(map[string]bool)
	stack := make(map[string]bool)
	for _, v := range d.order {
		if !visited[v] && d.detect(visited, stack, v) {
			return true
		}
	}
	return false
}

func (d *Runner) detect(visited, stack map[string]bool, v string) bool {
	visited[v] = true
	stack[v] = true
	for _, n := range d.graph[v] {
		if !visited[n] {
			if d.detect(visited, stack, n) {
				return true
			}
		} else if stack[n] {
			return true
		}
	}
	stack[v] = false
	return false
}

// Run validates the graph and runs every vertex.
func (d *Runner) Run() error {
	if len(d.fns) == 0 {
		return nil
	}
	deps := make(map[string]int)
	for from, tos := range d.graph {
		if _, ok := d.fns[from]; !ok {
			return errMissingVertex
		}
		for _, to := range tos {
			if _, ok := d.fns[to]; !ok {
				return errMissingVertex
			}
			deps[to]++
		}
	}
	if d.detectCycles() {
		return errCycleDetected
	}
	running := 0
	ch := make(chan result, len(d.fns))
	var err error
	start := func(name string) {
		running++
		fn := d.fns[name]
		go func() { ch <- result{name, fn()} }()
	}
	for _, name := range d.order {
		if deps[name] == 0 {
			start(name)
		}
	}
	for running > 0 {
		r := <-ch
		running--
		if r.err != nil && err == nil {
			err = r.err
		}
		for _, v := range d.graph[r.name] {
			if deps[v]--; deps[v] == 0 && err == nil {
				start(v)
			}
		}
	}
	return err
}
