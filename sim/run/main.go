// Command run is the simulation rig of compiled pipelines: real drone-yaml and
// the real drone runtime on a simulated docker host.
package main

import "verif.local/sim/simkit"

func main() {
	real := []string{"github.com/drone/drone-yaml/yaml, linter, compiler and transform of the current tree", "github.com/drone/drone-runtime/runtime and its dag (parallel and serial execution)", "logrus, errgroup and every other dependency"}
	stub := []string{"engine.Engine (a simulated docker host that follows engine/docker)", "containers, volumes, networks, images, registry", "secret provider", "clock and timers (testing/synctest)", "crypto/rand.Reader", "map iteration order of the go runtime", "goroutine scheduling (one processor, no preemption; decided by the simulated latencies)"}
	state := "hash of the order of all engine operations and their results"
	prop := func(id, rule string, runs int, assume ...string) *simkit.Prop {
		return &simkit.Prop{ID: id, Gen: genProp(id), Run: runProp(id), Runs: runs, Secs: 45, Rule: rule, State: state, Real: real, Stub: stub,
			Assume: append([]string{"the simulated host does what engine/docker and docker do for the operations used"}, assume...)}
	}
	world := "1 to 4 pipelines on one host, seeded latencies of every container operation, container failures, engine errors, daemon restarts; "
	graph := prop("C29", "a server hands 1 to 5 pipelines of one configuration to agents on 1 to 3 hosts; agents crash, hosts reboot or are cut off, messages are lost, attempts are repeated; all accepted count", 40000, "the server repeats an attempt whose lease expired and takes the result of the latest attempt only")
	graph.Gen, graph.Run = genGraph, runGraph
	graph.Stub = append([]string{"server, agents and the network between them"}, stub...)
	form := prop("C31", "1 or 2 pipelines are executed twice under the same seed, latencies, failures and restarts: as written, and after the file was formatted, signed, encoded as JSON or YAML, or any sequence of these; counts if a pipeline is executed", 60000)
	form.Gen, form.Run = genForm, formProp()
	decl := prop("C33", world+"steps and services declared in every detail the format knows; all count in which a container is created", 60000)
	decl.Gen = genDeclared
	conv := prop("C35", world+"pipelines written as legacy, Bitbucket or GitLab files; all count in which a container is created", 60000)
	conv.Gen = genConv
	conv.Real = append([]string{"converters of the current tree"}, real...)
	script := &simkit.Prop{ID: "C38", Gen: genScript, Run: runScript, Runs: 40000, Secs: 45, State: "hash of all calls the stand-ins recorded and of the exit status",
		Rule:   "1 to 3 steps and services with random shell commands, environments and secrets are compiled and their containers' processes executed by a real shell (dash, bash) in a scratch directory; stand-ins fail or are killed as the scenario says; all count in which a command is executed",
		Real:   []string{"parser, linter, compiler and transforms of the current tree", "dash and bash (started as /bin/sh), cat, chmod"},
		Stub:   []string{"the programs a command runs (stand-ins that record their calls)", "the container's file system (a scratch directory, unprivileged user)"},
		Assume: []string{"the reference interpreter of the generated commands (sequences, lists, here-documents, functions, subshells under set -e) agrees with POSIX"}}
	simkit.Main(simkit.Config{
		Rig: "run",
		Env: []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "TZ=UTC", "HTTP_PROXY=http://proxy.example.com", "no_proxy=localhost"},
		Props: []*simkit.Prop{
			prop("C19", world+"all count in which a pipeline is executed", 150000),
			prop("C20", world+"counts if a dependency-driven pipeline is executed", 150000),
			prop("C21", world+"counts if a serial pipeline of at least two steps is executed", 150000),
			prop("C22", world+"counts if a step really failed", 150000, "two events at the same instant are not ordered: a step decided at the instant of an unrelated failure may go either way"),
			prop("C23", world+"including odd dependency graphs, names and builds; all count", 150000),
			prop("C24", world+"every container writes tokens to its workspace, directory and volumes and reads what it finds; counts if a pipeline of several steps is executed", 150000, "in-memory volumes are private to a container, as in docker"),
			prop("C25", world+"hostile untrusted tenants beside others; all count", 150000, "host paths given by the operator may be shared"),
			prop("C26", world+"counts if a step declares a secret", 150000),
			prop("C27", world+"counts if a step is skipped or deselected", 150000, "a user step named clone (clone disabled) is treated by the selection like the clone"),
			graph, form, decl, conv, script,
			prop("C28", world+"counts if there is a service or detached step", 150000),
		},
	})
}
