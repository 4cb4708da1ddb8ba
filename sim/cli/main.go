// Command cli is the simulation rig of the command line program: real
// processes whose system calls are answered by a simulated kernel and disk.
package main

import "verif.local/sim/simkit"

func main() {
	real := []string{"the drone-yaml program of the current tree (main.go, kingpin, all packages), one operating system process per command", "the go standard library above package syscall"}
	stub := []string{"every system call on files, directories and the standard streams", "disk with page cache, metadata journal and power loss", "getrandom", "runtime randomness (map iteration order, temporary file names)", "process scheduling (one system call at a time, seeded)", "other users and editors"}
	prop := func(id string, gen func(*simkit.Rng, bool) interface{}, runs int, rule string, assume ...string) *simkit.Prop {
		return &simkit.Prop{ID: id, Gen: gen, Run: runCli(id), Runs: runs, Secs: 60, Rule: rule, State: "hash of all system calls, their results and their order", Real: real, Stub: stub,
			Assume: append([]string{"file system semantics of a journaling posix file system: metadata reaches the disk in order, data in any order unless synced, rename is atomic"}, assume...)}
	}
	simkit.Main(simkit.Config{
		Rig: "cli",
		Env: []string{"TZ=UTC"},
		Props: []*simkit.Prop{
			prop("C04", genC04, 20000, "1 to 12 calls of ParseFile and ParseRawFile in one process on valid, damaged, missing and unreadable files with 0 to 4 failing, short or interrupted open, read, close and stat calls; all cases count"),
			prop("C13", genC13, 20000, "one saving command on a generated file (also behind links, with failing calls or a full disk); after every system call, and within every write, the state after a kill and four sampled states after a power loss are checked"),
			prop("C14", genC14, 20000, "one command with 0 to 3 failing calls, a full disk, missing permissions, links, missing or invalid files; counts always"),
			prop("C15", genC15, 15000, "one command with 1 to 4 interrupted, short or failing calls compared with its run without faults and with the library"),
			prop("C16", genC16, 12000, "2 to 4 concurrent commands on one file, interleaved at every system call by a seeded scheduler", "no process fails: see C14 and C17"),
			prop("C17", genC17, 9000, "2 to 6 commands and edits in sequence with failing calls, kills and power loss, and a power loss at the end", "a saving is durable if none of its fsync and open calls failed"),
			prop("C18", genC18, 15000, "1 to 3 commands that do not save, with failing, short and interrupted calls, kills and power loss"),
		},
	})
}
