// Command lib is the simulation rig of the library: its callers are
// cooperative tasks, and readers, entropy, clock, map order, schedule and
// storage are simulated.
package main

import "verif.local/sim/simkit"

var realAll = []string{"github.com/drone/drone-yaml/yaml and all packages below it (instrumented copies of the current tree)", "buildkite/yaml and every other dependency"}
var stubAll = []string{"goroutine scheduling (cooperative, seeded)", "package sync as used by drone-yaml (cooperative equivalent)", "clock (testing/synctest)", "runtime randomness (map iteration order, select, math/rand seeds)", "crypto/rand.Reader"}

func main() {
	shared := "caller history"
	simkit.Main(simkit.Config{
		Rig: "lib",
		Env: []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GORACE=exitcode=0 atexit_sleep_ms=0", "TZ=UTC", "HTTP_PROXY=http://proxy.example.com", "no_proxy=localhost"},
		Props: []*simkit.Prop{
			{ID: "C01", Gen: genC01, Run: runStream("C01"), Runs: 60000, Secs: 40,
				Rule:  "a generated stream (multi-document, CRLF, damaged, up to 3 MB, lines around every buffer size) with a seeded read pattern; non-trivial if at least one read ended inside the stream",
				State: "hash of outcome, number of reads and bytes taken", Real: realAll, Stub: append([]string{"io.Reader"}, stubAll...),
				Assume: []string{"readers obey the io.Reader contract"}},
			{ID: "C02", Gen: genC02, Run: runStream("C02"), Runs: 60000, Secs: 40,
				Rule:  "a generated stream whose reader fails at a seeded offset, or which contains a line of any length; non-trivial if the failure was delivered or the stream was fragmented",
				State: "hash of outcome, number of reads and bytes taken", Real: realAll, Stub: append([]string{"io.Reader"}, stubAll...),
				Assume: []string{"bytes after a complete '...' line need not be read"}},
			{ID: "C03", Gen: genC03, Run: runStream("C03"), Runs: 60000, Secs: 40,
				Rule:  "a generated stream whose reader stalls for ever, fails (and would succeed again), or trickles; non-trivial if stalled, failed or fragmented",
				State: "hash of outcome, number of reads and bytes taken", Real: realAll, Stub: append([]string{"io.Reader"}, stubAll...),
				Assume: []string{"1000 consecutive empty reads count as spinning"}},
			{ID: "C05", Gen: genDet("C05"), Run: runDet("convert"), Procs: 2, Compare: compareDet("convert"), Runs: 20000, Secs: 45,
				Rule:  "2 to 7 conversions of 1 to 4 generated files, each executed 10 times: 2 fresh processes, 5 map seeds each, call order given and reversed, other clock and entropy; non-trivial if at least one conversion succeeds",
				State: "hash of the converted outputs", Real: realAll, Stub: stubAll},
			{ID: "C06", Gen: genDet("C06"), Run: runDet("compile"), Procs: 2, Compare: compareDet("compile"), Runs: 20000, Secs: 45,
				Rule:  "2 to 7 compilations of generated pipelines under 1 to 3 generated compiler configurations, each executed 10 times (2 fresh processes, 5 map seeds, both orders, other clock and entropy); identifiers renamed by order of appearance; non-trivial if a compilation succeeds",
				State: "hash of the canonical specifications", Real: realAll, Stub: stubAll},
			{ID: "C07", Gen: genDet("C07"), Run: runDet("output"), Procs: 2, Compare: compareDet("output"), Runs: 20000, Secs: 45,
				Rule:  "2 to 7 format, encode, lint, sign and verify calls on generated configurations, each executed 10 times (2 fresh processes, 5 map seeds, both orders, other clock and entropy); non-trivial if one succeeds",
				State: "hash of the results", Real: realAll, Stub: stubAll},
			{ID: "C08", Gen: genC08, Run: runC08, Procs: 1, Runs: 12000, Secs: 60,
				Rule:  "2 to 4 concurrent callers with 1 to 3 calls each on shared or own documents, compilers and transforms, interleaved at statement granularity by a seeded scheduler (random quanta, PCT) under the race detector, each result compared with the call run alone afterwards; non-trivial if there were at least two switches per caller",
				State: "hash of the complete schedule (task, number of statements)", Real: realAll, Stub: stubAll,
				Assume: []string{"interleavings inside dependencies are not explored (they are atomic between two statements of drone-yaml), but the race detector sees their accesses"}},
			{ID: "C09", Gen: genC09, Run: runC09, Procs: 1, Runs: 16000, Secs: 45,
				Rule:  "a " + shared + " of 1 to 11 calls on shared inputs, every input rendered completely (with spare capacity of slices) after every call and every call repeated at the end; all cases count",
				State: "hash of the schedule", Real: realAll, Stub: stubAll},
			{ID: "C10", Gen: genC10, Run: runC10, Procs: 1, Runs: 16000, Secs: 45,
				Rule:  "a " + shared + " of 1 to 24 calls by 1 to 3 callers, including later transforms of earlier results; every earlier result rendered again after every call",
				State: "hash of the schedule", Real: realAll, Stub: stubAll},
			{ID: "C11", Gen: genC11, Run: runC11, Procs: 1, Runs: 12000, Secs: 45,
				Rule:  "1 to 4 concurrent tasks compiling pipelines with a simulated entropy source (short and empty reads, rejected bytes, runs); executed twice with different entropy; non-trivial with at least 5 identifiers",
				State: "hash of schedule and entropy seed", Real: realAll, Stub: stubAll,
				Assume: []string{"the entropy source delivers independent uniform bytes wherever uniformity is tested"}},
			{ID: "C12", Gen: genC12, Run: runC12, Runs: 60000, Secs: 45,
				Rule:  "a generated configuration is signed, stored with 0 to 2 storage faults (or verified with another key) and verified; accepted results must have the same protected content by an independent splitter; trivial if the faults changed nothing",
				State: "hash of stored bytes and verdict", Real: realAll, Stub: append([]string{"storage between signing and verification"}, stubAll...),
				Assume: []string{"HMAC-SHA256 treats keys that differ only in trailing NUL bytes (or by pre-hashing of keys over 64 bytes) as equal; such pairs are not generated", "replay of a complete older signed version is not tampering"}},
			{ID: "C39", Gen: genC39, Run: runC39, Procs: 1, Runs: 20000, Secs: 60,
				Rule:  "2 to 6 configurations in the four formats, most of them with 1 to 3 values replaced (by nothing, other types, other parts, entries added or removed), some with damaged bytes or cut short, handled by 1 to 3 concurrent requests that convert, parse, lint, format, encode, sign and - if accepted - compile them; then each alone; trivial if nothing was damaged",
				State: "hash of the schedule", Real: realAll, Stub: append([]string{"server: a loop over requests", "storage that damages configurations"}, stubAll...),
				Assume: []string{"nested aliases that expand exponentially inside the YAML package, and nesting deep enough to exhaust its stack, are not generated"}},
		},
	})
}
