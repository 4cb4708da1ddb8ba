#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that ids stay stable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": hook}})

PARSE="yaml/parse.go"; COMP="yaml/compiler/compiler.go"; STEP="yaml/compiler/step.go"
p("C01","Parsing does not depend on how the input stream is fragmented",
 "Parsing a configuration from a reader gives exactly the outcome (the same documents, or an error) that parsing the same bytes in one piece gives. It makes no difference how the reader cuts the stream: single bytes, cuts inside a line, a document separator, a CRLF or a multi-byte character, empty reads, or the last bytes arriving together with end-of-file.",
 ["inputs","schedules"],"all byte streams (up to several megabytes) and all ways of delivering them in reads",
 "Tests only parse from complete strings and files, so every read sees the whole document at once.",
 [PARSE],[("line scanner over io.Reader","ParseRaw")],["result of Parse / ParseRaw"])
p("C02","A stream that cannot be read completely never parses successfully",
 "If the reader fails before the end of the configuration, or the configuration cannot be taken in completely for any other reason, parsing returns an error and no resources. It never returns success for a prefix of the configuration (bytes after an explicit document terminator '...' need not be read).",
 ["fault_sequences","inputs"],"every position and kind of read failure in every stream, and arbitrarily long lines",
 "No test injects a failing reader or an over-long line; the parser is only run on complete small files.",
 [PARSE],[("propagation of the scanner's error","ParseRaw")],["error returned by Parse / ParseRaw"])
p("C03","Parsing a stream makes bounded progress and always ends",
 "Parsing ends after a number of reads bounded by the bytes delivered plus a constant, for every stream. A reader that stops making progress (endless empty reads) makes parsing return an error instead of spinning, and the reader is not called again once it has reported its end or a permanent error.",
 ["schedules","fault_sequences"],"all readers, including ones that stall for ever or fail and would succeed again if re-read",
 "Termination against a misbehaving reader is a liveness property; tests only use in-memory readers that always progress.",
 [PARSE],[("read loop","ParseRaw")],["number and order of Read calls"])
p("C04","Parsing a file releases every descriptor on every path",
 "The functions that parse a file by path close each file descriptor they open exactly once before returning, whether parsing succeeds, the content is invalid, or opening, reading or closing fails; repeated calls never accumulate descriptors and never act on a descriptor already closed.",
 ["fault_sequences","inputs"],"every failing system call and every content, over any number of calls",
 "Tests call ParseFile on a couple of good files and one missing file and never look at descriptors.",
 [PARSE],[("deferred close","ParseFile"),("deferred close","ParseRawFile")],["open/close system calls"])
p("C05","Conversion of foreign and legacy files is deterministic",
 "Converting a configuration (GitLab, Bitbucket, legacy Drone with matrix) gives byte-identical output for the same content and metadata every time, in every process; in particular the names and order of pipelines, steps, services, axes and dependencies and the pipeline picked for a ref do not vary from run to run.",
 ["schedules","inputs"],"all inputs and every iteration order the runtime may choose for a map",
 "A test sees one random map order per run; the repository's own conversion goldens fail intermittently for this reason and are excluded from its stable tests.",
 ["yaml/converter/gitlab/convert.go","yaml/converter/bitbucket/config.go","yaml/converter/bitbucket/convert.go","yaml/converter/legacy/matrix/matrix.go","yaml/converter/legacy/internal/config.go"],
 [("ordering of jobs, services, axes","converter packages")],["bytes returned by converter.Convert"])
p("C06","Compilation is deterministic up to generated identifiers",
 "Compiling the same pipeline with the same settings yields the same specification every time except for the randomly generated identifiers, which are consistently renamed: order and content of steps, volumes, secrets, environment, image names and files do not depend on map iteration order or on the process.",
 ["schedules","inputs"],"all pipelines and settings, every map iteration order, every entropy stream",
 "Unit tests compare small specifications once and most ignore ordering; a test sees a single map order per run.",
 [COMP,STEP,"yaml/compiler/transform/secret.go","yaml/compiler/transform/volume.go"],
 [("ordered emission from maps","createStep, transforms"),("image renaming","Compile")],["engine.Spec returned by Compile"])
p("C07","Formatting, encoding, linting and signing are deterministic",
 "Formatting, JSON/YAML encoding, linting, signing and verifying the same configuration with the same arguments always give the same bytes, the same verdict and the same error, in every process and whatever was processed before.",
 ["schedules","inputs"],"all configurations and every map iteration order",
 "Tests compare each output once, with maps of at most a few keys and one random order per run.",
 ["yaml/pretty/writer.go","yaml/pretty/container.go","yaml/pretty/pipeline.go","yaml/manifest.go","yaml/linter/linter.go","yaml/signer/signer.go"],
 [("sorted map keys","yaml/pretty/writer.go")],["bytes / errors returned by pretty.Print, json.Marshal, linter.Lint, signer.*"])
p("C08","Concurrent calls do not influence each other",
 "Any number of parse, lint, compile, transform, format, sign, verify and convert calls running concurrently, on separate or on the same parsed configuration and sharing the same compiler and transforms, each return what they return when run alone (up to generated identifiers). They perform no data race and never block one another for ever, not even while a callback of the caller waits for another call to finish or calls the library itself.",
 ["schedules","histories"],"all interleavings of concurrent callers at statement granularity",
 "No test starts a second goroutine and the suite is not run under the race detector.",
 [COMP,STEP,PARSE,"yaml/linter/linter.go","yaml/pretty/writer.go","yaml/signer/signer.go","yaml/compiler/transform"],
 [("no shared mutable state between calls","all packages")],["results of concurrent calls","race detector"])
p("C09","Calls do not modify what the caller passed in",
 "Parsing, linting, compiling, transforming, formatting, signing, verifying and converting leave the byte slices (including their spare capacity), parsed resources, maps, slices and values obtained from caller callbacks unchanged. Repeating a call on the same input at any later time therefore gives the same result.",
 ["histories","inputs"],"all sequences of calls that share inputs",
 "Tests use a fresh input per call and never compare it afterwards.",
 [COMP,STEP,"yaml/compiler/transform/secret.go","yaml/pretty","yaml/signer/signer.go","yaml/converter"],
 [("copy instead of alias","createStep, WithSecretFunc, converters")],["deep comparison of arguments before and after"])
p("C10","Returned results stay stable under later calls",
 "A value returned by the library (documents, specification, formatted or signed bytes, converted bytes) is not changed by any later or concurrent call, whether on the same or on another input, and two results never share memory in a way that a later library call on one shows through the other.",
 ["histories","schedules"],"all later and concurrent sequences of calls",
 "Tests inspect a result at once and drop it before the next call.",
 [COMP,STEP,PARSE,"yaml/compiler/transform","yaml/signer/signer.go"],
 [("fresh result buffers and structures","all packages")],["deep comparison of earlier results after later calls"])
p("C11","Generated identifiers are unique, well-formed, unbiased and fresh",
 "Every identifier the compiler generates for a specification, step, volume, file, secret or image alias is 32 characters of a-z and 0-9, each uniformly distributed and taken from the system's cryptographic entropy source. No two resources ever share one, however many compilations run concurrently and however the source delivers its bytes (short reads, bytes that must be rejected, an adversarial but varying stream).",
 ["schedules","fault_sequences"],"all entropy streams, delivery patterns and interleavings of compilations",
 "Tests replace or ignore identifiers; no test controls the entropy source.",
 ["yaml/compiler/internal/rand/rand.go",COMP,STEP,"yaml/compiler/workspace.go","yaml/compiler/transform"],
 [("rejection sampling over crypto/rand","rand.String")],["identifiers in engine.Spec"])
p("C12","Stored signed files are tamper evident",
 "A signed configuration that was stored and read back unchanged always verifies with its key. If storage lost, duplicated, flipped, tore, reordered or mixed in any bytes of the signed documents or of the signature, or the key differs, verification does not succeed.",
 ["fault_sequences","inputs"],"all corruptions of the stored bytes, all documents and all pairs of keys that HMAC-SHA256 distinguishes (it ignores trailing NUL bytes)",
 "Tests verify two intact files and one wrong key; they corrupt nothing.",
 ["yaml/signer/signer.go",PARSE],[("HMAC over document data","sign"),("extraction and comparison","Verify")],["result of signer.Verify and of 'verify'"])
p("C13","Saving is atomic under crashes",
 "If the process or the machine dies at any instant of a command run with --save, the file afterwards holds either its complete previous content or the complete new content. It is never missing, empty, truncated or mixed.",
 ["crash_points","fault_sequences"],"a crash (process kill or power loss with an arbitrary subset of unsynced effects surviving) before or after every system call",
 "Tests never run the command-line program, let alone crash it.",
 ["main.go"],[("save path","main.go")],["file content on the simulated disk after restart"])
p("C14","A command that fails leaves the file as it was",
 "If a command cannot do its work (the file cannot be read or is invalid, the key is unusable, the disk is full, writing fails) it exits with a non-zero status and the source file keeps its previous content and stays readable, with or without --save, and nothing else in the file system has changed.",
 ["fault_sequences","inputs"],"every failing system call in every command, and every invalid input",
 "No test runs the commands or makes a system call fail.",
 ["main.go",PARSE],[("error propagation","runFormat, runConvert, runSign"),("write only after success","main.go")],["exit status and file content"])
p("C15","Exit status zero means the complete result was delivered",
 "A command exits with status zero only if its complete result, the printed output or the saved file, was really delivered to the stream or the disk and is identical to that of an undisturbed run. Interrupted or short system calls do not truncate, duplicate or reorder output; an undeliverable output makes the command fail.",
 ["fault_sequences","inputs"],"all short, interrupted and failing reads and writes",
 "No test runs the commands or looks at their exit status under write failures.",
 ["main.go"],[("checked writes","runSign, runVerify, runCompile, runFormat, runConvert")],["exit status, stdout, stderr, file content"])
p("C16","Commands running concurrently on one file see complete versions",
 "When several commands, saving or not, run at the same time on the same file, each command works on some complete version of the file that existed while it ran, and after all of them ended the file holds exactly the complete result of one of the saving commands (or its original content if none succeeded).",
 ["schedules","histories"],"all interleavings of the system calls of concurrent processes",
 "Tests run a single goroutine in a single process.",
 ["main.go"],[("save path","main.go"),("read path","main.go")],["outputs of each process, final file content"])
p("C17","Any history of commands and crashes behaves like a sequence of whole commands",
 "Over any history of sign, fmt and convert commands with --save on a file, with failures, kills and power loss in between, the file always equals the result of applying, in order, those commands that took effect as a whole, its permissions are kept and a symbolic link to it stays a link. A saving that was acknowledged with exit status zero survives a later loss of power. After an acknowledged signing the file carries exactly one signature, which verifies with that key and not with another, until the content is changed.",
 ["histories","crash_points","fault_sequences"],"all command histories with faults at any system call",
 "Tests check single calls on pristine files.",
 ["main.go","yaml/signer/signer.go"],[("signature replacement","SignUpdate"),("save path","main.go")],["file content after each command, verify exit status"])
p("C18","Commands without --save never touch the file system",
 "fmt, convert and sign without --save, and lint, verify and compile always, create, modify, rename or remove no file and change no metadata, whatever the content of the file and whichever system calls fail or are interrupted.",
 ["fault_sequences","inputs"],"all inputs, options and system-call failures",
 "No test observes the file system effects of a command.",
 ["main.go"],[("save only under the flag","main.go")],["mutating system calls"])
p("C19","No container starts before the clone has finished",
 "In a pipeline whose clone is enabled, no step and no service starts before the clone step ended, and the clone runs exactly once, for every step latency and in serial as well as dependency-driven pipelines; a pipeline with clone disabled runs no clone.",
 ["schedules","inputs"],"all pipelines accepted by the linter and all timings and failures of the containers",
 "Tests compare compiled structures; nothing executes a compiled pipeline.",
 [COMP],[("implicit dependency on clone","Compile")],["start/stop events at the engine"])
p("C20","A step never starts before everything it depends on has ended",
 "For every pipeline the linter accepts, compiled and executed by the drone runtime, a step starts only after every step named in its depends_on has ended or was skipped. Steps without a mutual (transitive) dependency are not ordered: one that is ready starts without waiting for an unrelated step.",
 ["schedules","inputs"],"all dependency graphs, timings and failures",
 "Unit tests check that a list is copied; no test executes a graph.",
 [COMP,STEP,"yaml/linter/linter.go"],[("depends_on propagation","createStep"),("dependency linting","checkDeps")],["start/stop events at the engine"])
p("C21","Steps without dependencies run one at a time in document order",
 "In a pipeline in which no step and no service declares a dependency, the non-detached steps run strictly one after another in the order of the configuration, whatever their durations, results and whatever services are declared.",
 ["schedules","inputs"],"all pipelines without dependencies, all timings and failures",
 "Nothing in the tests executes a pipeline.",
 [COMP],[("document order","Compile")],["start/stop events at the engine"])
p("C22","Failure policies decide exactly which later steps run",
 "Once a step has failed (and is not marked failure: ignore) only steps whose when.status includes failure start, and as long as nothing failed only steps whose when.status does not exclude success start. A failing step marked failure: ignore changes nothing, and the overall result is a failure exactly if some unignored step failed or could not be run.",
 ["schedules","fault_sequences"],"all combinations of exit codes, out-of-memory kills, engine errors and timings",
 "Tests map status lists to enum values; the combined behaviour over a run with failures is never executed.",
 ["yaml/compiler/convert.go","yaml/cond.go",STEP],[("run policy","toRunPolicy"),("ignored errors","toIgnoreErr")],["start/stop events and result of the runtime"])
p("C23","Every accepted pipeline completes, running each eligible step exactly once",
 "A pipeline that passes the linter, once compiled and executed, always runs to its end after finitely many events: no dependency is unresolvable or cyclic, no container lacks an image, every step eligible under its conditions and the run's history starts exactly once, no step starts twice and no unknown step runs.",
 ["schedules","fault_sequences","inputs"],"all accepted pipelines, timings and failures",
 "Linter and compiler are tested separately on a few fixed pipelines; their agreement with the runtime is never exercised.",
 ["yaml/linter/linter.go",COMP,STEP],[("acyclicity","checkDeps"),("unique names","checkPipeline")],["history at the engine, termination"])
p("C24","All steps of a pipeline share one workspace and its declared volumes",
 "Whatever the clone or an earlier step wrote into the workspace is found by every later step of the same pipeline at the path announced in its environment, and steps with commands start in it (for every workspace path that does not leave the workspace base). A declared volume mounted by several steps carries data between exactly the steps that mount it, at the mount paths they chose.",
 ["schedules","inputs"],"all workspace settings, volume layouts and execution orders",
 "Tests check names and paths of mounts in isolation, not the resulting data flow.",
 ["yaml/compiler/workspace.go",COMP,STEP],[("workspace volume","CreateWorkspace, MountWorkspace"),("volume mounts","createStep")],["simulated container file system"])
p("C25","Concurrent pipelines on one host are isolated from each other and from the host",
 "Pipelines of different tenants compiled and run concurrently on one host never see each other's workspace, volumes, containers, secrets, credentials or locally built images. A pipeline accepted by the linter as untrusted never obtains privileged mode, host paths, devices, host ports, host network or the docker socket, except for the docker socket of a build step and privileged mode of an operator-whitelisted plugin without commands.",
 ["schedules","histories","inputs"],"all sets of concurrently running pipelines, including identical and hostile ones, and all interleavings",
 "Tests look at one pipeline at a time.",
 [COMP,STEP,"yaml/linter/linter.go","yaml/compiler/dind.go","yaml/compiler/image/image.go"],
 [("fresh identifiers per compilation","Compile"),("build image alias","createBuildStep, Compile"),("untrusted restrictions","linter.Lint"),("privileged plugins","DindFunc")],["simulated docker host"])
p("C26","Secrets are requested once and reach only the steps that declare them",
 "Compiling with a secret provider requests each secret that a runnable step declares exactly once and none that only never-run steps declare; when executed, a step receives the value of each secret it declares under the declared variable and no other secret. A provider that does not know a secret, blocks for a while or is shared by concurrent compilations changes nothing else.",
 ["schedules","fault_sequences"],"all provider behaviours, timings and pipelines, concurrent compilations",
 "Tests call the transform once with a constant callback.",
 ["yaml/compiler/transform/secret.go",STEP],[("provider protocol","WithSecretFunc"),("secret variables","createStep")],["provider calls; container environment"])
p("C27","Skipped steps never start and skip nothing else",
 "A step or service whose when-conditions do not match the build, or which is removed by the include, exclude or resume selection, is never created or started, before or after failures; every other step behaves as if the selection did not exist, the clone always runs, and steps depending on a skipped step still run.",
 ["schedules","fault_sequences","inputs"],"all selections, conditions, graphs, failures and timings",
 "Tests check the flag each filter sets, not what happens in execution or in combination.",
 ["yaml/compiler/skip.go","yaml/compiler/transform/filter.go",COMP],[("skip function","SkipFunc"),("selection","Include, Exclude, ResumeAt")],["history at the engine"])
p("C28","Services run detached alongside the steps",
 "Services and detached steps never hold up the pipeline: it completes although they never exit, and their exit does not fail it. In a serial pipeline every service has been started before the first step starts, and it is not stopped before the pipeline ends.",
 ["schedules","fault_sequences"],"all service lifetimes, failures and timings",
 "Tests only check that a flag is set.",
 [COMP,STEP],[("detached mode","Compile")],["history at the engine"])
p("C29","A configuration of several pipelines survives failing hosts",
 "An accepted configuration of several pipelines, handed out pipeline by pipeline (as the file or in its JSON form) to any number of hosts, always gets to its end: each pipeline whose trigger matches is completed exactly once, after every pipeline named in its depends_on and before every pipeline that names it. Neither crashed agents, rebooting or unreachable hosts, lost messages nor what an abandoned attempt left behind (containers, volumes, images) or still does on the same host affects another attempt or pipeline.",
 ["schedules","fault_sequences","histories","inputs"],"all sets of pipelines the linter accepts, all assignments to hosts and all host and network failures",
 "Tests lint a few fixed files and execute none of them; no test repeats an attempt.",
 ["yaml/linter/config.go","yaml/manifest.go","yaml/pipeline.go","yaml/cond.go",COMP],[("unique names, existing dependencies, no cycles","checkPipelines"),("dispatch by kind","Manifest.UnmarshalJSON"),("fresh identifiers per compilation","Compile")],["history at the server and the simulated hosts"])
p("C31","Formatting changes nothing about what a configuration does",
 "A configuration executes in the same way - same containers with the same commands, environment, mounts and limits, same order, same conditions, secrets and result under the same latencies and failures - whether it is used as written or after any sequence of formatting, signing, conversion of a native file and encoding to and decoding from JSON or YAML (values that form cannot express, such as infinities in JSON, excepted); and formatting what was formatted changes nothing.",
 ["histories","fault_sequences","schedules","inputs"],"all accepted configurations, all sequences of rewriting, all timings and failures of the execution",
 "Tests compare the formatted text of a few files with a golden file; none executes the result, and none combines formatting with signing or encoding.",
 ["yaml/pretty/container.go","yaml/pretty/pipeline.go","yaml/pretty/writer.go","yaml/pretty/util.go","yaml/env.go","yaml/param.go","yaml/manifest.go","yaml/signer/signer.go"],[("formatter","Print"),("quoting","isQuoted"),("JSON and YAML encoding","Manifest.MarshalJSON, Variable.MarshalYAML, Parameter.MarshalYAML")],["history at the engine; formatted text"])
p("C38","A step executes its commands exactly once and stops at the first failure",
 "On every platform but windows, the process of a container with commands - of a step or a service - traces each command (a line of '+' and the command) and then executes it exactly once, in order, in one POSIX shell whose state persists, with text, environment and secrets unchanged, stops at the first command that fails and ends with its status. Git credentials are in $HOME/.netrc, readable by its owner only, and never in the environment of a command, even if that file cannot be written.",
 ["fault_sequences","inputs","histories"],"all commands, environments, shells, exit statuses, signals and defects of the image",
 "Tests never execute a generated script, let alone with commands that fail, are killed or are missing.",
 ["yaml/compiler/script_posix.go",STEP,"yaml/compiler/transform/netrc.go","yaml/compiler/transform/secret.go"],[("script","setupScript"),("credentials","WithNetrc")],["calls recorded by stand-in programs, output, exit status"])
p("C33","A container is created exactly as its step or service declares",
 "Whatever pipelines are compiled from a file or by one compiler, in any order and whatever fails, each container is created with exactly what its step or service declares: image (fully qualified), pull policy, entrypoint and arguments (unless it has commands), environment, settings as PLUGIN_ variables (text, booleans and numbers as written, lists of them comma-separated, anything else as JSON), ports, DNS, hosts, network, user, limits, mounts, working directory (of detached containers without commands; the workspace for all others). To this comes exactly what the operator adds (whose environment wins), and nothing of any other step; a build step runs drone/docker with the image, context, dockerfile and cache sources of its build section. (Devices, shell, push, build arguments and labels are not implemented and not covered.)",
 ["inputs","histories","fault_sequences"],"all declarations, all combinations of them and of operator settings, all histories of a compiler",
 "Tests look at single fields of a few fixed steps compiled once; none looks at the container that is created while others fail, are retried or share the compiler.",
 [STEP,"yaml/compiler/convert.go","yaml/compiler/encode.go","yaml/compiler/workspace.go","yaml/compiler/clone.go","yaml/compiler/transform/labels.go","yaml/compiler/transform/limits.go"],[("mapping","createStep, createBuildStep"),("settings","encode"),("operator","transform")],["containers created on the simulated host, credentials of pulls"])
p("C35","A converted configuration executes as the one it was converted from",
 "A Drone 0.8 configuration (services, clone section, workspace, branches, environment as map or list, secrets, host volumes, plugin settings, conditions, merge keys, matrix), a Bitbucket one (pipeline of the tag or branch that is built, default image, variables, clone depth, services) or a GitLab one (stages one after the other, jobs by name, images, scripts before and after, services, allow_failure, hidden jobs) executes after conversion as it declares: the same commands, in order, in the same images with the same environment, settings, mounts and secrets, under the same conditions, with the same result, under every timing and failure. A matrix gives exactly one pipeline for each combination, with its values put in everywhere. (What the converters list as not handled is not covered.)",
 ["inputs","fault_sequences","schedules"],"all configurations in these formats, all references that are built, all timings and failures of the execution",
 "Tests compare the converted text of a few files with golden files; none executes it.",
 ["yaml/converter/legacy/internal/config.go","yaml/converter/legacy/matrix/matrix.go","yaml/converter/bitbucket/convert.go","yaml/converter/gitlab/convert.go"],[("conversion","Convert"),("matrix","calc, parseList")],["history at the engine; containers created"])
p("C39","A damaged or hostile configuration takes down nothing but itself",
 "Whatever arrives in place of a configuration, in any of the formats and together with any repository URL and reference - damaged, cut short, with parts missing, empty, repeated or of another type - converting, parsing, linting, formatting, encoding, signing and (if the linter accepts it) compiling it end with a result or an error after a bounded amount of work. None of them panics, and requests for other configurations that the same process handles before, meanwhile or afterwards get the results they get alone.",
 ["fault_sequences","inputs","schedules","histories"],"all damage to the content, all combinations of concurrent requests",
 "Tests use well-formed files, one at a time; every value of a configuration can be missing or of another type.",
 ["yaml/linter/linter.go","yaml/pretty/container.go","yaml/pretty/pipeline.go","yaml/converter/gitlab/convert.go","yaml/converter/bitbucket/config.go","yaml/converter/legacy/internal/config.go","yaml/converter/legacy/matrix/matrix.go",STEP,"yaml/compiler/image/image.go"],[("rejection","checkPipeline, checkContainer"),("conversion","Convert")],["results, errors and panics of the calls of a server"])
# -- pure functions of their input: out of reach of this technique
pure=[
("C30","The linter accepts exactly the pipelines its rules allow","For every configuration the linter's verdict is the one its documented rules give (duplicate names, missing images, platforms, volume names, dependencies, trusted-only features).",["yaml/linter/linter.go"],"checkPipeline"),
("C32","Conditions match as documented","A when/trigger condition matches a value exactly if some include pattern (or none is given) and no exclude pattern matches it.",["yaml/cond.go"],"Condition.Match"),
("C34","Image references are normalised and matched correctly","Expanding, trimming and matching image names agrees with docker's reference rules for every reference.",["yaml/compiler/image/image.go"],"Match, Expand, Trim"),
("C36","Matrix expansion produces exactly the product of the axes","Matrix expansion yields each combination of axis values once, within the documented limits, with variables substituted in full.",["yaml/converter/legacy/matrix/matrix.go"],"calc"),
("C37","Documents are dispatched by kind and survive JSON encoding","Each document is decoded as the resource its kind names and a manifest encoded to JSON decodes to an equal manifest.",["yaml/manifest.go","yaml/parse.go"],"parseRaw, UnmarshalJSON"),
]
for id,t,s,f,w in pure:
    p(id,t,s,["inputs"],"all inputs","Tests sample a few inputs of an unbounded space.",f,[("pure function",w)],["return value"])
import os
out=os.path.join(os.path.dirname(__file__),"..","..","properties.jsonl")
with open(out,"w") as fh:
    for x in P: fh.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=2,x["id"]
