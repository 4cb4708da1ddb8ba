#!/usr/bin/env python3
"""Rewrites the second half of DESIGN.md (run in /verif)."""
import json,os
rows={}
for i in sorted(os.listdir('seeded')):
    m=json.load(open('seeded/%s/meta.json'%i)); rows.setdefault(m['property'],[]).append(i)
t="""
## Findings

Genuine defects found by these checks on the original tree and what was done are listed in
`known_findings.txt` (43 "fix:" commits in /repo; each line names the property and what failed). Kept as a
known finding, not repaired: **C12 boundary-moved** - the signature covers the concatenation of the
documents without their separators, so text moved across a `---` line still verifies; the repair would
invalidate every stored signature of a multi-document file, which a maintainer cannot accept as a bug fix.
The check replays `findings/C12-boundary-moved.json`, prints KNOWN-FINDING and ignores exactly that class
(same concatenation, same key, different boundaries). **C31 unquoted-tag** - strings such as `!x` or `&x` are
formatted without quotes and read back as something else; the unedited test TestQuoted demands exactly that,
so it cannot be repaired. The check replays `findings/C31-unquoted-tag.json`; its generator produces no such string.

## False alarms met and corrected (property or machinery, never by silencing a right check)

* C11: two *different* identifiers may be equal when the simulated entropy repeats itself in a short
  period; the stream is now "adversarial but varying" and the uniqueness oracle knows the draws.
* C12: HMAC pads keys with NUL bytes, so keys differing in trailing NULs are one key; excluded in the statement.
* C03/C04: a step limit was hit by a long file delivered in one-byte reads; bounds are relative to size.
* C15: a missing file has no undisturbed result to compare with; bounds on short transfers.
* C19: a user step named `clone` in a pipeline with the clone disabled; a relative workspace base, which docker refuses.
* C20/C22: two events at the same simulated instant are unordered: verdict `maybe`, not checked.
* C21: "declares no dependency" includes an empty `depends_on: []`; the statement covers services as well.
* C24: a workspace path that leaves the base (`../x`) has no shared volume below it; excluded in the statement.
* C23: values docker itself refuses (bad names, relative mount targets) are predicted by `expectedCreateErr`.
* run rig: wording of linter acceptance (what is rejected is not executed; a rejected pipeline is no failure).
* cli rig: about one run in 2000 was not repeatable, because a thread the Go runtime started at a random time
  drew from the seeded stream (temporary file names differed); threads no longer draw. Rare repetitions
  that differ are now a warning (and counted in the evidence), more than 5 % are an error.
* C31: documented limits of the forms, not of drone-yaml: JSON has no infinities, yaml.v2 reads `-0.0` as 0 and
  reads keys that are null differently; these are not generated. Outcomes that depend on which of two events at
  one instant is seen first (`schedule-tie`) are not compared.
* C38: a reference interpreter that did not know how dash and bash differ (status of a program that cannot be
  executed), signals the Go runtime of the stand-ins ignores, arguments longer than the kernel allows.
* C33: `drone/docker` and its full name are one image, yaml reads `1e7` as text, the directory of a detached build
  step is not determined by any declaration.
* C35: combinations beyond the documented limit of a matrix, conditions drone 0.8 did not have.
* C39: a result that varies with the map order even when handled alone is no influence of another request (that
  is C05's business, which found the order of merged legacy sections this way).
* oom: the build with the race detector plus 8 workers exceeded memory; workers are bounded.

## Planted bugs

`seeded/<id>` (each confirmed: compiles, stable tests pass, demo passes without and fails with it). All are
caught by the quick check of their property:

| property | planted bugs |
|---|---|
"""
for p in sorted(rows): t+="| %s | %s |\n"%(p,", ".join(rows[p]))
t+="""
Missed at first and what was strengthened: c02-limit-reader (streams up to 5 MB), c07-fold-keys (case-folding and
numeric keys in nested settings), c09-network-alias (transforms in histories, spare capacity), c21-empty-deps,
c22-status-exclude, c24-abs-path, c25-first-port, c24-prefix, c25-build-service, c26-upper (generator of the run
rig), c02-long-lines (one line of up to 4 MB with documents after it), c07-key-cache (keys with a common
prefix; c07-fold-keys itself no longer applies since 36bd433, c07-fold-settings took its place), c08-secret-lock (callbacks that wait for every other call, or call the library themselves),
c38-subshell, c38-dup-name, c38-errexit (commands that may leave the shell, `set +e`, traps, positional
parameters, names that differ in case), c12-trim (corruption of text a parser would not see: blanks, case, quotes, comments).

## Not applicable

C30, C32, C34, C36, C37 (linter rules, condition matching, image names,
semantics, matrix product, dispatch of documents) are pure functions of one input: no schedule, fault,
clock, crash or second party can change the result, so simulation would only be an input sampler with an
oracle. What *does* depend on the environment or shows up in execution is covered by the claimed properties
(determinism C05-C07, sharing C08-C10, robustness C39, execution C19-C29, C31, C33, C35 and C38, delivery C13-C18).

## Limits

* Search, not proof. Interleavings inside dependencies (yaml.v2, buildkit parser) are atomic.
* The docker host is a model written from docker's documented behaviour; kubernetes is not modelled.
* The reference model of the run rig shares no code with /repo except the parser (it reads the generator's
  own structures, not the parsed ones).
* The disk model knows one file system; no quotas, no network file systems.
* C38 covers POSIX scripts; there is no PowerShell here to execute the scripts of windows pipelines.
* Windows code paths run as far as they are selected by the pipeline's platform (scripts, paths), not on a
  Windows kernel.
"""
h=open('DESIGN.md').read().split("\n## Findings\n")[0].rstrip()+"\n"
open('DESIGN.md','w').write(h+t)
