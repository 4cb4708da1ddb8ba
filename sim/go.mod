module verif.local/sim

go 1.25

require (
	github.com/buildkite/yaml v2.1.0+incompatible
	github.com/drone/drone-runtime v1.0.7-0.20190729202838-87c84080f4a1
	github.com/drone/drone-yaml v0.0.0
)

require (
	github.com/bmatcuk/doublestar v1.1.1 // indirect
	github.com/docker/distribution v2.7.1+incompatible // indirect
	github.com/docker/go-units v0.3.3 // indirect
	github.com/ghodss/yaml v1.0.0 // indirect
	github.com/natessilva/dag v0.0.0-20180124060714-7194b8dcc5c4 // indirect
	github.com/opencontainers/go-digest v1.0.0-rc1 // indirect
	github.com/vinzenz/yaml v0.0.0-20170920082545-91409cdd725d // indirect
	golang.org/x/sync v0.0.0-20180314180146-1d60e4601c6f // indirect
	gopkg.in/yaml.v2 v2.2.2 // indirect
)

exclude docker.io/go-docker v1.0.0

replace github.com/drone/drone-yaml => /repo

replace github.com/natessilva/dag => ../stubs/dag

replace golang.org/x/sync => ../stubs/xsync
