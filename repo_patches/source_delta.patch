From ee78159d07ebd693f3064fd43a2f6c0bf0acb392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 01/43] fix: report read errors and long lines when parsing

ParseRaw ignored the error of its scanner: a reader that failed, or a line
of 64 KiB or more, ended the input silently and the documents read so far
were returned as if they were the whole file. Return the error, and do not
limit the length of a line, since whether a line of exactly the limit was
accepted depended on how the reader split the data.
---
 yaml/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaml/parse.go b/yaml/parse.go
index 522ff79..2765350 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"errors"
 	"io"
+	"math"
 	"os"
 	"strings"
 
@@ -103,6 +104,7 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 	var resource *RawResource
 
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt32)
 	for scanner.Scan() {
 		line := scanner.Text()
 		if isSeparator(line) {
@@ -130,6 +132,9 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 			newline,
 		)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	for _, resource := range resources {
 		err := yaml.Unmarshal(resource.Data, resource)
 		if err != nil {
-- 
2.43.0


From f7087363588872e7e4e36d198f467276c2dfdb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 02/43] fix: convert gitlab jobs in a fixed order

The jobs are decoded into a map, so the order of pipelines, of steps and
the dependencies between the pipelines changed from one conversion of the
same file to the next.
---
 yaml/converter/gitlab/convert.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 7a19938..f94070d 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -6,6 +6,7 @@ package gitlab
 
 import (
 	"bytes"
+	"sort"
 	"strings"
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
@@ -25,12 +26,21 @@ func Convert(b []byte) ([]byte, error) {
 	}
 	manifest := &droneyaml.Manifest{}
 
+	// the jobs are decoded into a map. We visit them in
+	// order of their names, so that the same input always
+	// gives the same output.
+	var names []string
+	for name := range config.Jobs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
 	// if no stages are defined, we create a single,
 	// default stage that will be used for all jobs.
 	if len(config.Stages) == 0 {
-		for name, job := range config.Jobs {
+		for _, name := range names {
 			config.Stages = append(config.Stages, name)
-			job.Stage = name
+			config.Jobs[name].Stage = name
 		}
 	}
 
@@ -41,7 +51,8 @@ func Convert(b []byte) ([]byte, error) {
 		pipeline.Name = stage
 		pipeline.Kind = droneyaml.KindPipeline
 		manifest.Resources = append(manifest.Resources, pipeline)
-		for name, job := range config.Jobs {
+		for _, name := range names {
+			job := config.Jobs[name]
 			if job.Stage != stage {
 				continue
 			}
-- 
2.43.0


From 15437389a4e27c8f26f2c997c09b00fafbb73045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 03/43] fix: convert bitbucket stages and services in a fixed
 order

Tags, branches and services are decoded into maps: which stage was chosen
when several patterns match, and the order of the services, changed from
one conversion of the same file to the next.
---
 yaml/converter/bitbucket/config.go  | 30 +++++++++++++++++++++--------
 yaml/converter/bitbucket/convert.go | 10 ++++++++--
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/yaml/converter/bitbucket/config.go b/yaml/converter/bitbucket/config.go
index a27c25b..1f5adb0 100644
--- a/yaml/converter/bitbucket/config.go
+++ b/yaml/converter/bitbucket/config.go
@@ -6,6 +6,7 @@ package bitbucket
 
 import (
 	"path"
+	"sort"
 	"strings"
 )
 
@@ -75,22 +76,35 @@ type (
 func (c *Config) Pipeline(ref string) Stage {
 	// match pipeline by tag name
 	tag := strings.TrimPrefix(ref, "refs/tags/")
-	for pattern, pipeline := range c.Pipelines.Tags {
-		if ok, _ := path.Match(pattern, tag); ok {
-			return pipeline
-		}
+	if pipeline, ok := match(c.Pipelines.Tags, tag); ok {
+		return pipeline
 	}
 	// match pipeline by branch name
 	branch := strings.TrimPrefix(ref, "refs/heads/")
-	for pattern, pipeline := range c.Pipelines.Branches {
-		if ok, _ := path.Match(pattern, branch); ok {
-			return pipeline
-		}
+	if pipeline, ok := match(c.Pipelines.Branches, branch); ok {
+		return pipeline
 	}
 	// use default
 	return c.Pipelines.Default
 }
 
+// helper function returns the stage whose pattern matches the
+// name. If more than one pattern matches, the first one in
+// alphabetical order is used.
+func match(stages map[string]Stage, name string) (Stage, bool) {
+	var patterns []string
+	for pattern := range stages {
+		patterns = append(patterns, pattern)
+	}
+	sort.Strings(patterns)
+	for _, pattern := range patterns {
+		if ok, _ := path.Match(pattern, name); ok {
+			return stages[pattern], true
+		}
+	}
+	return Stage{}, false
+}
+
 // UnmarshalYAML implements custom parsing for the stage section of the yaml
 // to cleanup the structure a bit.
 func (s *Stage) UnmarshalYAML(unmarshal func(interface{}) error) error {
diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index a365ce1..e09b12b 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -7,6 +7,7 @@ package bitbucket
 import (
 	"bytes"
 	"fmt"
+	"sort"
 
 	droneyaml "github.com/drone/drone-yaml/yaml"
 	"github.com/drone/drone-yaml/yaml/pretty"
@@ -59,8 +60,13 @@ func Convert(b []byte, ref string) ([]byte, error) {
 	// services
 	//
 
-	for name, from := range config.Definitions.Services {
-		to := toContainer(from)
+	var names []string
+	for name := range config.Definitions.Services {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		to := toContainer(config.Definitions.Services[name])
 		to.Name = name
 		pipeline.Services = append(pipeline.Services, to)
 	}
-- 
2.43.0


From defd37ca7197874a01aa877c1c814b2c89f9bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 04/43] fix: expand the legacy matrix in a fixed order

The axes are decoded into maps: the order of the pipelines, and the result
of substituting variables whose values refer to other variables, changed
from one conversion of the same file to the next.
---
 yaml/converter/legacy/internal/config.go |  9 ++++++++-
 yaml/converter/legacy/matrix/matrix.go   | 13 +++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 0eed413..3742d2d 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -235,7 +235,14 @@ func Convert(d []byte, remote string) ([]byte, error) {
 
 			transformed := string(marshaled)
 
-			for key, value := range environ {
+			var keys []string
+			for key := range environ {
+				keys = append(keys, key)
+			}
+			sort.Strings(keys)
+
+			for _, key := range keys {
+				value := environ[key]
 				if strings.Contains(value, "\n") {
 					value = fmt.Sprintf("%q", value)
 				}
diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index 112dd1b..d7c32bd 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -5,6 +5,7 @@
 package matrix
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/buildkite/yaml"
@@ -28,6 +29,7 @@ func (a Axis) String() string {
 	for k, v := range a {
 		envs = append(envs, k+"="+v)
 	}
+	sort.Strings(envs)
 	return strings.Join(envs, " ")
 }
 
@@ -62,12 +64,19 @@ func calc(matrix Matrix) []Axis {
 	// (ie go_version, redis_version, etc)
 	var perm int
 	var tags []string
-	for k, v := range matrix {
+	for k := range matrix {
+		tags = append(tags, k)
+	}
+
+	// the tags are visited in a fixed order, so that the same
+	// matrix always gives the same list.
+	sort.Strings(tags)
+	for _, tag := range tags {
+		v := matrix[tag]
 		perm *= len(v)
 		if perm == 0 {
 			perm = len(v)
 		}
-		tags = append(tags, k)
 	}
 
 	// structure to hold the transformed result set
-- 
2.43.0


From e6753a8467496f9faf30778002e539e8884f8063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 05/43] fix: compile maps in a fixed order

Environment, settings, secrets and volumes are maps: the order of secrets
and volumes, the value of settings whose names differ only in case, and
the alias of an image built under two spellings of its name, changed from
one compilation of the same pipeline to the next.
---
 yaml/compiler/compiler.go         |  2 +-
 yaml/compiler/step.go             | 17 +++++++++++++++--
 yaml/compiler/transform/secret.go | 18 +++++++++++++++---
 yaml/compiler/transform/volume.go |  9 ++++++++-
 4 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index b5884db..f5f0421 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -195,7 +195,7 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 		switch {
 		case container.Build != nil:
 			step = createBuildStep(spec, container)
-			rename[container.Build.Image] = step.Metadata.UID
+			rename[image.Expand(container.Build.Image)] = step.Metadata.UID
 		default:
 			step = createStep(spec, container)
 		}
diff --git a/yaml/compiler/step.go b/yaml/compiler/step.go
index e454540..245a928 100644
--- a/yaml/compiler/step.go
+++ b/yaml/compiler/step.go
@@ -15,6 +15,7 @@
 package compiler
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/drone/drone-runtime/engine"
@@ -87,7 +88,13 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	// appends the environment variables to the
 	// container definition.
-	for key, value := range src.Environment {
+	var envs []string
+	for key := range src.Environment {
+		envs = append(envs, key)
+	}
+	sort.Strings(envs)
+	for _, key := range envs {
+		value := src.Environment[key]
 		// fix https://github.com/drone/drone-yaml/issues/13
 		if value == nil {
 			continue
@@ -105,7 +112,13 @@ func createStep(spec *engine.Spec, src *yaml.Container) *engine.Step {
 
 	// appends the settings variables to the
 	// container definition.
-	for key, value := range src.Settings {
+	var settings []string
+	for key := range src.Settings {
+		settings = append(settings, key)
+	}
+	sort.Strings(settings)
+	for _, key := range settings {
+		value := src.Settings[key]
 		// fix https://github.com/drone/drone-yaml/issues/13
 		if value == nil {
 			continue
diff --git a/yaml/compiler/transform/secret.go b/yaml/compiler/transform/secret.go
index 439dfb3..6f58e4d 100644
--- a/yaml/compiler/transform/secret.go
+++ b/yaml/compiler/transform/secret.go
@@ -15,6 +15,8 @@
 package transform
 
 import (
+	"sort"
+
 	"github.com/drone/drone-runtime/engine"
 	"github.com/drone/drone-yaml/yaml/compiler/internal/rand"
 )
@@ -23,7 +25,13 @@ import (
 // of global secrets to the container.
 func WithSecrets(secrets map[string]string) func(*engine.Spec) {
 	return func(spec *engine.Spec) {
-		for key, value := range secrets {
+		var keys []string
+		for key := range secrets {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+		for _, key := range keys {
+			value := secrets[key]
 			spec.Secrets = append(spec.Secrets,
 				&engine.Secret{
 					Metadata: engine.Metadata{
@@ -49,6 +57,7 @@ func WithSecretFunc(f SecretFunc) func(*engine.Spec) {
 	return func(spec *engine.Spec) {
 		// first we get a unique list of all secrets
 		// used by the specification.
+		var names []string
 		set := map[string]struct{}{}
 		for _, step := range spec.Steps {
 			// if we know the step is not going to run,
@@ -57,14 +66,17 @@ func WithSecretFunc(f SecretFunc) func(*engine.Spec) {
 				continue
 			}
 			for _, v := range step.Secrets {
-				set[v.Name] = struct{}{}
+				if _, ok := set[v.Name]; !ok {
+					set[v.Name] = struct{}{}
+					names = append(names, v.Name)
+				}
 			}
 		}
 
 		// next we use the callback function to
 		// get the value for each secret, and append
 		// to the specification.
-		for name := range set {
+		for _, name := range names {
 			secret := f(name)
 			if secret != nil {
 				secret.Metadata.UID = rand.String()
diff --git a/yaml/compiler/transform/volume.go b/yaml/compiler/transform/volume.go
index 8268310..7b62a04 100644
--- a/yaml/compiler/transform/volume.go
+++ b/yaml/compiler/transform/volume.go
@@ -15,6 +15,7 @@
 package transform
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/drone/drone-runtime/engine"
@@ -25,7 +26,13 @@ import (
 // of global volumes to the container.
 func WithVolumes(volumes map[string]string) func(*engine.Spec) {
 	return func(spec *engine.Spec) {
-		for key, value := range volumes {
+		var keys []string
+		for key := range volumes {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+		for _, key := range keys {
+			value := volumes[key]
 			volume := &engine.Volume{
 				Metadata: engine.Metadata{
 					UID:       rand.String(),
-- 
2.43.0


From f763c64183907566fb682f6a238acbb37f146e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 06/43] fix: do not modify the secrets returned by the callback

WithSecretFunc stored the identifiers of the pipeline in the secret it got
from the callback. A callback that returns the same secret for two
pipelines had the first pipeline, already compiled or running, changed to
refer to the second one's identifiers.
---
 yaml/compiler/transform/secret.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaml/compiler/transform/secret.go b/yaml/compiler/transform/secret.go
index 6f58e4d..be0e9cb 100644
--- a/yaml/compiler/transform/secret.go
+++ b/yaml/compiler/transform/secret.go
@@ -79,6 +79,10 @@ func WithSecretFunc(f SecretFunc) func(*engine.Spec) {
 		for _, name := range names {
 			secret := f(name)
 			if secret != nil {
+				// the secret belongs to the callback, which
+				// may return it again.
+				copied := *secret
+				secret = &copied
 				secret.Metadata.UID = rand.String()
 				secret.Metadata.Namespace = spec.Metadata.Namespace
 				spec.Secrets = append(spec.Secrets, secret)
-- 
2.43.0


From db8ce7895e62b5a2c9c403c6cb4a68020a90a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 07/43] fix: do not write to the depends_on list of a service

The clone step was appended to the slice that belongs to the parsed
configuration. When that slice has spare capacity, two compilations of the
same configuration write to the same memory.
---
 yaml/compiler/compiler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index f5f0421..12216bd 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -178,7 +178,11 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 		// not start until the clone step is complete. Add
 		// the clone step as a dependency in the graph.
 		if isSerial == false && from.Clone.Disable == false {
-			step.DependsOn = append(step.DependsOn, cloneStepName)
+			// the list is copied, since it belongs to the yaml.
+			step.DependsOn = append(
+				append([]string{}, step.DependsOn...),
+				cloneStepName,
+			)
 		}
 		spec.Steps = append(spec.Steps, step)
 	}
-- 
2.43.0


From 1fc2700dc873882d42d88ee3820b1c311e654252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 08/43] fix: wait for the clone if only services have
 dependencies

---
 yaml/compiler/compiler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index 12216bd..b34d64e 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -78,6 +78,13 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 			break
 		}
 	}
+	// the runtime also considers the services.
+	for _, service := range from.Services {
+		if len(service.DependsOn) != 0 {
+			isSerial = false
+			break
+		}
+	}
 
 	spec := &engine.Spec{
 		Metadata: engine.Metadata{
-- 
2.43.0


From a58c548ce56e7d18b8770f8e36a916fa8fd733c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 09/43] fix: lint the dependencies of services

---
 yaml/linter/linter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaml/linter/linter.go b/yaml/linter/linter.go
index 27b35cb..da5e9ec 100644
--- a/yaml/linter/linter.go
+++ b/yaml/linter/linter.go
@@ -106,6 +106,11 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		if err != nil {
 			return err
 		}
+
+		err = checkDeps(container, names)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 62991d96148469d08f411bd2d4a547da70566dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 10/43] fix: rename only images that are built before they are
 used

---
 yaml/compiler/compiler.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index b34d64e..daf930a 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -163,6 +163,7 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// for each pipeline service defined in the yaml
 	// configuration file, convert to a runtime step
 	// and append to the specification.
+	var services []*engine.Step
 	for _, service := range from.Services {
 		step := createStep(spec, service)
 		// note that all services are automatically
@@ -192,6 +193,7 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 			)
 		}
 		spec.Steps = append(spec.Steps, step)
+		services = append(services, step)
 	}
 
 	// rename will store a list of container names
@@ -209,6 +211,7 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 			rename[image.Expand(container.Build.Image)] = step.Metadata.UID
 		default:
 			step = createStep(spec, container)
+			renameImage(step, rename)
 		}
 		setupWorkingDir(container, step, workspace)
 		setupWorkspaceEnv(step, base, dir, workspace)
@@ -251,16 +254,10 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 		spec.Docker.Volumes = append(spec.Docker.Volumes, v)
 	}
 
-	// images created during the pipeline are assigned a
-	// random alias. All references to the origin image
-	// name must be changed to the alias.
-	for _, step := range spec.Steps {
-		for k, v := range rename {
-			if image.MatchTag(step.Docker.Image, k) {
-				img := image.Trim(step.Docker.Image) + ":" + v
-				step.Docker.Image = image.Expand(img)
-			}
-		}
+	// services may use the images that are created during
+	// the pipeline, too.
+	for _, step := range services {
+		renameImage(step, rename)
 	}
 
 	// executes user-defined transformations before the
@@ -272,6 +269,20 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	return spec
 }
 
+// images created during the pipeline are assigned a
+// random alias. All later references to the origin image
+// name must be changed to the alias. This is not the case
+// for the clone step and the build steps, which run images
+// that are not created during the pipeline.
+func renameImage(step *engine.Step, rename map[string]string) {
+	for k, v := range rename {
+		if image.MatchTag(step.Docker.Image, k) {
+			img := image.Trim(step.Docker.Image) + ":" + v
+			step.Docker.Image = image.Expand(img)
+		}
+	}
+}
+
 // return a .git-credentials file. If the user-defined
 // function is nil, a nil credentials file is returned.
 func (c *Compiler) gitCredentials() []byte {
-- 
2.43.0


From f93a8a0b0971df2e454175c0cfbf83d4776de589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 11/43] fix: do not confuse a volume named host with the host
 workspace

---
 yaml/compiler/workspace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/compiler/workspace.go b/yaml/compiler/workspace.go
index 600f4af..049e4c3 100644
--- a/yaml/compiler/workspace.go
+++ b/yaml/compiler/workspace.go
@@ -26,7 +26,7 @@ import (
 const (
 	workspacePath     = "/drone/src"
 	workspaceName     = "workspace"
-	workspaceHostName = "host"
+	workspaceHostName = "_workspace" // not available to users
 )
 
 func setupWorkingDir(src *yaml.Container, dst *engine.Step, path string) {
-- 
2.43.0


From 035d895e048a149c73f2b44a2edad19634fe4b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 12/43] fix: do not mount two volumes at the base of a host
 workspace

---
 yaml/compiler/workspace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/workspace.go b/yaml/compiler/workspace.go
index 049e4c3..d439fd9 100644
--- a/yaml/compiler/workspace.go
+++ b/yaml/compiler/workspace.go
@@ -149,7 +149,9 @@ func MountHostWorkspace(step *engine.Step, base, path, full string) {
 		Name: workspaceHostName,
 		Path: full,
 	})
-	if path != "" {
+	// the path may be the base itself, for example ".", and
+	// two volumes cannot have the same mount path.
+	if path != "" && unixpath.Clean(base) != full {
 		step.Volumes = append(step.Volumes, &engine.VolumeMount{
 			Name: workspaceName,
 			Path: base,
-- 
2.43.0


From c6899c24d90d8894d87375093d1c48280d7bd869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 13/43] fix: do not run images built by the pipeline in
 privileged mode

---
 yaml/compiler/compiler.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/yaml/compiler/compiler.go b/yaml/compiler/compiler.go
index daf930a..1011a6a 100644
--- a/yaml/compiler/compiler.go
+++ b/yaml/compiler/compiler.go
@@ -205,13 +205,14 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 	// and append to the specification.
 	for _, container := range from.Steps {
 		var step *engine.Step
+		var renamed bool
 		switch {
 		case container.Build != nil:
 			step = createBuildStep(spec, container)
 			rename[image.Expand(container.Build.Image)] = step.Metadata.UID
 		default:
 			step = createStep(spec, container)
-			renameImage(step, rename)
+			renamed = renameImage(step, rename)
 		}
 		setupWorkingDir(container, step, workspace)
 		setupWorkspaceEnv(step, base, dir, workspace)
@@ -222,8 +223,10 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 			step.RunPolicy = engine.RunNever
 		}
 		// if the step is a plugin and should be executed
-		// in privileged mode, set the privileged flag.
-		if c.privileged(container) {
+		// in privileged mode, set the privileged flag. An
+		// image that is created during the pipeline is not
+		// the plugin, even if it has the same name.
+		if container.Build == nil && !renamed && c.privileged(container) {
 			step.Docker.Privileged = true
 		}
 		// if the clone step is enabled, the step should
@@ -256,8 +259,10 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 
 	// services may use the images that are created during
 	// the pipeline, too.
-	for _, step := range services {
-		renameImage(step, rename)
+	for i, step := range services {
+		if renameImage(step, rename) {
+			step.Docker.Privileged = from.Services[i].Privileged
+		}
 	}
 
 	// executes user-defined transformations before the
@@ -273,14 +278,17 @@ func (c *Compiler) Compile(from *yaml.Pipeline) *engine.Spec {
 // random alias. All later references to the origin image
 // name must be changed to the alias. This is not the case
 // for the clone step and the build steps, which run images
-// that are not created during the pipeline.
-func renameImage(step *engine.Step, rename map[string]string) {
+// that are not created during the pipeline. It returns true
+// if the image was changed.
+func renameImage(step *engine.Step, rename map[string]string) bool {
 	for k, v := range rename {
 		if image.MatchTag(step.Docker.Image, k) {
 			img := image.Trim(step.Docker.Image) + ":" + v
 			step.Docker.Image = image.Expand(img)
+			return true
 		}
 	}
+	return false
 }
 
 // return a .git-credentials file. If the user-defined
-- 
2.43.0


From 06ac86a4441b2dc65cecd6432de94552f2b44928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 14/43] fix: report errors when printing the signature

---
 main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 9dd0627..fc265ea 100644
--- a/main.go
+++ b/main.go
@@ -157,8 +157,8 @@ func runSign() error {
 	if err != nil {
 		return err
 	}
-	fmt.Println(hmac)
-	return nil
+	_, err = fmt.Println(hmac)
+	return err
 }
 
 func runVerify() error {
@@ -176,8 +176,8 @@ func runVerify() error {
 		return errors.New("cannot verify yaml signature")
 	}
 
-	fmt.Println("success: yaml signature verified")
-	return nil
+	_, err = fmt.Println("success: yaml signature verified")
+	return err
 }
 
 var (
-- 
2.43.0


From 5474391f01a10d1a732a84b521af6b1aea98241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:35 +0000
Subject: [PATCH 15/43] fix: save the converted file if convert is called with
 --save

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index fc265ea..414e69c 100644
--- a/main.go
+++ b/main.go
@@ -114,7 +114,7 @@ func runConvert() error {
 	if err != nil {
 		return err
 	}
-	if *formatSave {
+	if *convertSave {
 		return ioutil.WriteFile(f.Name(), b, 0644)
 	}
 	_, err = io.Copy(os.Stderr, bytes.NewReader(b))
-- 
2.43.0


From b9733a1ca23aed2ad914ac92a8c5cafefb6286f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:37 +0000
Subject: [PATCH 16/43] fix: replace the source file atomically when saving

---
 chown_other.go | 23 +++++++++++++++++++
 chown_unix.go  | 31 +++++++++++++++++++++++++
 main.go        | 62 +++++++++++++++++++++++++++++++++++++++++++++++---
 3 files changed, 113 insertions(+), 3 deletions(-)
 create mode 100644 chown_other.go
 create mode 100644 chown_unix.go

diff --git a/chown_other.go b/chown_other.go
new file mode 100644
index 0000000..73860e7
--- /dev/null
+++ b/chown_other.go
@@ -0,0 +1,23 @@
+//go:build windows || plan9
+// +build windows plan9
+
+// Copyright the Drone Authors.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//      http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+package main
+
+import "os"
+
+// helper function, there are no owners to preserve.
+func chown(f *os.File, info os.FileInfo) {}
diff --git a/chown_unix.go b/chown_unix.go
new file mode 100644
index 0000000..bde3b26
--- /dev/null
+++ b/chown_unix.go
@@ -0,0 +1,31 @@
+//go:build !windows && !plan9
+// +build !windows,!plan9
+
+// Copyright the Drone Authors.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//      http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+package main
+
+import (
+	"os"
+	"syscall"
+)
+
+// helper function makes the owner of the original file the
+// owner of its replacement, where this is permitted.
+func chown(f *os.File, info os.FileInfo) {
+	if stat, ok := info.Sys().(*syscall.Stat_t); ok {
+		f.Chown(int(stat.Uid), int(stat.Gid))
+	}
+}
diff --git a/main.go b/main.go
index 414e69c..5ff6bc5 100644
--- a/main.go
+++ b/main.go
@@ -23,6 +23,7 @@ import (
 	"io/ioutil"
 	"log"
 	"os"
+	"path/filepath"
 	"strings"
 
 	"github.com/drone/drone-runtime/engine"
@@ -94,7 +95,7 @@ func runFormat() error {
 	pretty.Print(b, m)
 
 	if *formatSave {
-		return ioutil.WriteFile(f.Name(), b.Bytes(), 0644)
+		return save(f, b.Bytes())
 	}
 	_, err = io.Copy(os.Stderr, b)
 	return err
@@ -115,7 +116,7 @@ func runConvert() error {
 		return err
 	}
 	if *convertSave {
-		return ioutil.WriteFile(f.Name(), b, 0644)
+		return save(f, b)
 	}
 	_, err = io.Copy(os.Stderr, bytes.NewReader(b))
 	return err
@@ -150,7 +151,7 @@ func runSign() error {
 		if err != nil {
 			return err
 		}
-		return ioutil.WriteFile(f.Name(), out, 0644)
+		return save(f, out)
 	}
 
 	hmac, err := signer.Sign(d, k)
@@ -307,6 +308,61 @@ func runCompile() error {
 	return enc.Encode(compiled)
 }
 
+// helper function replaces the content of the source file. The
+// content is written to a temporary file which then takes the
+// place of the source file, so that an error or a crash cannot
+// leave an incomplete file behind.
+func save(f *os.File, data []byte) error {
+	info, err := os.Stat(f.Name())
+	if err != nil {
+		return err
+	}
+	if !info.Mode().IsRegular() {
+		return ioutil.WriteFile(f.Name(), data, 0644)
+	}
+	name, err := filepath.EvalSymlinks(f.Name())
+	if err != nil {
+		return err
+	}
+	// a file that cannot be written must not be replaced.
+	w, err := os.OpenFile(name, os.O_WRONLY, 0)
+	if err != nil {
+		return err
+	}
+	w.Close()
+
+	dir := filepath.Dir(name)
+	tmp, err := ioutil.TempFile(dir, filepath.Base(name))
+	if err != nil {
+		return err
+	}
+	_, err = tmp.Write(data)
+	if err == nil {
+		chown(tmp, info)
+		err = tmp.Chmod(info.Mode())
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if cerr := tmp.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		f.Close() // an open file cannot be replaced on windows.
+		err = os.Rename(tmp.Name(), name)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+		return err
+	}
+	// directories cannot be synced on every platform.
+	if d, err := os.Open(dir); err == nil {
+		d.Sync()
+		d.Close()
+	}
+	return nil
+}
+
 // helper function returns the git credential function,
 // used to return a git credentials file.
 func defaultCreds() []byte {
-- 
2.43.0


From 3698cad5dc8c0c15b2e82f997a13cc0972808f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 17/43] fix: remove every carriage return at the end of a line

---
 yaml/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaml/parse.go b/yaml/parse.go
index 2765350..8a7237e 100644
--- a/yaml/parse.go
+++ b/yaml/parse.go
@@ -106,7 +106,8 @@ func ParseRaw(r io.Reader) ([]*RawResource, error) {
 	scanner := bufio.NewScanner(r)
 	scanner.Buffer(nil, math.MaxInt32)
 	for scanner.Scan() {
-		line := scanner.Text()
+		// the scanner removes one carriage return only.
+		line := strings.TrimRight(scanner.Text(), "\r")
 		if isSeparator(line) {
 			resource = nil
 		}
-- 
2.43.0


From b3a29f020d83674e8f3acfe72378175ccd9d5ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 18/43] fix: label the volume of a host workspace

---
 yaml/compiler/workspace.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/workspace.go b/yaml/compiler/workspace.go
index d439fd9..fe5ae1d 100644
--- a/yaml/compiler/workspace.go
+++ b/yaml/compiler/workspace.go
@@ -118,8 +118,9 @@ func CreateHostWorkspace(workdir string) func(*engine.Spec) {
 			spec.Docker.Volumes,
 			&engine.Volume{
 				Metadata: engine.Metadata{
-					UID:  rand.String(),
-					Name: workspaceHostName,
+					UID:    rand.String(),
+					Name:   workspaceHostName,
+					Labels: map[string]string{},
 				},
 				HostPath: &engine.VolumeHostPath{
 					Path: workdir,
-- 
2.43.0


From 7d2826e3797c03e1ef73b8fb3a68ee9346f15522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 19/43] fix: compare workspace paths of windows pipelines in
 slash form

---
 yaml/compiler/workspace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/workspace.go b/yaml/compiler/workspace.go
index fe5ae1d..9cc9dfb 100644
--- a/yaml/compiler/workspace.go
+++ b/yaml/compiler/workspace.go
@@ -152,7 +152,8 @@ func MountHostWorkspace(step *engine.Step, base, path, full string) {
 	})
 	// the path may be the base itself, for example ".", and
 	// two volumes cannot have the same mount path.
-	if path != "" && unixpath.Clean(base) != full {
+	clean := unixpath.Clean(strings.Replace(base, "\\", "/", -1))
+	if path != "" && clean != strings.Replace(full, "\\", "/", -1) {
 		step.Volumes = append(step.Volumes, &engine.VolumeMount{
 			Name: workspaceName,
 			Path: base,
-- 
2.43.0


From f33ffabd0eefb0433c8d3bf4d8dd77ced6f94751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 20/43] fix: drop setting keys with the same text when parsing

---
 yaml/param.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/yaml/param.go b/yaml/param.go
index 33cfbdb..781a2a5 100644
--- a/yaml/param.go
+++ b/yaml/param.go
@@ -14,6 +14,8 @@
 
 package yaml
 
+import "fmt"
+
 type (
 	// Parameter represents an configuration parameter that
 	// can be defined as a literal or as a reference
@@ -40,7 +42,7 @@ func (p *Parameter) UnmarshalYAML(unmarshal func(interface{}) error) error {
 	}
 	var i interface{}
 	err = unmarshal(&i)
-	p.Value = i
+	p.Value = uniqueKeys(i)
 	return err
 }
 
@@ -56,3 +58,33 @@ func (p *Parameter) MarshalYAML() (interface{}, error) {
 	}
 	return nil, nil
 }
+
+// helper function removes all but one of the map keys that
+// have the same text, for example 1 and "1". A parameter is
+// encoded with textual keys, and which of the values is used
+// would depend on the order of the map.
+func uniqueKeys(v interface{}) interface{} {
+	switch v := v.(type) {
+	case []interface{}:
+		for i := range v {
+			v[i] = uniqueKeys(v[i])
+		}
+	case map[interface{}]interface{}:
+		keys := map[string]interface{}{}
+		for k := range v {
+			s := fmt.Sprint(k)
+			p, ok := keys[s]
+			if !ok || fmt.Sprintf("%T", k) > fmt.Sprintf("%T", p) {
+				keys[s] = k
+			}
+		}
+		for k, val := range v {
+			if keys[fmt.Sprint(k)] == k {
+				v[k] = uniqueKeys(val)
+			} else {
+				delete(v, k)
+			}
+		}
+	}
+	return v
+}
-- 
2.43.0


From c2636a02c1565377f79bdd0ef7e71ef9fd357cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 21/43] fix: encode and decode parameters of any type in JSON

---
 yaml/param.go | 86 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 85 insertions(+), 1 deletion(-)

diff --git a/yaml/param.go b/yaml/param.go
index 781a2a5..bc215b7 100644
--- a/yaml/param.go
+++ b/yaml/param.go
@@ -14,7 +14,12 @@
 
 package yaml
 
-import "fmt"
+import (
+	"bytes"
+	"encoding/json"
+	"fmt"
+	"strconv"
+)
 
 type (
 	// Parameter represents an configuration parameter that
@@ -59,6 +64,85 @@ func (p *Parameter) MarshalYAML() (interface{}, error) {
 	return nil, nil
 }
 
+// MarshalJSON implements json marshalling. The json package
+// does not support the maps of the yaml package, which have
+// keys of any type.
+func (p *Parameter) MarshalJSON() ([]byte, error) {
+	type plain Parameter
+	out := plain(*p)
+	out.Value = toJSON(p.Value)
+	return json.Marshal(out)
+}
+
+// UnmarshalJSON implements json unmarshalling. It does not
+// convert integers to floating point numbers.
+func (p *Parameter) UnmarshalJSON(b []byte) error {
+	type plain Parameter
+	out := plain{}
+	dec := json.NewDecoder(bytes.NewReader(b))
+	dec.UseNumber()
+	if err := dec.Decode(&out); err != nil {
+		return err
+	}
+	p.Value = fromJSON(out.Value)
+	p.Secret = out.Secret
+	return nil
+}
+
+// helper function returns a copy of a value unmarshaled by
+// the yaml package that can be encoded as json.
+func toJSON(v interface{}) interface{} {
+	switch v := v.(type) {
+	case []interface{}:
+		out := make([]interface{}, len(v))
+		for i := range v {
+			out[i] = toJSON(v[i])
+		}
+		return out
+	case map[interface{}]interface{}:
+		out := make(map[string]interface{}, len(v))
+		for k, val := range v {
+			out[fmt.Sprint(k)] = toJSON(val)
+		}
+		return out
+	case float64:
+		// an exponent distinguishes it from an integer.
+		s := strconv.FormatFloat(v, 'g', -1, 64)
+		if json.Valid([]byte(s)) {
+			return json.Number(s)
+		}
+	}
+	return v
+}
+
+// helper function replaces the numbers and maps of a json
+// value with the types used by the yaml package.
+func fromJSON(v interface{}) interface{} {
+	switch v := v.(type) {
+	case []interface{}:
+		for i := range v {
+			v[i] = fromJSON(v[i])
+		}
+	case map[string]interface{}:
+		out := make(map[interface{}]interface{}, len(v))
+		for k, val := range v {
+			out[k] = fromJSON(val)
+		}
+		return out
+	case json.Number:
+		if i, err := strconv.Atoi(v.String()); err == nil {
+			return i
+		}
+		if u, err := strconv.ParseUint(v.String(), 10, 64); err == nil {
+			return u
+		}
+		if f, err := v.Float64(); err == nil {
+			return f
+		}
+	}
+	return v
+}
+
 // helper function removes all but one of the map keys that
 // have the same text, for example 1 and "1". A parameter is
 // encoded with textual keys, and which of the values is used
-- 
2.43.0


From 9d786f91529dbceb0d158b1bc3957fe6ee14f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:31 +0000
Subject: [PATCH 22/43] fix: reject a service without an image

---
 yaml/linter/linter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaml/linter/linter.go b/yaml/linter/linter.go
index da5e9ec..644babb 100644
--- a/yaml/linter/linter.go
+++ b/yaml/linter/linter.go
@@ -102,6 +102,12 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		}
 		names[container.Name] = struct{}{}
 
+		// the build section has no meaning for a service,
+		// which therefore always requires an image.
+		if container.Image == "" {
+			return errors.New("linter: invalid or missing image")
+		}
+
 		err := checkContainer(container, trusted)
 		if err != nil {
 			return err
-- 
2.43.0


From 06dea3f7d810a2674b655b355c31a4dab9a1fe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 23/43] fix: encode empty variables and settings in yaml

Manifest.Encode wrote null for an empty environment variable or setting,
which is not defined any more when the encoded file is read back.
---
 yaml/env.go   | 5 +----
 yaml/param.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/yaml/env.go b/yaml/env.go
index 9b8e002..c397786 100644
--- a/yaml/env.go
+++ b/yaml/env.go
@@ -50,8 +50,5 @@ func (v *Variable) MarshalYAML() (interface{}, error) {
 		m["from_secret"] = v.Secret
 		return m, nil
 	}
-	if v.Value != "" {
-		return v.Value, nil
-	}
-	return nil, nil
+	return v.Value, nil
 }
diff --git a/yaml/param.go b/yaml/param.go
index bc215b7..82971b4 100644
--- a/yaml/param.go
+++ b/yaml/param.go
@@ -58,10 +58,7 @@ func (p *Parameter) MarshalYAML() (interface{}, error) {
 		m["from_secret"] = p.Secret
 		return m, nil
 	}
-	if p.Value != "" {
-		return p.Value, nil
-	}
-	return nil, nil
+	return p.Value, nil
 }
 
 // MarshalJSON implements json marshalling. The json package
-- 
2.43.0


From 36bd4339e67e212fd51902768a8c631a8b7ec2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 24/43] fix: format values so that they are read back unchanged

Strings such as "~", "&&x" or ones with control characters were written
plain; inside settings also strings that look like a number or boolean.
Settings with keys that are not strings lost their values, large integers
and infinities were dropped and sizes were rounded.
---
 yaml/pretty/util.go   | 59 ++++++++++++++++++++++++++++++++++++++++---
 yaml/pretty/writer.go | 54 ++++++++++++++++++++++++++++++++-------
 2 files changed, 101 insertions(+), 12 deletions(-)

diff --git a/yaml/pretty/util.go b/yaml/pretty/util.go
index 749543b..020419c 100644
--- a/yaml/pretty/util.go
+++ b/yaml/pretty/util.go
@@ -15,14 +15,19 @@
 package pretty
 
 import (
+	"regexp"
+	"strconv"
 	"strings"
 
 	"github.com/drone/drone-yaml/yaml"
+
+	yamlv2 "github.com/buildkite/yaml"
+	"github.com/docker/go-units"
 )
 
 func isPrimative(v interface{}) bool {
 	switch v.(type) {
-	case bool, string, int, int64, float64:
+	case bool, string, int, int64, uint64, float64:
 		return true
 	case yaml.BytesSize:
 		return true
@@ -116,7 +121,7 @@ func isQuoted(s string) bool {
 	var prev rune
 	for _, b := range s {
 		switch {
-		case isEscapeCode(b):
+		case isEscapeCode(b), !strconv.IsPrint(b):
 			return true
 		case b == ' ' && prev == ':':
 			return true
@@ -128,7 +133,45 @@ func isQuoted(s string) bool {
 
 	// if the string ends in : it should be quoted otherwise
 	// it is interpreted as an object.
-	return strings.HasSuffix(t, ":")
+	if strings.HasSuffix(t, ":") || s == "<<" {
+		return true
+	}
+
+	// if the string cannot be read back, or is read as null,
+	// it should be quoted. Numbers and booleans are read back
+	// as strings where a string is expected.
+	if tagOrAnchor.MatchString(s) {
+		return false
+	}
+	switch v := parseScalar(s).(type) {
+	case bool, int, int64, uint64, float64:
+		return false
+	default:
+		return v != s
+	}
+}
+
+// tags and anchors are not quoted.
+var tagOrAnchor = regexp.MustCompile(`^[&!]\w+$`)
+
+// helper function returns true if the string is read back as
+// a value of another type and therefore needs to be quoted
+// where any type of value is expected.
+func isAmbiguous(s string) bool {
+	return parseScalar(s) != s
+}
+
+// helper function returns the value of the plain string, or
+// nil if the string is not a scalar.
+func parseScalar(s string) (v interface{}) {
+	if err := yamlv2.Unmarshal([]byte(s), &v); err != nil {
+		return nil
+	}
+	switch v.(type) {
+	case []interface{}, map[interface{}]interface{}:
+		return nil
+	}
+	return v
 }
 
 func chunk(s string, chunkSize int) []string {
@@ -145,3 +188,13 @@ func chunk(s string, chunkSize int) []string {
 	}
 	return chunks
 }
+
+// helper function formats the size in human-readable format
+// unless the number of bytes is lost.
+func formatSize(v yaml.BytesSize) string {
+	s := v.String()
+	if n, err := units.RAMInBytes(s); err != nil || n != int64(v) {
+		return strconv.FormatInt(int64(v), 10)
+	}
+	return s
+}
diff --git a/yaml/pretty/writer.go b/yaml/pretty/writer.go
index 3b38362..6eda0a1 100644
--- a/yaml/pretty/writer.go
+++ b/yaml/pretty/writer.go
@@ -17,6 +17,7 @@ package pretty
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 
@@ -196,6 +197,17 @@ func writeBool(w writer, v bool) {
 }
 
 func writeFloat(w writer, v float64) {
+	switch {
+	case math.IsNaN(v):
+		w.WriteString(".nan")
+		return
+	case math.IsInf(v, 1):
+		w.WriteString(".inf")
+		return
+	case math.IsInf(v, -1):
+		w.WriteString("-.inf")
+		return
+	}
 	w.WriteString(
 		strconv.FormatFloat(v, 'g', -1, 64),
 	)
@@ -213,6 +225,12 @@ func writeInt64(w writer, v int64) {
 	)
 }
 
+func writeUint64(w writer, v uint64) {
+	w.WriteString(
+		strconv.FormatUint(v, 10),
+	)
+}
+
 func writeEncode(w writer, v string) {
 	if len(v) == 0 {
 		w.WriteByte('"')
@@ -232,7 +250,7 @@ func writeValue(w writer, v interface{}) {
 		return
 	}
 	switch v := v.(type) {
-	case bool, int, int64, float64, string:
+	case bool, int, int64, uint64, float64, string:
 		writeScalar(w, v)
 	case []interface{}:
 		writeSequence(w, v)
@@ -243,8 +261,19 @@ func writeValue(w writer, v interface{}) {
 	case map[string]string:
 		writeMappingStr(w, v)
 	case yaml.BytesSize:
-		writeValue(w, v.String())
+		writeValue(w, formatSize(v))
+	}
+}
+
+// writeLiteral writes a value whose type is not known to the
+// reader, hence a string that looks like a number or boolean
+// is quoted.
+func writeLiteral(w writer, v interface{}) {
+	if s, ok := v.(string); ok && isAmbiguous(s) {
+		fmt.Fprintf(w, "%q", s)
+		return
 	}
+	writeValue(w, v)
 }
 
 func writeScalar(w writer, v interface{}) {
@@ -255,6 +284,8 @@ func writeScalar(w writer, v interface{}) {
 		writeInt(w, v)
 	case int64:
 		writeInt64(w, v)
+	case uint64:
+		writeUint64(w, v)
 	case float64:
 		writeFloat(w, v)
 	case string:
@@ -276,7 +307,7 @@ func writeSequence(w writer, v []interface{}) {
 		w.WriteByte('-')
 		w.WriteByte(' ')
 		w.IndentIncrease()
-		writeValue(w, v)
+		writeLiteral(w, v)
 		w.IndentDecrease()
 	}
 }
@@ -304,23 +335,28 @@ func writeMapping(w writer, v map[interface{}]interface{}) {
 		w.WriteByte('}')
 		return
 	}
-	var keys []string
+	var keys []interface{}
 	for k := range v {
-		s := fmt.Sprint(k)
-		keys = append(keys, s)
+		keys = append(keys, k)
 	}
-	sort.Strings(keys)
+	sort.Slice(keys, func(i, j int) bool {
+		a, b := fmt.Sprint(keys[i]), fmt.Sprint(keys[j])
+		if a == b {
+			a, b = fmt.Sprintf("%T", keys[i]), fmt.Sprintf("%T", keys[j])
+		}
+		return a < b
+	})
 	for i, k := range keys {
 		v := v[k]
 		if i != 0 {
 			w.WriteByte('\n')
 			w.Indent()
 		}
-		writeEncode(w, k)
+		writeLiteral(w, k)
 		w.WriteByte(':')
 		if v == nil || isPrimative(v) || isZero(v) {
 			w.WriteByte(' ')
-			writeValue(w, v)
+			writeLiteral(w, v)
 		} else {
 			slice := isSlice(v)
 			if !slice {
-- 
2.43.0


From d903dddf21e7fe8949e0af1bba51df793b4e2384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 25/43] fix: format null and empty variables and settings

A null variable or setting made the formatter panic, an empty variable was
dropped, an empty list or mapping as a setting yielded invalid yaml and an
empty resources section disappeared only when formatted twice.
---
 yaml/pretty/container.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index afcfd17..912f5a9 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -62,7 +62,7 @@ func printContainer(w writer, v *yaml.Container) {
 	if len(v.Ports) > 0 {
 		printPorts(w, v.Ports)
 	}
-	if v.Resources != nil {
+	if !isResourcesEmpty(v.Resources) {
 		printResources(w, v.Resources)
 	}
 	if len(v.Volumes) > 0 {
@@ -124,8 +124,13 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 	w.IndentIncrease()
 	for _, k := range keys {
 		v := v[k]
-		if v.Secret == "" {
-			w.WriteTagValue(k, v.Value)
+		if v == nil {
+			w.WriteTag(k)
+			w.WriteString(" ~")
+		} else if v.Secret == "" {
+			w.WriteTag(k)
+			w.WriteByte(' ')
+			writeEncode(w, v.Value)
 		} else {
 			w.WriteTag(k)
 			w.IndentIncrease()
@@ -164,14 +169,14 @@ func printResources(w writer, v *yaml.Resources) {
 	w.WriteTag("resources")
 	w.IndentIncrease()
 
-	if v.Limits != nil {
+	if !isResourceEmpty(v.Limits) {
 		w.WriteTag("limits")
 		w.IndentIncrease()
 		w.WriteTagValue("cpu", v.Limits.CPU)
 		w.WriteTagValue("memory", v.Limits.Memory)
 		w.IndentDecrease()
 	}
-	if v.Requests != nil {
+	if !isResourceEmpty(v.Requests) {
 		w.WriteTag("requests")
 		w.IndentIncrease()
 		w.WriteTagValue("cpu", v.Requests.CPU)
@@ -181,6 +186,16 @@ func printResources(w writer, v *yaml.Resources) {
 	w.IndentDecrease()
 }
 
+// helper function returns true if the resource mapping is
+// empty.
+func isResourcesEmpty(v *yaml.Resources) bool {
+	return v == nil || isResourceEmpty(v.Limits) && isResourceEmpty(v.Requests)
+}
+
+func isResourceEmpty(v *yaml.ResourceObject) bool {
+	return v == nil || v.CPU == 0 && v.Memory == 0
+}
+
 // helper function pretty prints the resoure mapping.
 func printSettings(w writer, v map[string]*yaml.Parameter) {
 	var keys []string
@@ -193,10 +208,15 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 	w.IndentIncrease()
 	for _, k := range keys {
 		v := v[k]
-		if v.Secret == "" {
-			w.IncludeZero()
+		if v == nil {
+			w.WriteTag(k)
+			w.WriteString(" ~")
+		} else if v.Secret == "" && (v.Value == nil || isPrimative(v.Value) || isZero(v.Value)) {
+			w.WriteTag(k)
+			w.WriteByte(' ')
+			writeLiteral(w, v.Value)
+		} else if v.Secret == "" {
 			w.WriteTagValue(k, v.Value)
-			w.ExcludeZero()
 		} else {
 			w.WriteTag(k)
 			w.IndentIncrease()
-- 
2.43.0


From d73b1765417aa44144e6c2f426d9512590bea813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:35 +0000
Subject: [PATCH 26/43] fix: do not execute command substitutions in the trace

The trace of a command was printed with its backquotes inside double
quotes: the command in the backquotes was executed twice, first when the
trace was printed.
---
 yaml/compiler/script_posix.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/compiler/script_posix.go b/yaml/compiler/script_posix.go
index ea5b2ed..1628326 100644
--- a/yaml/compiler/script_posix.go
+++ b/yaml/compiler/script_posix.go
@@ -29,6 +29,7 @@ func setupScript(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 	for _, command := range src.Commands {
 		escaped := fmt.Sprintf("%q", command)
 		escaped = strings.Replace(escaped, "$", `\$`, -1)
+		escaped = strings.Replace(escaped, "`", "\\`", -1)
 		buf.WriteString(fmt.Sprintf(
 			traceScript,
 			escaped,
-- 
2.43.0


From 393a9226cec41af2f375bd7e1e8680aaef86322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:11 +0000
Subject: [PATCH 27/43] fix: protect the netrc file in a home directory with a
 space

The path was split into words when the mode of the file was changed: the
file with the git credentials remained readable by everyone.
---
 yaml/compiler/script_posix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/script_posix.go b/yaml/compiler/script_posix.go
index 1628326..e0bb261 100644
--- a/yaml/compiler/script_posix.go
+++ b/yaml/compiler/script_posix.go
@@ -62,12 +62,12 @@ func setupScript(spec *engine.Spec, dst *engine.Step, src *yaml.Container) {
 // to prepare the environment and execute the build commands.
 const buildScript = `
 if [ -n "$CI_NETRC_MACHINE" ]; then
-cat <<EOF > $HOME/.netrc
+cat <<EOF > "$HOME/.netrc"
 machine $CI_NETRC_MACHINE
 login $CI_NETRC_USERNAME
 password $CI_NETRC_PASSWORD
 EOF
-chmod 0600 $HOME/.netrc
+chmod 0600 "$HOME/.netrc"
 fi
 unset CI_NETRC_USERNAME
 unset CI_NETRC_PASSWORD
-- 
2.43.0


From 14dd484aa3aa806fac352fc61c94436ccde191a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:56 +0000
Subject: [PATCH 28/43] fix: use the working directory of a service

The working directory that a service without commands declares was
ignored, unless the service was also marked as detached: services are
detached only after the step was created.
---
 yaml/compiler/workspace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/workspace.go b/yaml/compiler/workspace.go
index 9cc9dfb..29fed20 100644
--- a/yaml/compiler/workspace.go
+++ b/yaml/compiler/workspace.go
@@ -37,8 +37,10 @@ func setupWorkingDir(src *yaml.Container, dst *engine.Step, path string) {
 	}
 	// if the user is running the container as a
 	// service (detached mode) with no commands, we
-	// should use the default working directory.
+	// should use the user-defined working directory,
+	// which may be empty.
 	if dst.Detach && len(src.Commands) == 0 {
+		dst.WorkingDir = src.WorkingDir
 		return
 	}
 	// else set the working directory.
-- 
2.43.0


From 887a0aa540ffc8160ed6636f4a3a8c530f3b5094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:56 +0000
Subject: [PATCH 29/43] fix: keep git credentials apart from the scripts of the
 steps

The script of a step named .git-credentials was the credentials file, so
that the step traced and executed it.
---
 yaml/compiler/clone.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yaml/compiler/clone.go b/yaml/compiler/clone.go
index 8b51c20..03a5d79 100644
--- a/yaml/compiler/clone.go
+++ b/yaml/compiler/clone.go
@@ -72,15 +72,20 @@ func setupCloneCredentials(spec *engine.Spec, dst *engine.Step, data []byte) {
 	}
 	// TODO(bradrydzewski) we may need to update the git
 	// clone plugin to configure the git credential store.
+	//
+	// the files are found by name, and scripts are named
+	// after their step. The name is random, so that it is
+	// never the name of a step.
+	name := rand.String()
 	dst.Files = append(dst.Files, &engine.FileMount{
-		Name: ".git-credentials",
+		Name: name,
 		Path: "/root/.git-credentials",
 	})
 	spec.Files = append(spec.Files, &engine.File{
 		Metadata: engine.Metadata{
 			UID:       rand.String(),
 			Namespace: spec.Metadata.Namespace,
-			Name:      ".git-credentials",
+			Name:      name,
 		},
 		Data: data,
 	})
-- 
2.43.0


From 7cde8c32fdca67fbdf77a37c388ff5c3b62da47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 30/43] fix: do not execute hidden gitlab jobs

---
 yaml/converter/gitlab/convert.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index f94070d..4f68b64 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -31,6 +31,11 @@ func Convert(b []byte) ([]byte, error) {
 	// gives the same output.
 	var names []string
 	for name := range config.Jobs {
+		// jobs that start with a dot are hidden, they
+		// are templates and never executed.
+		if strings.HasPrefix(name, ".") {
+			continue
+		}
 		names = append(names, name)
 	}
 	sort.Strings(names)
-- 
2.43.0


From da16d2dcaa433ce6c298c0bd25d0143b79d947cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 31/43] fix: convert allow_failure of gitlab jobs

---
 yaml/converter/gitlab/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaml/converter/gitlab/config.go b/yaml/converter/gitlab/config.go
index bab4c04..f97db3b 100644
--- a/yaml/converter/gitlab/config.go
+++ b/yaml/converter/gitlab/config.go
@@ -87,7 +87,7 @@ type (
 
 		// Allow job to fail. Failed job doesn’t contribute
 		// to commit status
-		AllowFailure bool
+		AllowFailure bool `yaml:"allow_failure"`
 
 		// Define when to run job. Can be on_success, on_failure,
 		// always or manual
-- 
2.43.0


From d83ece7920c41d1220a06bd4f05440c53298a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 32/43] fix: legacy matrix conditions require all their values

---
 yaml/converter/legacy/internal/config.go | 33 ++++++++++--------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 3742d2d..a097290 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -195,34 +195,16 @@ func Convert(d []byte, remote string) ([]byte, error) {
 
 			services := make([]*droneyaml.Container, 0)
 			for _, service := range current.Services {
-				if len(service.When.Matrix) == 0 {
+				if matchMatrix(service.When.Matrix, environ) {
 					services = append(services, service)
-					continue
-				}
-
-				for whenKey, whenValue := range service.When.Matrix {
-					for envKey, envValue := range environ {
-						if whenKey == envKey && whenValue == envValue {
-							services = append(services, service)
-						}
-					}
 				}
 			}
 			current.Services = services
 
 			steps := make([]*droneyaml.Container, 0)
 			for _, step := range current.Steps {
-				if len(step.When.Matrix) == 0 {
+				if matchMatrix(step.When.Matrix, environ) {
 					steps = append(steps, step)
-					continue
-				}
-
-				for whenKey, whenValue := range step.When.Matrix {
-					for envKey, envValue := range environ {
-						if whenKey == envKey && whenValue == envValue {
-							steps = append(steps, step)
-						}
-					}
 				}
 			}
 			current.Steps = steps
@@ -271,6 +253,17 @@ func Convert(d []byte, remote string) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// helper function returns true if the axis has all values
+// the matrix condition requires.
+func matchMatrix(when map[string]string, axis matrix.Axis) bool {
+	for key, value := range when {
+		if v, ok := axis[key]; !ok || v != value {
+			return false
+		}
+	}
+	return true
+}
+
 func toContainer(from *Container) *droneyaml.Container {
 	return &droneyaml.Container{
 		Name:        from.Name,
-- 
2.43.0


From 8890aeb3768760e83a2e0ea3f8516d229127a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 33/43] fix: declare the volumes of the legacy clone section

---
 yaml/converter/legacy/internal/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index a097290..744e391 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -427,6 +427,7 @@ func toVolumes(from *Config) []*droneyaml.Volume {
 	to := []*droneyaml.Volume{}
 
 	containers := []*Container{}
+	containers = append(containers, from.Clone.Containers...)
 	containers = append(containers, from.Pipeline.Containers...)
 	containers = append(containers, from.Services.Containers...)
 
-- 
2.43.0


From 738b4a5870372fa1d23fb32a78d4824da39734fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 34/43] fix: keep the order of legacy steps and services when
 merge keys are expanded

---
 yaml/converter/legacy/internal/yaml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaml/converter/legacy/internal/yaml.go b/yaml/converter/legacy/internal/yaml.go
index 0b1d33f..305491b 100644
--- a/yaml/converter/legacy/internal/yaml.go
+++ b/yaml/converter/legacy/internal/yaml.go
@@ -12,6 +12,8 @@ import (
 
 type temporary struct {
 	Attributes map[string]interface{} `yaml:",inline"`
+	Clone      yaml.MapSlice          `yaml:"clone,omitempty"`
+	Services   yaml.MapSlice          `yaml:"services,omitempty"`
 	Pipeline   yaml.MapSlice          `yaml:"pipeline"`
 }
 
-- 
2.43.0


From 3ee9218e44cf4c1791896b7c5a94312ee73adfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 35/43] fix: convert the variables of bitbucket steps and
 services

---
 yaml/converter/bitbucket/convert.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index e09b12b..d0e4629 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -85,8 +85,21 @@ func Convert(b []byte, ref string) ([]byte, error) {
 
 func toContainer(from *Step) *droneyaml.Container {
 	return &droneyaml.Container{
-		Name:     from.Name,
-		Image:    from.Image,
-		Commands: from.Script,
+		Name:        from.Name,
+		Image:       from.Image,
+		Commands:    from.Script,
+		Environment: toEnvironment(from.Variables),
 	}
 }
+
+// helper function converts the variables of a step or
+// service to the environment.
+func toEnvironment(from map[string]string) map[string]*droneyaml.Variable {
+	envs := map[string]*droneyaml.Variable{}
+	for key, val := range from {
+		envs[key] = &droneyaml.Variable{
+			Value: val,
+		}
+	}
+	return envs
+}
-- 
2.43.0


From 9f8163d5433d2a66ea840d8bcefd710b67656d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:13 +0000
Subject: [PATCH 36/43] fix: round cpu limits to the nearest millicpu

---
 yaml/compiler/convert.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaml/compiler/convert.go b/yaml/compiler/convert.go
index 245c81e..c0700d9 100644
--- a/yaml/compiler/convert.go
+++ b/yaml/compiler/convert.go
@@ -15,6 +15,7 @@
 package compiler
 
 import (
+	"math"
 	"strings"
 
 	"github.com/drone/drone-runtime/engine"
@@ -91,7 +92,7 @@ func toResourceObject(from *yaml.ResourceObject) *engine.ResourceObject {
 
 func toCPUMillis(f float64) int64 {
 	if f > 0 {
-		f *= 1000
+		f = math.Round(f * 1000)
 	}
 	return int64(f)
 }
-- 
2.43.0


From 2f7a6f9964fccf34c79abdf2d15ce1da95c35a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:25 +0000
Subject: [PATCH 37/43] fix: reject empty steps, services, ports and volumes
 instead of crashing in the linter

---
 yaml/linter/linter.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/yaml/linter/linter.go b/yaml/linter/linter.go
index 644babb..4e8cb3a 100644
--- a/yaml/linter/linter.go
+++ b/yaml/linter/linter.go
@@ -79,6 +79,9 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		names["clone"] = struct{}{}
 	}
 	for _, container := range pipeline.Steps {
+		if container == nil {
+			return errors.New("linter: invalid or missing step")
+		}
 		_, ok := names[container.Name]
 		if ok {
 			return ErrDuplicateStepName
@@ -96,6 +99,9 @@ func checkPipeline(pipeline *yaml.Pipeline, trusted bool) error {
 		}
 	}
 	for _, container := range pipeline.Services {
+		if container == nil {
+			return errors.New("linter: invalid or missing service")
+		}
 		_, ok := names[container.Name]
 		if ok {
 			return ErrDuplicateStepName
@@ -170,6 +176,9 @@ func checkContainer(container *yaml.Container, trusted bool) error {
 		return errors.New("linter: untrusted repositories cannot configure network_mode")
 	}
 	for _, mount := range container.Volumes {
+		if mount == nil {
+			return errors.New("linter: invalid or missing volume")
+		}
 		switch mount.Name {
 		case "workspace", "_workspace", "_docker_socket":
 			return fmt.Errorf("linter: invalid volume name: %s", mount.Name)
@@ -180,6 +189,9 @@ func checkContainer(container *yaml.Container, trusted bool) error {
 
 func checkPorts(ports []*yaml.Port, trusted bool) error {
 	for _, port := range ports {
+		if port == nil {
+			return errors.New("linter: invalid or missing port")
+		}
 		err := checkPort(port, trusted)
 		if err != nil {
 			return err
@@ -197,6 +209,9 @@ func checkPort(port *yaml.Port, trusted bool) error {
 
 func checkVolumes(pipeline *yaml.Pipeline, trusted bool) error {
 	for _, volume := range pipeline.Volumes {
+		if volume == nil {
+			return errors.New("linter: invalid or missing volume")
+		}
 		if volume.EmptyDir != nil {
 			err := checkEmptyDirVolume(volume.EmptyDir, trusted)
 			if err != nil {
-- 
2.43.0


From ed0e67c770861ac4fc0831d4db5861125f6260da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:25 +0000
Subject: [PATCH 38/43] fix: skip empty ports, devices and volumes instead of
 crashing in the formatter

---
 yaml/pretty/container.go | 9 +++++++++
 yaml/pretty/pipeline.go  | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/yaml/pretty/container.go b/yaml/pretty/container.go
index 912f5a9..6134a85 100644
--- a/yaml/pretty/container.go
+++ b/yaml/pretty/container.go
@@ -103,6 +103,9 @@ func printDependsOn(w writer, v []string) {
 func printDeviceMounts(w writer, v []*yaml.VolumeDevice) {
 	w.WriteTag("devices")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
@@ -145,6 +148,9 @@ func printEnviron(w writer, v map[string]*yaml.Variable) {
 func printPorts(w writer, v []*yaml.Port) {
 	w.WriteTag("ports")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		if shortPort(v) {
 			w.WriteByte('\n')
 			w.Indent()
@@ -231,6 +237,9 @@ func printSettings(w writer, v map[string]*yaml.Parameter) {
 func printVolumeMounts(w writer, v []*yaml.VolumeMount) {
 	w.WriteTag("volumes")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
diff --git a/yaml/pretty/pipeline.go b/yaml/pretty/pipeline.go
index e6cafdb..9495b6e 100644
--- a/yaml/pretty/pipeline.go
+++ b/yaml/pretty/pipeline.go
@@ -207,6 +207,9 @@ func printPlatformDefault(w writer) {
 func printVolumes(w writer, v []*yaml.Volume) {
 	w.WriteTag("volumes")
 	for _, v := range v {
+		if v == nil {
+			continue
+		}
 		s := new(indexWriter)
 		s.writer = w
 		s.IndentIncrease()
-- 
2.43.0


From 30f0bb5cb33f7825108e07de21ea7ac6ad7830b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:25 +0000
Subject: [PATCH 39/43] fix: skip empty gitlab jobs and services

---
 yaml/converter/gitlab/convert.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yaml/converter/gitlab/convert.go b/yaml/converter/gitlab/convert.go
index 4f68b64..ca29aa9 100644
--- a/yaml/converter/gitlab/convert.go
+++ b/yaml/converter/gitlab/convert.go
@@ -36,6 +36,10 @@ func Convert(b []byte) ([]byte, error) {
 		if strings.HasPrefix(name, ".") {
 			continue
 		}
+		// jobs may be empty.
+		if config.Jobs[name] == nil {
+			continue
+		}
 		names = append(names, name)
 	}
 	sort.Strings(names)
@@ -92,6 +96,9 @@ func Convert(b []byte) ([]byte, error) {
 		}
 
 		for _, step := range config.Services {
+			if step == nil {
+				continue
+			}
 			step := &droneyaml.Container{
 				Name:       step.Alias,
 				Image:      step.Name,
-- 
2.43.0


From e0174239b54f643aa5dce2db46e06089e3a03906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:25 +0000
Subject: [PATCH 40/43] fix: skip empty bitbucket steps and services

---
 yaml/converter/bitbucket/config.go  | 4 ++++
 yaml/converter/bitbucket/convert.go | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/yaml/converter/bitbucket/config.go b/yaml/converter/bitbucket/config.go
index 1f5adb0..d701959 100644
--- a/yaml/converter/bitbucket/config.go
+++ b/yaml/converter/bitbucket/config.go
@@ -116,6 +116,10 @@ func (s *Stage) UnmarshalYAML(unmarshal func(interface{}) error) error {
 		return err
 	}
 	for _, step := range in {
+		// the step may be empty.
+		if step.Step == nil {
+			continue
+		}
 		s.Steps = append(s.Steps, step.Step)
 	}
 	return nil
diff --git a/yaml/converter/bitbucket/convert.go b/yaml/converter/bitbucket/convert.go
index d0e4629..e803612 100644
--- a/yaml/converter/bitbucket/convert.go
+++ b/yaml/converter/bitbucket/convert.go
@@ -61,7 +61,11 @@ func Convert(b []byte, ref string) ([]byte, error) {
 	//
 
 	var names []string
-	for name := range config.Definitions.Services {
+	for name, service := range config.Definitions.Services {
+		// the service may be empty.
+		if service == nil {
+			continue
+		}
 		names = append(names, name)
 	}
 	sort.Strings(names)
-- 
2.43.0


From d3b4b04aa98cb061afcea2651c46b277ccd3bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:25 +0000
Subject: [PATCH 41/43] fix: skip empty legacy volumes and secrets

---
 yaml/converter/legacy/internal/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/yaml/converter/legacy/internal/config.go b/yaml/converter/legacy/internal/config.go
index 744e391..f8d92aa 100644
--- a/yaml/converter/legacy/internal/config.go
+++ b/yaml/converter/legacy/internal/config.go
@@ -342,6 +342,9 @@ func toEnvironment(from *Container) map[string]*droneyaml.Variable {
 		}
 	}
 	for _, val := range from.Secrets.Secrets {
+		if val == nil {
+			continue
+		}
 		name := strings.ToUpper(val.Target)
 		envs[name] = &droneyaml.Variable{
 			Secret: val.Source,
@@ -412,6 +415,9 @@ func toSettings(from map[string]interface{}) map[string]*droneyaml.Parameter {
 func toVolumeMounts(from []*Volume) []*droneyaml.VolumeMount {
 	to := []*droneyaml.VolumeMount{}
 	for _, v := range from {
+		if v == nil {
+			continue
+		}
 		to = append(to, &droneyaml.VolumeMount{
 			Name:      fmt.Sprintf("%x", v.Source),
 			MountPath: v.Destination,
@@ -433,6 +439,9 @@ func toVolumes(from *Config) []*droneyaml.Volume {
 
 	for _, container := range containers {
 		for _, v := range container.Volumes {
+			if v == nil {
+				continue
+			}
 			name := fmt.Sprintf("%x", v.Source)
 			if _, ok := set[name]; ok {
 				continue
-- 
2.43.0


From 7efae8a481f1545ab5ffd292cf67efb7c3a51daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:38 +0000
Subject: [PATCH 42/43] fix: do not divide by zero for a matrix axis without
 values

---
 yaml/converter/legacy/matrix/matrix.go | 31 ++++++++++++++++++--------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/yaml/converter/legacy/matrix/matrix.go b/yaml/converter/legacy/matrix/matrix.go
index d7c32bd..0fa98f6 100644
--- a/yaml/converter/legacy/matrix/matrix.go
+++ b/yaml/converter/legacy/matrix/matrix.go
@@ -14,6 +14,9 @@ import (
 const (
 	limitTags = 10
 	limitAxis = 25
+
+	// one permutation more than the loop in calc visits.
+	maxPerm = limitAxis + 3
 )
 
 // Matrix represents the build matrix.
@@ -64,7 +67,11 @@ func calc(matrix Matrix) []Axis {
 	// (ie go_version, redis_version, etc)
 	var perm int
 	var tags []string
-	for k := range matrix {
+	for k, v := range matrix {
+		// a tag without values does not take part.
+		if len(v) == 0 {
+			continue
+		}
 		tags = append(tags, k)
 	}
 
@@ -77,6 +84,11 @@ func calc(matrix Matrix) []Axis {
 		if perm == 0 {
 			perm = len(v)
 		}
+		// no more permutations than this are used (see
+		// below), the product must not overflow.
+		if perm > maxPerm {
+			perm = maxPerm
+		}
 	}
 
 	// structure to hold the transformed result set
@@ -85,17 +97,18 @@ func calc(matrix Matrix) []Axis {
 	// for each axis calculate the uniqe set of values that should be used.
 	for p := 0; p < perm; p++ {
 		axis := map[string]string{}
-		decr := perm
-		for i, tag := range tags {
-			elems := matrix[tag]
-			decr = decr / len(elems)
-			elem := p / decr % len(elems)
-			axis[tag] = elems[elem]
+		// the last tag changes fastest.
+		rest := p
+		for i := len(tags) - 1; i >= 0; i-- {
+			elems := matrix[tags[i]]
+			elem := rest % len(elems)
+			rest = rest / len(elems)
 
 			// enforce a maximum number of tags in the build matrix.
-			if i > limitTags {
-				break
+			if i > limitTags+1 {
+				continue
 			}
+			axis[tags[i]] = elems[elem]
 		}
 
 		// append to the list of axis.
-- 
2.43.0


From c79f66cd194636258ce48a67ca0eed1692a1ed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:42 +0000
Subject: [PATCH 43/43] fix: keep the order of steps merged into a legacy
 section

---
 yaml/converter/legacy/internal/yaml.go | 81 ++++++++++++++++++++++++++
 1 file changed, 81 insertions(+)

diff --git a/yaml/converter/legacy/internal/yaml.go b/yaml/converter/legacy/internal/yaml.go
index 305491b..3551100 100644
--- a/yaml/converter/legacy/internal/yaml.go
+++ b/yaml/converter/legacy/internal/yaml.go
@@ -6,10 +6,16 @@ package yaml
 
 import (
 	"bytes"
+	"fmt"
+	"regexp"
+	"sort"
 
+	buildkite "github.com/buildkite/yaml"
 	"github.com/vinzenz/yaml"
 )
 
+var mergeKey = regexp.MustCompile(`(?m)(^|[\s{,])<<:`)
+
 type temporary struct {
 	Attributes map[string]interface{} `yaml:",inline"`
 	Clone      yaml.MapSlice          `yaml:"clone,omitempty"`
@@ -23,6 +29,22 @@ func expandMergeKeys(b []byte) ([]byte, error) {
 	if err := yaml.Unmarshal(b, v); err != nil {
 		return b, err
 	}
+
+	// entries that are merged into a section are returned in
+	// random order. The merge keys are quoted, and therefore
+	// not expanded, in order to learn the order in the file.
+	order := struct {
+		Clone    buildkite.MapSlice
+		Services buildkite.MapSlice
+		Pipeline buildkite.MapSlice
+	}{}
+	if err := buildkite.Unmarshal(mergeKey.ReplaceAll(b, []byte("$1\"<<\":")), &order); err != nil {
+		return b, err
+	}
+	v.Clone = sortMerged(v.Clone, order.Clone)
+	v.Services = sortMerged(v.Services, order.Services)
+	v.Pipeline = sortMerged(v.Pipeline, order.Pipeline)
+
 	o, err := yaml.Marshal(v)
 	if err != nil {
 		return b, err
@@ -30,6 +52,65 @@ func expandMergeKeys(b []byte) ([]byte, error) {
 	return o, nil
 }
 
+// this is a helper function that restores the order of the
+// entries merged into a section, and drops those the section
+// overrides.
+func sortMerged(section yaml.MapSlice, order buildkite.MapSlice) yaml.MapSlice {
+	own := map[string]bool{}
+	start := -1
+	var source interface{}
+	for i, item := range order {
+		if key := fmt.Sprint(item.Key); key != "<<" {
+			own[key] = true
+		} else if start < 0 {
+			start, source = i, item.Value
+		}
+	}
+	// the merged entries are adjacent.
+	size := len(section) - len(order) + 1
+	if start < 0 || size < 0 {
+		return section
+	}
+	pos := map[string]int{}
+	mergedKeys(source, pos)
+
+	var merged yaml.MapSlice
+	for _, item := range section[start : start+size] {
+		if !own[fmt.Sprint(item.Key)] {
+			merged = append(merged, item)
+		}
+	}
+	sort.Slice(merged, func(i, j int) bool {
+		a, b := fmt.Sprint(merged[i].Key), fmt.Sprint(merged[j].Key)
+		if pos[a] != pos[b] {
+			return pos[a] < pos[b]
+		}
+		return a < b
+	})
+	merged = append(merged, section[start+size:]...)
+	return append(section[:start:start], merged...)
+}
+
+// this is a helper function that numbers the keys of the merged
+// mappings in the order in which they are written.
+func mergedKeys(v interface{}, pos map[string]int) {
+	switch v := v.(type) {
+	case buildkite.MapSlice:
+		for _, item := range v {
+			key := fmt.Sprint(item.Key)
+			if key == "<<" {
+				mergedKeys(item.Value, pos)
+			} else if _, ok := pos[key]; !ok {
+				pos[key] = len(pos) + 1
+			}
+		}
+	case []interface{}:
+		for _, item := range v {
+			mergedKeys(item, pos)
+		}
+	}
+}
+
 func hasMergeKeys(b []byte) bool {
 	return bytes.Contains(b, []byte("<<:"))
 }
-- 
2.43.0

