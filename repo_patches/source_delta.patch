From b6533d2a62ca1a7c11ada218c1ee1616a9111d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 01/33] fix: identify targets by value, not by bare address

A controller recorded targets under their address only, as a uintptr.
That does not keep a target alive (so a later target at the same address was
taken for one that had already run), and it confuses targets of different types
that share an address (zero-size types, first fields).
---
 controller.go | 12 ++++++------
 register.go   | 24 +++++++++++++-----------
 runner.go     | 10 +++++-----
 3 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/controller.go b/controller.go
index 23f35f6..b77bfad 100644
--- a/controller.go
+++ b/controller.go
@@ -23,12 +23,12 @@ type Controller struct {
 	depth int
 
 	// Records targets that have run or are running.
-	ran map[uintptr]*outcome
+	ran map[Target]*outcome
 
 	// Keys are names related to topdir.
 	targetsByName map[string]targetRegistryTuple
 
-	targetsByAddr map[uintptr]targetRegistryTuple
+	tuplesByTarget map[Target]targetRegistryTuple
 }
 
 // NewController creates a new [Controller]
@@ -37,10 +37,10 @@ type Controller struct {
 // The top directory is where a _fab subdirectory and/or a top-level fab.yaml file is expected.
 func NewController(topdir string) *Controller {
 	return &Controller{
-		topdir:        topdir,
-		ran:           make(map[uintptr]*outcome),
-		targetsByName: make(map[string]targetRegistryTuple),
-		targetsByAddr: make(map[uintptr]targetRegistryTuple),
+		topdir:         topdir,
+		ran:            make(map[Target]*outcome),
+		targetsByName:  make(map[string]targetRegistryTuple),
+		tuplesByTarget: make(map[Target]targetRegistryTuple),
 	}
 }
 
diff --git a/register.go b/register.go
index 7180e62..a428114 100644
--- a/register.go
+++ b/register.go
@@ -10,8 +10,7 @@ import (
 
 // RegisterTarget places a target in the registry with a given name and doc string.
 func (con *Controller) RegisterTarget(name, doc string, target Target) (Target, error) {
-	addr, err := targetAddr(target)
-	if err != nil {
+	if err := checkTarget(target); err != nil {
 		return nil, err
 	}
 
@@ -19,18 +18,22 @@ func (con *Controller) RegisterTarget(name, doc string, target Target) (Target,
 
 	con.mu.Lock()
 	con.targetsByName[name] = tuple
-	con.targetsByAddr[addr] = tuple
+	con.tuplesByTarget[target] = tuple
 	con.mu.Unlock()
 
 	return target, nil
 }
 
-func targetAddr(target Target) (uintptr, error) {
-	v := reflect.ValueOf(target)
-	if v.Kind() != reflect.Pointer {
-		return 0, fmt.Errorf("got type %T for target, want a pointer type", target)
+// checkTarget checks that target has a pointer type.
+// Such a target may be used as a map key.
+// (Its type is part of the key,
+// and the key keeps the target alive,
+// so no other target can be confused with it.)
+func checkTarget(target Target) error {
+	if reflect.ValueOf(target).Kind() != reflect.Pointer {
+		return fmt.Errorf("got type %T for target, want a pointer type", target)
 	}
-	return uintptr(v.UnsafePointer()), nil
+	return nil
 }
 
 type targetRegistryTuple struct {
@@ -63,10 +66,9 @@ func (con *Controller) RegistryTarget(name string) (Target, string) {
 // otherwise it's "unnamed X"
 // where X is the result of calling the target's Desc method.
 func (con *Controller) Describe(target Target) string {
-	addr, err := targetAddr(target)
-	if err == nil { // sic
+	if err := checkTarget(target); err == nil { // sic
 		con.mu.Lock()
-		tuple, ok := con.targetsByAddr[addr]
+		tuple, ok := con.tuplesByTarget[target]
 		con.mu.Unlock()
 		if ok {
 			return tuple.name
diff --git a/runner.go b/runner.go
index 941228c..f23c6e4 100644
--- a/runner.go
+++ b/runner.go
@@ -63,16 +63,16 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 		wg      sync.WaitGroup
 	)
 	for i, target := range targets {
-		addr, err := targetAddr(target)
-		if err != nil {
+		if err := checkTarget(target); err != nil {
 			errs[i] = err
 			continue
 		}
 
-		i, target := i, target // Go loop-var pitfall
+		i, target, key := i, target, target // Go loop-var pitfall
 
 		if d, ok := target.(*deferredResolutionTarget); ok {
 			// Short-circuit here to avoid some confusing extra output in verbose mode.
+			var err error
 			target, err = d.resolve(con)
 			if err != nil {
 				errs[i] = err
@@ -85,10 +85,10 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			defer wg.Done()
 
 			con.mu.Lock()
-			o, ok := con.ran[addr]
+			o, ok := con.ran[key]
 			if !ok {
 				o = &outcome{g: newGate(false)}
-				con.ran[addr] = o
+				con.ran[key] = o
 			}
 			con.mu.Unlock()
 
-- 
2.43.0


From c3d40bf7c028f9229c0a51ed2deea6333685a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 02/33] fix: run a target once also when some requests refer to
 it by name

The outcome was recorded under the deferred reference rather than the target
it resolves to, so two references to one target ran it twice.
---
 runner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runner.go b/runner.go
index f23c6e4..70ca118 100644
--- a/runner.go
+++ b/runner.go
@@ -68,7 +68,7 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			continue
 		}
 
-		i, target, key := i, target, target // Go loop-var pitfall
+		i, target := i, target // Go loop-var pitfall
 
 		if d, ok := target.(*deferredResolutionTarget); ok {
 			// Short-circuit here to avoid some confusing extra output in verbose mode.
@@ -85,10 +85,10 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			defer wg.Done()
 
 			con.mu.Lock()
-			o, ok := con.ran[key]
+			o, ok := con.ran[target]
 			if !ok {
 				o = &outcome{g: newGate(false)}
-				con.ran[key] = o
+				con.ran[target] = o
 			}
 			con.mu.Unlock()
 
-- 
2.43.0


From 05541b18d0698ebbeefa7bc29d04b83142e06baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 03/33] fix: let YAML files refer to targets in files that are
 still being read

A reference into the YAML file that contains it, or into one that is being read
further up, read that file again: endless recursion, or two instances of one
target. Such a reference is now resolved when the target runs.
---
 controller.go |  5 +++++
 yaml.go       | 31 +++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/controller.go b/controller.go
index b77bfad..b304435 100644
--- a/controller.go
+++ b/controller.go
@@ -29,6 +29,10 @@ type Controller struct {
 	targetsByName map[string]targetRegistryTuple
 
 	tuplesByTarget map[Target]targetRegistryTuple
+
+	// Counts the calls to ReadYAML in progress for each directory.
+	// Keys are relative to topdir.
+	reading map[string]int
 }
 
 // NewController creates a new [Controller]
@@ -41,6 +45,7 @@ func NewController(topdir string) *Controller {
 		ran:            make(map[Target]*outcome),
 		targetsByName:  make(map[string]targetRegistryTuple),
 		tuplesByTarget: make(map[Target]targetRegistryTuple),
+		reading:        make(map[string]int),
 	}
 }
 
diff --git a/yaml.go b/yaml.go
index 7a1e82a..13161c7 100644
--- a/yaml.go
+++ b/yaml.go
@@ -72,6 +72,12 @@ func (con *Controller) YAMLTarget(node *yaml.Node, dir string) (Target, error) {
 				return found, nil
 			}
 
+			if con.isReading(tdir) {
+				// The YAML file in tdir refers to this one (or is this one),
+				// and its targets aren't all in the registry yet.
+				return &deferredResolutionTarget{Name: qname}, nil
+			}
+
 			if err := con.ReadYAMLFile(tdir); err != nil {
 				return nil, errors.Wrapf(err, "resolving target %s", qname)
 			}
@@ -89,6 +95,29 @@ func (con *Controller) YAMLTarget(node *yaml.Node, dir string) (Target, error) {
 	return &deferredResolutionTarget{Name: qname}, nil
 }
 
+// startReading notes that a YAML document for dir is being read.
+// The caller must call the resulting function when reading is done.
+func (con *Controller) startReading(dir string) func() {
+	dir = filepath.Clean(dir)
+
+	con.mu.Lock()
+	con.reading[dir]++
+	con.mu.Unlock()
+
+	return func() {
+		con.mu.Lock()
+		con.reading[dir]--
+		con.mu.Unlock()
+	}
+}
+
+// isReading tells whether a YAML document for dir is being read.
+func (con *Controller) isReading(dir string) bool {
+	con.mu.Lock()
+	defer con.mu.Unlock()
+	return con.reading[filepath.Clean(dir)] > 0
+}
+
 type deferredResolutionTarget struct {
 	mu     sync.Mutex
 	Name   string
@@ -153,6 +182,8 @@ func (dt *deferredResolutionTarget) Desc() string {
 //	Test: !Command
 //	  - go test ./...
 func (con *Controller) ReadYAML(r io.Reader, dir string) error {
+	defer con.startReading(dir)()
+
 	var (
 		dec = yaml.NewDecoder(r)
 		doc yaml.Node
-- 
2.43.0


From 79ca8b70455b8200be0d00e3cd5b9a9a150eb347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 04/33] fix: a Files target that updates a file in place does
 not wait for itself

---
 files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/files.go b/files.go
index aa9fc57..3f0414b 100644
--- a/files.go
+++ b/files.go
@@ -198,7 +198,8 @@ func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	var prereqs []Target
 
 	for _, in := range ft.In {
-		if target := findInFilesRegistry(in); target != nil {
+		// A target that updates a file in place is not its own prerequisite.
+		if target := findInFilesRegistry(in); target != nil && target != Target(ft) {
 			prereqs = append(prereqs, target)
 		}
 	}
-- 
2.43.0


From 110d0d16a63e1b58a5595f5918574aaf6cf945d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 05/33] fix: report an unreadable input or output file instead
 of panicking

---
 files.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/files.go b/files.go
index 3f0414b..795a0e5 100644
--- a/files.go
+++ b/files.go
@@ -288,6 +288,9 @@ func fileHashesItemHelper(item string, hashes map[string]string) error {
 		hashes[item] = ""
 		return nil
 	}
+	if err != nil {
+		return errors.Wrapf(err, "statting %s", item)
+	}
 
 	if info.IsDir() {
 		entries, err := os.ReadDir(item)
-- 
2.43.0


From 64cde7b8c2f0a41319cb1edf1b2f8eb5bf251cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 06/33] fix: include the whole subtarget of a Files target in
 its hash

The children of a Seq were left out, and so were the types of nested targets.
---
 all.go     |  7 +++++++
 argtarg.go | 10 ++++++++++
 files.go   | 44 +++++++++++++++++++++++++++++++++++---------
 seq.go     |  7 +++++++
 yaml.go    | 14 ++++++++++++++
 5 files changed, 73 insertions(+), 9 deletions(-)

diff --git a/all.go b/all.go
index 76d8a0c..061f99d 100644
--- a/all.go
+++ b/all.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/slices"
+	json "github.com/gibson042/canonicaljson-go"
 	"gopkg.in/yaml.v3"
 )
 
@@ -34,6 +35,12 @@ func (a *all) Run(ctx context.Context, con *Controller) error {
 }
 
 // Desc implements Target.Desc.
+// MarshalJSON implements json.Marshaler.
+// It is used for computing the hash of a [Files] target.
+func (a *all) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct{ Targets []typedTarget }{typedTargets(a.Targets)})
+}
+
 func (*all) Desc() string {
 	return "All"
 }
diff --git a/argtarg.go b/argtarg.go
index ce5e30f..54dc772 100644
--- a/argtarg.go
+++ b/argtarg.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/bobg/errors"
+	json "github.com/gibson042/canonicaljson-go"
 	"gopkg.in/yaml.v3"
 )
 
@@ -44,6 +45,15 @@ func (a *argTarget) Run(ctx context.Context, con *Controller) error {
 }
 
 // Desc implements Target.Desc.
+// MarshalJSON implements json.Marshaler.
+// It is used for computing the hash of a [Files] target.
+func (a *argTarget) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct {
+		Target typedTarget
+		Args   []string
+	}{newTypedTarget(a.Target), a.Args})
+}
+
 func (*argTarget) Desc() string {
 	return "ArgTarget"
 }
diff --git a/files.go b/files.go
index 795a0e5..67167cc 100644
--- a/files.go
+++ b/files.go
@@ -173,17 +173,14 @@ func (ft *files) computeHash(con *Controller) ([]byte, error) {
 	if err != nil {
 		return nil, errors.Wrapf(err, "computing output hash(es) for %s", con.Describe(ft))
 	}
-	tt := reflect.TypeOf(ft.Target)
 	s := struct {
-		Target     Target   `json:"target"`
-		TargetType string   `json:"target_type"`
-		In         []string `json:"in,omitempty"`  // [filename, hash, filename, hash, ...]
-		Out        []string `json:"out,omitempty"` // [filename, hash, filename, hash, ...]
+		typedTarget
+		In  []string `json:"in,omitempty"`  // [filename, hash, filename, hash, ...]
+		Out []string `json:"out,omitempty"` // [filename, hash, filename, hash, ...]
 	}{
-		Target:     ft.Target,
-		TargetType: tt.String(),
-		In:         inHashes,
-		Out:        outHashes,
+		typedTarget: newTypedTarget(ft.Target),
+		In:          inHashes,
+		Out:         outHashes,
 	}
 	j, err := json.Marshal(s)
 	if err != nil {
@@ -194,6 +191,35 @@ func (ft *files) computeHash(con *Controller) ([]byte, error) {
 	return sum[:], nil
 }
 
+// MarshalJSON implements json.Marshaler.
+// It is used for computing the hash of another [Files] target that contains this one.
+func (ft *files) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct {
+		Target  typedTarget
+		In, Out []string
+	}{newTypedTarget(ft.Target), ft.In, ft.Out})
+}
+
+// Type typedTarget is the form in which a target contributes to the hash of a [Files] target.
+// It includes the name of the target's type,
+// since targets of different types may have the same fields.
+type typedTarget struct {
+	Target     Target `json:"target"`
+	TargetType string `json:"target_type"`
+}
+
+func newTypedTarget(target Target) typedTarget {
+	result := typedTarget{Target: target}
+	if target != nil {
+		result.TargetType = reflect.TypeOf(target).String()
+	}
+	return result
+}
+
+func typedTargets(targets []Target) []typedTarget {
+	return slices.Map(targets, newTypedTarget)
+}
+
 func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	var prereqs []Target
 
diff --git a/seq.go b/seq.go
index ef84027..8b8da86 100644
--- a/seq.go
+++ b/seq.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/slices"
+	json "github.com/gibson042/canonicaljson-go"
 	"gopkg.in/yaml.v3"
 )
 
@@ -39,6 +40,12 @@ func (s *seq) Run(ctx context.Context, con *Controller) error {
 	return nil
 }
 
+// MarshalJSON implements json.Marshaler.
+// It is used for computing the hash of a [Files] target.
+func (s *seq) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct{ Targets []typedTarget }{typedTargets(s.targets)})
+}
+
 func (*seq) Desc() string {
 	return "Seq"
 }
diff --git a/yaml.go b/yaml.go
index 13161c7..428681a 100644
--- a/yaml.go
+++ b/yaml.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/slices"
+	json "github.com/gibson042/canonicaljson-go"
 	"gopkg.in/yaml.v3"
 )
 
@@ -149,6 +150,19 @@ func (dt *deferredResolutionTarget) Run(ctx context.Context, con *Controller) er
 	return con.Run(ctx, target)
 }
 
+// MarshalJSON implements json.Marshaler.
+// It is used for computing the hash of a [Files] target.
+func (dt *deferredResolutionTarget) MarshalJSON() ([]byte, error) {
+	dt.mu.Lock()
+	target := dt.Target
+	dt.mu.Unlock()
+
+	return json.Marshal(struct {
+		Name   string
+		Target typedTarget
+	}{dt.Name, newTypedTarget(target)})
+}
+
 func (dt *deferredResolutionTarget) Desc() string {
 	dt.mu.Lock()
 	defer dt.mu.Unlock()
-- 
2.43.0


From fd427412d83a81702a4147f6672b267b64a5e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 07/33] fix: hash a Files target with references by name
 resolved

Otherwise the hash looked up before the first run of a target in a process
was never the one added to the hash database after it.
---
 files.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/files.go b/files.go
index 67167cc..3f0057b 100644
--- a/files.go
+++ b/files.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/sha256"
 	"encoding/hex"
+	"fmt"
 	"io"
 	"io/fs"
 	"os"
@@ -173,6 +174,9 @@ func (ft *files) computeHash(con *Controller) ([]byte, error) {
 	if err != nil {
 		return nil, errors.Wrapf(err, "computing output hash(es) for %s", con.Describe(ft))
 	}
+	if err := resolveAll(con, ft.Target, nil); err != nil {
+		return nil, errors.Wrapf(err, "resolving the subtarget of %s", con.Describe(ft))
+	}
 	s := struct {
 		typedTarget
 		In  []string `json:"in,omitempty"`  // [filename, hash, filename, hash, ...]
@@ -191,6 +195,47 @@ func (ft *files) computeHash(con *Controller) ([]byte, error) {
 	return sum[:], nil
 }
 
+// Function resolveAll resolves all references by name in the given target,
+// so that it has the same JSON encoding before and after it runs.
+// The parents argument is the targets containing it.
+func resolveAll(con *Controller, target Target, parents []Target) error {
+	var children []Target
+
+	switch target := target.(type) {
+	case *deferredResolutionTarget:
+		t, err := target.resolve(con)
+		if err != nil {
+			return err
+		}
+		children = []Target{t}
+
+	case *all:
+		children = target.Targets
+	case *seq:
+		children = target.targets
+	case *argTarget:
+		children = []Target{target.Target}
+	case *files:
+		children = []Target{target.Target}
+	default:
+		return nil
+	}
+
+	for _, p := range parents {
+		if p == target {
+			return fmt.Errorf("target %s contains itself", con.Describe(target))
+		}
+	}
+	parents = append(parents, target)
+
+	for _, child := range children {
+		if err := resolveAll(con, child, parents); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // MarshalJSON implements json.Marshaler.
 // It is used for computing the hash of another [Files] target that contains this one.
 func (ft *files) MarshalJSON() ([]byte, error) {
-- 
2.43.0


From bacf3153d852d6a74fe548b78a5bc1205d5db5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 08/33] fix: do not record a Files target whose inputs changed
 while it was running

---
 files.go | 85 +++++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 78 insertions(+), 7 deletions(-)

diff --git a/files.go b/files.go
index 3f0057b..133602e 100644
--- a/files.go
+++ b/files.go
@@ -127,8 +127,18 @@ func (ft *files) Run(ctx context.Context, con *Controller) error {
 
 	db := GetHashDB(ctx)
 
+	var inBefore, outBefore []string
+
+	if db != nil && !GetDryRun(ctx) {
+		var err error
+		inBefore, outBefore, err = ft.fileHashes(con)
+		if err != nil {
+			return errors.Wrap(err, "before running subtarget")
+		}
+	}
+
 	if db != nil && !GetForce(ctx) && !GetDryRun(ctx) {
-		h, err := ft.computeHash(con)
+		h, err := ft.computeHash(con, inBefore, outBefore)
 		if err != nil {
 			return errors.Wrap(err, "computing hash before running subtarget")
 		}
@@ -152,7 +162,25 @@ func (ft *files) Run(ctx context.Context, con *Controller) error {
 		return nil
 	}
 
-	h, err := ft.computeHash(con)
+	inAfter, outAfter, err := ft.fileHashes(con)
+	if err != nil {
+		return errors.Wrap(err, "after running subtarget")
+	}
+
+	changed, err := inputsChanged(inBefore, outBefore, inAfter, outAfter)
+	if err != nil {
+		return errors.Wrap(err, "checking for changed inputs")
+	}
+	if changed {
+		// It isn't known which version of the inputs the subtarget used,
+		// so its outputs might not be up to date.
+		if GetVerbose(ctx) {
+			con.Indentf("inputs of %s changed while it was running", con.Describe(ft))
+		}
+		return nil
+	}
+
+	h, err := ft.computeHash(con, inAfter, outAfter)
 	if err != nil {
 		return errors.Wrap(err, "computing hash after running subtarget")
 	}
@@ -165,15 +193,19 @@ func (*files) Desc() string {
 	return "Files"
 }
 
-func (ft *files) computeHash(con *Controller) ([]byte, error) {
-	inHashes, err := fileHashes(ft.In)
+func (ft *files) fileHashes(con *Controller) (inHashes, outHashes []string, err error) {
+	inHashes, err = fileHashes(ft.In)
 	if err != nil {
-		return nil, errors.Wrapf(err, "computing input hash(es) for %s", con.Describe(ft))
+		return nil, nil, errors.Wrapf(err, "computing input hash(es) for %s", con.Describe(ft))
 	}
-	outHashes, err := fileHashes(ft.Out)
+	outHashes, err = fileHashes(ft.Out)
 	if err != nil {
-		return nil, errors.Wrapf(err, "computing output hash(es) for %s", con.Describe(ft))
+		return nil, nil, errors.Wrapf(err, "computing output hash(es) for %s", con.Describe(ft))
 	}
+	return inHashes, outHashes, nil
+}
+
+func (ft *files) computeHash(con *Controller, inHashes, outHashes []string) ([]byte, error) {
 	if err := resolveAll(con, ft.Target, nil); err != nil {
 		return nil, errors.Wrapf(err, "resolving the subtarget of %s", con.Describe(ft))
 	}
@@ -381,6 +413,45 @@ func fileHashesItemHelper(item string, hashes map[string]string) error {
 	return nil
 }
 
+// Function inputsChanged tells whether any input that is not also an output
+// changed between two calls to [fileHashes].
+func inputsChanged(inBefore, outBefore, inAfter, outAfter []string) (bool, error) {
+	toMap := func(lists ...[]string) (map[string]string, error) {
+		result := make(map[string]string)
+		for _, list := range lists {
+			for i := 0; i < len(list); i += 2 {
+				name, err := filepath.Abs(list[i])
+				if err != nil {
+					return nil, err
+				}
+				if list[i+1] != "" {
+					result[name] = list[i+1]
+				}
+			}
+		}
+		return result, nil
+	}
+
+	before, err := toMap(inBefore)
+	if err != nil {
+		return false, err
+	}
+	after, err := toMap(inAfter)
+	if err != nil {
+		return false, err
+	}
+	outputs, err := toMap(outBefore, outAfter)
+	if err != nil {
+		return false, err
+	}
+
+	for name := range outputs {
+		delete(before, name)
+		delete(after, name)
+	}
+	return !reflect.DeepEqual(before, after), nil
+}
+
 func hashFile(path string) (string, error) {
 	f, err := os.Open(path)
 	if err != nil {
-- 
2.43.0


From 14d241c451ddcb47896d0ebe285a9c73d02e7287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 09/33] fix: leave the file list of a Clean target alone when
 it runs

---
 clean.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clean.go b/clean.go
index 1cc3cfb..3e74edc 100644
--- a/clean.go
+++ b/clean.go
@@ -36,7 +36,7 @@ type Clean struct {
 
 // Run implements Target.Run.
 func (c *Clean) Run(ctx context.Context, con *Controller) error {
-	files := c.Files
+	files := append([]string{}, c.Files...) // don't reorder c.Files, or write past its end
 	if c.Autoclean {
 		autocleanMu.Lock()
 		autocleanFiles := autocleanRegistry.Slice()
-- 
2.43.0


From 08fd079a5c6dc4cef4f444a774f4fc24a36a3ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 10/33] fix: report an error closing a command's output file

---
 command.go | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/command.go b/command.go
index 238cd26..8b5cd86 100644
--- a/command.go
+++ b/command.go
@@ -231,9 +231,9 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 
 	if stdoutFile != "" {
 		if stdoutAppend {
-			f, err := os.OpenFile(stdoutFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
-			if err != nil {
-				return errors.Wrapf(err, "opening %s for appending", stdoutFile)
+			f, openErr := os.OpenFile(stdoutFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
+			if openErr != nil {
+				return errors.Wrapf(openErr, "opening %s for appending", stdoutFile)
 			}
 			defer func() {
 				closeErr := f.Close()
@@ -243,14 +243,14 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 			}()
 			cmd.Stdout = f
 		} else {
-			f, err := os.Create(stdoutFile)
-			if err != nil {
-				return errors.Wrapf(err, "opening %s for writing", stdoutFile)
+			f, openErr := os.Create(stdoutFile)
+			if openErr != nil {
+				return errors.Wrapf(openErr, "opening %s for writing", stdoutFile)
 			}
 			defer func() {
 				closeErr := f.Close()
 				if err == nil {
-					err = errors.Wrapf(closeErr, "closing stderr file %s", stdoutFile)
+					err = errors.Wrapf(closeErr, "closing stdout file %s", stdoutFile)
 				}
 			}()
 			cmd.Stdout = f
@@ -263,19 +263,29 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 			cmd.Stderr = cmd.Stdout
 
 		case stderrAppend:
-			f, err := os.OpenFile(stderrFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
-			if err != nil {
-				return errors.Wrapf(err, "opening %s for appending", stderrFile)
+			f, openErr := os.OpenFile(stderrFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
+			if openErr != nil {
+				return errors.Wrapf(openErr, "opening %s for appending", stderrFile)
 			}
-			defer f.Close()
+			defer func() {
+				closeErr := f.Close()
+				if err == nil {
+					err = errors.Wrapf(closeErr, "closing stderr file %s", stderrFile)
+				}
+			}()
 			cmd.Stderr = f
 
 		default:
-			f, err := os.Create(stderrFile)
-			if err != nil {
-				return errors.Wrapf(err, "opening %s for writing", stderrFile)
+			f, openErr := os.Create(stderrFile)
+			if openErr != nil {
+				return errors.Wrapf(openErr, "opening %s for writing", stderrFile)
 			}
-			defer f.Close()
+			defer func() {
+				closeErr := f.Close()
+				if err == nil {
+					err = errors.Wrapf(closeErr, "closing stderr file %s", stderrFile)
+				}
+			}()
 			cmd.Stderr = f
 		}
 	}
-- 
2.43.0


From 3a3ab1d24b928878ae3a6846b714c7331497dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 11/33] fix: honor Stdin and the >> prefix in a YAML Command

---
 command.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/command.go b/command.go
index 8b5cd86..fe6324a 100644
--- a/command.go
+++ b/command.go
@@ -456,8 +456,15 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		Env:   env,
 	}
 
-	if c.Stdin == "$stdin" {
+	switch c.Stdin {
+	case "$stdin":
 		result.Stdin = os.Stdin
+
+	case "":
+		// do nothing
+
+	default:
+		result.StdinFile = con.JoinPath(dir, c.Stdin)
 	}
 
 	switch c.Stdout {
@@ -480,10 +487,7 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		// do nothing
 
 	default:
-		result.StdoutFile = con.JoinPath(dir, c.Stdout)
-		if forceAppend && !strings.HasPrefix(result.StdoutFile, ">>") {
-			result.StdoutFile = ">>" + result.StdoutFile
-		}
+		result.StdoutFile = outputFile(con, dir, c.Stdout, forceAppend)
 	}
 
 	switch c.Stderr {
@@ -506,15 +510,26 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		// do nothing
 
 	default:
-		result.StderrFile = con.JoinPath(dir, c.Stderr)
-		if forceAppend && !strings.HasPrefix(result.StderrFile, ">>") {
-			result.StderrFile = ">>" + result.StderrFile
-		}
+		result.StderrFile = outputFile(con, dir, c.Stderr, forceAppend)
 	}
 
 	return result
 }
 
+// Function outputFile produces the StdoutFile or StderrFile field of a Command
+// from the corresponding YAML field.
+func outputFile(con *Controller, dir, name string, forceAppend bool) string {
+	if strings.HasPrefix(name, ">>") {
+		forceAppend = true
+		name = strings.TrimLeft(name, "> ")
+	}
+	name = con.JoinPath(dir, name)
+	if forceAppend {
+		name = ">>" + name
+	}
+	return name
+}
+
 func deferredIndent(w io.Writer) func(context.Context, *Controller) io.Writer {
 	return func(_ context.Context, con *Controller) io.Writer {
 		return con.IndentingCopier(w, "    ")
-- 
2.43.0


From 806a995f9cc2c8fc27751ace9397b8c682fd7e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 12/33] fix: do not panic on an empty command-line argument

---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index b304435..5cdc7d6 100644
--- a/controller.go
+++ b/controller.go
@@ -90,7 +90,7 @@ func (con *Controller) ParseArgs(args []string) ([]Target, error) {
 		unknown []string
 	)
 
-	if len(args) > 1 && args[1][0] == '-' {
+	if len(args) > 1 && strings.HasPrefix(args[1], "-") {
 		// Just one target, and remaining args are arguments for that target.
 		if target, _ := con.RegistryTarget(args[0]); target != nil {
 			targets = append(targets, ArgTarget(target, args[1:]...))
-- 
2.43.0


From 886aa883497826dc1ba80ef0cdb3f8873392b50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 13/33] fix: combine a command's output streams also if one
 file is named in two ways

---
 command.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index fe6324a..6c77ca0 100644
--- a/command.go
+++ b/command.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"os/exec"
+	"path/filepath"
 	"strings"
 
 	"github.com/bobg/errors"
@@ -225,7 +226,9 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 		stderrFile = strings.TrimLeft(stderrFile, "> ")
 	}
 
-	if stdoutFile == stderrFile && stdoutAppend != stderrAppend {
+	sameFile := samePath(stdoutFile, stderrFile)
+
+	if sameFile && stdoutAppend != stderrAppend {
 		return fmt.Errorf("stdout and stderr name the same file but disagree about append vs. overwrite")
 	}
 
@@ -259,7 +262,7 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 
 	if stderrFile != "" {
 		switch {
-		case stdoutFile == stderrFile:
+		case sameFile:
 			cmd.Stderr = cmd.Stdout
 
 		case stderrAppend:
@@ -356,6 +359,20 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 	return err
 }
 
+// Function samePath tells whether a and b are the same path,
+// perhaps written in different ways.
+func samePath(a, b string) bool {
+	if a == "" || b == "" {
+		return a == b
+	}
+	absA, errA := filepath.Abs(a)
+	absB, errB := filepath.Abs(b)
+	if errA != nil || errB != nil {
+		return a == b
+	}
+	return absA == absB
+}
+
 // Desc implements Target.Desc.
 func (*Command) Desc() string {
 	return "Command"
-- 
2.43.0


From c9b907a9c27d20b089bb0b2c5aaf2df056dd8b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 14/33] fix: do not wait for the descendants of a cancelled
 command

---
 command.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/command.go b/command.go
index 6c77ca0..e86eb91 100644
--- a/command.go
+++ b/command.go
@@ -9,6 +9,7 @@ import (
 	"os/exec"
 	"path/filepath"
 	"strings"
+	"time"
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/slices"
@@ -200,6 +201,13 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 
 	cmd := exec.CommandContext(ctx, cmdname, args...)
 
+	cmd.Cancel = func() error {
+		// Once the command is killed,
+		// don't wait (much) for any processes that it started and that still hold its output open.
+		cmd.WaitDelay = time.Second
+		return cmd.Process.Kill()
+	}
+
 	cmd.Dir = c.Dir
 	cmd.Env = append(os.Environ(), c.Env...)
 
-- 
2.43.0


From bcf65a347b970a2b870bda77939793da463461d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 15/33] fix: sync the directory on commit, so a power failure
 cannot undo an acknowledged Add

---
 sqlite/db.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlite/db.go b/sqlite/db.go
index 8ae6a80..8c9c835 100644
--- a/sqlite/db.go
+++ b/sqlite/db.go
@@ -26,7 +26,9 @@ var schema string
 // The file is created if it doesn't already exist.
 // Callers should call Close when finished operating on the database.
 func Open(path string, opts ...Option) (*DB, error) {
-	db, err := sql.Open("sqlite3", path)
+	// EXTRA also syncs the directory after deleting the rollback journal.
+	// Without that, a power failure can bring the journal back and undo a completed transaction.
+	db, err := sql.Open("sqlite3", path+"?_sync=EXTRA")
 	if err != nil {
 		return nil, errors.Wrapf(err, "opening sqlite db %s", path)
 	}
-- 
2.43.0


From 25ac2b5ab46f0c2b463877e670f18181149cdbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 16/33] fix: forget the old driver's hash and version before
 replacing it

---
 main.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/main.go b/main.go
index 6149965..2d18538 100644
--- a/main.go
+++ b/main.go
@@ -275,6 +275,15 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 		return driver, nil
 	}
 
+	// These describe the driver that is about to be replaced.
+	// They must not outlive it,
+	// even if what follows fails or is interrupted.
+	for _, filename := range []string{hashfile, versionfile} {
+		if err = os.Remove(filename); err != nil && !errors.Is(err, fs.ErrNotExist) {
+			return "", errors.Wrapf(err, "removing %s", filename)
+		}
+	}
+
 	if err = CompilePackage(ctx, pkg, driver); err != nil {
 		return "", errors.Wrapf(err, "compiling driver %s", driver)
 	}
-- 
2.43.0


From 7e5d9605dea88568ae724dd7bd7e19954da7a30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 17/33] fix: record fab's version after every compilation of
 the driver

---
 main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 2d18538..25cf341 100644
--- a/main.go
+++ b/main.go
@@ -228,7 +228,9 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 	}
 
 	var buildInfo *debug.BuildInfo
-	if !compile && !skipVersionCheck {
+	if compile {
+		buildInfo, _ = debug.ReadBuildInfo()
+	} else if !skipVersionCheck {
 		compile, buildInfo, err = m.checkVersion(versionfile)
 		if err != nil {
 			return "", errors.Wrap(err, "checking Fab version")
@@ -352,7 +354,7 @@ func (m *Main) checkVersion(versionfile string) (bool, *debug.BuildInfo, error)
 		return true, newInfo, nil
 	}
 
-	return false, nil, nil
+	return false, newInfo, nil
 }
 
 func addFileToHash(dh *dirHasher, filename string) error {
-- 
2.43.0


From 8fed22f52180fb77ca88a0613c024b033ba8a993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:02 +0000
Subject: [PATCH 18/33] fix: record the hash of the sources that were compiled

---
 compile.go | 28 ++++++++++++----------------
 main.go    |  7 ++++++-
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/compile.go b/compile.go
index fb540d1..62a7df2 100644
--- a/compile.go
+++ b/compile.go
@@ -78,6 +78,13 @@ func Compile(ctx context.Context, pkgdir, binfile string) error {
 // The call to packages.Load must use a value for Config.Mode that contains at least the bits in LoadMode.
 // See Compile for further details.
 func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string) error {
+	return compilePackage(ctx, pkg, binfile, newDirHasher())
+}
+
+// compilePackage does the work of CompilePackage.
+// It adds the source files that it compiles to dh.
+// (By now their contents may differ from when pkg was loaded.)
+func compilePackage(ctx context.Context, pkg *packages.Package, binfile string, dh *dirHasher) error {
 	if len(pkg.Errors) > 0 {
 		var err error
 		for _, e := range pkg.Errors {
@@ -163,23 +170,12 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		return errors.Wrapf(err, "creating %s", subpkgdir)
 	}
 
-	entries, err := os.ReadDir(pkgdir)
-	if err != nil {
-		return errors.Wrapf(err, "reading entries from %s", pkgdir)
-	}
-
-	for _, entry := range entries {
-		if entry.IsDir() {
-			continue
-		}
-		if strings.HasSuffix(entry.Name(), "_test.go") {
-			continue
-		}
-		if !strings.HasSuffix(entry.Name(), ".go") {
-			continue
+	for _, filename := range pkg.GoFiles {
+		if err = copyFile(filename, subpkgdir); err != nil {
+			return errors.Wrapf(err, "copying %s to tmp subdir", filename)
 		}
-		if err = copyFile(filepath.Join(pkgdir, entry.Name()), subpkgdir); err != nil {
-			return errors.Wrapf(err, "copying %s to tmp subdir", entry.Name())
+		if err = addFileToHash(dh, filepath.Join(subpkgdir, filepath.Base(filename))); err != nil {
+			return errors.Wrapf(err, "hashing copy of %s", filename)
 		}
 	}
 
diff --git a/main.go b/main.go
index 25cf341..197a2db 100644
--- a/main.go
+++ b/main.go
@@ -286,9 +286,14 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 		}
 	}
 
-	if err = CompilePackage(ctx, pkg, driver); err != nil {
+	dh = newDirHasher()
+	if err = compilePackage(ctx, pkg, driver, dh); err != nil {
 		return "", errors.Wrapf(err, "compiling driver %s", driver)
 	}
+	newhash, err = dh.hash()
+	if err != nil {
+		return "", errors.Wrapf(err, "computing hash of sources of %s", driver)
+	}
 	if err = os.WriteFile(hashfile, []byte(newhash), 0644); err != nil {
 		return "", errors.Wrapf(err, "writing %s", hashfile)
 	}
-- 
2.43.0


From d67db1dbe3899a4284cb78336f9601a89a8e6bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 19/33] fix: accept a relative fab directory in any working
 directory

---
 main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/main.go b/main.go
index 197a2db..14df0f2 100644
--- a/main.go
+++ b/main.go
@@ -75,6 +75,16 @@ func (m *Main) Run(ctx context.Context) error {
 		}
 	}
 
+	// The driver runs in m.Topdir.
+	// Make sure these mean the same there.
+	for _, dir := range []*string{&m.Fabdir, &m.Topdir} {
+		abs, err := filepath.Abs(*dir)
+		if err != nil {
+			return errors.Wrapf(err, "making %s absolute", *dir)
+		}
+		*dir = abs
+	}
+
 	driver, err := m.getDriver(ctx, false)
 	if errors.Is(err, errNoDriver) {
 		return m.driverless(ctx)
-- 
2.43.0


From 1b95e2e75cb58ca6282c037aff28a51c18fe483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:18 +0000
Subject: [PATCH 20/33] fix: let targets run by the driver read fab's standard
 input

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 14df0f2..ac643db 100644
--- a/main.go
+++ b/main.go
@@ -110,7 +110,7 @@ func (m *Main) Run(ctx context.Context) error {
 
 	cmd := exec.CommandContext(ctx, driver, args...)
 	cmd.Dir = m.Topdir
-	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
+	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
 	err = cmd.Run()
 	return errors.Wrapf(err, "running %s %s", driver, strings.Join(args, " "))
 }
-- 
2.43.0


From f0de5f45b620ca4a8cc8c653ced8e86864d99b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 21/33] fix: report a reference to a missing YAML file

---
 yaml.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yaml.go b/yaml.go
index 428681a..8deb376 100644
--- a/yaml.go
+++ b/yaml.go
@@ -285,6 +285,9 @@ func (con *Controller) ReadYAML(r io.Reader, dir string) error {
 // on the file `fab.yaml` in the given directory
 // or, if that doesn't exist,
 // `fab.yml`.
+// If neither exists,
+// the result is an error satisfying errors.Is(err, fs.ErrNotExist);
+// no other error does.
 func (con *Controller) ReadYAMLFile(dir string) error {
 	dir = filepath.Join(con.topdir, dir)
 	f, err := openFabYAML(dir)
@@ -302,6 +305,11 @@ func (con *Controller) ReadYAMLFile(dir string) error {
 	}
 
 	err = con.ReadYAML(f, rel)
+	if errors.Is(err, fs.ErrNotExist) {
+		// This is about some other file, to which the one in dir refers.
+		// Callers must not think that dir has no YAML file.
+		err = errors.New(err.Error())
+	}
 	return errors.Wrapf(err, "reading YAML file in %s", dir)
 }
 
-- 
2.43.0


From 29349cd3054bea307d6f8b4f878f13d4d302e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:15 +0000
Subject: [PATCH 22/33] fix: find the producer of an input file whose name is
 spelled differently

A Files target found its prerequisites by comparing file names literally,
so an input "./x" (or, as YAML file lists produce, /path/to/project/x)
did not match an output "x" of another target,
which was then not run first.
---
 files.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/files.go b/files.go
index 133602e..dece610 100644
--- a/files.go
+++ b/files.go
@@ -19,7 +19,26 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
-var filesRegistry = newRegistry[*files]()
+var filesRegistry = outputRegistry{newRegistry[*files]()}
+
+// Type outputRegistry maps output files to the Files targets that produce them.
+// Keys are absolute paths,
+// so it doesn't matter how the name of a file is spelled.
+type outputRegistry struct {
+	*registry[*files]
+}
+
+func (r outputRegistry) add(name string, ft *files) {
+	r.registry.add(absPath(name), ft)
+}
+
+// Function absPath makes a path absolute, if possible.
+func absPath(name string) string {
+	if abs, err := filepath.Abs(name); err == nil {
+		return abs
+	}
+	return filepath.Clean(name)
+}
 
 // Files creates a target that contains a list of input files
 // and a list of expected output files.
@@ -314,6 +333,7 @@ func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 }
 
 func findInFilesRegistry(name string) Target {
+	name = absPath(name)
 	for {
 		if target, ok := filesRegistry.lookup(name); ok {
 			return target
-- 
2.43.0


From 684cfa0a865af9f8d7bc575191e8f68ec52f0b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 23/33] fix: files in the build directory that are not part of
 the package keep it from compiling

---
 compile.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/compile.go b/compile.go
index 62a7df2..b0c8d10 100644
--- a/compile.go
+++ b/compile.go
@@ -8,6 +8,7 @@ import (
 	"go/parser"
 	"go/token"
 	"io"
+	"io/fs"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -101,7 +102,16 @@ func compilePackage(ctx context.Context, pkg *packages.Package, binfile string,
 		fset   = token.NewFileSet()
 		pkgdir = filepath.Dir(pkg.GoFiles[0])
 	)
-	astpkgs, err := parser.ParseDir(fset, pkgdir, nil, parser.ParseComments)
+	// Other files in the directory (such as external tests and files excluded by build constraints) are not part of pkg.
+	isPkgFile := func(info fs.FileInfo) bool {
+		for _, filename := range pkg.GoFiles {
+			if filepath.Base(filename) == info.Name() {
+				return true
+			}
+		}
+		return false
+	}
+	astpkgs, err := parser.ParseDir(fset, pkgdir, isPkgFile, parser.ParseComments)
 	if err != nil {
 		return errors.Wrapf(err, "parsing %s", pkgdir)
 	}
-- 
2.43.0


From 4b5d0aa6a48bcb4d52ef36d91890a8c020f4162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 24/33] fix: targets declared with a type of the build package,
 and types implementing Target, break the driver

---
 compile.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index b0c8d10..8c4cb87 100644
--- a/compile.go
+++ b/compile.go
@@ -7,6 +7,7 @@ import (
 	"go/doc"
 	"go/parser"
 	"go/token"
+	"go/types"
 	"io"
 	"io/fs"
 	"os"
@@ -144,10 +145,13 @@ func compilePackage(ctx context.Context, pkg *packages.Package, binfile string,
 		if obj == nil {
 			continue
 		}
+		if _, ok := obj.(*types.TypeName); ok {
+			continue
+		}
 		if err := checkImplementsTarget(obj.Type()); err != nil {
 			continue
 		}
-		targets[ident] = &targetPair{Name: ident}
+		targets[ident] = &targetPair{Name: ident, Doc: strconv.Quote("")}
 	}
 
 	var (
@@ -155,7 +159,12 @@ func compilePackage(ctx context.Context, pkg *packages.Package, binfile string,
 		parser = dpkg.Parser()
 		pr     = dpkg.Printer()
 	)
-	for _, v := range dpkg.Vars {
+	vars := append([]*doc.Value{}, dpkg.Vars...)
+	for _, typ := range dpkg.Types {
+		// Variables declared with one of the package's own types.
+		vars = append(vars, typ.Vars...)
+	}
+	for _, v := range vars {
 		for _, name := range v.Names {
 			if tp, ok := targets[name]; ok {
 				dstr := string(pr.Text(parser.Parse(v.Doc)))
-- 
2.43.0


From e59c81607e10104abded6f56bb96f9b533d19096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 25/33] fix: report a directory that a Glob pattern cannot read

fs.Glob ignores I/O errors, so an unreadable directory looked like one without
matching files, and a Files target could be up to date without its inputs.
---
 files.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/files.go b/files.go
index dece610..c077e82 100644
--- a/files.go
+++ b/files.go
@@ -11,6 +11,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"sort"
+	"syscall"
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/maps"
@@ -535,7 +536,7 @@ func globDecoder(con *Controller, node *yaml.Node, dir string) ([]string, error)
 	if dir == "" {
 		dir = "."
 	}
-	fsys := os.DirFS(dir)
+	fsys := &globFS{FS: os.DirFS(dir)}
 
 	var result []string
 	for _, pattern := range patterns {
@@ -543,12 +544,43 @@ func globDecoder(con *Controller, node *yaml.Node, dir string) ([]string, error)
 		if err != nil {
 			return nil, errors.Wrap(err, "in Glob pattern")
 		}
+		if fsys.err != nil {
+			return nil, errors.Wrapf(fsys.err, "expanding Glob pattern %s", pattern)
+		}
 		result = append(result, matches...)
 	}
 
 	return result, nil
 }
 
+// Type globFS is a file system that remembers the errors that [fs.Glob] ignores.
+// A file or directory that does not exist is no error
+// (and neither is looking for a file in something that is not a directory):
+// it does not match, and that's all.
+type globFS struct {
+	fs.FS
+	err error
+}
+
+func (g *globFS) ReadDir(name string) ([]fs.DirEntry, error) {
+	entries, err := fs.ReadDir(g.FS, name)
+	g.check(err)
+	return entries, err
+}
+
+func (g *globFS) Stat(name string) (fs.FileInfo, error) {
+	info, err := fs.Stat(g.FS, name)
+	g.check(err)
+	return info, err
+}
+
+func (g *globFS) check(err error) {
+	if err == nil || errors.Is(err, fs.ErrNotExist) || errors.Is(err, syscall.ENOTDIR) || g.err != nil {
+		return
+	}
+	g.err = err
+}
+
 func init() {
 	RegisterYAMLTarget("Files", filesDecoder)
 	RegisterYAMLStringList("Glob", globDecoder)
-- 
2.43.0


From 849ea9cd4f06516460f5eb466912d1941fd6de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 26/33] fix: find protocol buffer imports wherever a statement
 can start

Imports that are indented, weak, in single quotes or not first in their line
were not counted as dependencies, so a change to them did not cause a rebuild.
---
 proto/proto.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 856d0cc..8457f44 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -1,7 +1,6 @@
 package proto
 
 import (
-	"bufio"
 	"io"
 	"io/fs"
 	"os"
@@ -110,20 +109,36 @@ func Deps(filename string, includes []string) ([]string, error) {
 	return slice, err
 }
 
-var importRegex = regexp.MustCompile(`^import(\s+public)?\s*"([^"]+)"`)
+var (
+	// String literals are matched too, to tell comments from what looks like one in a string.
+	commentRegex = regexp.MustCompile(`"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|//[^\n]*|/\*(?s:.*?)\*/`)
+
+	// An import can be anywhere that a statement can start,
+	// and can have space (and newlines) anywhere between its parts.
+	importRegex = regexp.MustCompile(`(?:^|[;}])\s*import\b\s*(?:public\b|weak\b|option\b)?\s*(?:"([^"]+)"|'([^']+)')`)
+)
 
 func protodeps(r io.Reader, includes []string, result set.Of[string]) error {
-	sc := bufio.NewScanner(r)
-	for sc.Scan() {
-		m := importRegex.FindStringSubmatch(sc.Text())
-		if len(m) == 0 {
-			continue
+	text, err := io.ReadAll(r)
+	if err != nil {
+		return err
+	}
+	text = commentRegex.ReplaceAllFunc(text, func(b []byte) []byte {
+		if b[0] == '/' {
+			return []byte(" ")
+		}
+		return b
+	})
+	for _, m := range importRegex.FindAllSubmatch(text, -1) {
+		imp := m[1]
+		if len(imp) == 0 {
+			imp = m[2]
 		}
-		if err := protodepsImport(m[2], includes, result); err != nil {
+		if err := protodepsImport(string(imp), includes, result); err != nil {
 			return err
 		}
 	}
-	return sc.Err()
+	return nil
 }
 
 func protodepsImport(imp string, includes []string, result set.Of[string]) error {
-- 
2.43.0


From 299f82cdf580ecf6dba8c2c6485e0296ccc41ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 27/33] fix: do not look further for a protocol buffer import
 already found

The second time a file was imported, one with the same name in a later include
directory counted as a dependency.
---
 proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index 8457f44..65654da 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -146,7 +146,7 @@ func protodepsImport(imp string, includes []string, result set.Of[string]) error
 		full := filepath.Join(inc, imp)
 
 		if result.Has(full) {
-			continue
+			return nil
 		}
 
 		f, err := os.Open(full)
-- 
2.43.0


From f439d9bd2185b0b813c4cf8a7af8f4ea4a9afd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:09 +0000
Subject: [PATCH 28/33] fix: without include directories, find protocol buffer
 imports where protoc does

---
 proto/proto.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index 65654da..562125e 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -37,9 +37,15 @@ import (
 //   - Autoclean: a boolean indicating whether the files listed in Outputs should be added to the "autoclean registry."
 //     See [fab.Autoclean] for more about this feature.
 func Proto(inputs, outputs, includes, otherOpts []string, filesOpts ...fab.FilesOpt) (fab.Target, error) {
+	// Without any include directories, protoc looks in the current directory.
+	depsIncludes := includes
+	if len(depsIncludes) == 0 {
+		depsIncludes = []string{"."}
+	}
+
 	alldeps := set.New[string](inputs...)
 	for _, inp := range inputs {
-		d, err := Deps(inp, includes)
+		d, err := Deps(inp, depsIncludes)
 		if err != nil {
 			return nil, errors.Wrapf(err, "computing dependencies for %s", inp)
 		}
-- 
2.43.0


From 00a07a51b95bef3be3ee53693f6b96e7855d0508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 29/33] fix: golang.Deps reports packages whose files could not
 be listed

---
 golang/go.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/golang/go.go b/golang/go.go
index ea769e2..b6e8bcb 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -131,6 +131,12 @@ func Deps(dir string, recursive, tests bool) ([]string, error) {
 }
 
 func gopkgAdd(pkg *packages.Package, modpath string, files set.Of[string]) error {
+	// The files of a package that could not be listed properly are not all known.
+	for _, e := range pkg.Errors {
+		if e.Kind == packages.ListError {
+			return e
+		}
+	}
 	if pkg.Module == nil {
 		return nil
 	}
-- 
2.43.0


From 6cbb4b05332e1af0230bd6316f387bcb4123a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:44 +0000
Subject: [PATCH 30/33] fix: proto.Deps in YAML interprets its include
 directories relative to the YAML file

---
 proto/proto.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index 562125e..58950b5 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -178,7 +178,15 @@ func protodepsDecoder(con *fab.Controller, node *yaml.Node, dir string) ([]strin
 	if err := node.Decode(&pd); err != nil {
 		return nil, errors.Wrap(err, "YAML error in proto.Deps node")
 	}
-	return Deps(con.JoinPath(dir, pd.File), pd.Includes)
+
+	// Absolute names mean the same wherever the result is used.
+	names, err := slices.Mapx(append([]string{pd.File}, pd.Includes...), func(_ int, name string) (string, error) {
+		return filepath.Abs(con.JoinPath(dir, name))
+	})
+	if err != nil {
+		return nil, errors.Wrap(err, "in proto.Deps node")
+	}
+	return Deps(names[0], names[1:])
 }
 
 func init() {
-- 
2.43.0


From 747e1c570136dd045eab55ee4f2602c3b58f71c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:51 +0000
Subject: [PATCH 31/33] fix: messages printed concurrently by Indentf no longer
 get mixed up

---
 runner.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/runner.go b/runner.go
index 70ca118..38f66dc 100644
--- a/runner.go
+++ b/runner.go
@@ -138,10 +138,9 @@ func (con *Controller) indentf(w io.Writer, format string, args ...any) {
 	depth := con.depth
 	con.mu.Unlock()
 
-	if depth > 0 {
-		fmt.Fprint(w, strings.Repeat("  ", int(depth)))
-	}
-	fmt.Fprintf(w, format, args...)
+	// This is a single write,
+	// to keep messages apart that are printed at the same time.
+	fmt.Fprint(w, strings.Repeat("  ", int(depth))+fmt.Sprintf(format, args...))
 }
 
 // IndentingCopier creates an [io.Writer] that copies its data to an underlying writer,
-- 
2.43.0


From d6b95d903ab10824585364b0b3bb9c1dc1d3fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:50 +0000
Subject: [PATCH 32/33] fix: getDriver no longer compiles a copy of a source
 file that could not be written completely

Errors in closing the copy were ignored,
and that may be when a file system reports that data is lost.
---
 compile.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/compile.go b/compile.go
index 8c4cb87..e85c159 100644
--- a/compile.go
+++ b/compile.go
@@ -322,6 +322,11 @@ func copyFile(filename, destdir string) error {
 	}
 	defer in.Close()
 
-	_, err = io.Copy(out, in)
-	return errors.Wrapf(err, "copying %s to %s", filename, destdir)
+	if _, err = io.Copy(out, in); err != nil {
+		return errors.Wrapf(err, "copying %s to %s", filename, destdir)
+	}
+
+	// Errors in writing the file might not be reported before this.
+	err = out.Close()
+	return errors.Wrapf(err, "closing %s", outfilename)
 }
-- 
2.43.0


From eb54ca0f02431bd900b3f576e0ca085e323d37e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:53 +0000
Subject: [PATCH 33/33] fix: indent every line of a target's documentation in
 listings, not the first one only

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index ac643db..47f4f11 100644
--- a/main.go
+++ b/main.go
@@ -152,7 +152,7 @@ func (m *Main) driverless(ctx context.Context) error {
 	return con.Run(ctx, targets...)
 }
 
-var bolRegex = regexp.MustCompile("^")
+var bolRegex = regexp.MustCompile("(?m)^")
 
 // OpenHashDB ensures the given directory exists and opens (or creates) the hash DB there.
 // Callers must make sure to call Close on the returned DB when finished with it.
-- 
2.43.0

