From 0a185b2c8bc24d8d272e4cfb8505bc2703a0a8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 01/39] fix: honour SkipDir and SkipAll requests from the
 client callback

---
 driver.go                              |  7 ++++++
 internal/kernel/navigator-agent.go     | 33 +++++++++++---------------
 internal/kernel/navigator-universal.go |  5 +++-
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/driver.go b/driver.go
index d690cf3..faa4ce4 100644
--- a/driver.go
+++ b/driver.go
@@ -6,6 +6,7 @@ import (
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/services"
 	"github.com/snivilised/agenor/internal/third/bus"
+	"github.com/snivilised/agenor/stock"
 )
 
 const (
@@ -33,5 +34,11 @@ func (d *driver) Navigate(ctx context.Context) (core.TraverseResult, error) {
 
 	d.s.finish(result)
 
+	if stock.IsBenignError(err) {
+		// a request to skip is not a failure
+		//
+		return result, nil
+	}
+
 	return result, err
 }
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 9a0b04e..dbb5d7f 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -167,31 +167,26 @@ func (n *navigatorAgent) travel(ctx context.Context,
 					e,
 				),
 			},
-		); !progress {
-			if err != nil {
-				if errors.Is(err, fs.SkipDir) {
+		); err != nil {
+			switch {
+			case errors.Is(err, fs.SkipAll):
+				// Nothing else is to be visited, so the request has to reach
+				// all ancestors.
+				//
+				return skipTraversal, err
+
+			case errors.Is(err, fs.SkipDir):
+				if !progress {
 					// The returning of skipTraversal by the child, denotes
 					// a skip. So when a child node returns a SkipDir error and
 					// skipTraversal, what we're saying is that we want to skip
 					// processing all successive siblings but continue traversal.
-					// The !progress indicates we're skipping the remaining
-					// processing of all of the parent node's remaining children.
-					// (see the ✨ below ...)
 					//
-					return skipTraversal, err
+					return continueTraversal, nil
 				}
-
-				return continueTraversal, err
-			}
-		} else if err != nil {
-			// ✨ ... we skip processing all the remaining children for
-			// this node, but still continue the overall traversal.
-			//
-			switch {
-			case errors.Is(err, fs.SkipDir):
-				continue
-			case errors.Is(err, fs.SkipAll):
-				break
+				// ✨ ... the child's own content has been skipped, but still
+				// continue with its successive siblings.
+				//
 			default:
 				return continueTraversal, err
 			}
diff --git a/internal/kernel/navigator-universal.go b/internal/kernel/navigator-universal.go
index 6e67e3a..91632ce 100644
--- a/internal/kernel/navigator-universal.go
+++ b/internal/kernel/navigator-universal.go
@@ -36,7 +36,10 @@ func (n *navigatorUniversal) Traverse(ctx context.Context,
 	vapour, err := n.inspect(ns, servant)
 
 	if e := ns.mediator.Invoke(servant, vapour); e != nil {
-		return continueTraversal, e
+		// a SkipDir from a directory skips its own content, but from a file
+		// it skips the remaining siblings.
+		//
+		return current.IsDirectory(), e
 	}
 
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
-- 
2.43.0


From 2e1661ede1c8aa4abee766705d62f0d666f520de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 02/39] fix: skip handler can terminate or skip in all
 navigators and sees file contents

---
 internal/kernel/contents.go              | 18 ------------------
 internal/kernel/navigation-vapour.go     |  5 ++++-
 internal/kernel/navigator-agent.go       | 10 ++++++++++
 internal/kernel/navigator-directories.go |  2 ++
 internal/kernel/navigator-files.go       |  4 +++-
 internal/kernel/navigator-universal.go   |  2 +-
 6 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/internal/kernel/contents.go b/internal/kernel/contents.go
index e5cf24b..36d20e5 100644
--- a/internal/kernel/contents.go
+++ b/internal/kernel/contents.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
-	"github.com/snivilised/agenor/internal/third/lo"
 	"github.com/snivilised/agenor/pref"
 	"github.com/snivilised/agenor/tapable"
 	nef "github.com/snivilised/nefilim"
@@ -88,20 +87,3 @@ func (c *Contents) clear() {
 	c.files = []fs.DirEntry{}
 	c.directories = []fs.DirEntry{}
 }
-
-func newEmptyContents(prealloc ...*pref.EntryQuantities) *Contents {
-	return lo.TernaryF(len(prealloc) == 0,
-		func() *Contents {
-			return &Contents{
-				files:       []fs.DirEntry{},
-				directories: []fs.DirEntry{},
-			}
-		},
-		func() *Contents {
-			return &Contents{
-				files:       make([]fs.DirEntry, 0, prealloc[0].Files),
-				directories: make([]fs.DirEntry, 0, prealloc[0].Directories),
-			}
-		},
-	)
-}
diff --git a/internal/kernel/navigation-vapour.go b/internal/kernel/navigation-vapour.go
index ec6c627..8138272 100644
--- a/internal/kernel/navigation-vapour.go
+++ b/internal/kernel/navigation-vapour.go
@@ -38,7 +38,10 @@ func (v *navigationVapour) clear() {
 	if v.cargo != nil {
 		v.cargo.clear()
 	} else {
-		newEmptyContents()
+		// a file does not have any entries of its own
+		//
+		o := v.ns.mediator.o
+		v.cargo = NewContents(&o.Behaviours.Sort, o.Hooks.Sort, nil)
 	}
 }
 
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index dbb5d7f..069c7a0 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -93,6 +93,16 @@ const (
 	skipTraversal     = false
 )
 
+// terminate is the response to a skip handler that requests skip all, along with
+// an optional error.
+func terminate(err error) (bool, error) {
+	if err != nil {
+		return skipTraversal, err
+	}
+
+	return skipTraversal, fs.SkipAll
+}
+
 // travel is the general recursive navigation function which returns a bool
 // indicating whether we continue travelling or not in response to an
 // error.
diff --git a/internal/kernel/navigator-directories.go b/internal/kernel/navigator-directories.go
index 15ab53d..bc50530 100644
--- a/internal/kernel/navigator-directories.go
+++ b/internal/kernel/navigator-directories.go
@@ -42,6 +42,8 @@ func (n *navigatorDirectories) Traverse(ctx context.Context,
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
 	); skip == enums.SkipAllTraversal {
+		return terminate(e)
+	} else if skip == enums.SkipDirTraversal {
 		return continueTraversal, e
 	}
 
diff --git a/internal/kernel/navigator-files.go b/internal/kernel/navigator-files.go
index f3e6e0e..46a25b4 100644
--- a/internal/kernel/navigator-files.go
+++ b/internal/kernel/navigator-files.go
@@ -49,7 +49,9 @@ func (n *navigatorFiles) Traverse(ctx context.Context,
 
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
-	); skip == enums.SkipAllTraversal || err != nil {
+	); skip == enums.SkipAllTraversal {
+		return terminate(e)
+	} else if err != nil {
 		return continueTraversal, e
 	} else if skip == enums.SkipDirTraversal {
 		return true, e
diff --git a/internal/kernel/navigator-universal.go b/internal/kernel/navigator-universal.go
index 91632ce..5f445a1 100644
--- a/internal/kernel/navigator-universal.go
+++ b/internal/kernel/navigator-universal.go
@@ -45,7 +45,7 @@ func (n *navigatorUniversal) Traverse(ctx context.Context,
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
 	); skip == enums.SkipAllTraversal {
-		return continueTraversal, e
+		return terminate(e)
 	} else if skip == enums.SkipDirTraversal {
 		return skipTraversal, e
 	}
-- 
2.43.0


From 0771779620d20b8ec03da570650a538892f1eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 03/39] fix: sort behaviour's IsCaseSensitive takes effect

---
 pref/defaults.go | 14 ++++++++++++++
 pref/options.go  |  7 ++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/pref/defaults.go b/pref/defaults.go
index 2bb960c..3dfcd25 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -48,6 +48,20 @@ func DefaultCaseInSensitiveSortHook(entries []fs.DirEntry, _ ...any) {
 	})
 }
 
+// sortHook creates the default sort hook, which takes account of the case
+// sensitivity denoted by the behaviour.
+func sortHook(behaviour *SortBehaviour) core.SortHook {
+	return func(entries []fs.DirEntry, custom ...any) {
+		if behaviour.IsCaseSensitive {
+			CaseSensitiveSortHook(entries, custom...)
+
+			return
+		}
+
+		DefaultCaseInSensitiveSortHook(entries, custom...)
+	}
+}
+
 // tail extracts the end part of a string, starting from the offset
 func tail(input string, offset int) string {
 	asRunes := []rune(input)
diff --git a/pref/options.go b/pref/options.go
index f58cb0b..4ccf159 100644
--- a/pref/options.go
+++ b/pref/options.go
@@ -120,7 +120,6 @@ func DefaultOptions() *Options {
 		Concurrency: ConcurrencyOptions{
 			NoW: uint(runtime.NumCPU()),
 		},
-		Hooks: newHooks(),
 		Monitor: MonitorOptions{
 			Log: nopLogger,
 			Admin: AdminOptions{
@@ -135,10 +134,12 @@ func DefaultOptions() *Options {
 		},
 	}
 
+	o.Hooks = newHooks(&o.Behaviours.Sort)
+
 	return o
 }
 
-func newHooks() tapable.Hooks {
+func newHooks(behaviour *SortBehaviour) tapable.Hooks {
 	return tapable.Hooks{
 		FileSubPath: tapable.NewHookCtrl[
 			core.SubPathHook, core.ChainSubPathHook, tapable.SubPathBroadcaster,
@@ -175,7 +176,7 @@ func newHooks() tapable.Hooks {
 		Sort: tapable.NewHookCtrl[
 			core.SortHook, core.ChainSortHook, tapable.SortBroadcaster,
 		](
-			DefaultCaseInSensitiveSortHook,
+			sortHook(behaviour),
 			tapable.GetSortBroadcaster,
 			tapable.SortAttacher,
 		),
-- 
2.43.0


From fa37c9d73cc387bd2aa542a3ba85e58e64a7a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 04/39] fix: a very large depth limit is not taken to be
 negative

---
 internal/level/periscope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/level/periscope.go b/internal/level/periscope.go
index 4f67545..2ec07f4 100644
--- a/internal/level/periscope.go
+++ b/internal/level/periscope.go
@@ -68,7 +68,7 @@ func (p *Periscope) Delta(tree, current string) (err error) {
 }
 
 func (p *Periscope) Descend(maximum uint) bool {
-	if maximum > 0 && p.depth > int(maximum) { //nolint:gosec // ok
+	if maximum > 0 && p.depth > 0 && uint(p.depth) > maximum {
 		return false
 	}
 
-- 
2.43.0


From 351c8dd36827cc6093b083b21005b63b83a6bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 05/39] fix: unmute all includes the wake event

---
 life/events.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/life/events.go b/life/events.go
index 5f82707..13364cb 100644
--- a/life/events.go
+++ b/life/events.go
@@ -77,6 +77,7 @@ func (c *Controls) UnmuteAll() {
 	c.Begin.Unmute()
 	c.Descend.Unmute()
 	c.End.Unmute()
+	c.Wake.Unmute()
 	c.Sleep.Unmute()
 }
 
-- 
2.43.0


From 25197e28fdd4236ae2384403bac040091e2919da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 06/39] fix: extended glob matches file names without regard to
 case

---
 internal/filtering/glob-ex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index 15bf900..91e15c9 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -94,7 +94,9 @@ func (f *GlobEx) isDirectoryMatch(node *core.Node) bool {
 // this situation, the client should also set the filter's IfNotApplicable to false.
 func (f *GlobEx) IsMatch(node *core.Node) bool {
 	if f.IsApplicable(node) {
-		return f.invert(f.spec.IsMatch(node.Extension.Name))
+		// the patterns are held in lower case, so that matching ignores case
+		//
+		return f.invert(f.spec.IsMatch(strings.ToLower(node.Extension.Name)))
 	}
 
 	return f.ifNotApplicable
-- 
2.43.0


From f40c89bb71a351de15e0984a33e2b4ed89b8ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 07/39] fix: directories with files get their children when
 only a node filter is active

---
 internal/feat/filter/filter-plugin.go |  4 ++--
 internal/feat/filter/scheme-nanny.go  | 10 +++++++++-
 internal/feat/filter/schemes.go       | 17 +++++++++++++----
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/internal/feat/filter/filter-plugin.go b/internal/feat/filter/filter-plugin.go
index 3b31ef6..e85d979 100644
--- a/internal/feat/filter/filter-plugin.go
+++ b/internal/feat/filter/filter-plugin.go
@@ -10,7 +10,7 @@ import (
 	"github.com/snivilised/agenor/pref"
 )
 
-func IfActive(o *pref.Options, _ enums.Subscription, mediator enclave.Mediator) enclave.Plugin {
+func IfActive(o *pref.Options, sub enums.Subscription, mediator enclave.Mediator) enclave.Plugin {
 	if o.Filter.IsFilteringActive() {
 		return &plugin{
 			BasePlugin: kernel.BasePlugin{
@@ -19,7 +19,7 @@ func IfActive(o *pref.Options, _ enums.Subscription, mediator enclave.Mediator)
 				ActivatedRole: enums.RoleClientFilter,
 			},
 			sink:   o.Filter.Sink,
-			scheme: newScheme(o),
+			scheme: newScheme(o, sub),
 		}
 	}
 
diff --git a/internal/feat/filter/scheme-nanny.go b/internal/feat/filter/scheme-nanny.go
index d53f573..879baad 100644
--- a/internal/feat/filter/scheme-nanny.go
+++ b/internal/feat/filter/scheme-nanny.go
@@ -14,6 +14,10 @@ type nannyScheme struct {
 }
 
 func (s *nannyScheme) create() error {
+	if !s.o.Filter.IsChildFilteringActive() {
+		return nil // all children are wanted
+	}
+
 	filter, err := filtering.NewChild(s.o.Filter.Child)
 
 	if err != nil {
@@ -38,7 +42,11 @@ func (s *nannyScheme) next(_ core.Servant,
 	inspection enclave.Inspection,
 ) (bool, error) {
 	files := inspection.Sort(enums.EntryTypeFile)
-	matching := s.filter.Matching(files)
+	matching := files
+
+	if s.filter != nil {
+		matching = s.filter.Matching(files)
+	}
 
 	inspection.AssignChildren(matching)
 	s.crate.Metrics[enums.MetricNoChildFilesFound].Times(uint(len(matching)))
diff --git a/internal/feat/filter/schemes.go b/internal/feat/filter/schemes.go
index 5d3adcc..1d3171f 100644
--- a/internal/feat/filter/schemes.go
+++ b/internal/feat/filter/schemes.go
@@ -2,6 +2,7 @@ package filter
 
 import (
 	"github.com/snivilised/agenor/core"
+	"github.com/snivilised/agenor/enums"
 	"github.com/snivilised/agenor/internal/enclave"
 	"github.com/snivilised/agenor/internal/third/lo"
 	"github.com/snivilised/agenor/pref"
@@ -24,9 +25,9 @@ func (f *common) init(_ *enclave.PluginInit, crate *enclave.Crate) {
 	f.crate = crate
 }
 
-func newScheme(o *pref.Options) scheme {
+func newScheme(o *pref.Options, sub enums.Subscription) scheme {
 	c := common{o: o}
-	primary, nanny := binary(o)
+	primary, nanny := binary(o, sub)
 
 	if primary != nil && nanny != nil {
 		return &hybridScheme{
@@ -43,11 +44,19 @@ func newScheme(o *pref.Options) scheme {
 	return nanny
 }
 
-func binary(o *pref.Options) (primary, nanny scheme) {
+func binary(o *pref.Options, sub enums.Subscription) (primary, nanny scheme) {
 	c := common{o: o}
 
 	primary = unary(c)
-	nanny = lo.TernaryF(o.Filter.IsChildFilteringActive(),
+
+	// the nanny plugin is dormant when filtering is active, so even without a
+	// child filter, the directories that pass a node filter still need their
+	// children
+	//
+	wantsChildren := sub == enums.SubscribeDirectoriesWithFiles &&
+		(o.Filter.IsCustomFilteringActive() || o.Filter.IsNodeFilteringActive())
+
+	nanny = lo.TernaryF(o.Filter.IsChildFilteringActive() || wantsChildren,
 		func() scheme {
 			return &nannyScheme{
 				common: c,
-- 
2.43.0


From e7a5cf585d4f29b665253741dde101b190bf45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 08/39] fix: hibernation conditions are built from their own
 definitions

---
 internal/filtering/builders.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 3be1f4a..0da4a9f 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -63,7 +63,11 @@ func buildPolyNodeFilter(definition *core.FilterDef,
 	if definition.Type != enums.FilterTypePoly {
 		return nil, nil
 	}
-	polyDef := fo.Node.Poly
+	polyDef := definition.Poly
+
+	if polyDef == nil {
+		return nil, locale.ErrFilterIsNil
+	}
 
 	// enforce the correct filter scopes
 	//
@@ -119,6 +123,10 @@ func buildConstituent(definition *core.FilterDef,
 		return nil, err
 	}
 
+	if filter == nil {
+		return nil, locale.ErrFilterIsNil
+	}
+
 	if err := filter.Validate(); err != nil {
 		return nil, err
 	}
@@ -126,9 +134,20 @@ func buildConstituent(definition *core.FilterDef,
 	return filter, err
 }
 
-func getCustomFilter(_ *core.FilterDef,
+// getCustomFilter only provides the client's custom filter for a definition
+// that asks for it. The same options may contain other definitions that don't,
+// eg those used by hibernation.
+func getCustomFilter(definition *core.FilterDef,
 	fo *pref.FilterOptions,
 ) (core.TraverseFilter, error) {
+	if definition.Type != enums.FilterTypeCustom {
+		return nil, nil
+	}
+
+	if fo.Custom == nil {
+		return nil, locale.ErrFilterIsNil
+	}
+
 	return fo.Custom, nil
 }
 
-- 
2.43.0


From 44c1d7a9ab6f675a1287609682d0b9891634f589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 09/39] fix: poly filter copes with a tree that is a file

---
 internal/filtering/poly.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/filtering/poly.go b/internal/filtering/poly.go
index 0ed6330..7fc6c75 100644
--- a/internal/filtering/poly.go
+++ b/internal/filtering/poly.go
@@ -65,7 +65,11 @@ func (f *Poly) Source() string {
 // the poly directory filter. Returns true of the current node is a directory.
 func (f *Poly) IsMatch(node *core.Node) bool {
 	if !node.IsDirectory() {
-		return f.Directory.IsMatch(node.Parent) && f.File.IsMatch(node)
+		if node.Parent != nil && !f.Directory.IsMatch(node.Parent) {
+			return false
+		}
+
+		return f.File.IsMatch(node)
 	}
 
 	return true
-- 
2.43.0


From f32bfcebec17b267c0bb234b4201253aeb60cd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 10/39] fix: sub path is right when the tree has multi-byte
 characters

---
 pref/defaults.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pref/defaults.go b/pref/defaults.go
index 3dfcd25..977fabe 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -62,15 +62,13 @@ func sortHook(behaviour *SortBehaviour) core.SortHook {
 	}
 }
 
-// tail extracts the end part of a string, starting from the offset
+// tail extracts the end part of a string, starting from the byte offset
 func tail(input string, offset int) string {
-	asRunes := []rune(input)
-
-	if offset >= len(asRunes) {
+	if offset >= len(input) {
 		return ""
 	}
 
-	return string(asRunes[offset:])
+	return input[offset:]
 }
 
 // difference returns the difference between a child path and a parent path
-- 
2.43.0


From debb292de2b1c74ef23c0155a79d2d1a5076626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 11/39] fix: sampling does not hide an error reading a
 directory

---
 internal/feat/sampling/controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/feat/sampling/controller.go b/internal/feat/sampling/controller.go
index 95fc165..b3bf3ba 100644
--- a/internal/feat/sampling/controller.go
+++ b/internal/feat/sampling/controller.go
@@ -24,7 +24,7 @@ func (p *controller) Next(_ core.Servant, _ enclave.Inspection) (bool, error) {
 	return true, nil
 }
 
-func (p *controller) sample(result []fs.DirEntry, _ error,
+func (p *controller) sample(result []fs.DirEntry, err error,
 	_ fs.ReadDirFS, _ string,
 ) ([]fs.DirEntry, error) {
 	files, directories := nef.Separate(result)
@@ -33,7 +33,7 @@ func (p *controller) sample(result []fs.DirEntry, _ error,
 		files:       files,
 		directories: directories,
 		o:           p.o,
-	}), nil
+	}), err
 }
 
 type (
-- 
2.43.0


From bd5e0586d1fa1d70a50f6b3d4d40b83ace439fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 12/39] fix: sample filter for files and directories applies to
 both

---
 internal/filtering/sample.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/filtering/sample.go b/internal/filtering/sample.go
index 2769453..75ae8ed 100644
--- a/internal/filtering/sample.go
+++ b/internal/filtering/sample.go
@@ -94,11 +94,14 @@ func (f *Sample) all(entries []fs.DirEntry) (wanted, others []fs.DirEntry) {
 }
 
 func (f *Sample) fn() candidates {
-	if f.scope.IsDirectory() {
+	switch {
+	case f.scope.IsDirectory() && f.scope.IsFile():
+		return f.all
+
+	case f.scope.IsDirectory():
 		return f.directories
-	}
 
-	if f.scope.IsFile() {
+	case f.scope.IsFile():
 		return f.files
 	}
 
-- 
2.43.0


From 965d3e4383b921edafd57109eb79c63e5e0c22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 13/39] fix: child and sample filters of an unsupported type
 are reported, not left nil

---
 internal/filtering/child.go  | 10 ++++++----
 internal/filtering/sample.go | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/internal/filtering/child.go b/internal/filtering/child.go
index b81dcea..4660602 100644
--- a/internal/filtering/child.go
+++ b/internal/filtering/child.go
@@ -43,10 +43,12 @@ func NewChild(def *core.ChildFilterDef) (core.ChildTraverseFilter, error) {
 	case enums.FilterTypePoly:
 	}
 
-	if filter != nil {
-		if err := filter.Validate(); err != nil {
-			return nil, err
-		}
+	if filter == nil {
+		return nil, locale.ErrFilterIsNil
+	}
+
+	if err := filter.Validate(); err != nil {
+		return nil, err
 	}
 
 	return filter, nil
diff --git a/internal/filtering/sample.go b/internal/filtering/sample.go
index 75ae8ed..0094452 100644
--- a/internal/filtering/sample.go
+++ b/internal/filtering/sample.go
@@ -70,10 +70,12 @@ func NewSample(def *core.SampleFilterDef,
 		return nil, locale.ErrFilterMissingType
 	}
 
-	if filter != nil {
-		if err := filter.Validate(); err != nil {
-			return nil, err
-		}
+	if filter == nil {
+		return nil, locale.ErrFilterIsNil
+	}
+
+	if err := filter.Validate(); err != nil {
+		return nil, err
 	}
 
 	return filter, nil
-- 
2.43.0


From fae2fde77303ffe688b6554dbd2825193e4386df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 14/39] fix: a tree that is a file is not visited by a
 directories only traversal

---
 internal/kernel/navigator-directories.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/kernel/navigator-directories.go b/internal/kernel/navigator-directories.go
index bc50530..2df28d5 100644
--- a/internal/kernel/navigator-directories.go
+++ b/internal/kernel/navigator-directories.go
@@ -33,6 +33,12 @@ func (n *navigatorDirectories) Traverse(ctx context.Context,
 		return continueTraversal, nil
 	}
 
+	if !current.IsDirectory() {
+		// only the tree itself could be a file
+		//
+		return continueTraversal, nil
+	}
+
 	vapour, err := n.inspect(ns, servant)
 
 	if e := ns.mediator.Invoke(servant, vapour); e != nil {
-- 
2.43.0


From 6c0c7ff06818e5745e1347cc85b870881b426a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 15/39] fix: save the node that panicked, and rescue a panic at
 the tree itself

The state saved after a panic denoted the parent of the node being processed, and a
panic raised at the tree was not rescued at all.
---
 internal/kernel/author.go          |   2 +-
 internal/kernel/navigator-agent.go | 120 ++++++++++++++++++-----------
 internal/kernel/vex.go             |   6 ++
 3 files changed, 81 insertions(+), 47 deletions(-)

diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index 07ade6d..1d2d934 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -29,7 +29,7 @@ func (a *author) write(vex vexation) (string, error) {
 
 	path := calc.Join(directory, file)
 	active := vapour.active(vex.ancestor(), forest,
-		static.mediator.periscope.Depth(),
+		vex.depth(),
 		static.mediator.metrics,
 	)
 
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 069c7a0..24e2a8b 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -59,10 +59,19 @@ func (n *navigatorAgent) top(ctx context.Context,
 				Info: info,
 			})
 		},
-		func() error {
-			_, te := ns.mediator.impl.Traverse(ctx, ns,
+		func() (te error) {
+			node := core.Top(ns.tree, info)
+			depth := ns.mediator.periscope.Depth() + 1
+
+			defer func() {
+				if data := recover(); data != nil {
+					te = n.rescue(ns, node, depth, data)
+				}
+			}()
+
+			_, te = ns.mediator.impl.Traverse(ctx, ns,
 				servant{
-					node: core.Top(ns.tree, info),
+					node: node,
 				},
 			)
 
@@ -103,6 +112,47 @@ func terminate(err error) (bool, error) {
 	return skipTraversal, fs.SkipAll
 }
 
+// rescue responds to a panic that occurred whilst processing the node specified
+// and denotes the error that represents it.
+func (n *navigatorAgent) rescue(ns *navigationStatic,
+	node *core.Node,
+	depth int,
+	data any,
+) error {
+	// The tree on the mediator always points to the original tree root
+	// requested by the user. The tree on navigation static can be different
+	// when a spawn resume is in play; ie, the Spawn is created using a child
+	// tree and this is what is set on the navigation static when a sub tree
+	// is seeded, but this would be the incorrect tree to persist, rather, we
+	// need the real ancestor that is denoted by the mediator's tree.
+	//
+	to, rescueErr := n.ao.defects.Panic.Rescue(n, &vex{
+		data: data,
+		anc:  ns.mediator.tree,
+		vap: &navigationVapour{
+			ns:      ns,
+			present: node,
+		},
+		level:    depth,
+		catalyst: "panic",
+		mag:      n.magnitude,
+	}) // wrap???
+
+	panicErr, ok := data.(error)
+	if !ok {
+		panicErr = errors.New("")
+	}
+
+	return lo.TernaryF(rescueErr != nil,
+		func() error {
+			return locale.NewTraversalNotSavedError(panicErr, rescueErr)
+		},
+		func() error {
+			return locale.NewTraversalSavedError(to, panicErr)
+		},
+	)
+}
+
 // travel is the general recursive navigation function which returns a bool
 // indicating whether we continue travelling or not in response to an
 // error.
@@ -116,66 +166,44 @@ func (n *navigatorAgent) travel(ctx context.Context,
 	ns *navigationStatic,
 	vapour inspection,
 ) (skip bool, err error) {
+	var (
+		parent = vapour.Current()
+		// the node being processed, which is the one that denotes how far
+		// the traversal has got, should a panic occur
+		//
+		present = parent
+		depth   = ns.mediator.periscope.Depth()
+	)
+
 	defer func() {
 		if data := recover(); data != nil {
-			// The tree on the mediator always points to the original tree root
-			// requested by the user. The tree on navigation static can be different
-			// when a spawn resume is in play; ie, the Spawn is created using a child
-			// tree and this is what is set on the navigation static when a sub tree
-			// is seeded, but this would be the incorrect tree to persist, rather, we
-			// need the real ancestor that is denoted by the mediator's tree.
-			//
-			to, rescueErr := n.ao.defects.Panic.Rescue(n, &vex{
-				data:     data,
-				anc:      ns.mediator.tree,
-				vap:      vapour,
-				catalyst: "panic",
-				mag:      n.magnitude,
-			}) // wrap???
-
-			panicErr, ok := data.(error)
-			if !ok {
-				panicErr = errors.New("")
+			if present != parent {
+				depth++
 			}
 
-			if rescueErr != nil {
-				err = locale.NewTraversalNotSavedError(panicErr, rescueErr)
-			}
-
-			err = lo.TernaryF(rescueErr != nil,
-				func() error {
-					return locale.NewTraversalNotSavedError(panicErr, rescueErr)
-				},
-				func() error {
-					return locale.NewTraversalSavedError(to, panicErr)
-				},
-			)
-
-			skip = skipTraversal
+			skip, err = skipTraversal, n.rescue(ns, present, depth, data)
 		}
 	}()
 
-	var (
-		parent = vapour.Current()
-	)
-
 	for _, entry := range vapour.Entries() {
 		path := filepath.Join(parent.Path, entry.Name())
 		info, e := entry.Info()
 
 		// TODO: check sampling; should happen transparently, by plugin
 
+		present = core.New(
+			path,
+			entry,
+			info,
+			parent,
+			e,
+		)
+
 		// TODO: ok for Travel to by-pass mediator?
 		//
 		if progress, err := ns.mediator.impl.Traverse(
 			ctx, ns, servant{
-				node: core.New(
-					path,
-					entry,
-					info,
-					parent,
-					e,
-				),
+				node: present,
 			},
 		); err != nil {
 			switch {
diff --git a/internal/kernel/vex.go b/internal/kernel/vex.go
index 8801c21..4c363de 100644
--- a/internal/kernel/vex.go
+++ b/internal/kernel/vex.go
@@ -4,6 +4,7 @@ type (
 	vexation interface {
 		ancestor() string
 		vapour() inspection
+		depth() int
 		cause() string
 		magnitude() string
 	}
@@ -12,6 +13,7 @@ type (
 		data     interface{}
 		anc      string
 		vap      inspection
+		level    int
 		catalyst string
 		mag      string
 	}
@@ -29,6 +31,10 @@ func (v *vex) vapour() inspection {
 	return v.vap
 }
 
+func (v *vex) depth() int {
+	return v.level
+}
+
 func (v *vex) cause() string {
 	return v.catalyst
 }
-- 
2.43.0


From a157926643c59b0265fe0c8fad2dfacb81b423f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 16/39] fix: fast forward to the saved path, not to the first
 node of the same name

---
 internal/feat/resume/strategy-fastward.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/feat/resume/strategy-fastward.go b/internal/feat/resume/strategy-fastward.go
index 84dfd58..e7b039c 100644
--- a/internal/feat/resume/strategy-fastward.go
+++ b/internal/feat/resume/strategy-fastward.go
@@ -17,8 +17,8 @@ type FastwardFilter struct {
 	source      string
 	description string
 	scope       enums.FilterScope
-	parent      string
 	name        string
+	bare        bool
 }
 
 // Description describes filter
@@ -39,7 +39,7 @@ func (f *FastwardFilter) Source() string {
 
 // IsMatch does this node match the filter
 func (f *FastwardFilter) IsMatch(node *core.Node) bool {
-	return node.Extension.Name == f.name && (node.Parent.Path == f.parent || f.parent == ".")
+	return node.Path == f.source || (f.bare && node.Extension.Name == f.name)
 }
 
 // IsApplicable is this filter applicable to this node's scope
@@ -81,7 +81,12 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 	//
 	calc := s.forest.T.Calc()
 	scope := lo.Ternary(load.State.IsDir, enums.ScopeDirectory, enums.ScopeFile)
-	parent := calc.Dir(load.State.CurrentPath)
+	// the current path is not necessarily a full path, it can be just the name
+	// of the node to resume at.
+	//
+	bare := calc.Dir(load.State.CurrentPath) == "." &&
+		load.State.CurrentPath != load.State.Tree &&
+		calc.Clean(load.State.Tree) != "."
 
 	s.filter, err = filtering.New(
 		&core.FilterDef{
@@ -94,8 +99,8 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 				),
 				scope:  scope,
 				source: load.State.CurrentPath,
-				parent: parent,
 				name:   calc.Base(load.State.CurrentPath),
+				bare:   bare,
 			},
 		},
 	)
-- 
2.43.0


From 74054e30de91335e07fc57bbc654047eddbcdaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 17/39] fix: spawn resumes the siblings that follow in
 navigation order

The following siblings were chosen by name, so with directories visited before files,
entries were repeated or missed; absolute paths never reached the tree.
---
 internal/enclave/enclave-defs.go       |  1 +
 internal/feat/resume/resume-defs.go    |  7 ++-
 internal/feat/resume/strategy-spawn.go | 73 +++++++++++++++++++-------
 internal/kernel/mediator.go            |  6 +++
 4 files changed, 64 insertions(+), 23 deletions(-)

diff --git a/internal/enclave/enclave-defs.go b/internal/enclave/enclave-defs.go
index 89dfa12..42e1852 100644
--- a/internal/enclave/enclave-defs.go
+++ b/internal/enclave/enclave-defs.go
@@ -84,6 +84,7 @@ type (
 		Read(path string) ([]fs.DirEntry, error)
 		Spawn(ctx context.Context, tree string) (*KernelResult, error)
 		Bridge(active *core.ActiveState)
+		Surface()
 		Supervisor() *Supervisor
 	}
 
diff --git a/internal/feat/resume/resume-defs.go b/internal/feat/resume/resume-defs.go
index 3b89259..831024a 100644
--- a/internal/feat/resume/resume-defs.go
+++ b/internal/feat/resume/resume-defs.go
@@ -2,10 +2,10 @@ package resume
 
 import (
 	"context"
+	"io/fs"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/enclave"
-	"github.com/snivilised/agenor/internal/kernel"
 	"github.com/snivilised/agenor/internal/opts"
 	"github.com/snivilised/agenor/pref"
 )
@@ -15,8 +15,7 @@ import (
 // these may be internal modules, eg internal/serial/JSON).
 
 const (
-	badge             = "badge: resume"
-	followingSiblings = true
+	badge = "badge: resume"
 )
 
 type (
@@ -46,6 +45,6 @@ type (
 	}
 
 	shard struct {
-		siblings *kernel.Contents
+		siblings []fs.DirEntry
 	}
 )
diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 8a8a5d4..f44bde4 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -2,7 +2,9 @@ package resume
 
 import (
 	"context"
+	"errors"
 	"io/fs"
+	"slices"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
@@ -35,7 +37,7 @@ func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResul
 
 	result, err = s.crown(ctx, &conclusion{
 		active:    s.active,
-		tree:      s.active.Tree,
+		tree:      s.calc.Clean(s.active.Tree),
 		current:   s.active.CurrentPath,
 		inclusive: true,
 	})
@@ -59,7 +61,7 @@ func (s *spawnStrategy) ifResult() bool {
 func (s *spawnStrategy) crown(ctx context.Context,
 	conc *conclusion,
 ) (*enclave.KernelResult, error) {
-	if conc.current == conc.active.Tree {
+	if s.calc.Clean(conc.current) == conc.tree {
 		if s.complete {
 			return nil, core.ErrDetectedSpawnStackOverflow
 		}
@@ -67,10 +69,17 @@ func (s *spawnStrategy) crown(ctx context.Context,
 		// reach the top, so we're done
 		//
 		s.complete = true
+
+		if conc.inclusive {
+			// stopped at the tree itself, so nothing has been navigated yet
+			//
+			return s.mediator.Spawn(ctx, conc.active.Tree)
+		}
+
 		return s.kc.Result(ctx), nil
 	}
 
-	parent, child := s.calc.Split(conc.current)
+	parent, child := s.calc.Dir(conc.current), s.calc.Base(conc.current)
 	following, err := s.following(parent,
 		child,
 		conc.inclusive,
@@ -79,10 +88,7 @@ func (s *spawnStrategy) crown(ctx context.Context,
 		return s.kc.Result(ctx), err
 	}
 
-	following.siblings.Sort(enums.EntryTypeFile)
-	following.siblings.Sort(enums.EntryTypeDirectory)
-
-	result, err := s.seed(ctx, parent, following.siblings.All())
+	result, err := s.seed(ctx, parent, following.siblings)
 
 	if err != nil {
 		return result, err
@@ -90,6 +96,7 @@ func (s *spawnStrategy) crown(ctx context.Context,
 
 	conc.current = parent
 	conc.inclusive = false
+	s.mediator.Surface()
 
 	return s.crown(ctx, conc)
 }
@@ -102,9 +109,20 @@ func (s *spawnStrategy) seed(ctx context.Context,
 	result := s.kc.Result(ctx)
 
 	for _, entry := range entries {
-		top := s.calc.Join(parent, entry.Name())
+		top := s.calc.Clean(s.calc.Join(parent, entry.Name()))
 		intermediate, err := s.mediator.Spawn(ctx, top)
 
+		if errors.Is(err, fs.SkipDir) {
+			// a directory has skipped its own content, but a file skips the
+			// remaining siblings.
+			//
+			if entry.IsDir() {
+				continue
+			}
+
+			break
+		}
+
 		if err != nil {
 			return intermediate, err
 		}
@@ -122,19 +140,36 @@ func (s *spawnStrategy) following(parent, anchor string,
 		return nil, err
 	}
 
-	groups := lo.GroupBy(entries, func(entry fs.DirEntry) bool {
-		if inclusive {
-			return entry.Name() >= anchor
-		}
-
-		return entry.Name() > anchor
+	contents := kernel.NewContents(
+		&s.o.Behaviours.Sort,
+		s.o.Hooks.Sort,
+		entries,
+	)
+	contents.Sort(enums.EntryTypeAll)
+
+	// the siblings that follow are those that come later in the order in
+	// which they are navigated
+	//
+	all := contents.All()
+	at := slices.IndexFunc(all, func(entry fs.DirEntry) bool {
+		return entry.Name() == anchor
 	})
 
+	if at < 0 {
+		// no longer there, so all we have to go by is its name
+		//
+		return &shard{
+			siblings: lo.Filter(all, func(entry fs.DirEntry, _ int) bool {
+				return entry.Name() > anchor
+			}),
+		}, nil
+	}
+
+	if !inclusive {
+		at++
+	}
+
 	return &shard{
-		siblings: kernel.NewContents(
-			&s.o.Behaviours.Sort,
-			s.o.Hooks.Sort,
-			groups[followingSiblings],
-		),
+		siblings: all[at:],
 	}, nil
 }
diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index dfcd334..a853e8e 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -107,6 +107,12 @@ func (m *mediator) Bridge(active *core.ActiveState) {
 	m.Supervisor().Load(active.Metrics)
 }
 
+// Surface moves up a level from that denoted by the active state of the previous
+// traversal, to that of its parent.
+func (m *mediator) Surface() {
+	m.periscope.Offset(-1)
+}
+
 func (m *mediator) Supervisor() *enclave.Supervisor {
 	return m.resources.Supervisor
 }
-- 
2.43.0


From 02c67da4a6d2bdeb2aa029ff85438c8136340d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 18/39] fix: persist the poly definition of a sample filter

---
 internal/persist/json-options.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/persist/json-options.go b/internal/persist/json-options.go
index c8ed026..b0fdc42 100644
--- a/internal/persist/json-options.go
+++ b/internal/persist/json-options.go
@@ -62,6 +62,7 @@ func ToJSON(o *pref.Options) *json.Options {
 						Pattern:     o.Filter.Sample.Pattern,
 						Scope:       o.Filter.Sample.Scope,
 						Negate:      o.Filter.Sample.Negate,
+						Poly:        NodePolyDefToJSON(o.Filter.Sample.Poly),
 					}
 				},
 				func() *json.SampleFilterDef {
@@ -158,7 +159,7 @@ func FromJSON(jo *json.Options) *pref.Options {
 					Pattern:     jo.Filter.Sample.Pattern,
 					Scope:       jo.Filter.Sample.Scope,
 					Negate:      jo.Filter.Sample.Negate,
-					// TODO:Poly: tbd,
+					Poly:        NodePolyDefFromJSON(jo.Filter.Sample.Poly),
 				}
 			},
 			func() *core.SampleFilterDef {
-- 
2.43.0


From c0a665d8d04950d3c0bb7affe59bcaefe573efe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 19/39] fix: compare a poly filter definition with an absent
 one

---
 internal/persist/comparison.go | 40 ++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/internal/persist/comparison.go b/internal/persist/comparison.go
index d909fd2..a6ba7db 100644
--- a/internal/persist/comparison.go
+++ b/internal/persist/comparison.go
@@ -317,17 +317,29 @@ func equalFilterDef(filterName string,
 		)
 	}
 
-	if def.Poly != nil && jdef.Poly != nil {
-		if err := equalFilterDef("poly", &def.Poly.File, &jdef.Poly.File); err != nil {
-			return err
-		}
+	return equalPolyFilterDef(def.Poly, jdef.Poly)
+}
 
-		if err := equalFilterDef("poly", &def.Poly.Directory, &jdef.Poly.Directory); err != nil {
-			return err
-		}
+func equalPolyFilterDef(poly *core.PolyFilterDef, jpoly *json.PolyFilterDef) error {
+	if poly == nil && jpoly == nil {
+		return nil
 	}
 
-	return nil
+	if poly == nil || jpoly == nil {
+		return fmt.Errorf("poly-filter-def %w",
+			UnequalPtrError[core.PolyFilterDef, json.PolyFilterDef]{
+				Field: "Poly",
+				Value: poly,
+				Other: jpoly,
+			},
+		)
+	}
+
+	if err := equalFilterDef("poly", &poly.File, &jpoly.File); err != nil {
+		return err
+	}
+
+	return equalFilterDef("poly", &poly.Directory, &jpoly.Directory)
 }
 
 func equalChildFilterDef(filterName string,
@@ -477,15 +489,5 @@ func equalSampleFilterDef(filterName string,
 		)
 	}
 
-	if def.Poly != nil && jdef.Poly != nil {
-		if err := equalFilterDef("poly", &def.Poly.File, &jdef.Poly.File); err != nil {
-			return err
-		}
-
-		if err := equalFilterDef("poly", &def.Poly.Directory, &jdef.Poly.Directory); err != nil {
-			return err
-		}
-	}
-
-	return nil
+	return equalPolyFilterDef(def.Poly, jdef.Poly)
 }
-- 
2.43.0


From 0b8d1684fdd906a54549953b69f7582caae1da0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 20/39] fix: reject an incomplete session file

---
 extent.go                     | 2 +-
 internal/persist/marshaler.go | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/extent.go b/extent.go
index 218a6bf..c3c3cc6 100644
--- a/extent.go
+++ b/extent.go
@@ -99,7 +99,7 @@ func (x *resumeExtent) options(addons []Addon,
 
 	x.loaded = loaded
 
-	if handler := x.seek(addons); handler != nil {
+	if handler := x.seek(addons); handler != nil && loaded.State != nil {
 		handler.OnLoad(loaded.State)
 	}
 
diff --git a/internal/persist/marshaler.go b/internal/persist/marshaler.go
index 1366e70..d592df5 100644
--- a/internal/persist/marshaler.go
+++ b/internal/persist/marshaler.go
@@ -2,6 +2,7 @@ package persist
 
 import (
 	ejson "encoding/json"
+	"errors"
 	"io/fs"
 
 	"github.com/snivilised/agenor/core"
@@ -11,6 +12,10 @@ import (
 	nef "github.com/snivilised/nefilim"
 )
 
+// errIncompleteState denotes a document that does not contain both the options
+// and the active state of a previous session.
+var errIncompleteState = errors.New("resume state is incomplete")
+
 type (
 	// TamperFunc provides a way for unit tests to modify the JSON before
 	// it is un-marshaled. The unit tests marshal a default JSON object
@@ -92,6 +97,10 @@ func Unmarshal(request *UnmarshalRequest,
 		return nil, err
 	}
 
+	if mr.JO == nil || mr.Active == nil {
+		return nil, errIncompleteState
+	}
+
 	for _, fn := range tampers {
 		fn(&mr)
 	}
-- 
2.43.0


From 9a44b457388f0c1c06b2e86d7b05fe648449e72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 21/39] fix: validate a resume request before its session is
 loaded, and the forest of a prime

---
 scaffold.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scaffold.go b/scaffold.go
index 59e3242..f864b2d 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -44,6 +44,10 @@ func newPrimaryPlatform(facade pref.Facade,
 	}
 	harvest, err := primary.buildOptions(using, addons, ext, settings...)
 
+	if err == nil && ext.trees == nil {
+		err = core.ErrNilForest
+	}
+
 	return &platform{
 		fac: facade,
 		ext: ext,
@@ -72,6 +76,11 @@ func newResumePlatform(facade pref.Facade,
 		},
 		relic: relic,
 	}
+
+	if err := relic.Validate(); err != nil {
+		return resume.base.pacify(facade, settings...), err
+	}
+
 	harvest, err := ext.options(addons, settings...)
 	if err != nil {
 		return resume.base.pacify(facade, settings...),
-- 
2.43.0


From 0b57e44a9427b9b3ec5eabd7d60a4a8b81a3b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 22/39] fix: reject a filter definition of unknown type

---
 internal/filtering/builders.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 0da4a9f..40cf641 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -38,6 +38,10 @@ func buildNativeNodeFilter(definition *core.FilterDef) (core.TraverseFilter, err
 		return nil, err
 	}
 
+	if filter == nil {
+		return nil, locale.ErrFilterIsNil
+	}
+
 	return filter, filter.Validate()
 }
 
-- 
2.43.0


From 7d97cfa6c68ae1bd164389984d6f96154d982bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 23/39] fix: complete the submitted jobs before the worker pool
 is closed

---
 synchronise.go | 48 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/synchronise.go b/synchronise.go
index 965aeef..adbd219 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -2,6 +2,7 @@ package age
 
 import (
 	"context"
+	"sync"
 
 	"github.com/pkg/errors"
 	"github.com/snivilised/agenor/core"
@@ -47,14 +48,13 @@ type concurrent struct {
 	pool    *core.TraversePool
 	inputCh pants.SourceStreamW[*core.TraverseInput]
 	swapper enclave.Swapper
+	jobs    sync.WaitGroup
 }
 
 func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error) {
 	defer func() {
 		c.close()
-		if c.pool != nil {
-			c.pool.Release(ctx)
-		}
+		c.release(ctx)
 	}()
 
 	if c.err != nil {
@@ -69,14 +69,23 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 				Handler: handler,
 			}
 
-			c.inputCh <- input // TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
+			c.jobs.Add(1)
 
-			return nil
+			// TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
+			select {
+			case c.inputCh <- input:
+				return nil
+			case <-ctx.Done():
+				c.jobs.Done()
+				return ctx.Err()
+			}
 		})
 	}
 
 	c.pool, c.err = pants.NewManifoldFuncPool(
 		ctx, func(input *core.TraverseInput) (*core.TraverseOutput, error) {
+			defer c.jobs.Done()
+
 			err := input.Handler(input.Servant)
 
 			return &core.TraverseOutput{
@@ -118,6 +127,35 @@ func (c *concurrent) close() {
 	}
 }
 
+// release closes the pool, once the jobs submitted to it are complete; the pool
+// discards the jobs it has not started yet when it is closed. The wait group of
+// the client includes this wait.
+func (c *concurrent) release(ctx context.Context) {
+	if c.inputCh == nil {
+		return
+	}
+
+	c.wg.Add(1)
+
+	go func() {
+		defer c.wg.Done()
+
+		complete := make(chan struct{})
+
+		go func() {
+			defer close(complete)
+			c.jobs.Wait()
+		}()
+
+		select {
+		case <-complete:
+		case <-ctx.Done():
+		}
+
+		c.pool.Release(ctx)
+	}()
+}
+
 type sequential struct {
 	trunk
 }
-- 
2.43.0


From 99474fec6f37fc421e9b38f1ef3a09a2be731fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 24/39] fix: let traversals be started by several goroutines at
 once

---
 driver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/driver.go b/driver.go
index faa4ce4..72d7375 100644
--- a/driver.go
+++ b/driver.go
@@ -2,6 +2,7 @@ package age
 
 import (
 	"context"
+	"sync"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/services"
@@ -13,11 +14,18 @@ const (
 	badge = "badge: navigation-driver"
 )
 
+// registration guards access to the broker, which is shared by all navigations,
+// but does not itself synchronise.
+var registration sync.Mutex
+
 type driver struct {
 	s session
 }
 
 func (d *driver) init() {
+	registration.Lock()
+	defer registration.Unlock()
+
 	services.Broker.RegisterHandler(badge, bus.Handler{
 		Handle: func(_ context.Context, m bus.Message) {
 			_ = m.Data
-- 
2.43.0


From 5578591e69b7602bf3e15d3edcbf93fefddf42b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 25/39] fix: leave the client's poly filter definition as it is

---
 internal/filtering/builders.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 40cf641..0b3d273 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -73,8 +73,12 @@ func buildPolyNodeFilter(definition *core.FilterDef,
 		return nil, locale.ErrFilterIsNil
 	}
 
-	// enforce the correct filter scopes
+	// enforce the correct filter scopes; the client's definition is left as it
+	// is, since it could be in use by another traversal
 	//
+	constituents := *polyDef
+	polyDef = &constituents
+
 	polyDef.File.Scope.Set(enums.ScopeFile)
 	polyDef.File.Scope.Clear(enums.ScopeDirectory)
 
-- 
2.43.0


From 1093020255beb4c6927057f9ec0b4f2324d84fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 26/39] fix: give rejected requests a result that can be
 queried

---
 extent.go                          |  6 ++++++
 internal/enclave/kernel-result.go  |  8 ++++++--
 internal/kernel/navigator-hades.go | 10 ++++++----
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/extent.go b/extent.go
index c3c3cc6..8267605 100644
--- a/extent.go
+++ b/extent.go
@@ -111,6 +111,12 @@ func (x *resumeExtent) options(addons []Addon,
 }
 
 func (x *resumeExtent) complete() bool {
+	if x.pin == nil {
+		// the session was rejected, so there is nothing else to come
+		//
+		return true
+	}
+
 	return x.pin.IfResult.IsComplete()
 }
 
diff --git a/internal/enclave/kernel-result.go b/internal/enclave/kernel-result.go
index b6e2a98..8822e97 100644
--- a/internal/enclave/kernel-result.go
+++ b/internal/enclave/kernel-result.go
@@ -22,8 +22,12 @@ func NewResult(session core.Session,
 	}
 }
 
-func NewFailed() *KernelResult {
-	return &KernelResult{}
+// NewFailed is the result of a session that did not get as far as navigating
+func NewFailed(session core.Session) *KernelResult {
+	return &KernelResult{
+		session:  session,
+		reporter: NewSupervisor(),
+	}
 }
 
 func (r *KernelResult) Merge(other core.Metrics) {
diff --git a/internal/kernel/navigator-hades.go b/internal/kernel/navigator-hades.go
index 1687da7..f91c6d0 100644
--- a/internal/kernel/navigator-hades.go
+++ b/internal/kernel/navigator-hades.go
@@ -16,14 +16,16 @@ func HadesNav(o *pref.Options, err error) enclave.KernelController {
 }
 
 type navigatorHades struct {
-	o   *pref.Options
-	err error
+	o       *pref.Options
+	session core.Session
+	err     error
 }
 
 func (n *navigatorHades) Rank() {
 }
 
-func (n *navigatorHades) Ignite(*enclave.Ignition) {
+func (n *navigatorHades) Ignite(ignition *enclave.Ignition) {
+	n.session = ignition.Session
 }
 
 func (n *navigatorHades) Navigate(ctx context.Context) (*enclave.KernelResult, error) {
@@ -31,7 +33,7 @@ func (n *navigatorHades) Navigate(ctx context.Context) (*enclave.KernelResult, e
 }
 
 func (n *navigatorHades) Result(_ context.Context) *enclave.KernelResult {
-	return enclave.NewFailed()
+	return enclave.NewFailed(n.session)
 }
 
 func (n *navigatorHades) Snooze(context.Context,
-- 
2.43.0


From 2dc3fc43ec278bdc474dbbf93e456b30ea5e4bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 27/39] fix: keep the listeners of options that are reused

---
 life/events.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/life/events.go b/life/events.go
index 13364cb..6faff32 100644
--- a/life/events.go
+++ b/life/events.go
@@ -1,6 +1,8 @@
 package life
 
 import (
+	"slices"
+
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/tapable"
 )
@@ -82,14 +84,25 @@ func (c *Controls) UnmuteAll() {
 }
 
 // Bind attaches the underlying notification controllers to the
-// Events.
+// Events. The listeners already subscribed via the Events, which is the case
+// when the options of another traversal are being reused, are retained.
 func (e *Events) Bind(cs *Controls) {
-	e.Ascend = &cs.Ascend
-	e.Begin = &cs.Begin
-	e.Descend = &cs.Descend
-	e.End = &cs.End
-	e.Wake = &cs.Wake
-	e.Sleep = &cs.Sleep
+	e.Ascend = rebind(e.Ascend, &cs.Ascend)
+	e.Begin = rebind(e.Begin, &cs.Begin)
+	e.Descend = rebind(e.Descend, &cs.Descend)
+	e.End = rebind(e.End, &cs.End)
+	e.Wake = rebind(e.Wake, &cs.Wake)
+	e.Sleep = rebind(e.Sleep, &cs.Sleep)
+}
+
+func rebind[F any](event Event[F], c *NotificationCtrl[F]) Event[F] {
+	if prior, ok := event.(*NotificationCtrl[F]); ok && prior != c {
+		c.subscribed = prior.subscribed
+		c.listeners = slices.Clone(prior.listeners)
+		c.dispatcher = prior.dispatcher
+	}
+
+	return c
 }
 
 // On subscribes to a life cycle event
-- 
2.43.0


From c432185d8589902bb900c40f9077253258d0b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 28/39] fix: leave the client's extended glob definition as it
 is

---
 internal/filtering/glob-ex.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index 91e15c9..06aa51e 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -28,17 +28,15 @@ func createGlobExFilter(def *core.FilterDef,
 		return nil, err
 	}
 
-	// we ignore the scope on the filter because use of this type
-	// of filter implies the correct scope, ie file scope.
-	def.Scope = enums.ScopeFile
-
 	directoryBase, directoryExclusion := splitGlob(segments[0])
 
 	gs, err = newSpec(directoryBase, directoryExclusion, patterns)
 	filter = &GlobEx{
 		Base: Base{
-			name:            def.Description,
-			scope:           def.Scope,
+			name: def.Description,
+			// we ignore the scope on the filter because use of this type
+			// of filter implies the correct scope, ie file scope.
+			scope:           enums.ScopeFile,
 			pattern:         def.Pattern,
 			negate:          def.Negate,
 			ifNotApplicable: ifNotApplicable,
-- 
2.43.0


From f4e924778b40d9b0724428f634315f7db0a35fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 29/39] fix: let the invalid poly filter error say so

---
 locale/messages-errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/locale/messages-errors.go b/locale/messages-errors.go
index ca79c3e..ceee2be 100644
--- a/locale/messages-errors.go
+++ b/locale/messages-errors.go
@@ -447,7 +447,7 @@ type PolyFilterIsInvalidError struct {
 
 var ErrPolyFilterIsInvalid = PolyFilterIsInvalidError{
 	LocalisableError: li18ngo.LocalisableError{
-		Data: FilterIsNilErrorTemplData{},
+		Data: PolyFilterIsInvalidTemplData{},
 	},
 }
 
-- 
2.43.0


From 0560799aa6a89b94b8a341aa1caf02d504164096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 30/39] fix: say where an interrupted traversal was saved

---
 locale/messages-errors.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/locale/messages-errors.go b/locale/messages-errors.go
index ceee2be..9062ec2 100644
--- a/locale/messages-errors.go
+++ b/locale/messages-errors.go
@@ -722,13 +722,14 @@ var ErrCoreResumeFsMismatch = CoreResumeFsMismatchError{
 // 🍒 TraversalSaved (dynamic i18n error)
 type TraversalSavedTemplData struct {
 	agenorTemplData
+	Destination string
 }
 
 func (td TraversalSavedTemplData) Message() *i18n.Message {
 	return &i18n.Message{
 		ID:          "traversal-saved.age.dynamic-error",
 		Description: "traversal saved due to panic (dynamic error)",
-		Other:       "traversal saved: {{.Field}}",
+		Other:       "traversal saved: {{.Destination}}",
 	}
 }
 
@@ -749,7 +750,9 @@ func (e TraversalSavedError) Unwrap() error {
 func NewTraversalSavedError(destination string, _ error) error {
 	return &TraversalSavedError{
 		LocalisableError: li18ngo.LocalisableError{
-			Data: TraversalSavedTemplData{},
+			Data: TraversalSavedTemplData{
+				Destination: destination,
+			},
 		},
 		Wrapped:     ErrCorePanicOccurred,
 		Destination: destination,
@@ -765,7 +768,7 @@ func (td TraversalNotSavedTemplData) Message() *i18n.Message {
 	return &i18n.Message{
 		ID:          "traversal-not-saved.age.dynamic-error",
 		Description: "panic induced traversal not saved (dynamic error)",
-		Other:       "field: {{.Reason}}",
+		Other:       "traversal not saved",
 	}
 }
 
-- 
2.43.0


From 493655f918c0e12259d8874149843e201be99e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:15 +0000
Subject: [PATCH 31/39] fix: hand the sample filter to the client's filter sink

The sink was given the filters derived from node and child definitions, but not the one derived from a sample definition, although
the reply has a place for it.
---
 internal/feat/filter/scheme-sampler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/feat/filter/scheme-sampler.go b/internal/feat/filter/scheme-sampler.go
index 37570f1..1e00bf2 100644
--- a/internal/feat/filter/scheme-sampler.go
+++ b/internal/feat/filter/scheme-sampler.go
@@ -8,6 +8,7 @@ import (
 	"github.com/snivilised/agenor/internal/enclave"
 	"github.com/snivilised/agenor/internal/filtering"
 	"github.com/snivilised/agenor/internal/third/lo"
+	"github.com/snivilised/agenor/pref"
 	nef "github.com/snivilised/nefilim"
 )
 
@@ -25,6 +26,12 @@ func (s *samplerScheme) create() error {
 
 	s.filter = filter
 
+	if s.o.Filter.Sink != nil {
+		s.o.Filter.Sink(pref.FilterReply{
+			Sampler: s.filter,
+		})
+	}
+
 	// the filter plugin performs premature filtering (with fs.DirEntry as opposed
 	// to core.Node) on behalf of the sampler.
 	s.o.Hooks.ReadDirectory.Chain(
-- 
2.43.0


From 95f7f8de38c8c6169db0ed3a0487fb435ff57626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 32/39] fix: save paths that are not valid UTF-8 as they are
 (C18, C19)

---
 internal/persist/marshaler.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/internal/persist/marshaler.go b/internal/persist/marshaler.go
index d592df5..3891a65 100644
--- a/internal/persist/marshaler.go
+++ b/internal/persist/marshaler.go
@@ -4,6 +4,8 @@ import (
 	ejson "encoding/json"
 	"errors"
 	"io/fs"
+	"strconv"
+	"unicode/utf8"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/enclave"
@@ -36,6 +38,17 @@ type (
 	MarshalResult struct {
 		Active *core.ActiveState
 		JO     *json.Options
+		// Raw is only present when there is a path that can't be represented
+		// as JSON text.
+		Raw *RawPaths `json:",omitempty"`
+	}
+
+	// RawPaths are the paths of the active state, quoted, so that those which
+	// contain names that are not valid UTF-8 are restored as they were, as
+	// opposed to with their invalid bytes replaced.
+	RawPaths struct {
+		Tree        string
+		CurrentPath string
 	}
 
 	UnmarshalRequest struct {
@@ -61,6 +74,14 @@ func Marshal(request *MarshalRequest) (*MarshalResult, error) {
 		Active: request.Active.Clone(),
 	}
 
+	if !utf8.ValidString(result.Active.Tree) ||
+		!utf8.ValidString(result.Active.CurrentPath) {
+		result.Raw = &RawPaths{
+			Tree:        strconv.QuoteToASCII(result.Active.Tree),
+			CurrentPath: strconv.QuoteToASCII(result.Active.CurrentPath),
+		}
+	}
+
 	data, err := ejson.MarshalIndent(
 		result,
 		JSONMarshalNoPrefix, JSONMarshal2SpacesIndent,
@@ -101,6 +122,16 @@ func Unmarshal(request *UnmarshalRequest,
 		return nil, errIncompleteState
 	}
 
+	if mr.Raw != nil {
+		if mr.Active.Tree, err = strconv.Unquote(mr.Raw.Tree); err != nil {
+			return nil, err
+		}
+
+		if mr.Active.CurrentPath, err = strconv.Unquote(mr.Raw.CurrentPath); err != nil {
+			return nil, err
+		}
+	}
+
 	for _, fn := range tampers {
 		fn(&mr)
 	}
-- 
2.43.0


From 7c743085fba3379e314b0f6c2a3944e1dcc31157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:51 +0000
Subject: [PATCH 33/39] fix: order names that only differ in case (C02)

---
 pref/defaults.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pref/defaults.go b/pref/defaults.go
index 977fabe..a94ec88 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -41,10 +41,19 @@ func CaseSensitiveSortHook(entries []fs.DirEntry, _ ...any) {
 }
 
 // DefaultCaseInSensitiveSortHook hook function for case insensitive directory traversal. A
-// directory of "a" will be visited before a sibling directory "B".
+// directory of "a" will be visited before a sibling directory "B". Names that only
+// differ in case are ordered by their bytes, so that the order does not depend on
+// how the file system happens to list them.
 func DefaultCaseInSensitiveSortHook(entries []fs.DirEntry, _ ...any) {
 	sort.Slice(entries, func(i, j int) bool {
-		return strings.ToLower(entries[i].Name()) < strings.ToLower(entries[j].Name())
+		first, second := entries[i].Name(), entries[j].Name()
+		a, b := strings.ToLower(first), strings.ToLower(second)
+
+		if a != b {
+			return a < b
+		}
+
+		return first < second
 	})
 }
 
-- 
2.43.0


From 65ef74da676e26aae1fe1860939272b7cbab2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:54 +0000
Subject: [PATCH 34/39] fix: sub path below a tree whose path is not clean
 (C13)

The sub path of a node is what remains of its parent path after the tree,
which was cut off by its length only. The paths of entries are clean, so where
that of the tree is not ('.', './root', 'top//root'), too much was cut off:
for the tree '.', the sub path of 'docs/a' was 'cs'.
---
 pref/defaults.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pref/defaults.go b/pref/defaults.go
index a94ec88..402a7d1 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -80,12 +80,27 @@ func tail(input string, offset int) string {
 	return input[offset:]
 }
 
-// difference returns the difference between a child path and a parent path
+// difference returns the difference between a child path and a parent path.
+// The child path is always clean, the parent path may not be, in which case
+// the child path does not necessarily start with it.
+//
 // Designed to be used with paths created from the file system rather than
 // custom created or user provided input. For this reason, if there is no
 // relationship between the parent and child paths provided then a panic
 // may occur.
 func difference(parent, child string) string {
+	if child == parent {
+		return ""
+	}
+
+	if filepath.Clean(parent) == "." {
+		return child
+	}
+
+	if !strings.HasPrefix(child, parent) {
+		parent = filepath.Clean(parent)
+	}
+
 	return tail(child, len(parent))
 }
 
@@ -100,6 +115,12 @@ func DefaultSubPathHook(info *core.SubPathInfo) string {
 		return lo.Ternary(info.KeepTrailingSep, string(filepath.Separator), "")
 	}
 
+	if info.Node.Parent == nil {
+		// there is nothing between the tree and itself
+		//
+		return ""
+	}
+
 	return difference(info.Tree, info.Node.Extension.Parent)
 }
 
-- 
2.43.0


From 6e1731f5abfad46f858f871c5bcc5778f683fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:13 +0000
Subject: [PATCH 35/39] fix: fast forward sees every node before filters do

The links of a fast forward session were run in the order in which they
were activated, which put fast forward last: a filter that rejects the node
at which the earlier session stopped kept it from continuing, so nothing at
all was visited, and the files of directories that are passed over were
counted. Links are now run in the order that manifest defines.
---
 manifest.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index d96dd8a..0363a44 100644
--- a/manifest.go
+++ b/manifest.go
@@ -14,8 +14,12 @@ type (
 
 var (
 	manifestOrder = []enums.Role{
-		enums.RoleFastward,
+		// hibernation follows the whole of the traversal, including the part
+		// that fast forward passes over.
 		enums.RoleHibernate,
+		// fast forward needs to see every node before others get to reject
+		// or count it.
+		enums.RoleFastward,
 		enums.RoleNanny,
 		enums.RoleClientFilter,
 		enums.RoleSampler,
@@ -63,5 +67,9 @@ func manifest(active []enums.Role) []enums.Role {
 		initial,
 	)
 
+	slices.SortStableFunc(roles, func(a, b enums.Role) int {
+		return slices.Index(all, a) - slices.Index(all, b)
+	})
+
 	return roles
 }
-- 
2.43.0


From 5d1ac3f6b308084b43e271b1f0ff9e256e32d150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:54 +0000
Subject: [PATCH 36/39] fix: spawn leaves files alone when only directories are
 subscribed to

The siblings that follow the entry at which the earlier session stopped were
all navigated, so listeners were told about descending into files and the
status of files was queried, in sessions that do not navigate files.
---
 internal/feat/resume/strategy-spawn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index f44bde4..17e91cc 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -151,6 +151,14 @@ func (s *spawnStrategy) following(parent, anchor string,
 	// which they are navigated
 	//
 	all := contents.All()
+
+	// files are not navigated, when only directories are subscribed to
+	//
+	if s.active.Subscription == enums.SubscribeDirectories ||
+		s.active.Subscription == enums.SubscribeDirectoriesWithFiles {
+		all = contents.Directories()
+	}
+
 	at := slices.IndexFunc(all, func(entry fs.DirEntry) bool {
 		return entry.Name() == anchor
 	})
-- 
2.43.0


From 2025626231376633526e7dc729453f8c58b23e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:25 +0000
Subject: [PATCH 37/39] fix: sub paths of a spawn resume are below the tree

A spawn resume navigates what is left of the tree piece by piece, and the
sub path of every node was taken from the piece instead of from the tree
that was requested.
---
 internal/kernel/extend.go | 2 +-
 pref/defaults.go          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/kernel/extend.go b/internal/kernel/extend.go
index 9de85a9..4fd1113 100644
--- a/internal/kernel/extend.go
+++ b/internal/kernel/extend.go
@@ -38,7 +38,7 @@ func extend(ns *navigationStatic, vapour inspection) {
 	keepTrailingSep := ns.mediator.o.Behaviours.SubPath.KeepTrailingSep
 
 	spInfo := &core.SubPathInfo{
-		Tree:            ns.tree,
+		Tree:            ns.mediator.tree,
 		Node:            current,
 		KeepTrailingSep: keepTrailingSep,
 	}
diff --git a/pref/defaults.go b/pref/defaults.go
index 402a7d1..6beebf9 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -115,7 +115,7 @@ func DefaultSubPathHook(info *core.SubPathInfo) string {
 		return lo.Ternary(info.KeepTrailingSep, string(filepath.Separator), "")
 	}
 
-	if info.Node.Parent == nil {
+	if info.Node.Path == info.Tree {
 		// there is nothing between the tree and itself
 		//
 		return ""
-- 
2.43.0


From 3a8a75eccedb43dee7ccacdfef3aa087ea92edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:27 +0000
Subject: [PATCH 38/39] fix: sampled directories have their files, which are
 the ones counted

With a sample filter, directories-with-files handed out no files, as
neither the nanny nor its scheme was active, and the files of the tree
were counted as child files, whatever the subscription. A tree rejected
by the sample filter is counted as filtered out.
---
 internal/feat/filter/scheme-custom.go  |  9 ++++++---
 internal/feat/filter/scheme-sampler.go | 14 +++-----------
 internal/feat/filter/schemes.go        |  7 +++----
 3 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/internal/feat/filter/scheme-custom.go b/internal/feat/filter/scheme-custom.go
index cdc5035..88b9d36 100644
--- a/internal/feat/filter/scheme-custom.go
+++ b/internal/feat/filter/scheme-custom.go
@@ -27,9 +27,12 @@ func (s *customScheme) next(servant core.Servant,
 func matchNext(filter core.TraverseFilter,
 	node *core.Node, crate *enclave.Crate,
 ) (bool, error) {
-	matched := filter.IsMatch(node)
+	return matched(filter.IsMatch(node), node, crate), nil
+}
 
-	if !matched {
+// matched counts the node if it does not match
+func matched(match bool, node *core.Node, crate *enclave.Crate) bool {
+	if !match {
 		filteredOutMetric := lo.Ternary(node.IsDirectory(),
 			enums.MetricNoDirectoriesFilteredOut,
 			enums.MetricNoFilesFilteredOut,
@@ -37,5 +40,5 @@ func matchNext(filter core.TraverseFilter,
 		crate.Metrics[filteredOutMetric].Tick()
 	}
 
-	return matched, nil
+	return match
 }
diff --git a/internal/feat/filter/scheme-sampler.go b/internal/feat/filter/scheme-sampler.go
index 1e00bf2..e8fcc50 100644
--- a/internal/feat/filter/scheme-sampler.go
+++ b/internal/feat/filter/scheme-sampler.go
@@ -4,10 +4,8 @@ import (
 	"io/fs"
 
 	"github.com/snivilised/agenor/core"
-	"github.com/snivilised/agenor/enums"
 	"github.com/snivilised/agenor/internal/enclave"
 	"github.com/snivilised/agenor/internal/filtering"
-	"github.com/snivilised/agenor/internal/third/lo"
 	"github.com/snivilised/agenor/pref"
 	nef "github.com/snivilised/nefilim"
 )
@@ -46,22 +44,16 @@ func (s *samplerScheme) create() error {
 }
 
 func (s *samplerScheme) next(servant core.Servant,
-	inspection enclave.Inspection,
+	_ enclave.Inspection,
 ) (bool, error) {
 	node := servant.Node()
-
 	if node.Extension.Scope.IsTree() {
+		// the children are the business of the nanny
 		matching := s.filter.Matching(
 			[]fs.DirEntry{nef.FromFileInfo(node.Info)},
 		)
-		result := len(matching) > 0
-
-		lo.Ternary(result,
-			s.crate.Metrics[enums.MetricNoChildFilesFound],
-			s.crate.Metrics[enums.MetricNoChildFilesFilteredOut],
-		).Times(uint(len(inspection.Contents().Files())))
 
-		return result, nil
+		return matched(len(matching) > 0, node, s.crate), nil
 	}
 
 	return true, nil
diff --git a/internal/feat/filter/schemes.go b/internal/feat/filter/schemes.go
index 1d3171f..d6b3d84 100644
--- a/internal/feat/filter/schemes.go
+++ b/internal/feat/filter/schemes.go
@@ -50,11 +50,10 @@ func binary(o *pref.Options, sub enums.Subscription) (primary, nanny scheme) {
 	primary = unary(c)
 
 	// the nanny plugin is dormant when filtering is active, so even without a
-	// child filter, the directories that pass a node filter still need their
-	// children
+	// child filter, the directories that pass a node filter, or are sampled,
+	// still need their children
 	//
-	wantsChildren := sub == enums.SubscribeDirectoriesWithFiles &&
-		(o.Filter.IsCustomFilteringActive() || o.Filter.IsNodeFilteringActive())
+	wantsChildren := sub == enums.SubscribeDirectoriesWithFiles
 
 	nanny = lo.TernaryF(o.Filter.IsChildFilteringActive() || wantsChildren,
 		func() scheme {
-- 
2.43.0


From ff06e9fb8b4f37e84ebb40631ca1c60f49b71b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:11 +0000
Subject: [PATCH 39/39] fix: a sample filter applies alongside a node filter

It was ignored when a node filter was there as well.
---
 internal/feat/filter/scheme-sampler.go | 30 +++++++++++++++++++++++---
 internal/feat/filter/schemes.go        | 21 ++++++++++++------
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/internal/feat/filter/scheme-sampler.go b/internal/feat/filter/scheme-sampler.go
index e8fcc50..f3d7e5d 100644
--- a/internal/feat/filter/scheme-sampler.go
+++ b/internal/feat/filter/scheme-sampler.go
@@ -10,12 +10,30 @@ import (
 	nef "github.com/snivilised/nefilim"
 )
 
+// samplerScheme removes what does not match from the contents of a directory.
+// What is left is subject to the primary scheme, which performs node based
+// filtering, if that is active too.
 type samplerScheme struct {
 	common
-	filter core.SampleTraverseFilter
+	filter  core.SampleTraverseFilter
+	primary scheme
+}
+
+func (s *samplerScheme) init(pi *enclave.PluginInit, crate *enclave.Crate) {
+	s.common.init(pi, crate)
+
+	if s.primary != nil {
+		s.primary.init(pi, crate)
+	}
 }
 
 func (s *samplerScheme) create() error {
+	if s.primary != nil {
+		if err := s.primary.create(); err != nil {
+			return err
+		}
+	}
+
 	filter, err := filtering.NewSample(s.o.Filter.Sample, &s.o.Sampling)
 
 	if err != nil {
@@ -44,7 +62,7 @@ func (s *samplerScheme) create() error {
 }
 
 func (s *samplerScheme) next(servant core.Servant,
-	_ enclave.Inspection,
+	inspection enclave.Inspection,
 ) (bool, error) {
 	node := servant.Node()
 	if node.Extension.Scope.IsTree() {
@@ -53,7 +71,13 @@ func (s *samplerScheme) next(servant core.Servant,
 			[]fs.DirEntry{nef.FromFileInfo(node.Info)},
 		)
 
-		return matched(len(matching) > 0, node, s.crate), nil
+		if !matched(len(matching) > 0, node, s.crate) {
+			return false, nil
+		}
+	}
+
+	if s.primary != nil {
+		return s.primary.next(servant, inspection)
 	}
 
 	return true, nil
diff --git a/internal/feat/filter/schemes.go b/internal/feat/filter/schemes.go
index d6b3d84..c91f9d7 100644
--- a/internal/feat/filter/schemes.go
+++ b/internal/feat/filter/schemes.go
@@ -74,6 +74,19 @@ func binary(o *pref.Options, sub enums.Subscription) (primary, nanny scheme) {
 }
 
 func unary(c common) scheme {
+	primary := node(c)
+
+	if !c.o.Filter.IsSampleFilteringActive() {
+		return primary // nil, if only nanny is active
+	}
+
+	return &samplerScheme{
+		common:  c,
+		primary: primary,
+	}
+}
+
+func node(c common) scheme {
 	if c.o.Filter.IsCustomFilteringActive() {
 		return &customScheme{
 			common: c,
@@ -86,11 +99,5 @@ func unary(c common) scheme {
 		}
 	}
 
-	if c.o.Filter.IsSampleFilteringActive() {
-		return &samplerScheme{
-			common: c,
-		}
-	}
-
-	return nil // only nanny is active
+	return nil
 }
-- 
2.43.0

