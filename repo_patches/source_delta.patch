From e9ec2d35f92a86bcc30ff14e24284bd00ceb6b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:41 +0000
Subject: [PATCH 01/77] fix: report missing values for every positional
 argument, not only the current one

---
 set.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/set.go b/set.go
index daf8bb5..2789c62 100644
--- a/set.go
+++ b/set.go
@@ -165,7 +165,7 @@ func RawParse(arguments []string, b Binding, flags RawParseFlag) (bindings Bindi
 	positionalOpts := newArgBinding(b)
 
 	if args.empty() {
-		err = positionalOpts.Done()
+		err = positionalOpts.DoneAll()
 		return
 	}
 
@@ -373,7 +373,7 @@ Parsing:
 		}
 	}
 
-	err = positionalOpts.Done()
+	err = positionalOpts.DoneAll()
 	return
 }
 
@@ -641,6 +641,17 @@ func (a *argBinding) Done() error {
 	return nil
 }
 
+// DoneAll signals the end of arguments to the current arg counter and to each of the
+// ones after it, none of which can take any more arguments
+func (a *argBinding) DoneAll() error {
+	for i := a.index; i < len(a.takers); i++ {
+		if err := a.takers[i].Done(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (a *argBinding) SetArg(arg string, remainder []string, possibleFlag bool) error {
 	for {
 		t := a.current()
-- 
2.43.0


From 0ebfc9a196eb1b01540a2d045dffe4546da76b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:46 +0000
Subject: [PATCH 02/77] fix: don't bind tokens that look like flags to
 positional arguments with a fixed count

---
 arg.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/arg.go b/arg.go
index 6e2bf70..1bd63d0 100644
--- a/arg.go
+++ b/arg.go
@@ -528,10 +528,13 @@ func (o *optionContext) lookupValue(name string) (any, bool) {
 	return nil, false
 }
 
-func (d *discreteCounter) Take(_ string, _ bool) error {
+func (d *discreteCounter) Take(arg string, possibleFlag bool) error {
 	if d.count == 0 {
 		return EndOfArguments
 	}
+	if allowFlag(arg, possibleFlag) {
+		return argCannotUseFlag
+	}
 	d.count--
 	return nil
 }
@@ -547,10 +550,13 @@ func (d *discreteCounter) Usage() (optional, multi bool) {
 	return false, d.count > 1
 }
 
-func (d *defaultCounter) Take(_ string, _ bool) error {
+func (d *defaultCounter) Take(arg string, possibleFlag bool) error {
 	if d.seen {
 		return EndOfArguments
 	}
+	if !d.requireSeen && allowFlag(arg, possibleFlag) {
+		return argCannotUseFlag
+	}
 	d.seen = true
 	return nil
 }
-- 
2.43.0


From 83f475bbafaf519d5ad48e474848ce720f2dd8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:12 +0000
Subject: [PATCH 03/77] fix: let an argument that takes everything remaining
 take -- so it reaches sub-commands

---
 set.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 2789c62..4fc4250 100644
--- a/set.go
+++ b/set.go
@@ -222,7 +222,7 @@ Parsing:
 		// end of options?
 		if arg == "" || arg == "-" || arg[0] != '-' || state == argsOnly {
 			for {
-				if arg == "--" {
+				if arg == "--" && !positionalOpts.takesRemaining() {
 					state = argsOnly
 					if err = positionalOpts.Done(); err != nil {
 						return
@@ -652,6 +652,13 @@ func (a *argBinding) DoneAll() error {
 	return nil
 }
 
+// takesRemaining determines whether the current arg counter takes all of the
+// remaining arguments, whatever they look like
+func (a *argBinding) takesRemaining() bool {
+	v, ok := a.current().(*varArgsCounter)
+	return ok && !v.stopOnFlags
+}
+
 func (a *argBinding) SetArg(arg string, remainder []string, possibleFlag bool) error {
 	for {
 		t := a.current()
-- 
2.43.0


From 59b0446f3f383653d2f3bf8acadd810f4742e6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 04/77] fix: right-to-left binding counts positional values
 rather than all tokens

---
 set.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/set.go b/set.go
index 4fc4250..258d7d7 100644
--- a/set.go
+++ b/set.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"slices"
 	"strings"
 )
 
@@ -112,6 +113,35 @@ func NewBinding(flags []*Flag, args []*Arg, parent interface{ Flags() []*Flag })
 	return b
 }
 
+// positionalCountBinding replaces the positional arguments in the binding
+// with ones that take every positional value.  There are enough of them for each
+// -- in the arguments to move on to the next.
+type positionalCountBinding struct {
+	Binding
+	names []string
+}
+
+const positionalCountName = "<>"
+
+func (p positionalCountBinding) PositionalArgNames() []string {
+	return p.names
+}
+
+func (p positionalCountBinding) LookupOption(name string) (TransformFunc, ArgCounter, BindingState, bool) {
+	if name == positionalCountName {
+		return nil, ArgCount(TakeExceptForFlags), nil, true
+	}
+	return p.Binding.LookupOption(name)
+}
+
+// countPositional counts the positional values in the arguments, which excludes
+// the program name, flags, and the values of flags
+func countPositional(arguments []string, b Binding, flags RawParseFlag) int {
+	names := slices.Repeat([]string{positionalCountName}, len(arguments)+1)
+	m, _ := RawParse(arguments, positionalCountBinding{b, names}, flags&^RawRTL)
+	return len(m[positionalCountName])
+}
+
 func newArgBinding(bind Binding) *argBinding {
 	args := bind.PositionalArgNames()
 	takers := make([]ArgCounter, len(args))
@@ -174,8 +204,8 @@ func RawParse(arguments []string, b Binding, flags RawParseFlag) (bindings Bindi
 
 	// When in RTL mode, identify the first argument to actually fill by
 	// counting the number of arguments required by arguments right-to-left.
-	count := len(arguments)
 	if flags.rightToLeft() {
+		count := countPositional(arguments, b, flags)
 		skip := len(pos)
 
 		for i := len(pos) - 1; i >= 0 && i < len(pos); i-- {
@@ -191,7 +221,7 @@ func RawParse(arguments []string, b Binding, flags RawParseFlag) (bindings Bindi
 				count--
 			}
 			skip--
-			if skip == 0 || count <= 1 {
+			if skip == 0 || count <= 0 {
 				break
 			}
 		}
-- 
2.43.0


From 8983850737fce12f5cdf8ddbc77ccb29ef48d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 05/77] fix: report a solitary dash that no argument takes
 instead of panicking

---
 set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 258d7d7..5ac1fea 100644
--- a/set.go
+++ b/set.go
@@ -265,7 +265,7 @@ Parsing:
 				if err != nil {
 					// Not accepted as an argument, possibly a flag per usual out of
 					// order
-					if len(arg) > 0 && arg[0] == '-' && state == flagsOrArgs {
+					if allowFlag(arg, state == flagsOrArgs) {
 						break
 					}
 					if isHardArgCountErr(err) {
-- 
2.43.0


From 01bc7af246022637041fb843247a6cc6a370925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:24 +0000
Subject: [PATCH 06/77] fix: process flags in the command that defines them
 when sub-commands also run

After a sub-command ran, persistent flags of the parent were skipped when
running their After actions.  Actions of inherited flags ran again in each
sub-command even when they weren't used there.
---
 context.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/context.go b/context.go
index ac1809e..b61c011 100644
--- a/context.go
+++ b/context.go
@@ -1563,13 +1563,9 @@ func (c *Context) setTiming(t Timing) *Context {
 
 func triggerOptionsHO(t Timing, on func(*Context) error) ActionFunc {
 	return func(ctx *Context) error {
-		for _, f := range ctx.Flags() {
-			if f.internalFlags().persistent() {
-				// This is a persistent flag that was cloned into the flag set of the current
-				// command; don't process it again
-				continue
-			}
-
+		// Persistent flags that were defined by ancestor commands are processed by
+		// the command that defines them
+		for _, f := range ctx.LocalFlags() {
 			err := on(ctx.newChild(f).setTiming(t))
 			if err != nil {
 				return err
@@ -2132,8 +2128,19 @@ func executeUserPipeline(at Timing) actionFunc {
 
 func triggerOptions(ctx *Context) error {
 	// Invoke the Before action on all flags and args, but only the actual
-	// Action when the flag or arg was set
-	for _, f := range ctx.Flags() {
+	// Action when the flag or arg was set.  Persistent flags that were defined by
+	// ancestor commands only count when they were used with this command
+	for _, f := range ctx.PersistentFlags() {
+		if !usedInBinding(ctx, f) {
+			continue
+		}
+		err := triggerOption(ctx, f)
+		if err != nil {
+			return err
+		}
+	}
+
+	for _, f := range ctx.LocalFlags() {
 		err := triggerOption(ctx, f)
 		if err != nil {
 			return err
@@ -2149,6 +2156,15 @@ func triggerOptions(ctx *Context) error {
 	return nil
 }
 
+func usedInBinding(ctx *Context, f *Flag) bool {
+	set := ctx.internal.(*commandContext).set
+	if _, ok := set.BindingMap[f.Name]; !ok || set.Binding == nil {
+		return false
+	}
+	_, _, state, ok := set.LookupOption(f.Name)
+	return ok && state == f
+}
+
 func triggerOption(ctx *Context, f option) error {
 	if f.Seen() || hasSeenImplied(f, ctx.target) {
 		return ctx.newChild(f).executeSelf()
-- 
2.43.0


From acf4bc65fcc62f6570e52a520728e7940a0eb708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 07/77] fix: let a command's own flags take precedence over
 inherited flags of the same name

---
 set.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/set.go b/set.go
index 5ac1fea..3e4931e 100644
--- a/set.go
+++ b/set.go
@@ -93,10 +93,6 @@ func NewBinding(flags []*Flag, args []*Arg, parent interface{ Flags() []*Flag })
 
 		positionalOptions: []string{},
 	}
-	for _, f := range flags {
-		b.defineFlag(f)
-	}
-
 	if parent != nil {
 		for _, f := range parent.Flags() {
 			if f.internalFlags().nonPersistent() {
@@ -107,6 +103,11 @@ func NewBinding(flags []*Flag, args []*Arg, parent interface{ Flags() []*Flag })
 		}
 	}
 
+	// Defined after the flags that are inherited so that these take precedence
+	for _, f := range flags {
+		b.defineFlag(f)
+	}
+
 	for _, a := range args {
 		b.defineArg(a)
 	}
-- 
2.43.0


From 067913d3689211d1c2521f7566d4c50236669f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:32 +0000
Subject: [PATCH 08/77] fix: let middleware deferred to a command's Action wrap
 that action

A command with the Exits option exited without running its own Action, and
middleware added with At(ActionTiming) in Uses had no effect on it.
---
 action.go  | 5 ++---
 context.go | 4 +++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/action.go b/action.go
index dfb42d6..75f1cd6 100644
--- a/action.go
+++ b/action.go
@@ -320,9 +320,8 @@ var (
 			ActionFunc(triggerValueTargets),
 			IfMatch(subcommandDidNotExecute,
 				actions(
-					executeDeferredPipeline(ActionTiming),
 					actionFunc(triggerRobustParsingAndCompletion),
-					executeUserPipeline(ActionTiming),
+					actionFunc(executeActionPipeline),
 				),
 			),
 		),
@@ -371,7 +370,7 @@ var (
 			),
 		},
 		Action: actions(
-			actionFunc(executeOptionPipeline),
+			actionFunc(executeActionPipeline),
 			ActionFunc(triggerValueTargets),
 		),
 		After: actions(
diff --git a/context.go b/context.go
index b61c011..27e4314 100644
--- a/context.go
+++ b/context.go
@@ -2220,7 +2220,9 @@ func checkForSupportedFlagType(c *Context) error {
 	return nil
 }
 
-func executeOptionPipeline(ctx context.Context) error {
+// executeActionPipeline runs the deferred and the user pipeline as one so that
+// middleware in the former wraps the latter
+func executeActionPipeline(ctx context.Context) error {
 	target := FromContext(ctx).target
 	return Do(ctx, Pipeline(target.uses().pipeline(ActionTiming), target.pipeline(ActionTiming)))
 }
-- 
2.43.0


From a888e09484864b5cbe94479587dd46ed1a33b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:11 +0000
Subject: [PATCH 09/77] fix: don't panic when the Exits option is used directly
 as an action

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 75f1cd6..3578fa1 100644
--- a/action.go
+++ b/action.go
@@ -1879,7 +1879,7 @@ func execute(c context.Context, af Action) error {
 
 func doThenExit(a Action) Action {
 	return actionFunc(func(c context.Context) error {
-		err := a.Execute(c)
+		err := execute(c, a)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 074d7775fee61928dd4a0be6bfc3de3f38a0c83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 10/77] fix: initialize flags, args, and commands that are
 added or removed during initialization

Removing a flag or arg from the initializer of another one panicked, and
elements added by a sub-command to its parent were never initialized.  Args
which change their own names didn't have hooks applied again, errors from
those hooks were lost, and their path was stale.
---
 command.go | 88 +++++++++++++++++++++++++++++++-----------------------
 context.go |  3 +-
 2 files changed, 53 insertions(+), 38 deletions(-)

diff --git a/command.go b/command.go
index 1c955f7..44c0dac 100644
--- a/command.go
+++ b/command.go
@@ -609,73 +609,87 @@ func (c *Command) contextName() string {
 }
 
 func initializeFlagsArgs(ctx *Context) error {
+	// Flags and args may be added or removed by those that are initializing, so
+	// proceed until each of those which are present was initialized
 	var (
-		flagStart int
-		argStart  int
-		anyFlags  = true
-		anyArgs   = true
+		seenFlags = map[*Flag]bool{}
+		seenArgs  = map[*Arg]bool{}
+		more      = true
 	)
 
-	// New flags and/or args may have been introduced, so allow these to also initialize.
-	// They can ONLY be appended to the slice, not inserted elsewhere
-	for anyFlags || anyArgs {
-		flags := ctx.LocalFlags()[flagStart:]
-		flagStart = len(ctx.LocalFlags())
+	for more {
+		more = false
+		for _, sub := range slices.Clone(ctx.LocalFlags()) {
+			if seenFlags[sub] || !slices.Contains(ctx.LocalFlags(), sub) {
+				continue
+			}
+			more, seenFlags[sub] = true, true
 
-		for _, sub := range flags {
 			if sub.internalFlags().initialized() {
 				continue
 			}
-
-			originalName := sub.Name
-			err := ctx.newChild(sub).initialize()
-			if err != nil {
+			if err := initializeChild(ctx, sub); err != nil {
 				return err
 			}
-			// The name has changed, so hooks need to run again
-			// on the flag
-			if sub.Name != originalName {
-				ctx.newChild(sub).reinitialize()
-			}
 		}
-		anyFlags = len(flags) > 0
 
-		args := ctx.LocalArgs()[argStart:]
-		argStart = len(ctx.LocalArgs())
+		for _, sub := range slices.Clone(ctx.LocalArgs()) {
+			if seenArgs[sub] || !slices.Contains(ctx.LocalArgs(), sub) {
+				continue
+			}
+			more, seenArgs[sub] = true, true
 
-		for _, sub := range args {
 			if sub.internalFlags().initialized() {
 				continue
 			}
-			err := ctx.newChild(sub).initialize()
-			if err != nil {
+			if err := initializeChild(ctx, sub); err != nil {
 				return err
 			}
 		}
-		anyArgs = len(args) > 0
 	}
 
 	return nil
 }
 
 func initializeSubcommands(ctx *Context) error {
+	// As with flags and args, sub-commands may be added or removed by those that
+	// are initializing, and these may also introduce flags and args
 	cmd := ctx.target.(*Command)
-	for _, sub := range cmd.Subcommands {
-		if sub.internalFlags().initialized() {
-			continue
+	seen := map[*Command]bool{}
+
+	for more := true; more; {
+		more = false
+		for _, sub := range slices.Clone(cmd.Subcommands) {
+			if seen[sub] || !slices.Contains(cmd.Subcommands, sub) {
+				continue
+			}
+			more, seen[sub] = true, true
+
+			if sub.internalFlags().initialized() {
+				continue
+			}
+			if err := initializeChild(ctx, sub); err != nil {
+				return err
+			}
 		}
 
-		originalName := sub.Name
-		err := ctx.newChild(sub).initialize()
-		if err != nil {
+		if err := initializeFlagsArgs(ctx); err != nil {
 			return err
 		}
+	}
+	return nil
+}
 
-		// The name has changed, so hooks need to run again
-		// on the flag
-		if sub.Name != originalName {
-			ctx.newChild(sub).reinitialize()
-		}
+func initializeChild(ctx *Context, sub target) error {
+	originalName := sub.contextName()
+	err := ctx.newChild(sub).initialize()
+	if err != nil {
+		return err
+	}
+
+	// The name has changed, so hooks need to run again
+	if sub.contextName() != originalName {
+		return ctx.newChild(sub).reinitialize()
 	}
 	return nil
 }
diff --git a/context.go b/context.go
index 27e4314..9f8f08b 100644
--- a/context.go
+++ b/context.go
@@ -862,6 +862,7 @@ func (c *Context) SetOptionalValue(v any) error {
 
 // SetName sets the name on the current target
 func (c *Context) SetName(name string) error {
+	c.pathCache = nil
 	switch o := c.target.(type) {
 	case *Arg:
 		o.Name = name
@@ -1186,7 +1187,7 @@ func (c *Context) AddArg(v *Arg) error {
 func (c *Context) RemoveArg(name any) error {
 	return c.updateArgs(func(args []*Arg) []*Arg {
 		if _, index, ok := findArgByName(args, name); ok {
-			return append(args[0:index], args[index+1:]...)
+			return slices.Delete(args, index, index+1)
 		}
 		return args
 	})
-- 
2.43.0


From 9ee3f2c160065c265c1bcc9f1600f432e10ae348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 11/77] fix: accept sub-commands when all of them are added by
 flags or args

---
 action.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 3578fa1..d5ccd10 100644
--- a/action.go
+++ b/action.go
@@ -308,9 +308,10 @@ var (
 					actionFunc(setupCompletion),
 				),
 			),
-			actionFunc(ensureSubcommands),
 			ActionFunc(initializeFlagsArgs),
 			ActionFunc(initializeSubcommands),
+			actionFunc(ensureSubcommands),
+			ActionFunc(initializeFlagsArgs),
 			ActionFunc(initializeValueTargets),
 			ActionFunc(finalizeArgsAndFlags),
 			ActionFunc(copyContextToParent),
-- 
2.43.0


From ea745c48a15ce2bc34671099cdcc80237bdaf180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:15 +0000
Subject: [PATCH 12/77] fix: don't match a path with a pattern that is longer
 than it

---
 context.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 9f8f08b..fdc39a9 100644
--- a/context.go
+++ b/context.go
@@ -1484,7 +1484,10 @@ func (cp contextPathPattern) Match(c ContextPath) bool {
 	if len(cp.parts) == 0 {
 		return true
 	}
-	for i, j := len(cp.parts)-1, len(c)-1; i >= 0 && j >= 0; i, j = i-1, j-1 {
+	if len(cp.parts) > len(c) {
+		return false
+	}
+	for i, j := len(cp.parts)-1, len(c)-1; i >= 0; i, j = i-1, j-1 {
 		if !matchField(cp.parts[i], c[j]) {
 			return false
 		}
-- 
2.43.0


From 1c67c5cb1072e37345a240e07ca0e478e4a9cea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:15 +0000
Subject: [PATCH 13/77] fix: ignore late timing for every part of an optional
 Setup

---
 action.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/action.go b/action.go
index d5ccd10..e7e852c 100644
--- a/action.go
+++ b/action.go
@@ -451,15 +451,19 @@ func (s Setup) Execute(ctx context.Context) error {
 		}
 	}
 	if s.Before != nil {
-		if err := c.Before(ActionOf(s.Before)); err != nil {
+		if err := c.act(s.Before, BeforeTiming, s.Optional); err != nil {
 			return err
 		}
 	}
-	if err := c.Action(ActionOf(s.Action)); err != nil {
-		return err
+	if s.Action != nil {
+		if err := c.act(s.Action, ActionTiming, s.Optional); err != nil {
+			return err
+		}
 	}
-	if err := c.After(ActionOf(s.After)); err != nil {
-		return err
+	if s.After != nil {
+		if err := c.act(s.After, AfterTiming, s.Optional); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From b7a9a28ff6c38a8fa24600378544f5961ebb9480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:37 +0000
Subject: [PATCH 14/77] fix: stop composed command not found handlers at the
 first that settles the outcome

An error or ErrSkipCommand from one was replaced by that of the others, such
as when an implicit command failed, and they weren't given the original error.
---
 command.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/command.go b/command.go
index 44c0dac..2dfa749 100644
--- a/command.go
+++ b/command.go
@@ -186,10 +186,10 @@ func HandleCommandNotFound(fn func(*Context, error) (*Command, error)) Action {
 				newFn := fn
 				fn = func(c *Context, err1 error) (*Command, error) {
 					cmd, err := newFn(c, err1)
-					if cmd != nil && err == nil {
-						return cmd, nil
+					if cmd != nil || (err != nil && !isCommandNotFound(err)) {
+						return cmd, err
 					}
-					return existingFn(c, err)
+					return existingFn(c, err1)
 				}
 			}
 		}
@@ -217,6 +217,11 @@ func ImplicitCommand(name string) Action {
 	})
 }
 
+func isCommandNotFound(err error) bool {
+	var pe *ParseError
+	return errors.As(err, &pe) && pe.Code == CommandNotFound
+}
+
 func groupedByCategory(cmds []*Command) commandsByCategory {
 	res := commandsByCategory{}
 	for _, command := range cmds {
-- 
2.43.0


From dd566fb193429ac294f9d271be9131204a8f22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:21 +0000
Subject: [PATCH 15/77] fix: let Implies name a flag that has a one letter name

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index e7e852c..405f5a2 100644
--- a/action.go
+++ b/action.go
@@ -1145,7 +1145,7 @@ func Implies(name, value string) Action {
 		return nil
 	}
 	if name[0] != '-' {
-		name = "--" + name
+		name = optionName(name)
 	}
 	return ActionFunc(func(c *Context) error {
 		return c.Parent().HookBefore(name, ImplicitValue(func(_ *Context) (string, bool) {
-- 
2.43.0


From b131add6ce459631af66bdf986c0f2b17de85070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:36 +0000
Subject: [PATCH 16/77] fix: split lists at every unescaped separator exactly
 once

---
 internal/support/support.go | 29 ++++++++++++++---------------
 value.go                    |  2 +-
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/internal/support/support.go b/internal/support/support.go
index 732845d..4f6a321 100644
--- a/internal/support/support.go
+++ b/internal/support/support.go
@@ -2,7 +2,6 @@ package support
 
 import (
 	"os"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -15,7 +14,7 @@ func ParseMap(values []string) map[string]string {
 
 	var key, value string
 	for _, kvp := range values {
-		k := SplitList(kvp, "=", 2)
+		k := SplitList(strings.ReplaceAll(kvp, "\\,", ","), "=", 2)
 		switch len(k) {
 		case 2:
 			key = k[0]
@@ -47,25 +46,25 @@ func SplitList(s, sep string, n int) []string {
 		return nil
 	}
 	if strings.Contains(s, "\\") {
-		regex := regexp.MustCompile(`(^|[^\\])` + regexp.QuoteMeta(sep))
-		matches := regex.FindAllStringSubmatchIndex(s, n)
-
-		if len(matches) == 0 {
-			return []string{s}
-		}
-
 		unquote := func(x string) string {
-			return strings.ReplaceAll(x, "\\", "")
+			return strings.ReplaceAll(x, "\\"+sep, sep)
 		}
 		res := make([]string, 0)
 
 		var last int
-		for _, match := range matches {
-			res = append(res, unquote(s[last:match[1]-1]))
-			res = append(res, unquote(s[match[2]+1+1:]))
-			last = match[2] + 1 + 1
+		for i := 0; i < len(s) && (n < 0 || len(res)+1 < n); {
+			switch {
+			case strings.HasPrefix(s[i:], "\\"+sep):
+				i += 1 + len(sep)
+			case strings.HasPrefix(s[i:], sep):
+				res = append(res, unquote(s[last:i]))
+				i += len(sep)
+				last = i
+			default:
+				i++
+			}
 		}
-		return res
+		return append(res, unquote(s[last:]))
 	}
 	return strings.SplitN(s, sep, n)
 }
diff --git a/value.go b/value.go
index 72b88f8..f536309 100644
--- a/value.go
+++ b/value.go
@@ -767,7 +767,7 @@ func parseBool(value string) (bool, error) {
 }
 
 func splitValuePair(arg string) (k, v string, hasValue bool) {
-	a := SplitList(arg, "=", 2)
+	a := SplitList(strings.ReplaceAll(arg, "\\,", ","), "=", 2)
 	if len(a) == 1 {
 		return a[0], "true", false
 	}
-- 
2.43.0


From 383e71f299494c4a4470afd6ff623a45ede72877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:42 +0000
Subject: [PATCH 17/77] fix: don't panic when a name-value pair is empty

---
 value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value.go b/value.go
index f536309..d130e95 100644
--- a/value.go
+++ b/value.go
@@ -768,7 +768,10 @@ func parseBool(value string) (bool, error) {
 
 func splitValuePair(arg string) (k, v string, hasValue bool) {
 	a := SplitList(strings.ReplaceAll(arg, "\\,", ","), "=", 2)
-	if len(a) == 1 {
+	switch len(a) {
+	case 0:
+		return "", "true", false
+	case 1:
 		return a[0], "true", false
 	}
 	return a[0], a[1], true
-- 
2.43.0


From 0278c2e6c5cc20fbd588bc41de2759c1b14afdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:16 +0000
Subject: [PATCH 18/77] fix: keep the values of every occurrence in a value
 that has Reset

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index d130e95..6f1168c 100644
--- a/value.go
+++ b/value.go
@@ -793,7 +793,7 @@ func optionApplyValueConventions(p any, flags internalFlags, firstOccur bool) {
 			switch p := p.(type) {
 			case *string:
 				*p = ""
-			case valueResetOrMerge:
+			case *NameValue:
 				p.Reset()
 			}
 		}
-- 
2.43.0


From 0315496a81076e48938262a2b61ee81e14464345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:34 +0000
Subject: [PATCH 19/77] fix: let values given for a string arg overwrite its
 initial value

---
 arg.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arg.go b/arg.go
index 1bd63d0..0b21f06 100644
--- a/arg.go
+++ b/arg.go
@@ -483,8 +483,12 @@ func (a *Arg) cloneZero() {
 }
 
 func (a *Arg) nextOccur() {
+	// Each value of the arg is an occurrence and contributes to its value, but
+	// the initial value is only kept when merging was explicitly requested
 	a.count++
-	optionApplyValueConventions(a.Value, a.flags, a.count == 1)
+	if a.count == 1 {
+		optionReset(a.Value, a.flags)
+	}
 }
 
 func (a *Arg) reset() {
-- 
2.43.0


From 36a708b386afa896e7a77ac5391db4ca6d810069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:47 +0000
Subject: [PATCH 20/77] fix: let an implicit value overwrite the initial value

---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index fdc39a9..34fae90 100644
--- a/context.go
+++ b/context.go
@@ -922,6 +922,7 @@ func (c *Context) SetValue(arg any) error {
 		}
 
 		c.target.setInternalFlags(internalFlagSeenImplied, true)
+		c.option().reset()
 	}
 	return c.target.(option).Set(arg)
 }
-- 
2.43.0


From 1ed24d6712a48ce9c25135a9ac6460c1dc641ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:27 +0000
Subject: [PATCH 21/77] fix: keep the winning value in place during
 EachOccurrence

---
 arg.go    |  5 +++++
 flag.go   |  6 ++++++
 option.go | 14 +++++++++++---
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/arg.go b/arg.go
index 0b21f06..0706cbc 100644
--- a/arg.go
+++ b/arg.go
@@ -491,6 +491,11 @@ func (a *Arg) nextOccur() {
 	}
 }
 
+func (a *Arg) setOccurrences(value any, count int) {
+	a.Value = value
+	a.count = count
+}
+
 func (a *Arg) reset() {
 	optionReset(a.Value, a.internalFlags())
 }
diff --git a/flag.go b/flag.go
index ea4a266..d969221 100644
--- a/flag.go
+++ b/flag.go
@@ -178,6 +178,7 @@ type option interface {
 	setTransform(fn TransformFunc)
 	cloneZero()
 	nextOccur()
+	setOccurrences(value any, count int)
 }
 
 type wrapOccurrenceContext struct {
@@ -354,6 +355,11 @@ func (f *Flag) cloneZero() {
 	f.Value = valueCloneZero(f.Value)
 }
 
+func (f *Flag) setOccurrences(value any, count int) {
+	f.Value = value
+	f.count = count
+}
+
 func (f *Flag) reset() {
 	optionReset(f.Value, f.internalFlags())
 }
diff --git a/option.go b/option.go
index f9fa999..76fc62a 100644
--- a/option.go
+++ b/option.go
@@ -563,7 +563,12 @@ func eachOccurrenceOpt(c1 *Context) error {
 
 		// Obtain either the zero value or Reset() the value
 		resetOnFirstOccur := !opt.internalFlags().merge()
+
+		// The winning value stays in place whilst actions are executing
+		winning, count := opt.value(), opt.Occurrences()
+		occurrence := winning
 		for i := range mini.numOccurs() {
+			opt.setOccurrences(occurrence, 0)
 
 			// Create a copy of the value on each occurrence (unless merge semantics
 			// are in place)
@@ -576,15 +581,18 @@ func eachOccurrenceOpt(c1 *Context) error {
 			// Pretend this is the first occurrence
 			opt.reset()
 
-			if err := rawApplyToOption(
+			err := rawApplyToOption(
 				[][]string{mini.Raw("")},
 				opt.transformFunc(),
 				opt,
-			); err != nil {
+			)
+			occurrence = opt.value()
+			opt.setOccurrences(winning, count)
+			if err != nil {
 				return err
 			}
 
-			mini.val = c.option().value()
+			mini.val = occurrence
 
 			if err := next.Execute(scope); err != nil {
 				return err
-- 
2.43.0


From 5ee80d1400df8b0023536282cfe0fe1e1bdf7eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 22/77] fix: transform the value of a name-value pair that is
 given separately from its name

---
 action.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/action.go b/action.go
index 405f5a2..b840a0b 100644
--- a/action.go
+++ b/action.go
@@ -1221,6 +1221,11 @@ func Transform(fn TransformFunc) Action {
 func ValueTransform(valueFn TransformFunc) Action {
 	return Transform(func(raw []string) (any, error) {
 		name, value, hasValue := splitValuePair(raw[1])
+		if !hasValue && len(raw) > 2 {
+			// The value was specified separately from the name
+			value, hasValue = raw[2], true
+			raw = raw[1:]
+		}
 		if hasValue {
 			values := append([]string{name, value}, raw[2:]...)
 			f, err := valueFn(values)
-- 
2.43.0


From aea607bd5c0c3c697fa9bc9fd71029fbaf9a9db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:12 +0000
Subject: [PATCH 23/77] fix: leave a bool unchanged when its text is not valid

---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 6f1168c..4a9f9ab 100644
--- a/value.go
+++ b/value.go
@@ -350,11 +350,11 @@ func setCore(dest any, disableSplitting bool, value string) error {
 	case Value:
 		return p.Set(value)
 	case *bool:
-		var err error
-		*p, err = parseBool(value)
+		b, err := parseBool(value)
 		if err != nil {
 			return err
 		}
+		*p = b
 		return nil
 	case *string:
 		s := *p
-- 
2.43.0


From 2158048792fe34f675435f6b56612bae26b3c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:19 +0000
Subject: [PATCH 24/77] fix: let MustExist accept a File that was not named

---
 option.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/option.go b/option.go
index 76fc62a..a014969 100644
--- a/option.go
+++ b/option.go
@@ -476,6 +476,10 @@ func mustExistOption(c *Context) error {
 	if v == nil {
 		return nil
 	}
+	if f, ok := v.(*File); ok && f.Name == "" {
+		// No file was named
+		return nil
+	}
 	switch f := v.(type) {
 	case string:
 		if f == "" {
-- 
2.43.0


From 794fbe8b52ce55109bbcb710af9ae214b728968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:05 +0000
Subject: [PATCH 25/77] fix: do not share memory between pipelines extended
 with Append or Prepend

---
 action.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index b840a0b..cb780d6 100644
--- a/action.go
+++ b/action.go
@@ -1634,12 +1634,12 @@ func (af actionFunc) Execute(ctx context.Context) error {
 
 // Append appends actions to the pipeline
 func (p ActionPipeline) Append(x ...Action) ActionPipeline {
-	return append(p, x...)
+	return append(p[:len(p):len(p)], x...)
 }
 
 // Prepend prepends actions to the pipeline
 func (p ActionPipeline) Prepend(x ...Action) ActionPipeline {
-	return append(x, p...)
+	return append(x[:len(x):len(x)], p...)
 }
 
 // Execute the pipeline by calling each action successively
-- 
2.43.0


From 2d9e2a9a6f1619efd5ad3878bcd5ace0e78794ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:12 +0000
Subject: [PATCH 26/77] fix: keep a percent sign in the text of a recovered
 panic

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index cb780d6..42be6af 100644
--- a/action.go
+++ b/action.go
@@ -528,7 +528,7 @@ func failWithContextError(c *Context) error {
 	if r, ok := c.LookupData(panicDataKey); ok {
 		rvr := r.(*panicData)
 		fmt.Fprint(c.Stderr, rvr.stack)
-		return c.internalError(fmt.Errorf(rvr.recovered))
+		return c.internalError(errors.New(rvr.recovered))
 	}
 	return nil
 }
-- 
2.43.0


From ad4708b6ce64bc33e4b9b01629a88ac879884bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:18 +0000
Subject: [PATCH 27/77] fix: report a panic that was recovered in a flag or
 argument

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 42be6af..f59f1ba 100644
--- a/action.go
+++ b/action.go
@@ -510,7 +510,7 @@ func Recover(a Action) Action {
 	return actionFunc(func(c context.Context) error {
 		defer func() {
 			if rvr := recover(); rvr != nil {
-				FromContext(c).SetData(panicDataKey, &panicData{
+				FromContext(c).Command().SetData(panicDataKey, &panicData{
 					recovered: fmt.Sprint(rvr),
 					stack:     formatStack(),
 				})
-- 
2.43.0


From 1ac4c8acd1bb055c0a964ad7d471b50b4eb70a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:00 +0000
Subject: [PATCH 28/77] fix: a token that doesn't start with a dash isn't an
 expression operator

The first byte of the token was dropped without looking at it, so that "xname" was
taken for the operator "-name" and an empty token caused a panic.
---
 extensions/expr/expr.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 21021ed..8927fd9 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -779,8 +779,9 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 		arg := args[0]
 		args = args[1:]
 
-		expr, ok := exprs[arg[1:]]
-		if !ok {
+		name, isExpr := strings.CutPrefix(arg, "-")
+		expr, ok := exprs[name]
+		if !isExpr || !ok {
 			return nil, nil, unknownExpr(arg)
 		}
 
-- 
2.43.0


From 2b43aa1252213c98efafca6bf145a0140b04f1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:21 +0000
Subject: [PATCH 29/77] fix: an expression operator's missing operand is
 reported when another operator follows

Only the last operator's operands were checked for being complete, and errors of an
operand's counter were dropped.
---
 extensions/expr/expr.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 8927fd9..5b4b81b 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -794,12 +794,23 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 		var pe *cli.ParseError
 		if err != nil {
 			pe = err.(*cli.ParseError)
-			args = pe.Remaining
 
 			switch pe.Code {
 			case cli.UnexpectedArgument:
-				return nil, nil, argsMustPrecedeExprs(args[0])
-			case cli.ExpectedArgument:
+				if len(pe.Remaining) > 0 {
+					return nil, nil, argsMustPrecedeExprs(pe.Remaining[0])
+				}
+				return nil, nil, pe
+			case cli.UnknownOption:
+				// This is where the next expression operator starts, so what comes
+				// before it has to be complete by itself
+				consumed := len(args) - len(pe.Remaining)
+				bin, err = cli.RawParse(args[:consumed], boundExpr.exprSet, boundExpr.expr.internalFlags().toRaw())
+				if err != nil {
+					return nil, nil, err
+				}
+				args = args[consumed:]
+			default:
 				return nil, nil, pe
 			}
 		}
-- 
2.43.0


From 84e8828c6a7faebed6a9738180579d14a4568b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:43 +0000
Subject: [PATCH 30/77] fix: an expression operator isn't taken for the name of
 an operand

After an operator with an operand named a, the operator -and was parsed as the
value nd for that operand.
---
 extensions/expr/expr.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 5b4b81b..b2f4cdb 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -834,6 +834,12 @@ func (b *exprBinding) Expr() *Expr {
 	return b.expr
 }
 
+// ResolveAlias implements cli.Binding. The operands of an expression operator are positional;
+// a token such as -name is always an operator and never names an operand
+func (s *exprSet) ResolveAlias(string) (string, bool) {
+	return "", false
+}
+
 func (s *exprSet) lookupValue(name string) (any, bool) {
 	if _, _, g, ok := s.Binding.LookupOption(name); ok {
 		return g.(*cli.Arg).Value, true
-- 
2.43.0


From 7f82e19fe2280b3005f07c076d8151e3f019a3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:51 +0000
Subject: [PATCH 31/77] fix: an operator's operands are still its own after it
 has yielded

The uses of an operator in an expression share the values of its args: whatever
the later use set was seen by the earlier one once yield returned.
---
 extensions/expr/expr.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index b2f4cdb..7d87aaa 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -663,14 +663,25 @@ func (b *boundExpr) Reset() {
 
 func (b *boundExpr) Evaluate(c context.Context, v any, yield func(any) error) error {
 	ctx := cli.FromContext(c).ValueContextOf(b.Expr().Name, b)
-	tryResetIfSupported(b)
-
-	err := b.BindingMap().ApplyTo(b.exprSet)
+	err := b.apply()
 	if err != nil {
 		return err
 	}
 
-	return EvaluatorOf(b.expr.Evaluate).Evaluate(ctx, v, yield)
+	return EvaluatorOf(b.expr.Evaluate).Evaluate(ctx, v, func(in any) error {
+		// Other uses of the same operator share the values of its args, so
+		// these need to be available again once yield is done
+		err := yield(in)
+		if applyErr := b.apply(); err == nil {
+			err = applyErr
+		}
+		return err
+	})
+}
+
+func (b *boundExpr) apply() error {
+	tryResetIfSupported(b)
+	return b.BindingMap().ApplyTo(b.exprSet)
 }
 
 func tryResetIfSupported(v any) {
-- 
2.43.0


From 636f93a55fc8d0c04f2526030a99d4c77531fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:30 +0000
Subject: [PATCH 32/77] fix: argument counters count from the start each time
 arguments are bound

A counter given with OptionalArg or ArgCount was shared by all uses of the argument: the
second use of an expression operator (or a second run) found it already used up.
---
 arg.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/arg.go b/arg.go
index 0706cbc..ef181bc 100644
--- a/arg.go
+++ b/arg.go
@@ -163,6 +163,12 @@ type discreteCounter struct {
 	count int
 }
 
+// renewableCounter is a counter that can provide the counter it was before taking any args
+type renewableCounter interface {
+	ArgCounter
+	renew() ArgCounter
+}
+
 type defaultCounter struct {
 	seen        bool
 	requireSeen bool
@@ -310,10 +316,15 @@ func (a *Arg) SetOccurrenceData(v any) error {
 }
 
 func (a Arg) actualArgCounter() ArgCounter {
-	if a.NArg != nil {
-		return ArgCount(a.NArg)
+	switch n := a.NArg.(type) {
+	case nil:
+		return argCounterImpliedFromValue(a.Value, false)
+	case renewableCounter:
+		// Counting starts over each time arguments are bound
+		return n.renew()
+	default:
+		return ArgCount(n)
 	}
-	return argCounterImpliedFromValue(a.Value, false)
 }
 
 // SetHidden causes the argument to be hidden from the help screen
@@ -555,6 +566,10 @@ func (d *discreteCounter) Done() error {
 	return nil
 }
 
+func (d *discreteCounter) renew() ArgCounter {
+	return &discreteCounter{d.total, d.total}
+}
+
 func (d *discreteCounter) Usage() (optional, multi bool) {
 	return false, d.count > 1
 }
@@ -577,6 +592,10 @@ func (d *defaultCounter) Done() error {
 	return nil
 }
 
+func (d *defaultCounter) renew() ArgCounter {
+	return &defaultCounter{requireSeen: d.requireSeen}
+}
+
 func (d *defaultCounter) Usage() (optional, multi bool) {
 	return !d.requireSeen, false
 }
@@ -612,6 +631,10 @@ func (*matchesArgsCounter) Done() error {
 	return nil
 }
 
+func (o *matchesArgsCounter) renew() ArgCounter {
+	return &matchesArgsCounter{fn: o.fn, max: o.max}
+}
+
 func argCounterImpliedFromValue(value any, requireSeen bool) ArgCounter {
 	switch value := value.(type) {
 	case *[]string:
-- 
2.43.0


From 4d18c6382152e8b763fcf450e5c9d22a66590ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:06 +0000
Subject: [PATCH 33/77] fix: shell completion doesn't depend on required flags
 and arguments or run handlers

---
 action.go  | 5 +----
 context.go | 7 +++++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/action.go b/action.go
index f59f1ba..c730e54 100644
--- a/action.go
+++ b/action.go
@@ -320,10 +320,7 @@ var (
 			ActionFunc(triggerOptions),
 			ActionFunc(triggerValueTargets),
 			IfMatch(subcommandDidNotExecute,
-				actions(
-					actionFunc(triggerRobustParsingAndCompletion),
-					actionFunc(executeActionPipeline),
-				),
+				actionFunc(executeActionPipeline),
 			),
 		),
 		Before: beforePipeline{
diff --git a/context.go b/context.go
index 34fae90..10acd9b 100644
--- a/context.go
+++ b/context.go
@@ -172,6 +172,13 @@ func (c *Context) Execute(args []string) error {
 			defer provideCurrentApp(cmd.fromApp)()
 		}
 	}
+
+	// The command line being completed isn't args, so whether args is valid and
+	// the handlers don't matter
+	if err := triggerRobustParsingAndCompletion(c); err != nil {
+		return err
+	}
+
 	res := c.parse(args)
 	if res.err != nil {
 		return res.err
-- 
2.43.0


From 7a0e5b0acc1c89a80152a73fe1d7bb7aa53fa152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:06 +0000
Subject: [PATCH 34/77] fix: help text that has several lines doesn't break up
 the zsh completion response

---
 completion_zsh.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/completion_zsh.go b/completion_zsh.go
index 9615206..8119e59 100644
--- a/completion_zsh.go
+++ b/completion_zsh.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"strconv"
+	"strings"
 )
 
 type zshComplete struct {
@@ -79,7 +80,8 @@ func (z *zshComplete) FormatCompletions(items []CompletionItem) string {
 }
 
 func (z *zshComplete) formatCompletion(item CompletionItem) string {
-	itemDesc := item.HelpText
+	// Each part of the response is a line
+	itemDesc := strings.ReplaceAll(item.HelpText, "\n", " ")
 	if itemDesc == "" {
 		itemDesc = "_"
 	}
-- 
2.43.0


From 6b1f7bff74373a9d22791c6fa395113a570fd05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:06 +0000
Subject: [PATCH 35/77] fix: completion is determined by the flag or argument
 that takes the incomplete token

Flags of the command reached and inherited flags are offered instead of the root's,
values come from the option that would be given the token, hidden sub-commands
aren't offered, and a failure to parse the preceding tokens doesn't panic.
---
 command.go | 129 +++++++++++++++++++++++++++++++++++------------------
 context.go |  14 +++---
 2 files changed, 94 insertions(+), 49 deletions(-)

diff --git a/command.go b/command.go
index 2dfa749..f298fd6 100644
--- a/command.go
+++ b/command.go
@@ -222,6 +222,11 @@ func isCommandNotFound(err error) bool {
 	return errors.As(err, &pe) && pe.Code == CommandNotFound
 }
 
+func isUnknownOption(err error) bool {
+	var pe *ParseError
+	return errors.As(err, &pe) && pe.Code == UnknownOption
+}
+
 func groupedByCategory(cmds []*Command) commandsByCategory {
 	res := commandsByCategory{}
 	for _, command := range cmds {
@@ -368,21 +373,21 @@ func ensureSubcommands(ctx context.Context) error {
 
 func completeSubCommand(c *Context) []CompletionItem {
 	cc := c.CompletionRequest()
-	invoke := c.List("")
+	invoke := cc.Bindings.RawOccurrences(c.Arg().Name)
 	detect := func(s string) bool {
 		return strings.HasPrefix(s, cc.Incomplete)
 	}
 
 	if len(invoke) == 0 {
-		cmd := c.Command()
-		res := make([]CompletionItem, 0, len(cmd.Subcommands))
+		subcommands := c.Command().VisibleSubcommands()
+		res := make([]CompletionItem, 0, len(subcommands))
 
-		for _, s := range cmd.Subcommands {
+		for _, s := range subcommands {
 			if detect(s.Name) {
 				res = append(res, CompletionItem{Value: s.Name, HelpText: s.HelpText})
 			}
 		}
-		for _, s := range cmd.Subcommands {
+		for _, s := range subcommands {
 			for _, alias := range s.Aliases {
 				if detect(alias) {
 					res = append(res, CompletionItem{Value: alias, HelpText: s.HelpText})
@@ -411,17 +416,26 @@ func (c *Command) completion() Completion {
 func defaultCommandCompletion(c *Context) []CompletionItem {
 	cc := c.CompletionRequest()
 	cmd := c.Target().(*Command)
-	var items []CompletionItem
+
+	// Determine the flag or arg which would be given the incomplete token
+	switch opt := c.optionTakingNext(cc.Args, cc.Incomplete).(type) {
+	case *Flag:
+		if !strings.HasPrefix(cc.Incomplete, "-") {
+			return actualCompletion(opt.completion()).Complete(c)
+		}
+	case *Arg:
+		return actualCompletion(opt.completion()).Complete(c.newChild(opt))
+	}
 
 	if strings.HasPrefix(cc.Incomplete, "-") {
 		// If a search only finds one match, then complete the flag
-		items = findSolitaryMatch(c)
+		items := findSolitaryMatch(c)
 		if items != nil {
 			return items
 		}
 
-		for _, f := range cmd.VisibleFlags() {
-			for _, n := range f.synopsis().Names {
+		for _, f := range completionFlags(c) {
+			for _, n := range f.names {
 				if strings.HasPrefix(n, cc.Incomplete) {
 					items = append(items, CompletionItem{Value: n, HelpText: f.HelpText})
 				}
@@ -430,64 +444,93 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 		return items
 	}
 
-	if cc.Err != nil {
-		name := cc.Err.(*ParseError).Name
+	// Parsing stopped before the incomplete token
+	if len(cmd.Args) > 0 && isUnknownOption(cc.Err) {
+		arg := cmd.Args[0]
+		return actualCompletion(arg.completion()).Complete(c.newChild(arg))
+	}
+	return nil
+}
 
-		if strings.HasPrefix(name, "-") {
-			flag, ok := cmd.Flag(name)
-			if ok {
-				return actualCompletion(flag.completion()).Complete(c)
-			}
-		}
+type completionFlag struct {
+	*Flag
+	names []string
+}
 
-		arg, ok := cmd.Arg(name)
-		if !ok && len(cmd.Args) > 0 {
-			arg = cmd.Args[0]
-		}
-		if arg == nil {
-			return nil
+// completionFlags obtains each visible flag which can be used with the command and
+// the names which select it
+func completionFlags(c *Context) []completionFlag {
+	b := c.internal.(*commandContext).set.Binding
+	all := append(slices.Clone(c.LocalFlags()), c.PersistentFlags()...)
+	res := make([]completionFlag, 0, len(all))
+
+	for _, f := range filterInVisibleFlags(all) {
+		names := slices.DeleteFunc(slices.Clone(f.synopsis().Names), func(n string) bool {
+			id, _ := b.ResolveAlias(strings.TrimLeft(n, "-"))
+			_, _, opt, _ := b.LookupOption(id)
+			return opt != BindingState(f)
+		})
+		if len(names) > 0 {
+			res = append(res, completionFlag{f, names})
 		}
-		return actualCompletion(arg.completion()).Complete(c)
 	}
+	return res
+}
 
-	// Request completion of the last argument that was seen
-	if len(cmd.Args) > 0 {
-		last := cmd.Args[0]
-		for _, a := range cmd.Args {
-			last = a
-			if len(cc.Bindings[a.Name]) == 0 {
-				break
-			}
-		}
-		return actualCompletion(last.completion()).Complete(c.newChild(last))
+// optionTakingNext determines which flag or arg would be given the incomplete token if it
+// were the next one on the command line, which is nil when no arg takes it or it is the
+// name of a flag
+func (c *Context) optionTakingNext(args []string, incomplete string) option {
+	const mark = "\x00"
+	next := incomplete + mark
+	if strings.HasPrefix(incomplete, "-") {
+		next = "--" + mark
 	}
 
-	return items
+	if len(args) == 0 {
+		args = []string{c.Command().Name}
+	}
+	b := c.internal.(*commandContext).set.Binding
+	raw, flags := c.rawParseArgs(append(slices.Clone(args), next))
+	bindings, _ := RawParse(raw, b, flags)
+	for _, name := range bindings.BindingNames() {
+		if slices.Contains(bindings.Raw(name), next) {
+			_, _, opt, _ := b.LookupOption(name)
+			return opt.(option)
+		}
+	}
+	return nil
 }
 
 func findSolitaryMatch(c *Context) []CompletionItem {
 	cc := c.CompletionRequest()
-	cmd := c.Target().(*Command)
 	flagName, _, hasArg := strings.Cut(cc.Incomplete, "=")
 	var match *Flag
 	var matchName string
-
-	for _, f := range cmd.VisibleFlags() {
-		for _, n := range f.synopsis().Names {
-			if n == cc.Incomplete || (hasArg && strings.HasPrefix(n, flagName)) {
-				return actualCompletion(f.completion()).Complete(c.newChild(f))
+	var exact bool
+
+	for _, f := range completionFlags(c) {
+		for _, n := range f.names {
+			// The value is within the token, as in --flag=value or -fvalue
+			runIn := len(n) == 2 && len(cc.Incomplete) > 2 && strings.HasPrefix(cc.Incomplete, n)
+			if hasArg && n == flagName || runIn && !f.internalFlags().flagOnly() {
+				return actualCompletion(f.completion()).Complete(c.newChild(f.Flag))
 			}
 			if strings.HasPrefix(n, cc.Incomplete) {
-				if match != nil && match != f {
+				if match != nil && match != f.Flag {
 					return nil
 				}
-				match, matchName = f, n
+				match, matchName = f.Flag, n
+				exact = exact || n == cc.Incomplete
 			}
 		}
 	}
 	if match == nil {
 		return nil
 	}
+	if exact {
+		return actualCompletion(match.completion()).Complete(c.newChild(match))
+	}
 
 	var suffix string
 	if !match.internalFlags().flagOnly() && len(matchName) > 2 {
diff --git a/context.go b/context.go
index 10acd9b..8bd66b4 100644
--- a/context.go
+++ b/context.go
@@ -196,15 +196,17 @@ func (c *Context) Execute(args []string) error {
 }
 
 func (c *Context) parse(args []string) *robustParseResult {
+	set := c.Command().buildSet(c)
+	err := set.parse(c.rawParseArgs(args))
+	return &robustParseResult{bindings: set.BindingMap, err: err}
+}
+
+func (c *Context) rawParseArgs(args []string) (argList, RawParseFlag) {
 	root := c.Command()
-	set := root.buildSet(c)
-	if root.internalFlags().skipFlagParsing() {
+	if root.internalFlags().skipFlagParsing() && len(args) > 0 {
 		args = append([]string{args[0], "--"}, args[1:]...)
 	}
-
-	flags := root.internalFlags().toRaw() | RawSkipProgramName
-	err := set.parse(args, flags)
-	return &robustParseResult{bindings: set.BindingMap, err: err}
+	return args, root.internalFlags().toRaw() | RawSkipProgramName
 }
 
 func (c *Context) Deadline() (deadline time.Time, ok bool) {
-- 
2.43.0


From f8a3020f6e976d71269a4a872fe9e88e7c6a2bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:19 +0000
Subject: [PATCH 36/77] fix: template data uses the name and value of each pair

---
 extensions/template/template.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/template/template.go b/extensions/template/template.go
index 6da5b9c..e61f3a0 100644
--- a/extensions/template/template.go
+++ b/extensions/template/template.go
@@ -155,8 +155,8 @@ func someData(namevalues ...any) Generator {
 
 	res := make([]Generator, 0, len(namevalues)/2)
 	for i := 0; i < len(namevalues); i += 2 {
-		name := namevalues[0].(string)
-		value := namevalues[0]
+		name := namevalues[i].(string)
+		value := namevalues[i+1]
 		res = append(res, Data(name, value))
 	}
 
-- 
2.43.0


From 45b73bc418c83dba3c2d5004dfeea659c73e4191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:19 +0000
Subject: [PATCH 37/77] fix: a template directory that fails to generate
 doesn't enclose later files

---
 extensions/template/dir.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/extensions/template/dir.go b/extensions/template/dir.go
index 4f2f585..488e094 100644
--- a/extensions/template/dir.go
+++ b/extensions/template/dir.go
@@ -15,12 +15,9 @@ func Dir(name string, contents ...Generator) Generator {
 
 func (d *dirGenerator) Generate(ctx context.Context, c *OutputContext) error {
 	c.PushDir(d.name)
-	for _, g := range d.contents {
-		err := c.Do(ctx, g)
-		if err != nil {
-			return err
-		}
+	err := c.Do(ctx, d.contents...)
+	if popErr := c.PopDir(); err == nil {
+		err = popErr
 	}
-
-	return c.PopDir()
+	return err
 }
-- 
2.43.0


From bd4fa222d2a29ce026ee9089a5a4d717b3556b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:07 +0000
Subject: [PATCH 38/77] fix: template files are generated below their
 directories, and a dry run changes nothing

Enclosing directories are made relative to the working directory, mode and gofmt
apply to the generated file and not to one in a doubled path, names are expanded
once, and files are closed. A dry run reports what it would do and leaves directories,
modes and touched files alone.
---
 extensions/template/context.go | 57 ++++++++++++++++++++++++++--------
 extensions/template/file.go    | 55 ++++++++++----------------------
 extensions/template/go_get.go  |  4 +--
 3 files changed, 63 insertions(+), 53 deletions(-)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index 1194756..e27c895 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -23,6 +23,7 @@ type OutputContext struct {
 	FS        cli.FS
 
 	working []string
+	preview map[string][]byte
 	out     cli.Writer
 }
 
@@ -52,10 +53,11 @@ func (c *OutputContext) Exists(name string) bool {
 }
 
 func (c *OutputContext) File(name string) string {
+	name = c.expandName(name)
 	if strings.HasPrefix(name, "/") {
 		return name
 	}
-	return filepath.Join(c.WorkDir(), c.expandName(name))
+	return filepath.Join(c.WorkDir(), name)
 }
 
 // WorkDir is the path to the working directory
@@ -115,19 +117,48 @@ func (c *OutputContext) trace(category string, file string) {
 	fmt.Fprintln(out)
 }
 
-func (c *OutputContext) reportChange(original []byte, name string, created bool) {
+// readFile reads the named file as it is or, in a dry run, would be at this point.  The
+// name isn't relative to the working directory
+func (c *OutputContext) readFile(ctx context.Context, name string) ([]byte, error) {
+	if data, ok := c.preview[name]; ok {
+		return data, nil
+	}
+	f, err := c.actualFS().OpenContext(ctx, name)
+	if err != nil {
+		return nil, err
+	}
+	defer f.Close()
+	return io.ReadAll(f)
+}
+
+// writeFile sets the contents of the named file.  The name isn't relative to the working directory
+func (c *OutputContext) writeFile(name string, data []byte) error {
+	if c.DryRun {
+		if c.preview == nil {
+			c.preview = map[string][]byte{}
+		}
+		c.preview[name] = data
+		return nil
+	}
+
+	file, err := c.actualFS().Create(name)
+	if err != nil {
+		return err
+	}
+	_, err = file.(io.Writer).Write(data)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	return err
+}
+
+func (c *OutputContext) reportChange(ctx context.Context, original []byte, name string, created bool) {
 	if created {
 		c.create(name)
 		return
 	}
 
-	newContents, _ := func() ([]byte, error) {
-		f, err := c.actualFS().Open(c.File(name))
-		if err != nil {
-			return nil, nil
-		}
-		return io.ReadAll(f)
-	}()
+	newContents, _ := c.readFile(ctx, name)
 	if bytes.Equal(original, newContents) {
 		c.identical(name)
 	} else {
@@ -233,8 +264,8 @@ func (c *OutputContext) Rename(oldpath, newpath string) error {
 }
 
 func (c *OutputContext) pathEnsure(name string) (string, error) {
-	name = c.expandName(name)
-	if strings.HasPrefix(name, "/") {
+	name = c.File(name)
+	if c.DryRun {
 		return name, nil
 	}
 
@@ -242,11 +273,11 @@ func (c *OutputContext) pathEnsure(name string) (string, error) {
 	if _, err := c.actualFS().Stat(dir); os.IsNotExist(err) {
 		err = c.actualFS().MkdirAll(dir, 0755)
 		if err != nil {
-			return c.File(name), err
+			return name, err
 		}
 	}
 
-	return c.File(name), nil
+	return name, nil
 }
 
 func (c *OutputContext) actualFS() cli.FS {
diff --git a/extensions/template/file.go b/extensions/template/file.go
index cf43969..876f189 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -44,17 +44,7 @@ func newGenerateContents(f generateFile) FileGeneratorFunc {
 			return err
 		}
 
-		if c.DryRun {
-			return nil
-		}
-
-		file, err := c.actualFS().Create(name)
-		if err != nil {
-			return err
-		}
-
-		_, err = file.(io.Writer).Write(data)
-		return err
+		return c.writeFile(name, data)
 	}
 }
 
@@ -91,11 +81,12 @@ func Touch() FileGenerator {
 		_, err := f.Stat(fileName)
 
 		if os.IsNotExist(err) {
-			file, err := f.Create(name)
-			if err != nil {
-				return err
+			if _, ok := c.preview[name]; ok {
+				return nil
 			}
-			defer file.Close()
+			return c.writeFile(name, nil)
+		}
+		if c.DryRun {
 			return nil
 		}
 
@@ -123,12 +114,7 @@ func Template(tt Interface, namedata ...any) FileGenerator {
 
 func Gofmt() FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
-		file, err := c.FS.OpenContext(ctx, name)
-		if err != nil {
-			return err
-		}
-
-		src, err := io.ReadAll(file)
+		src, err := c.readFile(ctx, name)
 		if err != nil {
 			return err
 		}
@@ -137,14 +123,16 @@ func Gofmt() FileGenerator {
 			return err
 		}
 
-		_, err = doFileGenerate(ctx, c, name, Contents(result))
-		return err
+		return c.writeFile(name, result)
 	})
 }
 
 func Mode(mode fs.FileMode) FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
-		return c.Chmod(name, mode)
+		if c.DryRun {
+			return nil
+		}
+		return c.actualFS().Chmod(name, mode)
 	})
 }
 
@@ -155,33 +143,24 @@ func (f FileGeneratorFunc) GenerateFile(ctx context.Context, c *OutputContext, n
 	return f(ctx, c, name)
 }
 
-func (m FileMode) GenerateFile(_ context.Context, c *OutputContext, name string) error {
-	return c.Chmod(name, fs.FileMode(int(m)))
+func (m FileMode) GenerateFile(ctx context.Context, c *OutputContext, name string) error {
+	return Mode(fs.FileMode(int(m))).GenerateFile(ctx, c, name)
 }
 
 func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
 	if len(f.ops) == 0 {
-		c.identical(f.name)
+		c.identical(c.File(f.name))
 		return nil
 	}
 
-	file, err := c.OpenContext(ctx, f.name)
+	original, err := c.readFile(ctx, c.File(f.name))
 	created := os.IsNotExist(err)
-	var original []byte
-	if err == nil {
-		original, _ = io.ReadAll(file)
-	}
-
-	if len(f.ops) == 0 {
-		c.identical(f.name)
-		return nil
-	}
 
 	fileName, err := doFileGenerate(ctx, c, f.name, f.ops...)
 	if err != nil {
 		return err
 	}
-	c.reportChange(original, fileName, created)
+	c.reportChange(ctx, original, fileName, created)
 	return nil
 }
 
diff --git a/extensions/template/go_get.go b/extensions/template/go_get.go
index 141ef72..7db48ff 100644
--- a/extensions/template/go_get.go
+++ b/extensions/template/go_get.go
@@ -33,8 +33,8 @@ func (d *goGetter) realGenerate(ctx context.Context, c *OutputContext) error {
 		return err
 	}
 
-	c.reportChange(originalMod, "go.mod", false)
-	c.reportChange(originalSum, "go.sum", false)
+	c.reportChange(ctx, originalMod, c.File("go.mod"), false)
+	c.reportChange(ctx, originalSum, c.File("go.sum"), false)
 	return nil
 }
 
-- 
2.43.0


From 33589bcf2a51fefc8b5f72c803f217997070a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:47 +0000
Subject: [PATCH 39/77] fix: leave hidden sub-commands out of the help screen

---
 command.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/command.go b/command.go
index f298fd6..93095ef 100644
--- a/command.go
+++ b/command.go
@@ -230,6 +230,9 @@ func isUnknownOption(err error) bool {
 func groupedByCategory(cmds []*Command) commandsByCategory {
 	res := commandsByCategory{}
 	for _, command := range cmds {
+		if command.internalFlags().hidden() {
+			continue
+		}
 		cc := res.Category(command.Category)
 		if cc == nil {
 			cc = &commandCategory{
-- 
2.43.0


From ea7749d9f62145128446dfe569c4d2a7a38051b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:49 +0000
Subject: [PATCH 40/77] fix: leave hidden args out of the usage line

---
 command.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index 93095ef..a619ecd 100644
--- a/command.go
+++ b/command.go
@@ -546,11 +546,12 @@ func findSolitaryMatch(c *Context) []CompletionItem {
 
 func (c *Command) newSynopsis() *synopsis.Command {
 	flags := make([]*synopsis.Flag, len(c.Flags))
-	args := make([]*synopsis.Arg, len(c.Args))
+	visibleArgs := c.VisibleArgs()
+	args := make([]*synopsis.Arg, len(visibleArgs))
 	for i, f := range c.Flags {
 		flags[i] = f.synopsis()
 	}
-	for i, a := range c.Args {
+	for i, a := range visibleArgs {
 		args[i] = a.newSynopsis()
 	}
 
-- 
2.43.0


From 197d0230c130c6b402d8b009f0b3c400a3c95f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 41/77] fix: separate a required flag from what precedes it in
 the usage line

---
 internal/synopsis/synopsis.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index cf58829..6611b5b 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -241,6 +241,7 @@ func (c *Command) WriteTo(sb styleWriter) {
 
 	if flags := c.Flags[Other]; len(flags) > 0 {
 		for _, f := range flags {
+			sb.WriteString(" ")
 			f.primaryWriteTo(sb)
 		}
 	}
-- 
2.43.0


From b5accd4fe2c31ac2c12605e5e933cbcc89b63aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:52 +0000
Subject: [PATCH 42/77] fix: mark only optional args as such in the usage of
 right to left commands

---
 internal/synopsis/synopsis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index 6611b5b..9b1d87e 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -103,7 +103,7 @@ func NewCommand(name string, flags []*Flag, args []*Arg, rtl bool) *Command {
 	var optional []*Arg
 
 	if rtl {
-		var start int
+		start := len(args)
 		for i, p := range args {
 			if p.Optional {
 				start = i
-- 
2.43.0


From a33e4f3bfb2a1ce79822f5d6ed529883dbeaa635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:08 +0000
Subject: [PATCH 43/77] fix: describe the command that operands name, and not
 other operands, with --help

---
 usage.go | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/usage.go b/usage.go
index cd66d46..7655df9 100644
--- a/usage.go
+++ b/usage.go
@@ -247,25 +247,11 @@ func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, Contex
 		// Showing help for command where the option is used,
 		// or for commands, show it for the command that was named.
 		if c.isOption() {
-
-			// When the switch is interspersed with the name
-			// of commands, we try to infer what the user meant
-			// by removing flag names and treating full thing as
-			// a path
-			command = slices.DeleteFunc(c.Parent().Raw(""), func(t string) bool {
-				return strings.HasPrefix(t, "-")
-			})
-
-			// Use either the parent path or this inferred command,
-			// whicever is longer and therefore more specific.
-			if len(c.Parent().Path()) >= len(command) {
-				return c.Parent(), c.Parent().Path(), nil
-			}
-
-		} else {
-			list, _ := c.Value("command").([]string)
-			command = append(c.Parent().Path(), list...)
+			return findInterspersedCommand(c.Parent())
 		}
+
+		list, _ := c.Value("command").([]string)
+		command = append(slices.Clone(c.Parent().Path()), list...)
 	}
 
 	// App name might be automatic or contain paths, so find target
@@ -281,6 +267,30 @@ func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, Contex
 	return nil, nil, commandMissing(command[len(command)-1])
 }
 
+// findInterspersedCommand finds the command to display help for when the switch is interspersed
+// with the names of commands that follow it.  The user meant the sub-command which the operands name,
+// where any flags and the operands of a command that has no sub-commands are ignored.
+func findInterspersedCommand(c *Context) (*Context, ContextPath, error) {
+	var operands []string
+	if a, ok := c.Command().Arg("command"); ok {
+		operands, _ = c.Value(a).([]string)
+	}
+	for _, name := range operands {
+		if strings.HasPrefix(name, "-") {
+			continue
+		}
+		if len(c.Command().Subcommands) == 0 {
+			break
+		}
+		sub, ok := c.Command().Command(name)
+		if !ok {
+			return nil, nil, commandMissing(name)
+		}
+		c = c.newChild(sub)
+	}
+	return c, c.Path(), nil
+}
+
 // PrintVersion displays the version string.  The VersionTemplate provides the Go template
 func PrintVersion() Action {
 	return Pipeline(&Prototype{
-- 
2.43.0


From c362754a0ebe62d53ed0c3786921ec0c16cedc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:22 +0000
Subject: [PATCH 44/77] fix: describe the group of commands itself when it is
 run without naming one

---
 command.go |  2 +-
 usage.go   | 77 ++++++++++++++++++++++++++++++------------------------
 2 files changed, 44 insertions(+), 35 deletions(-)

diff --git a/command.go b/command.go
index a619ecd..77fb277 100644
--- a/command.go
+++ b/command.go
@@ -364,7 +364,7 @@ func ensureSubcommands(ctx context.Context) error {
 
 	if len(cmd.Subcommands) > 0 {
 		if cmd.Action == nil {
-			cmd.Action = DisplayHelpScreen()
+			cmd.Action = displayHelpScreen(nil)
 		}
 		return Do(ctx, AddArg(&Arg{
 			Name: "command",
diff --git a/usage.go b/usage.go
index 7655df9..9e3b05b 100644
--- a/usage.go
+++ b/usage.go
@@ -200,46 +200,49 @@ func DisplayHelpScreen(command ...string) Action {
 				)),
 			},
 		},
-		At(ActionTiming, ActionFunc(func(c *Context) error {
-			ctxt, path, err := findCommandToDisplayHelpFor(c, command)
-			if err != nil {
-				return err
-			}
+		At(ActionTiming, displayHelpScreen(command)))
+}
 
-			tpl := c.Template("Help")
-			if tpl == nil {
-				panic("help template not registered")
-			}
+func displayHelpScreen(command []string) Action {
+	return ActionFunc(func(c *Context) error {
+		ctxt, path, err := findCommandToDisplayHelpFor(c, command)
+		if err != nil {
+			return err
+		}
 
-			// HACK Using global state to set up the usage screen rather
-			// than propagating it (quite a distance) through to synopsis
-			// wrapper
-			usageColor = c.Stdout.ColorCapable()
+		tpl := c.Template("Help")
+		if tpl == nil {
+			panic("help template not registered")
+		}
 
-			current := ctxt.Command()
-			persistentFlags := filterInVisibleFlags(ctxt.PersistentFlags())
+		// HACK Using global state to set up the usage screen rather
+		// than propagating it (quite a distance) through to synopsis
+		// wrapper
+		usageColor = c.Stdout.ColorCapable()
 
-			if len(path) > 0 {
-				path = path[0 : len(path)-1]
-			}
-			lineage := strings.Join(path, " ")
-			data := struct {
-				SelectedCommand *commandData
-				App             *App
-				Debug           bool
-			}{
-				SelectedCommand: commandAdapter(current).withLineage(lineage, persistentFlags),
-				App:             c.App(),
-				Debug:           tpl.Debug,
-			}
+		current := ctxt.Command()
+		persistentFlags := filterInVisibleFlags(ctxt.PersistentFlags())
 
-			w := ansiterm.NewTabWriter(c.Stderr, 1, 8, 2, ' ', tabwriter.StripEscape)
+		if len(path) > 0 {
+			path = path[0 : len(path)-1]
+		}
+		lineage := strings.Join(path, " ")
+		data := struct {
+			SelectedCommand *commandData
+			App             *App
+			Debug           bool
+		}{
+			SelectedCommand: commandAdapter(current).withLineage(lineage, persistentFlags),
+			App:             c.App(),
+			Debug:           tpl.Debug,
+		}
 
-			_ = tpl.Execute(w, data)
-			_ = w.Flush()
-			return nil
-		}),
-		))
+		w := ansiterm.NewTabWriter(c.Stderr, 1, 8, 2, ' ', tabwriter.StripEscape)
+
+		_ = tpl.Execute(w, data)
+		_ = w.Flush()
+		return nil
+	})
 }
 
 func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, ContextPath, error) {
@@ -250,6 +253,12 @@ func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, Contex
 			return findInterspersedCommand(c.Parent())
 		}
 
+		// When this is the action of a command that groups others, which were not
+		// named, show help for it
+		if len(c.Command().Subcommands) > 0 {
+			return c, c.Path(), nil
+		}
+
 		list, _ := c.Value("command").([]string)
 		command = append(slices.Clone(c.Parent().Path()), list...)
 	}
-- 
2.43.0


From ccfa27634c83ad3f7b09301535f5332497b452c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:14 +0000
Subject: [PATCH 45/77] fix: keep the HelpText, ManualText and UsageText of an
 app

---
 app.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app.go b/app.go
index dbc8596..f44b275 100644
--- a/app.go
+++ b/app.go
@@ -230,6 +230,9 @@ func (a *App) createRoot() *Command {
 				Subcommands: a.Commands,
 				Action:      a.Action,
 				Description: a.Description,
+				HelpText:    a.HelpText,
+				ManualText:  a.ManualText,
+				UsageText:   a.UsageText,
 				Comment:     a.Comment,
 				Data:        a.Data,
 				After:       a.After,
-- 
2.43.0


From 44ad8d899629f801da16dbefad417294e6b0dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:20 +0000
Subject: [PATCH 46/77] fix: mark args with OptionalArg as optional in the
 usage line

---
 arg.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arg.go b/arg.go
index ef181bc..6061e4a 100644
--- a/arg.go
+++ b/arg.go
@@ -635,6 +635,10 @@ func (o *matchesArgsCounter) renew() ArgCounter {
 	return &matchesArgsCounter{fn: o.fn, max: o.max}
 }
 
+func (o *matchesArgsCounter) Usage() (optional, multi bool) {
+	return true, o.max > 1
+}
+
 func argCounterImpliedFromValue(value any, requireSeen bool) ArgCounter {
 	switch value := value.(type) {
 	case *[]string:
-- 
2.43.0


From 6dc2f0f56ce7a74c5080821e6dac0e4739017384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:27 +0000
Subject: [PATCH 47/77] fix: use the UsageText of a command in place of its
 synopsis

---
 command.go                    |  2 +-
 internal/synopsis/synopsis.go | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index 77fb277..7ced3b0 100644
--- a/command.go
+++ b/command.go
@@ -557,7 +557,7 @@ func (c *Command) newSynopsis() *synopsis.Command {
 
 	return synopsis.NewCommand(
 		c.Name, flags, args, c.internalFlags().rightToLeft(),
-	)
+	).WithUsage(c.UsageText)
 }
 
 // SetData sets the specified metadata on the command
diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index 9b1d87e..ecbf4bb 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -30,6 +30,7 @@ type Command struct {
 	RequiredArgs []*Arg
 	OptionalArgs []*Arg
 	RTL          bool
+	Usage        string
 }
 
 type Flag struct {
@@ -203,6 +204,11 @@ func (v *Value) WriteTo(w styleWriter) {
 }
 
 func (c *Command) WriteTo(sb styleWriter) {
+	if c.Usage != "" {
+		sb.WriteString(c.Usage)
+		return
+	}
+
 	sb.Styled(Bold, c.Name)
 
 	if flags := c.Flags[ActionGroup]; len(flags) > 0 {
@@ -257,6 +263,11 @@ func (a *Arg) WriteTo(sb styleWriter) {
 	}
 }
 
+func (c *Command) WithUsage(text string) *Command {
+	c.Usage = text
+	return c
+}
+
 func (a *Arg) WithUsage(text string) *Arg {
 	a.Value = text
 	return a
-- 
2.43.0


From add73d1cc6108545fc7b0d8ef756413092498081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:59 +0000
Subject: [PATCH 48/77] fix: keep the space between words when wrapping text at
 a full line

---
 usage.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/usage.go b/usage.go
index 9e3b05b..e4d9848 100644
--- a/usage.go
+++ b/usage.go
@@ -473,7 +473,17 @@ func (w *wrapper) Write(b []byte) (int, error) {
 			userSpace = c == '\n' // will be false on fallthrough from previous case
 
 		default:
-			tryWrite(&w.pending, w.pending.Len())
+			if w.pending.Len() > 0 && !tryWrite(&w.pending, w.pending.Len()) {
+				// The space before this word doesn't fit, so the word starts a new line,
+				// whereas indentation is always written
+				if lineLen > 0 {
+					w.Writer.Write([]byte("\n"))
+					w.pending.Reset()
+					w.pending.WriteString(w.Indent)
+				}
+				lineLen = w.pending.Len()
+				w.pending.WriteTo(w.Writer)
+			}
 			buf.WriteRune(c)
 			userSpace = false
 		}
-- 
2.43.0


From 967c0868c007c719f83100e1a1acf05b9bd27c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:58 +0000
Subject: [PATCH 49/77] fix: a registry makes the value of a provider that has
 no factory

---
 extensions/provider/provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 5c45806..a8ec23b 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -358,6 +358,9 @@ func (r *Registry) New(name string, opts map[string]string) (any, error) {
 	if !ok {
 		return nil, fmt.Errorf("provider not found: %q", name)
 	}
+	if fac == nil {
+		return pro.Value, nil
+	}
 	return fac(mergedOpts)
 }
 
-- 
2.43.0


From ee45b2087d9c5d5fc44a3e74e3914fb3c14aceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:59 +0000
Subject: [PATCH 50/77] fix: format the arguments of a provider value that were
 set

---
 extensions/provider/provider.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index a8ec23b..446195b 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -299,9 +299,17 @@ func (v *Value) String() string {
 	buf.WriteString(v.Name)
 
 	switch val := v.Args.(type) {
+	case nil:
+	case *map[string]string:
+		if len(*val) > 0 {
+			buf.WriteString(",")
+			buf.WriteString(support.FormatMap(*val, ","))
+		}
 	case map[string]string:
-		buf.WriteString(",")
-		buf.WriteString(support.FormatMap(val, ","))
+		if len(val) > 0 {
+			buf.WriteString(",")
+			buf.WriteString(support.FormatMap(val, ","))
+		}
 	default:
 		buf.WriteString(",")
 		buf.WriteString(fmt.Sprint(val))
-- 
2.43.0


From 67fd441bb4bb808a0484bd2eff156d28ae585caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:11 +0000
Subject: [PATCH 51/77] fix: a registry in the Uses of a flag is available to
 its command

---
 extensions/provider/provider.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 446195b..41f79ea 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -374,6 +374,11 @@ func (r *Registry) New(name string, opts map[string]string) (any, error) {
 
 func (r *Registry) Execute(c context.Context) error {
 	return cli.Do(c, cli.Before(cli.ActionFunc(func(c1 *cli.Context) error {
+		if !c1.IsCommand() {
+			// Make available to the containing command, which is where the value and
+			// other flags look for it
+			c1 = c1.Parent()
+		}
 		Services(c1).registries[r.Name] = r
 		return nil
 	})))
-- 
2.43.0


From 0802b9715ec884219c6c0521daab9fe18eee926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:11 +0000
Subject: [PATCH 52/77] fix: apply and validate each argument set with a
 provider's argument flag

---
 extensions/provider/provider.go | 57 ++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 41f79ea..c057232 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -188,10 +188,12 @@ func (v *Value) ArgumentFlag() cli.Prototype {
 		Value: new(string),
 		Setup: cli.Setup{
 			Uses: cli.Pipeline(
-				cli.Bind(v.Set),
 				func(c *cli.Context) {
 					c.SetHelpText(fmt.Sprintf("Sets an argument for %s", c.Data()["DependentFlag"]))
 				},
+				cli.At(cli.ActionTiming, cli.ActionFunc(func(c *cli.Context) error {
+					return v.setArguments(c, fmt.Sprint(c.Data()["DependentFlag"]))
+				})),
 			),
 		},
 	}
@@ -225,7 +227,9 @@ func SetArgument(name string) cli.Action {
 		Value:    new(string),
 		HelpText: fmt.Sprintf("Sets an argument for %s", name),
 		Setup: cli.Setup{
-			Action: cli.BindIndirect(name, (*Value).Set),
+			Action: func(c *cli.Context) error {
+				return c.Value(name).(*Value).setArguments(c, name)
+			},
 		},
 	}
 }
@@ -268,19 +272,42 @@ func fallbackTemplate(c *cli.Context) error {
 
 // Set the text of the value.  Can be called successively to append.
 func (v *Value) Set(arg string) error {
-	if v.Args == nil {
-		v.Args = &map[string]string{}
-	}
 	if !v.setName {
 		args := strings.SplitN(arg, ",", 2)
 		v.Name = args[0]
 		v.setName = true
 
 		if len(args) == 1 {
+			v.ensureArgs()
 			return nil
 		}
 		arg = args[1]
 	}
+	return v.setArgument(arg)
+}
+
+func (v *Value) ensureArgs() {
+	if v.Args == nil {
+		v.Args = &map[string]string{}
+	}
+}
+
+// setArguments sets the arguments from each occurrence of the flag in the context
+func (v *Value) setArguments(c *cli.Context, provider string) error {
+	args := c.RawOccurrences("")
+	if len(args) <= 1 {
+		args = []string{c.String("")}
+	}
+	for _, arg := range args {
+		if err := v.setArgument(arg); err != nil {
+			return err
+		}
+	}
+	return v.validateArgs(c, provider)
+}
+
+func (v *Value) setArgument(arg string) error {
+	v.ensureArgs()
 
 	var args []string
 	if v.disableSplitting {
@@ -325,25 +352,31 @@ func (v *Value) Initializer() cli.Action {
 
 func validateProviderExists(c *cli.Context) error {
 	v := c.Value("").(*Value)
-	provider := strings.TrimLeft(c.Name(), "-")
+	provider := strings.Trim(c.Name(), "-<>")
 	registry := Services(c).Registry(provider)
-	if registry == nil {
+	if registry == nil || registry.AllowUnknown {
 		return nil
 	}
-	if registry.AllowUnknown {
+	if _, exists := registry.LookupProvider(v.Name); !exists {
+		return fmt.Errorf("unknown %q %s", v.Name, provider)
+	}
+	return v.validateArgs(c, provider)
+}
+
+func (v *Value) validateArgs(c *cli.Context, provider string) error {
+	registry := Services(c).Registry(provider)
+	if registry == nil || registry.AllowUnknown {
 		return nil
 	}
 	pro, exists := registry.LookupProvider(v.Name)
-	p := pro.Defaults
 	if !exists {
-		return fmt.Errorf("unknown %q %s", v.Name, provider)
+		return nil
 	}
 	for k := range v.rawArgs {
-		if _, exists := p[k]; !exists {
+		if _, exists := pro.Defaults[k]; !exists {
 			return fmt.Errorf("unknown argument %q for %q %s", k, v.Name, provider)
 		}
 	}
-
 	return nil
 }
 
-- 
2.43.0


From 4ab43bdfe602c6e5c070645e6c278a745cd42c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:13 +0000
Subject: [PATCH 53/77] fix: binding in the Action pipeline leaves the value as
 it was set

---
 action.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index c730e54..db8f607 100644
--- a/action.go
+++ b/action.go
@@ -699,13 +699,13 @@ func BindIndirect[T, V any](name any, bind func(*T, V) error, valopt ...V) Actio
 func bindThunk[T, V any](thunk func(context.Context) *T, bind func(*T, V) error, valopt ...V) Action {
 	switch len(valopt) {
 	case 0:
-		proto := &Prototype{Value: support.BindSupportedValue(new(V))}
+		proto := bindPrototype(support.BindSupportedValue(new(V)))
 		return Pipeline(proto, bindTiming(func(c context.Context) error {
 			return bind(thunk(c), c.Value("").(V))
 		}))
 
 	case 1:
-		proto := &Prototype{Value: new(bool)}
+		proto := bindPrototype(new(bool))
 		val := valopt[0]
 		return Pipeline(proto, bindTiming(func(c context.Context) error {
 			return bind(thunk(c), val)
@@ -715,6 +715,12 @@ func bindThunk[T, V any](thunk func(context.Context) *T, bind func(*T, V) error,
 	}
 }
 
+// bindPrototype sets up the value implied by the bind function. When it is too late to
+// do so, the value is left as is
+func bindPrototype(value any) Action {
+	return Setup{Optional: true, Uses: &Prototype{Value: value}}
+}
+
 func bindTiming(a actionFunc) Action {
 	return At(ActionTiming, a)
 }
-- 
2.43.0


From 75f9ebde388484b1bb8113b09e6f27c6078de107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:14 +0000
Subject: [PATCH 54/77] fix: a flag whose value is set up to be a bool doesn't
 need an argument

---
 action.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/action.go b/action.go
index db8f607..06c7c8c 100644
--- a/action.go
+++ b/action.go
@@ -1580,6 +1580,7 @@ func (p *Prototype) copyToFlag(c *Context) {
 	if p.Value != nil && (o.internalFlags().destinationImplicitlyCreated() || o.Value == nil) {
 		o.Value = p.Value
 		o.setInternalFlags(internalFlagDestinationImplicitlyCreated, false)
+		o.setInternalFlags(isFlagType(o.Value), true)
 	}
 	if o.Completion == nil {
 		o.Completion = p.Completion
-- 
2.43.0


From a17d562e498ba93e9144c400a8736c333149b0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:15 +0000
Subject: [PATCH 55/77] fix: a binder in an expression operator sets up the
 operand that it names

---
 context.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/context.go b/context.go
index 8bd66b4..823b4ea 100644
--- a/context.go
+++ b/context.go
@@ -446,6 +446,14 @@ func (c *Context) ContextOf(target any) *Context {
 		return c
 	}
 	if !c.IsCommand() {
+		// The args of a value target (such as the operands of an expression)
+		// are nearer than those of the command
+		switch target.(type) {
+		case int, string:
+			if a, _, ok := findArgByName(c.LocalArgs(), target); ok {
+				return c.newChild(a)
+			}
+		}
 		return c.Parent().ContextOf(target)
 	}
 	switch name := target.(type) {
-- 
2.43.0


From 202e83cd1fe58e3ed662859577b2ef2281553b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:17 +0000
Subject: [PATCH 56/77] fix: setting a value replaces the text that is there

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 823b4ea..8648deb 100644
--- a/context.go
+++ b/context.go
@@ -939,8 +939,8 @@ func (c *Context) SetValue(arg any) error {
 		}
 
 		c.target.setInternalFlags(internalFlagSeenImplied, true)
-		c.option().reset()
 	}
+	c.option().reset()
 	return c.target.(option).Set(arg)
 }
 
-- 
2.43.0


From 70e2c0e733675532e987e8d1282e049d36d7a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:17 +0000
Subject: [PATCH 57/77] fix: binders for net.IP and any by type

---
 extensions/bind/binder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/bind/binder.go b/extensions/bind/binder.go
index 84fbf26..9fcda08 100644
--- a/extensions/bind/binder.go
+++ b/extensions/bind/binder.go
@@ -503,7 +503,7 @@ func For[T any](nameopt ...any) Binder[T] {
 			return URL(nameopt...)
 		case *regexp.Regexp:
 			return Regexp(nameopt...)
-		case *net.IP:
+		case net.IP:
 			return IP(nameopt...)
 		case *big.Int:
 			return BigInt(nameopt...)
@@ -511,7 +511,7 @@ func For[T any](nameopt ...any) Binder[T] {
 			return BigFloat(nameopt...)
 		case []byte:
 			return Bytes(nameopt...)
-		case any:
+		case nil: // T is any
 			return Interface(nameopt...)
 		default:
 			panic(fmt.Sprintf("unexpected target type %T", t))
-- 
2.43.0


From 76a3492160c6d1b01ddb2f29f2df099413d2d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:28 +0000
Subject: [PATCH 58/77] fix: a file system that only opens files can also
 describe them

---
 file.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/file.go b/file.go
index 6689e26..c74c37a 100644
--- a/file.go
+++ b/file.go
@@ -549,14 +549,7 @@ func (f fsExtensionWrapper) MkdirAll(name string, mode fs.FileMode) error {
 }
 
 func (f fsExtensionWrapper) Stat(name string) (fs.FileInfo, error) {
-	if s, ok := f.FS.(fs.StatFS); ok {
-		return s.Stat(name)
-	}
-	return nil, &fs.PathError{
-		Op:   "stat",
-		Path: name,
-		Err:  errors.New("not supported"),
-	}
+	return fs.Stat(f.FS, name)
 }
 
 func (f fsExtensionWrapper) OpenContext(c context.Context, name string) (fs.File, error) {
-- 
2.43.0


From 20f6a85aa11c84db13d3dd778610c3dda6f00f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:30 +0000
Subject: [PATCH 59/77] fix: standard input that isn't a file can be described
 and visited

---
 file.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index c74c37a..3a74da6 100644
--- a/file.go
+++ b/file.go
@@ -98,6 +98,9 @@ type stdFile struct {
 	out io.Writer
 }
 
+// stdFileInfo describes standard input when it is not a file
+type stdFileInfo struct{}
+
 type defaultFS struct {
 	FS
 	std *stdFile
@@ -578,9 +581,16 @@ func (s *stdFile) Stat() (fs.FileInfo, error) {
 	if f, ok := s.in.(*os.File); ok {
 		return f.Stat()
 	}
-	return nil, nil
+	return stdFileInfo{}, nil
 }
 
+func (stdFileInfo) Name() string       { return "-" }
+func (stdFileInfo) Size() int64        { return 0 }
+func (stdFileInfo) Mode() fs.FileMode  { return fs.ModeNamedPipe | 0600 }
+func (stdFileInfo) ModTime() time.Time { return time.Time{} }
+func (stdFileInfo) IsDir() bool        { return false }
+func (stdFileInfo) Sys() any           { return nil }
+
 func (s *stdFile) Read(d []byte) (int, error) {
 	return s.in.Read(d)
 }
-- 
2.43.0


From da1c4c532849ec04ee4980d3383e790a6a71caa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:55 +0000
Subject: [PATCH 60/77] fix: open the standard files of an app when they aren't
 files of the system

---
 file.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/file.go b/file.go
index 3a74da6..b333c68 100644
--- a/file.go
+++ b/file.go
@@ -426,15 +426,19 @@ func (d defaultFS) OpenFile(name string, flag int, perm os.FileMode) (fs.File, e
 	if name == "-" && d.std != nil {
 		switch flag & readWriteMask {
 		case os.O_RDONLY:
-			return d.std.in.(*os.File), nil
+			if f, ok := d.std.in.(*os.File); ok {
+				return f, nil
+			}
+			return d.std, nil
 		case os.O_RDWR:
-			if (flag & (os.O_APPEND | os.O_CREATE)) > 0 {
-				return d.std.out.(*os.File), nil
+			if (flag & (os.O_APPEND | os.O_CREATE)) == 0 {
+				return nil, errors.New("open not supported: O_RDWR must be specified with O_APPEND or O_CREATE")
 			}
-			return nil, errors.New("open not supported: O_RDWR must be specified with O_APPEND or O_CREATE")
-		case os.O_WRONLY:
-			return d.std.out.(*os.File), nil
 		}
+		if f, ok := d.std.out.(*os.File); ok {
+			return f, nil
+		}
+		return d.std, nil
 	}
 	return d.FS.OpenFile(name, flag, perm)
 }
-- 
2.43.0


From 2440b9cb92f81aefe69b4f12a52c18dec77d8134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:57 +0000
Subject: [PATCH 61/77] fix: report that standard input can't seek instead of
 panicking

---
 file.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index b333c68..7e7403e 100644
--- a/file.go
+++ b/file.go
@@ -613,11 +613,25 @@ func (s *stdFile) Close() error {
 }
 
 func (s *stdFile) ReadAt(p []byte, off int64) (n int, err error) {
-	return s.in.(io.ReaderAt).ReadAt(p, off)
+	if r, ok := s.in.(io.ReaderAt); ok {
+		return r.ReadAt(p, off)
+	}
+	return 0, s.notSupported("readat")
 }
 
 func (s *stdFile) Seek(offset int64, whence int) (int64, error) {
-	return s.in.(io.Seeker).Seek(offset, whence)
+	if r, ok := s.in.(io.Seeker); ok {
+		return r.Seek(offset, whence)
+	}
+	return 0, s.notSupported("seek")
+}
+
+func (s *stdFile) notSupported(op string) error {
+	return &fs.PathError{
+		Op:   op,
+		Path: "-",
+		Err:  errors.New("not supported"),
+	}
 }
 
 func (s *stdFile) WriteString(str string) (n int, err error) {
-- 
2.43.0


From cda677a85cb9f531a4ac1e1f156787cc147b5cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:10 +0000
Subject: [PATCH 62/77] fix: detect whether the output of a writer is a
 terminal when color is set to auto

---
 usage.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/usage.go b/usage.go
index e4d9848..49e80f5 100644
--- a/usage.go
+++ b/usage.go
@@ -71,6 +71,7 @@ type Style = ansiterm.Style
 
 type stringHelper struct {
 	*ansiterm.Writer
+	base    io.Writer // where output goes, which determines whether color is detected
 	enabled bool
 }
 
@@ -152,10 +153,12 @@ func (c *Context) NewBuffer() *buffer {
 
 // NewWriter creates a new writer with support for color if TTY is detected
 func NewWriter(w io.Writer) Writer {
-	return &stringHelper{
-		Writer:  ansiterm.NewWriter(w),
-		enabled: colorEnabled(w),
+	res := &stringHelper{
+		Writer: ansiterm.NewWriter(w),
+		base:   w,
 	}
+	res.ResetColorCapable()
+	return res
 }
 
 // SetColor enables or disables color output on stdout.
@@ -566,7 +569,7 @@ func (w *stringHelper) WriteString(s string) (int, error) {
 }
 
 func (w *stringHelper) ResetColorCapable() {
-	w.SetColorCapable(colorEnabled(w.Writer))
+	w.SetColorCapable(colorEnabled(w.base))
 }
 
 func (w *stringHelper) ColorCapable() bool {
-- 
2.43.0


From 8174dd6bb6bbb6430c382a6be8b55fefa91a9fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:12 +0000
Subject: [PATCH 63/77] fix: buffers of a context have color when its own kind
 of standard output has

---
 usage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/usage.go b/usage.go
index 49e80f5..26de5b9 100644
--- a/usage.go
+++ b/usage.go
@@ -608,8 +608,8 @@ func (s *synopsisWrapper[T]) String() string {
 }
 
 func colorEnabled(w io.Writer) bool {
-	if s, ok := w.(*stringHelper); ok {
-		return s.enabled
+	if s, ok := w.(Writer); ok {
+		return s.ColorCapable()
 	}
 
 	f, ok := w.(*os.File)
-- 
2.43.0


From 3a8ee09322855bd276d4184efe4f350755716c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:12 +0000
Subject: [PATCH 64/77] fix: the Color template function accepts the Default
 color

---
 extensions/color/color_templates.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/color/color_templates.go b/extensions/color/color_templates.go
index a72c33c..1b188c6 100644
--- a/extensions/color/color_templates.go
+++ b/extensions/color/color_templates.go
@@ -136,8 +136,8 @@ func (t *templateContext) resetColor() func() string {
 }
 
 func (t *templateContext) setColor(color string, a ...any) (string, error) {
-	if _, ok := colorNames[color]; ok {
-		return t.funcs[color].(sprinter)(a...)
+	if f, ok := colorNames[color]; ok {
+		return t.sprintForegroundColor(f)(a...)
 	}
 	return "", fmt.Errorf("not valid color: %q", color)
 }
-- 
2.43.0


From 1a53b51d88016bf61bf8650cc058425979437361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:13 +0000
Subject: [PATCH 65/77] fix: emoji follow whether color is enabled when a
 template is executed

---
 extensions/color/color_templates.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/extensions/color/color_templates.go b/extensions/color/color_templates.go
index 1b188c6..4ed3272 100644
--- a/extensions/color/color_templates.go
+++ b/extensions/color/color_templates.go
@@ -10,8 +10,6 @@ import (
 type templateContext struct {
 	c     *cli.Context
 	funcs map[string]any
-
-	colorEnabledCache *bool
 }
 
 type sprinter = func(...any) (string, error)
@@ -211,10 +209,5 @@ func (t *templateContext) emoji(name string) (string, error) {
 }
 
 func (t *templateContext) colorEnabled() bool {
-	if t.colorEnabledCache == nil {
-		res := t.c.NewBuffer()
-		enabled := res.ColorCapable()
-		t.colorEnabledCache = &enabled
-	}
-	return *t.colorEnabledCache
+	return t.c.NewBuffer().ColorCapable()
 }
-- 
2.43.0


From 03e46529eb030998e1ba56eba9ecfb067fa0f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:38 +0000
Subject: [PATCH 66/77] fix: the value of a flag can be looked up by its
 aliases

---
 set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/set.go b/set.go
index 3e4931e..ad27d41 100644
--- a/set.go
+++ b/set.go
@@ -488,6 +488,9 @@ func (s *set) lookupValue(name string) (any, bool) {
 	if s.Binding == nil {
 		return nil, false
 	}
+	if actual, ok := s.Binding.ResolveAlias(name); ok {
+		name = actual
+	}
 	if _, _, g, ok := s.Binding.LookupOption(name); ok {
 		return g.(option).value(), true
 	}
-- 
2.43.0


From 0e054e0a53cda4141031b0b7d74f67d241ccaaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:05 +0000
Subject: [PATCH 67/77] fix: a prototype with data can be used by flags, args
 and commands without any

---
 action.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/action.go b/action.go
index 06c7c8c..785ca89 100644
--- a/action.go
+++ b/action.go
@@ -1531,7 +1531,7 @@ func (p *Prototype) copyToCommand(o *Command) {
 	}
 
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	o.Data = mergeData(o.Data, p.Data)
 	if o.Completion == nil {
 		o.Completion = p.Completion
 	}
@@ -1562,7 +1562,7 @@ func (p *Prototype) copyToArg(c *Context) {
 
 	o.EnvVars = append(o.EnvVars, p.EnvVars...)
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	o.Data = mergeData(o.Data, p.Data)
 }
 
 func (p *Prototype) copyToFlag(c *Context) {
@@ -1589,7 +1589,7 @@ func (p *Prototype) copyToFlag(c *Context) {
 	o.Aliases = append(o.Aliases, p.Aliases...)
 	o.EnvVars = append(o.EnvVars, p.EnvVars...)
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	o.Data = mergeData(o.Data, p.Data)
 }
 
 func (p *Prototype) copyToValue(c *Context) error {
@@ -1849,6 +1849,14 @@ func setData(data map[string]any, name string, v any) map[string]any {
 	return data
 }
 
+func mergeData(data, others map[string]any) map[string]any {
+	if data == nil {
+		return maps.Clone(others)
+	}
+	maps.Copy(data, others)
+	return data
+}
+
 // actions provides a pipeline without flattening
 func actions(actions ...Action) ActionPipeline {
 	return ActionPipeline(actions)
-- 
2.43.0


From 963d7c825a9d141b96ecf37e5c57002c1b3ca647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:05 +0000
Subject: [PATCH 68/77] fix: a prototype keeps the texts and aliases of a value
 which it does not specify

---
 action.go | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/action.go b/action.go
index 785ca89..9626893 100644
--- a/action.go
+++ b/action.go
@@ -1504,22 +1504,22 @@ func (p Prototype) Use(action Action) Prototype {
 
 func (p *Prototype) copyCommonToTarget(c *Context) error {
 	o := c.target
-	if o.category() == "" {
+	if o.category() == "" && p.Category != "" {
 		o.setCategory(p.Category)
 	}
-	if o.helpText() == "" {
+	if o.helpText() == "" && p.HelpText != "" {
 		o.setHelpText(p.HelpText)
 	}
-	if o.manualText() == "" {
+	if o.manualText() == "" && p.ManualText != "" {
 		o.setManualText(p.ManualText)
 	}
-	if o.usageText() == "" {
+	if o.usageText() == "" && p.UsageText != "" {
 		o.setUsageText(p.UsageText)
 	}
-	if o.description() == "" || o.description() == nil {
+	if p.Description != nil && (o.description() == "" || o.description() == nil) {
 		o.setDescription(p.Description)
 	}
-	if o.defaultText() == "" {
+	if o.defaultText() == "" && p.DefaultText != "" {
 		o.setDefaultText(p.DefaultText)
 	}
 	return nil
@@ -1598,25 +1598,12 @@ func (p *Prototype) copyToValue(c *Context) error {
 		return nil
 	}
 
-	if o.category() == "" {
-		o.setCategory(p.Category)
-	}
-	if o.helpText() == "" {
-		o.setHelpText(p.HelpText)
-	}
-	if o.manualText() == "" {
-		o.setManualText(p.ManualText)
-	}
-	if o.usageText() == "" {
-		o.setUsageText(p.UsageText)
-	}
-	if o.description() == "" || o.description() == nil {
-		o.setDescription(p.Description)
-	}
 	for k, v := range p.Data {
 		o.SetData(k, v)
 	}
-	o.setAliases(p.Aliases)
+	if len(p.Aliases) > 0 {
+		o.setAliases(p.Aliases)
+	}
 	p.Options.Execute(c)
 	return nil
 }
-- 
2.43.0


From 6761f00ebad6bf3331189bb3ac520fd6e68f6e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:05 +0000
Subject: [PATCH 69/77] fix: a value can be renamed by the action that sets its
 name

---
 context.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 8648deb..a693dc0 100644
--- a/context.go
+++ b/context.go
@@ -887,8 +887,10 @@ func (c *Context) SetName(name string) error {
 		o.Name = name
 	case *Command:
 		o.Name = name
-	case interface{ SetName(string) }:
-		o.SetName(name)
+	case *valueTarget:
+		if val, ok := o.v.(interface{ SetName(string) }); ok {
+			val.SetName(name)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 3ee1ef257c3da6b4b8d88d76326b7f4f9ac7c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:23 +0000
Subject: [PATCH 70/77] fix: ValueTransform keeps the escapes in names and
 texts

---
 action.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index 9626893..22784fd 100644
--- a/action.go
+++ b/action.go
@@ -1240,13 +1240,23 @@ func ValueTransform(valueFn TransformFunc) Action {
 			if err != nil {
 				return nil, err
 			}
-			return name + "=" + txt, nil
+			return escapePairName(name) + "=" + escapePairText(txt), nil
 		}
 
-		return name, nil
+		return escapePairName(name), nil
 	})
 }
 
+// escapePairText protects the escape sequences in text, which are interpreted
+// when the name-value pair is set
+func escapePairText(s string) string {
+	return strings.NewReplacer(`\,`, `\\,`, `\=`, `\\=`).Replace(s)
+}
+
+func escapePairName(s string) string {
+	return strings.NewReplacer(`\,`, `\\,`, `=`, `\=`).Replace(s)
+}
+
 func transformOutputToString(v any) (string, error) {
 	switch val := v.(type) {
 	case string:
-- 
2.43.0


From 09d71ddad369c7537aaca94c1c4f40a0cf575cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:23 +0000
Subject: [PATCH 71/77] fix: structured values: replace lists, set pointers
 again, and keep the conversions with options

---
 extensions/structure/structure.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/extensions/structure/structure.go b/extensions/structure/structure.go
index 99602f4..4d85ad3 100644
--- a/extensions/structure/structure.go
+++ b/extensions/structure/structure.go
@@ -75,6 +75,9 @@ func Decode(input, output any, opts ...DecoderOption) error {
 
 // WithOptions applies additional options.
 func (v *Value) WithOptions(options ...DecoderOption) *Value {
+	if v.Options == nil {
+		v.Options = viableOptions()
+	}
 	v.Options = append(v.Options, options...)
 	return v
 }
@@ -123,6 +126,7 @@ func viableOptions() []DecoderOption {
 			m.DecodeHook = mapstructure.ComposeDecodeHookFunc(
 				mapstructure.StringToIPHookFunc(),
 				mapstructure.StringToIPNetHookFunc(),
+				mapstructure.DecodeHookFunc(listHook),
 				mapstructure.StringToSliceHookFunc(","),
 				mapstructure.StringToTimeDurationHookFunc(),
 				mapstructure.DecodeHookFunc(urlHook),
@@ -134,8 +138,18 @@ func viableOptions() []DecoderOption {
 	}
 }
 
+// listHook clears the list that is replaced, or else the new items are stored on top of
+// the first ones in it and any others remain
+func listHook(from, to reflect.Value) (any, error) {
+	if from.Kind() == reflect.String && to.Kind() == reflect.Slice && to.CanSet() {
+		to.SetZero()
+	}
+	return from.Interface(), nil
+}
+
 func urlHook(from, to reflect.Type, data any) (any, error) {
-	if from.Kind() != reflect.String || to != urlType {
+	// A pointer that isn't nil is decoded into what it points to
+	if from.Kind() != reflect.String || (to != urlType && to != urlType.Elem()) {
 		return data, nil
 	}
 	return url.Parse(data.(string))
@@ -147,9 +161,16 @@ func valueHook(from, to reflect.Value) (any, error) {
 	}
 
 	if !to.Type().Implements(valueType) {
-		return from.Interface(), nil
+		// A pointer that isn't nil is decoded into what it points to
+		if !to.CanAddr() || !to.Addr().Type().Implements(valueType) {
+			return from.Interface(), nil
+		}
+		to = to.Addr()
 	}
 
+	if to.Kind() == reflect.Pointer && to.IsNil() {
+		to = reflect.New(to.Type().Elem())
+	}
 	result := to.Interface()
 	err := result.(cli.Value).Set(from.String())
 	return result, err
-- 
2.43.0


From f630497d992ab66e29c31b6cdaa516078ff45568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:16 +0000
Subject: [PATCH 72/77] fix: arguments can be looked up by rune, as documented

---
 context.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/context.go b/context.go
index a693dc0..59e9aaf 100644
--- a/context.go
+++ b/context.go
@@ -551,6 +551,8 @@ func (c *Context) LookupArg(name any) (*Arg, bool) {
 		if a, _, found := findArgByName(c.LocalArgs(), v); found {
 			return a, true
 		}
+	case rune:
+		return c.LookupArg(string(v))
 	case *Arg:
 		return v, v != nil
 	default:
-- 
2.43.0


From f2216e1a40c7668d38f5807c56125252ab2a31d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:16 +0000
Subject: [PATCH 73/77] fix: SortedFlags and SortedCommands also sort in the
 help of a sub-command

---
 command.go |  8 ++++++++
 option.go  | 21 ++++++++++++++-------
 usage.go   | 13 +++++++++++++
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/command.go b/command.go
index 7ced3b0..2072bc3 100644
--- a/command.go
+++ b/command.go
@@ -346,6 +346,14 @@ func (c *Command) Names() []string {
 	return append([]string{c.Name}, c.Aliases...)
 }
 
+func (c *Command) sortFlags() {
+	slices.SortFunc(c.Flags, flagsByNameOrder)
+}
+
+func (c *Command) sortSubcommands() {
+	slices.SortFunc(c.Subcommands, commandsByNameOrder)
+}
+
 // Use appends actions to Uses pipeline
 func (c *Command) Use(action Action) *Command {
 	c.Uses = Pipeline(c.Uses).Append(action)
diff --git a/option.go b/option.go
index a014969..6b449b4 100644
--- a/option.go
+++ b/option.go
@@ -5,7 +5,6 @@ import (
 	"encoding"
 	"fmt"
 	"os"
-	"slices"
 	"strings"
 )
 
@@ -222,6 +221,8 @@ const (
 	internalFlagDisableAutoVisibility
 	internalFlagVisibleExplicitlyRequested
 	internalFlagTriggerRequested
+	internalFlagSortedFlags
+	internalFlagSortedCommands
 )
 
 var (
@@ -245,8 +246,8 @@ var (
 		EachOccurrence:         ActionFunc(eachOccurrenceOpt),
 		AllowFileReference:     actionFunc(allowFileReferenceOpt),
 		FileReference:          actionFunc(fileReferenceOpt),
-		SortedFlags:            Before(ActionFunc(sortedFlagsOpt)),
-		SortedCommands:         Before(ActionFunc(sortedCommandsOpt)),
+		SortedFlags:            Pipeline(setInternalFlag(internalFlagSortedFlags), Before(ActionFunc(sortedFlagsOpt))),
+		SortedCommands:         Pipeline(setInternalFlag(internalFlagSortedCommands), Before(ActionFunc(sortedCommandsOpt))),
 		SortedExprs:            Before(ActionFunc(sortedExprsOpt)),
 		ImpliedAction:          setInternalFlag(internalFlagImpliedAction),
 		Trigger:                setInternalFlag(internalFlagTriggerRequested),
@@ -373,6 +374,14 @@ func (f internalFlags) rightToLeft() bool {
 	return f&internalFlagRightToLeft == internalFlagRightToLeft
 }
 
+func (f internalFlags) sortedFlags() bool {
+	return f&internalFlagSortedFlags == internalFlagSortedFlags
+}
+
+func (f internalFlags) sortedCommands() bool {
+	return f&internalFlagSortedCommands == internalFlagSortedCommands
+}
+
 func (f internalFlags) flagOnly() bool {
 	return f&internalFlagFlagOnly == internalFlagFlagOnly
 }
@@ -615,14 +624,12 @@ func fileReferenceOpt(c context.Context) error {
 }
 
 func sortedFlagsOpt(c *Context) error {
-	cmd := c.Command()
-	slices.SortFunc(cmd.Flags, flagsByNameOrder)
+	c.Command().sortFlags()
 	return nil
 }
 
 func sortedCommandsOpt(c *Context) error {
-	cmd := c.Command()
-	slices.SortFunc(cmd.Subcommands, commandsByNameOrder)
+	c.Command().sortSubcommands()
 	return nil
 }
 
diff --git a/usage.go b/usage.go
index 26de5b9..7517688 100644
--- a/usage.go
+++ b/usage.go
@@ -223,6 +223,19 @@ func displayHelpScreen(command []string) Action {
 		// wrapper
 		usageColor = c.Stdout.ColorCapable()
 
+		// These commands could be named by the help command rather than run, so
+		// their options don't get the opportunity to sort them
+		for _, l := range ctxt.Lineage() {
+			if cmd, ok := l.target.(*Command); ok {
+				if cmd.internalFlags().sortedFlags() {
+					cmd.sortFlags()
+				}
+				if cmd.internalFlags().sortedCommands() {
+					cmd.sortSubcommands()
+				}
+			}
+		}
+
 		current := ctxt.Command()
 		persistentFlags := filterInVisibleFlags(ctxt.PersistentFlags())
 
-- 
2.43.0


From 45ea7dda1775b4bc08a7b821578658911985c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:16 +0000
Subject: [PATCH 74/77] fix: features with several bits are taken in the same
 order every time, and FilterModes can be read back

---
 filter.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/filter.go b/filter.go
index 66095f3..2abe8ee 100644
--- a/filter.go
+++ b/filter.go
@@ -96,9 +96,9 @@ func (f FilterModes) Matches(ctx context.Context) bool {
 	return true
 }
 
-// String produces a textual representation of the timing
+// String produces a textual representation of the filter modes
 func (f FilterModes) String() string {
-	return filterModeLabels[f][1]
+	return f.join(1, ", ")
 }
 
 // MarshalText provides the textual representation
@@ -108,19 +108,32 @@ func (f FilterModes) MarshalText() ([]byte, error) {
 
 // UnmarshalText converts the textual representation
 func (f *FilterModes) UnmarshalText(b []byte) error {
-	token := strings.TrimSpace(string(b))
-	for k, y := range filterModeLabels {
-		if token == y[1] {
-			*f = k
-			return nil
+	var res FilterModes
+	for _, s := range strings.Split(string(b), ",") {
+		token := strings.TrimSpace(s)
+		for k, y := range filterModeLabels {
+			if token == y[1] {
+				res |= k
+			}
 		}
 	}
+	if res != 0 {
+		*f = res
+	}
 	return nil
 }
 
-// Describe produces a representation of the timing suitable for use in messages
+// Describe produces a representation of the filter modes suitable for use in messages
 func (f FilterModes) Describe() string {
-	return filterModeLabels[f][0]
+	return f.join(0, " and ")
+}
+
+func (f FilterModes) join(index int, sep string) string {
+	var res []string
+	for _, label := range decompose(filterModeLabels).items(f) {
+		res = append(res, label[index])
+	}
+	return strings.Join(res, sep)
 }
 
 func (f ContextFilterFunc) Matches(c context.Context) bool {
@@ -139,8 +152,9 @@ func decompose[T ~int, V any](m map[T]V) *bitSet[T, V] {
 		i++
 	}
 	sort.Slice(keys, func(i, j int) bool {
-		if bits.OnesCount(keys[i]) > bits.OnesCount(keys[j]) {
-			return true
+		x, y := bits.OnesCount(keys[i]), bits.OnesCount(keys[j])
+		if x != y {
+			return x > y
 		}
 		return keys[i] > keys[j]
 	})
-- 
2.43.0


From 882b17d65aea5675e9985cdec6ae5b75b3386ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:16 +0000
Subject: [PATCH 75/77] fix: a command in an expression was added to again each
 time an item was evaluated

---
 extensions/exec/arglist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extensions/exec/arglist.go b/extensions/exec/arglist.go
index acaf3d0..32c2124 100644
--- a/extensions/exec/arglist.go
+++ b/extensions/exec/arglist.go
@@ -23,6 +23,11 @@ func (l *ArgList) Set(arg string) error {
 	return nil
 }
 
+// Reset removes the items which were added
+func (l *ArgList) Reset() {
+	*l = nil
+}
+
 func (l *ArgList) String() string {
 	args, delim := l.split() // could have implied ;
 	return strings.Join(append(args, delim), " ")
-- 
2.43.0


From a3c05d821c35200f21509abefd0049b771bef2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:17 +0000
Subject: [PATCH 76/77] fix: an error of an operand's own arg counter caused a
 panic

---
 extensions/expr/expr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 7d87aaa..33fdb64 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -804,7 +804,11 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 
 		var pe *cli.ParseError
 		if err != nil {
-			pe = err.(*cli.ParseError)
+			var ok bool
+			if pe, ok = err.(*cli.ParseError); !ok {
+				// The arg counter of a value can provide any error
+				return nil, nil, err
+			}
 
 			switch pe.Code {
 			case cli.UnexpectedArgument:
-- 
2.43.0


From cea6061bf13c0d3ac04b8308f73375f0580d39f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:17 +0000
Subject: [PATCH 77/77] fix: byte lengths are read exactly, and texts with
 anything else are rejected

---
 value/value.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/value/value.go b/value/value.go
index d2ef4ea..f15a0c7 100644
--- a/value/value.go
+++ b/value/value.go
@@ -6,7 +6,6 @@ import (
 	"flag"
 	"fmt"
 	"io"
-	"math"
 	"math/big"
 	"net"
 	"net/url"
@@ -42,7 +41,7 @@ func JSON(v any) flag.Getter {
 }
 
 var (
-	byteLengthPat = regexp.MustCompile(`([0-9.]+)\s*([kKMGTPEZYRQ]i?)?B`)
+	byteLengthPat = regexp.MustCompile(`^([0-9.]+)\s*([kKMGTPEZYRQ]i?)?B$`)
 	magnitude     = map[string]int{
 		"":  0,
 		"k": 1,
@@ -74,13 +73,22 @@ func ParseByteLength(s string) (int, error) {
 		return strconv.Atoi(string(sub[1]))
 	}
 
-	num, _ := strconv.ParseFloat(string(sub[1]), 64)
-	var base float64 = 1000
+	num, ok := new(big.Rat).SetString(string(sub[1]))
+	if !ok {
+		return -1, fmt.Errorf("invalid byte length")
+	}
+	var base int64 = 1000
 	if strings.HasSuffix(string(sub[2]), "i") {
 		base = 1024
 	}
 	magnitude := magnitude[string(sub[2][0])]
-	return int(num * math.Pow(base, float64(magnitude))), nil
+	scale := new(big.Int).Exp(big.NewInt(base), big.NewInt(int64(magnitude)), nil)
+	num.Mul(num, new(big.Rat).SetInt(scale))
+	if res := new(big.Int).Quo(num.Num(), num.Denom()); res.IsInt64() {
+		return int(res.Int64()), nil
+	}
+	over, _ := num.Float64()
+	return int(over), nil
 }
 
 func (b *ByteLength) UnmarshalText(data []byte) error {
-- 
2.43.0

