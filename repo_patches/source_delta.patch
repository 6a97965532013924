From 67fe168342c11b1c557b674cf7ee93de3ac0006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 01/68] fix: recognise import paths written as raw string
 literals

---
 import_tracker.go  | 2 +-
 rules/blocklist.go | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/import_tracker.go b/import_tracker.go
index 0d9ebfe..0d2a01d 100644
--- a/import_tracker.go
+++ b/import_tracker.go
@@ -52,7 +52,7 @@ func (t *ImportTracker) TrackPackages(pkgs ...*types.Package) {
 
 // TrackImport tracks imports.
 func (t *ImportTracker) TrackImport(imported *ast.ImportSpec) {
-	importPath := strings.Trim(imported.Path.Value, `"`)
+	importPath := strings.Trim(imported.Path.Value, "\"`")
 	if imported.Name != nil {
 		if imported.Name.Name != "_" {
 			// Aliased import
diff --git a/rules/blocklist.go b/rules/blocklist.go
index a4376b1..f277a22 100644
--- a/rules/blocklist.go
+++ b/rules/blocklist.go
@@ -16,6 +16,7 @@ package rules
 
 import (
 	"go/ast"
+	"strconv"
 	"strings"
 
 	"github.com/securego/gosec/v2"
@@ -29,8 +30,11 @@ type blocklistedImport struct {
 
 func unquote(original string) string {
 	cleaned := strings.TrimSpace(original)
-	cleaned = strings.TrimLeft(cleaned, `"`)
-	return strings.TrimRight(cleaned, `"`)
+	// An import path can be either an interpreted or a raw string literal.
+	if path, err := strconv.Unquote(cleaned); err == nil {
+		return path
+	}
+	return strings.Trim(cleaned, "\"`")
 }
 
 func (r *blocklistedImport) ID() string {
-- 
2.43.0


From 407dbdbbcf5182471f758dff284f6f129012219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 02/68] fix: do not index missing call arguments when scanning
 code that does not type-check

---
 rules/decompression-bomb.go | 3 +++
 rules/fileperms.go          | 3 +++
 rules/integer_overflow.go   | 2 +-
 rules/rsa.go                | 3 +++
 rules/sql.go                | 3 +++
 rules/subproc.go            | 2 +-
 rules/tempfiles.go          | 4 ++--
 7 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index 7e57f1a..c92de29 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -70,6 +70,9 @@ func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issu
 		}
 	case *ast.CallExpr:
 		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil {
+			if len(n.Args) < 2 {
+				return nil, nil
+			}
 			if idt, ok := n.Args[1].(*ast.Ident); ok {
 				if _, ok := readerVarObj[idt.Obj]; ok {
 					// Detect io.Copy(x, r)
diff --git a/rules/fileperms.go b/rules/fileperms.go
index bf2a959..d841553 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -60,6 +60,9 @@ func modeIsSubset(subset int64, superset int64) bool {
 func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	for _, pkg := range r.pkgs {
 		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched {
+			if len(callexpr.Args) == 0 {
+				return nil, nil
+			}
 			modeArg := callexpr.Args[len(callexpr.Args)-1]
 			if mode, err := gosec.GetInt(modeArg); err == nil && !modeIsSubset(mode, r.mode) || isOsPerm(modeArg) {
 				return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
diff --git a/rules/integer_overflow.go b/rules/integer_overflow.go
index 1d57906..bf3a782 100644
--- a/rules/integer_overflow.go
+++ b/rules/integer_overflow.go
@@ -60,7 +60,7 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 		}
 	case *ast.CallExpr:
 		if fun, ok := n.Fun.(*ast.Ident); ok {
-			if fun.Name == "int32" || fun.Name == "int16" {
+			if (fun.Name == "int32" || fun.Name == "int16") && len(n.Args) > 0 {
 				if idt, ok := n.Args[0].(*ast.Ident); ok {
 					if _, ok := atoiVarObj[idt.Obj]; ok {
 						// Detect int32(v) and int16(v)
diff --git a/rules/rsa.go b/rules/rsa.go
index 331e7fc..f93f4d0 100644
--- a/rules/rsa.go
+++ b/rules/rsa.go
@@ -34,6 +34,9 @@ func (w *weakKeyStrength) ID() string {
 
 func (w *weakKeyStrength) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil {
+		if len(callExpr.Args) < 2 {
+			return nil, nil
+		}
 		if bits, err := gosec.GetInt(callExpr.Args[1]); err == nil && bits < (int64)(w.bits) {
 			return c.NewIssue(n, w.ID(), w.What, w.Severity, w.Confidence), nil
 		}
diff --git a/rules/sql.go b/rules/sql.go
index 61222bf..fc090a3 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -291,6 +291,9 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 		if sel, ok := node.Fun.(*ast.SelectorExpr); ok {
 			if sel.Sel.Name == "Fprintf" {
 				// if os.Stderr or os.Stdout is in Arg[0], mark as no issue
+				if len(node.Args) < 2 {
+					return nil
+				}
 				if arg, ok := node.Args[0].(*ast.SelectorExpr); ok {
 					if ident, ok := arg.X.(*ast.Ident); ok {
 						if s.noIssue.Contains(ident.Name, arg.Sel.Name) {
diff --git a/rules/subproc.go b/rules/subproc.go
index 1e2ceda..1686319 100644
--- a/rules/subproc.go
+++ b/rules/subproc.go
@@ -43,7 +43,7 @@ func (r *subprocess) ID() string {
 func (r *subprocess) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if node := r.ContainsPkgCallExpr(n, c, false); node != nil {
 		args := node.Args
-		if r.isContext(n, c) {
+		if r.isContext(n, c) && len(args) > 0 {
 			args = args[1:]
 		}
 		for _, arg := range args {
diff --git a/rules/tempfiles.go b/rules/tempfiles.go
index 6fef52a..29f5bab 100644
--- a/rules/tempfiles.go
+++ b/rules/tempfiles.go
@@ -50,14 +50,14 @@ func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.
 		}
 		return nil
 	}
-	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil {
+	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil && len(ce.Args) > 0 {
 		return t.findTempDirArgs(n, c, ce.Args[0])
 	}
 	return nil
 }
 
 func (t *badTempFile) Match(n ast.Node, c *gosec.Context) (gi *issue.Issue, err error) {
-	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil {
+	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil && len(node.Args) > 0 {
 		return t.findTempDirArgs(n, c, node.Args[0]), nil
 	}
 	return nil, nil
-- 
2.43.0


From a1f9364f8f4e370cc060e6a34e3c0bce922deaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 03/68] fix: resolve identifiers in linear time and stop at
 initialization cycles

---
 resolve.go | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/resolve.go b/resolve.go
index a201b8d..24e9627 100644
--- a/resolve.go
+++ b/resolve.go
@@ -16,54 +16,59 @@ package gosec
 
 import "go/ast"
 
-func resolveIdent(n *ast.Ident, c *Context) bool {
+func resolveIdent(n *ast.Ident, c *Context, seen map[*ast.Object]bool) bool {
 	if n.Obj == nil || n.Obj.Kind != ast.Var {
 		return true
 	}
+	if result, ok := seen[n.Obj]; ok {
+		return result
+	}
+	// An object met again while it is being resolved is part of an initialization cycle
+	seen[n.Obj] = false
 	if node, ok := n.Obj.Decl.(ast.Node); ok {
-		return TryResolve(node, c)
+		seen[n.Obj] = tryResolve(node, c, seen)
 	}
-	return false
+	return seen[n.Obj]
 }
 
-func resolveValueSpec(n *ast.ValueSpec, c *Context) bool {
+func resolveValueSpec(n *ast.ValueSpec, c *Context, seen map[*ast.Object]bool) bool {
 	if len(n.Values) == 0 {
 		return false
 	}
 	for _, value := range n.Values {
-		if !TryResolve(value, c) {
+		if !tryResolve(value, c, seen) {
 			return false
 		}
 	}
 	return true
 }
 
-func resolveAssign(n *ast.AssignStmt, c *Context) bool {
+func resolveAssign(n *ast.AssignStmt, c *Context, seen map[*ast.Object]bool) bool {
 	if len(n.Rhs) == 0 {
 		return false
 	}
 	for _, arg := range n.Rhs {
-		if !TryResolve(arg, c) {
+		if !tryResolve(arg, c, seen) {
 			return false
 		}
 	}
 	return true
 }
 
-func resolveCompLit(n *ast.CompositeLit, c *Context) bool {
+func resolveCompLit(n *ast.CompositeLit, c *Context, seen map[*ast.Object]bool) bool {
 	if len(n.Elts) == 0 {
 		return false
 	}
 	for _, arg := range n.Elts {
-		if !TryResolve(arg, c) {
+		if !tryResolve(arg, c, seen) {
 			return false
 		}
 	}
 	return true
 }
 
-func resolveBinExpr(n *ast.BinaryExpr, c *Context) bool {
-	return (TryResolve(n.X, c) && TryResolve(n.Y, c))
+func resolveBinExpr(n *ast.BinaryExpr, c *Context, seen map[*ast.Object]bool) bool {
+	return (tryResolve(n.X, c, seen) && tryResolve(n.Y, c, seen))
 }
 
 func resolveCallExpr(_ *ast.CallExpr, _ *Context) bool {
@@ -75,21 +80,25 @@ func resolveCallExpr(_ *ast.CallExpr, _ *Context) bool {
 // all values contained within to a known constant. It is used to check for any
 // unknown values in compound expressions.
 func TryResolve(n ast.Node, c *Context) bool {
+	return tryResolve(n, c, make(map[*ast.Object]bool))
+}
+
+func tryResolve(n ast.Node, c *Context, seen map[*ast.Object]bool) bool {
 	switch node := n.(type) {
 	case *ast.BasicLit:
 		return true
 	case *ast.CompositeLit:
-		return resolveCompLit(node, c)
+		return resolveCompLit(node, c, seen)
 	case *ast.Ident:
-		return resolveIdent(node, c)
+		return resolveIdent(node, c, seen)
 	case *ast.ValueSpec:
-		return resolveValueSpec(node, c)
+		return resolveValueSpec(node, c, seen)
 	case *ast.AssignStmt:
-		return resolveAssign(node, c)
+		return resolveAssign(node, c, seen)
 	case *ast.CallExpr:
 		return resolveCallExpr(node, c)
 	case *ast.BinaryExpr:
-		return resolveBinExpr(node, c)
+		return resolveBinExpr(node, c, seen)
 	}
 	return false
 }
-- 
2.43.0


From 5ddb52629cad07521619d575799cfc3b5b251fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 04/68] fix: judge each tls.Config on its own versions and
 tolerate unresolvable MinVersion identifiers

---
 rules/tls.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 65a0b5a..2b5ba40 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -118,20 +118,15 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 						}
 					}
 				}
+				if obj == nil {
+					return nil
+				}
 				if vs, ok := obj.Decl.(*ast.ValueSpec); ok && len(vs.Values) > 0 {
 					if s, ok := vs.Values[0].(*ast.SelectorExpr); ok {
-						x := s.X.(*ast.Ident).Name
-						sel := s.Sel.Name
-
-						for _, imp := range c.Pkg.Imports() {
-							if imp.Name() == x {
-								tObj := imp.Scope().Lookup(sel)
-								if cst, ok := tObj.(*types.Const); ok {
-									// ..got the value check if this can be translated
-									if minVersion, err := strconv.ParseInt(cst.Val().String(), 0, 64); err == nil {
-										t.actualMinVersion = minVersion
-									}
-								}
+						if cst, ok := c.Info.ObjectOf(s.Sel).(*types.Const); ok {
+							// ..got the value check if this can be translated
+							if minVersion, err := strconv.ParseInt(cst.Val().String(), 0, 64); err == nil {
+								t.actualMinVersion = minVersion
 							}
 						}
 					}
@@ -212,15 +207,15 @@ func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, e
 	if complit, ok := n.(*ast.CompositeLit); ok && complit.Type != nil {
 		actualType := c.Info.TypeOf(complit.Type)
 		if actualType != nil && actualType.String() == t.requiredType {
+			// The versions of other configurations say nothing about this one
+			t.resetVersion()
 			for _, elt := range complit.Elts {
 				issue := t.processTLSConf(elt, c)
 				if issue != nil {
 					return issue, nil
 				}
 			}
-			issue := t.checkVersion(complit, c)
-			t.resetVersion()
-			return issue, nil
+			return t.checkVersion(complit, c), nil
 		}
 	} else {
 		if assign, ok := n.(*ast.AssignStmt); ok && len(assign.Lhs) > 0 {
-- 
2.43.0


From b881c2fffb85afecfebdf3d241e853fbda9b8a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 05/68] fix: follow a nonce parameter once so that recursive
 functions do not recurse forever (G407)

---
 analyzers/hardcoded_nonce.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index c9c5395..efae842 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -63,7 +63,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 		if arg == nil {
 			continue
 		}
-		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "")
+		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "", make(map[*ssa.Parameter]bool))
 		if err != nil {
 			return issues, fmt.Errorf("raising issue error: %w", err)
 		}
@@ -73,7 +73,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 }
 
 func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Function,
-	pass *analysis.Pass, issueDescription string,
+	pass *analysis.Pass, issueDescription string, visitedParams map[*ssa.Parameter]bool,
 ) ([]*issue.Issue, error) {
 	if issueDescription == "" {
 		issueDescription = defaultIssueDescription
@@ -124,7 +124,9 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 		// }
 		// save parameter position, by checking the name of the variable used in
 		// tracked functions and comparing it with the name of the arg
-		if valType.Parent() != nil {
+		// A parameter is followed only once, since the functions passing it on might be recursive.
+		if valType.Parent() != nil && !visitedParams[valType] {
+			visitedParams[valType] = true
 			trackedFunctions := make(map[string][]int)
 			for index, funcArgs := range valType.Parent().Params {
 				if funcArgs.Name() == valType.Name() && funcArgs.Type() == valType.Type() {
@@ -139,7 +141,7 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 				if arg == nil {
 					continue
 				}
-				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription)
+				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription, visitedParams)
 				allIssues = append(allIssues, issues...)
 			}
 		}
-- 
2.43.0


From 943e6a3f44c3c3fb4914127edde94ec43d044afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 06/68] fix: do not build SSA for packages with type errors,
 its builder can exhaust the stack

---
 analyzer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 34ac82b..8187f58 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -411,6 +411,15 @@ func (gosec *Analyzer) CheckRules(pkg *packages.Package) {
 
 // CheckAnalyzers runs analyzers on a given package.
 func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
+	// The SSA representation is defined for well-typed packages only. Its builder might even exhaust
+	// the stack on ill-typed code, from which there is no way to recover.
+	for _, typeErr := range pkg.TypeErrors {
+		if !typeErr.Soft {
+			gosec.logger.Printf("Skipping the SSA analyzers, the package %q has type errors: %s", pkg.Name, typeErr)
+			return
+		}
+	}
+
 	ssaResult, err := gosec.buildSSA(pkg)
 	if err != nil || ssaResult == nil {
 		gosec.logger.Printf("Error building the SSA representation of the package %q: %s", pkg.Name, err)
-- 
2.43.0


From 2fe26db9f2846535a91209e149040c3f70eab74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 07/68] fix: track nonce arguments by identity, constants have
 no parent function (G407)

---
 analyzers/hardcoded_nonce.go | 47 ++++++++++++++----------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index efae842..aaf7aa2 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -60,10 +60,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 	}
 	var issues []*issue.Issue
 	for _, arg := range args {
-		if arg == nil {
-			continue
-		}
-		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "", make(map[*ssa.Parameter]bool))
+		i, err := raiseIssue(arg, calls, ssaPkgFunctions, pass, "", make(map[*ssa.Parameter]bool))
 		if err != nil {
 			return issues, fmt.Errorf("raising issue error: %w", err)
 		}
@@ -138,10 +135,7 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 			issueDescription += " by passing a parameter to a function and"
 			// recursively backtrack to where the origin of a variable passed to multiple functions is
 			for _, arg := range args {
-				if arg == nil {
-					continue
-				}
-				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription, visitedParams)
+				issues, err = raiseIssue(arg, trackedFunctions, ssaFuncs, pass, issueDescription, visitedParams)
 				allIssues = append(allIssues, issues...)
 			}
 		}
@@ -198,30 +192,28 @@ func isFuncContainsCryptoRand(funcCall *ssa.Function) (bool, error) {
 	return false, nil
 }
 
-func addToVarsMap(value ssa.Value, mapToAddTo map[string]*ssa.Value) {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
-	mapToAddTo[key] = &value
-}
-
-func isContainedInMap(value ssa.Value, mapToCheck map[string]*ssa.Value) bool {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
-	_, contained := mapToCheck[key]
-	return contained
-}
-
-func getArgsFromTrackedFunctions(ssaFuncs []*ssa.Function, trackedFunc map[string][]int) map[string]*ssa.Value {
-	values := make(map[string]*ssa.Value)
+// getArgsFromTrackedFunctions returns the tracked arguments of all calls, each one once and in source order.
+func getArgsFromTrackedFunctions(ssaFuncs []*ssa.Function, trackedFunc map[string][]int) []ssa.Value {
+	var values []ssa.Value
+	seen := make(map[ssa.Value]bool)
 	for _, pkgFunc := range ssaFuncs {
 		for _, funcBlock := range pkgFunc.Blocks {
 			for _, funcBlocInstr := range funcBlock.Instrs {
-				iterateTrackedFunctionsAndAddArgs(funcBlocInstr, trackedFunc, values)
+				for _, arg := range trackedArgsOf(funcBlocInstr, trackedFunc) {
+					if !seen[arg] {
+						seen[arg] = true
+						values = append(values, arg)
+					}
+				}
 			}
 		}
 	}
 	return values
 }
 
-func iterateTrackedFunctionsAndAddArgs(funcBlocInstr ssa.Instruction, trackedFunc map[string][]int, values map[string]*ssa.Value) {
+// trackedArgsOf returns the tracked arguments of an instruction which is a call of a tracked function.
+func trackedArgsOf(funcBlocInstr ssa.Instruction, trackedFunc map[string][]int) []ssa.Value {
+	var args []ssa.Value
 	if funcCall, ok := (funcBlocInstr).(*ssa.Call); ok {
 		for trackedFuncName, trackedFuncArgsInfo := range trackedFunc {
 			// only process functions that have the same number of arguments as the ones we track
@@ -230,16 +222,13 @@ func iterateTrackedFunctionsAndAddArgs(funcBlocInstr ssa.Instruction, trackedFun
 				// check if the function is called from an object or directly from the package
 				if funcCall.Call.Method != nil {
 					if methodFullname := funcCall.Call.Method.FullName(); methodFullname == trackedFuncName {
-						if !isContainedInMap(tmpArg, values) {
-							addToVarsMap(tmpArg, values)
-						}
+						args = append(args, tmpArg)
 					}
 				} else if funcCall.Call.Value.String() == trackedFuncName {
-					if !isContainedInMap(tmpArg, values) {
-						addToVarsMap(tmpArg, values)
-					}
+					args = append(args, tmpArg)
 				}
 			}
 		}
 	}
+	return args
 }
-- 
2.43.0


From f2c6fd4f951f282200fb53ee1f3d7ec9e2627df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 08/68] fix: functions of the analyzed package are not
 functions of an import of the same name

---
 call_list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/call_list.go b/call_list.go
index 4f2d6c5..132b7f3 100644
--- a/call_list.go
+++ b/call_list.go
@@ -76,6 +76,11 @@ func (c CallList) ContainsPkgCallExpr(n ast.Node, ctx *Context, stripVendor bool
 	if err != nil {
 		return nil
 	}
+	// A function called by its name alone belongs to the package being analyzed, it is not
+	// called through an import which has the same name as this package.
+	if _, ok := n.(*ast.CallExpr).Fun.(*ast.Ident); ok {
+		return nil
+	}
 
 	// Selector can have two forms:
 	// 1. A short name if a module function is called (expr.Name).
-- 
2.43.0


From 3c99f2637444107e11d8076cf77d45fd273e86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 09/68] fix: do not mix up the variables declared in other
 files (G109, G110)

---
 rules/decompression-bomb.go | 2 +-
 rules/integer_overflow.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index c92de29..f227b0f 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -60,7 +60,7 @@ func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issu
 	case *ast.AssignStmt:
 		for _, expr := range n.Rhs {
 			if callExpr, ok := expr.(*ast.CallExpr); ok && containsReaderCall(callExpr, ctx, d.readerCalls) {
-				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Name != "_" {
+				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Obj != nil && idt.Name != "_" {
 					// Example:
 					//  r, _ := zlib.NewReader(buf)
 					//  Add r's Obj to readerVarObj map
diff --git a/rules/integer_overflow.go b/rules/integer_overflow.go
index bf3a782..153f88b 100644
--- a/rules/integer_overflow.go
+++ b/rules/integer_overflow.go
@@ -50,7 +50,7 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 	case *ast.AssignStmt:
 		for _, expr := range n.Rhs {
 			if callExpr, ok := expr.(*ast.CallExpr); ok && i.calls.ContainsPkgCallExpr(callExpr, ctx, false) != nil {
-				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Name != "_" {
+				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Obj != nil && idt.Name != "_" {
 					// Example:
 					//  v, _ := strconv.Atoi("1111")
 					// Add v's Obj to atoiVarObj map
-- 
2.43.0


From b72d38ed662ce5db494938f4abc8d11092bfc8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 10/68] fix: accept the alternative nosec tag with its hash, as
 documented

---
 config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/config.go b/config.go
index fc355d8..ef0f9d5 100644
--- a/config.go
+++ b/config.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"strings"
 )
 
 const (
@@ -34,7 +35,11 @@ const (
 )
 
 // NoSecTag returns the tag used to disable gosec for a line of code.
+// The hash is optional in the tag.
 func NoSecTag(tag string) string {
+	if strings.HasPrefix(tag, "#") {
+		return tag
+	}
 	return fmt.Sprintf("%s%s", "#", tag)
 }
 
-- 
2.43.0


From 9200aaa2d32a24d812bd6c3147c75588b0bef293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 11/68] fix: apply all the nosec comments which cover an issue,
 in source order

The first overlapping range shadowed all the other ones, a contained range was merged into the
enclosing one, the second comment of a node was dropped, and all that depended on the iteration
order of the comment map. A nosec option which is off replaced the default tag.
---
 analyzer.go | 80 ++++++++++++++++++++++++-----------------------------
 1 file changed, 36 insertions(+), 44 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 8187f58..606f0c8 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -16,6 +16,7 @@
 package gosec
 
 import (
+	"cmp"
 	"errors"
 	"fmt"
 	"go/ast"
@@ -28,6 +29,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -87,50 +89,30 @@ func (i ignores) parseLine(line string) (int, int) {
 }
 
 func (i ignores) add(file string, line string, suppressions map[string]issue.SuppressionInfo) {
-	is := []ignore{}
-	if _, ok := i[file]; ok {
-		is = i[file]
-	}
-	found := false
 	start, end := i.parseLine(line)
-	for _, ig := range is {
-		if ig.start <= start && ig.end >= end {
-			found = true
-			for r, s := range suppressions {
-				ss, ok := ig.suppressions[r]
-				if !ok {
-					ss = []issue.SuppressionInfo{}
-				}
-				ss = append(ss, s)
-				ig.suppressions[r] = ss
-			}
-			break
-		}
+	ig := ignore{
+		start:        start,
+		end:          end,
+		suppressions: map[string][]issue.SuppressionInfo{},
 	}
-	if !found {
-		ig := ignore{
-			start:        start,
-			end:          end,
-			suppressions: map[string][]issue.SuppressionInfo{},
-		}
-		for r, s := range suppressions {
-			ig.suppressions[r] = []issue.SuppressionInfo{s}
-		}
-		is = append(is, ig)
+	for r, s := range suppressions {
+		ig.suppressions[r] = []issue.SuppressionInfo{s}
 	}
-	i[file] = is
+	i[file] = append(i[file], ig)
 }
 
+// get returns the suppressions of all ignored ranges which contain the given line or are contained in it.
 func (i ignores) get(file string, line string) map[string][]issue.SuppressionInfo {
 	start, end := i.parseLine(line)
-	if is, ok := i[file]; ok {
-		for _, i := range is {
-			if i.start <= start && i.end >= end || start <= i.start && end >= i.end {
-				return i.suppressions
+	suppressions := map[string][]issue.SuppressionInfo{}
+	for _, ig := range i[file] {
+		if ig.start <= start && ig.end >= end || start <= ig.start && end >= ig.end {
+			for r, s := range ig.suppressions {
+				suppressions[r] = append(suppressions[r], s...)
 			}
 		}
 	}
-	return map[string][]issue.SuppressionInfo{}
+	return suppressions
 }
 
 // The Context is populated with data parsed from the source code as it is scanned.
@@ -568,8 +550,8 @@ func (gosec *Analyzer) AppendError(file string, err error) {
 	gosec.errors[file] = errors
 }
 
-// ignore a node (and sub-tree) if it is tagged with a nosec tag comment
-func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
+// ignore a node (and sub-tree) if it is tagged with nosec tag comments, one result for each of these comments
+func (gosec *Analyzer) ignore(n ast.Node) []map[string]issue.SuppressionInfo {
 	if gosec.ignoreNosec {
 		return nil
 	}
@@ -580,18 +562,19 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 
 	// Checks if an alternative for #nosec is set and, if not, uses the default.
 	noSecDefaultTag, err := gosec.config.GetGlobal(Nosec)
-	if err != nil {
+	if err != nil || noSecDefaultTag == "" || noSecDefaultTag == "false" || noSecDefaultTag == "disabled" {
 		noSecDefaultTag = NoSecTag(string(Nosec))
 	} else {
 		noSecDefaultTag = NoSecTag(noSecDefaultTag)
 	}
 	noSecAlternativeTag, err := gosec.config.GetGlobal(NoSecAlternative)
-	if err != nil {
+	if err != nil || noSecAlternativeTag == "" {
 		noSecAlternativeTag = noSecDefaultTag
 	} else {
 		noSecAlternativeTag = NoSecTag(noSecAlternativeTag)
 	}
 
+	var result []map[string]issue.SuppressionInfo
 	for _, group := range groups {
 		found, args := findNoSecDirective(group, noSecDefaultTag, noSecAlternativeTag)
 		if !found {
@@ -627,9 +610,9 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 		if len(matches) == 0 {
 			ignores[aliasOfAllRules] = suppression
 		}
-		return ignores
+		result = append(result, ignores)
 	}
-	return nil
+	return result
 }
 
 // findNoSecDirective checks if the comment group contains `#nosec` or `//gosec:disable` directive.
@@ -656,7 +639,7 @@ func findNoSecDirective(group *ast.CommentGroup, noSecDefaultTag, noSecAlternati
 func findNoSecTag(group *ast.CommentGroup, tag string) (bool, string) {
 	comment := strings.TrimSpace(group.Text())
 
-	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+tag).MatchString(comment) {
+	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+regexp.QuoteMeta(tag)).MatchString(comment) {
 		// Discard what's in front of the nosec tag.
 		return true, strings.SplitN(comment, tag, 2)[1]
 	}
@@ -686,14 +669,23 @@ func (gosec *Analyzer) Visit(n ast.Node) ast.Visitor {
 }
 
 func (gosec *Analyzer) updateIgnores() {
+	// Forget the ranges recorded by an earlier scan of this file
+	delete(gosec.context.Ignores, gosec.context.GetFileAtNodePos(gosec.context.Root).Name())
+	nodes := make([]ast.Node, 0, len(gosec.context.Comments))
 	for n := range gosec.context.Comments {
+		nodes = append(nodes, n)
+	}
+	// The suppressions of an issue are recorded in the order of the source code
+	slices.SortFunc(nodes, func(a, b ast.Node) int {
+		return cmp.Compare(gosec.context.Comments[a][0].Pos(), gosec.context.Comments[b][0].Pos())
+	})
+	for _, n := range nodes {
 		gosec.updateIgnoredRulesForNode(n)
 	}
 }
 
 func (gosec *Analyzer) updateIgnoredRulesForNode(n ast.Node) {
-	ignoredRules := gosec.ignore(n)
-	if len(ignoredRules) > 0 {
+	for _, ignoredRules := range gosec.ignore(n) {
 		if gosec.context.Ignores == nil {
 			gosec.context.Ignores = newIgnores()
 		}
@@ -713,7 +705,7 @@ func (gosec *Analyzer) getSuppressionsAtLineInFile(file string, line string, id
 	generalSuppressions, generalIgnored := ignoredRules[aliasOfAllRules]
 	ruleSuppressions, ruleIgnored := ignoredRules[id]
 	ignored := generalIgnored || ruleIgnored
-	suppressions := append(generalSuppressions, ruleSuppressions...)
+	suppressions := slices.Concat(generalSuppressions, ruleSuppressions)
 
 	// Track external suppressions of this rule.
 	if gosec.ruleset.IsRuleSuppressed(id) || gosec.analyzerSet.IsSuppressed(id) {
-- 
2.43.0


From 77938354a6d8bd10cf1c37511bfc02c65ae8a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 12/68] fix: locate the issues in the file itself, not where
 its line directives point to

---
 analyzers/util.go | 13 ++++++-------
 helpers.go        |  2 +-
 issue/issue.go    | 13 +++++++++----
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/analyzers/util.go b/analyzers/util.go
index 57cc42b..91e05d1 100644
--- a/analyzers/util.go
+++ b/analyzers/util.go
@@ -66,14 +66,13 @@ func newIssue(analyzerID string, desc string, fileSet *token.FileSet,
 	if file == nil {
 		return &issue.Issue{}
 	}
-	line := file.Line(pos)
-	col := file.Position(pos).Column
+	position := file.PositionFor(pos, false)
 
 	return &issue.Issue{
 		RuleID:     analyzerID,
 		File:       file.Name(),
-		Line:       strconv.Itoa(line),
-		Col:        strconv.Itoa(col),
+		Line:       strconv.Itoa(position.Line),
+		Col:        strconv.Itoa(position.Column),
 		Severity:   severity,
 		Confidence: confidence,
 		What:       desc,
@@ -85,12 +84,12 @@ func newIssue(analyzerID string, desc string, fileSet *token.FileSet,
 func issueCodeSnippet(fileSet *token.FileSet, pos token.Pos) string {
 	file := fileSet.File(pos)
 
-	start := (int64)(file.Line(pos))
+	line := (int64)(file.PositionFor(pos, false).Line)
+	start := line
 	if start-issue.SnippetOffset > 0 {
 		start = start - issue.SnippetOffset
 	}
-	end := (int64)(file.Line(pos))
-	end = end + issue.SnippetOffset
+	end := line + issue.SnippetOffset
 
 	var code string
 	if file, err := os.Open(file.Name()); err == nil {
diff --git a/helpers.go b/helpers.go
index 33e2b4a..d10065c 100644
--- a/helpers.go
+++ b/helpers.go
@@ -325,7 +325,7 @@ func GetImportPath(name string, ctx *Context) (string, bool) {
 // GetLocation returns the filename and line number of an ast.Node
 func GetLocation(n ast.Node, ctx *Context) (string, int) {
 	fobj := ctx.FileSet.File(n.Pos())
-	return fobj.Name(), fobj.Line(n.Pos())
+	return fobj.Name(), fobj.PositionFor(n.Pos(), false).Line
 }
 
 // Gopath returns all GOPATHs
diff --git a/issue/issue.go b/issue/issue.go
index b7c804e..ba9e3d9 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -168,8 +168,13 @@ func CodeSnippet(file *os.File, start int64, end int64) (string, error) {
 	return buf.String(), nil
 }
 
+// lineOf returns the line of a position in the file itself, whatever its line directives say.
+func lineOf(fobj *token.File, pos token.Pos) int {
+	return fobj.PositionFor(pos, false).Line
+}
+
 func codeSnippetStartLine(node ast.Node, fobj *token.File) int64 {
-	s := (int64)(fobj.Line(node.Pos()))
+	s := (int64)(lineOf(fobj, node.Pos()))
 	if s-SnippetOffset > 0 {
 		return s - SnippetOffset
 	}
@@ -177,7 +182,7 @@ func codeSnippetStartLine(node ast.Node, fobj *token.File) int64 {
 }
 
 func codeSnippetEndLine(node ast.Node, fobj *token.File) int64 {
-	e := (int64)(fobj.Line(node.End()))
+	e := (int64)(lineOf(fobj, node.End()))
 	return e + SnippetOffset
 }
 
@@ -185,7 +190,7 @@ func codeSnippetEndLine(node ast.Node, fobj *token.File) int64 {
 func New(fobj *token.File, node ast.Node, ruleID, desc string, severity, confidence Score) *Issue {
 	name := fobj.Name()
 	line := GetLine(fobj, node)
-	col := strconv.Itoa(fobj.Position(node.Pos()).Column)
+	col := strconv.Itoa(fobj.PositionFor(node.Pos(), false).Column)
 
 	var code string
 	if node == nil {
@@ -222,7 +227,7 @@ func (i *Issue) WithSuppressions(suppressions []SuppressionInfo) *Issue {
 
 // GetLine returns the line number of a given ast.Node
 func GetLine(fobj *token.File, node ast.Node) string {
-	start, end := fobj.Line(node.Pos()), fobj.Line(node.End())
+	start, end := lineOf(fobj, node.Pos()), lineOf(fobj, node.End())
 	line := strconv.Itoa(start)
 	if start != end {
 		line = fmt.Sprintf("%d-%d", start, end)
-- 
2.43.0


From a7f18d222dd14015858dfb7da01ef0fe879c4700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 13/68] fix: track slice bounds in polynomial time (G602)

---
 analyzers/slice_bounds.go | 43 +++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index 968102f..cfa2e81 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -77,7 +77,7 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 									l, h := extractSliceBounds(slice)
 									newCap := computeSliceNewCap(l, h, sliceCap)
 									violations := []ssa.Instruction{}
-									trackSliceBounds(0, newCap, slice, &violations, ifs)
+									trackSliceBounds(0, newCap, slice, &violations, ifs, map[visit]int{})
 									for _, s := range violations {
 										switch s := s.(type) {
 										case *ssa.Slice:
@@ -118,11 +118,16 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 			if i == 1 {
 				bound = invBound(bound)
 			}
+			visited := map[*ssa.BasicBlock]int{}
 			var processBlock func(block *ssa.BasicBlock, depth int)
 			processBlock = func(block *ssa.BasicBlock, depth int) {
 				if depth == maxDepth {
 					return
 				}
+				if d, ok := visited[block]; ok && d <= depth {
+					return
+				}
+				visited[block] = depth
 				depth++
 				for _, instr := range block.Instrs {
 					if _, ok := issues[instr]; ok {
@@ -170,8 +175,24 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 	return nil, nil
 }
 
-func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp) {
-	if depth == maxDepth {
+// visit is a step of the tracking, which is taken again only when it leads deeper than before. Otherwise
+// the number of steps grows exponentially, for instance with the calls of a recursive function.
+type visit struct {
+	node     ssa.Node
+	sliceCap int
+	checked  bool
+}
+
+func alreadyVisited(v visit, depth int, visited map[visit]int) bool {
+	if d, ok := visited[v]; ok && d <= depth {
+		return true
+	}
+	visited[v] = depth
+	return false
+}
+
+func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, visited map[visit]int) {
+	if depth == maxDepth || alreadyVisited(visit{node: slice, sliceCap: sliceCap}, depth, visited) {
 		return
 	}
 	depth++
@@ -183,12 +204,12 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 		for _, refinstr := range *referrers {
 			switch refinstr := refinstr.(type) {
 			case *ssa.Slice:
-				checkAllSlicesBounds(depth, sliceCap, refinstr, violations, ifs)
+				checkAllSlicesBounds(depth, sliceCap, refinstr, violations, ifs, visited)
 				switch refinstr.X.(type) {
 				case *ssa.Alloc, *ssa.Parameter:
 					l, h := extractSliceBounds(refinstr)
 					newCap := computeSliceNewCap(l, h, sliceCap)
-					trackSliceBounds(depth, newCap, refinstr, violations, ifs)
+					trackSliceBounds(depth, newCap, refinstr, violations, ifs, visited)
 				}
 			case *ssa.IndexAddr:
 				indexValue, err := extractIntValue(refinstr.Index.String())
@@ -208,7 +229,7 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 					if fn, ok := refinstr.Call.Value.(*ssa.Function); ok {
 						if len(fn.Params) > parPos && parPos > -1 {
 							param := fn.Params[parPos]
-							trackSliceBounds(depth, sliceCap, param, violations, ifs)
+							trackSliceBounds(depth, sliceCap, param, violations, ifs, visited)
 						}
 					}
 				}
@@ -217,8 +238,8 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 	}
 }
 
-func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp) {
-	if depth == maxDepth {
+func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, visited map[visit]int) {
+	if depth == maxDepth || alreadyVisited(visit{node: slice, sliceCap: sliceCap, checked: true}, depth, visited) {
 		return
 	}
 	depth++
@@ -233,7 +254,7 @@ func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations
 	case *ssa.Alloc, *ssa.Parameter, *ssa.Slice:
 		l, h := extractSliceBounds(slice)
 		newCap := computeSliceNewCap(l, h, sliceCap)
-		trackSliceBounds(depth, newCap, slice, violations, ifs)
+		trackSliceBounds(depth, newCap, slice, violations, ifs, visited)
 	}
 
 	references := slice.Referrers()
@@ -243,12 +264,12 @@ func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations
 	for _, ref := range *references {
 		switch s := ref.(type) {
 		case *ssa.Slice:
-			checkAllSlicesBounds(depth, sliceCap, s, violations, ifs)
+			checkAllSlicesBounds(depth, sliceCap, s, violations, ifs, visited)
 			switch s.X.(type) {
 			case *ssa.Alloc, *ssa.Parameter:
 				l, h := extractSliceBounds(s)
 				newCap := computeSliceNewCap(l, h, sliceCap)
-				trackSliceBounds(depth, newCap, s, violations, ifs)
+				trackSliceBounds(depth, newCap, s, violations, ifs, visited)
 			}
 		}
 	}
-- 
2.43.0


From d5407b99d50c52572654e868e2c0314111e5121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 14/68] fix: ignored issues shown in the report do not fail the
 scan and are not found, -quiet does not hide Golang errors

---
 cmd/gosec/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 2753ea4..1d5005a 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -337,7 +337,7 @@ func filterIssues(issues []*issue.Issue, severity issue.Score, confidence issue.
 	for _, issue := range issues {
 		if issue.Severity >= severity && issue.Confidence >= confidence {
 			result = append(result, issue)
-			if (!issue.NoSec || !*flagShowIgnored) && len(issue.Suppressions) == 0 {
+			if !issue.NoSec && len(issue.Suppressions) == 0 {
 				trueIssues++
 			}
 		}
@@ -348,7 +348,7 @@ func filterIssues(issues []*issue.Issue, severity issue.Score, confidence issue.
 func exit(issues []*issue.Issue, errors map[string][]gosec.Error, noFail bool) {
 	nsi := 0
 	for _, issue := range issues {
-		if len(issue.Suppressions) == 0 {
+		if !issue.NoSec && len(issue.Suppressions) == 0 {
 			nsi++
 		}
 	}
@@ -494,7 +494,7 @@ func main() {
 	}
 
 	// Exit quietly if nothing was found
-	if len(issues) == 0 && *flagQuiet {
+	if len(issues) == 0 && len(errors) == 0 && *flagQuiet {
 		os.Exit(0)
 	}
 
-- 
2.43.0


From d27506980fdf7e1bd63c6e0b9144f29e52bfd52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 15/68] fix: the arguments of a nosec tag are those behind the
 tag that starts a line of the comment

---
 analyzer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 606f0c8..b1739ed 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -639,9 +639,11 @@ func findNoSecDirective(group *ast.CommentGroup, noSecDefaultTag, noSecAlternati
 func findNoSecTag(group *ast.CommentGroup, tag string) (bool, string) {
 	comment := strings.TrimSpace(group.Text())
 
-	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+regexp.QuoteMeta(tag)).MatchString(comment) {
+	// The tag stands at the beginning of a line of the comment.
+	tagRegexp := regexp.MustCompile("(^|\n) *" + regexp.QuoteMeta(tag))
+	if loc := tagRegexp.FindStringIndex(comment); loc != nil {
 		// Discard what's in front of the nosec tag.
-		return true, strings.SplitN(comment, tag, 2)[1]
+		return true, comment[loc[1]:]
 	}
 
 	return false, ""
-- 
2.43.0


From 10093f1653795f33a106054bdf7c7f9f11b81d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 16/68] fix: a reset analyzer forgets the errors of earlier
 scans

---
 analyzer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index b1739ed..1a8db90 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -743,11 +743,12 @@ func (gosec *Analyzer) Report() ([]*issue.Issue, *Metrics, map[string][]Error) {
 	return gosec.issues, gosec.stats, gosec.errors
 }
 
-// Reset clears state such as context, issues and metrics from the configured analyzer
+// Reset clears state such as context, issues, metrics and errors from the configured analyzer
 func (gosec *Analyzer) Reset() {
 	gosec.context = &Context{}
 	gosec.issues = make([]*issue.Issue, 0, 16)
 	gosec.stats = &Metrics{}
+	gosec.errors = make(map[string][]Error)
 	gosec.ruleset = NewRuleSet()
 	gosec.analyzerSet = analyzers.NewAnalyzerSet()
 }
-- 
2.43.0


From 192434f2f4306b793d752927b7a466c3c1012fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 17/68] fix: apply the build tags to every package and to its
 dependencies

---
 analyzer.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 1a8db90..4c8fb6c 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -318,9 +318,7 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 	// step 1/3 create build context.
 	buildD := build.Default
 	// step 2/3: add build tags to get env dependent files into basePackage.
-	gosec.mu.Lock()
 	buildD.BuildTags = conf.BuildFlags
-	gosec.mu.Unlock()
 	basePackage, err := buildD.ImportDir(pkgPath, build.ImportComment)
 	if err != nil {
 		return []*packages.Package{}, fmt.Errorf("importing dir %q: %w", pkgPath, err)
@@ -343,11 +341,15 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 		}
 	}
 
-	// step 3/3 remove build tags from conf to proceed build correctly.
+	// step 3/3 turn the build tags into a flag of the go command, in a copy since the config is shared by all packages.
+	loadConf := *conf
+	loadConf.BuildFlags = nil
+	if len(conf.BuildFlags) > 0 {
+		loadConf.BuildFlags = []string{"-tags=" + strings.Join(conf.BuildFlags, ",")}
+	}
 	gosec.mu.Lock()
-	conf.BuildFlags = nil
 	defer gosec.mu.Unlock()
-	pkgs, err := packages.Load(conf, packageFiles...)
+	pkgs, err := packages.Load(&loadConf, packageFiles...)
 	if err != nil {
 		return []*packages.Package{}, fmt.Errorf("loading files from package %q: %w", pkgPath, err)
 	}
-- 
2.43.0


From b84407e0ec34a9c6b591c25327fb426776df52bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 18/68] fix: analyze the files of a package once when its tests
 are scanned too

---
 analyzer.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 4c8fb6c..8e4a614 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -353,7 +353,22 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 	if err != nil {
 		return []*packages.Package{}, fmt.Errorf("loading files from package %q: %w", pkgPath, err)
 	}
-	return pkgs, nil
+	return withoutTestedVariants(pkgs), nil
+}
+
+// withoutTestedVariants leaves out the packages which were also loaded together with their test files, because
+// that variant (e.g. "p [p.test]") contains all the files of the package.
+func withoutTestedVariants(pkgs []*packages.Package) []*packages.Package {
+	result := make([]*packages.Package, 0, len(pkgs))
+	for _, pkg := range pkgs {
+		tested := slices.ContainsFunc(pkgs, func(other *packages.Package) bool {
+			return other.PkgPath == pkg.PkgPath && strings.HasPrefix(other.ID, pkg.ID+" [")
+		})
+		if !tested {
+			result = append(result, pkg)
+		}
+	}
+	return result
 }
 
 // CheckRules runs analysis on the given package.
-- 
2.43.0


From 1c224e6da4da3d5573d044096c8a1f5c6b6e95a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 19/68] fix: scan a package once even if several of the given
 paths lead to it

---
 cmd/gosec/main.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 1d5005a..ceec0c8 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -20,6 +20,7 @@ import (
 	"io"
 	"log"
 	"os"
+	"path/filepath"
 	"runtime"
 	"sort"
 	"strings"
@@ -457,12 +458,23 @@ func main() {
 	if len(paths) == 0 {
 		paths = append(paths, "./...")
 	}
+	scanned := map[string]bool{}
 	for _, path := range paths {
 		pcks, err := gosec.PackagePaths(path, excludedDirs)
 		if err != nil {
 			logger.Fatal(err)
 		}
-		packages = append(packages, pcks...)
+		for _, pck := range pcks {
+			// Scan a package once, even if several paths lead to it
+			dir, err := filepath.Abs(pck)
+			if err != nil {
+				logger.Fatal(err)
+			}
+			if !scanned[dir] {
+				scanned[dir] = true
+				packages = append(packages, pck)
+			}
+		}
 	}
 
 	if len(packages) == 0 {
-- 
2.43.0


From 96b891ef772c8253346d47b17e02512f3e3dc7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 20/68] fix: the root path of a recursive scan without paths is
 the current directory

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index ceec0c8..9a8e9c0 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -511,7 +511,7 @@ func main() {
 	}
 
 	// Create output report
-	rootPaths := getRootPaths(flag.Args())
+	rootPaths := getRootPaths(paths)
 
 	reportInfo := gosec.NewReportInfo(issues, metrics, errors).WithVersion(Version)
 
-- 
2.43.0


From 587ce3c8cd4808a77eeb8cd67bf1dac043b86a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 21/68] fix: exclude the folders with the given names only, not
 those whose path contains them

---
 helpers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index d10065c..b107b43 100644
--- a/helpers.go
+++ b/helpers.go
@@ -486,7 +486,9 @@ func isExcluded(str string, excludes []*regexp.Regexp) bool {
 func ExcludedDirsRegExp(excludedDirs []string) []*regexp.Regexp {
 	var exps []*regexp.Regexp
 	for _, excludedDir := range excludedDirs {
-		str := fmt.Sprintf(`([\\/])?%s([\\/])?`, strings.ReplaceAll(filepath.ToSlash(excludedDir), "/", `\/`))
+		// Match entire path elements, otherwise other folders which only contain the name would be excluded too
+		dir := strings.Trim(filepath.ToSlash(excludedDir), "/")
+		str := fmt.Sprintf(`(^|[\\/])(?:%s)([\\/]|$)`, strings.ReplaceAll(dir, "/", `\/`))
 		r := regexp.MustCompile(str)
 		exps = append(exps, r)
 	}
-- 
2.43.0


From 29b0afb01c6d0b54550e790a60c4895667d0e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 22/68] fix: do not scan the current directory instead of a
 package without files

---
 analyzer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 8e4a614..0401303 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -341,6 +341,11 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 		}
 	}
 
+	// Without any file the current directory would be loaded instead (e.g. a package which has only test files)
+	if len(packageFiles) == 0 {
+		return []*packages.Package{}, nil
+	}
+
 	// step 3/3 turn the build tags into a flag of the go command, in a copy since the config is shared by all packages.
 	loadConf := *conf
 	loadConf.BuildFlags = nil
-- 
2.43.0


From b74141cee16db5d4098d8982e6850687f01b672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 23/68] fix: scan the packages whatever the concurrency value

---
 analyzer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 0401303..877ebc1 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -276,7 +276,8 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 		jobs <- pkgPath
 	}
 
-	for i := 0; i < gosec.concurrency; i++ {
+	// Without any worker nothing would be scanned at all
+	for i := 0; i < max(gosec.concurrency, 1); i++ {
 		wg.Add(1)
 		go worker(jobs, results, quit)
 	}
-- 
2.43.0


From e2834117b59658f5f060bad8f95abdd0bdcbcdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 24/68] fix: order the errors of a file independently of the
 order in which they were found

---
 errors.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/errors.go b/errors.go
index 2f66727..2ca72bb 100644
--- a/errors.go
+++ b/errors.go
@@ -20,12 +20,15 @@ func NewError(line, column int, err string) *Error {
 	}
 }
 
-// sortErrors sorts the golang errors by line
+// sortErrors sorts the golang errors by line, column and message
 func sortErrors(allErrors map[string][]Error) {
 	for _, errors := range allErrors {
 		sort.Slice(errors, func(i, j int) bool {
 			if errors[i].Line == errors[j].Line {
-				return errors[i].Column <= errors[j].Column
+				if errors[i].Column == errors[j].Column {
+					return errors[i].Err < errors[j].Err
+				}
+				return errors[i].Column < errors[j].Column
 			}
 			return errors[i].Line < errors[j].Line
 		})
-- 
2.43.0


From e314240a7d5219896cf50a0f4440996ddc415909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 25/68] fix: judge os.ModePerm by its value whatever the name
 of the import (G301, G302, G306)

---
 rules/fileperms.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/rules/fileperms.go b/rules/fileperms.go
index d841553..ecfee75 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -17,6 +17,7 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"os"
 	"strconv"
 
 	"github.com/securego/gosec/v2"
@@ -64,7 +65,11 @@ func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, err
 				return nil, nil
 			}
 			modeArg := callexpr.Args[len(callexpr.Args)-1]
-			if mode, err := gosec.GetInt(modeArg); err == nil && !modeIsSubset(mode, r.mode) || isOsPerm(modeArg) {
+			mode, err := gosec.GetInt(modeArg)
+			if isOsPerm(modeArg, c) {
+				mode, err = int64(os.ModePerm), nil
+			}
+			if err == nil && !modeIsSubset(mode, r.mode) {
 				return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
 		}
@@ -73,12 +78,10 @@ func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, err
 }
 
 // isOsPerm check if the provide ast node contains a os.PermMode symbol
-func isOsPerm(n ast.Node) bool {
+func isOsPerm(n ast.Node, c *gosec.Context) bool {
 	if node, ok := n.(*ast.SelectorExpr); ok {
-		if identX, ok := node.X.(*ast.Ident); ok {
-			if identX.Name == "os" && node.Sel != nil && node.Sel.Name == "ModePerm" {
-				return true
-			}
+		if obj := c.Info.ObjectOf(node.Sel); obj != nil && obj.Pkg() != nil {
+			return obj.Pkg().Path() == "os" && obj.Name() == "ModePerm"
 		}
 	}
 	return false
-- 
2.43.0


From b4fff4bdf464c0c6f6dfb1632f80fc6273f576cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 26/68] fix: use the key given with -ai-api-key

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 9a8e9c0..f4cfe9e 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -517,7 +517,7 @@ func main() {
 
 	// Call AI request to solve the issues
 	aiAPIKey := os.Getenv(aiAPIKeyEnv)
-	if aiAPIKeyEnv == "" {
+	if aiAPIKey == "" {
 		aiAPIKey = *flagAiAPIKey
 	}
 	if *flagAiAPIProvider != "" && aiAPIKey != "" {
-- 
2.43.0


From d4a1bf6bc4f343c094375a1260056f6c2dc3525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 27/68] fix: writing a report does not remove the suppressed
 issues from its data

---
 report/formatter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/report/formatter.go b/report/formatter.go
index 3e83dc6..646ef34 100644
--- a/report/formatter.go
+++ b/report/formatter.go
@@ -55,7 +55,10 @@ const (
 func CreateReport(w io.Writer, format string, enableColor bool, rootPaths []string, data *gosec.ReportInfo) error {
 	var err error
 	if format != "json" && format != "sarif" {
-		data.Issues = filterOutSuppressedIssues(data.Issues)
+		// The caller's data is kept since it might be needed for a report in another format
+		filtered := *data
+		filtered.Issues = filterOutSuppressedIssues(data.Issues)
+		data = &filtered
 	}
 	switch format {
 	case "json":
-- 
2.43.0


From 5137e5dfd6a07ccad101741b63b657bd6f82e540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 28/68] fix: code lines longer than 64 KB do not end the
 snippets

---
 issue/issue.go        | 2 ++
 report/text/writer.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/issue/issue.go b/issue/issue.go
index ba9e3d9..37e39ab 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"math"
 	"os"
 	"strconv"
 
@@ -155,6 +156,7 @@ func CodeSnippet(file *os.File, start int64, end int64) (string, error) {
 	var pos int64
 	var buf bytes.Buffer
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt) // the lines can be longer than the default limit
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		pos++
diff --git a/report/text/writer.go b/report/text/writer.go
index d839a43..3427921 100644
--- a/report/text/writer.go
+++ b/report/text/writer.go
@@ -80,6 +80,7 @@ func highlight(t string, s issue.Score, ignored bool) string {
 func printCodeSnippet(issue *issue.Issue) string {
 	start, end := parseLine(issue.Line)
 	scanner := bufio.NewScanner(strings.NewReader(issue.Code))
+	scanner.Buffer(nil, len(issue.Code)+1) // the lines can be longer than the default limit
 	var buf bytes.Buffer
 	line := start
 	for scanner.Scan() {
-- 
2.43.0


From b93b79dd4078bbbe70c982de222fc2cd9f036a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 29/68] fix: the SARIF results refer to the right rules, listed
 once each in order

---
 report/sarif/formatter.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index f47c250..230140c 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -33,8 +33,7 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 		}
 
 		rule := parseSarifRule(issue)
-		var ruleIndex int
-		rules, ruleIndex = addRuleInOrder(rules, rule)
+		rules = addRuleInOrder(rules, rule)
 
 		location, err := parseSarifLocation(issue, rootPaths)
 		if err != nil {
@@ -43,7 +42,7 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 
 		result := NewResult(
 			issue.RuleID,
-			ruleIndex,
+			0,
 			getSarifLevel(issue.Severity.String()),
 			issue.What,
 			buildSarifSuppressions(issue.Suppressions),
@@ -53,6 +52,15 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 		results = append(results, result)
 	}
 
+	// the position of a rule is known once all of them are collected
+	ruleIndexes := make(map[string]int, len(rules))
+	for i, rule := range rules {
+		ruleIndexes[rule.ID] = i
+	}
+	for _, result := range results {
+		result.RuleIndex = ruleIndexes[result.RuleID]
+	}
+
 	sort.SliceStable(cweTaxa, func(i, j int) bool { return cweTaxa[i].ID < cweTaxa[j].ID })
 
 	tool := NewTool(buildSarifDriver(rules, data.GosecVersion))
@@ -68,23 +76,16 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 }
 
 // addRuleInOrder inserts a rule into the rules slice keeping the rules IDs order, it returns the new rules
-// slice and the position where the rule was inserted
-func addRuleInOrder(rules []*ReportingDescriptor, rule *ReportingDescriptor) ([]*ReportingDescriptor, int) {
-	position := 0
-	for i, r := range rules {
-		if r.ID < rule.ID {
-			continue
-		}
-		if r.ID == rule.ID {
-			return rules, i
-		}
-		position = i
-		break
+// slice
+func addRuleInOrder(rules []*ReportingDescriptor, rule *ReportingDescriptor) []*ReportingDescriptor {
+	position := sort.Search(len(rules), func(i int) bool { return rules[i].ID >= rule.ID })
+	if position < len(rules) && rules[position].ID == rule.ID {
+		return rules
 	}
 	rules = append(rules, nil)
 	copy(rules[position+1:], rules[position:])
 	rules[position] = rule
-	return rules, position
+	return rules
 }
 
 // parseSarifRule return SARIF rule field struct
-- 
2.43.0


From 07ba6d81f7b19ad541ecb4eee7554b67d021df5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 30/68] fix: SARIF rules without a CWE have no null
 relationship

---
 report/sarif/formatter.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index 230140c..63545a1 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -109,23 +109,23 @@ func parseSarifRule(i *issue.Issue) *ReportingDescriptor {
 		DefaultConfiguration: &ReportingConfiguration{
 			Level: getSarifLevel(i.Severity.String()),
 		},
-		Relationships: []*ReportingDescriptorRelationship{
-			buildSarifReportingDescriptorRelationship(i.Cwe),
-		},
+		Relationships: buildSarifReportingDescriptorRelationships(i.Cwe),
 	}
 }
 
-func buildSarifReportingDescriptorRelationship(weakness *cwe.Weakness) *ReportingDescriptorRelationship {
+func buildSarifReportingDescriptorRelationships(weakness *cwe.Weakness) []*ReportingDescriptorRelationship {
 	if weakness == nil {
 		return nil
 	}
-	return &ReportingDescriptorRelationship{
-		Target: &ReportingDescriptorReference{
-			ID:            weakness.ID,
-			GUID:          uuid3(weakness.SprintID()),
-			ToolComponent: NewToolComponentReference(cwe.Acronym),
+	return []*ReportingDescriptorRelationship{
+		{
+			Target: &ReportingDescriptorReference{
+				ID:            weakness.ID,
+				GUID:          uuid3(weakness.SprintID()),
+				ToolComponent: NewToolComponentReference(cwe.Acronym),
+			},
+			Kinds: []string{"superset"},
 		},
-		Kinds: []string{"superset"},
 	}
 }
 
-- 
2.43.0


From ce133dbbafb00996ade201ca55fba25ec9a026ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 31/68] fix: SARIF and SonarQube paths are relative to a root
 that contains the file

---
 report/sarif/formatter.go | 6 ++++--
 report/sonar/formatter.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index 63545a1..bc4dd8d 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -186,8 +186,10 @@ func parseSarifLocation(i *issue.Issue, rootPaths []string) (*Location, error) {
 func parseSarifArtifactLocation(i *issue.Issue, rootPaths []string) *ArtifactLocation {
 	var filePath string
 	for _, rootPath := range rootPaths {
-		if strings.HasPrefix(i.File, rootPath) {
-			filePath = strings.Replace(i.File, rootPath+"/", "", 1)
+		if i.File == rootPath {
+			filePath = i.File
+		} else if prefix := strings.TrimSuffix(rootPath, "/") + "/"; strings.HasPrefix(i.File, prefix) {
+			filePath = strings.TrimPrefix(i.File, prefix)
 		}
 	}
 	return NewArtifactLocation(filePath)
diff --git a/report/sonar/formatter.go b/report/sonar/formatter.go
index d635d9d..9c783e5 100644
--- a/report/sonar/formatter.go
+++ b/report/sonar/formatter.go
@@ -40,8 +40,10 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 func parseFilePath(issue *issue.Issue, rootPaths []string) string {
 	var sonarFilePath string
 	for _, rootPath := range rootPaths {
-		if strings.HasPrefix(issue.File, rootPath) {
-			sonarFilePath = strings.Replace(issue.File, rootPath+"/", "", 1)
+		if issue.File == rootPath {
+			sonarFilePath = issue.File
+		} else if prefix := strings.TrimSuffix(rootPath, "/") + "/"; strings.HasPrefix(issue.File, prefix) {
+			sonarFilePath = strings.TrimPrefix(issue.File, prefix)
 		}
 	}
 	return sonarFilePath
-- 
2.43.0


From d5299f037a1b9b4b325caf3d6345581996691345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 32/68] fix: the whole failure text of a JUnit report is
 escaped

---
 report/junit/formatter.go | 3 +--
 report/junit/types.go     | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/report/junit/formatter.go b/report/junit/formatter.go
index 3b974fd..c27a7d2 100644
--- a/report/junit/formatter.go
+++ b/report/junit/formatter.go
@@ -1,7 +1,6 @@
 package junit
 
 import (
-	"html"
 	"strconv"
 
 	"github.com/securego/gosec/v2"
@@ -17,7 +16,7 @@ func generatePlaintext(issue *issue.Issue) string {
 		"[" + issue.File + ":" + issue.Line + "] - " +
 		issue.What + " (Confidence: " + strconv.Itoa(int(issue.Confidence)) +
 		", Severity: " + strconv.Itoa(int(issue.Severity)) +
-		", CWE: " + cweID + ")\n" + "> " + html.EscapeString(issue.Code) +
+		", CWE: " + cweID + ")\n" + "> " + issue.Code +
 		"\n Autofix: " + issue.Autofix
 }
 
diff --git a/report/junit/types.go b/report/junit/types.go
index bac3218..f19e763 100644
--- a/report/junit/types.go
+++ b/report/junit/types.go
@@ -29,5 +29,5 @@ type Testcase struct {
 type Failure struct {
 	XMLName xml.Name `xml:"failure"`
 	Message string   `xml:"message,attr"`
-	Text    string   `xml:",innerxml"`
+	Text    string   `xml:",chardata"`
 }
-- 
2.43.0


From 77f08b7ee0c0b42c656acb77f73b847b72358929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 33/68] fix: SARIF fixes have the artifact changes and the text
 the format requires

---
 report/sarif/builder.go   |  1 +
 report/sarif/formatter.go | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/report/sarif/builder.go b/report/sarif/builder.go
index 40663ce..b2c6610 100644
--- a/report/sarif/builder.go
+++ b/report/sarif/builder.go
@@ -91,6 +91,7 @@ func NewResult(ruleID string, ruleIndex int, level Level, message string, suppre
 		result.Fixes = []*Fix{
 			{
 				Description: &Message{
+					Text:     autofix,
 					Markdown: autofix,
 				},
 			},
diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index bc4dd8d..5948bc3 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -48,6 +48,9 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 			buildSarifSuppressions(issue.Suppressions),
 			issue.Autofix,
 		).WithLocations(location)
+		for _, fix := range result.Fixes {
+			fix.ArtifactChanges = buildSarifArtifactChanges(location)
+		}
 
 		results = append(results, result)
 	}
@@ -195,6 +198,22 @@ func parseSarifArtifactLocation(i *issue.Issue, rootPaths []string) *ArtifactLoc
 	return NewArtifactLocation(filePath)
 }
 
+// buildSarifArtifactChanges returns the change every SARIF fix must have. The fixes are only described,
+// so that it replaces an empty region at the location of the issue by nothing.
+func buildSarifArtifactChanges(location *Location) []*ArtifactChange {
+	region := location.PhysicalLocation.Region
+	return []*ArtifactChange{
+		{
+			ArtifactLocation: location.PhysicalLocation.ArtifactLocation,
+			Replacements: []*Replacement{
+				{
+					DeletedRegion: NewRegion(region.StartLine, region.StartLine, region.StartColumn, region.StartColumn, region.SourceLanguage),
+				},
+			},
+		},
+	}
+}
+
 func parseSarifRegion(i *issue.Issue) (*Region, error) {
 	lines := strings.Split(i.Line, "-")
 	startLine, err := strconv.Atoi(lines[0])
-- 
2.43.0


From a582aeef3e7ac2189b5fd5eb021b0ee640ba8e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 34/68] fix: issues of G307 have a CWE

---
 issue/issue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/issue/issue.go b/issue/issue.go
index 37e39ab..23901de 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -78,6 +78,7 @@ var ruleToCWE = map[string]string{
 	"G304": "22",
 	"G305": "22",
 	"G306": "276",
+	"G307": "276",
 	"G401": "328",
 	"G402": "295",
 	"G403": "310",
-- 
2.43.0


From 919f36f5102882b05f4729b1ef86bac9204f3ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 35/68] fix: calls through variables and functions declared in
 another file are recognised

GetCallInfo used the file-local objects of the parser, so that a call of a method of a package
level variable, or of the result of a function, was only recognised in the file which declares
the variable or function.
---
 helpers.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/helpers.go b/helpers.go
index b107b43..346deb9 100644
--- a/helpers.go
+++ b/helpers.go
@@ -161,6 +161,16 @@ func GetCallObject(n ast.Node, ctx *Context) (*ast.CallExpr, types.Object) {
 	return nil, nil
 }
 
+// isVariable tells if the identifier refers to a variable, which can be declared in any
+// file of the package.
+func isVariable(ident *ast.Ident, ctx *Context) bool {
+	if obj := ctx.Info.ObjectOf(ident); obj != nil {
+		_, ok := obj.(*types.Var)
+		return ok
+	}
+	return ident.Obj != nil && ident.Obj.Kind == ast.Var
+}
+
 // GetCallInfo returns the package or type and name  associated with a
 // call expression.
 func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
@@ -170,7 +180,7 @@ func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
 		case *ast.SelectorExpr:
 			switch expr := fn.X.(type) {
 			case *ast.Ident:
-				if expr.Obj != nil && expr.Obj.Kind == ast.Var {
+				if isVariable(expr, ctx) {
 					t := ctx.Info.TypeOf(expr)
 					if t != nil {
 						return t.String(), fn.Sel.Name, nil
@@ -196,20 +206,9 @@ func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
 						}
 						return "undefined", fn.Sel.Name, fmt.Errorf("missing type info")
 					}
-					if call.Obj != nil {
-						switch decl := call.Obj.Decl.(type) {
-						case *ast.FuncDecl:
-							ret := decl.Type.Results
-							if ret != nil && len(ret.List) > 0 {
-								ret1 := ret.List[0]
-								if ret1 != nil {
-									t := ctx.Info.TypeOf(ret1.Type)
-									if t != nil {
-										return t.String(), fn.Sel.Name, nil
-									}
-									return "undefined", fn.Sel.Name, fmt.Errorf("missing type info")
-								}
-							}
+					if function, ok := ctx.Info.Uses[call].(*types.Func); ok {
+						if signature, ok := function.Type().(*types.Signature); ok && signature.Results().Len() > 0 {
+							return signature.Results().At(0).Type().String(), fn.Sel.Name, nil
 						}
 					}
 				}
@@ -306,6 +305,15 @@ func GetImportedNames(path string, ctx *Context) (names []string, found bool) {
 	return importNames, imported
 }
 
+// GetPackageName returns the name of the package an identifier refers to, which does not depend
+// on the alias used to import the package.
+func GetPackageName(ident *ast.Ident, ctx *Context) (string, bool) {
+	if pkg, ok := ctx.Info.Uses[ident].(*types.PkgName); ok {
+		return pkg.Imported().Name(), true
+	}
+	return "", false
+}
+
 // GetImportPath resolves the full import path of an identifier based on
 // the imports in the current context(including aliases).
 func GetImportPath(name string, ctx *Context) (string, bool) {
-- 
2.43.0


From 69932c7f05e2d06c634e17877ec64706766403be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 36/68] fix: G104 recognises whitelisted functions of packages
 imported under an alias

---
 rules/errors.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rules/errors.go b/rules/errors.go
index 2786426..a9fc860 100644
--- a/rules/errors.go
+++ b/rules/errors.go
@@ -50,13 +50,26 @@ func returnsError(callExpr *ast.CallExpr, ctx *gosec.Context) int {
 	return -1
 }
 
+// whitelisted tells if the errors of a call can be ignored. The functions of a package are listed
+// under its name, whatever the name under which it is imported.
+func (r *noErrorCheck) whitelisted(call *ast.CallExpr, ctx *gosec.Context) bool {
+	if selector, ok := call.Fun.(*ast.SelectorExpr); ok {
+		if ident, ok := selector.X.(*ast.Ident); ok {
+			if name, ok := gosec.GetPackageName(ident, ctx); ok {
+				return r.whitelist.Contains(name, selector.Sel.Name)
+			}
+		}
+	}
+	return r.whitelist.ContainsCallExpr(call, ctx) != nil
+}
+
 func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
 	switch stmt := n.(type) {
 	case *ast.AssignStmt:
 		cfg := ctx.Config
 		if enabled, err := cfg.IsGlobalEnabled(gosec.Audit); err == nil && enabled {
 			for _, expr := range stmt.Rhs {
-				if callExpr, ok := expr.(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(expr, ctx) == nil {
+				if callExpr, ok := expr.(*ast.CallExpr); ok && !r.whitelisted(callExpr, ctx) {
 					pos := returnsError(callExpr, ctx)
 					if pos < 0 || pos >= len(stmt.Lhs) {
 						return nil, nil
@@ -68,7 +81,7 @@ func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 			}
 		}
 	case *ast.ExprStmt:
-		if callExpr, ok := stmt.X.(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(stmt.X, ctx) == nil {
+		if callExpr, ok := stmt.X.(*ast.CallExpr); ok && !r.whitelisted(callExpr, ctx) {
 			pos := returnsError(callExpr, ctx)
 			if pos >= 0 {
 				return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
-- 
2.43.0


From c3aa87be29f29ad0757520094bb3d202ec61905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 37/68] fix: G111 recognises http.Dir under an import alias

---
 rules/directory-traversal.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rules/directory-traversal.go b/rules/directory-traversal.go
index 47bcb2d..5b94106 100644
--- a/rules/directory-traversal.go
+++ b/rules/directory-traversal.go
@@ -30,7 +30,11 @@ func (r *traversal) matchCallExpr(assign *ast.CallExpr, ctx *gosec.Context) (*is
 		if basiclit, ok1 := i.(*ast.BasicLit); ok1 {
 			if fun, ok2 := assign.Fun.(*ast.SelectorExpr); ok2 {
 				if x, ok3 := fun.X.(*ast.Ident); ok3 {
-					str := x.Name + "." + fun.Sel.Name + "(" + basiclit.Value + ")"
+					name := x.Name
+					if pkgName, ok := gosec.GetPackageName(x, ctx); ok {
+						name = pkgName
+					}
+					str := name + "." + fun.Sel.Name + "(" + basiclit.Value + ")"
 					if r.pattern.MatchString(str) {
 						return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
 					}
-- 
2.43.0


From c8ecbe81d41b7c79eb745323ce2b7e89905694df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 38/68] fix: G204 skips the context of CommandContext whatever
 the name of the import

---
 rules/subproc.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/rules/subproc.go b/rules/subproc.go
index 1686319..d0c9db5 100644
--- a/rules/subproc.go
+++ b/rules/subproc.go
@@ -96,17 +96,11 @@ func (r *subprocess) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	return nil, nil
 }
 
-// isContext checks whether or not the node is a CommandContext call or not
+// isContext checks whether or not the matched call is a CommandContext call or not
 // This is required in order to skip the first argument from the check.
 func (r *subprocess) isContext(n ast.Node, ctx *gosec.Context) bool {
-	selector, indent, err := gosec.GetCallInfo(n, ctx)
-	if err != nil {
-		return false
-	}
-	if selector == "exec" && indent == "CommandContext" {
-		return true
-	}
-	return false
+	_, ident, err := gosec.GetCallInfo(n, ctx)
+	return err == nil && ident == "CommandContext"
 }
 
 // NewSubproc detects cases where we are forking out to an external process
-- 
2.43.0


From a0c7270acff773427c12ba9bc986fc65b91f62a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 39/68] fix: G201 recognises os.Stdout and os.Stderr under an
 import alias

---
 rules/sql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/sql.go b/rules/sql.go
index fc090a3..0e83751 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -296,7 +296,7 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 				}
 				if arg, ok := node.Args[0].(*ast.SelectorExpr); ok {
 					if ident, ok := arg.X.(*ast.Ident); ok {
-						if s.noIssue.Contains(ident.Name, arg.Sel.Name) {
+						if name, ok := gosec.GetPackageName(ident, ctx); ok && s.noIssue.Contains(name, arg.Sel.Name) {
 							return nil
 						}
 					}
-- 
2.43.0


From 8c3ced311b132db7fa7a0931d6cd87559152f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 40/68] fix: G107 tells a local variable from a package level
 one with the same name

---
 rules/ssrf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/ssrf.go b/rules/ssrf.go
index dbf0108..a301f7e 100644
--- a/rules/ssrf.go
+++ b/rules/ssrf.go
@@ -27,7 +27,7 @@ func (r *ssrf) ResolveVar(n *ast.CallExpr, c *gosec.Context) bool {
 			obj := c.Info.ObjectOf(ident)
 			if _, ok := obj.(*types.Var); ok {
 				scope := c.Pkg.Scope()
-				if scope != nil && scope.Lookup(ident.Name) != nil {
+				if scope != nil && scope.Lookup(ident.Name) == obj {
 					// a URL defined in a variable at package scope can be changed at any time
 					return true
 				}
-- 
2.43.0


From 697f562efb0b5fa7430592fa26a1251c09684512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 41/68] fix: G115 follows the comparisons which guard a
 conversion

A comparison silenced the report when the conversion was also reached with the opposite result,
bounds were off by one for <= and >=, comparisons with the constant on the left and constants
converted to 64 bits were misjudged, guards of named types were ignored, a bit size of zero
was taken for the smallest type and functions of any package called ParseInt for the one of
strconv. The range of the converted value is now computed along the control flow graph.
---
 analyzers/conversion_overflow.go | 624 ++++++++++++++-----------------
 1 file changed, 291 insertions(+), 333 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 42e1867..fb9103c 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -15,13 +15,15 @@
 package analyzers
 
 import (
-	"cmp"
 	"fmt"
+	"go/constant"
 	"go/token"
+	"go/types"
 	"math"
+	"math/big"
 	"regexp"
+	"slices"
 	"strconv"
-	"strings"
 
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
@@ -37,23 +39,6 @@ type integer struct {
 	max    uint
 }
 
-type rangeResult struct {
-	minValue             int
-	maxValue             uint
-	explicitPositiveVals []uint
-	explicitNegativeVals []int
-	isRangeCheck         bool
-	convertFound         bool
-}
-
-type branchResults struct {
-	minValue             *int
-	maxValue             *uint
-	explicitPositiveVals []uint
-	explicitNegativeVals []int
-	convertFound         bool
-}
-
 func newConversionOverflowAnalyzer(id string, description string) *analysis.Analyzer {
 	return &analysis.Analyzer{
 		Name:     id,
@@ -78,7 +63,7 @@ func runConversionOverflow(pass *analysis.Pass) (interface{}, error) {
 					src := instr.X.Type().Underlying().String()
 					dst := instr.Type().Underlying().String()
 					if isIntOverflow(src, dst) {
-						if isSafeConversion(instr) {
+						if isSafeConversion(instr, dst) {
 							continue
 						}
 						issue := newIssue(pass.Analyzer.Name,
@@ -168,392 +153,365 @@ func parseIntType(intType string) (integer, error) {
 	}, nil
 }
 
-func isSafeConversion(instr *ssa.Convert) bool {
-	dstType := instr.Type().Underlying().String()
-
-	// Check for constant conversions.
-	if constVal, ok := instr.X.(*ssa.Const); ok {
-		if isConstantInRange(constVal, dstType) {
-			return true
-		}
-	}
-
-	// Check for string to integer conversions with specified bit size.
-	if isStringToIntConversion(instr, dstType) {
-		return true
-	}
-
-	// Check for explicit range checks.
-	if hasExplicitRangeCheck(instr, dstType) {
-		return true
-	}
-
-	return false
-}
-
-func isConstantInRange(constVal *ssa.Const, dstType string) bool {
-	value, err := strconv.ParseInt(constVal.Value.String(), 10, 64)
-	if err != nil {
-		return false
-	}
-
+// isSafeConversion checks that every value which can reach the conversion is a value of the
+// destination type.
+func isSafeConversion(instr *ssa.Convert, dstType string) bool {
 	dstInt, err := parseIntType(dstType)
 	if err != nil {
 		return false
 	}
-
-	if dstInt.signed {
-		return value >= -(1<<(dstInt.size-1)) && value <= (1<<(dstInt.size-1))-1
-	}
-	return value >= 0 && value <= (1<<dstInt.size)-1
+	values := convertedRange(instr)
+	return values.isEmpty() || (values.min.Cmp(dstInt.valueRange().min) >= 0 && values.max.Cmp(dstInt.valueRange().max) <= 0)
 }
 
-func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
-	// Traverse the SSA instructions to find the original variable.
-	original := instr.X
-	for {
-		switch v := original.(type) {
-		case *ssa.Call:
-			if v.Call.StaticCallee() != nil && (v.Call.StaticCallee().Name() == "ParseInt" || v.Call.StaticCallee().Name() == "ParseUint") {
-				if len(v.Call.Args) == 3 {
-					if bitSize, ok := v.Call.Args[2].(*ssa.Const); ok {
-						signed := v.Call.StaticCallee().Name() == "ParseInt"
-						bitSizeValue, err := strconv.Atoi(bitSize.Value.String())
-						if err != nil {
-							return false
-						}
-						dstInt, err := parseIntType(dstType)
-						if err != nil {
-							return false
-						}
-
-						// we're good if:
-						// - signs match and bit size is <= than destination
-						// - parsing unsigned and bit size is < than destination
-						isSafe := (bitSizeValue <= dstInt.size && signed == dstInt.signed) ||
-							(bitSizeValue < dstInt.size && !signed)
-						return isSafe
-					}
-				}
-			}
-			return false
-		case *ssa.Phi:
-			original = v.Edges[0]
-		case *ssa.Extract:
-			original = v.Tuple
-		default:
-			return false
-		}
-	}
+// valueRange holds the bounds of the values that an integer can have. It is empty when the
+// minimum is greater than the maximum.
+type valueRange struct {
+	min, max *big.Int
 }
 
-func hasExplicitRangeCheck(instr *ssa.Convert, dstType string) bool {
-	dstInt, err := parseIntType(dstType)
-	if err != nil {
-		return false
-	}
-
-	srcInt, err := parseIntType(instr.X.Type().String())
-	if err != nil {
-		return false
-	}
-
-	minValue := srcInt.min
-	maxValue := srcInt.max
-	explicitPositiveVals := []uint{}
-	explicitNegativeVals := []int{}
+func (i integer) valueRange() valueRange {
+	return valueRange{min: big.NewInt(int64(i.min)), max: new(big.Int).SetUint64(uint64(i.max))}
+}
 
-	if minValue > dstInt.min && maxValue < dstInt.max {
-		return true
-	}
+func emptyRange() valueRange {
+	return valueRange{min: big.NewInt(1), max: big.NewInt(0)}
+}
 
-	visitedIfs := make(map[*ssa.If]bool)
-	for _, block := range instr.Parent().Blocks {
-		for _, blockInstr := range block.Instrs {
-			switch v := blockInstr.(type) {
-			case *ssa.If:
-				result := getResultRange(v, instr, visitedIfs)
-				if result.isRangeCheck {
-					minValue = max(minValue, result.minValue)
-					maxValue = min(maxValue, result.maxValue)
-					explicitPositiveVals = append(explicitPositiveVals, result.explicitPositiveVals...)
-					explicitNegativeVals = append(explicitNegativeVals, result.explicitNegativeVals...)
-				}
-			case *ssa.Call:
-				// These function return an int of a guaranteed size.
-				if v != instr.X {
-					continue
-				}
-				if fn, isBuiltin := v.Call.Value.(*ssa.Builtin); isBuiltin {
-					switch fn.Name() {
-					case "len", "cap":
-						minValue = 0
-					}
-				}
-			}
+func (r valueRange) isEmpty() bool {
+	return r.min.Cmp(r.max) > 0
+}
 
-			if explicitValsInRange(explicitPositiveVals, explicitNegativeVals, dstInt) {
-				return true
-			} else if minValue >= dstInt.min && maxValue <= dstInt.max {
-				return true
-			}
-		}
-	}
-	return false
+func (r valueRange) equal(o valueRange) bool {
+	return r.min.Cmp(o.min) == 0 && r.max.Cmp(o.max) == 0
 }
 
-// getResultRange is a recursive function that walks the branches of the if statement to find the range of the variable.
-func getResultRange(ifInstr *ssa.If, instr *ssa.Convert, visitedIfs map[*ssa.If]bool) rangeResult {
-	if visitedIfs[ifInstr] {
-		return rangeResult{minValue: math.MinInt, maxValue: math.MaxUint}
+// union returns the smallest range which includes both.
+func (r valueRange) union(o valueRange) valueRange {
+	if r.isEmpty() {
+		return o
 	}
-	visitedIfs[ifInstr] = true
-
-	cond := ifInstr.Cond
-	binOp, ok := cond.(*ssa.BinOp)
-	if !ok || !isRangeCheck(binOp, instr.X) {
-		return rangeResult{minValue: math.MinInt, maxValue: math.MaxUint}
+	if o.isEmpty() {
+		return r
 	}
-
-	result := rangeResult{
-		minValue:     math.MinInt,
-		maxValue:     math.MaxUint,
-		isRangeCheck: true,
+	if o.min.Cmp(r.min) < 0 {
+		r.min = o.min
 	}
-
-	thenBounds := walkBranchForConvert(ifInstr.Block().Succs[0], instr, visitedIfs)
-	elseBounds := walkBranchForConvert(ifInstr.Block().Succs[1], instr, visitedIfs)
-
-	updateResultFromBinOp(&result, binOp, instr, thenBounds.convertFound)
-
-	if thenBounds.convertFound {
-		result.convertFound = true
-		result.minValue = maxWithPtr(result.minValue, thenBounds.minValue)
-		result.maxValue = minWithPtr(result.maxValue, thenBounds.maxValue)
-	} else if elseBounds.convertFound {
-		result.convertFound = true
-		result.minValue = maxWithPtr(result.minValue, elseBounds.minValue)
-		result.maxValue = minWithPtr(result.maxValue, elseBounds.maxValue)
+	if o.max.Cmp(r.max) > 0 {
+		r.max = o.max
 	}
-
-	result.explicitPositiveVals = append(result.explicitPositiveVals, thenBounds.explicitPositiveVals...)
-	result.explicitNegativeVals = append(result.explicitNegativeVals, thenBounds.explicitNegativeVals...)
-	result.explicitPositiveVals = append(result.explicitPositiveVals, elseBounds.explicitPositiveVals...)
-	result.explicitNegativeVals = append(result.explicitNegativeVals, elseBounds.explicitNegativeVals...)
-
-	return result
+	return r
 }
 
-// updateResultFromBinOp updates the rangeResult based on the BinOp instruction and the location of the Convert instruction.
-func updateResultFromBinOp(result *rangeResult, binOp *ssa.BinOp, instr *ssa.Convert, successPathConvert bool) {
-	x, y := binOp.X, binOp.Y
-	operandsFlipped := false
-
-	compareVal, op := getRealValueFromOperation(instr.X)
-
-	// Handle FieldAddr
-	if fieldAddr, ok := compareVal.(*ssa.FieldAddr); ok {
-		compareVal = fieldAddr
+func (r valueRange) intersect(o valueRange) valueRange {
+	if o.min.Cmp(r.min) > 0 {
+		r.min = o.min
+	}
+	if o.max.Cmp(r.max) < 0 {
+		r.max = o.max
+	}
+	if r.isEmpty() {
+		return emptyRange()
 	}
+	return r
+}
 
-	if !isSameOrRelated(x, compareVal) {
-		y = x
-		operandsFlipped = true
+func (r valueRange) negate() valueRange {
+	if r.isEmpty() {
+		return r
 	}
+	return valueRange{min: new(big.Int).Neg(r.max), max: new(big.Int).Neg(r.min)}
+}
 
-	constVal, ok := y.(*ssa.Const)
-	if !ok {
-		return
-	}
-	// TODO: constVal.Value nil check avoids #1229 panic but seems to be hiding a bug in the code above or in x/tools/go/ssa.
-	if constVal.Value == nil {
-		// log.Fatalf("[gosec] constVal.Value is nil flipped=%t, constVal=%#v, binOp=%#v", operandsFlipped, constVal, binOp)
-		return
-	}
-	switch binOp.Op {
-	case token.LEQ, token.LSS:
-		updateMinMaxForLessOrEqual(result, constVal, binOp.Op, operandsFlipped, successPathConvert)
-	case token.GEQ, token.GTR:
-		updateMinMaxForGreaterOrEqual(result, constVal, binOp.Op, operandsFlipped, successPathConvert)
+// compare returns the values of the range for which a comparison with a constant holds.
+func (r valueRange) compare(op token.Token, val *big.Int) valueRange {
+	one := big.NewInt(1)
+	res := r
+	switch op {
+	case token.LSS:
+		res.max = new(big.Int).Sub(val, one)
+	case token.LEQ:
+		res.max = val
+	case token.GTR:
+		res.min = new(big.Int).Add(val, one)
+	case token.GEQ:
+		res.min = val
 	case token.EQL:
-		if !successPathConvert {
-			break
-		}
-		updateExplicitValues(result, constVal)
+		res.min, res.max = val, val
 	case token.NEQ:
-		if successPathConvert {
-			break
+		if r.min.Cmp(val) == 0 {
+			res.min = new(big.Int).Add(val, one)
+		}
+		if r.max.Cmp(val) == 0 {
+			res.max = new(big.Int).Sub(val, one)
 		}
-		updateExplicitValues(result, constVal)
 	}
+	return r.intersect(res)
+}
 
-	if op == "neg" {
-		minVal := result.minValue
-		maxVal := result.maxValue
+// convertedRange returns the range of the values which reach the conversion. It starts with what is
+// known of the value where it is defined, and follows the branches from there to the conversion.
+func convertedRange(instr *ssa.Convert) valueRange {
+	value, negated := getComparedValue(instr.X)
 
-		if minVal >= 0 {
-			result.maxValue = uint(minVal)
-		}
-		if maxVal <= math.MaxInt {
-			result.minValue = int(maxVal)
+	initial := typeRange(instr.X.Type())
+	if !isMemory(value) {
+		initial = initialRange(value, map[ssa.Value]bool{})
+	}
+	start := instr.Parent().Blocks[0]
+	if _, isAddr := value.(*ssa.FieldAddr); !isAddr {
+		if def, ok := value.(ssa.Instruction); ok && def.Block() != nil {
+			start = def.Block()
 		}
 	}
-}
 
-func updateExplicitValues(result *rangeResult, constVal *ssa.Const) {
-	if strings.Contains(constVal.String(), "-") {
-		result.explicitNegativeVals = append(result.explicitNegativeVals, int(constVal.Int64()))
-	} else {
-		result.explicitPositiveVals = append(result.explicitPositiveVals, uint(constVal.Uint64()))
+	ranges := make([]valueRange, len(instr.Parent().Blocks))
+	for i := range ranges {
+		ranges[i] = emptyRange()
 	}
-}
-
-func updateMinMaxForLessOrEqual(result *rangeResult, constVal *ssa.Const, op token.Token, operandsFlipped bool, successPathConvert bool) {
-	// If the success path has a conversion and the operands are not flipped, then the constant value is the maximum value.
-	if successPathConvert && !operandsFlipped {
-		result.maxValue = uint(constVal.Uint64())
-		if op == token.LEQ {
-			result.maxValue--
-		}
-	} else {
-		result.minValue = int(constVal.Int64())
-		if op == token.GTR {
-			result.minValue++
+	ranges[start.Index] = initial
+	for queue := []*ssa.BasicBlock{start}; len(queue) > 0; queue = queue[1:] {
+		block := queue[0]
+		for i, succ := range block.Succs {
+			if succ == start {
+				continue
+			}
+			reaching := ranges[block.Index]
+			stored := lastStore(block.Instrs, value)
+			if stored >= 0 && !reaching.isEmpty() {
+				reaching = initial
+			}
+			if cond, ok := block.Instrs[len(block.Instrs)-1].(*ssa.If); ok && (stored < 0 || isLoadedIn(cond.Cond, block.Instrs[stored:])) {
+				reaching = branchRange(reaching, cond.Cond, i == 0, value)
+			}
+			if merged := ranges[succ.Index].union(reaching); !merged.equal(ranges[succ.Index]) {
+				ranges[succ.Index] = merged
+				queue = append(queue, succ)
+			}
 		}
 	}
-}
 
-func updateMinMaxForGreaterOrEqual(result *rangeResult, constVal *ssa.Const, op token.Token, operandsFlipped bool, successPathConvert bool) {
-	// If the success path has a conversion and the operands are not flipped, then the constant value is the minimum value.
-	if successPathConvert && !operandsFlipped {
-		result.minValue = int(constVal.Int64())
-		if op == token.GEQ {
-			result.minValue++
-		}
-	} else {
-		result.maxValue = uint(constVal.Uint64())
-		if op == token.LSS {
-			result.maxValue--
-		}
+	result := ranges[instr.Block().Index]
+	if instrs := instr.Block().Instrs; lastStore(instrs[:slices.Index(instrs, ssa.Instruction(instr))], value) >= 0 {
+		result = initial
+	}
+	if negated {
+		return result.negate()
 	}
+	return result
 }
 
-// walkBranchForConvert walks the branch of the if statement to find the range of the variable and where the conversion is.
-func walkBranchForConvert(block *ssa.BasicBlock, instr *ssa.Convert, visitedIfs map[*ssa.If]bool) branchResults {
-	bounds := branchResults{}
-
-	for _, blockInstr := range block.Instrs {
-		switch v := blockInstr.(type) {
-		case *ssa.If:
-			result := getResultRange(v, instr, visitedIfs)
-			bounds.convertFound = bounds.convertFound || result.convertFound
-
-			if result.isRangeCheck {
-				bounds.minValue = toPtr(maxWithPtr(result.minValue, bounds.minValue))
-				bounds.maxValue = toPtr(minWithPtr(result.maxValue, bounds.maxValue))
-				bounds.explicitPositiveVals = append(bounds.explicitPositiveVals, result.explicitPositiveVals...)
-				bounds.explicitNegativeVals = append(bounds.explicitNegativeVals, result.explicitNegativeVals...)
+// initialRange returns the range of the values that are possible where a value is defined.
+func initialRange(value ssa.Value, seen map[ssa.Value]bool) valueRange {
+	seen[value] = true
+	values := typeRange(value.Type())
+
+	switch v := value.(type) {
+	case *ssa.Const:
+		if val, ok := getConstInt(v); ok {
+			return valueRange{min: val, max: val}
+		}
+	case *ssa.Call:
+		if fn, isBuiltin := v.Call.Value.(*ssa.Builtin); isBuiltin {
+			switch fn.Name() {
+			case "len", "cap":
+				// These functions never return a negative value.
+				return values.compare(token.GEQ, big.NewInt(0))
 			}
-		case *ssa.Call:
-			if v == instr.X {
-				if fn, isBuiltin := v.Call.Value.(*ssa.Builtin); isBuiltin && (fn.Name() == "len" || fn.Name() == "cap") {
-					bounds.minValue = toPtr(0)
-				}
+		}
+	case *ssa.Extract:
+		// The size of a parsed integer can be limited.
+		if call, ok := v.Tuple.(*ssa.Call); ok && v.Index == 0 {
+			if parsed, ok := parsedRange(call); ok {
+				return values.intersect(parsed)
 			}
-		case *ssa.Convert:
-			if v == instr {
-				bounds.convertFound = true
-				return bounds
+		}
+	case *ssa.Phi:
+		result := emptyRange()
+		for _, edge := range v.Edges {
+			if !seen[edge] {
+				result = result.union(initialRange(edge, seen))
 			}
 		}
+		return values.intersect(result)
 	}
+	return values
+}
 
-	return bounds
+// typeRange returns the range of the values of an integer type.
+func typeRange(t types.Type) valueRange {
+	if srcInt, err := parseIntType(t.Underlying().String()); err == nil {
+		return srcInt.valueRange()
+	}
+	return valueRange{min: big.NewInt(math.MinInt64), max: new(big.Int).SetUint64(math.MaxUint64)}
 }
 
-func isRangeCheck(v ssa.Value, x ssa.Value) bool {
-	compareVal, _ := getRealValueFromOperation(x)
+// isMemory tells if a value is the address which a compared value is loaded from.
+func isMemory(value ssa.Value) bool {
+	_, ok := value.Type().Underlying().(*types.Pointer)
+	return ok
+}
 
-	switch op := v.(type) {
-	case *ssa.BinOp:
-		switch op.Op {
-		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
-			leftMatch := isSameOrRelated(op.X, compareVal)
-			rightMatch := isSameOrRelated(op.Y, compareVal)
-			return leftMatch || rightMatch
+// lastStore returns the index of the last instruction which changes the value at an address.
+func lastStore(instrs []ssa.Instruction, value ssa.Value) int {
+	for i := len(instrs) - 1; i >= 0; i-- {
+		if store, ok := instrs[i].(*ssa.Store); ok && isSameOrRelated(store.Addr, value) {
+			return i
 		}
 	}
-	return false
+	return -1
 }
 
-func getRealValueFromOperation(v ssa.Value) (ssa.Value, string) {
-	switch v := v.(type) {
-	case *ssa.UnOp:
-		if v.Op == token.SUB {
-			val, _ := getRealValueFromOperation(v.X)
-			return val, "neg"
+// isLoadedIn tells if a compared value is loaded by one of the instructions.
+func isLoadedIn(cond ssa.Value, instrs []ssa.Instruction) bool {
+	if not, ok := cond.(*ssa.UnOp); ok && not.Op == token.NOT {
+		cond = not.X
+	}
+	binOp, ok := cond.(*ssa.BinOp)
+	if !ok {
+		return false
+	}
+	for _, operand := range []ssa.Value{binOp.X, binOp.Y} {
+		if load, ok := operand.(*ssa.UnOp); ok && slices.Contains(instrs, ssa.Instruction(load)) {
+			return true
 		}
-		return getRealValueFromOperation(v.X)
-	case *ssa.FieldAddr:
-		return v, "field"
-	case *ssa.Alloc:
-		return v, "alloc"
 	}
-	return v, ""
+	return false
 }
 
-func isSameOrRelated(a, b ssa.Value) bool {
-	aVal, _ := getRealValueFromOperation(a)
-	bVal, _ := getRealValueFromOperation(b)
-
-	if aVal == bVal {
-		return true
+// parsedRange returns the range of an integer parsed with a given bit size.
+func parsedRange(call *ssa.Call) (valueRange, bool) {
+	callee := call.Call.StaticCallee()
+	if callee == nil || len(call.Call.Args) != 3 {
+		return valueRange{}, false
 	}
+	signed := callee.String() == "strconv.ParseInt"
+	if !signed && callee.String() != "strconv.ParseUint" {
+		return valueRange{}, false
+	}
+	bitSize, ok := call.Call.Args[2].(*ssa.Const)
+	if !ok {
+		return valueRange{}, false
+	}
+	val, ok := getConstInt(bitSize)
+	if !ok || !val.IsUint64() || val.Uint64() > 64 {
+		return valueRange{}, false
+	}
+	size := uint(val.Uint64())
+	if size == 0 {
+		size = strconv.IntSize
+	}
+	one := big.NewInt(1)
+	if signed {
+		limit := new(big.Int).Lsh(one, size-1)
+		return valueRange{min: new(big.Int).Neg(limit), max: limit.Sub(limit, one)}, true
+	}
+	limit := new(big.Int).Lsh(one, size)
+	return valueRange{min: big.NewInt(0), max: limit.Sub(limit, one)}, true
+}
 
-	// Check if both are FieldAddr operations referring to the same field of the same struct
-	if aField, aOk := aVal.(*ssa.FieldAddr); aOk {
-		if bField, bOk := bVal.(*ssa.FieldAddr); bOk {
-			return aField.X == bField.X && aField.Field == bField.Field
+// branchRange returns the values for which a condition has the given result.
+func branchRange(values valueRange, cond ssa.Value, result bool, value ssa.Value) valueRange {
+	if not, ok := cond.(*ssa.UnOp); ok && not.Op == token.NOT {
+		return branchRange(values, not.X, !result, value)
+	}
+	binOp, ok := cond.(*ssa.BinOp)
+	if !ok || values.isEmpty() {
+		return values
+	}
+	op := binOp.Op
+	constVal, ok := binOp.Y.(*ssa.Const)
+	compared := binOp.X
+	if !ok {
+		if constVal, ok = binOp.X.(*ssa.Const); !ok {
+			return values
 		}
+		compared = binOp.Y
+		op = flippedComparison(op)
+	}
+	val, ok := getConstInt(constVal)
+	if !ok {
+		return values
+	}
+	comparedVal, negated := getComparedValue(compared)
+	if !isSameOrRelated(comparedVal, value) {
+		return values
+	}
+	if !result {
+		op = oppositeComparison(op)
 	}
+	if negated {
+		return values.negate().compare(op, val).negate()
+	}
+	return values.compare(op, val)
+}
 
-	return false
+func flippedComparison(op token.Token) token.Token {
+	switch op {
+	case token.LSS:
+		return token.GTR
+	case token.LEQ:
+		return token.GEQ
+	case token.GTR:
+		return token.LSS
+	case token.GEQ:
+		return token.LEQ
+	}
+	return op
 }
 
-func explicitValsInRange(explicitPosVals []uint, explicitNegVals []int, dstInt integer) bool {
-	if len(explicitPosVals) == 0 && len(explicitNegVals) == 0 {
-		return false
+func oppositeComparison(op token.Token) token.Token {
+	switch op {
+	case token.LSS:
+		return token.GEQ
+	case token.LEQ:
+		return token.GTR
+	case token.GTR:
+		return token.LEQ
+	case token.GEQ:
+		return token.LSS
+	case token.EQL:
+		return token.NEQ
+	case token.NEQ:
+		return token.EQL
 	}
+	return op
+}
 
-	for _, val := range explicitPosVals {
-		if val > dstInt.max {
-			return false
-		}
+// getConstInt returns the value of an integer constant.
+func getConstInt(c *ssa.Const) (*big.Int, bool) {
+	if c.Value == nil || c.Value.Kind() != constant.Int {
+		return nil, false
 	}
+	return new(big.Int).SetString(c.Value.ExactString(), 10)
+}
 
-	for _, val := range explicitNegVals {
-		if val < dstInt.min {
-			return false
+// getComparedValue returns the value whose range is of interest, and if it is negated. For values
+// which are loaded from memory this is the address they are loaded from.
+func getComparedValue(v ssa.Value) (ssa.Value, bool) {
+	if unOp, ok := v.(*ssa.UnOp); ok {
+		switch unOp.Op {
+		case token.SUB:
+			val, negated := getComparedValue(unOp.X)
+			return val, !negated
+		case token.MUL:
+			return unOp.X, false
 		}
 	}
-
-	return true
+	return v, false
 }
 
-func minWithPtr[T cmp.Ordered](a T, b *T) T {
-	if b == nil {
-		return a
+func isSameOrRelated(a, b ssa.Value) bool {
+	if a == b {
+		return true
 	}
-	return min(a, *b)
-}
 
-func maxWithPtr[T cmp.Ordered](a T, b *T) T {
-	if b == nil {
-		return a
+	// Check if both are FieldAddr operations referring to the same field of the same struct
+	if aField, aOk := a.(*ssa.FieldAddr); aOk {
+		if bField, bOk := b.(*ssa.FieldAddr); bOk {
+			return aField.X == bField.X && aField.Field == bField.Field
+		}
 	}
-	return max(a, *b)
-}
 
-func toPtr[T any](a T) *T {
-	return &a
+	return false
 }
-- 
2.43.0


From ab471a2ccd58c050abdf1670a16d0956f6b735e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 42/68] fix: G115 checks conversions from and to byte and rune

---
 analyzers/conversion_overflow.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index fb9103c..1768758 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -101,6 +101,12 @@ func isIntOverflow(src string, dst string) bool {
 }
 
 func parseIntType(intType string) (integer, error) {
+	switch intType {
+	case "byte":
+		intType = "uint8"
+	case "rune":
+		intType = "int32"
+	}
 	re := regexp.MustCompile(`^(?P<type>u?int)(?P<size>\d{1,2})?$`)
 	matches := re.FindStringSubmatch(intType)
 	if matches == nil {
-- 
2.43.0


From 3d3a0dc4dbe00da7402eaea2d6afd6952bf2f7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 43/68] fix: G602 tells the length of a slice from its capacity

Slicing a slice within its capacity was reported and bounds beyond it were not, because a single
number was tracked for both; bounds of zero were taken for missing ones, unknown bounds for zero,
the third bound and constants of other integer types were ignored, and arrays sliced with bounds
held in variables were not checked.
---
 analyzers/slice_bounds.go | 275 +++++++++++++++-----------------------
 1 file changed, 107 insertions(+), 168 deletions(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index cfa2e81..d26178f 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -15,12 +15,11 @@
 package analyzers
 
 import (
-	"errors"
 	"fmt"
+	"go/constant"
 	"go/token"
-	"regexp"
+	"go/types"
 	"strconv"
-	"strings"
 
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
@@ -62,46 +61,32 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 			for _, instr := range block.Instrs {
 				switch instr := instr.(type) {
 				case *ssa.Alloc:
-					sliceCap, err := extractSliceCapFromAlloc(instr.String())
-					if err != nil {
+					size, ok := extractSizeFromAlloc(instr)
+					if !ok {
 						break
 					}
-					allocRefs := instr.Referrers()
-					if allocRefs == nil {
-						break
-					}
-					for _, instr := range *allocRefs {
-						if slice, ok := instr.(*ssa.Slice); ok {
-							if _, ok := slice.X.(*ssa.Alloc); ok {
-								if slice.Parent() != nil {
-									l, h := extractSliceBounds(slice)
-									newCap := computeSliceNewCap(l, h, sliceCap)
-									violations := []ssa.Instruction{}
-									trackSliceBounds(0, newCap, slice, &violations, ifs, map[visit]int{})
-									for _, s := range violations {
-										switch s := s.(type) {
-										case *ssa.Slice:
-											issue := newIssue(
-												pass.Analyzer.Name,
-												"slice bounds out of range",
-												pass.Fset,
-												s.Pos(),
-												issue.Low,
-												issue.High)
-											issues[s] = issue
-										case *ssa.IndexAddr:
-											issue := newIssue(
-												pass.Analyzer.Name,
-												"slice index out of range",
-												pass.Fset,
-												s.Pos(),
-												issue.Low,
-												issue.High)
-											issues[s] = issue
-										}
-									}
-								}
-							}
+					violations := []ssa.Instruction{}
+					trackSliceBounds(0, size, instr, &violations, ifs, map[visit]int{})
+					for _, s := range violations {
+						switch s := s.(type) {
+						case *ssa.Slice:
+							issue := newIssue(
+								pass.Analyzer.Name,
+								"slice bounds out of range",
+								pass.Fset,
+								s.Pos(),
+								issue.Low,
+								issue.High)
+							issues[s] = issue
+						case *ssa.IndexAddr:
+							issue := newIssue(
+								pass.Analyzer.Name,
+								"slice index out of range",
+								pass.Fset,
+								s.Pos(),
+								issue.Low,
+								issue.High)
+							issues[s] = issue
 						}
 					}
 				}
@@ -139,16 +124,11 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 						case upperBounded:
 							switch tinstr := instr.(type) {
 							case *ssa.Slice:
-								lower, upper := extractSliceBounds(tinstr)
-								if isSliceInsideBounds(0, value, lower, upper) {
+								if _, ok := (sliceSize{length: value, capacity: value}).slice(tinstr); ok {
 									delete(issues, instr)
 								}
 							case *ssa.IndexAddr:
-								indexValue, err := extractIntValue(tinstr.Index.String())
-								if err != nil {
-									break
-								}
-								if isSliceIndexInsideBounds(0, value, indexValue) {
+								if (sliceSize{length: value, capacity: value}).hasIndex(tinstr) {
 									delete(issues, instr)
 								}
 							}
@@ -175,12 +155,60 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 	return nil, nil
 }
 
+// sliceSize is the length and the capacity of a slice, or the size of an array for both.
+type sliceSize struct {
+	length, capacity int
+}
+
+// slice returns the size of the result of a slice expression, nil when it is not constant, and
+// whether the bounds are in range.
+func (s sliceSize) slice(expr *ssa.Slice) (*sliceSize, bool) {
+	low, high, limit := 0, s.length, s.capacity
+	known := true
+	for _, bound := range []struct {
+		value ssa.Value
+		dest  *int
+	}{{expr.Low, &low}, {expr.High, &high}, {expr.Max, &limit}} {
+		if bound.value == nil {
+			continue
+		}
+		value, ok := extractIntValue(bound.value)
+		if !ok {
+			// every other bound can only be compared with the capacity
+			known = false
+			continue
+		}
+		if value < 0 || value > s.capacity {
+			return nil, false
+		}
+		*bound.dest = value
+	}
+	if !known {
+		return nil, true
+	}
+	if low > high || high > limit {
+		return nil, false
+	}
+	return &sliceSize{length: high - low, capacity: limit - low}, true
+}
+
+// hasIndex tells if an index is in range. Indexes of empty slices are compared with the capacity.
+func (s sliceSize) hasIndex(expr *ssa.IndexAddr) bool {
+	value, ok := extractIntValue(expr.Index)
+	if !ok {
+		return true
+	}
+	if s.length == 0 {
+		return value >= 0 && value < s.capacity
+	}
+	return value >= 0 && value < s.length
+}
+
 // visit is a step of the tracking, which is taken again only when it leads deeper than before. Otherwise
 // the number of steps grows exponentially, for instance with the calls of a recursive function.
 type visit struct {
-	node     ssa.Node
-	sliceCap int
-	checked  bool
+	node ssa.Value
+	size sliceSize
 }
 
 func alreadyVisited(v visit, depth int, visited map[visit]int) bool {
@@ -191,8 +219,8 @@ func alreadyVisited(v visit, depth int, visited map[visit]int) bool {
 	return false
 }
 
-func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, visited map[visit]int) {
-	if depth == maxDepth || alreadyVisited(visit{node: slice, sliceCap: sliceCap}, depth, visited) {
+func trackSliceBounds(depth int, size sliceSize, slice ssa.Value, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, visited map[visit]int) {
+	if depth == maxDepth || alreadyVisited(visit{node: slice, size: size}, depth, visited) {
 		return
 	}
 	depth++
@@ -204,32 +232,23 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 		for _, refinstr := range *referrers {
 			switch refinstr := refinstr.(type) {
 			case *ssa.Slice:
-				checkAllSlicesBounds(depth, sliceCap, refinstr, violations, ifs, visited)
-				switch refinstr.X.(type) {
-				case *ssa.Alloc, *ssa.Parameter:
-					l, h := extractSliceBounds(refinstr)
-					newCap := computeSliceNewCap(l, h, sliceCap)
-					trackSliceBounds(depth, newCap, refinstr, violations, ifs, visited)
+				newSize, ok := size.slice(refinstr)
+				if !ok {
+					*violations = append(*violations, refinstr)
+				} else if newSize != nil {
+					trackSliceBounds(depth, *newSize, refinstr, violations, ifs, visited)
 				}
 			case *ssa.IndexAddr:
-				indexValue, err := extractIntValue(refinstr.Index.String())
-				if err == nil && !isSliceIndexInsideBounds(0, sliceCap, indexValue) {
+				if !size.hasIndex(refinstr) {
 					*violations = append(*violations, refinstr)
 				}
 			case *ssa.Call:
 				if ifref, cond := extractSliceIfLenCondition(refinstr); ifref != nil && cond != nil {
 					ifs[*ifref] = cond
-				} else {
-					parPos := -1
+				} else if fn, ok := refinstr.Call.Value.(*ssa.Function); ok {
 					for pos, arg := range refinstr.Call.Args {
-						if a, ok := arg.(*ssa.Slice); ok && a == slice {
-							parPos = pos
-						}
-					}
-					if fn, ok := refinstr.Call.Value.(*ssa.Function); ok {
-						if len(fn.Params) > parPos && parPos > -1 {
-							param := fn.Params[parPos]
-							trackSliceBounds(depth, sliceCap, param, violations, ifs, visited)
+						if arg == slice && pos < len(fn.Params) {
+							trackSliceBounds(depth, size, fn.Params[pos], violations, ifs, visited)
 						}
 					}
 				}
@@ -238,43 +257,6 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 	}
 }
 
-func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, visited map[visit]int) {
-	if depth == maxDepth || alreadyVisited(visit{node: slice, sliceCap: sliceCap, checked: true}, depth, visited) {
-		return
-	}
-	depth++
-	if violations == nil {
-		violations = &[]ssa.Instruction{}
-	}
-	sliceLow, sliceHigh := extractSliceBounds(slice)
-	if !isSliceInsideBounds(0, sliceCap, sliceLow, sliceHigh) {
-		*violations = append(*violations, slice)
-	}
-	switch slice.X.(type) {
-	case *ssa.Alloc, *ssa.Parameter, *ssa.Slice:
-		l, h := extractSliceBounds(slice)
-		newCap := computeSliceNewCap(l, h, sliceCap)
-		trackSliceBounds(depth, newCap, slice, violations, ifs, visited)
-	}
-
-	references := slice.Referrers()
-	if references == nil {
-		return
-	}
-	for _, ref := range *references {
-		switch s := ref.(type) {
-		case *ssa.Slice:
-			checkAllSlicesBounds(depth, sliceCap, s, violations, ifs, visited)
-			switch s.X.(type) {
-			case *ssa.Alloc, *ssa.Parameter:
-				l, h := extractSliceBounds(s)
-				newCap := computeSliceNewCap(l, h, sliceCap)
-				trackSliceBounds(depth, newCap, s, violations, ifs, visited)
-			}
-		}
-	}
-}
-
 func extractSliceIfLenCondition(call *ssa.Call) (*ssa.If, *ssa.BinOp) {
 	if builtInLen, ok := call.Call.Value.(*ssa.Builtin); ok {
 		if builtInLen.Name() == "len" {
@@ -296,19 +278,6 @@ func extractSliceIfLenCondition(call *ssa.Call) (*ssa.If, *ssa.BinOp) {
 	return nil, nil
 }
 
-func computeSliceNewCap(l, h, oldCap int) int {
-	if l == 0 && h == 0 {
-		return oldCap
-	}
-	if l > 0 && h == 0 {
-		return oldCap - l
-	}
-	if l == 0 && h > 0 {
-		return h
-	}
-	return h - l
-}
-
 func invBound(bound bound) bound {
 	switch bound {
 	case lowerUnbounded:
@@ -364,57 +333,27 @@ func extractBinOpBound(binop *ssa.BinOp) (bound, int, error) {
 	return lowerUnbounded, 0, fmt.Errorf("unable to extract constant from binop")
 }
 
-func isSliceIndexInsideBounds(l, h int, index int) bool {
-	return (l <= index && index < h)
-}
-
-func isSliceInsideBounds(l, h int, cl, ch int) bool {
-	return (l <= cl && h >= ch) && (l <= ch && h >= cl)
-}
-
-func extractSliceBounds(slice *ssa.Slice) (int, int) {
-	var low int
-	if slice.Low != nil {
-		l, err := extractIntValue(slice.Low.String())
-		if err == nil {
-			low = l
-		}
-	}
-	var high int
-	if slice.High != nil {
-		h, err := extractIntValue(slice.High.String())
-		if err == nil {
-			high = h
-		}
-	}
-	return low, high
-}
-
-func extractIntValue(value string) (int, error) {
-	parts := strings.Split(value, ":")
-	if len(parts) != 2 {
-		return 0, fmt.Errorf("invalid value: %s", value)
+// extractIntValue returns the value of a constant index or bound.
+func extractIntValue(value ssa.Value) (int, bool) {
+	c, ok := value.(*ssa.Const)
+	if !ok || c.Value == nil {
+		return 0, false
 	}
-	if parts[1] != "int" {
-		return 0, fmt.Errorf("invalid value: %s", value)
+	if val, exact := constant.Int64Val(constant.ToInt(c.Value)); exact {
+		return int(val), true
 	}
-	return strconv.Atoi(parts[0])
+	return 0, false
 }
 
-func extractSliceCapFromAlloc(instr string) (int, error) {
-	re := regexp.MustCompile(`new \[(\d+)\]*`)
-	var sliceCap int
-	matches := re.FindAllStringSubmatch(instr, -1)
-	if matches == nil {
-		return sliceCap, errors.New("no slice cap found")
+// extractSizeFromAlloc returns the size of an array, which can be that of a slice.
+func extractSizeFromAlloc(alloc *ssa.Alloc) (sliceSize, bool) {
+	pointer, ok := alloc.Type().Underlying().(*types.Pointer)
+	if !ok {
+		return sliceSize{}, false
 	}
-
-	if len(matches) > 0 {
-		m := matches[0]
-		if len(m) > 1 {
-			return strconv.Atoi(m[1])
-		}
+	array, ok := pointer.Elem().Underlying().(*types.Array)
+	if !ok {
+		return sliceSize{}, false
 	}
-
-	return 0, errors.New("no slice cap found")
+	return sliceSize{length: int(array.Len()), capacity: int(array.Len())}, true
 }
-- 
2.43.0


From 2a2f0cad32fb60d680eb556ae0b423ad4d4c7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:53 +0000
Subject: [PATCH 44/68] fix: G402 resolves versions and sees every literal and
 assignment of a configuration

Versions given by a local variable, by the second name of a declaration or by a
constant expression were not resolved, nor was a named maximum version. Literals
with an elided or aliased type, fields assigned through a pointer and all but
the first operand of an assignment were not looked at.
---
 rules/tls.go | 170 +++++++++++++++++++++++++++++----------------------
 1 file changed, 98 insertions(+), 72 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 2b5ba40..dbc874a 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -20,8 +20,8 @@ import (
 	"crypto/tls"
 	"fmt"
 	"go/ast"
+	"go/constant"
 	"go/types"
-	"strconv"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -70,20 +70,39 @@ func (t *insecureConfigTLS) processTLSConf(n ast.Node, c *gosec.Context) *issue.
 		if issue != nil {
 			return issue
 		}
-	} else if assign, ok := n.(*ast.AssignStmt); ok {
-		if len(assign.Lhs) < 1 || len(assign.Rhs) < 1 {
-			return nil
+	}
+	return nil
+}
+
+func (t *insecureConfigTLS) processTLSAssign(assign *ast.AssignStmt, c *gosec.Context) *issue.Issue {
+	for i, lhs := range assign.Lhs {
+		selector, ok := lhs.(*ast.SelectorExpr)
+		if !ok || !t.isConfig(c.Info.TypeOf(selector.X)) {
+			continue
 		}
-		if selector, ok := assign.Lhs[0].(*ast.SelectorExpr); ok {
-			issue := t.processTLSConfVal(selector.Sel, assign.Rhs[0], c)
-			if issue != nil {
-				return issue
-			}
+		rhs := assign.Rhs[0]
+		if len(assign.Rhs) == len(assign.Lhs) {
+			rhs = assign.Rhs[i]
+		}
+		if issue := t.processTLSConfVal(selector.Sel, rhs, c); issue != nil {
+			return issue
 		}
 	}
 	return nil
 }
 
+// isConfig tells if the type is the one of a configuration or a pointer to it
+func (t *insecureConfigTLS) isConfig(typ types.Type) bool {
+	if typ == nil {
+		return false
+	}
+	typ = types.Unalias(typ)
+	if ptr, ok := typ.(*types.Pointer); ok {
+		typ = types.Unalias(ptr.Elem())
+	}
+	return typ.String() == t.requiredType
+}
+
 func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *gosec.Context) *issue.Issue {
 	if ident, ok := key.(*ast.Ident); ok {
 		switch ident.Name {
@@ -108,55 +127,13 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 			}
 
 		case "MinVersion":
-			if d, ok := value.(*ast.Ident); ok {
-				obj := d.Obj
-				if obj == nil {
-					for _, f := range c.PkgFiles {
-						obj = f.Scope.Lookup(d.Name)
-						if obj != nil {
-							break
-						}
-					}
-				}
-				if obj == nil {
-					return nil
-				}
-				if vs, ok := obj.Decl.(*ast.ValueSpec); ok && len(vs.Values) > 0 {
-					if s, ok := vs.Values[0].(*ast.SelectorExpr); ok {
-						if cst, ok := c.Info.ObjectOf(s.Sel).(*types.Const); ok {
-							// ..got the value check if this can be translated
-							if minVersion, err := strconv.ParseInt(cst.Val().String(), 0, 64); err == nil {
-								t.actualMinVersion = minVersion
-							}
-						}
-					}
-					if ival, ierr := gosec.GetInt(vs.Values[0]); ierr == nil {
-						t.actualMinVersion = ival
-					}
-				}
-			} else if ival, ierr := gosec.GetInt(value); ierr == nil {
-				t.actualMinVersion = ival
-			} else {
-				if se, ok := value.(*ast.SelectorExpr); ok {
-					if pkg, ok := se.X.(*ast.Ident); ok {
-						if ip, ok := gosec.GetImportPath(pkg.Name, c); ok && ip == "crypto/tls" {
-							t.actualMinVersion = t.mapVersion(se.Sel.Name)
-						}
-					}
-				}
+			if version, ok := t.versionOf(value, c); ok {
+				t.actualMinVersion = version
 			}
 
 		case "MaxVersion":
-			if ival, ierr := gosec.GetInt(value); ierr == nil {
-				t.actualMaxVersion = ival
-			} else {
-				if se, ok := value.(*ast.SelectorExpr); ok {
-					if pkg, ok := se.X.(*ast.Ident); ok {
-						if ip, ok := gosec.GetImportPath(pkg.Name, c); ok && ip == "crypto/tls" {
-							t.actualMaxVersion = t.mapVersion(se.Sel.Name)
-						}
-					}
-				}
+			if version, ok := t.versionOf(value, c); ok {
+				t.actualMaxVersion = version
 			}
 
 		case "CipherSuites":
@@ -169,6 +146,65 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 	return nil
 }
 
+// versionOf returns the TLS version a constant expression or a variable with a constant
+// initial value stands for.
+func (t *insecureConfigTLS) versionOf(value ast.Expr, c *gosec.Context) (int64, bool) {
+	if tv, ok := c.Info.Types[value]; ok && tv.Value != nil {
+		return constant.Int64Val(constant.ToInt(tv.Value))
+	}
+	switch v := value.(type) {
+	case *ast.ParenExpr:
+		return t.versionOf(v.X, c)
+	case *ast.Ident:
+		if initial := initialValue(v, c); initial != nil {
+			if tv, ok := c.Info.Types[initial]; ok && tv.Value != nil {
+				return constant.Int64Val(constant.ToInt(tv.Value))
+			}
+		}
+	case *ast.SelectorExpr:
+		if pkg, ok := v.X.(*ast.Ident); ok {
+			if ip, ok := gosec.GetImportPath(pkg.Name, c); ok && ip == "crypto/tls" {
+				return t.mapVersion(v.Sel.Name), true
+			}
+		}
+	default:
+		if version, err := gosec.GetInt(value); err == nil {
+			return version, true
+		}
+	}
+	return 0, false
+}
+
+// initialValue returns the expression an identifier was declared with in the package.
+func initialValue(ident *ast.Ident, c *gosec.Context) ast.Expr {
+	obj := ident.Obj
+	if obj == nil {
+		for _, f := range c.PkgFiles {
+			if obj = f.Scope.Lookup(ident.Name); obj != nil {
+				break
+			}
+		}
+	}
+	if obj == nil {
+		return nil
+	}
+	switch decl := obj.Decl.(type) {
+	case *ast.ValueSpec:
+		for i, name := range decl.Names {
+			if name.Name == obj.Name && len(decl.Values) == len(decl.Names) {
+				return decl.Values[i]
+			}
+		}
+	case *ast.AssignStmt:
+		for i, lhs := range decl.Lhs {
+			if name, ok := lhs.(*ast.Ident); ok && name.Name == obj.Name && len(decl.Rhs) == len(decl.Lhs) {
+				return decl.Rhs[i]
+			}
+		}
+	}
+	return nil
+}
+
 func (t *insecureConfigTLS) mapVersion(version string) int64 {
 	var v int64
 	switch version {
@@ -204,31 +240,21 @@ func (t *insecureConfigTLS) resetVersion() {
 }
 
 func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
-	if complit, ok := n.(*ast.CompositeLit); ok && complit.Type != nil {
-		actualType := c.Info.TypeOf(complit.Type)
-		if actualType != nil && actualType.String() == t.requiredType {
+	switch node := n.(type) {
+	case *ast.CompositeLit:
+		if t.isConfig(c.Info.TypeOf(node)) {
 			// The versions of other configurations say nothing about this one
 			t.resetVersion()
-			for _, elt := range complit.Elts {
+			for _, elt := range node.Elts {
 				issue := t.processTLSConf(elt, c)
 				if issue != nil {
 					return issue, nil
 				}
 			}
-			return t.checkVersion(complit, c), nil
-		}
-	} else {
-		if assign, ok := n.(*ast.AssignStmt); ok && len(assign.Lhs) > 0 {
-			if selector, ok := assign.Lhs[0].(*ast.SelectorExpr); ok {
-				actualType := c.Info.TypeOf(selector.X)
-				if actualType != nil && actualType.String() == t.requiredType {
-					issue := t.processTLSConf(assign, c)
-					if issue != nil {
-						return issue, nil
-					}
-				}
-			}
+			return t.checkVersion(node, c), nil
 		}
+	case *ast.AssignStmt:
+		return t.processTLSAssign(node, c), nil
 	}
 	return nil, nil
 }
-- 
2.43.0


From 413ee17dbf67bfea45ef27c159638bda0bcabbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:37 +0000
Subject: [PATCH 45/68] fix: file names with colons do not abort the scan when
 a package has errors

---
 analyzer.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 877ebc1..933c111 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -61,6 +61,9 @@ const aliasOfAllRules = "*"
 
 var directiveRegexp = regexp.MustCompile("^//gosec:disable(?: (.+))?$")
 
+// errorPosition splits a position into file, line and column
+var errorPosition = regexp.MustCompile(`(?s)^(.*?)(?::(\d+))?(?::(\d+))?$`)
+
 type ignore struct {
 	start        int
 	end          int
@@ -530,18 +533,22 @@ func (gosec *Analyzer) ParseErrors(pkg *packages.Package) error {
 		return nil
 	}
 	for _, pkgErr := range pkg.Errors {
-		parts := strings.Split(pkgErr.Pos, ":")
-		file := parts[0]
+		// The name of the file can contain colons as well
+		parts := errorPosition.FindStringSubmatch(pkgErr.Pos)
+		file := parts[1]
+		if parts[2] == "" && strings.Contains(file, ":") && filepath.Ext(file) != ".go" {
+			return fmt.Errorf("parsing position: %q", pkgErr.Pos)
+		}
 		var err error
 		var line int
-		if len(parts) > 1 {
-			if line, err = strconv.Atoi(parts[1]); err != nil {
+		if parts[2] != "" {
+			if line, err = strconv.Atoi(parts[2]); err != nil {
 				return fmt.Errorf("parsing line: %w", err)
 			}
 		}
 		var column int
-		if len(parts) > 2 {
-			if column, err = strconv.Atoi(parts[2]); err != nil {
+		if parts[3] != "" {
+			if column, err = strconv.Atoi(parts[3]); err != nil {
 				return fmt.Errorf("parsing column: %w", err)
 			}
 		}
-- 
2.43.0


From 337410ee8e1dc78df06de53a014b7df5ba55187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:58 +0000
Subject: [PATCH 46/68] fix: folders named like a query of the go command are
 loaded

---
 analyzer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 933c111..ab056c8 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -330,10 +330,10 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 
 	var packageFiles []string
 	for _, filename := range basePackage.GoFiles {
-		packageFiles = append(packageFiles, path.Join(pkgPath, filename))
+		packageFiles = append(packageFiles, filepath.Join(abspath, filename))
 	}
 	for _, filename := range basePackage.CgoFiles {
-		packageFiles = append(packageFiles, path.Join(pkgPath, filename))
+		packageFiles = append(packageFiles, filepath.Join(abspath, filename))
 	}
 
 	if gosec.tests {
@@ -341,7 +341,7 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 		testsFiles = append(testsFiles, basePackage.TestGoFiles...)
 		testsFiles = append(testsFiles, basePackage.XTestGoFiles...)
 		for _, filename := range testsFiles {
-			packageFiles = append(packageFiles, path.Join(pkgPath, filename))
+			packageFiles = append(packageFiles, filepath.Join(abspath, filename))
 		}
 	}
 
-- 
2.43.0


From 4da02bd419e48f7536278929ce4f159767913745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 47/68] fix: numbers and nulls in a configuration file keep
 their meaning

The modes of G301 to G307 given as JSON numbers were ignored, null as a global
option became the text <nil>, null in place of the global options ended the
program, and sections of G101 and G111 which are no objects made it panic.
---
 config.go                      | 5 +++++
 rules/directory-traversal.go   | 3 +--
 rules/fileperms.go             | 4 ++++
 rules/hardcoded_credentials.go | 3 +--
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/config.go b/config.go
index ef0f9d5..90b8cd2 100644
--- a/config.go
+++ b/config.go
@@ -64,9 +64,14 @@ func (c Config) convertGlobals() {
 		if settings, ok := globals.(map[string]interface{}); ok {
 			validGlobals := map[GlobalOption]string{}
 			for k, v := range settings {
+				if v == nil { // null, as if the option was not there
+					continue
+				}
 				validGlobals[c.keyToGlobalOptions(k)] = fmt.Sprintf("%v", v)
 			}
 			c[Globals] = validGlobals
+		} else if globals == nil {
+			c[Globals] = make(map[GlobalOption]string)
 		}
 	}
 }
diff --git a/rules/directory-traversal.go b/rules/directory-traversal.go
index 5b94106..db1bf4e 100644
--- a/rules/directory-traversal.go
+++ b/rules/directory-traversal.go
@@ -48,8 +48,7 @@ func (r *traversal) matchCallExpr(assign *ast.CallExpr, ctx *gosec.Context) (*is
 // NewDirectoryTraversal attempts to find the use of http.Dir("/")
 func NewDirectoryTraversal(id string, conf gosec.Config) (gosec.Rule, []ast.Node) {
 	pattern := `http\.Dir\("\/"\)|http\.Dir\('\/'\)`
-	if val, ok := conf[id]; ok {
-		conf := val.(map[string]interface{})
+	if conf, ok := conf[id].(map[string]interface{}); ok {
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
 				pattern = cfgPattern
diff --git a/rules/fileperms.go b/rules/fileperms.go
index ecfee75..90092ba 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -42,6 +42,10 @@ func getConfiguredMode(conf map[string]interface{}, configKey string, defaultMod
 		switch value := value.(type) {
 		case int64:
 			mode = value
+		case float64: // a number in a JSON file
+			if m := int64(value); float64(m) == value {
+				mode = m
+			}
 		case string:
 			if m, e := strconv.ParseInt(value, 0, 64); e != nil {
 				mode = defaultMode
diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index c10d18b..d3e2b5b 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -342,8 +342,7 @@ func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.No
 	perCharThreshold := 3.0
 	ignoreEntropy := false
 	truncateString := 16
-	if val, ok := conf[id]; ok {
-		conf := val.(map[string]interface{})
+	if conf, ok := conf[id].(map[string]interface{}); ok {
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
 				pattern = cfgPattern
-- 
2.43.0


From 580e9ccca368ded3adf63cfc373b22a7fdb9180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 48/68] fix: a candidate without content does not crash the
 generation of fixes

---
 autofix/ai.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/autofix/ai.go b/autofix/ai.go
index 3535f7e..71f98d1 100644
--- a/autofix/ai.go
+++ b/autofix/ai.go
@@ -67,7 +67,8 @@ func (w *genAIGenerativeModelWrapper) GenerateContent(ctx context.Context, promp
 		return "", errors.New("no autofix returned by gemini")
 	}
 
-	if len(resp.Candidates[0].Content.Parts) == 0 {
+	// A candidate has no content when its generation was stopped early
+	if resp.Candidates[0].Content == nil || len(resp.Candidates[0].Content.Parts) == 0 {
 		return "", errors.New("nothing found in the first autofix returned by gemini")
 	}
 
-- 
2.43.0


From c5f78034373766f141f559143d8c70ad3051302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:48 +0000
Subject: [PATCH 49/68] fix: G104 finds every unassigned error and recognises
 ignored functions however they are called

---
 rules/errors.go | 70 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/rules/errors.go b/rules/errors.go
index a9fc860..1522ce9 100644
--- a/rules/errors.go
+++ b/rules/errors.go
@@ -31,36 +31,47 @@ func (r *noErrorCheck) ID() string {
 	return r.MetaData.ID
 }
 
-func returnsError(callExpr *ast.CallExpr, ctx *gosec.Context) int {
-	if tv := ctx.Info.TypeOf(callExpr); tv != nil {
-		switch t := tv.(type) {
-		case *types.Tuple:
-			for pos := 0; pos < t.Len(); pos++ {
-				variable := t.At(pos)
-				if variable != nil && variable.Type().String() == "error" {
-					return pos
-				}
-			}
-		case *types.Named:
-			if t.String() == "error" {
-				return 0
+// returnsErrors tells which of the results of a call are errors.
+func returnsErrors(callExpr *ast.CallExpr, ctx *gosec.Context) []int {
+	errorType := types.Universe.Lookup("error").Type()
+	positions := []int{}
+	switch t := ctx.Info.TypeOf(callExpr).(type) {
+	case nil:
+	case *types.Tuple:
+		for pos := 0; pos < t.Len(); pos++ {
+			if types.Identical(t.At(pos).Type(), errorType) {
+				positions = append(positions, pos)
 			}
 		}
+	default:
+		if types.Identical(t, errorType) {
+			positions = append(positions, 0)
+		}
 	}
-	return -1
+	return positions
 }
 
 // whitelisted tells if the errors of a call can be ignored. The functions of a package are listed
-// under its name, whatever the name under which it is imported.
+// under its name, whatever the name under which it is imported, and the methods under the type of
+// the receiver, however it is written.
 func (r *noErrorCheck) whitelisted(call *ast.CallExpr, ctx *gosec.Context) bool {
-	if selector, ok := call.Fun.(*ast.SelectorExpr); ok {
-		if ident, ok := selector.X.(*ast.Ident); ok {
+	switch fun := ast.Unparen(call.Fun).(type) {
+	case *ast.Ident:
+		if function, ok := ctx.Info.Uses[fun].(*types.Func); ok && function.Pkg() != nil {
+			return r.whitelist.Contains(function.Pkg().Name(), fun.Name)
+		}
+	case *ast.SelectorExpr:
+		if ident, ok := fun.X.(*ast.Ident); ok {
 			if name, ok := gosec.GetPackageName(ident, ctx); ok {
-				return r.whitelist.Contains(name, selector.Sel.Name)
+				return r.whitelist.Contains(name, fun.Sel.Name)
 			}
 		}
+		if t := ctx.Info.TypeOf(fun.X); t != nil {
+			receiver := types.Unalias(t).String()
+			return r.whitelist.Contains(receiver, fun.Sel.Name) || r.whitelist.ContainsPointer(receiver, fun.Sel.Name)
+		}
 	}
-	return r.whitelist.ContainsCallExpr(call, ctx) != nil
+	return false
 }
 
 func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
@@ -68,11 +79,17 @@ func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 	case *ast.AssignStmt:
 		cfg := ctx.Config
 		if enabled, err := cfg.IsGlobalEnabled(gosec.Audit); err == nil && enabled {
-			for _, expr := range stmt.Rhs {
-				if callExpr, ok := expr.(*ast.CallExpr); ok && !r.whitelisted(callExpr, ctx) {
-					pos := returnsError(callExpr, ctx)
-					if pos < 0 || pos >= len(stmt.Lhs) {
-						return nil, nil
+			for i, expr := range stmt.Rhs {
+				callExpr, ok := ast.Unparen(expr).(*ast.CallExpr)
+				if !ok || r.whitelisted(callExpr, ctx) {
+					continue
+				}
+				for _, pos := range returnsErrors(callExpr, ctx) {
+					if len(stmt.Rhs) > 1 {
+						pos = i
+					}
+					if pos >= len(stmt.Lhs) {
+						continue
 					}
 					if id, ok := stmt.Lhs[pos].(*ast.Ident); ok && id.Name == "_" {
 						return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
@@ -81,9 +98,8 @@ func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 			}
 		}
 	case *ast.ExprStmt:
-		if callExpr, ok := stmt.X.(*ast.CallExpr); ok && !r.whitelisted(callExpr, ctx) {
-			pos := returnsError(callExpr, ctx)
-			if pos >= 0 {
+		if callExpr, ok := ast.Unparen(stmt.X).(*ast.CallExpr); ok && !r.whitelisted(callExpr, ctx) {
+			if len(returnsErrors(callExpr, ctx)) > 0 {
 				return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
 		}
-- 
2.43.0


From 3b53c01806ba5a1f6252c9f9a4b2e8baac6020b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:04 +0000
Subject: [PATCH 50/68] fix: G407 follows the nonce to where it comes from

---
 analyzers/hardcoded_nonce.go | 522 ++++++++++++++++++++++++++---------
 1 file changed, 390 insertions(+), 132 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index aaf7aa2..7bfa0f5 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -18,7 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"go/token"
-	"strings"
+	"go/types"
 
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
@@ -53,182 +53,440 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 		"crypto/cipher.NewCTR":          {2, 1},
 		"crypto/cipher.NewOFB":          {2, 1},
 	}
-	ssaPkgFunctions := ssaResult.SSA.SrcFuncs
-	args := getArgsFromTrackedFunctions(ssaPkgFunctions, calls)
+	tracker := newNonceTracker(pass, ssaResult)
+	args := tracker.argsOf(func(call *ssa.CallCommon) (int, bool) {
+		name := ""
+		if call.Method != nil {
+			// the function is called from an object
+			name = call.Method.FullName()
+		} else {
+			name = call.Value.String()
+		}
+		// only process functions that have the same number of arguments as the ones we track
+		info, ok := calls[name]
+		if !ok || len(call.Args) != info[0] {
+			return 0, false
+		}
+		return info[1], true
+	})
 	if args == nil {
 		return nil, errors.New("no tracked functions found, resulting in no variables to track")
 	}
-	var issues []*issue.Issue
 	for _, arg := range args {
-		i, err := raiseIssue(arg, calls, ssaPkgFunctions, pass, "", make(map[*ssa.Parameter]bool))
-		if err != nil {
-			return issues, fmt.Errorf("raising issue error: %w", err)
-		}
-		issues = append(issues, i...)
+		tracker.raiseIssue(arg, defaultIssueDescription, make(map[*ssa.Parameter]bool))
 	}
-	return issues, nil
+	return tracker.issues, nil
+}
+
+// nonceArg is an argument used as a nonce/IV by a call.
+type nonceArg struct {
+	call  ssa.CallInstruction
+	value ssa.Value
+}
+
+type nonceTracker struct {
+	pass     *analysis.Pass
+	funcs    []*ssa.Function
+	globals  map[*ssa.Global][]ssa.Instruction // the instructions which refer to a variable of the package
+	reported map[ssa.CallInstruction]bool
+	issues   []*issue.Issue
 }
 
-func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Function,
-	pass *analysis.Pass, issueDescription string, visitedParams map[*ssa.Parameter]bool,
-) ([]*issue.Issue, error) {
-	if issueDescription == "" {
-		issueDescription = defaultIssueDescription
+func newNonceTracker(pass *analysis.Pass, ssaResult *SSAAnalyzerResult) *nonceTracker {
+	tracker := &nonceTracker{
+		pass:     pass,
+		funcs:    ssaResult.SSA.SrcFuncs,
+		globals:  make(map[*ssa.Global][]ssa.Instruction),
+		reported: make(map[ssa.CallInstruction]bool),
 	}
-	var err error
-	var allIssues []*issue.Issue
-	var issues []*issue.Issue
-	switch valType := (val).(type) {
-	case *ssa.Slice:
-		issueDescription += " by passing hardcoded slice/array"
-		issues, err = iterateThroughReferrers(val, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.High)
-		allIssues = append(allIssues, issues...)
-	case *ssa.UnOp:
-		// Check if it's a dereference operation (a.k.a pointer)
-		if valType.Op == token.MUL {
-			issueDescription += " by passing pointer which points to hardcoded variable"
-			issues, err = iterateThroughReferrers(val, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.Low)
-			allIssues = append(allIssues, issues...)
-		}
-	// When the value assigned to a variable is a function call.
-	// It goes and check if this function contains call to crypto/rand.Read
-	// in it's body(Assuming that calling crypto/rand.Read in a function,
-	// is used for the generation of nonce/iv )
-	case *ssa.Call:
-		if callValue := valType.Call.Value; callValue != nil {
-			if calledFunction, ok := callValue.(*ssa.Function); ok {
-				if contains, funcErr := isFuncContainsCryptoRand(calledFunction); !contains && funcErr == nil {
-					issueDescription += " by passing a value from function which doesn't use crypto/rand"
-					issues, err = iterateThroughReferrers(val, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.Medium)
-					allIssues = append(allIssues, issues...)
-				} else if funcErr != nil {
-					err = funcErr
+	funcs := tracker.funcs
+	// the variables of the package are set by a function which isn't part of the source
+	if initFunc := ssaResult.SSA.Pkg.Func("init"); initFunc != nil {
+		funcs = append(funcs[:len(funcs):len(funcs)], initFunc)
+	}
+	for _, function := range funcs {
+		for _, block := range function.Blocks {
+			for _, instr := range block.Instrs {
+				for _, operand := range instr.Operands(nil) {
+					if global, ok := (*operand).(*ssa.Global); ok {
+						tracker.globals[global] = append(tracker.globals[global], instr)
+					}
 				}
 			}
 		}
-	// only checks from strings->[]byte
-	// might need to add additional types
-	case *ssa.Convert:
-		if valType.Type().String() == "[]byte" && valType.X.Type().String() == "string" {
-			issueDescription += " by passing converted string"
-			issues, err = iterateThroughReferrers(val, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.High)
-			allIssues = append(allIssues, issues...)
-		}
-	case *ssa.Parameter:
-		// arg given to tracked function is wrapped in another function, example:
-		// func encrypt(..,nonce,...){
-		// 		aesgcm.Seal(nonce)
-		// }
-		// save parameter position, by checking the name of the variable used in
-		// tracked functions and comparing it with the name of the arg
-		// A parameter is followed only once, since the functions passing it on might be recursive.
-		if valType.Parent() != nil && !visitedParams[valType] {
-			visitedParams[valType] = true
-			trackedFunctions := make(map[string][]int)
-			for index, funcArgs := range valType.Parent().Params {
-				if funcArgs.Name() == valType.Name() && funcArgs.Type() == valType.Type() {
-					trackedFunctions[valType.Parent().String()] = []int{len(valType.Parent().Params), index}
+	}
+	return tracker
+}
+
+// argsOf returns the arguments of all calls selected by the given function, in source order.
+func (t *nonceTracker) argsOf(selected func(*ssa.CallCommon) (int, bool)) []nonceArg {
+	var args []nonceArg
+	for _, function := range t.funcs {
+		for _, block := range function.Blocks {
+			for _, instr := range block.Instrs {
+				if call, ok := instr.(ssa.CallInstruction); ok {
+					if index, ok := selected(call.Common()); ok {
+						args = append(args, nonceArg{call, call.Common().Args[index]})
+					}
 				}
 			}
-			args := getArgsFromTrackedFunctions(ssaFuncs, trackedFunctions)
+		}
+	}
+	return args
+}
 
-			issueDescription += " by passing a parameter to a function and"
-			// recursively backtrack to where the origin of a variable passed to multiple functions is
-			for _, arg := range args {
-				issues, err = raiseIssue(arg, trackedFunctions, ssaFuncs, pass, issueDescription, visitedParams)
-				allIssues = append(allIssues, issues...)
+// raiseIssue raises an issue for a call when the origin of its nonce/IV is hardcoded. When the nonce/IV
+// is a parameter, the calls of the function are checked.
+func (t *nonceTracker) raiseIssue(arg nonceArg, description string, visitedParams map[*ssa.Parameter]bool) {
+	for _, origin := range t.origins(arg.value, make(map[ssa.Value]bool)) {
+		switch origin := origin.(type) {
+		case *ssa.Parameter:
+			// A parameter is followed only once, since the functions passing it on might be recursive.
+			if visitedParams[origin] {
+				continue
+			}
+			visitedParams[origin] = true
+			for _, callerArg := range t.callerArgs(origin) {
+				t.raiseIssue(callerArg, description+" by passing a parameter to a function and", visitedParams)
 			}
+		case *ssa.UnOp:
+			t.report(arg, description+" by passing pointer which points to hardcoded variable", issue.Low)
+		case *ssa.Call:
+			t.report(arg, description+" by passing a value from function which doesn't use crypto/rand", issue.Medium)
+		case *ssa.Convert:
+			t.report(arg, description+" by passing converted string", issue.High)
+		default:
+			t.report(arg, description+" by passing hardcoded slice/array", issue.High)
 		}
 	}
-	return allIssues, err
 }
 
-// iterateThroughReferrers iterates through all places that use the `variable` argument and check if it's used in one of the tracked functions.
-func iterateThroughReferrers(variable ssa.Value, funcsToTrack map[string][]int,
-	analyzerID string, issueDescription string,
-	fileSet *token.FileSet, issueConfidence issue.Score,
-) ([]*issue.Issue, error) {
-	if funcsToTrack == nil || variable == nil || analyzerID == "" || issueDescription == "" || fileSet == nil {
-		return nil, errors.New("received a nil object")
+// report adds an issue for a call, unless it already has one.
+func (t *nonceTracker) report(arg nonceArg, description string, confidence issue.Score) {
+	if !t.reported[arg.call] {
+		t.reported[arg.call] = true
+		t.issues = append(t.issues, newIssue(t.pass.Analyzer.Name, description, t.pass.Fset, arg.call.Pos(), issue.High, confidence))
 	}
-	var gosecIssues []*issue.Issue
-	refs := variable.Referrers()
-	if refs == nil {
-		return gosecIssues, nil
+}
+
+// callerArgs returns what the functions of the package pass for a parameter.
+func (t *nonceTracker) callerArgs(param *ssa.Parameter) []nonceArg {
+	index := paramIndex(param)
+	return t.argsOf(func(call *ssa.CallCommon) (int, bool) {
+		callee := call.StaticCallee()
+		if callee == nil || (callee != param.Parent() && callee.Origin() != param.Parent()) {
+			return 0, false
+		}
+		return index, index >= 0 && index < len(call.Args)
+	})
+}
+
+func paramIndex(param *ssa.Parameter) int {
+	if param.Parent() != nil {
+		for index, p := range param.Parent().Params {
+			if p == param {
+				return index
+			}
+		}
 	}
-	// Go through all functions that use the given arg variable
-	for _, ref := range *refs {
-		// Iterate through the functions we are interested
-		for trackedFunc := range funcsToTrack {
+	return -1
+}
 
-			// Split the functions we are interested in, by the '.' because we will use the function name to do the comparison
-			// MIGHT GIVE SOME FALSE POSITIVES THIS WAY
-			trackedFuncParts := strings.Split(trackedFunc, ".")
-			trackedFuncPartsName := trackedFuncParts[len(trackedFuncParts)-1]
-			if strings.Contains(ref.String(), trackedFuncPartsName) {
-				gosecIssues = append(gosecIssues, newIssue(analyzerID, issueDescription, fileSet, ref.Pos(), issue.High, issueConfidence))
+// origins returns where the content of a value comes from: the parameters and the values considered
+// to be hardcoded. There are none when the value is filled at run time.
+func (t *nonceTracker) origins(val ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
+	if val == nil || seen[val] {
+		return nil
+	}
+	seen[val] = true
+	switch v := val.(type) {
+	case *ssa.Parameter:
+		return []ssa.Value{v}
+	case *ssa.Const:
+		if v.Value != nil || !v.IsNil() {
+			return []ssa.Value{v}
+		}
+	case *ssa.ChangeType:
+		return t.origins(v.X, seen)
+	case *ssa.Phi:
+		var all []ssa.Value
+		for _, edge := range v.Edges {
+			all = append(all, t.origins(edge, seen)...)
+		}
+		return all
+	case *ssa.Slice:
+		if t.isFilled(v) {
+			return nil
+		}
+		switch v.X.(type) {
+		case *ssa.Alloc, *ssa.Parameter, *ssa.Slice, *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.MakeSlice, *ssa.UnOp, *ssa.Call, *ssa.Extract:
+			return hardcodedAs(v, t.origins(v.X, seen))
+		}
+		return []ssa.Value{v}
+	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
+		return t.contents(v, seen)
+	case *ssa.UnOp:
+		// Check if it's a dereference operation (a.k.a pointer)
+		if v.Op != token.MUL || t.isFilled(v) {
+			return nil
+		}
+		switch v.X.(type) {
+		case *ssa.Alloc, *ssa.Global, *ssa.FreeVar, *ssa.Parameter:
+			return hardcodedAs(v, t.origins(v.X, seen))
+		}
+		return []ssa.Value{v}
+	case *ssa.Convert:
+		// only checks from strings->[]byte
+		// might need to add additional types
+		if isByteSlice(v.Type()) && isString(v.X.Type()) && !t.isFilled(v) {
+			switch v.X.(type) {
+			case *ssa.Parameter, *ssa.Phi, *ssa.UnOp, *ssa.Slice, *ssa.ChangeType:
+				return hardcodedAs(v, t.origins(v.X, seen))
 			}
+			return []ssa.Value{v}
+		}
+	case *ssa.Call:
+		// When the value is the result of a function which doesn't use crypto/rand, it's assumed to be
+		// hardcoded (using crypto/rand in a function is assumed to be the generation of the nonce/iv).
+		if function, ok := v.Call.Value.(*ssa.Function); ok && !usesCryptoRand(function, make(map[*ssa.Function]bool)) && !t.isFilled(v) {
+			return []ssa.Value{v}
 		}
 	}
-	return gosecIssues, nil
+	return nil
 }
 
-// isFuncContainsCryptoRand checks whether a function contains a call to crypto/rand.Read in it's function body.
-func isFuncContainsCryptoRand(funcCall *ssa.Function) (bool, error) {
-	if funcCall == nil {
-		return false, errors.New("passed ssa.Function object is nil")
+// hardcodedAs keeps the parameters among the origins and replaces the others by the given value.
+func hardcodedAs(val ssa.Value, origins []ssa.Value) []ssa.Value {
+	var all []ssa.Value
+	hardcoded := false
+	for _, origin := range origins {
+		if _, ok := origin.(*ssa.Parameter); ok {
+			all = append(all, origin)
+		} else {
+			hardcoded = true
+		}
 	}
-	for _, block := range funcCall.Blocks {
-		for _, instr := range block.Instrs {
-			if call, ok := instr.(*ssa.Call); ok {
-				if calledFunction, ok := call.Call.Value.(*ssa.Function); ok {
-					if calledFunction.Pkg != nil && calledFunction.Pkg.Pkg.Path() == "crypto/rand" && calledFunction.Name() == "Read" {
-						return true, nil
+	if hardcoded {
+		all = append(all, val)
+	}
+	return all
+}
+
+// contents returns the origins of the values assigned to a variable. A variable which is never assigned
+// has the content of its declaration.
+func (t *nonceTracker) contents(addr ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
+	var all []ssa.Value
+	assigned := false
+	for _, variable := range t.aliases(addr) {
+		for _, ref := range t.referrers(variable) {
+			if store, ok := ref.(*ssa.Store); ok && store.Addr == variable {
+				assigned = true
+				all = append(all, t.origins(store.Val, seen)...)
+			}
+		}
+	}
+	if !assigned {
+		return []ssa.Value{addr}
+	}
+	return all
+}
+
+// aliases returns a variable and the names under which it's known to the closures which capture it.
+func (t *nonceTracker) aliases(addr ssa.Value) []ssa.Value {
+	all := []ssa.Value{addr}
+	known := map[ssa.Value]bool{addr: true}
+	add := func(v ssa.Value) {
+		if v != nil && !known[v] {
+			known[v] = true
+			all = append(all, v)
+		}
+	}
+	for i := 0; i < len(all); i++ {
+		if freeVar, ok := all[i].(*ssa.FreeVar); ok {
+			// the variable which is captured
+			if function := freeVar.Parent(); function.Referrers() == nil && function.Parent() != nil {
+				for _, block := range function.Parent().Blocks {
+					for _, instr := range block.Instrs {
+						if closure, ok := instr.(*ssa.MakeClosure); ok && closure.Fn == function {
+							add(boundTo(closure, freeVar))
+						}
+					}
+				}
+			}
+		}
+		for _, ref := range t.referrers(all[i]) {
+			if closure, ok := ref.(*ssa.MakeClosure); ok {
+				function, _ := closure.Fn.(*ssa.Function)
+				for index, binding := range closure.Bindings {
+					if binding == all[i] && function != nil && index < len(function.FreeVars) {
+						add(function.FreeVars[index])
 					}
 				}
 			}
 		}
 	}
-	return false, nil
+	return all
 }
 
-// getArgsFromTrackedFunctions returns the tracked arguments of all calls, each one once and in source order.
-func getArgsFromTrackedFunctions(ssaFuncs []*ssa.Function, trackedFunc map[string][]int) []ssa.Value {
-	var values []ssa.Value
-	seen := make(map[ssa.Value]bool)
-	for _, pkgFunc := range ssaFuncs {
-		for _, funcBlock := range pkgFunc.Blocks {
-			for _, funcBlocInstr := range funcBlock.Instrs {
-				for _, arg := range trackedArgsOf(funcBlocInstr, trackedFunc) {
-					if !seen[arg] {
-						seen[arg] = true
-						values = append(values, arg)
+func boundTo(closure *ssa.MakeClosure, freeVar *ssa.FreeVar) ssa.Value {
+	for index, v := range freeVar.Parent().FreeVars {
+		if v == freeVar && index < len(closure.Bindings) {
+			return closure.Bindings[index]
+		}
+	}
+	return nil
+}
+
+func (t *nonceTracker) referrers(val ssa.Value) []ssa.Instruction {
+	if global, ok := val.(*ssa.Global); ok {
+		return t.globals[global]
+	}
+	if refs := val.Referrers(); refs != nil {
+		return *refs
+	}
+	return nil
+}
+
+// isFilled tells if the memory of a value is filled from crypto/rand or another reader.
+func (t *nonceTracker) isFilled(val ssa.Value) bool {
+	known := map[ssa.Value]bool{}
+	var pending []ssa.Value
+	add := func(v ssa.Value) {
+		if v != nil && !known[v] {
+			known[v] = true
+			pending = append(pending, v)
+		}
+	}
+	add(val)
+	// The array or slice which shares its memory with the value
+	for base := val; base != nil; {
+		switch v := base.(type) {
+		case *ssa.Slice:
+			base = v.X
+		case *ssa.ChangeType:
+			base = v.X
+		case *ssa.UnOp:
+			base = nil
+			if v.Op == token.MUL && isSlice(v.Type()) {
+				for _, variable := range t.aliases(v.X) {
+					add(variable)
+				}
+			}
+		default:
+			base = nil
+		}
+		// the content of a parameter is up to the callers
+		if _, ok := base.(*ssa.Parameter); !ok {
+			add(base)
+		}
+	}
+	for len(pending) > 0 {
+		v := pending[len(pending)-1]
+		pending = pending[:len(pending)-1]
+		for _, ref := range t.referrers(v) {
+			switch ref := ref.(type) {
+			case *ssa.Slice:
+				add(ref)
+			case *ssa.ChangeType:
+				add(ref)
+			case *ssa.Phi:
+				add(ref)
+			case *ssa.UnOp:
+				// a slice held by a variable
+				if ref.Op == token.MUL && isSlice(ref.Type()) {
+					add(ref)
+				}
+			case *ssa.Store:
+				if ref.Val == v && isSlice(v.Type()) {
+					switch ref.Addr.(type) {
+					case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
+						for _, variable := range t.aliases(ref.Addr) {
+							add(variable)
+						}
+					}
+				}
+			case ssa.CallInstruction:
+				call := ref.Common()
+				for index, arg := range call.Args {
+					if arg != v {
+						continue
+					}
+					if isReading(call) {
+						return true
+					}
+					if callee := call.StaticCallee(); callee != nil && index < len(callee.Params) {
+						add(callee.Params[index])
 					}
 				}
 			}
 		}
 	}
-	return values
+	return false
 }
 
-// trackedArgsOf returns the tracked arguments of an instruction which is a call of a tracked function.
-func trackedArgsOf(funcBlocInstr ssa.Instruction, trackedFunc map[string][]int) []ssa.Value {
-	var args []ssa.Value
-	if funcCall, ok := (funcBlocInstr).(*ssa.Call); ok {
-		for trackedFuncName, trackedFuncArgsInfo := range trackedFunc {
-			// only process functions that have the same number of arguments as the ones we track
-			if len(funcCall.Call.Args) == trackedFuncArgsInfo[0] {
-				tmpArg := funcCall.Call.Args[trackedFuncArgsInfo[1]]
-				// check if the function is called from an object or directly from the package
-				if funcCall.Call.Method != nil {
-					if methodFullname := funcCall.Call.Method.FullName(); methodFullname == trackedFuncName {
-						args = append(args, tmpArg)
+// isReading tells if a call fills its argument from crypto/rand or another reader.
+func isReading(call *ssa.CallCommon) bool {
+	if call.Method != nil {
+		return call.Method.Name() == "Read"
+	}
+	callee := call.StaticCallee()
+	if callee == nil || callee.Pkg == nil {
+		return false
+	}
+	switch callee.Pkg.Pkg.Path() {
+	case "crypto/rand":
+		return callee.Name() == "Read"
+	case "io":
+		return callee.Name() == "ReadFull" || callee.Name() == "ReadAtLeast"
+	}
+	return false
+}
+
+func isSlice(t types.Type) bool {
+	_, ok := t.Underlying().(*types.Slice)
+	return ok
+}
+
+func isByteSlice(t types.Type) bool {
+	slice, ok := t.Underlying().(*types.Slice)
+	if !ok {
+		return false
+	}
+	elem, ok := slice.Elem().Underlying().(*types.Basic)
+	return ok && elem.Kind() == types.Byte
+}
+
+func isString(t types.Type) bool {
+	basic, ok := t.Underlying().(*types.Basic)
+	return ok && basic.Info()&types.IsString != 0
+}
+
+// usesCryptoRand checks whether a function, or a function called by it, uses crypto/rand.
+func usesCryptoRand(function *ssa.Function, visited map[*ssa.Function]bool) bool {
+	if visited[function] {
+		return false
+	}
+	visited[function] = true
+	for _, anonymous := range function.AnonFuncs {
+		if usesCryptoRand(anonymous, visited) {
+			return true
+		}
+	}
+	for _, block := range function.Blocks {
+		for _, instr := range block.Instrs {
+			for _, operand := range instr.Operands(nil) {
+				switch member := (*operand).(type) {
+				case *ssa.Global:
+					if member.Pkg != nil && member.Pkg.Pkg.Path() == "crypto/rand" {
+						return true
+					}
+				case *ssa.Function:
+					if member.Pkg != nil && member.Pkg.Pkg.Path() == "crypto/rand" || usesCryptoRand(member, visited) {
+						return true
 					}
-				} else if funcCall.Call.Value.String() == trackedFuncName {
-					args = append(args, tmpArg)
 				}
 			}
 		}
 	}
-	return args
+	return false
 }
-- 
2.43.0


From 6a6b2ae392f912119d9d28ce797fafa3662370b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:05 +0000
Subject: [PATCH 51/68] fix: G101 compares each variable with its own value and
 accepts numbers as thresholds

---
 rules/hardcoded_credentials.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index d3e2b5b..d6a1e8b 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"math"
 	"regexp"
 	"strconv"
 
@@ -234,11 +235,16 @@ func (r *credentials) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error
 }
 
 func (r *credentials) matchAssign(assign *ast.AssignStmt, ctx *gosec.Context) (*issue.Issue, error) {
-	for _, i := range assign.Lhs {
+	for index, i := range assign.Lhs {
 		if ident, ok := i.(*ast.Ident); ok {
 			// First check LHS to find anything being assigned to variables whose name appears to be a cred
 			if r.pattern.MatchString(ident.Name) {
-				for _, e := range assign.Rhs {
+				values := assign.Rhs
+				if len(values) == len(assign.Lhs) {
+					// each variable has its own value
+					values = values[index : index+1]
+				}
+				for _, e := range values {
 					if val, err := gosec.GetString(e); err == nil {
 						if r.ignoreEntropy || (!r.ignoreEntropy && r.isHighEntropyString(val)) {
 							return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
@@ -334,6 +340,11 @@ func (r *credentials) matchEqualityCheck(binaryExpr *ast.BinaryExpr, ctx *gosec.
 	return nil, nil
 }
 
+// configNumber returns a number of the configuration, which is written as such or as a string.
+func configNumber(value interface{}) (float64, error) {
+	return strconv.ParseFloat(fmt.Sprint(value), 64)
+}
+
 // NewHardcodedCredentials attempts to find high entropy string constants being
 // assigned to variables that appear to be related to credentials.
 func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.Node) {
@@ -355,24 +366,18 @@ func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.No
 			}
 		}
 		if configEntropyThreshold, ok := conf["entropy_threshold"]; ok {
-			if cfgEntropyThreshold, ok := configEntropyThreshold.(string); ok {
-				if parsedNum, err := strconv.ParseFloat(cfgEntropyThreshold, 64); err == nil {
-					entropyThreshold = parsedNum
-				}
+			if parsedNum, err := configNumber(configEntropyThreshold); err == nil {
+				entropyThreshold = parsedNum
 			}
 		}
 		if configCharThreshold, ok := conf["per_char_threshold"]; ok {
-			if cfgCharThreshold, ok := configCharThreshold.(string); ok {
-				if parsedNum, err := strconv.ParseFloat(cfgCharThreshold, 64); err == nil {
-					perCharThreshold = parsedNum
-				}
+			if parsedNum, err := configNumber(configCharThreshold); err == nil {
+				perCharThreshold = parsedNum
 			}
 		}
 		if configTruncate, ok := conf["truncate"]; ok {
-			if cfgTruncate, ok := configTruncate.(string); ok {
-				if parsedInt, err := strconv.Atoi(cfgTruncate); err == nil {
-					truncateString = parsedInt
-				}
+			if parsedNum, err := configNumber(configTruncate); err == nil && parsedNum >= 0 && parsedNum < math.MaxInt32 {
+				truncateString = int(parsedNum)
 			}
 		}
 	}
-- 
2.43.0


From 48aef068d6da1f7433f0399a9eb815149ad3c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 52/68] fix: constants are recognised however they are written,
 and variables by their own value

Parenthesised constants, constants of other packages and conversions were taken for variables, and a
variable was judged by all the values of the declaration it shares with others (G107, G204, G304).
---
 resolve.go       | 41 +++++++++++++++++++++++++++++++++++++++--
 rules/ssrf.go    |  2 +-
 rules/subproc.go |  1 +
 3 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/resolve.go b/resolve.go
index 24e9627..70ef4af 100644
--- a/resolve.go
+++ b/resolve.go
@@ -16,6 +16,38 @@ package gosec
 
 import "go/ast"
 
+// DeclaredValue returns the expression that a variable or constant gets in its declaration: the call
+// when it is one of the results of a function, and nil when the declaration gives no value.
+func DeclaredValue(n *ast.Ident) ast.Expr {
+	if n.Obj == nil {
+		return nil
+	}
+	value := func(i int, names int, values []ast.Expr) ast.Expr {
+		if len(values) == 1 {
+			return values[0]
+		}
+		if len(values) == names {
+			return values[i]
+		}
+		return nil
+	}
+	switch decl := n.Obj.Decl.(type) {
+	case *ast.AssignStmt:
+		for i, lhs := range decl.Lhs {
+			if ident, ok := lhs.(*ast.Ident); ok && ident.Obj == n.Obj {
+				return value(i, len(decl.Lhs), decl.Rhs)
+			}
+		}
+	case *ast.ValueSpec:
+		for i, name := range decl.Names {
+			if name.Obj == n.Obj {
+				return value(i, len(decl.Names), decl.Values)
+			}
+		}
+	}
+	return nil
+}
+
 func resolveIdent(n *ast.Ident, c *Context, seen map[*ast.Object]bool) bool {
 	if n.Obj == nil || n.Obj.Kind != ast.Var {
 		return true
@@ -25,8 +57,8 @@ func resolveIdent(n *ast.Ident, c *Context, seen map[*ast.Object]bool) bool {
 	}
 	// An object met again while it is being resolved is part of an initialization cycle
 	seen[n.Obj] = false
-	if node, ok := n.Obj.Decl.(ast.Node); ok {
-		seen[n.Obj] = tryResolve(node, c, seen)
+	if value := DeclaredValue(n); value != nil {
+		seen[n.Obj] = tryResolve(value, c, seen)
 	}
 	return seen[n.Obj]
 }
@@ -84,6 +116,9 @@ func TryResolve(n ast.Node, c *Context) bool {
 }
 
 func tryResolve(n ast.Node, c *Context, seen map[*ast.Object]bool) bool {
+	if expr, ok := n.(ast.Expr); ok && c.Info != nil && c.Info.Types[expr].Value != nil {
+		return true
+	}
 	switch node := n.(type) {
 	case *ast.BasicLit:
 		return true
@@ -97,6 +132,8 @@ func tryResolve(n ast.Node, c *Context, seen map[*ast.Object]bool) bool {
 		return resolveAssign(node, c, seen)
 	case *ast.CallExpr:
 		return resolveCallExpr(node, c)
+	case *ast.ParenExpr:
+		return tryResolve(node.X, c, seen)
 	case *ast.BinaryExpr:
 		return resolveBinExpr(node, c, seen)
 	}
diff --git a/rules/ssrf.go b/rules/ssrf.go
index a301f7e..38b1e11 100644
--- a/rules/ssrf.go
+++ b/rules/ssrf.go
@@ -22,7 +22,7 @@ func (r *ssrf) ID() string {
 // The first argument is the url
 func (r *ssrf) ResolveVar(n *ast.CallExpr, c *gosec.Context) bool {
 	if len(n.Args) > 0 {
-		arg := n.Args[0]
+		arg := ast.Unparen(n.Args[0])
 		if ident, ok := arg.(*ast.Ident); ok {
 			obj := c.Info.ObjectOf(ident)
 			if _, ok := obj.(*types.Var); ok {
diff --git a/rules/subproc.go b/rules/subproc.go
index d0c9db5..099faae 100644
--- a/rules/subproc.go
+++ b/rules/subproc.go
@@ -47,6 +47,7 @@ func (r *subprocess) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 			args = args[1:]
 		}
 		for _, arg := range args {
+			arg = ast.Unparen(arg)
 			if ident, ok := arg.(*ast.Ident); ok {
 				obj := c.Info.ObjectOf(ident)
 
-- 
2.43.0


From c69fd916fb894ac7c74e539ee8503cce8451c47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:12 +0000
Subject: [PATCH 53/68] fix: G304 judges the path of the opened file, and the
 variable which is cleaned

Flags were taken for paths, operands in parentheses were not looked at, and cleaning one of the
parameters declared together cleaned them all.
---
 rules/readfile.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/rules/readfile.go b/rules/readfile.go
index da6b9c9..e72f1cc 100644
--- a/rules/readfile.go
+++ b/rules/readfile.go
@@ -27,7 +27,7 @@ type readfile struct {
 	gosec.CallList
 	pathJoin   gosec.CallList
 	clean      gosec.CallList
-	cleanedVar map[any]ast.Node
+	cleanedVar map[*ast.Object]ast.Node
 }
 
 // ID returns the identifier for this rule
@@ -40,6 +40,7 @@ func (r *readfile) isJoinFunc(n ast.Node, c *gosec.Context) bool {
 	if call := r.pathJoin.ContainsPkgCallExpr(n, c, false); call != nil {
 		for _, arg := range call.Args {
 			// edge case: check if one of the args is a BinaryExpr
+			arg = ast.Unparen(arg)
 			if binExp, ok := arg.(*ast.BinaryExpr); ok {
 				// iterate and resolve all found identities from the BinaryExpr
 				if _, ok := gosec.FindVarIdentities(binExp, c); ok {
@@ -61,17 +62,15 @@ func (r *readfile) isJoinFunc(n ast.Node, c *gosec.Context) bool {
 
 // isFilepathClean checks if there is a filepath.Clean for given variable
 func (r *readfile) isFilepathClean(n *ast.Ident, c *gosec.Context) bool {
-	if _, ok := r.cleanedVar[n.Obj.Decl]; ok {
+	if _, ok := r.cleanedVar[n.Obj]; ok {
 		return true
 	}
 	if n.Obj.Kind != ast.Var {
 		return false
 	}
-	if node, ok := n.Obj.Decl.(*ast.AssignStmt); ok {
-		if call, ok := node.Rhs[0].(*ast.CallExpr); ok {
-			if clean := r.clean.ContainsPkgCallExpr(call, c, false); clean != nil {
-				return true
-			}
+	if call, ok := gosec.DeclaredValue(n).(*ast.CallExpr); ok {
+		if clean := r.clean.ContainsPkgCallExpr(call, c, false); clean != nil {
+			return true
 		}
 	}
 	return false
@@ -84,7 +83,7 @@ func (r *readfile) trackFilepathClean(n ast.Node) {
 			// ident.Obj may be nil if the referenced declaration is in another file. It also may be incorrect.
 			// if it is nil, do not follow it.
 			if ident.Obj != nil {
-				r.cleanedVar[ident.Obj.Decl] = n
+				r.cleanedVar[ident.Obj] = n
 			}
 		}
 	}
@@ -96,7 +95,9 @@ func (r *readfile) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 		r.trackFilepathClean(n)
 		return nil, nil
 	} else if node := r.ContainsPkgCallExpr(n, c, false); node != nil {
-		for _, arg := range node.Args {
+		// the path is the first argument, the others are flags and permissions
+		for _, arg := range node.Args[:min(1, len(node.Args))] {
+			arg = ast.Unparen(arg)
 			// handles path joining functions in Arg
 			// eg. os.Open(filepath.Join("/tmp/", file))
 			if callExpr, ok := arg.(*ast.CallExpr); ok {
@@ -137,7 +138,7 @@ func NewReadFile(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 			Severity:   issue.Medium,
 			Confidence: issue.High,
 		},
-		cleanedVar: map[any]ast.Node{},
+		cleanedVar: map[*ast.Object]ast.Node{},
 	}
 	rule.pathJoin.Add("path/filepath", "Join")
 	rule.pathJoin.Add("path", "Join")
-- 
2.43.0


From cbe74e60b4346ee14df8552ed6ce989b6a0ea0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:12 +0000
Subject: [PATCH 54/68] fix: SQL built in place, declared with var or used in
 any expression is found

G201 did not look at a query formatted in the call itself nor at constant formats, G202 and G201 only
looked at calls which are statements of their own or assigned, and both mixed up the values of a
declaration with several variables. Constants are recognised by the type checker.
---
 helpers.go   |  30 +++----
 rules/sql.go | 222 +++++++++++++++------------------------------------
 2 files changed, 75 insertions(+), 177 deletions(-)

diff --git a/helpers.go b/helpers.go
index 346deb9..91e0bbd 100644
--- a/helpers.go
+++ b/helpers.go
@@ -283,12 +283,12 @@ func GetBinaryExprOperands(be *ast.BinaryExpr) []ast.Node {
 	var traverse func(be *ast.BinaryExpr)
 	result := []ast.Node{}
 	traverse = func(be *ast.BinaryExpr) {
-		if lhs, ok := be.X.(*ast.BinaryExpr); ok {
+		if lhs, ok := ast.Unparen(be.X).(*ast.BinaryExpr); ok {
 			traverse(lhs)
 		} else {
 			result = append(result, be.X)
 		}
-		if rhs, ok := be.Y.(*ast.BinaryExpr); ok {
+		if rhs, ok := ast.Unparen(be.Y).(*ast.BinaryExpr); ok {
 			traverse(rhs)
 		} else {
 			result = append(result, be.Y)
@@ -421,22 +421,16 @@ func ConcatString(n *ast.BinaryExpr) (string, bool) {
 // FindVarIdentities returns array of all variable identities in a given binary expression
 func FindVarIdentities(n *ast.BinaryExpr, c *Context) ([]*ast.Ident, bool) {
 	identities := []*ast.Ident{}
-	// sub expressions are found in X object, Y object is always the last term
-	if rightOperand, ok := n.Y.(*ast.Ident); ok {
-		obj := c.Info.ObjectOf(rightOperand)
-		if _, ok := obj.(*types.Var); ok && !TryResolve(rightOperand, c) {
-			identities = append(identities, rightOperand)
-		}
-	}
-	if leftOperand, ok := n.X.(*ast.BinaryExpr); ok {
-		if leftIdentities, ok := FindVarIdentities(leftOperand, c); ok {
-			identities = append(identities, leftIdentities...)
-		}
-	} else {
-		if leftOperand, ok := n.X.(*ast.Ident); ok {
-			obj := c.Info.ObjectOf(leftOperand)
-			if _, ok := obj.(*types.Var); ok && !TryResolve(leftOperand, c) {
-				identities = append(identities, leftOperand)
+	for _, operand := range []ast.Expr{n.X, n.Y} {
+		switch operand := ast.Unparen(operand).(type) {
+		case *ast.Ident:
+			obj := c.Info.ObjectOf(operand)
+			if _, ok := obj.(*types.Var); ok && !TryResolve(operand, c) {
+				identities = append(identities, operand)
+			}
+		case *ast.BinaryExpr:
+			if found, ok := FindVarIdentities(operand, c); ok {
+				identities = append(identities, found...)
 			}
 		}
 	}
diff --git a/rules/sql.go b/rules/sql.go
index 0e83751..3aac68e 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -17,6 +17,7 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"go/constant"
 	"regexp"
 
 	"github.com/securego/gosec/v2"
@@ -76,6 +77,28 @@ func findQueryArg(call *ast.CallExpr, ctx *gosec.Context) (ast.Expr, error) {
 	return query, nil
 }
 
+// isConstant tells if an expression is a compile-time constant
+func isConstant(n ast.Expr, ctx *gosec.Context) bool {
+	n = ast.Unparen(n)
+	if _, ok := n.(*ast.BasicLit); ok {
+		return true
+	}
+	return ctx.Info.Types[n].Value != nil
+}
+
+// constantString returns the value of a constant string
+func constantString(n ast.Expr, ctx *gosec.Context) (string, bool) {
+	n = ast.Unparen(n)
+	if value := ctx.Info.Types[n].Value; value != nil {
+		if value.Kind() != constant.String {
+			return "", false
+		}
+		return constant.StringVal(value), true
+	}
+	str, err := gosec.GetString(n)
+	return str, err == nil
+}
+
 func (s *sqlStatement) ID() string {
 	return s.MetaData.ID
 }
@@ -98,47 +121,6 @@ func (s *sqlStrConcat) ID() string {
 	return s.MetaData.ID
 }
 
-// findInjectionInBranch walks diwb a set if expressions, and will create new issues if it finds SQL injections
-// This method assumes you've already verified that the branch contains SQL syntax
-func (s *sqlStrConcat) findInjectionInBranch(ctx *gosec.Context, branch []ast.Expr) *ast.BinaryExpr {
-	for _, node := range branch {
-		be, ok := node.(*ast.BinaryExpr)
-		if !ok {
-			continue
-		}
-
-		operands := gosec.GetBinaryExprOperands(be)
-
-		for _, op := range operands {
-			if _, ok := op.(*ast.BasicLit); ok {
-				continue
-			}
-
-			if ident, ok := op.(*ast.Ident); ok && s.checkObject(ident, ctx) {
-				continue
-			}
-
-			return be
-		}
-	}
-	return nil
-}
-
-// see if we can figure out what it is
-func (s *sqlStrConcat) checkObject(n *ast.Ident, c *gosec.Context) bool {
-	if n.Obj != nil {
-		return n.Obj.Kind != ast.Var && n.Obj.Kind != ast.Fun
-	}
-
-	// Try to resolve unresolved identifiers using other files in same package
-	for _, file := range c.PkgFiles {
-		if node, ok := file.Scope.Objects[n.String()]; ok {
-			return node.Kind != ast.Var && node.Kind != ast.Fun
-		}
-	}
-	return false
-}
-
 // checkQuery verifies if the query parameters is a string concatenation
 func (s *sqlStrConcat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issue.Issue, error) {
 	query, err := findQueryArg(call, ctx)
@@ -146,66 +128,44 @@ func (s *sqlStrConcat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issu
 		return nil, err
 	}
 
-	if be, ok := query.(*ast.BinaryExpr); ok {
-		operands := gosec.GetBinaryExprOperands(be)
-		if start, ok := operands[0].(*ast.BasicLit); ok {
-			if str, e := gosec.GetString(start); e == nil {
-				if !s.MatchPatterns(str) {
-					return nil, nil
-				}
-			}
-			for _, op := range operands[1:] {
-				if _, ok := op.(*ast.BasicLit); ok {
-					continue
-				}
-				if op, ok := op.(*ast.Ident); ok && s.checkObject(op, ctx) {
-					continue
-				}
-				return ctx.NewIssue(be, s.ID(), s.What, s.Severity, s.Confidence), nil
-			}
-		}
+	// The query can also be concatenated before, i.e. q := "SELECT * FROM foo WHERE name = '" + os.Args[0] + "' AND 1=1"
+	query = ast.Unparen(query)
+	ident, declared := query.(*ast.Ident)
+	if declared {
+		query = ast.Unparen(gosec.DeclaredValue(ident))
+	}
+	be, ok := query.(*ast.BinaryExpr)
+	if !ok {
+		return nil, nil
 	}
 
-	// Handle the case where an injection occurs as an infixed string concatenation, ie "SELECT * FROM foo WHERE name = '" + os.Args[0] + "' AND 1=1"
-	if id, ok := query.(*ast.Ident); ok {
-		var match bool
-		for _, str := range gosec.GetIdentStringValuesRecursive(id) {
-			if s.MatchPatterns(str) {
-				match = true
-				break
-			}
-		}
-
-		if !match {
-			return nil, nil
+	operands := gosec.GetBinaryExprOperands(be)
+	if first, ok := operands[0].(ast.Expr); ok && !declared && !isConstant(first, ctx) {
+		return nil, nil
+	}
+	text := ""
+	injection := false
+	for _, op := range operands {
+		expr, ok := op.(ast.Expr)
+		if !ok || !isConstant(expr, ctx) {
+			injection = true
+			continue
 		}
-
-		switch decl := id.Obj.Decl.(type) {
-		case *ast.AssignStmt:
-			if injection := s.findInjectionInBranch(ctx, decl.Rhs); injection != nil {
-				return ctx.NewIssue(injection, s.ID(), s.What, s.Severity, s.Confidence), nil
-			}
+		if str, ok := constantString(expr, ctx); ok {
+			text += str
 		}
 	}
-
+	if injection && s.MatchPatterns(text) {
+		return ctx.NewIssue(be, s.ID(), s.What, s.Severity, s.Confidence), nil
+	}
 	return nil, nil
 }
 
 // Checks SQL query concatenation issues such as "SELECT * FROM table WHERE " + " ' OR 1=1"
 func (s *sqlStrConcat) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	switch stmt := n.(type) {
-	case *ast.AssignStmt:
-		for _, expr := range stmt.Rhs {
-			if sqlQueryCall, ok := expr.(*ast.CallExpr); ok && s.ContainsCallExpr(expr, ctx) != nil {
-				return s.checkQuery(sqlQueryCall, ctx)
-			}
-		}
-	case *ast.ExprStmt:
-		if sqlQueryCall, ok := stmt.X.(*ast.CallExpr); ok && s.ContainsCallExpr(stmt.X, ctx) != nil {
-			return s.checkQuery(sqlQueryCall, ctx)
-		}
+	if call := s.ContainsCallExpr(n, ctx); call != nil {
+		return s.checkQuery(call, ctx)
 	}
-
 	return nil, nil
 }
 
@@ -231,7 +191,7 @@ func NewSQLStrConcat(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 			rule.Add(s, i)
 		}
 	}
-	return rule, []ast.Node{(*ast.AssignStmt)(nil), (*ast.ExprStmt)(nil)}
+	return rule, []ast.Node{(*ast.CallExpr)(nil)}
 }
 
 type sqlStrFormat struct {
@@ -242,45 +202,20 @@ type sqlStrFormat struct {
 	noIssueQuoted gosec.CallList
 }
 
-// see if we can figure out what it is
-func (s *sqlStrFormat) constObject(e ast.Expr, c *gosec.Context) bool {
-	n, ok := e.(*ast.Ident)
-	if !ok {
-		return false
-	}
-
-	if n.Obj != nil {
-		return n.Obj.Kind == ast.Con
-	}
-
-	// Try to resolve unresolved identifiers using other files in same package
-	for _, file := range c.PkgFiles {
-		if node, ok := file.Scope.Objects[n.String()]; ok {
-			return node.Kind == ast.Con
-		}
-	}
-	return false
-}
-
 func (s *sqlStrFormat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issue.Issue, error) {
 	query, err := findQueryArg(call, ctx)
 	if err != nil {
 		return nil, err
 	}
 
-	if ident, ok := query.(*ast.Ident); ok && ident.Obj != nil {
-		decl := ident.Obj.Decl
-		if assign, ok := decl.(*ast.AssignStmt); ok {
-			for _, expr := range assign.Rhs {
-				issue := s.checkFormatting(expr, ctx)
-				if issue != nil {
-					return issue, err
-				}
-			}
-		}
+	query = ast.Unparen(query)
+	if ident, ok := query.(*ast.Ident); ok {
+		query = ast.Unparen(gosec.DeclaredValue(ident))
 	}
-
-	return nil, nil
+	if query == nil {
+		return nil, nil
+	}
+	return s.checkFormatting(query, ctx), nil
 }
 
 func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Issue {
@@ -311,16 +246,7 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 			return nil
 		}
 
-		var formatter string
-
-		// concats callexpr arg strings together if needed before regex evaluation
-		if argExpr, ok := node.Args[argIndex].(*ast.BinaryExpr); ok {
-			if fullStr, ok := gosec.ConcatString(argExpr); ok {
-				formatter = fullStr
-			}
-		} else if arg, e := gosec.GetString(node.Args[argIndex]); e == nil {
-			formatter = arg
-		}
+		formatter, _ := constantString(node.Args[argIndex], ctx)
 		if len(formatter) <= 0 {
 			return nil
 		}
@@ -329,7 +255,7 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 		if argIndex+1 < len(node.Args) {
 			allSafe := true
 			for _, arg := range node.Args[argIndex+1:] {
-				if n := s.noIssueQuoted.ContainsPkgCallExpr(arg, ctx, true); n == nil && !s.constObject(arg, ctx) {
+				if n := s.noIssueQuoted.ContainsPkgCallExpr(arg, ctx, true); n == nil && !isConstant(arg, ctx) {
 					allSafe = false
 					break
 				}
@@ -347,30 +273,8 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 
 // Check SQL query formatting issues such as "fmt.Sprintf("SELECT * FROM foo where '%s', userInput)"
 func (s *sqlStrFormat) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	switch stmt := n.(type) {
-	case *ast.AssignStmt:
-		for _, expr := range stmt.Rhs {
-			if call, ok := expr.(*ast.CallExpr); ok {
-				selector, ok := call.Fun.(*ast.SelectorExpr)
-				if !ok {
-					continue
-				}
-				sqlQueryCall, ok := selector.X.(*ast.CallExpr)
-				if ok && s.ContainsCallExpr(sqlQueryCall, ctx) != nil {
-					issue, err := s.checkQuery(sqlQueryCall, ctx)
-					if err == nil && issue != nil {
-						return issue, err
-					}
-				}
-			}
-			if sqlQueryCall, ok := expr.(*ast.CallExpr); ok && s.ContainsCallExpr(expr, ctx) != nil {
-				return s.checkQuery(sqlQueryCall, ctx)
-			}
-		}
-	case *ast.ExprStmt:
-		if sqlQueryCall, ok := stmt.X.(*ast.CallExpr); ok && s.ContainsCallExpr(stmt.X, ctx) != nil {
-			return s.checkQuery(sqlQueryCall, ctx)
-		}
+	if call := s.ContainsCallExpr(n, ctx); call != nil {
+		return s.checkQuery(call, ctx)
 	}
 	return nil, nil
 }
@@ -404,5 +308,5 @@ func NewSQLStrFormat(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	rule.noIssue.AddAll("os", "Stdout", "Stderr")
 	rule.noIssueQuoted.Add("github.com/lib/pq", "QuoteIdentifier")
 
-	return rule, []ast.Node{(*ast.AssignStmt)(nil), (*ast.ExprStmt)(nil)}
+	return rule, []ast.Node{(*ast.CallExpr)(nil)}
 }
-- 
2.43.0


From e5626b11ed9fb4712c53876b475ff3aac9c6bc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:12 +0000
Subject: [PATCH 55/68] fix: rules on constant arguments judge the value,
 however it is written

G102, G111, G203, G303 and G403 only knew literals, some of them in one notation, so that a named constant
or a constant expression was missed, or reported by G203. G102 also took the values of all variables
declared together, and dots in its pattern for any character.
---
 rules/bind.go                | 39 ++++++++++++++++++-----------------
 rules/constants.go           | 40 ++++++++++++++++++++++++++++++++++++
 rules/directory-traversal.go | 36 ++++++++++++++++++++++----------
 rules/rsa.go                 |  2 +-
 rules/sql.go                 | 23 ---------------------
 rules/tempfiles.go           | 16 +++++++--------
 rules/templates.go           |  2 +-
 7 files changed, 95 insertions(+), 63 deletions(-)
 create mode 100644 rules/constants.go

diff --git a/rules/bind.go b/rules/bind.go
index fef760c..0656910 100644
--- a/rules/bind.go
+++ b/rules/bind.go
@@ -33,32 +33,33 @@ func (r *bindsToAllNetworkInterfaces) ID() string {
 	return r.MetaData.ID
 }
 
+// matchAddress checks a constant, or the constant a variable is declared with
+func (r *bindsToAllNetworkInterfaces) matchAddress(arg ast.Expr, c *gosec.Context) bool {
+	address, ok := constantString(arg, c)
+	if ident, isIdent := ast.Unparen(arg).(*ast.Ident); !ok && isIdent {
+		if value := gosec.DeclaredValue(ident); value != nil {
+			address, ok = constantString(value, c)
+		}
+	}
+	return ok && r.pattern.MatchString(address)
+}
+
 func (r *bindsToAllNetworkInterfaces) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	callExpr := r.calls.ContainsPkgCallExpr(n, c, false)
 	if callExpr == nil {
 		return nil, nil
 	}
 	if len(callExpr.Args) > 1 {
-		arg := callExpr.Args[1]
-		if bl, ok := arg.(*ast.BasicLit); ok {
-			if arg, err := gosec.GetString(bl); err == nil {
-				if r.pattern.MatchString(arg) {
-					return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
-				}
-			}
-		} else if ident, ok := arg.(*ast.Ident); ok {
-			values := gosec.GetIdentStringValues(ident)
-			for _, value := range values {
-				if r.pattern.MatchString(value) {
-					return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
-				}
-			}
+		if r.matchAddress(callExpr.Args[1], c) {
+			return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 		}
 	} else if len(callExpr.Args) > 0 {
-		values := gosec.GetCallStringArgsValues(callExpr.Args[0], c)
-		for _, value := range values {
-			if r.pattern.MatchString(value) {
-				return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
+		// the network and the address are the results of a function
+		if call, ok := ast.Unparen(callExpr.Args[0]).(*ast.CallExpr); ok {
+			for _, arg := range call.Args {
+				if r.matchAddress(arg, c) {
+					return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
+				}
 			}
 		}
 	}
@@ -73,7 +74,7 @@ func NewBindsToAllNetworkInterfaces(id string, _ gosec.Config) (gosec.Rule, []as
 	calls.Add("crypto/tls", "Listen")
 	return &bindsToAllNetworkInterfaces{
 		calls:   calls,
-		pattern: regexp.MustCompile(`^(0.0.0.0|:).*$`),
+		pattern: regexp.MustCompile(`^(0\.0\.0\.0|:).*$`),
 		MetaData: issue.MetaData{
 			ID:         id,
 			Severity:   issue.Medium,
diff --git a/rules/constants.go b/rules/constants.go
new file mode 100644
index 0000000..59facee
--- /dev/null
+++ b/rules/constants.go
@@ -0,0 +1,40 @@
+package rules
+
+import (
+	"go/ast"
+	"go/constant"
+
+	"github.com/securego/gosec/v2"
+)
+
+// isConstant tells if an expression is a compile-time constant
+func isConstant(n ast.Expr, ctx *gosec.Context) bool {
+	n = ast.Unparen(n)
+	if _, ok := n.(*ast.BasicLit); ok {
+		return true
+	}
+	return ctx.Info.Types[n].Value != nil
+}
+
+// constantInt returns the value of a constant integer
+func constantInt(n ast.Expr, ctx *gosec.Context) (int64, bool) {
+	n = ast.Unparen(n)
+	if value := ctx.Info.Types[n].Value; value != nil {
+		return constant.Int64Val(constant.ToInt(value))
+	}
+	i, err := gosec.GetInt(n)
+	return i, err == nil
+}
+
+// constantString returns the value of a constant string
+func constantString(n ast.Expr, ctx *gosec.Context) (string, bool) {
+	n = ast.Unparen(n)
+	if value := ctx.Info.Types[n].Value; value != nil {
+		if value.Kind() != constant.String {
+			return "", false
+		}
+		return constant.StringVal(value), true
+	}
+	str, err := gosec.GetString(n)
+	return str, err == nil
+}
diff --git a/rules/directory-traversal.go b/rules/directory-traversal.go
index db1bf4e..f6ba3cd 100644
--- a/rules/directory-traversal.go
+++ b/rules/directory-traversal.go
@@ -3,6 +3,7 @@ package rules
 import (
 	"go/ast"
 	"regexp"
+	"strconv"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -25,19 +26,32 @@ func (r *traversal) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error)
 	return nil, nil
 }
 
+// argumentText returns a constant argument as a literal, in double quotes when it is a string
+func argumentText(n ast.Expr, ctx *gosec.Context) (string, bool) {
+	if str, ok := constantString(n, ctx); ok {
+		return strconv.Quote(str), true
+	}
+	if lit, ok := ast.Unparen(n).(*ast.BasicLit); ok {
+		return lit.Value, true
+	}
+	return "", false
+}
+
 func (r *traversal) matchCallExpr(assign *ast.CallExpr, ctx *gosec.Context) (*issue.Issue, error) {
 	for _, i := range assign.Args {
-		if basiclit, ok1 := i.(*ast.BasicLit); ok1 {
-			if fun, ok2 := assign.Fun.(*ast.SelectorExpr); ok2 {
-				if x, ok3 := fun.X.(*ast.Ident); ok3 {
-					name := x.Name
-					if pkgName, ok := gosec.GetPackageName(x, ctx); ok {
-						name = pkgName
-					}
-					str := name + "." + fun.Sel.Name + "(" + basiclit.Value + ")"
-					if r.pattern.MatchString(str) {
-						return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
-					}
+		value, ok1 := argumentText(i, ctx)
+		if !ok1 {
+			continue
+		}
+		if fun, ok2 := assign.Fun.(*ast.SelectorExpr); ok2 {
+			if x, ok3 := fun.X.(*ast.Ident); ok3 {
+				name := x.Name
+				if pkgName, ok := gosec.GetPackageName(x, ctx); ok {
+					name = pkgName
+				}
+				str := name + "." + fun.Sel.Name + "(" + value + ")"
+				if r.pattern.MatchString(str) {
+					return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
 				}
 			}
 		}
diff --git a/rules/rsa.go b/rules/rsa.go
index f93f4d0..2981016 100644
--- a/rules/rsa.go
+++ b/rules/rsa.go
@@ -37,7 +37,7 @@ func (w *weakKeyStrength) Match(n ast.Node, c *gosec.Context) (*issue.Issue, err
 		if len(callExpr.Args) < 2 {
 			return nil, nil
 		}
-		if bits, err := gosec.GetInt(callExpr.Args[1]); err == nil && bits < (int64)(w.bits) {
+		if bits, ok := constantInt(callExpr.Args[1], c); ok && bits < (int64)(w.bits) {
 			return c.NewIssue(n, w.ID(), w.What, w.Severity, w.Confidence), nil
 		}
 	}
diff --git a/rules/sql.go b/rules/sql.go
index 3aac68e..9f370f2 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -17,7 +17,6 @@ package rules
 import (
 	"fmt"
 	"go/ast"
-	"go/constant"
 	"regexp"
 
 	"github.com/securego/gosec/v2"
@@ -77,28 +76,6 @@ func findQueryArg(call *ast.CallExpr, ctx *gosec.Context) (ast.Expr, error) {
 	return query, nil
 }
 
-// isConstant tells if an expression is a compile-time constant
-func isConstant(n ast.Expr, ctx *gosec.Context) bool {
-	n = ast.Unparen(n)
-	if _, ok := n.(*ast.BasicLit); ok {
-		return true
-	}
-	return ctx.Info.Types[n].Value != nil
-}
-
-// constantString returns the value of a constant string
-func constantString(n ast.Expr, ctx *gosec.Context) (string, bool) {
-	n = ast.Unparen(n)
-	if value := ctx.Info.Types[n].Value; value != nil {
-		if value.Kind() != constant.String {
-			return "", false
-		}
-		return constant.StringVal(value), true
-	}
-	str, err := gosec.GetString(n)
-	return str, err == nil
-}
-
 func (s *sqlStatement) ID() string {
 	return s.MetaData.ID
 }
diff --git a/rules/tempfiles.go b/rules/tempfiles.go
index 29f5bab..bc57a2f 100644
--- a/rules/tempfiles.go
+++ b/rules/tempfiles.go
@@ -35,20 +35,20 @@ func (t *badTempFile) ID() string {
 }
 
 func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.Node) *issue.Issue {
-	if s, e := gosec.GetString(suspect); e == nil {
-		if t.args.MatchString(s) {
-			return c.NewIssue(n, t.ID(), t.What, t.Severity, t.Confidence)
+	if expr, ok := suspect.(ast.Expr); ok {
+		suspect = ast.Unparen(expr)
+		if s, ok := constantString(expr, c); ok {
+			if t.args.MatchString(s) {
+				return c.NewIssue(n, t.ID(), t.What, t.Severity, t.Confidence)
+			}
+			return nil
 		}
-		return nil
 	}
 	if ce := t.argCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil {
 		return c.NewIssue(n, t.ID(), t.What, t.Severity, t.Confidence)
 	}
 	if be, ok := suspect.(*ast.BinaryExpr); ok {
-		if ops := gosec.GetBinaryExprOperands(be); len(ops) != 0 {
-			return t.findTempDirArgs(n, c, ops[0])
-		}
-		return nil
+		return t.findTempDirArgs(n, c, be.X)
 	}
 	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil && len(ce.Args) > 0 {
 		return t.findTempDirArgs(n, c, ce.Args[0])
diff --git a/rules/templates.go b/rules/templates.go
index 3d5f9a9..11e5b07 100644
--- a/rules/templates.go
+++ b/rules/templates.go
@@ -33,7 +33,7 @@ func (t *templateCheck) ID() string {
 func (t *templateCheck) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil {
 		for _, arg := range node.Args {
-			if _, ok := arg.(*ast.BasicLit); !ok { // basic lits are safe
+			if !isConstant(arg, c) { // constants are safe
 				return c.NewIssue(n, t.ID(), t.What, t.Severity, t.Confidence), nil
 			}
 		}
-- 
2.43.0


From 3a6d72debb61033890975e3272c518b833753afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:25 +0000
Subject: [PATCH 56/68] fix: G109, G110 and G305 follow the variable that gets
 the value, G112 sees literals with an elided type

Values of var declarations were not followed, the first of several variables assigned together was taken for
each of the others, and readers copied without a variable were missed.
---
 rules/archive.go            | 13 +++------
 rules/decompression-bomb.go | 57 +++++++++++++++++++++++++++++--------
 rules/integer_overflow.go   | 22 +++++++-------
 rules/slowloris.go          | 12 ++++++--
 4 files changed, 69 insertions(+), 35 deletions(-)

diff --git a/rules/archive.go b/rules/archive.go
index 9870474..50c5aee 100644
--- a/rules/archive.go
+++ b/rules/archive.go
@@ -23,17 +23,12 @@ func (a *archive) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if node := a.calls.ContainsPkgCallExpr(n, c, false); node != nil {
 		for _, arg := range node.Args {
 			var argType types.Type
+			arg = ast.Unparen(arg)
+			if ident, ok := arg.(*ast.Ident); ok {
+				arg = ast.Unparen(gosec.DeclaredValue(ident))
+			}
 			if selector, ok := arg.(*ast.SelectorExpr); ok {
 				argType = c.Info.TypeOf(selector.X)
-			} else if ident, ok := arg.(*ast.Ident); ok {
-				if ident.Obj != nil && ident.Obj.Kind == ast.Var {
-					decl := ident.Obj.Decl
-					if assign, ok := decl.(*ast.AssignStmt); ok {
-						if selector, ok := assign.Rhs[0].(*ast.SelectorExpr); ok {
-							argType = c.Info.TypeOf(selector.X)
-						}
-					}
-				}
 			}
 
 			if argType != nil {
diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index f227b0f..a8b0bb1 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -32,6 +32,35 @@ func (d *decompressionBombCheck) ID() string {
 	return d.MetaData.ID
 }
 
+// assignedCall is a variable to which the first result of a call is assigned
+type assignedCall struct {
+	obj  *ast.Object
+	call *ast.CallExpr
+}
+
+// assignedCalls returns the variables which a statement or declaration gives the first result of a call
+func assignedCalls(node ast.Node) []assignedCall {
+	var names, values []ast.Expr
+	switch n := node.(type) {
+	case *ast.AssignStmt:
+		names, values = n.Lhs, n.Rhs
+	case *ast.ValueSpec:
+		for _, name := range n.Names {
+			names = append(names, name)
+		}
+		values = n.Values
+	}
+	var assigned []assignedCall
+	for i, value := range values {
+		if call, ok := ast.Unparen(value).(*ast.CallExpr); ok && i < len(names) {
+			if name, ok := names[i].(*ast.Ident); ok && name.Obj != nil && name.Name != "_" {
+				assigned = append(assigned, assignedCall{name.Obj, call})
+			}
+		}
+	}
+	return assigned
+}
+
 func containsReaderCall(node ast.Node, ctx *gosec.Context, list gosec.CallList) bool {
 	if list.ContainsPkgCallExpr(node, ctx, false) != nil {
 		return true
@@ -57,15 +86,13 @@ func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issu
 	// io.Copy is a common function.
 	// To reduce false positives, This rule detects code which is used for compressed data only.
 	switch n := node.(type) {
-	case *ast.AssignStmt:
-		for _, expr := range n.Rhs {
-			if callExpr, ok := expr.(*ast.CallExpr); ok && containsReaderCall(callExpr, ctx, d.readerCalls) {
-				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Obj != nil && idt.Name != "_" {
-					// Example:
-					//  r, _ := zlib.NewReader(buf)
-					//  Add r's Obj to readerVarObj map
-					readerVarObj[idt.Obj] = struct{}{}
-				}
+	case *ast.AssignStmt, *ast.ValueSpec:
+		for _, assigned := range assignedCalls(n) {
+			// Example:
+			//  r, _ := zlib.NewReader(buf)
+			//  Add r's Obj to readerVarObj map
+			if containsReaderCall(assigned.call, ctx, d.readerCalls) {
+				readerVarObj[assigned.obj] = struct{}{}
 			}
 		}
 	case *ast.CallExpr:
@@ -73,11 +100,17 @@ func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issu
 			if len(n.Args) < 2 {
 				return nil, nil
 			}
-			if idt, ok := n.Args[1].(*ast.Ident); ok {
-				if _, ok := readerVarObj[idt.Obj]; ok {
+			switch src := ast.Unparen(n.Args[1]).(type) {
+			case *ast.Ident:
+				if _, ok := readerVarObj[src.Obj]; ok {
 					// Detect io.Copy(x, r)
 					return ctx.NewIssue(n, d.ID(), d.What, d.Severity, d.Confidence), nil
 				}
+			case *ast.CallExpr:
+				if containsReaderCall(src, ctx, d.readerCalls) {
+					// Detect io.Copy(x, flate.NewReader(r))
+					return ctx.NewIssue(n, d.ID(), d.What, d.Severity, d.Confidence), nil
+				}
 			}
 		}
 	}
@@ -110,5 +143,5 @@ func NewDecompressionBombCheck(id string, _ gosec.Config) (gosec.Rule, []ast.Nod
 		},
 		readerCalls: readerCalls,
 		copyCalls:   copyCalls,
-	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.CallExpr)(nil)}
+	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.ValueSpec)(nil), (*ast.CallExpr)(nil)}
 }
diff --git a/rules/integer_overflow.go b/rules/integer_overflow.go
index 153f88b..1d35238 100644
--- a/rules/integer_overflow.go
+++ b/rules/integer_overflow.go
@@ -47,21 +47,19 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 	// strconv.Atoi is a common function.
 	// To reduce false positives, This rule detects code which is converted to int32/int16 only.
 	switch n := node.(type) {
-	case *ast.AssignStmt:
-		for _, expr := range n.Rhs {
-			if callExpr, ok := expr.(*ast.CallExpr); ok && i.calls.ContainsPkgCallExpr(callExpr, ctx, false) != nil {
-				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Obj != nil && idt.Name != "_" {
-					// Example:
-					//  v, _ := strconv.Atoi("1111")
-					// Add v's Obj to atoiVarObj map
-					atoiVarObj[idt.Obj] = n
-				}
+	case *ast.AssignStmt, *ast.ValueSpec:
+		for _, assigned := range assignedCalls(n) {
+			// Example:
+			//  v, _ := strconv.Atoi("1111")
+			// Add v's Obj to atoiVarObj map
+			if i.calls.ContainsPkgCallExpr(assigned.call, ctx, false) != nil {
+				atoiVarObj[assigned.obj] = n
 			}
 		}
 	case *ast.CallExpr:
-		if fun, ok := n.Fun.(*ast.Ident); ok {
+		if fun, ok := ast.Unparen(n.Fun).(*ast.Ident); ok {
 			if (fun.Name == "int32" || fun.Name == "int16") && len(n.Args) > 0 {
-				if idt, ok := n.Args[0].(*ast.Ident); ok {
+				if idt, ok := ast.Unparen(n.Args[0]).(*ast.Ident); ok {
 					if _, ok := atoiVarObj[idt.Obj]; ok {
 						// Detect int32(v) and int16(v)
 						return ctx.NewIssue(n, i.ID(), i.What, i.Severity, i.Confidence), nil
@@ -86,5 +84,5 @@ func NewIntegerOverflowCheck(id string, _ gosec.Config) (gosec.Rule, []ast.Node)
 			What:       "Potential Integer overflow made by strconv.Atoi result conversion to int16/32",
 		},
 		calls: calls,
-	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.CallExpr)(nil)}
+	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.ValueSpec)(nil), (*ast.CallExpr)(nil)}
 }
diff --git a/rules/slowloris.go b/rules/slowloris.go
index 70db73f..be4bbb1 100644
--- a/rules/slowloris.go
+++ b/rules/slowloris.go
@@ -16,6 +16,7 @@ package rules
 
 import (
 	"go/ast"
+	"go/types"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -48,8 +49,15 @@ func containsReadHeaderTimeout(node *ast.CompositeLit) bool {
 func (r *slowloris) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
 	switch node := n.(type) {
 	case *ast.CompositeLit:
-		actualType := ctx.Info.TypeOf(node.Type)
-		if actualType != nil && actualType.String() == "net/http.Server" {
+		// the type can be left out in the elements of another literal
+		actualType := ctx.Info.TypeOf(node)
+		if actualType == nil {
+			return nil, nil
+		}
+		if pointer, ok := types.Unalias(actualType).(*types.Pointer); ok {
+			actualType = pointer.Elem()
+		}
+		if types.Unalias(actualType).String() == "net/http.Server" {
 			if !containsReadHeaderTimeout(node) {
 				return ctx.NewIssue(node, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
-- 
2.43.0


From 5811b1e5d54d15b915498be3fe3b7373659a12ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 57/68] fix: G601 sees the address of a loop variable in
 parentheses

---
 rules/implicit_aliasing.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rules/implicit_aliasing.go b/rules/implicit_aliasing.go
index ee2358c..0fc4632 100644
--- a/rules/implicit_aliasing.go
+++ b/rules/implicit_aliasing.go
@@ -41,6 +41,8 @@ func doGetIdentExpr(expr ast.Expr, hasSelector bool) (*ast.Ident, bool) {
 		return doGetIdentExpr(node.X, true)
 	case *ast.UnaryExpr:
 		return doGetIdentExpr(node.X, hasSelector)
+	case *ast.ParenExpr:
+		return doGetIdentExpr(node.X, hasSelector)
 	default:
 		return nil, false
 	}
-- 
2.43.0


From 19c3eaaf3242ca85a37b9d78135665219dd0e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 58/68] fix: a folder to exclude whose name is no regular
 expression does not crash gosec

---
 helpers.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/helpers.go b/helpers.go
index 91e0bbd..eaf806b 100644
--- a/helpers.go
+++ b/helpers.go
@@ -484,14 +484,19 @@ func isExcluded(str string, excludes []*regexp.Regexp) bool {
 	return false
 }
 
+// excludedDirFormat matches entire path elements, otherwise other folders which only contain the name would be excluded too
+const excludedDirFormat = `(^|[\\/])(?:%s)([\\/]|$)`
+
 // ExcludedDirsRegExp builds the regexps for a list of excluded dirs provided as strings
 func ExcludedDirsRegExp(excludedDirs []string) []*regexp.Regexp {
 	var exps []*regexp.Regexp
 	for _, excludedDir := range excludedDirs {
-		// Match entire path elements, otherwise other folders which only contain the name would be excluded too
 		dir := strings.Trim(filepath.ToSlash(excludedDir), "/")
-		str := fmt.Sprintf(`(^|[\\/])(?:%s)([\\/]|$)`, strings.ReplaceAll(dir, "/", `\/`))
-		r := regexp.MustCompile(str)
+		r, err := regexp.Compile(fmt.Sprintf(excludedDirFormat, strings.ReplaceAll(dir, "/", `\/`)))
+		if err != nil {
+			// Not a regular expression, hence the plain name of a folder (which is not always valid UTF-8)
+			r = regexp.MustCompile(fmt.Sprintf(excludedDirFormat, regexp.QuoteMeta(string([]rune(dir)))))
+		}
 		exps = append(exps, r)
 	}
 	return exps
-- 
2.43.0


From 6ac0a5cae6e6aba180a03f3fe47f6a1d0cdf6668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 59/68] fix: invalid patterns in the configuration of G101 and
 G111 do not crash gosec

---
 rules/directory-traversal.go   | 4 +++-
 rules/hardcoded_credentials.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rules/directory-traversal.go b/rules/directory-traversal.go
index f6ba3cd..51c6625 100644
--- a/rules/directory-traversal.go
+++ b/rules/directory-traversal.go
@@ -65,7 +65,9 @@ func NewDirectoryTraversal(id string, conf gosec.Config) (gosec.Rule, []ast.Node
 	if conf, ok := conf[id].(map[string]interface{}); ok {
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
-				pattern = cfgPattern
+				if _, err := regexp.Compile(cfgPattern); err == nil {
+					pattern = cfgPattern
+				}
 			}
 		}
 	}
diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index d6a1e8b..4950114 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -356,7 +356,9 @@ func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.No
 	if conf, ok := conf[id].(map[string]interface{}); ok {
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
-				pattern = cfgPattern
+				if _, err := regexp.Compile(cfgPattern); err == nil {
+					pattern = cfgPattern
+				}
 			}
 		}
 
-- 
2.43.0


From 1a1197e1e0c1a2c7f6b1b2268a10ba9e7d8d5518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:37 +0000
Subject: [PATCH 60/68] fix: packages are loaded with their own module,
 wherever gosec is started

---
 analyzer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analyzer.go b/analyzer.go
index ab056c8..72168c8 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -352,6 +352,7 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 
 	// step 3/3 turn the build tags into a flag of the go command, in a copy since the config is shared by all packages.
 	loadConf := *conf
+	loadConf.Dir = abspath
 	loadConf.BuildFlags = nil
 	if len(conf.BuildFlags) > 0 {
 		loadConf.BuildFlags = []string{"-tags=" + strings.Join(conf.BuildFlags, ",")}
-- 
2.43.0


From ae8c1f7032f86eed25ad032e60528b8e288b393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:29 +0000
Subject: [PATCH 61/68] fix: functions of the analyzed package are not those of
 an import which a rule looks for

---
 helpers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/helpers.go b/helpers.go
index eaf806b..0b07ec8 100644
--- a/helpers.go
+++ b/helpers.go
@@ -49,6 +49,11 @@ func MatchCallByPackage(n ast.Node, c *Context, pkg string, names ...string) (*a
 	}
 
 	if callExpr, ok := n.(*ast.CallExpr); ok {
+		// A function called by its name alone belongs to the package being analyzed, it is not
+		// called through an import which has the same name as this package.
+		if _, ok := callExpr.Fun.(*ast.Ident); ok {
+			return nil, false
+		}
 		packageName, callName, err := GetCallInfo(callExpr, c)
 		if err != nil {
 			return nil, false
-- 
2.43.0


From 1cac5b895b509a4d6e85580331759ddb68bc0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:48 +0000
Subject: [PATCH 62/68] fix: GetChar returns the character, not the quote in
 front of it

---
 helpers.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 0b07ec8..7100236 100644
--- a/helpers.go
+++ b/helpers.go
@@ -22,6 +22,7 @@ import (
 	"go/ast"
 	"go/token"
 	"go/types"
+	"math"
 	"os"
 	"os/exec"
 	"os/user"
@@ -102,7 +103,14 @@ func GetFloat(n ast.Node) (float64, error) {
 // GetChar will read and return a char value from an ast.BasicLit
 func GetChar(n ast.Node) (byte, error) {
 	if node, ok := n.(*ast.BasicLit); ok && node.Kind == token.CHAR {
-		return node.Value[0], nil
+		char, _, _, err := strconv.UnquoteChar(strings.TrimPrefix(node.Value, "'"), '\'')
+		if err != nil {
+			return 0, err
+		}
+		if char > math.MaxUint8 {
+			return 0, fmt.Errorf("character does not fit in a byte: %s", node.Value)
+		}
+		return byte(char), nil
 	}
 	return 0, fmt.Errorf("unexpected AST node type: %T", n)
 }
-- 
2.43.0


From 013fe4121d5967807cb5eec4752877f7f73fa058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:31 +0000
Subject: [PATCH 63/68] fix: MatchCompLit does not crash on literals of unknown
 types

---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 7100236..f9b71d4 100644
--- a/helpers.go
+++ b/helpers.go
@@ -77,7 +77,7 @@ func MatchCallByPackage(n ast.Node, c *Context, pkg string, names ...string) (*a
 func MatchCompLit(n ast.Node, ctx *Context, required string) *ast.CompositeLit {
 	if complit, ok := n.(*ast.CompositeLit); ok {
 		typeOf := ctx.Info.TypeOf(complit)
-		if typeOf.String() == required {
+		if typeOf != nil && typeOf.String() == required {
 			return complit
 		}
 	}
-- 
2.43.0


From 6da730081723c3ded551e2d3915dd753dedbae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:58 +0000
Subject: [PATCH 64/68] fix: findings of one line are always reported in the
 same order

---
 cmd/gosec/sort_issues.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/gosec/sort_issues.go b/cmd/gosec/sort_issues.go
index c155cbf..91a363f 100644
--- a/cmd/gosec/sort_issues.go
+++ b/cmd/gosec/sort_issues.go
@@ -23,6 +23,11 @@ func sortIssues(issues []*issue.Issue) {
 			cmp.Compare(i.What, j.What),
 			cmp.Compare(i.File, j.File),
 			cmp.Compare(extractLineNumber(i.Line), extractLineNumber(j.Line)),
+			// the same findings are always in the same order
+			cmp.Compare(i.Line, j.Line),
+			cmp.Compare(extractLineNumber(i.Col), extractLineNumber(j.Col)),
+			cmp.Compare(i.RuleID, j.RuleID),
+			cmp.Compare(i.Confidence, j.Confidence),
 		)
 	})
 }
-- 
2.43.0


From bb8a3ad329af8a26f12c973c034ca89fe61891b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:24 +0000
Subject: [PATCH 65/68] fix: G602 applies the comparisons of lengths to the
 accesses which they guard

An access was only left out in the blocks which follow a comparison directly or
through further conditions, but not after a loop or a return, and then whatever
the length which the comparison ensures. The smallest length which satisfies
the conditions on the way to the access decides now.
---
 analyzers/slice_bounds.go | 283 +++++++++++++++++---------------------
 1 file changed, 125 insertions(+), 158 deletions(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index d26178f..0b0d069 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -15,11 +15,10 @@
 package analyzers
 
 import (
-	"fmt"
 	"go/constant"
 	"go/token"
 	"go/types"
-	"strconv"
+	"math"
 
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
@@ -28,15 +27,6 @@ import (
 	"github.com/securego/gosec/v2/issue"
 )
 
-type bound int
-
-const (
-	lowerUnbounded bound = iota
-	upperUnbounded
-	unbounded
-	upperBounded
-)
-
 const maxDepth = 20
 
 func newSliceBoundsAnalyzer(id string, description string) *analysis.Analyzer {
@@ -55,7 +45,6 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 	}
 
 	issues := map[ssa.Instruction]*issue.Issue{}
-	ifs := map[ssa.If]*ssa.BinOp{}
 	for _, mcall := range ssaResult.SSA.SrcFuncs {
 		for _, block := range mcall.DomPreorder() {
 			for _, instr := range block.Instrs {
@@ -66,7 +55,7 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 						break
 					}
 					violations := []ssa.Instruction{}
-					trackSliceBounds(0, size, instr, &violations, ifs, map[visit]int{})
+					trackSliceBounds(0, &trackedSlice{value: instr, size: size}, &violations, map[visit]int{})
 					for _, s := range violations {
 						switch s := s.(type) {
 						case *ssa.Slice:
@@ -94,57 +83,6 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 		}
 	}
 
-	for ifref, binop := range ifs {
-		bound, value, err := extractBinOpBound(binop)
-		if err != nil {
-			continue
-		}
-		for i, block := range ifref.Block().Succs {
-			if i == 1 {
-				bound = invBound(bound)
-			}
-			visited := map[*ssa.BasicBlock]int{}
-			var processBlock func(block *ssa.BasicBlock, depth int)
-			processBlock = func(block *ssa.BasicBlock, depth int) {
-				if depth == maxDepth {
-					return
-				}
-				if d, ok := visited[block]; ok && d <= depth {
-					return
-				}
-				visited[block] = depth
-				depth++
-				for _, instr := range block.Instrs {
-					if _, ok := issues[instr]; ok {
-						switch bound {
-						case lowerUnbounded:
-							break
-						case upperUnbounded, unbounded:
-							delete(issues, instr)
-						case upperBounded:
-							switch tinstr := instr.(type) {
-							case *ssa.Slice:
-								if _, ok := (sliceSize{length: value, capacity: value}).slice(tinstr); ok {
-									delete(issues, instr)
-								}
-							case *ssa.IndexAddr:
-								if (sliceSize{length: value, capacity: value}).hasIndex(tinstr) {
-									delete(issues, instr)
-								}
-							}
-						}
-					} else if nestedIfInstr, ok := instr.(*ssa.If); ok {
-						for _, nestedBlock := range nestedIfInstr.Block().Succs {
-							processBlock(nestedBlock, depth)
-						}
-					}
-				}
-			}
-
-			processBlock(block, 0)
-		}
-	}
-
 	foundIssues := []*issue.Issue{}
 	for _, issue := range issues {
 		foundIssues = append(foundIssues, issue)
@@ -207,8 +145,8 @@ func (s sliceSize) hasIndex(expr *ssa.IndexAddr) bool {
 // visit is a step of the tracking, which is taken again only when it leads deeper than before. Otherwise
 // the number of steps grows exponentially, for instance with the calls of a recursive function.
 type visit struct {
-	node ssa.Value
-	size sliceSize
+	node             ssa.Value
+	size, parentSize sliceSize
 }
 
 func alreadyVisited(v visit, depth int, visited map[visit]int) bool {
@@ -219,37 +157,44 @@ func alreadyVisited(v visit, depth int, visited map[visit]int) bool {
 	return false
 }
 
-func trackSliceBounds(depth int, size sliceSize, slice ssa.Value, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, visited map[visit]int) {
-	if depth == maxDepth || alreadyVisited(visit{node: slice, size: size}, depth, visited) {
+// trackedSlice is a slice of known size and, as its parent, the one from which it results.
+type trackedSlice struct {
+	value  ssa.Value
+	size   sliceSize
+	parent *trackedSlice
+}
+
+func trackSliceBounds(depth int, slice *trackedSlice, violations *[]ssa.Instruction, visited map[visit]int) {
+	v := visit{node: slice.value, size: slice.size}
+	if slice.parent != nil {
+		v.parentSize = slice.parent.size
+	}
+	if depth == maxDepth || alreadyVisited(v, depth, visited) {
 		return
 	}
 	depth++
-	if violations == nil {
-		violations = &[]ssa.Instruction{}
+	referrers := slice.value.Referrers()
+	if referrers == nil {
+		return
 	}
-	referrers := slice.Referrers()
-	if referrers != nil {
-		for _, refinstr := range *referrers {
-			switch refinstr := refinstr.(type) {
-			case *ssa.Slice:
-				newSize, ok := size.slice(refinstr)
-				if !ok {
-					*violations = append(*violations, refinstr)
-				} else if newSize != nil {
-					trackSliceBounds(depth, *newSize, refinstr, violations, ifs, visited)
-				}
-			case *ssa.IndexAddr:
-				if !size.hasIndex(refinstr) {
-					*violations = append(*violations, refinstr)
-				}
-			case *ssa.Call:
-				if ifref, cond := extractSliceIfLenCondition(refinstr); ifref != nil && cond != nil {
-					ifs[*ifref] = cond
-				} else if fn, ok := refinstr.Call.Value.(*ssa.Function); ok {
-					for pos, arg := range refinstr.Call.Args {
-						if arg == slice && pos < len(fn.Params) {
-							trackSliceBounds(depth, size, fn.Params[pos], violations, ifs, visited)
-						}
+	for _, refinstr := range *referrers {
+		switch refinstr := refinstr.(type) {
+		case *ssa.Slice:
+			newSize, ok := slice.size.slice(refinstr)
+			if !ok && !slice.guarded(refinstr.Block(), func(size sliceSize) bool { _, ok := size.slice(refinstr); return ok }) {
+				*violations = append(*violations, refinstr)
+			} else if newSize != nil {
+				trackSliceBounds(depth, &trackedSlice{value: refinstr, size: *newSize, parent: slice}, violations, visited)
+			}
+		case *ssa.IndexAddr:
+			if !slice.size.hasIndex(refinstr) && !slice.guarded(refinstr.Block(), func(size sliceSize) bool { return size.hasIndex(refinstr) }) {
+				*violations = append(*violations, refinstr)
+			}
+		case *ssa.Call:
+			if fn, ok := refinstr.Call.Value.(*ssa.Function); ok {
+				for pos, arg := range refinstr.Call.Args {
+					if arg == slice.value && pos < len(fn.Params) {
+						trackSliceBounds(depth, &trackedSlice{value: fn.Params[pos], size: slice.size}, violations, visited)
 					}
 				}
 			}
@@ -257,80 +202,102 @@ func trackSliceBounds(depth int, size sliceSize, slice ssa.Value, violations *[]
 	}
 }
 
-func extractSliceIfLenCondition(call *ssa.Call) (*ssa.If, *ssa.BinOp) {
-	if builtInLen, ok := call.Call.Value.(*ssa.Builtin); ok {
-		if builtInLen.Name() == "len" {
-			refs := call.Referrers()
-			if refs != nil {
-				for _, ref := range *refs {
-					if binop, ok := ref.(*ssa.BinOp); ok {
-						binoprefs := binop.Referrers()
-						for _, ref := range *binoprefs {
-							if ifref, ok := ref.(*ssa.If); ok {
-								return ifref, binop
-							}
-						}
-					}
-				}
-			}
+// guarded tells if the conditions on the way to a block, which compare lengths with constants, ensure
+// that an access is in range or that the block is never reached, whatever the size of the slice.
+func (s *trackedSlice) guarded(block *ssa.BasicBlock, inRange func(sliceSize) bool) bool {
+	size, ok := s.smallestSize(block)
+	return !ok || inRange(size)
+}
+
+// smallestSize returns the smallest size which the slice can have according to the conditions on the way
+// to a block. It is false when there is none, which means that the block is never reached.
+func (s *trackedSlice) smallestSize(block *ssa.BasicBlock) (sliceSize, bool) {
+	length, ok := smallestLength(s.value, block)
+	if !ok {
+		return sliceSize{}, false
+	}
+	size := sliceSize{length: length, capacity: length}
+	if expr, ok := s.value.(*ssa.Slice); ok && s.parent != nil {
+		parentSize, ok := s.parent.smallestSize(block)
+		if !ok {
+			return sliceSize{}, false
+		}
+		if result, ok := parentSize.slice(expr); ok && result != nil && result.length > length {
+			size = *result
 		}
 	}
-	return nil, nil
+	return size, true
 }
 
-func invBound(bound bound) bound {
-	switch bound {
-	case lowerUnbounded:
-		return upperUnbounded
-	case upperUnbounded:
-		return lowerUnbounded
-	case upperBounded:
-		return unbounded
-	case unbounded:
-		return upperBounded
-	default:
-		return unbounded
+// smallestLength returns the smallest length which satisfies the conditions on the way to a block.
+func smallestLength(slice ssa.Value, block *ssa.BasicBlock) (int, bool) {
+	smallest, largest := 0, math.MaxInt
+	excluded := map[int]bool{}
+	for ; block != nil; block = block.Idom() {
+		if len(block.Preds) != 1 {
+			continue
+		}
+		guard := block.Preds[0]
+		ifInstr, ok := guard.Instrs[len(guard.Instrs)-1].(*ssa.If)
+		if !ok || guard.Succs[0] == guard.Succs[1] {
+			continue
+		}
+		op, value, ok := extractLengthComparison(ifInstr.Cond, slice)
+		if !ok {
+			continue
+		}
+		if block == guard.Succs[1] {
+			op = oppositeComparison(op)
+		}
+		switch op {
+		case token.LSS:
+			largest = min(largest, value-1)
+		case token.LEQ:
+			largest = min(largest, value)
+		case token.GTR:
+			smallest = max(smallest, value+1)
+		case token.GEQ:
+			smallest = max(smallest, value)
+		case token.EQL:
+			smallest, largest = max(smallest, value), min(largest, value)
+		case token.NEQ:
+			excluded[value] = true
+		}
+	}
+	for excluded[smallest] {
+		smallest++
 	}
+	return smallest, smallest <= largest
 }
 
-func extractBinOpBound(binop *ssa.BinOp) (bound, int, error) {
-	if binop.X != nil {
-		if x, ok := binop.X.(*ssa.Const); ok {
-			value, err := strconv.Atoi(x.Value.String())
-			if err != nil {
-				return lowerUnbounded, value, err
-			}
-			switch binop.Op {
-			case token.LSS, token.LEQ:
-				return upperUnbounded, value, nil
-			case token.GTR, token.GEQ:
-				return lowerUnbounded, value, nil
-			case token.EQL:
-				return upperBounded, value, nil
-			case token.NEQ:
-				return unbounded, value, nil
-			}
-		}
+// extractLengthComparison returns the operator and the constant with which a condition compares the
+// length of a slice.
+func extractLengthComparison(cond ssa.Value, slice ssa.Value) (token.Token, int, bool) {
+	if not, ok := cond.(*ssa.UnOp); ok && not.Op == token.NOT {
+		op, value, ok := extractLengthComparison(not.X, slice)
+		return oppositeComparison(op), value, ok
 	}
-	if binop.Y != nil {
-		if y, ok := binop.Y.(*ssa.Const); ok {
-			value, err := strconv.Atoi(y.Value.String())
-			if err != nil {
-				return lowerUnbounded, value, err
-			}
-			switch binop.Op {
-			case token.LSS, token.LEQ:
-				return lowerUnbounded, value, nil
-			case token.GTR, token.GEQ:
-				return upperUnbounded, value, nil
-			case token.EQL:
-				return upperBounded, value, nil
-			case token.NEQ:
-				return unbounded, value, nil
-			}
-		}
+	binop, ok := cond.(*ssa.BinOp)
+	if !ok {
+		return token.ILLEGAL, 0, false
+	}
+	if value, ok := extractIntValue(binop.Y); ok && isLength(binop.X, slice) {
+		return binop.Op, value, true
+	}
+	if value, ok := extractIntValue(binop.X); ok && isLength(binop.Y, slice) {
+		return flippedComparison(binop.Op), value, true
+	}
+	return token.ILLEGAL, 0, false
+}
+
+// isLength tells if a value is the length of a slice.
+func isLength(value ssa.Value, slice ssa.Value) bool {
+	call, ok := value.(*ssa.Call)
+	if !ok {
+		return false
 	}
-	return lowerUnbounded, 0, fmt.Errorf("unable to extract constant from binop")
+	builtin, ok := call.Call.Value.(*ssa.Builtin)
+	return ok && builtin.Name() == "len" && call.Call.Args[0] == slice
 }
 
 // extractIntValue returns the value of a constant index or bound.
-- 
2.43.0


From b94d4a13a0b30620b4e561fd8ad26fa152aa1353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:31 +0000
Subject: [PATCH 66/68] fix: gosecutil goes on with the next file after one
 which it cannot use

---
 cmd/gosecutil/tools.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/gosecutil/tools.go b/cmd/gosecutil/tools.go
index 9846ea2..0a7112a 100644
--- a/cmd/gosecutil/tools.go
+++ b/cmd/gosecutil/tools.go
@@ -178,7 +178,7 @@ func dumpCallObj(files ...string) {
 		}
 		context := createContext(file)
 		if !checkContext(context, file) {
-			return
+			continue
 		}
 		ast.Inspect(context.root, func(n ast.Node) bool {
 			var obj types.Object
@@ -205,7 +205,7 @@ func dumpUses(files ...string) {
 		}
 		context := createContext(file)
 		if !checkContext(context, file) {
-			return
+			continue
 		}
 		for ident, obj := range context.info.Uses {
 			fmt.Printf("IDENT: %v, OBJECT: %v\n", ident, obj)
@@ -220,7 +220,7 @@ func dumpTypes(files ...string) {
 		}
 		context := createContext(file)
 		if !checkContext(context, file) {
-			return
+			continue
 		}
 		for expr, tv := range context.info.Types {
 			fmt.Printf("EXPR: %v, TYPE: %v\n", expr, tv)
@@ -235,7 +235,7 @@ func dumpDefs(files ...string) {
 		}
 		context := createContext(file)
 		if !checkContext(context, file) {
-			return
+			continue
 		}
 		for ident, obj := range context.info.Defs {
 			fmt.Printf("IDENT: %v, OBJ: %v\n", ident, obj)
@@ -250,7 +250,7 @@ func dumpComments(files ...string) {
 		}
 		context := createContext(file)
 		if !checkContext(context, file) {
-			return
+			continue
 		}
 		for _, group := range context.comments.Comments() {
 			fmt.Println(group.Text())
@@ -265,7 +265,7 @@ func dumpImports(files ...string) {
 		}
 		context := createContext(file)
 		if !checkContext(context, file) {
-			return
+			continue
 		}
 		for _, pkg := range context.pkg.Imports() {
 			fmt.Println(pkg.Path(), pkg.Name())
-- 
2.43.0


From 7bb7c0e8926835757126b018a8f8400252190d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:31 +0000
Subject: [PATCH 67/68] fix: tlsconfig reads its flags and arguments

---
 cmd/tlsconfig/tlsconfig.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/tlsconfig/tlsconfig.go b/cmd/tlsconfig/tlsconfig.go
index 16c7189..511a613 100644
--- a/cmd/tlsconfig/tlsconfig.go
+++ b/cmd/tlsconfig/tlsconfig.go
@@ -159,6 +159,7 @@ func getCurrentDir() (string, error) {
 }
 
 func main() {
+	flag.Parse()
 	dir, err := getCurrentDir()
 	if err != nil {
 		log.Fatalln(err)
-- 
2.43.0


From b04ceba5eb14fe849cbf962504ec40be1e3d0267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:09 +0000
Subject: [PATCH 68/68] fix: the findings of the SSA analyzers in Cgo files
 refer to the file itself

They pointed to its copy in the build cache, where no suppression ever applied.
---
 analyzer.go       | 37 ++++++++++++++++++++++++++++++++++++-
 analyzers/util.go | 16 ++++++++++++----
 2 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 72168c8..7a5ed36 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/build"
+	"go/parser"
 	"go/token"
 	"go/types"
 	"log"
@@ -394,6 +395,13 @@ func (gosec *Analyzer) CheckRules(pkg *packages.Package) {
 		// Skip the no-Go file from analysis (e.g. a Cgo files is expanded in 3 different files
 		// stored in the cache which do not need to by analyzed)
 		if filepath.Ext(checkedFile) != ".go" {
+			// The analyzers refer to its source, hence the suppressions there apply
+			if fset, source := cgoSource(pkg.Fset, file); source != nil {
+				gosec.context.FileSet = fset
+				gosec.context.Comments = ast.NewCommentMap(fset, source, source.Comments)
+				gosec.context.Root = source
+				gosec.updateIgnores()
+			}
 			continue
 		}
 		if gosec.excludeGenerated && ast.IsGenerated(file) {
@@ -418,6 +426,21 @@ func (gosec *Analyzer) CheckRules(pkg *packages.Package) {
 	}
 }
 
+// cgoSource parses the source of a file which was generated by cgo into the build cache. There is none for the files
+// which hold only generated code.
+func cgoSource(fset *token.FileSet, file *ast.File) (*token.FileSet, *ast.File) {
+	name := fset.PositionFor(file.Package, true).Filename
+	if filepath.Ext(name) != ".go" {
+		return nil, nil
+	}
+	sourceSet := token.NewFileSet()
+	source, err := parser.ParseFile(sourceSet, name, nil, parser.ParseComments|parser.SkipObjectResolution)
+	if err != nil {
+		return nil, nil
+	}
+	return sourceSet, source
+}
+
 // CheckAnalyzers runs analyzers on a given package.
 func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
 	// The SSA representation is defined for well-typed packages only. Its builder might even exhaust
@@ -472,6 +495,10 @@ func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
 		if result != nil {
 			if passIssues, ok := result.([]*issue.Issue); ok {
 				for _, iss := range passIssues {
+					if iss != nil && iss.File != "" && filepath.Ext(iss.File) != ".go" {
+						// skip the code generated by cgo which has no source
+						continue
+					}
 					if gosec.excludeGenerated {
 						if _, ok := generatedFiles[iss.File]; ok {
 							continue
@@ -487,8 +514,16 @@ func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
 func (gosec *Analyzer) generatedFiles(pkg *packages.Package) map[string]bool {
 	generatedFiles := map[string]bool{}
 	for _, file := range pkg.Syntax {
+		fset := pkg.Fset
 		if ast.IsGenerated(file) {
-			fp := pkg.Fset.File(file.Pos())
+			fp := fset.File(file.Pos())
+			if fp != nil && filepath.Ext(fp.Name()) != ".go" {
+				// cgo marks all its files as generated
+				if fset, file = cgoSource(fset, file); file == nil || !ast.IsGenerated(file) {
+					continue
+				}
+				fp = fset.File(file.Pos())
+			}
 			if fp == nil {
 				// skip files which cannot be located
 				continue
diff --git a/analyzers/util.go b/analyzers/util.go
index 91e05d1..a26f357 100644
--- a/analyzers/util.go
+++ b/analyzers/util.go
@@ -19,6 +19,7 @@ import (
 	"go/token"
 	"log"
 	"os"
+	"path/filepath"
 	"strconv"
 
 	"golang.org/x/tools/go/analysis"
@@ -66,11 +67,11 @@ func newIssue(analyzerID string, desc string, fileSet *token.FileSet,
 	if file == nil {
 		return &issue.Issue{}
 	}
-	position := file.PositionFor(pos, false)
+	position := sourcePosition(file, pos)
 
 	return &issue.Issue{
 		RuleID:     analyzerID,
-		File:       file.Name(),
+		File:       position.Filename,
 		Line:       strconv.Itoa(position.Line),
 		Col:        strconv.Itoa(position.Column),
 		Severity:   severity,
@@ -81,10 +82,17 @@ func newIssue(analyzerID string, desc string, fileSet *token.FileSet,
 	}
 }
 
+// sourcePosition returns a position in the source code. A Cgo file is compiled from a copy in the build cache,
+// which refers to the file itself with line directives.
+func sourcePosition(file *token.File, pos token.Pos) token.Position {
+	return file.PositionFor(pos, filepath.Ext(file.Name()) != ".go")
+}
+
 func issueCodeSnippet(fileSet *token.FileSet, pos token.Pos) string {
 	file := fileSet.File(pos)
 
-	line := (int64)(file.PositionFor(pos, false).Line)
+	position := sourcePosition(file, pos)
+	line := (int64)(position.Line)
 	start := line
 	if start-issue.SnippetOffset > 0 {
 		start = start - issue.SnippetOffset
@@ -92,7 +100,7 @@ func issueCodeSnippet(fileSet *token.FileSet, pos token.Pos) string {
 	end := line + issue.SnippetOffset
 
 	var code string
-	if file, err := os.Open(file.Name()); err == nil {
+	if file, err := os.Open(position.Filename); err == nil {
 		defer file.Close() // #nosec
 		code, err = issue.CodeSnippet(file, start, end)
 		if err != nil {
-- 
2.43.0

