From 97a958f3c31143f44d5c0352e3e6fe4019105e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 01/74] fix: do not expand a type that refers to itself forever

---
 astTraversal/traverser.go |  6 +++++-
 astTraversal/type.go      | 31 ++++++++++++++++++++-----------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/astTraversal/traverser.go b/astTraversal/traverser.go
index 846e597..5ba7b45 100644
--- a/astTraversal/traverser.go
+++ b/astTraversal/traverser.go
@@ -14,12 +14,16 @@ type BaseTraverser struct {
 	Packages           *PackageManager
 	shouldAddComponent bool
 	addComponent       func(result Result) error
+	// addedTypes are the named types whose component has been (or is being) added by this traverser
+	// It stops a type that refers to itself from being expanded forever
+	addedTypes map[string]struct{}
 }
 
 func New(workDir string) *BaseTraverser {
 	packages := NewPackageManager(workDir)
 	return &BaseTraverser{
-		Packages: packages,
+		Packages:   packages,
+		addedTypes: make(map[string]struct{}),
 	}
 }
 
diff --git a/astTraversal/type.go b/astTraversal/type.go
index aca6adf..3e05d38 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -136,19 +136,13 @@ func (t *TypeTraverser) Result() (Result, error) {
 				return Result{}, err
 			}
 
-			if t.Traverser.shouldAddComponent {
-				namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
-				if err != nil {
-					return Result{}, err
-				}
-
-				namedUnderlyingResult.Doc, err = t.Doc()
-				if err != nil {
-					return Result{}, err
-				}
+			typeKey := n.String()
+			if _, added := t.Traverser.addedTypes[typeKey]; t.Traverser.shouldAddComponent && !added {
+				t.Traverser.addedTypes[typeKey] = struct{}{}
 
-				err = t.Traverser.addComponent(namedUnderlyingResult)
+				err = t.addNamedComponent(n, pkg)
 				if err != nil {
+					delete(t.Traverser.addedTypes, typeKey)
 					return Result{}, err
 				}
 			}
@@ -269,6 +263,21 @@ func (t *TypeTraverser) Result() (Result, error) {
 	}
 }
 
+// addNamedComponent adds the component that describes the underlying type of a named type.
+func (t *TypeTraverser) addNamedComponent(n *types.Named, pkg *PackageNode) error {
+	namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
+	if err != nil {
+		return err
+	}
+
+	namedUnderlyingResult.Doc, err = t.Doc()
+	if err != nil {
+		return err
+	}
+
+	return t.Traverser.addComponent(namedUnderlyingResult)
+}
+
 func (t *TypeTraverser) Doc() (string, error) {
 	if named, ok := t.Node.(*types.Named); ok {
 		pkg := t.Traverser.Packages.AddPackage(named.Obj().Pkg().Path())
-- 
2.43.0


From d70a049ef357a9c70cb09c6fabb4bcad656c9366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 02/74] fix: do not panic on a struct embedding a type of its
 own package

---
 astTraversal/type.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 3e05d38..f47dcec 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -227,7 +227,8 @@ func (t *TypeTraverser) Result() (Result, error) {
 				node, err := structFieldResult.Package.ASTAtPos(pos)
 				if err == nil && node != nil {
 					if field, ok := node.(*ast.Field); ok {
-						t.Traverser.Log.Debug().Str("field", field.Names[0].Name).Msg("Found doc for field")
+						// An embedded field has no names of its own, so the name comes from the type information
+						t.Traverser.Log.Debug().Str("field", f.Name()).Msg("Found doc for field")
 						structFieldResult.Doc = FormatDoc(field.Doc.Text())
 					}
 				}
-- 
2.43.0


From 438b97e86f5517337a024a97b4ae52006c53c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 03/74] fix: keep the route when one of its context calls
 cannot be evaluated

---
 contextFuncBuilder.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/contextFuncBuilder.go b/contextFuncBuilder.go
index cc14aea..d5dd8c1 100644
--- a/contextFuncBuilder.go
+++ b/contextFuncBuilder.go
@@ -64,18 +64,25 @@ func (c *ContextFuncBuilder) Value() *ContextFuncBuilder {
 	return c
 }
 
+// Build evaluates the parameters in order and passes them to the mapper.
+// If a parameter can't be evaluated, or the mapper fails, the unchanged route is returned alongside the error.
 func (c *ContextFuncBuilder) Build(mapper func(*Route, []any) (*Route, error)) (*Route, error) {
 	results := make([]any, len(c.paramOperations))
 	for i, operation := range c.paramOperations {
 		result, err := operation()
 		if err != nil {
-			return nil, err
+			return c.Route, err
 		}
 
 		results[i] = result
 	}
 
-	return mapper(c.Route, results)
+	route, err := mapper(c.Route, results)
+	if err != nil {
+		return c.Route, err
+	}
+
+	return route, nil
 }
 
 type CustomFunc func(contextVarName string, contextFuncBuilder *ContextFuncBuilder) (*Route, error)
-- 
2.43.0


From c2b6edf6a7ceee4b72380ea3609468e57bb74fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 04/74] fix: go back to the handler's own file when a helper
 cannot be followed

---
 inputs/gin/parseFunction.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index bba2ef9..7a24cec 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -91,17 +91,17 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			var function *astTraversal.FunctionTraverser
 			function, err = callExpr.Function()
 			if err != nil {
+				traverser.SetActiveFile(activeFile)
 				traverser.Log.Error().Err(err).Msg("failed to get function")
 				return false
 			}
 
 			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1)
+			traverser.SetActiveFile(activeFile)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
 				return false
 			}
-
-			traverser.SetActiveFile(activeFile)
 		} else {
 			var funcType *types.Func
 			funcType, err = callExpr.Type()
-- 
2.43.0


From 1bc98a13ef5221132c937b2b1fb8784a07838673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 05/74] fix: look for context calls in the arguments of
 built-in functions and conversions

---
 inputs/gin/parseFunction.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 7a24cec..dd97428 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -106,7 +106,10 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			var funcType *types.Func
 			funcType, err = callExpr.Type()
 			if err != nil {
-				return false
+				// Conversions, built-in functions and function values aren't context methods themselves
+				// But their arguments might still use the context
+				err = nil
+				return true
 			}
 
 			signature, ok := funcType.Type().(*types.Signature)
-- 
2.43.0


From 8e7c244d038613ea310b9b78709dc998e9d11f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 06/74] fix: follow a recursive helper function only once

---
 inputs/gin/parseFunction.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index dd97428..941993b 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"go/ast"
 	"go/types"
+	"slices"
 	"strings"
 
 	"github.com/ls6-events/astra"
@@ -25,7 +26,8 @@ const (
 // And the package name and path are used to determine the package of the currently analysed function.
 // The currRoute reference is used to manipulate the current route being analysed.
 // The imports are used to determine the package of the context variable.
-func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int) error {
+// The callers are the function declarations that are being parsed at the moment, so that a recursive function is only followed once.
+func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int, callers ...*ast.FuncDecl) error {
 	traverser := funcTraverser.Traverser
 
 	traverser.SetActiveFile(activeFile)
@@ -96,7 +98,12 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 				return false
 			}
 
-			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1)
+			if function.DeclNode == funcTraverser.DeclNode || slices.Contains(callers, function.DeclNode) {
+				traverser.SetActiveFile(activeFile)
+				return true
+			}
+
+			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1, append(slices.Clone(callers), funcTraverser.DeclNode)...)
 			traverser.SetActiveFile(activeFile)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
-- 
2.43.0


From 982074b934fa92f245cef00e7ca50f995a5e4b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 07/74] fix: do not panic on unnamed or error arguments of a
 handler

---
 astTraversal/function.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/astTraversal/function.go b/astTraversal/function.go
index 8bee5cc..9dcc697 100644
--- a/astTraversal/function.go
+++ b/astTraversal/function.go
@@ -52,6 +52,11 @@ func (f *FunctionTraverser) Results() []*ast.Field {
 
 func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath string, isPointer bool) string {
 	for _, arg := range f.Arguments() {
+		// An argument without a name can't be referred to
+		if len(arg.Names) == 0 {
+			continue
+		}
+
 		argType, err := f.File.Package.FindTypeForExpr(arg.Type)
 		if err != nil {
 			continue
@@ -65,7 +70,7 @@ func (f *FunctionTraverser) FindArgumentNameByType(typeName string, packagePath
 			}
 		}
 
-		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
+		if named, ok := argType.(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == packagePath && named.Obj().Name() == typeName {
 			return arg.Names[0].Name
 		} else if basic, ok := argType.(*types.Basic); ok && basic.Name() == typeName {
 			return arg.Names[0].Name
-- 
2.43.0


From 61eede601052f7987f2cd1c99bbef4a078006615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 08/74] fix: do not panic on a variable that has no value of
 its own

---
 astTraversal/declaration.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/astTraversal/declaration.go b/astTraversal/declaration.go
index 17aefa3..45f8147 100644
--- a/astTraversal/declaration.go
+++ b/astTraversal/declaration.go
@@ -31,6 +31,11 @@ func (d *DeclarationTraverser) Value() (ast.Node, error) {
 			}
 		}
 
+		// The variable doesn't have a value of its own (e.g. var a int, or var a, b = f())
+		if index >= len(n.Values) {
+			return nil, ErrInvalidIndex
+		}
+
 		return n.Values[index], nil
 	case *ast.AssignStmt:
 		var index int
@@ -41,6 +46,11 @@ func (d *DeclarationTraverser) Value() (ast.Node, error) {
 			}
 		}
 
+		// The variable doesn't have a value of its own (e.g. a, b := f())
+		if index >= len(n.Rhs) {
+			return nil, ErrInvalidIndex
+		}
+
 		return n.Rhs[index], nil
 	default:
 		return nil, ErrInvalidNodeType
-- 
2.43.0


From 2d06d5c021cb2651006e9fb6a2e7ee36876166c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 09/74] fix: use the value of string constants and literals
 without their quotes

---
 astTraversal/expression.go | 22 ++++++++++++++++------
 astTraversal/type.go       |  8 ++++++--
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 52790b4..b8aa6c5 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -3,9 +3,10 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
-	"strings"
+	"strconv"
 )
 
 type ExpressionTraverser struct {
@@ -45,12 +46,21 @@ func (e *ExpressionTraverser) BuiltInFunctions(callExpr *ast.CallExpr) (types.Ty
 	return nil, nil
 }
 
+// constantToString returns the value of a constant, without the quotes or the truncation constant.Value.String() has.
+func constantToString(value constant.Value) string {
+	if value.Kind() == constant.String {
+		return constant.StringVal(value)
+	}
+
+	return value.ExactString()
+}
+
 func (e *ExpressionTraverser) Value() (string, error) {
 	switch n := e.Node.(type) {
 	case *ast.BasicLit:
 		value := n.Value
 		if n.Kind == token.STRING {
-			value = strings.Trim(value, "\"")
+			return strconv.Unquote(value)
 		}
 
 		return value, nil
@@ -60,8 +70,8 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
-		if constant, ok := obj.(*types.Const); ok {
-			return constant.Val().String(), nil
+		if constObj, ok := obj.(*types.Const); ok {
+			return constantToString(constObj.Val()), nil
 		}
 
 		node, err := e.File.Package.ASTAtPos(obj.Pos())
@@ -102,8 +112,8 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
-		if constant, ok := obj.(*types.Const); ok {
-			return constant.Val().String(), nil
+		if constObj, ok := obj.(*types.Const); ok {
+			return constantToString(constObj.Val()), nil
 		}
 
 		node, err := pkg.ASTAtPos(obj.Pos())
diff --git a/astTraversal/type.go b/astTraversal/type.go
index f47dcec..9a8a345 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -5,7 +5,6 @@ import (
 	"go/token"
 	"go/types"
 	"strconv"
-	"strings"
 )
 
 type TypeTraverser struct {
@@ -78,7 +77,12 @@ func (t *TypeTraverser) Result() (Result, error) {
 													// And format it accordingly
 													switch n.Kind() {
 													case types.String:
-														result.EnumValues = append(result.EnumValues, strings.Trim(basicLit.Value, "\""))
+														str, err := strconv.Unquote(basicLit.Value)
+														if err != nil {
+															continue
+														}
+
+														result.EnumValues = append(result.EnumValues, str)
 													case types.Int:
 														i, err := strconv.Atoi(basicLit.Value)
 														if err != nil {
-- 
2.43.0


From b81e018b615750f0aef2bec67bc4cf7f4a5cb818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 10/74] fix: document payloads given by index, conversion,
 assertion and other expressions

---
 astTraversal/expression.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index b8aa6c5..b4fe706 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -183,8 +183,15 @@ func (e *ExpressionTraverser) Type() (types.Type, error) {
 			return nil, err
 		}
 
-		return callExpr.ReturnType(e.ReturnNum)
+		returnType, err := callExpr.ReturnType(e.ReturnNum)
+		if err != nil && e.ReturnNum == 0 {
+			// Conversions, other built-in functions and function values
+			return e.File.Package.FindTypeForExpr(n)
+		}
+
+		return returnType, err
 	}
 
-	return nil, errors.New("unsupported expression type")
+	// Any other expression (x[i], x.(T), (x), a + b, ...) has its type recorded by the type checker
+	return e.File.Package.FindTypeForExpr(e.Node)
 }
-- 
2.43.0


From edea9106ef4c4b0a4e31ce2ac2c68d2cb4298ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 11/74] fix: keep the route a custom function returns

---
 inputs/gin/parseFunction.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 941993b..19f80ad 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -78,7 +78,8 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 				return false
 			}
 			if newRoute != nil {
-				currRoute = newRoute
+				// The route might be a copy, so the route that is being parsed has to take its contents
+				*currRoute = *newRoute
 				shouldBreak = true
 				break
 			}
-- 
2.43.0


From ae83183572e5fbc3b57300dc229e22a154cd3295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 12/74] fix: resolve the package of a helper function with the
 type checker

---
 astTraversal/traverser.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/astTraversal/traverser.go b/astTraversal/traverser.go
index 5ba7b45..34b6fde 100644
--- a/astTraversal/traverser.go
+++ b/astTraversal/traverser.go
@@ -3,6 +3,7 @@ package astTraversal
 import (
 	"errors"
 	"go/ast"
+	"go/types"
 
 	"github.com/rs/zerolog"
 )
@@ -117,13 +118,13 @@ func (t *BaseTraverser) FindDeclarationForNode(node ast.Node) (*DeclarationTrave
 			return nil, errors.New("unsupported type")
 		}
 
-		if fileImport, ok := t.ActiveFile().FindImport(nodeIdent.Name); ok {
-			_, err := t.Packages.Get(fileImport.Package)
+		if importedPackage, ok := t.findImportedPackage(nodeIdent); ok {
+			_, err := t.Packages.Get(importedPackage)
 			if err != nil {
 				return nil, err
 			}
 
-			newNode, file, err := fileImport.Package.FindASTForType(nodeType.Sel.Name)
+			newNode, file, err := importedPackage.FindASTForType(nodeType.Sel.Name)
 			if err != nil {
 				return nil, err
 			}
@@ -138,6 +139,23 @@ func (t *BaseTraverser) FindDeclarationForNode(node ast.Node) (*DeclarationTrave
 	return nil, errors.New("unsupported type")
 }
 
+// findImportedPackage finds the package that an identifier of the active file stands for.
+// The type checker is asked first, as the name of a package doesn't have to be the last part of its import path.
+func (t *BaseTraverser) findImportedPackage(ident *ast.Ident) (*PackageNode, bool) {
+	if uses, err := t.ActiveFile().Package.FindUsesForIdent(ident); err == nil {
+		pkgName, ok := uses.(*types.PkgName)
+		if !ok {
+			return nil, false
+		}
+
+		return t.Packages.FindOrAdd(pkgName.Imported().Path()), true
+	}
+
+	fileImport, ok := t.ActiveFile().FindImport(ident.Name)
+
+	return fileImport.Package, ok
+}
+
 func (t *BaseTraverser) SetAddComponentFunction(addComponent func(result Result) error) *BaseTraverser {
 	t.addComponent = addComponent
 	t.shouldAddComponent = true
-- 
2.43.0


From 703dfc226d99180844c365009373a4ed76e4d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 13/74] fix: parse every route even when two inputs share its
 path and method

---
 inputs/gin/parseRoutes.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseRoutes.go b/inputs/gin/parseRoutes.go
index 7c028d2..0c3bc1a 100644
--- a/inputs/gin/parseRoutes.go
+++ b/inputs/gin/parseRoutes.go
@@ -11,7 +11,7 @@ import (
 func ParseRoutes() astra.ServiceFunction {
 	return func(s *astra.Service) error {
 		s.Log.Debug().Msg("Populating routes from gin routes")
-		for _, route := range s.Routes {
+		for i, route := range s.Routes {
 			s.Log.Debug().Str("path", route.Path).Str("method", route.Method).Msg("Populating route")
 
 			s.Log.Debug().Str("path", route.Path).Str("method", route.Method).Str("file", route.File).Int("line", route.LineNo).Msg("Parsing route")
@@ -21,7 +21,8 @@ func ParseRoutes() astra.ServiceFunction {
 				return err
 			}
 
-			s.ReplaceRoute(route)
+			// The same path and method can be registered in more than one input
+			s.Routes[i] = route
 		}
 		s.Log.Debug().Msg("Populated service with gin routes")
 
-- 
2.43.0


From 9c3d780b24eff26788efaec68fa4db2a90ebcc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 14/74] fix: do not pile up inputs and responses when a route
 is parsed again

---
 inputs/gin/parseRoute.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index fbd814b..ea680c4 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -69,6 +69,13 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return err
 	}
 
+	// A route might have been parsed before (another input, or a cache of a completed parse), so start afresh
+	baseRoute.QueryParams = make([]astra.Param, 0)
+	baseRoute.Body = make([]astra.BodyParam, 0)
+	baseRoute.ReturnTypes = make([]astra.ReturnType, 0)
+	baseRoute.RequestHeaders = nil
+	baseRoute.ResponseHeaders = nil
+
 	baseRoute.PathParams = utils.ExtractParamsFromPath(baseRoute.Path)
 	if len(baseRoute.PathParams) > 0 {
 		log.Debug().Interface("pathParams", baseRoute.PathParams).Msg("Found path params")
-- 
2.43.0


From 07f8b6bdc4448aa930c628ffc43a7daf0930b176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 15/74] fix: add every distinct return type once

---
 safePushing.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/safePushing.go b/safePushing.go
index 82cd297..6cbf821 100644
--- a/safePushing.go
+++ b/safePushing.go
@@ -1,18 +1,18 @@
 package astra
 
+import (
+	"reflect"
+	"slices"
+)
+
 // AddReturnType adds a return type to a slice of return types if it doesn't already exist.
-// It uses the field type, package and status code to determine if the return type already exists.
+// It uses the field, status code and content type to determine if the return type already exists.
 func AddReturnType(prev []ReturnType, n ...ReturnType) []ReturnType {
 	for _, newReturn := range n {
-		if len(prev) == 0 {
+		if !slices.ContainsFunc(prev, func(existingReturn ReturnType) bool {
+			return reflect.DeepEqual(existingReturn, newReturn)
+		}) {
 			prev = append(prev, newReturn)
-		} else {
-			for _, existingReturn := range prev {
-				if newReturn.Field.Type != existingReturn.Field.Type || newReturn.Field.Package != existingReturn.Field.Package || newReturn.StatusCode != existingReturn.StatusCode || newReturn.ContentType != existingReturn.ContentType {
-					prev = append(prev, newReturn)
-					break
-				}
-			}
 		}
 	}
 
-- 
2.43.0


From 2429235bdd090bf9be98b7cab8f1c19037f6284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 16/74] fix: give every parameter a name and list it once

Bound header structs are spread like bound query structs, embedded structs are
included, the order of properties of embedded structs is always the same, and
OpenAPI doesn't allow two parameters with the same name and location.
---
 outputs/openapi/components.go |  4 +-
 outputs/openapi/generate.go   | 85 +++++++++++++++++++----------------
 outputs/openapi/schema.go     | 62 +++++++++++++++++++++++++
 3 files changed, 112 insertions(+), 39 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 68405fd..48ec71b 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -144,7 +144,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			Type:       "object",
 			Properties: make(map[string]Schema),
 		}
-		for _, field := range component.StructFields {
+		for _, fieldName := range sortedFieldNames(component.StructFields) {
+			field := component.StructFields[fieldName]
+
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
 			if field.IsEmbedded {
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 7829bbf..abe6523 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -57,12 +57,17 @@ func Generate(filePath string) astra.ServiceFunction {
 
 			for _, pathParam := range endpoint.PathParams {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", pathParam.Name).Msg("Adding endpointPath parameter")
+				// The path itself has every path parameter, a bound struct doesn't add any
+				if pathParam.IsBound {
+					continue
+				}
+
 				schema, bound := mapParamToSchema(astTraversal.URIBindingTag, pathParam)
 				if !bound {
 					continue
 				}
 
-				operation.Parameters = append(operation.Parameters, Parameter{
+				operation.Parameters = addParameter(operation.Parameters, Parameter{
 					Name:     pathParam.Name,
 					In:       "path",
 					Required: pathParam.IsRequired,
@@ -72,68 +77,68 @@ func Generate(filePath string) astra.ServiceFunction {
 
 			for _, requestHeader := range endpoint.RequestHeaders {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", requestHeader.Name).Msg("Adding request header")
+				// OpenAPI spec requires the use of a name, so bound parameters must be spread
+				if requestHeader.IsBound {
+					for propertyName, propertySchema := range spreadBoundParam(s, requestHeader, astTraversal.HeaderBindingTag) {
+						operation.Parameters = addParameter(operation.Parameters, Parameter{
+							Name:     propertyName,
+							In:       "header",
+							Required: requestHeader.IsRequired,
+							Schema:   propertySchema,
+						})
+					}
+
+					continue
+				}
+
 				schema, bound := mapParamToSchema(astTraversal.HeaderBindingTag, requestHeader)
 				if !bound {
 					continue
 				}
 
-				parameter := Parameter{
+				operation.Parameters = addParameter(operation.Parameters, Parameter{
 					Name:     requestHeader.Name,
 					In:       "header",
 					Required: requestHeader.IsRequired,
 					Schema:   schema,
-				}
-
-				operation.Parameters = append(operation.Parameters, parameter)
+				})
 			}
 
 			for _, queryParam := range endpoint.QueryParams {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", queryParam.Name).Msg("Adding query parameter")
-				schema, bound := mapParamToSchema(astTraversal.FormBindingTag, queryParam)
-				if !bound {
-					continue
-				}
-
 				// OpenAPI spec requires the use of a name, so bound parameters must be spread
 				if queryParam.IsBound {
-					field, found := findComponentByPackageAndType(s.Components, queryParam.Field.Package, queryParam.Field.Type)
-					if !found {
-						continue
-					}
-
-					component, bound := componentToSchema(s, field, astTraversal.FormBindingTag)
-					if !bound {
-						continue
-					}
-
-					for propertyName, propertySchema := range component.Properties {
+					for propertyName, propertySchema := range spreadBoundParam(s, queryParam, astTraversal.FormBindingTag) {
 						style, explode := getQueryParamStyle(propertySchema)
 
-						parameter := Parameter{
+						operation.Parameters = addParameter(operation.Parameters, Parameter{
 							Name:     propertyName,
 							In:       "query",
 							Required: queryParam.IsRequired,
 							Explode:  explode,
 							Style:    style,
 							Schema:   propertySchema,
-						}
-
-						operation.Parameters = append(operation.Parameters, parameter)
-					}
-				} else {
-					style, explode := getQueryParamStyle(schema)
-
-					parameter := Parameter{
-						Name:     queryParam.Name,
-						In:       "query",
-						Required: queryParam.IsRequired,
-						Explode:  explode,
-						Style:    style,
-						Schema:   schema,
+						})
 					}
 
-					operation.Parameters = append(operation.Parameters, parameter)
+					continue
 				}
+
+				schema, bound := mapParamToSchema(astTraversal.FormBindingTag, queryParam)
+				if !bound {
+					continue
+				}
+
+				style, explode := getQueryParamStyle(schema)
+
+				operation.Parameters = addParameter(operation.Parameters, Parameter{
+					Name:     queryParam.Name,
+					In:       "query",
+					Required: queryParam.IsRequired,
+					Explode:  explode,
+					Style:    style,
+					Schema:   schema,
+				})
 			}
 
 			for _, bodyParam := range endpoint.Body {
@@ -212,8 +217,12 @@ func Generate(filePath string) astra.ServiceFunction {
 				operation.OperationID = endpoint.OperationID
 			}
 
-			// Sort parameters by name
+			// Sort parameters by name, and by location for those that share a name
 			sort.Slice(operation.Parameters, func(i, j int) bool {
+				if operation.Parameters[i].Name == operation.Parameters[j].Name {
+					return operation.Parameters[i].In < operation.Parameters[j].In
+				}
+
 				return operation.Parameters[i].Name < operation.Parameters[j].Name
 			})
 
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 8417b96..1e59160 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -1,6 +1,8 @@
 package openapi
 
 import (
+	"slices"
+
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
 )
@@ -136,3 +138,63 @@ func findComponentByPackageAndType(fields []astra.Field, pkg string, typeName st
 
 	return astra.Field{}, false
 }
+
+// addParameter adds a parameter, unless there already is one with that name and location (OpenAPI doesn't allow two).
+func addParameter(parameters []Parameter, parameter Parameter) []Parameter {
+	for _, existing := range parameters {
+		if existing.Name == parameter.Name && existing.In == parameter.In {
+			return parameters
+		}
+	}
+
+	return append(parameters, parameter)
+}
+
+// spreadBoundParam gets the schema of every property of the struct that a bound parameter is read into, including those of its embedded structs.
+func spreadBoundParam(service *astra.Service, param astra.Param, bindingType astTraversal.BindingTagType) map[string]Schema {
+	properties := make(map[string]Schema)
+	spreadProperties(service, param.Field.Package, param.Field.Type, bindingType, properties, make(map[string]bool))
+
+	return properties
+}
+
+func spreadProperties(service *astra.Service, pkg string, typeName string, bindingType astTraversal.BindingTagType, properties map[string]Schema, visited map[string]bool) {
+	component, found := findComponentByPackageAndType(service.Components, pkg, typeName)
+	if !found || visited[pkg+"."+typeName] {
+		return
+	}
+	visited[pkg+"."+typeName] = true
+
+	schema, bound := componentToSchema(service, component, bindingType)
+	if !bound {
+		return
+	}
+
+	ownSchemas := append([]Schema{schema}, schema.AllOf...)
+	for _, ownSchema := range ownSchemas {
+		for name, property := range ownSchema.Properties {
+			if _, exists := properties[name]; !exists {
+				properties[name] = property
+			}
+		}
+	}
+
+	for _, name := range sortedFieldNames(component.StructFields) {
+		field := component.StructFields[name]
+		if field.IsEmbedded {
+			spreadProperties(service, field.Package, field.Type, bindingType, properties, visited)
+		}
+	}
+}
+
+// sortedFieldNames gets the names of the fields in order, so that the output is always the same.
+func sortedFieldNames(fields map[string]astra.Field) []string {
+	names := make([]string, 0, len(fields))
+	for name := range fields {
+		names = append(names, name)
+	}
+
+	slices.Sort(names)
+
+	return names
+}
-- 
2.43.0


From 69ae86b057cccb03bdd8d8128cfa1d293e999430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 17/74] fix: document the content type of c.Data instead of an
 empty one

---
 inputs/gin/parseFunction.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 19f80ad..3b2aee5 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -234,20 +234,24 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 						return false
 					}
 				case "Data":
-					currRoute, err = funcBuilder.StatusCode().Ignored().ExpressionResult().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
+					currRoute, err = funcBuilder.StatusCode().Ignored().Ignored().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
 						statusCode, ok := params[0].(int)
 						if !ok {
 							return nil, errors.New("failed to parse status code")
 						}
 
-						result, ok := params[1].(astTraversal.Result)
-						if !ok {
-							return nil, errors.New("failed to parse result")
+						// Every response needs a content type, even if it is only known when the handler runs
+						contentType, valueErr := traverser.Expression(callExpr.Node.Args[1]).Value()
+						if valueErr != nil || contentType == "" {
+							contentType = "application/octet-stream"
 						}
 
 						returnType := astra.ReturnType{
-							StatusCode: statusCode,
-							Field:      astra.ParseResultToField(result),
+							StatusCode:  statusCode,
+							ContentType: contentType,
+							Field: astra.Field{
+								Type: "file",
+							},
 						}
 
 						route.ReturnTypes = astra.AddReturnType(route.ReturnTypes, returnType)
-- 
2.43.0


From 6e2913d823d4a5e8e99e71dfbdcd29dc99227342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:01 +0000
Subject: [PATCH 18/74] fix: keep every body field and every alternative
 payload of a content type

Form fields replaced each other (and lost their array or map shape), as did
different payloads of the same status code and content type, and a payload of
any type lost its content type.
---
 outputs/openapi/generate.go | 30 +++++++++----------
 outputs/openapi/schema.go   | 57 +++++++++++++++++++++++++++++++++++++
 2 files changed, 70 insertions(+), 17 deletions(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index abe6523..14b9fcc 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -144,7 +144,7 @@ func Generate(filePath string) astra.ServiceFunction {
 			for _, bodyParam := range endpoint.Body {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", bodyParam.Name).Msg("Adding body parameter")
 				bindingType := astra.ContentTypeToBindingTag(bodyParam.ContentType)
-				schema, bound := mapFieldToSchema(bindingType, bodyParam.Field)
+				schema, bound := mapBodyParamToSchema(bindingType, bodyParam)
 				if !bound {
 					continue
 				}
@@ -155,19 +155,15 @@ func Generate(filePath string) astra.ServiceFunction {
 					}
 				}
 
-				var mediaType MediaType
+				content := operation.RequestBody.Content
+				mediaType, exists := content[bodyParam.ContentType]
 				if bodyParam.Name != "" {
-					mediaType.Schema = Schema{
-						Type: "object",
-						Properties: map[string]Schema{
-							bodyParam.Name: schema,
-						},
-					}
+					mediaType.Schema = addBodyProperty(mediaType.Schema, bodyParam.Name, schema, exists)
 				} else {
-					mediaType.Schema = schema
+					mediaType.Schema = addAlternativeSchema(mediaType.Schema, schema, exists)
 				}
 
-				operation.RequestBody.Content[bodyParam.ContentType] = mediaType
+				content[bodyParam.ContentType] = mediaType
 			}
 
 			var responseHeaders map[string]Header
@@ -187,12 +183,8 @@ func Generate(filePath string) astra.ServiceFunction {
 
 			for _, returnType := range endpoint.ReturnTypes {
 				s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("return", returnType.Field.Name).Msg("Adding return type")
-				var mediaType MediaType
 				bindingType := astra.ContentTypeToBindingTag(returnType.ContentType)
-				schema, bound := mapFieldToSchema(bindingType, returnType.Field)
-				if bound {
-					mediaType.Schema = schema
-				}
+				schema, _ := mapFieldToSchema(bindingType, returnType.Field)
 
 				statusCode := strconv.Itoa(returnType.StatusCode)
 				if _, set := operation.Responses[statusCode]; !set {
@@ -204,8 +196,12 @@ func Generate(filePath string) astra.ServiceFunction {
 					}
 				}
 
-				if !reflect.DeepEqual(mediaType, MediaType{}) {
-					operation.Responses[statusCode].Content[returnType.ContentType] = mediaType
+				// Only a response without a body has no content type
+				if returnType.ContentType != "" || !reflect.DeepEqual(schema, Schema{}) {
+					content := operation.Responses[statusCode].Content
+					mediaType, exists := content[returnType.ContentType]
+					mediaType.Schema = addAlternativeSchema(mediaType.Schema, schema, exists)
+					content[returnType.ContentType] = mediaType
 				}
 			}
 
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 1e59160..21a1577 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -1,6 +1,8 @@
 package openapi
 
 import (
+	"maps"
+	"reflect"
 	"slices"
 
 	"github.com/ls6-events/astra"
@@ -198,3 +200,58 @@ func sortedFieldNames(fields map[string]astra.Field) []string {
 
 	return names
 }
+
+// addAlternativeSchema adds a schema that the value might have instead of the existing schema, if there is one.
+func addAlternativeSchema(existing Schema, schema Schema, exists bool) Schema {
+	if !exists || reflect.DeepEqual(existing, schema) {
+		return schema
+	}
+
+	if len(existing.AnyOf) == 0 {
+		return Schema{
+			AnyOf: []Schema{existing, schema},
+		}
+	}
+
+	for _, alternative := range existing.AnyOf {
+		if reflect.DeepEqual(alternative, schema) {
+			return existing
+		}
+	}
+
+	return Schema{
+		AnyOf: append(slices.Clone(existing.AnyOf), schema),
+	}
+}
+
+// mapBodyParamToSchema maps a bound body, or one of the fields of a body.
+func mapBodyParamToSchema(bindingType astTraversal.BindingTagType, bodyParam astra.BodyParam) (Schema, bool) {
+	if bodyParam.IsArray || bodyParam.IsMap {
+		return mapParamToSchema(bindingType, astra.Param{
+			Field:   bodyParam.Field,
+			IsArray: bodyParam.IsArray,
+			IsMap:   bodyParam.IsMap,
+		})
+	}
+
+	return mapFieldToSchema(bindingType, bodyParam.Field)
+}
+
+// addBodyProperty adds a field of the body to the fields that were found before.
+func addBodyProperty(existing Schema, name string, schema Schema, exists bool) Schema {
+	if exists && existing.Properties != nil {
+		properties := maps.Clone(existing.Properties)
+		properties[name] = schema
+
+		existing.Properties = properties
+
+		return existing
+	}
+
+	return addAlternativeSchema(existing, Schema{
+		Type: "object",
+		Properties: map[string]Schema{
+			name: schema,
+		},
+	}, exists)
+}
-- 
2.43.0


From 74f400b893e75a1f5e916fb0b6acef68bc59c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:01 +0000
Subject: [PATCH 19/74] fix: add the operations of the TRACE method

---
 outputs/openapi/generate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 14b9fcc..c8bffcd 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -243,6 +243,8 @@ func Generate(filePath string) astra.ServiceFunction {
 				endpointPath.Head = &operation
 			case http.MethodOptions:
 				endpointPath.Options = &operation
+			case http.MethodTrace:
+				endpointPath.Trace = &operation
 			}
 
 			paths[endpoint.Path] = endpointPath
-- 
2.43.0


From 86912de517bf57662a1803fc979a37754c96563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:01 +0000
Subject: [PATCH 20/74] fix: always have the responses of an operation, OpenAPI
 requires them

---
 outputs/openapi/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs/openapi/types.go b/outputs/openapi/types.go
index 3ec78d1..a39850d 100644
--- a/outputs/openapi/types.go
+++ b/outputs/openapi/types.go
@@ -72,7 +72,7 @@ type Operation struct {
 	OperationID  string        `json:"operationId,omitempty" yaml:"operationId,omitempty"`
 	Parameters   []Parameter   `json:"parameters,omitempty" yaml:"parameters,omitempty"`
 	RequestBody  *RequestBody  `json:"requestBody,omitempty" yaml:"requestBody,omitempty"`
-	Responses    Responses     `json:"responses,omitempty" yaml:"responses,omitempty"`
+	Responses    Responses     `json:"responses" yaml:"responses"`
 	Callbacks    Callbacks     `json:"callbacks,omitempty" yaml:"callbacks,omitempty"`
 	Deprecated   bool          `json:"deprecated,omitempty" yaml:"deprecated,omitempty"`
 	Security     []Security    `json:"security,omitempty" yaml:"security,omitempty"`
-- 
2.43.0


From 487b8706abb911067bc9fa5a02822fc0caea66ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 21/74] fix: describe arrays like slices, with their length as
 maxItems

---
 outputs/openapi/components.go |  6 +++---
 outputs/openapi/schema.go     | 11 +++++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 48ec71b..96fbec3 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -217,9 +217,9 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		}
 
 		schema = Schema{
-			Type:      "array",
-			Items:     &itemSchema,
-			MaxLength: int(component.ArrayLength),
+			Type:     "array",
+			Items:    &itemSchema,
+			MaxItems: int(component.ArrayLength),
 		}
 	} else if component.Type == "map" {
 		additionalProperties := mapPredefinedTypeFormat(component.MapValueType)
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 21a1577..33a4ecb 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -46,6 +46,17 @@ func mapParamToSchema(bindingType astTraversal.BindingTagType, param astra.Param
 }
 
 func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field) (Schema, bool) {
+	if field.Type == "array" {
+		schema, bound := mapFieldToSchema(bindingType, astra.Field{
+			Type:      "slice",
+			SliceType: field.ArrayType,
+			Package:   field.Package,
+		})
+		schema.MaxItems = int(field.ArrayLength)
+
+		return schema, bound
+	}
+
 	if !astra.IsAcceptedType(field.Type) {
 		componentRef, bound := makeComponentRef(bindingType, field.Type, field.Package)
 		if bound {
-- 
2.43.0


From 9af400ba786ab49af01f194e5448c7d861d4ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 22/74] fix: tell apart every package that shares its last path
 element

---
 outputs/openapi/components.go | 48 ++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 96fbec3..74dd652 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -29,10 +29,32 @@ func getPackageName(pkg string) string {
 	return pkg[strings.LastIndex(pkg, "/")+1:]
 }
 
+// firstPackageDifference gets how many of the final parts of both package paths match.
+func firstPackageDifference(pkg string, otherPkg string) int {
+	// Create a slice of the package path split by "/".
+	pkgSplit := strings.Split(pkg, "/")
+	otherPkgSplit := strings.Split(otherPkg, "/")
+
+	// Reverse the package path so we can iterate from the end first.
+	slices.Reverse(pkgSplit)
+	slices.Reverse(otherPkgSplit)
+
+	// Iterate over the package path slices and find the first point where they don't match.
+	index := 0
+	for index < len(pkgSplit) && index < len(otherPkgSplit) && pkgSplit[index] == otherPkgSplit[index] {
+		index++
+	}
+
+	return index
+}
+
 // makeCollisionSafeNamesFromComponents creates collision safe names for the components.
 // This needs to be run before any routes or components are generated.
 // As the makeComponentRefName function relies on the collisionSafeNames map.
 func makeCollisionSafeNamesFromComponents(components []astra.Field) {
+	// The names only depend on the components, not on those of a service that was generated before.
+	collisionSafeNames = make(map[string]string)
+
 	// Group the components by package name.
 	packageNames := make(map[string][]astra.Field)
 	for _, component := range components {
@@ -48,29 +70,13 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 	}
 
 	for _, components := range packageNames {
-		// Iterate over every component and see if there is ever a case where the full package path doesn't match up.
+		// Compare every pair of components to see how much of the package path is needed to tell all of the packages apart.
 		sameUntil := 0
 		for i := 0; i < len(components)-1; i++ {
-			for j := i + 1; j < len(components)-i; j++ {
+			for j := i + 1; j < len(components); j++ {
 				// If the packages don't match, we need to find the first point where they don't match.
 				if components[i].Package != components[j].Package {
-					// Create a slice of the package path split by "/".
-					iComponentPackageSplit := strings.Split(components[i].Package, "/")
-					jComponentPackageSplit := strings.Split(components[j].Package, "/")
-
-					// Reverse the package path so we can iterate from the end first.
-					slices.Reverse(iComponentPackageSplit)
-					slices.Reverse(jComponentPackageSplit)
-
-					// Iterate over the package path slices and find the first point where they don't match.
-					for k := 0; k < len(iComponentPackageSplit) && k < len(jComponentPackageSplit); k++ {
-						if iComponentPackageSplit[k] != jComponentPackageSplit[k] {
-							// We've found the first point where they don't match, set sameUntil to k and break out of the loop.
-							sameUntil = k
-							break
-						}
-					}
-					break
+					sameUntil = max(sameUntil, firstPackageDifference(components[i].Package, components[j].Package))
 				}
 			}
 		}
@@ -89,7 +95,9 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 					// e.g. github.com/ls6-events/astra and github.com/different/astra would give us sameUntil = 1.
 					// and split into "ls6-events" and "different".
 
-					splitPackage = splitPackage[len(splitPackage)-(sameUntil+1):]
+					// A shorter package path is used as a whole.
+
+					splitPackage = splitPackage[max(len(splitPackage)-(sameUntil+1), 0):]
 
 					if uniqueBindings {
 						// If there are unique bindings, we need to add the binding type to the collision safe name.
-- 
2.43.0


From f41993f293a19ed5788502471bec0e4318a6a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 23/74] fix: have a component for every binding of a struct
 that is referred to

---
 outputs/openapi/components.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 74dd652..aa23c8f 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -85,6 +85,11 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 		for _, component := range components {
 			bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
 			for _, bindingType := range bindingTags {
+				// With unique bindings there is no component for the fields without a binding tag.
+				if uniqueBindings && bindingType == astTraversal.NoBindingTag {
+					continue
+				}
+
 				// If sameUntil is greater than 0, we need to remove the package path up to the point where they first don't match.
 				if sameUntil > 0 {
 					// Split the package path by "/".
@@ -152,6 +157,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			Type:       "object",
 			Properties: make(map[string]Schema),
 		}
+		bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
 		for _, fieldName := range sortedFieldNames(component.StructFields) {
 			field := component.StructFields[fieldName]
 
@@ -171,7 +177,15 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			fieldBinding := field.StructFieldBindingTags[bindingType]
 			fieldNoBinding := field.StructFieldBindingTags[astTraversal.NoBindingTag]
 			if fieldBinding == (astTraversal.BindingTag{}) && fieldNoBinding == (astTraversal.BindingTag{}) {
-				return Schema{}, false
+				// With unique bindings every binding of the struct has its own component, so the field has the default name of the binding.
+				if !uniqueBindings || !slices.Contains(bindingTags, bindingType) {
+					return Schema{}, false
+				}
+
+				fieldNoBinding = astTraversal.BindingTag{Name: fieldName}
+				if bindingType == astTraversal.YAMLBindingTag {
+					fieldNoBinding.Name = strings.ToLower(fieldName)
+				}
 			}
 			if fieldBinding == (astTraversal.BindingTag{}) {
 				fieldBinding = fieldNoBinding
-- 
2.43.0


From 10d691432c0d381f4248920df28dc5e0d2fb6940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:19 +0000
Subject: [PATCH 24/74] fix: have components for a struct whose fields share no
 binding

---
 outputs/openapi/components.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index aa23c8f..364cc54 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -83,7 +83,7 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 
 		// Iterate over every component and create a collision safe name.
 		for _, component := range components {
-			bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
+			bindingTags, uniqueBindings := extractComponentBindings(component)
 			for _, bindingType := range bindingTags {
 				// With unique bindings there is no component for the fields without a binding tag.
 				if uniqueBindings && bindingType == astTraversal.NoBindingTag {
@@ -125,6 +125,33 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 	}
 }
 
+// extractComponentBindings extracts the binding tags of the component and whether it needs a schema of its own for every one of them.
+// It does if the tags of a field differ, or if there isn't any binding that all of the fields have a tag for.
+func extractComponentBindings(component astra.Field) ([]astTraversal.BindingTagType, bool) {
+	bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
+	if uniqueBindings {
+		return bindingTags, true
+	}
+
+	for _, bindingType := range bindingTags {
+		complete := true
+		for _, field := range component.StructFields {
+			_, tagged := field.StructFieldBindingTags[bindingType]
+			_, untagged := field.StructFieldBindingTags[astTraversal.NoBindingTag]
+			if !field.IsEmbedded && !tagged && !untagged {
+				complete = false
+				break
+			}
+		}
+
+		if complete {
+			return bindingTags, false
+		}
+	}
+
+	return bindingTags, true
+}
+
 // makeComponentRef creates a reference to the component in the OpenAPI specification.
 func makeComponentRef(bindingType astTraversal.BindingTagType, name, pkg string) (string, bool) {
 	componentName, bound := makeComponentRefName(bindingType, name, pkg)
@@ -157,7 +184,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 			Type:       "object",
 			Properties: make(map[string]Schema),
 		}
-		bindingTags, uniqueBindings := astra.ExtractBindingTags(component.StructFields)
+		bindingTags, uniqueBindings := extractComponentBindings(component)
 		for _, fieldName := range sortedFieldNames(component.StructFields) {
 			field := component.StructFields[fieldName]
 
-- 
2.43.0


From aeecaceb2ac5e1150e5fd3f10f001d66a99807ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:00 +0000
Subject: [PATCH 25/74] fix: clean the package of bound headers

---
 clean.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clean.go b/clean.go
index 35a57f3..df8374d 100644
--- a/clean.go
+++ b/clean.go
@@ -29,6 +29,12 @@ func (s *Service) Clean() error {
 		for j := 0; j < len(s.Routes[i].Body); j++ {
 			s.Routes[i].Body[j].Field = s.cleanField(s.Routes[i].Body[j].Field, mainPkg)
 		}
+		for j := 0; j < len(s.Routes[i].RequestHeaders); j++ {
+			s.Routes[i].RequestHeaders[j].Field = s.cleanField(s.Routes[i].RequestHeaders[j].Field, mainPkg)
+		}
+		for j := 0; j < len(s.Routes[i].ResponseHeaders); j++ {
+			s.Routes[i].ResponseHeaders[j].Field = s.cleanField(s.Routes[i].ResponseHeaders[j].Field, mainPkg)
+		}
 	}
 
 	s.Log.Info().Msg("Cleaning up structs complete")
-- 
2.43.0


From d9dff785531fcb0ba93fdf860e3cfaacba37aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:00 +0000
Subject: [PATCH 26/74] fix: do not describe time.Duration as an enum

---
 substituteTypes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/substituteTypes.go b/substituteTypes.go
index 7fb7219..1714c2f 100644
--- a/substituteTypes.go
+++ b/substituteTypes.go
@@ -20,6 +20,7 @@ func (s *Service) HandleSubstituteTypes(component *Field) {
 
 		component.Type = substituteTypes[qualifiedName]
 
+		component.EnumValues = nil
 		component.StructFields = nil
 		component.SliceType = ""
 		component.MapValueType = ""
-- 
2.43.0


From c34793beb5d1cc15869215b8ee3b1ee0baf2735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 27/74] fix: let the CLI generate the Azure Functions output

---
 cli/astra/cmd/rebind.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/astra/cmd/rebind.go b/cli/astra/cmd/rebind.go
index ec4d33a..d549c60 100644
--- a/cli/astra/cmd/rebind.go
+++ b/cli/astra/cmd/rebind.go
@@ -50,7 +50,7 @@ func rebindOutputs(s *astra.Service) error {
 		switch output.Mode {
 		case outputs.OutputModeAzureFunctions:
 			directoryPath, ok := output.Configuration[astra.IOConfigurationKeyDirectoryPath].(string)
-			if ok || directoryPath == "" {
+			if !ok || directoryPath == "" {
 				return astra.ErrOutputDirectoryPathRequired
 			}
 			outputs.WithAzureFunctionsOutput(directoryPath)(s)
-- 
2.43.0


From f51d34a08f0b908363365f047da8a791ceb6919c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 28/74] fix: restore the custom type mapping from the cache

---
 cache.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cache.go b/cache.go
index c6865bc..41ac6ad 100644
--- a/cache.go
+++ b/cache.go
@@ -3,6 +3,7 @@ package astra
 import (
 	"encoding/json"
 	"errors"
+	"maps"
 	"os"
 	"path"
 	"strings"
@@ -109,6 +110,15 @@ func (s *Service) LoadCacheFromCustomPath(cachePath string) error {
 	s.Config = service.Config
 	s.Routes = service.Routes
 	s.Components = service.Components
+
+	if len(service.CustomTypeMapping) > 0 {
+		if s.CustomTypeMapping == nil {
+			s.CustomTypeMapping = make(map[string]TypeFormat)
+		}
+		maps.Copy(s.CustomTypeMapping, service.CustomTypeMapping)
+		s.fullTypeMapping = nil
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 4c4d8cbcaa11c953d7ee1cc4943f5529ed804ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 29/74] fix: write the cache as YAML without the functions and
 the logger, which can't be

---
 input.go   | 6 +++---
 output.go  | 6 +++---
 service.go | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/input.go b/input.go
index d74e0e1..08a5039 100644
--- a/input.go
+++ b/input.go
@@ -2,9 +2,9 @@ package astra
 
 // Input is the input for the generator.
 type Input struct {
-	Mode         InputMode       `json:"mode"`
-	CreateRoutes ServiceFunction `json:"-"`
-	ParseRoutes  ServiceFunction `json:"-"`
+	Mode         InputMode       `json:"mode" yaml:"mode"`
+	CreateRoutes ServiceFunction `json:"-" yaml:"-"`
+	ParseRoutes  ServiceFunction `json:"-" yaml:"-"`
 }
 
 type InputMode string
diff --git a/output.go b/output.go
index 8f08481..e0c3e09 100644
--- a/output.go
+++ b/output.go
@@ -3,9 +3,9 @@ package astra
 // Output is the output for the generator
 // It takes in a configuration object to allow the caching mechanism to store the file paths for the outputs.
 type Output struct {
-	Mode          OutputMode      `json:"mode"`
-	Generate      ServiceFunction `json:"-"`
-	Configuration IOConfiguration `json:"configuration"`
+	Mode          OutputMode      `json:"mode" yaml:"mode"`
+	Generate      ServiceFunction `json:"-" yaml:"-"`
+	Configuration IOConfiguration `json:"configuration" yaml:"configuration"`
 }
 
 type OutputMode string
diff --git a/service.go b/service.go
index e6431cc..436ad55 100644
--- a/service.go
+++ b/service.go
@@ -21,7 +21,7 @@ type Service struct {
 	Inputs  []Input  `json:"inputs" yaml:"inputs"`
 	Outputs []Output `json:"outputs" yaml:"outputs"`
 
-	Log zerolog.Logger `json:"-"`
+	Log zerolog.Logger `json:"-" yaml:"-"`
 
 	Config *Config `json:"config" yaml:"config"`
 
@@ -32,9 +32,9 @@ type Service struct {
 	tempMainPackageName string
 	WorkDir             string `json:"-" yaml:"-"`
 
-	CacheEnabled bool    `json:"-"`
-	CachePath    string  `json:"-"`
-	CLIMode      CLIMode `json:"-"`
+	CacheEnabled bool    `json:"-" yaml:"-"`
+	CachePath    string  `json:"-" yaml:"-"`
+	CLIMode      CLIMode `json:"-" yaml:"-"`
 
 	PathDenyList []func(string) bool `json:"-" yaml:"-"`
 
-- 
2.43.0


From bebfd1c99022f15ae21db4f950730d1f25403a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 30/74] fix: replace a temporary output directory that a failed
 run left behind

---
 dir.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dir.go b/dir.go
index 3f5870f..70d1259 100644
--- a/dir.go
+++ b/dir.go
@@ -34,7 +34,13 @@ func (s *Service) setupAstraDir() error {
 func (s *Service) SetupTempOutputDir(dirPath string) (string, error) {
 	tempDir := path.Join(s.getAstraDirPath(), dirPath)
 
-	err := os.Mkdir(tempDir, 0755)
+	// A run that failed might have left its temporary directory behind
+	err := os.RemoveAll(tempDir)
+	if err != nil {
+		return "", err
+	}
+
+	err = os.Mkdir(tempDir, 0755)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 4f0ec0289041d86bc681c13458de9a1fcd9943fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 31/74] fix: replace the path parameters of Azure Functions
 routes one by one

---
 outputs/azureFunctions/convertRoute.go | 39 +++++++++++++++-----------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/outputs/azureFunctions/convertRoute.go b/outputs/azureFunctions/convertRoute.go
index c34d171..66094aa 100644
--- a/outputs/azureFunctions/convertRoute.go
+++ b/outputs/azureFunctions/convertRoute.go
@@ -1,9 +1,8 @@
 package azureFunctions
 
 import (
-	"strings"
-
 	"github.com/ls6-events/astra"
+	"github.com/ls6-events/astra/utils"
 )
 
 // Adapted from https://learn.microsoft.com/en-us/aspnet/web-api/overview/web-api-routing-and-actions/attribute-routing-in-web-api-2#route-constraints
@@ -26,21 +25,27 @@ var acceptedTypeMap = map[string]string{
 }
 
 func convertRoute(route astra.Route) string {
-	routeString := route.Path
-
-	for _, pathParams := range route.PathParams {
-		if azureType, ok := acceptedTypeMap[pathParams.Field.Type]; ok {
-			if azureType == "" {
-				return ""
-			}
-
-			if pathParams.IsRequired {
-				routeString = strings.Replace(routeString, ":"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"}", 1)
-			} else {
-				routeString = strings.Replace(routeString, "*"+pathParams.Name, "{"+pathParams.Name+":"+azureType+"?}", 1)
-			}
-		}
+	pathParams := make(map[string]astra.Param)
+	for _, pathParam := range route.PathParams {
+		pathParams[pathParam.Name] = pathParam
 	}
 
-	return routeString
+	// Every parameter is replaced on its own, as its name might be part of another parameter or its type
+	return utils.MapPathParams(route.Path, func(param string) string {
+		pathParam, ok := pathParams[param[1:]]
+		if !ok {
+			return param
+		}
+
+		azureType, ok := acceptedTypeMap[pathParam.Field.Type]
+		if !ok {
+			return param
+		}
+
+		if pathParam.IsRequired {
+			return "{" + pathParam.Name + ":" + azureType + "}"
+		}
+
+		return "{" + pathParam.Name + ":" + azureType + "?}"
+	})
 }
-- 
2.43.0


From 4cd109956f073fbdf6c72007ace062c2254a574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 32/74] fix: find the module directive wherever it is in go.mod

---
 mainPackage.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mainPackage.go b/mainPackage.go
index 7ca4555..625ee31 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -49,14 +49,21 @@ func (s *Service) setupTempMainPackage() error {
 			if err != nil {
 				return err
 			}
-		} else if strings.HasSuffix(file.Name(), ".mod") {
+		} else if file.Name() == "go.mod" {
 			fileName := path.Join(s.WorkDir, file.Name())
 			fileData, err := os.ReadFile(fileName)
 			if err != nil {
 				return err
 			}
 
-			pkgName = strings.Replace(strings.Split(string(fileData), "\n")[0], "module ", "", 1)
+			// The module directive doesn't have to be on the first line
+			for _, line := range strings.Split(string(fileData), "\n") {
+				fields := strings.Fields(line)
+				if len(fields) >= 2 && fields[0] == "module" {
+					pkgName = strings.Trim(fields[1], "\"`")
+					break
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From d1698cad855f2d31d17059ed980dedd7262f5acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 33/74] fix: include the fields of an embedded struct whose
 type is not exported

---
 astTraversal/type.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 9a8a345..3f7926a 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -211,7 +211,8 @@ func (t *TypeTraverser) Result() (Result, error) {
 			var validationTags ValidationTagMap
 			if isExported {
 				bindingTag, validationTags = ParseStructTag(name, n.Tag(i))
-			} else {
+			} else if !isEmbedded || !isStruct(f.Type()) {
+				// The exported fields of an embedded struct belong to the struct, even if its type isn't exported
 				continue
 			}
 
@@ -268,6 +269,17 @@ func (t *TypeTraverser) Result() (Result, error) {
 	}
 }
 
+// isStruct returns whether the type is a struct, or a pointer to one.
+func isStruct(node types.Type) bool {
+	if pointer, ok := node.(*types.Pointer); ok {
+		node = pointer.Elem()
+	}
+
+	_, ok := node.Underlying().(*types.Struct)
+
+	return ok
+}
+
 // addNamedComponent adds the component that describes the underlying type of a named type.
 func (t *TypeTraverser) addNamedComponent(n *types.Named, pkg *PackageNode) error {
 	namedUnderlyingResult, err := t.Traverser.Type(n.Underlying(), pkg).SetName(n.Obj().Name()).Result()
-- 
2.43.0


From ae02a9210d5aae1594aa63b83a57758564dee7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 34/74] fix: leave out or nest embedded structs like their tags
 say

---
 outputs/openapi/components.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index 364cc54..ad60b93 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -190,7 +190,13 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 
 			// We should aim to use doc comments in the future.
 			// However https://github.com/OAI/OpenAPI-Specification/issues/1514.
-			if field.IsEmbedded {
+			embeddedBinding := field.StructFieldBindingTags[bindingType]
+			if field.IsEmbedded && embeddedBinding.NotShown {
+				continue
+			}
+
+			// An embedded struct with a name is encoded like any other field.
+			if field.IsEmbedded && (embeddedBinding.Name == "" || embeddedBinding.Name == fieldName) {
 				componentRef, componentBound := makeComponentRef(bindingType, field.Type, field.Package)
 				if componentBound {
 					embeddedProperties = append(embeddedProperties, Schema{
-- 
2.43.0


From 8cfc6d1b12f6871863c71090f3d36b20405f53ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:20 +0000
Subject: [PATCH 35/74] fix: find the handlers of functions that the compiler
 inlined

---
 inputs/gin/parseRoute.go | 132 ++++++++++++++++++++++++++++-----------
 1 file changed, 97 insertions(+), 35 deletions(-)

diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index ea680c4..56b9b5a 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/ast"
 	"path"
+	"path/filepath"
 
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
@@ -63,6 +64,11 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		}
 	}
 
+	if traverser.ActiveFile() == nil {
+		// The compiler inlined the function that has the handler, and it is in another package
+		setInlinedFile(s, traverser, baseRoute)
+	}
+
 	if traverser.ActiveFile() == nil {
 		err := fmt.Errorf("could not find file: %s", baseRoute.File)
 		log.Error().Err(err).Msg("Failed to find file")
@@ -83,6 +89,7 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		log.Debug().Msg("No path params found")
 	}
 
+	found := false
 	ast.Inspect(traverser.ActiveFile().AST, func(n ast.Node) bool {
 		if n == nil {
 			return true
@@ -99,44 +106,15 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 				// This means that the function is set inline in the route definition
 				log.Debug().Str("funcName", funcName).Msg("Function is inline")
 
-				ast.Inspect(funcDecl, func(n ast.Node) bool {
-					if n == nil {
-						return true
-					}
-
-					funcLit, ok := n.(*ast.FuncLit)
-
-					if ok {
-						inlineStartPos := traverser.ActiveFile().Package.Package.Fset.Position(funcLit.Pos())
-
-						if baseRoute.LineNo == inlineStartPos.Line {
-							log.Debug().Str("funcName", funcName).Msg("Found inline handler function")
-
-							function, err := traverser.Function(funcLit)
-							if err != nil {
-								log.Error().Err(err).Msg("Failed to get function")
-								return false
-							}
-
-							err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
-							if err != nil {
-								log.Error().Err(err).Msg("Failed to parse inline function")
-								return false
-							}
-
-							log.Debug().Str("funcName", funcName).Interface("route", *baseRoute).Msg("Adding route")
-
-							return false
-						}
-					}
-
-					return true
-				})
+				if parseInlineHandlers(s, traverser, baseRoute, funcDecl) {
+					found = true
+				}
 
 				return false
 			}
 
 			// If the function is not inline, we can just parse it normally
+			found = true
 			function, err := traverser.Function(funcDecl)
 			if err != nil {
 				log.Error().Err(err).Msg("Failed to get function")
@@ -160,9 +138,93 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return true
 	})
 
-	if err != nil {
-		return err
+	if !found {
+		// The compiler inlined the function that has the handler, so the handler's name has the name (and the package) of another function
+		setInlinedFile(s, traverser, baseRoute)
+		parseInlineHandlers(s, traverser, baseRoute, traverser.ActiveFile().AST)
 	}
 
 	return nil
 }
+
+// parseInlineHandlers parses every function literal of the node that starts at the line of the route.
+// It returns whether there is one.
+func parseInlineHandlers(s *astra.Service, traverser *astTraversal.BaseTraverser, baseRoute *astra.Route, node ast.Node) bool {
+	log := traverser.Log
+
+	found := false
+	ast.Inspect(node, func(n ast.Node) bool {
+		if n == nil {
+			return true
+		}
+
+		funcLit, ok := n.(*ast.FuncLit)
+
+		if ok {
+			inlineStartPos := traverser.ActiveFile().Package.Package.Fset.Position(funcLit.Pos())
+
+			if baseRoute.LineNo == inlineStartPos.Line {
+				log.Debug().Msg("Found inline handler function")
+				found = true
+
+				function, err := traverser.Function(funcLit)
+				if err != nil {
+					log.Error().Err(err).Msg("Failed to get function")
+					return false
+				}
+
+				err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
+				if err != nil {
+					log.Error().Err(err).Msg("Failed to parse inline function")
+					return false
+				}
+
+				log.Debug().Interface("route", *baseRoute).Msg("Adding route")
+
+				return false
+			}
+		}
+
+		return true
+	})
+
+	return found
+}
+
+// setInlinedFile makes the file of the route the active file if it isn't in the directory of the handler's package.
+// A handler is named after the function that the compiler inlined its function into, even if that is in another package.
+func setInlinedFile(s *astra.Service, traverser *astTraversal.BaseTraverser, baseRoute *astra.Route) {
+	file, err := filepath.Abs(baseRoute.File)
+	if err != nil {
+		return
+	}
+
+	// The main package has been copied from the working directory
+	workDir, err := filepath.Abs(s.WorkDir)
+	if err != nil || filepath.Dir(file) == workDir {
+		return
+	}
+
+	if traverser.ActiveFile() != nil && traverser.ActiveFile().FileName == file {
+		return
+	}
+
+	pkg, err := astTraversal.LoadPackage(filepath.Dir(file), s.WorkDir)
+	if err != nil {
+		traverser.Log.Error().Err(err).Msg("Failed to load the package of the file")
+		return
+	}
+
+	pkgNode := traverser.Packages.AddPackage(pkg.PkgPath)
+	if _, err = traverser.Packages.Get(pkgNode); err != nil {
+		traverser.Log.Error().Err(err).Msg("Failed to get the package of the file")
+		return
+	}
+
+	for _, fileNode := range pkgNode.Files {
+		if fileNode.FileName == file {
+			traverser.SetActiveFile(fileNode)
+			return
+		}
+	}
+}
-- 
2.43.0


From c74f5fbbd6a5663006f1c3e720328a06dabc0e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:44 +0000
Subject: [PATCH 36/74] fix: prefer the JSON binding for a component that the
 bindings share

---
 outputs/openapi/generate.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index c8bffcd..7d7faa1 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -271,9 +271,16 @@ func Generate(filePath string) astra.ServiceFunction {
 				}
 
 				componentName, bound := makeComponentRefName(bindingType, component.Name, component.Package)
-				if bound {
-					components.Schemas[componentName] = schema
+				if !bound {
+					continue
+				}
+
+				// The bindings share the component if they don't differ, but they might for the components it refers to
+				if _, exists := components.Schemas[componentName]; exists && bindingType != astTraversal.JSONBindingTag {
+					continue
 				}
+
+				components.Schemas[componentName] = schema
 			}
 		}
 		s.Log.Debug().Msg("Added components")
-- 
2.43.0


From f9659f3b181e54c60d55760adb83ff22e4547765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:35 +0000
Subject: [PATCH 37/74] fix: keep the package of a named slice, array or map
 apart from that of its elements

---
 astTraversal/result.go        |  4 ++++
 astTraversal/type.go          |  6 ++++++
 clean.go                      |  3 +++
 outputs/openapi/components.go | 15 ++++++++++++---
 types.go                      |  3 +++
 utils.go                      |  5 +++++
 6 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/astTraversal/result.go b/astTraversal/result.go
index 7c0b8cc..10e3ebf 100644
--- a/astTraversal/result.go
+++ b/astTraversal/result.go
@@ -9,6 +9,10 @@ type Result struct {
 	// It's used as the package of a Slice, Array or Map Value
 	Package *PackageNode
 
+	// ElementPackage is the package of a Slice, Array or Map Value if the result is a types.Named type
+	// The package is the package of the types.Named type then
+	ElementPackage *PackageNode
+
 	// Name is the name of the result if it's a types.Named type
 	Name string
 
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 3f7926a..8c018a9 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -260,6 +260,12 @@ func (t *TypeTraverser) Result() (Result, error) {
 
 	if t.name != "" {
 		result.Name = t.name
+
+		// The elements might be of a type of another package than the named type itself
+		if (result.SliceType != "" || result.ArrayType != "" || result.MapValueType != "") && result.Package != t.Package {
+			result.ElementPackage = result.Package
+			result.Package = t.Package
+		}
 	}
 
 	if result.Type != "" {
diff --git a/clean.go b/clean.go
index df8374d..16f04f6 100644
--- a/clean.go
+++ b/clean.go
@@ -56,6 +56,9 @@ func (s *Service) cleanField(f Field, mainPkg string) Field {
 	if f.Package == mainPkg {
 		f.Package = "main"
 	}
+	if f.ElementPackage == mainPkg {
+		f.ElementPackage = "main"
+	}
 	if f.MapKeyPackage == mainPkg {
 		f.MapKeyPackage = "main"
 	}
diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index ad60b93..adbacec 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -172,6 +172,15 @@ func makeComponentRefName(bindingType astTraversal.BindingTagType, name, pkg str
 	return componentName, bound
 }
 
+// elementPackage gets the package of the elements of a slice, array or map.
+func elementPackage(field astra.Field) string {
+	if field.ElementPackage != "" {
+		return field.ElementPackage
+	}
+
+	return field.Package
+}
+
 // componentToSchema converts a component to a schema.
 func componentToSchema(service *astra.Service, component astra.Field, bindingType astTraversal.BindingTagType) (schema Schema, bound bool) {
 	if _, ok := service.GetTypeMapping(component.Name, component.Package); ok {
@@ -247,7 +256,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		itemSchema := mapPredefinedTypeFormat(component.SliceType)
 
 		if itemSchema.Type == "" && !astra.IsAcceptedType(component.SliceType) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.SliceType, component.Package)
+			componentRef, componentBound := makeComponentRef(bindingType, component.SliceType, elementPackage(component))
 			if componentBound {
 				itemSchema = Schema{
 					Ref: componentRef,
@@ -263,7 +272,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		itemSchema := mapPredefinedTypeFormat(component.ArrayType)
 
 		if itemSchema.Type == "" && !astra.IsAcceptedType(component.ArrayType) {
-			componentRef, componentBound := makeComponentRef(bindingType, component.ArrayType, component.Package)
+			componentRef, componentBound := makeComponentRef(bindingType, component.ArrayType, elementPackage(component))
 			if componentBound {
 				itemSchema = Schema{
 					Ref: componentRef,
@@ -280,7 +289,7 @@ func componentToSchema(service *astra.Service, component astra.Field, bindingTyp
 		additionalProperties := mapPredefinedTypeFormat(component.MapValueType)
 
 		if additionalProperties.Type == "" && !astra.IsAcceptedType(component.MapValueType) {
-			componentRef, ok := makeComponentRef(bindingType, component.MapValueType, component.Package)
+			componentRef, ok := makeComponentRef(bindingType, component.MapValueType, elementPackage(component))
 			if ok {
 				additionalProperties.Ref = componentRef
 			}
diff --git a/types.go b/types.go
index 48deddd..3fe9c62 100644
--- a/types.go
+++ b/types.go
@@ -82,6 +82,9 @@ type Field struct {
 	ArrayType   string `json:"arrayType,omitempty" yaml:"arrayType,omitempty"`
 	ArrayLength int64  `json:"arrayLength,omitempty" yaml:"arrayLength,omitempty"`
 
+	// ElementPackage is the package of the slice, array or map value type if the field is a named type (package is the package of the named type then).
+	ElementPackage string `json:"elementPackage,omitempty" yaml:"elementPackage,omitempty"`
+
 	MapKeyPackage string `json:"mapKeyPackage,omitempty" yaml:"mapKeyPackage,omitempty"`
 	MapKeyType    string `json:"mapKeyType,omitempty" yaml:"mapKeyType,omitempty"`
 	MapValueType  string `json:"mapValueType,omitempty" yaml:"mapValueType,omitempty"`
diff --git a/utils.go b/utils.go
index adaaa9b..665f0f2 100644
--- a/utils.go
+++ b/utils.go
@@ -39,6 +39,11 @@ func ParseResultToField(result astTraversal.Result) Field {
 		field.Package = result.Package.Path()
 	}
 
+	// If the type is named, the package of its elements might be another one.
+	if result.ElementPackage != nil {
+		field.ElementPackage = result.ElementPackage.Path()
+	}
+
 	// If the map key type is populated and not a primitive type, we need to get the package path for the map key.
 	if result.MapKeyType != "" && !IsAcceptedType(result.MapKeyType) {
 		field.MapKeyPackage = result.MapKeyPackage.Path()
-- 
2.43.0


From b79c5a41964788d39e90ec1b506f940cb0167739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:17 +0000
Subject: [PATCH 38/74] fix: document the handlers that are method values

---
 inputs/gin/createRoute.go | 12 ++++--
 inputs/gin/parseRoute.go  | 84 +++++++++++++++++++++++++++++++++++----
 2 files changed, 84 insertions(+), 12 deletions(-)

diff --git a/inputs/gin/createRoute.go b/inputs/gin/createRoute.go
index 5d553f4..6ece1ec 100644
--- a/inputs/gin/createRoute.go
+++ b/inputs/gin/createRoute.go
@@ -21,10 +21,14 @@ func createRoute(s *astra.Service, file string, line int, info gin.RouteInfo) er
 		return err
 	}
 
-	relativePath, err := filepath.Rel(cwd, file)
-	if err != nil {
-		log.Error().Err(err).Msg("Failed to get relative path")
-		return err
+	// The function of a method value is generated by the compiler, so it has no file
+	relativePath := file
+	if filepath.IsAbs(file) {
+		relativePath, err = filepath.Rel(cwd, file)
+		if err != nil {
+			log.Error().Err(err).Msg("Failed to get relative path")
+			return err
+		}
 	}
 
 	baseRoute := astra.Route{
diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index 56b9b5a..f7280df 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"path"
 	"path/filepath"
+	"strings"
 
 	"github.com/ls6-events/astra"
 	"github.com/ls6-events/astra/astTraversal"
@@ -13,6 +14,9 @@ import (
 	"github.com/iancoleman/strcase"
 )
 
+// methodValueSuffix is the suffix of the names of the functions that the compiler generates for method values.
+const methodValueSuffix = "-fm"
+
 // parseRoute parses a route from a gin routes.
 // It will populate the route with the handler function.
 // createRoute must be called before this.
@@ -56,6 +60,13 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return err
 	}
 
+	if strings.HasSuffix(baseRoute.Handler, methodValueSuffix) {
+		resetRoute(baseRoute)
+		parseMethodValue(s, traverser, baseRoute, pkgNode, handler)
+
+		return nil
+	}
+
 	for _, file := range pkgNode.Files {
 		if path.Base(file.FileName) == path.Base(baseRoute.File) {
 			log.Debug().Str("fileName", file.FileName).Msg("Found file")
@@ -75,14 +86,7 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		return err
 	}
 
-	// A route might have been parsed before (another input, or a cache of a completed parse), so start afresh
-	baseRoute.QueryParams = make([]astra.Param, 0)
-	baseRoute.Body = make([]astra.BodyParam, 0)
-	baseRoute.ReturnTypes = make([]astra.ReturnType, 0)
-	baseRoute.RequestHeaders = nil
-	baseRoute.ResponseHeaders = nil
-
-	baseRoute.PathParams = utils.ExtractParamsFromPath(baseRoute.Path)
+	resetRoute(baseRoute)
 	if len(baseRoute.PathParams) > 0 {
 		log.Debug().Interface("pathParams", baseRoute.PathParams).Msg("Found path params")
 	} else {
@@ -147,6 +151,70 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 	return nil
 }
 
+// resetRoute resets everything that is parsed from the handler of the route.
+// A route might have been parsed before (another input, or a cache of a completed parse), so it has to start afresh.
+func resetRoute(baseRoute *astra.Route) {
+	baseRoute.QueryParams = make([]astra.Param, 0)
+	baseRoute.Body = make([]astra.BodyParam, 0)
+	baseRoute.ReturnTypes = make([]astra.ReturnType, 0)
+	baseRoute.RequestHeaders = nil
+	baseRoute.ResponseHeaders = nil
+
+	baseRoute.PathParams = utils.ExtractParamsFromPath(baseRoute.Path)
+}
+
+// parseMethodValue parses the method of a route whose handler is a method value (i.e. controller.Get).
+// The name of its handler has the receiver and the method, but the compiler doesn't know a file or line for it.
+func parseMethodValue(s *astra.Service, traverser *astTraversal.BaseTraverser, baseRoute *astra.Route, pkgNode *astTraversal.PackageNode, handler utils.HandlerPath) {
+	log := traverser.Log
+
+	if len(handler.HandlerParts) < 2 {
+		log.Error().Msg("Failed to find the method of the handler")
+		return
+	}
+
+	receiver := strings.Trim(handler.HandlerParts[0], "(*)")
+	method := strings.TrimSuffix(handler.HandlerParts[len(handler.HandlerParts)-1], methodValueSuffix)
+
+	for _, file := range pkgNode.Files {
+		for _, decl := range file.AST.Decls {
+			funcDecl, ok := decl.(*ast.FuncDecl)
+			if !ok || funcDecl.Name.Name != method || funcDecl.Recv == nil || len(funcDecl.Recv.List) != 1 {
+				continue
+			}
+
+			receiverType := funcDecl.Recv.List[0].Type
+			if pointer, ok := receiverType.(*ast.StarExpr); ok {
+				receiverType = pointer.X
+			}
+
+			if ident, ok := receiverType.(*ast.Ident); !ok || ident.Name != receiver {
+				continue
+			}
+
+			traverser.SetActiveFile(file)
+
+			function, err := traverser.Function(funcDecl)
+			if err != nil {
+				log.Error().Err(err).Msg("Failed to get method")
+				return
+			}
+
+			// Many controllers have methods with the same name, so the operation ID needs the name of the receiver
+			baseRoute.OperationID = strcase.ToLowerCamel(receiver + strcase.ToCamel(method))
+
+			err = parseFunction(s, function, baseRoute, file, 0)
+			if err != nil {
+				log.Error().Err(err).Msg("Failed to parse method")
+			}
+
+			return
+		}
+	}
+
+	log.Error().Msg("Failed to find the method of the handler")
+}
+
 // parseInlineHandlers parses every function literal of the node that starts at the line of the route.
 // It returns whether there is one.
 func parseInlineHandlers(s *astra.Service, traverser *astTraversal.BaseTraverser, baseRoute *astra.Route, node ast.Node) bool {
-- 
2.43.0


From 5ea60c8c2159aab0b4c24d6359f3e175588e25e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:02 +0000
Subject: [PATCH 39/74] fix: find the comments of struct fields next to the
 fields

---
 astTraversal/packageNode.go | 56 +++++++++++++++++++++++++++++++++++++
 astTraversal/type.go        | 16 +++++------
 2 files changed, 63 insertions(+), 9 deletions(-)

diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 1266453..9f403bc 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -19,6 +19,9 @@ type PackageNode struct {
 	// TypeDocMap is a map of type names to their documentation
 	// We cache this to save iterating over types every time we need to find the documentation
 	TypeDocMap map[string]string
+
+	// fieldDocMap is the same for the fields of structs, by the name of the struct and the name of the field
+	fieldDocMap map[string]map[string]string
 }
 
 func (p *PackageNode) Path() string {
@@ -206,6 +209,14 @@ func (p *PackageNode) FindDocForType(typeName string) (string, bool) {
 	return doc, ok
 }
 
+// FindDocForField finds the documentation for a field of a struct type in the package.
+func (p *PackageNode) FindDocForField(typeName string, fieldName string) (string, bool) {
+	p.populateTypeDocMap()
+
+	doc, ok := p.fieldDocMap[typeName][fieldName]
+	return doc, ok
+}
+
 // populateTypeDocMap populates the TypeDocMap for the package.
 func (p *PackageNode) populateTypeDocMap() {
 	// If the map is already populated, we don't need to do anything
@@ -215,6 +226,7 @@ func (p *PackageNode) populateTypeDocMap() {
 
 	// Otherwise, we need to populate it
 	p.TypeDocMap = make(map[string]string)
+	p.fieldDocMap = make(map[string]map[string]string)
 
 	// Loop over every file
 	for _, f := range p.Files {
@@ -226,6 +238,10 @@ func (p *PackageNode) populateTypeDocMap() {
 				for _, spec := range genDecl.Specs {
 					// If the spec is a type spec, it's a type declaration
 					if typeSpec, ok := spec.(*ast.TypeSpec); ok {
+						if structType, ok := typeSpec.Type.(*ast.StructType); ok {
+							p.fieldDocMap[typeSpec.Name.Name] = fieldDocs(structType)
+						}
+
 						// If the type spec has no documentation, and the overarching declaration has no documentation, we skip it
 						// TypeSpecs can have documentation, but it's not common
 						// It's more common for the GenDecl to have the documentation
@@ -242,3 +258,43 @@ func (p *PackageNode) populateTypeDocMap() {
 		}
 	}
 }
+
+// fieldDocs finds the documentation of the fields of a struct.
+func fieldDocs(structType *ast.StructType) map[string]string {
+	docs := make(map[string]string)
+
+	for _, field := range structType.Fields.List {
+		if field.Doc == nil {
+			continue
+		}
+
+		for _, name := range field.Names {
+			docs[name.Name] = field.Doc.Text()
+		}
+
+		// An embedded field has no names of its own, it is named after its type
+		if len(field.Names) == 0 {
+			docs[embeddedFieldName(field.Type)] = field.Doc.Text()
+		}
+	}
+
+	return docs
+}
+
+// embeddedFieldName returns the name of an embedded field.
+func embeddedFieldName(expr ast.Expr) string {
+	switch n := expr.(type) {
+	case *ast.Ident:
+		return n.Name
+	case *ast.StarExpr:
+		return embeddedFieldName(n.X)
+	case *ast.SelectorExpr:
+		return n.Sel.Name
+	case *ast.IndexExpr:
+		return embeddedFieldName(n.X)
+	case *ast.IndexListExpr:
+		return embeddedFieldName(n.X)
+	default:
+		return ""
+	}
+}
diff --git a/astTraversal/type.go b/astTraversal/type.go
index 8c018a9..a285e96 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -226,16 +226,14 @@ func (t *TypeTraverser) Result() (Result, error) {
 				if err != nil {
 					return Result{}, err
 				}
+			}
 
-				pos := f.Pos()
-
-				node, err := structFieldResult.Package.ASTAtPos(pos)
-				if err == nil && node != nil {
-					if field, ok := node.(*ast.Field); ok {
-						// An embedded field has no names of its own, so the name comes from the type information
-						t.Traverser.Log.Debug().Str("field", f.Name()).Msg("Found doc for field")
-						structFieldResult.Doc = FormatDoc(field.Doc.Text())
-					}
+			// The doc is next to the field, which needn't be the package of its type
+			if t.name != "" && t.Package != nil {
+				doc, ok := t.Package.FindDocForField(t.name, f.Name())
+				if ok {
+					t.Traverser.Log.Debug().Str("field", f.Name()).Msg("Found doc for field")
+					structFieldResult.Doc = FormatDoc(doc)
 				}
 			}
 
-- 
2.43.0


From 7895403d66e073cb357cb799e36bbdba781e97dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:14 +0000
Subject: [PATCH 40/74] fix: don't delete the project when the output directory
 contains it

---
 dir.go | 59 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/dir.go b/dir.go
index 70d1259..58552df 100644
--- a/dir.go
+++ b/dir.go
@@ -5,6 +5,8 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"path/filepath"
+	"strings"
 )
 
 // This creates a new directory in the current working directory called .astra.
@@ -52,7 +54,21 @@ func (s *Service) MoveTempOutputDir(dirPath, outputDir string) error {
 	sourcePath := path.Join(s.getAstraDirPath(), dirPath)
 	destinationPath := path.Join(s.WorkDir, outputDir)
 
-	_, err := os.Stat(destinationPath)
+	// The destination can't be replaced if it is the project itself (or contains it), so the output is merged into it
+	isParent, err := isParentDir(destinationPath, sourcePath)
+	if err != nil {
+		return err
+	}
+	if isParent {
+		err := mergeDir(sourcePath, destinationPath)
+		if err != nil {
+			return err
+		}
+
+		return os.RemoveAll(sourcePath)
+	}
+
+	_, err = os.Stat(destinationPath)
 	if !errors.Is(err, fs.ErrNotExist) {
 		err := os.RemoveAll(destinationPath)
 		if err != nil {
@@ -68,6 +84,47 @@ func (s *Service) MoveTempOutputDir(dirPath, outputDir string) error {
 	return nil
 }
 
+// isParentDir returns whether the child is somewhere inside the parent directory.
+func isParentDir(parent, child string) (bool, error) {
+	parent, err := filepath.Abs(parent)
+	if err != nil {
+		return false, err
+	}
+
+	child, err = filepath.Abs(child)
+	if err != nil {
+		return false, err
+	}
+
+	relativePath, err := filepath.Rel(parent, child)
+	if err != nil {
+		return false, err
+	}
+
+	return relativePath != ".." && !strings.HasPrefix(relativePath, ".."+string(filepath.Separator)), nil
+}
+
+// mergeDir moves the files of the source directory to the destination directory, and leaves everything else in there as it is.
+func mergeDir(source, destination string) error {
+	return filepath.WalkDir(source, func(sourcePath string, entry fs.DirEntry, err error) error {
+		if err != nil {
+			return err
+		}
+
+		relativePath, err := filepath.Rel(source, sourcePath)
+		if err != nil {
+			return err
+		}
+
+		destinationPath := filepath.Join(destination, relativePath)
+		if entry.IsDir() {
+			return os.MkdirAll(destinationPath, 0755)
+		}
+
+		return os.Rename(sourcePath, destinationPath)
+	})
+}
+
 // setupGitIgnore creates the .gitignore file, by default it will ignore all files in the directory.
 func (s *Service) setupGitIgnore() error {
 	gitIgnorePath := path.Join(s.getAstraDirPath(), ".gitignore")
-- 
2.43.0


From f6bfa4db5f45bfee0efa1fe8a1f437db3807c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:11 +0000
Subject: [PATCH 41/74] fix: unescape the package of a handler whose last path
 element has a dot

---
 utils/splitHandlerPath.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/utils/splitHandlerPath.go b/utils/splitHandlerPath.go
index 04f8a75..3be15e7 100644
--- a/utils/splitHandlerPath.go
+++ b/utils/splitHandlerPath.go
@@ -1,6 +1,9 @@
 package utils
 
-import "strings"
+import (
+	"net/url"
+	"strings"
+)
 
 type HandlerPath struct {
 	PathParts    []string
@@ -16,7 +19,13 @@ func SplitHandlerPath(handlerPath string) HandlerPath {
 
 	// Remove the last dot-separated part from the path parts
 	pathParts = pathParts[:len(pathParts)-1]
-	pathParts = append(pathParts, handlerParts[0])
+
+	// The names of functions escape the dots of the last element of their package's path (i.e. gopkg.in/yaml%2ev3.Marshal)
+	pkgName, err := url.PathUnescape(handlerParts[0])
+	if err != nil {
+		pkgName = handlerParts[0]
+	}
+	pathParts = append(pathParts, pkgName)
 
 	// Remove the first handler part from the handler parts
 	handlerParts = handlerParts[1:]
-- 
2.43.0


From e3f685ba5dce4f083cac4fae408765ea305866c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:03 +0000
Subject: [PATCH 42/74] fix: give every array items, OpenAPI requires them

---
 outputs/openapi/schema.go | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 33a4ecb..032dbb1 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -69,8 +69,10 @@ func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field
 	} else {
 		schema := mapPredefinedTypeFormat(field.Type)
 		if field.Type == "slice" {
+			predefined := mapPredefinedTypeFormat(field.SliceType)
 			itemSchema := Schema{
-				Type: mapPredefinedTypeFormat(field.SliceType).Type,
+				Type:  predefined.Type,
+				Items: predefined.Items,
 			}
 			if !astra.IsAcceptedType(field.SliceType) {
 				componentRef, bound := makeComponentRef(bindingType, field.SliceType, field.Package)
@@ -102,13 +104,7 @@ func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field
 // This should be primarily used for custom types in components that need to be mapped.
 func mapTypeFormat(service *astra.Service, acceptedType string, pkg string) Schema {
 	if acceptedType, ok := service.GetTypeMapping(acceptedType, pkg); ok {
-		if acceptedType.Type == "" {
-			return Schema{}
-		}
-		return Schema{
-			Type:   acceptedType.Type,
-			Format: acceptedType.Format,
-		}
+		return typeFormatToSchema(acceptedType)
 	}
 
 	return Schema{}
@@ -118,18 +114,31 @@ func mapTypeFormat(service *astra.Service, acceptedType string, pkg string) Sche
 // This should be primarily used for types that are not custom types, i.e. everywhere except top level components.
 func mapPredefinedTypeFormat(acceptedType string) Schema {
 	if acceptedType, ok := astra.PredefinedTypeMap[acceptedType]; ok {
-		if acceptedType.Type == "" {
-			return Schema{}
-		}
-		return Schema{
-			Type:   acceptedType.Type,
-			Format: acceptedType.Format,
-		}
+		return typeFormatToSchema(acceptedType)
 	}
 
 	return Schema{}
 }
 
+// typeFormatToSchema converts a type that is mapped to a type and format to a schema.
+func typeFormatToSchema(typeFormat astra.TypeFormat) Schema {
+	if typeFormat.Type == "" {
+		return Schema{}
+	}
+
+	schema := Schema{
+		Type:   typeFormat.Type,
+		Format: typeFormat.Format,
+	}
+
+	// OpenAPI requires the items of an array, even if nothing is known about them (i.e. those of a slice in a slice).
+	if schema.Type == "array" {
+		schema.Items = &Schema{}
+	}
+
+	return schema
+}
+
 // getQueryParamStyle returns the style of the query parameter, based on the schema.
 func getQueryParamStyle(schema Schema) (style string, explode bool) {
 	if schema.Type == "object" {
-- 
2.43.0


From beb3b1804c6e9aa49a185436bf584ef0c784bfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:03 +0000
Subject: [PATCH 43/74] fix: keep the format of the elements of slices in
 payloads

---
 outputs/openapi/schema.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 032dbb1..7b12fa2 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -69,11 +69,7 @@ func mapFieldToSchema(bindingType astTraversal.BindingTagType, field astra.Field
 	} else {
 		schema := mapPredefinedTypeFormat(field.Type)
 		if field.Type == "slice" {
-			predefined := mapPredefinedTypeFormat(field.SliceType)
-			itemSchema := Schema{
-				Type:  predefined.Type,
-				Items: predefined.Items,
-			}
+			itemSchema := mapPredefinedTypeFormat(field.SliceType)
 			if !astra.IsAcceptedType(field.SliceType) {
 				componentRef, bound := makeComponentRef(bindingType, field.SliceType, field.Package)
 				if bound {
-- 
2.43.0


From 23d7e18be12e3a1f8bf28eb52ba2da002a939f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:03 +0000
Subject: [PATCH 44/74] fix: leave out parameters and headers without a name

---
 outputs/openapi/generate.go | 2 +-
 outputs/openapi/schema.go   | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 7d7faa1..9480606 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -172,7 +172,7 @@ func Generate(filePath string) astra.ServiceFunction {
 				for _, responseHeader := range endpoint.ResponseHeaders {
 					s.Log.Debug().Str("endpointPath", endpoint.Path).Str("method", endpoint.Method).Str("param", responseHeader.Name).Msg("Adding response header")
 					schema, bound := mapParamToSchema(astTraversal.HeaderBindingTag, responseHeader)
-					if bound {
+					if bound && responseHeader.Name != "" {
 						responseHeaders[responseHeader.Name] = Header{
 							Schema:   schema,
 							Required: responseHeader.IsRequired,
diff --git a/outputs/openapi/schema.go b/outputs/openapi/schema.go
index 7b12fa2..ddb896b 100644
--- a/outputs/openapi/schema.go
+++ b/outputs/openapi/schema.go
@@ -158,7 +158,12 @@ func findComponentByPackageAndType(fields []astra.Field, pkg string, typeName st
 }
 
 // addParameter adds a parameter, unless there already is one with that name and location (OpenAPI doesn't allow two).
+// A parameter that has no name can't be described.
 func addParameter(parameters []Parameter, parameter Parameter) []Parameter {
+	if parameter.Name == "" {
+		return parameters
+	}
+
 	for _, existing := range parameters {
 		if existing.Name == parameter.Name && existing.In == parameter.In {
 			return parameters
-- 
2.43.0


From 44ec8c574421b2b02927a0f7714dbf77f7e6f5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:31 +0000
Subject: [PATCH 45/74] fix: keep the routes of handlers whose source can't be
 found

---
 inputs/gin/parseRoute.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index f7280df..e104863 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -80,13 +80,15 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 		setInlinedFile(s, traverser, baseRoute)
 	}
 
+	resetRoute(baseRoute)
+
 	if traverser.ActiveFile() == nil {
+		// The function isn't in a Go file of the package (i.e. it is generated from another file), so there is nothing to parse
 		err := fmt.Errorf("could not find file: %s", baseRoute.File)
 		log.Error().Err(err).Msg("Failed to find file")
-		return err
+		return nil
 	}
 
-	resetRoute(baseRoute)
 	if len(baseRoute.PathParams) > 0 {
 		log.Debug().Interface("pathParams", baseRoute.PathParams).Msg("Found path params")
 	} else {
-- 
2.43.0


From 198addd6d39c8ee3418f4d120311b1c7c0ad9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:40 +0000
Subject: [PATCH 46/74] fix: find the handler that is on one line with the
 function that returns it

---
 inputs/gin/parseRoute.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index e104863..dc9943a 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -108,7 +108,14 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 
 			startPos := traverser.ActiveFile().Package.Package.Fset.Position(funcDecl.Pos())
 
-			if baseRoute.LineNo != startPos.Line {
+			function, err := traverser.Function(funcDecl)
+			if err != nil {
+				log.Error().Err(err).Msg("Failed to get function")
+				return false
+			}
+
+			// A function that returns its handler might be on one line with it
+			if baseRoute.LineNo != startPos.Line || !takesContext(function) {
 				// This means that the function is set inline in the route definition
 				log.Debug().Str("funcName", funcName).Msg("Function is inline")
 
@@ -116,16 +123,13 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 					found = true
 				}
 
-				return false
+				if found || baseRoute.LineNo != startPos.Line {
+					return false
+				}
 			}
 
 			// If the function is not inline, we can just parse it normally
 			found = true
-			function, err := traverser.Function(funcDecl)
-			if err != nil {
-				log.Error().Err(err).Msg("Failed to get function")
-				return false
-			}
 
 			// And define the function name as the operation ID
 			baseRoute.OperationID = strcase.ToLowerCamel(funcName)
@@ -234,15 +238,20 @@ func parseInlineHandlers(s *astra.Service, traverser *astTraversal.BaseTraverser
 			inlineStartPos := traverser.ActiveFile().Package.Package.Fset.Position(funcLit.Pos())
 
 			if baseRoute.LineNo == inlineStartPos.Line {
-				log.Debug().Msg("Found inline handler function")
-				found = true
-
 				function, err := traverser.Function(funcLit)
 				if err != nil {
 					log.Error().Err(err).Msg("Failed to get function")
 					return false
 				}
 
+				if !takesContext(function) {
+					// The function is called to get the handler
+					return true
+				}
+
+				log.Debug().Msg("Found inline handler function")
+				found = true
+
 				err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
 				if err != nil {
 					log.Error().Err(err).Msg("Failed to parse inline function")
@@ -261,6 +270,11 @@ func parseInlineHandlers(s *astra.Service, traverser *astTraversal.BaseTraverser
 	return found
 }
 
+// takesContext returns whether a function has the context as an argument.
+func takesContext(function *astTraversal.FunctionTraverser) bool {
+	return function.FindArgumentNameByType(GinContextType, GinPackagePath, GinContextIsPointer) != ""
+}
+
 // setInlinedFile makes the file of the route the active file if it isn't in the directory of the handler's package.
 // A handler is named after the function that the compiler inlined its function into, even if that is in another package.
 func setInlinedFile(s *astra.Service, traverser *astTraversal.BaseTraverser, baseRoute *astra.Route) {
-- 
2.43.0


From f4c206c40b777378bc29ce4f5de336543611ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:24 +0000
Subject: [PATCH 47/74] fix: look for context calls in the arguments of
 functions that can't be followed

---
 inputs/gin/parseFunction.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 3b2aee5..8570d76 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -96,7 +96,10 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			if err != nil {
 				traverser.SetActiveFile(activeFile)
 				traverser.Log.Error().Err(err).Msg("failed to get function")
-				return false
+
+				// The arguments, or a function literal that is called, might still use the context
+				err = nil
+				return true
 			}
 
 			if function.DeclNode == funcTraverser.DeclNode || slices.Contains(callers, function.DeclNode) {
@@ -108,7 +111,8 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			traverser.SetActiveFile(activeFile)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
-				return false
+				err = nil
+				return true
 			}
 		} else {
 			var funcType *types.Func
-- 
2.43.0


From ae628d630da986f1a7a11c1a76463d4651ac3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:48 +0000
Subject: [PATCH 48/74] fix: find handlers that the compiler has left nothing
 of

---
 inputs/gin/parseRoute.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index dc9943a..d7418a0 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -114,8 +114,12 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 				return false
 			}
 
+			// The name of the handler is only that of the function if it isn't inline
+			// The line can't tell, as a function that does nothing has no instruction in its first line
+			isInline := baseRoute.LineNo != startPos.Line && (len(handler.HandlerParts) > 1 || funcDecl.Recv != nil)
+
 			// A function that returns its handler might be on one line with it
-			if baseRoute.LineNo != startPos.Line || !takesContext(function) {
+			if isInline || !takesContext(function) {
 				// This means that the function is set inline in the route definition
 				log.Debug().Str("funcName", funcName).Msg("Function is inline")
 
@@ -123,7 +127,7 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 					found = true
 				}
 
-				if found || baseRoute.LineNo != startPos.Line {
+				if found || isInline {
 					return false
 				}
 			}
-- 
2.43.0


From ed473c3a48f9e274c675d242c6cd5cd7448e4c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 49/74] fix: write the same file when an output is generated
 again

---
 outputs/json/generate.go    | 14 ++++++++------
 outputs/openapi/generate.go | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/outputs/json/generate.go b/outputs/json/generate.go
index a51b1f3..7ebf65f 100644
--- a/outputs/json/generate.go
+++ b/outputs/json/generate.go
@@ -33,14 +33,16 @@ func Generate(filePath string) astra.ServiceFunction {
 			return err
 		}
 
-		if !strings.HasSuffix(filePath, ".json") {
-			s.Log.Debug().Str("filePath", filePath).Msg("Adding .json suffix to file path")
-			filePath += ".json"
+		// The path given is kept as it is, for the output to be generated more than once
+		outputPath := filePath
+		if !strings.HasSuffix(outputPath, ".json") {
+			s.Log.Debug().Str("filePath", outputPath).Msg("Adding .json suffix to file path")
+			outputPath += ".json"
 		}
 
-		s.Log.Debug().Str("filePath", filePath).Msg("Writing JSON output to file")
-		filePath = path.Join(s.WorkDir, filePath)
-		err = os.WriteFile(filePath, file, 0644)
+		s.Log.Debug().Str("filePath", outputPath).Msg("Writing JSON output to file")
+		outputPath = path.Join(s.WorkDir, outputPath)
+		err = os.WriteFile(outputPath, file, 0644)
 		if err != nil {
 			s.Log.Error().Err(err).Msg("Failed to write JSON output to file")
 			return err
diff --git a/outputs/openapi/generate.go b/outputs/openapi/generate.go
index 9480606..1421e24 100644
--- a/outputs/openapi/generate.go
+++ b/outputs/openapi/generate.go
@@ -308,14 +308,16 @@ func Generate(filePath string) astra.ServiceFunction {
 			Components: components,
 		}
 
-		if !strings.HasSuffix(filePath, ".json") && !strings.HasSuffix(filePath, ".yaml") && !strings.HasSuffix(filePath, ".yml") {
+		// The path given is kept as it is, for the output to be generated more than once
+		outputPath := filePath
+		if !strings.HasSuffix(outputPath, ".json") && !strings.HasSuffix(outputPath, ".yaml") && !strings.HasSuffix(outputPath, ".yml") {
 			s.Log.Debug().Msg("No file extension provided, defaulting to .json")
-			filePath += ".json"
+			outputPath += ".json"
 		}
 
 		var file []byte
 		var err error
-		if strings.HasSuffix(filePath, ".yaml") || strings.HasSuffix(filePath, ".yml") {
+		if strings.HasSuffix(outputPath, ".yaml") || strings.HasSuffix(outputPath, ".yml") {
 			s.Log.Debug().Msg("Writing YAML file")
 			file, err = yaml.Marshal(output)
 		} else {
@@ -327,14 +329,14 @@ func Generate(filePath string) astra.ServiceFunction {
 			return err
 		}
 
-		filePath = path.Join(s.WorkDir, filePath)
-		err = os.WriteFile(filePath, file, 0644)
+		outputPath = path.Join(s.WorkDir, outputPath)
+		err = os.WriteFile(outputPath, file, 0644)
 		if err != nil {
 			s.Log.Error().Err(err).Msg("Failed to write OpenAPI schema file")
 			return err
 		}
 
-		s.Log.Debug().Str("filePath", filePath).Msg("Successfully generated OpenAPI schema file")
+		s.Log.Debug().Str("filePath", outputPath).Msg("Successfully generated OpenAPI schema file")
 
 		return nil
 	}
-- 
2.43.0


From b62d95dc5a50f08fe1e135db07ecab9f1e1e7641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 50/74] fix: have the parameters a declining custom function
 looked at not shift those of others

---
 inputs/gin/parseFunction.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 8570d76..21a25a8 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -73,7 +73,9 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 		var shouldBreak bool
 		for _, customFunc := range s.CustomFuncs {
 			var newRoute *astra.Route
-			newRoute, err = customFunc(ctxName, funcBuilder)
+			// Every custom function has its own builder, as the parameters it looks at aren't those that others look at
+			newRoute, err = customFunc(ctxName, astra.NewContextFuncBuilder(currRoute, callExpr))
+			traverser.SetActiveFile(activeFile)
 			if err != nil {
 				return false
 			}
-- 
2.43.0


From 02628ad88be377b01d67a266ab7c73d076e12643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:54 +0000
Subject: [PATCH 51/74] fix: find the calls in the arguments of calls a custom
 function fails for

---
 inputs/gin/parseFunction.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 21a25a8..54de2f9 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -77,7 +77,11 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 			newRoute, err = customFunc(ctxName, astra.NewContextFuncBuilder(currRoute, callExpr))
 			traverser.SetActiveFile(activeFile)
 			if err != nil {
-				return false
+				traverser.Log.Error().Err(err).Msg("error in custom function")
+
+				// It can't tell about this call (i.e. conversions and built-in functions have no function type), but there might be calls in its arguments
+				err = nil
+				return true
 			}
 			if newRoute != nil {
 				// The route might be a copy, so the route that is being parsed has to take its contents
-- 
2.43.0


From 5aefcc7d6b089d98da9d7385be67030a86beacbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:32 +0000
Subject: [PATCH 52/74] fix: load packages from many goroutines without races

---
 astTraversal/loadPackage.go    | 7 +++++++
 astTraversal/packageManager.go | 9 +++++++++
 astTraversal/packageNode.go    | 7 +++++++
 3 files changed, 23 insertions(+)

diff --git a/astTraversal/loadPackage.go b/astTraversal/loadPackage.go
index 0fe9305..688369e 100644
--- a/astTraversal/loadPackage.go
+++ b/astTraversal/loadPackage.go
@@ -2,15 +2,22 @@ package astTraversal
 
 import (
 	"fmt"
+	"sync"
 
 	"golang.org/x/tools/go/packages"
 )
 
 var cachedPackages = make(map[string]*packages.Package)
 
+// cachedPackagesMu guards cachedPackages.
+var cachedPackagesMu sync.Mutex
+
 // LoadPackage loads a package from a path.
 // Because of the way the packages.Load function works, we cache the packages to avoid loading the same package multiple times.
 func LoadPackage(pkgPath string, workDir string) (*packages.Package, error) {
+	cachedPackagesMu.Lock()
+	defer cachedPackagesMu.Unlock()
+
 	if pkg, ok := cachedPackages[pkgPath]; ok {
 		return pkg, nil
 	}
diff --git a/astTraversal/packageManager.go b/astTraversal/packageManager.go
index f28da2a..d0a1845 100644
--- a/astTraversal/packageManager.go
+++ b/astTraversal/packageManager.go
@@ -15,6 +15,9 @@ type PackageManager struct {
 	tree        *PackageNode
 	workDir     string
 	pathLoaders []PackagePathLoader
+
+	// loadMu is held while a package is loaded, mu is taken for its imports meanwhile
+	loadMu sync.Mutex
 }
 
 func NewPackageManager(workDir string) *PackageManager {
@@ -27,6 +30,9 @@ func NewPackageManager(workDir string) *PackageManager {
 }
 
 func (pm *PackageManager) AddPathLoader(loader PackagePathLoader) {
+	pm.loadMu.Lock()
+	defer pm.loadMu.Unlock()
+
 	pm.pathLoaders = append(pm.pathLoaders, loader)
 }
 
@@ -63,6 +69,9 @@ func (pm *PackageManager) AddPackage(pkgPath string) *PackageNode {
 }
 
 func (pm *PackageManager) Get(n *PackageNode) (*packages.Package, error) {
+	pm.loadMu.Lock()
+	defer pm.loadMu.Unlock()
+
 	if n.Package == nil {
 		path := n.Path()
 		for _, loader := range pm.pathLoaders {
diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 9f403bc..5f3da13 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/token"
 	"go/types"
+	"sync"
 
 	"golang.org/x/tools/go/packages"
 )
@@ -22,6 +23,9 @@ type PackageNode struct {
 
 	// fieldDocMap is the same for the fields of structs, by the name of the struct and the name of the field
 	fieldDocMap map[string]map[string]string
+
+	// docMu guards the population of the maps
+	docMu sync.Mutex
 }
 
 func (p *PackageNode) Path() string {
@@ -219,6 +223,9 @@ func (p *PackageNode) FindDocForField(typeName string, fieldName string) (string
 
 // populateTypeDocMap populates the TypeDocMap for the package.
 func (p *PackageNode) populateTypeDocMap() {
+	p.docMu.Lock()
+	defer p.docMu.Unlock()
+
 	// If the map is already populated, we don't need to do anything
 	if p.TypeDocMap != nil {
 		return
-- 
2.43.0


From 61a48c552735e8532c9fdfb029076b2c6f6a1b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:35 +0000
Subject: [PATCH 53/74] fix: keep the packages of different working directories
 apart

---
 astTraversal/loadPackage.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/astTraversal/loadPackage.go b/astTraversal/loadPackage.go
index 688369e..81b8481 100644
--- a/astTraversal/loadPackage.go
+++ b/astTraversal/loadPackage.go
@@ -18,7 +18,10 @@ func LoadPackage(pkgPath string, workDir string) (*packages.Package, error) {
 	cachedPackagesMu.Lock()
 	defer cachedPackagesMu.Unlock()
 
-	if pkg, ok := cachedPackages[pkgPath]; ok {
+	// The same path is another package in another directory
+	cacheKey := workDir + "\x00" + pkgPath
+
+	if pkg, ok := cachedPackages[cacheKey]; ok {
 		return pkg, nil
 	}
 
@@ -27,7 +30,7 @@ func LoadPackage(pkgPath string, workDir string) (*packages.Package, error) {
 		return nil, err
 	}
 
-	cachedPackages[pkgPath] = pkg
+	cachedPackages[cacheKey] = pkg
 
 	return pkg, nil
 }
-- 
2.43.0


From 08cde831632dbdf5ff3de999f074175bde342e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:14 +0000
Subject: [PATCH 54/74] fix: replace the name of the main package in its
 package clause only

---
 mainPackage.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/mainPackage.go b/mainPackage.go
index 625ee31..6bd4ec8 100644
--- a/mainPackage.go
+++ b/mainPackage.go
@@ -1,6 +1,8 @@
 package astra
 
 import (
+	"go/parser"
+	"go/token"
 	"os"
 	"path"
 	"strings"
@@ -42,7 +44,7 @@ func (s *Service) setupTempMainPackage() error {
 				return err
 			}
 
-			fileData = []byte(strings.ReplaceAll(string(fileData), "package main", "package "+mainPackageReplacement))
+			fileData = replacePackageName(fileData)
 
 			newFilePath := path.Join(newMainPkgPath, file.Name())
 			err = os.WriteFile(newFilePath, fileData, 0644)
@@ -74,6 +76,23 @@ func (s *Service) setupTempMainPackage() error {
 	return nil
 }
 
+// replacePackageName replaces the main package's name in the package clause of a file.
+// The same words anywhere else (i.e. in comments or strings) stay as they are.
+func replacePackageName(fileData []byte) []byte {
+	fset := token.NewFileSet()
+	file, err := parser.ParseFile(fset, "", fileData, parser.PackageClauseOnly)
+	if err != nil || (file.Name.Name != "main" && file.Name.Name != "main_test") {
+		return fileData
+	}
+
+	start := fset.File(file.Name.Pos()).Offset(file.Name.Pos())
+
+	replaced := append([]byte{}, fileData[:start]...)
+	replaced = append(replaced, mainPackageReplacement...)
+
+	return append(replaced, fileData[start+len("main"):]...)
+}
+
 // cleanupTempMainPackage removes the temporary main package.
 func (s *Service) cleanupTempMainPackage() error {
 	newMainPkgPath := path.Join(s.getAstraDirPath(), mainPackageReplacement)
-- 
2.43.0


From 102b2fb74c818962b4a72e5c3d362bedce3fc3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:46 +0000
Subject: [PATCH 55/74] fix: tell functions that share the name of a built-in
 function from it

---
 astTraversal/expression.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index b4fe706..868b5de 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -32,6 +32,13 @@ func (e *ExpressionTraverser) SetReturnNum(returnNum int) *ExpressionTraverser {
 
 func (e *ExpressionTraverser) BuiltInFunctions(callExpr *ast.CallExpr) (types.Type, error) {
 	if ident, ok := callExpr.Fun.(*ast.Ident); ok {
+		// A function of the code might have the name of a built-in function
+		if obj, err := e.File.Package.FindObjectForIdent(ident); err == nil {
+			if _, ok := obj.(*types.Builtin); !ok {
+				return nil, nil
+			}
+		}
+
 		switch ident.Name {
 		case "new":
 			fallthrough
-- 
2.43.0


From ca1b9718eb8f4662a58022d2d54f04474bbd158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:01 +0000
Subject: [PATCH 56/74] fix: find the constants and variables of other packages
 by what the name refers to

---
 astTraversal/expression.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 868b5de..b779f90 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -108,21 +108,26 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", err
 		}
 
+		if constObj, ok := obj.(*types.Const); ok {
+			return constantToString(constObj.Val()), nil
+		}
+
+		// Only what a package declares has a value to find, the fields of structs don't
+		if obj.Pkg() == nil || obj.Parent() != obj.Pkg().Scope() {
+			return "", ErrInvalidNodeType
+		}
+
 		pkg := e.Traverser.Packages.FindOrAdd(obj.Pkg().Path())
 		_, err = e.Traverser.Packages.Get(pkg)
 		if err != nil {
 			return "", err
 		}
 
-		obj, err = pkg.FindObjectForIdentFuzzy(n.Sel)
+		obj, err = pkg.FindObjectForName(n.Sel.Name)
 		if err != nil {
 			return "", err
 		}
 
-		if constObj, ok := obj.(*types.Const); ok {
-			return constantToString(constObj.Val()), nil
-		}
-
 		node, err := pkg.ASTAtPos(obj.Pos())
 		if err != nil {
 			return "", err
-- 
2.43.0


From f09ebb8b3ce0f477814f8fccec0a910eabd5773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:50 +0000
Subject: [PATCH 57/74] fix: evaluate any constant expression that is an
 argument

---
 astTraversal/expression.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index b779f90..b772004 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -151,6 +151,13 @@ func (e *ExpressionTraverser) Value() (string, error) {
 		return e.Traverser.Expression(exprNode).Value()
 	}
 
+	// The type checker has the value of any other constant expression (a + b, string(a), (a), ...)
+	if e.File != nil && e.File.Package != nil && e.File.Package.Package != nil {
+		if typeAndValue, ok := e.File.Package.Package.TypesInfo.Types[e.Node]; ok && typeAndValue.Value != nil {
+			return constantToString(typeAndValue.Value), nil
+		}
+	}
+
 	return "", errors.New("value not retrievable")
 }
 
-- 
2.43.0


From a5816cac64e06282c9f68ad5a155a2f69c0985a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:57 +0000
Subject: [PATCH 58/74] fix: find the values of variables that are declared
 after others

---
 astTraversal/packageNode.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/astTraversal/packageNode.go b/astTraversal/packageNode.go
index 5f3da13..a827036 100644
--- a/astTraversal/packageNode.go
+++ b/astTraversal/packageNode.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/token"
 	"go/types"
+	"slices"
 	"sync"
 
 	"golang.org/x/tools/go/packages"
@@ -186,7 +187,7 @@ func (p *PackageNode) ASTAtPos(pos token.Pos) (ast.Node, error) {
 					return true
 				}
 
-				if n.Pos() == pos {
+				if n.Pos() == pos || declaresAt(n, pos) {
 					result = n
 					return false
 				}
@@ -205,6 +206,18 @@ func (p *PackageNode) ASTAtPos(pos token.Pos) (ast.Node, error) {
 	return nil, fmt.Errorf("node at %s not found in package %s", node, p.Path())
 }
 
+// declaresAt returns whether the node declares (or assigns) several variables, one of which is at the position.
+func declaresAt(node ast.Node, pos token.Pos) bool {
+	switch n := node.(type) {
+	case *ast.ValueSpec:
+		return slices.ContainsFunc(n.Names, func(name *ast.Ident) bool { return name.Pos() == pos })
+	case *ast.AssignStmt:
+		return slices.ContainsFunc(n.Lhs, func(name ast.Expr) bool { return name.Pos() == pos })
+	default:
+		return false
+	}
+}
+
 // FindDocForType finds the documentation for a type in the package.
 func (p *PackageNode) FindDocForType(typeName string) (string, bool) {
 	p.populateTypeDocMap()
-- 
2.43.0


From 852b6093f9b3c40ac6961b61406446ac1bfd27bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:22 +0000
Subject: [PATCH 59/74] fix: describe untyped constants by their default type

---
 astTraversal/expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index b772004..1d5a11f 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -172,13 +172,13 @@ func (e *ExpressionTraverser) Type() (types.Type, error) {
 		if err != nil {
 			return nil, err
 		}
-		return obj.Type(), nil
+		return types.Default(obj.Type()), nil
 	case *ast.SelectorExpr:
 		obj, err := e.File.Package.FindObjectForIdent(n.Sel)
 		if err != nil {
 			return nil, err
 		}
-		return obj.Type(), nil
+		return types.Default(obj.Type()), nil
 	case *ast.ArrayType:
 		return e.File.Package.FindTypeForExpr(n)
 	case *ast.MapType:
-- 
2.43.0


From 49ea4bfa8856866668ace2a8f69029266aea43a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:36 +0000
Subject: [PATCH 60/74] fix: describe what is received from a channel, not the
 channel

---
 astTraversal/expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index 1d5a11f..d93888f 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -166,6 +166,11 @@ func (e *ExpressionTraverser) Type() (types.Type, error) {
 	case *ast.StarExpr:
 		return e.Traverser.Expression(n.X).Type()
 	case *ast.UnaryExpr:
+		// What is received from a channel isn't the channel
+		if n.Op == token.ARROW {
+			return e.File.Package.FindTypeForExpr(n)
+		}
+
 		return e.Traverser.Expression(n.X).Type()
 	case *ast.Ident:
 		obj, err := e.File.Package.FindObjectForIdentFuzzy(n)
-- 
2.43.0


From 04ce042126ea9a214d4aa403072c0aa3b22c3f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:21 +0000
Subject: [PATCH 61/74] fix: do not document what is no status code of a
 response

---
 astTraversal/extractStatusCode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/astTraversal/extractStatusCode.go b/astTraversal/extractStatusCode.go
index 3e0d7ac..80e0c74 100644
--- a/astTraversal/extractStatusCode.go
+++ b/astTraversal/extractStatusCode.go
@@ -1,6 +1,7 @@
 package astTraversal
 
 import (
+	"errors"
 	"go/ast"
 	"strconv"
 )
@@ -24,5 +25,10 @@ func (t *BaseTraverser) ExtractStatusCode(status ast.Node) (int, error) {
 		return 0, err
 	}
 
+	// Nothing else can be sent or described as the status of a response
+	if statusCode < 100 || statusCode > 599 {
+		return 0, errors.New("invalid status code")
+	}
+
 	return statusCode, nil
 }
-- 
2.43.0


From 5aef894be6a77062a45565762f9d9718a74612d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:21 +0000
Subject: [PATCH 62/74] fix: find the type of calls of generic functions

---
 astTraversal/callExpression.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/astTraversal/callExpression.go b/astTraversal/callExpression.go
index fb7dc06..f806c68 100644
--- a/astTraversal/callExpression.go
+++ b/astTraversal/callExpression.go
@@ -101,6 +101,20 @@ func (c *CallExpressionTraverser) ReturnType(returnNum int) (types.Type, error)
 		return nil, ErrInvalidIndex
 	}
 
+	// What a generic function returns depends on the call
+	if signature.TypeParams().Len() > 0 {
+		callType, err := c.File.Package.FindTypeForExpr(c.Node)
+		if err != nil {
+			return nil, err
+		}
+
+		if tuple, ok := callType.(*types.Tuple); ok {
+			return tuple.At(returnNum).Type(), nil
+		}
+
+		return callType, nil
+	}
+
 	return signature.Results().At(returnNum).Type(), nil
 }
 
-- 
2.43.0


From e11d7723d1b116b3d008d3d23be743411252e99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:21 +0000
Subject: [PATCH 63/74] fix: understand numbers that aren't written in plain
 decimals

---
 astTraversal/expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index d93888f..eacb0c2 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -70,6 +70,11 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return strconv.Unquote(value)
 		}
 
+		// The same number can be written in many ways (e.g. 0xC8, 2_00)
+		if literal := constant.MakeFromLiteral(value, n.Kind, 0); n.Kind == token.INT && literal.Kind() == constant.Int {
+			return literal.ExactString(), nil
+		}
+
 		return value, nil
 	case *ast.Ident:
 		obj, err := e.File.Package.FindObjectForIdent(n)
-- 
2.43.0


From a907868c249e583854b625b4e612b545e436da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:21 +0000
Subject: [PATCH 64/74] fix: evaluate variables of other packages in their own
 package

---
 astTraversal/expression.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/astTraversal/expression.go b/astTraversal/expression.go
index eacb0c2..9038e48 100644
--- a/astTraversal/expression.go
+++ b/astTraversal/expression.go
@@ -153,7 +153,11 @@ func (e *ExpressionTraverser) Value() (string, error) {
 			return "", errors.New("astNode is not of type ast.Expr")
 		}
 
-		return e.Traverser.Expression(exprNode).Value()
+		// The expression is one of the package that declares the variable
+		expr := e.Traverser.Expression(exprNode)
+		expr.File = &FileNode{Package: pkg}
+
+		return expr.Value()
 	}
 
 	// The type checker has the value of any other constant expression (a + b, string(a), (a), ...)
-- 
2.43.0


From 5726fb1e37d6db12209435ffc928128c35667e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:22 +0000
Subject: [PATCH 65/74] fix: follow helpers that are instances of generic
 functions

---
 astTraversal/traverser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/astTraversal/traverser.go b/astTraversal/traverser.go
index 34b6fde..d82b42d 100644
--- a/astTraversal/traverser.go
+++ b/astTraversal/traverser.go
@@ -90,6 +90,12 @@ func (t *BaseTraverser) FindDeclarationForNode(node ast.Node) (*DeclarationTrave
 	switch nodeType := node.(type) {
 	case *ast.UnaryExpr:
 		return t.FindDeclarationForNode(nodeType.X)
+	case *ast.ParenExpr:
+		return t.FindDeclarationForNode(nodeType.X)
+	case *ast.IndexExpr: // An instance of a generic function.
+		return t.FindDeclarationForNode(nodeType.X)
+	case *ast.IndexListExpr:
+		return t.FindDeclarationForNode(nodeType.X)
 	case *ast.Ident:
 		if nodeType.Obj != nil { // Defined in file.
 			declNode, ok := nodeType.Obj.Decl.(ast.Node)
-- 
2.43.0


From e3825334e61d283129a9a0822385b29965185a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:22 +0000
Subject: [PATCH 66/74] fix: list all constants of an enum

---
 astTraversal/type.go | 134 +++++++++++++++++++++++--------------------
 1 file changed, 71 insertions(+), 63 deletions(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index a285e96..379f91e 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -2,9 +2,10 @@ package astTraversal
 
 import (
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"go/types"
-	"strconv"
+	"slices"
 )
 
 type TypeTraverser struct {
@@ -47,6 +48,8 @@ func (t *TypeTraverser) Result() (Result, error) {
 				return Result{}, err
 			}
 
+			var hasFlags bool
+
 			// Iterate through the package's AST to find the enum values
 			// We start by iterating over every file in the package
 			for _, file := range t.Package.Package.Syntax {
@@ -61,74 +64,40 @@ func (t *TypeTraverser) Result() (Result, error) {
 
 						// If the declaration is a const, we iterate over every spec
 						for _, spec := range genDecl.Specs {
-							// If the spec is a ValueSpec, we check if the type is the same as the named type
-							if valueSpec, ok := spec.(*ast.ValueSpec); ok {
-								// If the type is the same as the named type, we iterate over every value
-								if valueSpec.Type != nil {
-									// We check this by comparing the name of the type to the name of the named type
-									// It must be an Ident, otherwise it's not a named type, or it's from another package, not the one we're looking for
-									if ident, ok := valueSpec.Type.(*ast.Ident); ok {
-										if ident.Name == t.name {
-											// We iterate over every value in the value spec
-											for _, value := range valueSpec.Values {
-												// If the value is a basic literal, we add it to the enum values
-												if basicLit, ok := value.(*ast.BasicLit); ok {
-													// Switch over the basic literal's kind to determine the type of the value
-													// And format it accordingly
-													switch n.Kind() {
-													case types.String:
-														str, err := strconv.Unquote(basicLit.Value)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, str)
-													case types.Int:
-														i, err := strconv.Atoi(basicLit.Value)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													case types.Float32, types.Float64:
-														f, err := strconv.ParseFloat(basicLit.Value, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, f)
-													case types.Bool:
-														b, err := strconv.ParseBool(basicLit.Value)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, b)
-													case types.Int8, types.Int16, types.Int32, types.Int64:
-														i, err := strconv.ParseInt(basicLit.Value, 10, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
-														i, err := strconv.ParseUint(basicLit.Value, 10, 64)
-														if err != nil {
-															continue
-														}
-
-														result.EnumValues = append(result.EnumValues, i)
-													}
-												}
-											}
-										}
-									}
+							valueSpec, ok := spec.(*ast.ValueSpec)
+							if !ok {
+								continue
+							}
+
+							// We iterate over every constant, the type checker knows its type and value (e.g. of iota)
+							for _, name := range valueSpec.Names {
+								constObj, ok := t.Package.Package.TypesInfo.Defs[name].(*types.Const)
+								if !ok || name.Name == "_" {
+									continue
+								}
+
+								// If the type of the constant is the named type, we add its value to the enum values
+								typeObj := t.Package.Package.Types.Scope().Lookup(t.name)
+								if typeObj == nil || !types.Identical(constObj.Type(), typeObj.Type()) {
+									continue
 								}
+
+								value := enumValue(n.Kind(), constObj.Val())
+								if value != nil && !slices.Contains(result.EnumValues, value) {
+									result.EnumValues = append(result.EnumValues, value)
+								}
+
+								hasFlags = hasFlags || hasShift(valueSpec.Values)
 							}
 						}
 					}
 				}
 			}
+
+			// Flags are combined, so the constants aren't all the values there are
+			if hasFlags {
+				result.EnumValues = nil
+			}
 		}
 
 	case *types.Named:
@@ -316,3 +285,42 @@ func (t *TypeTraverser) Doc() (string, error) {
 
 	return "", nil
 }
+
+// enumValue returns the value of a constant whose underlying type is a basic type of the kind.
+func enumValue(kind types.BasicKind, value constant.Value) any {
+	switch kind {
+	case types.String:
+		return constant.StringVal(value)
+	case types.Int:
+		i, _ := constant.Int64Val(value)
+		return int(i)
+	case types.Float32, types.Float64:
+		f, _ := constant.Float64Val(value)
+		return f
+	case types.Bool:
+		return constant.BoolVal(value)
+	case types.Int8, types.Int16, types.Int32, types.Int64:
+		i, _ := constant.Int64Val(value)
+		return i
+	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
+		i, _ := constant.Uint64Val(value)
+		return i
+	}
+
+	return nil
+}
+
+// hasShift returns whether constants are made with a shift, as flags are (e.g. 1 << iota).
+func hasShift(values []ast.Expr) bool {
+	var found bool
+	for _, value := range values {
+		ast.Inspect(value, func(node ast.Node) bool {
+			binaryExpr, ok := node.(*ast.BinaryExpr)
+			found = found || ok && binaryExpr.Op == token.SHL
+
+			return !found
+		})
+	}
+
+	return found
+}
-- 
2.43.0


From ffaa071eb83b6fd1125f8660c0d730b7eefc5ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:21 +0000
Subject: [PATCH 67/74] fix: a tag is a name when a dash has options

---
 astTraversal/tags.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astTraversal/tags.go b/astTraversal/tags.go
index 4be5a0f..b6e0c47 100644
--- a/astTraversal/tags.go
+++ b/astTraversal/tags.go
@@ -56,7 +56,7 @@ func ParseStructTag(field string, tag string) (BindingTagMap, ValidationTagMap)
 		tagItems := strings.Split(tagValue, ",")
 		if tagItems[0] == "" {
 			newBindingTag.Name = field
-		} else if tagItems[0] != "-" {
+		} else if tagValue != "-" { // With options ("-,") it is the name.
 			newBindingTag.Name = tagItems[0]
 		} else {
 			newBindingTag.NotShown = true
-- 
2.43.0


From 95992ca0249a4f55f5a4f22343a165387ef16ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:44 +0000
Subject: [PATCH 68/74] fix: find the file of an inlined handler from the
 working directory of the service

---
 inputs/gin/parseRoute.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index d7418a0..9cd56cf 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -3,6 +3,7 @@ package gin
 import (
 	"fmt"
 	"go/ast"
+	"os"
 	"path"
 	"path/filepath"
 	"strings"
@@ -282,14 +283,22 @@ func takesContext(function *astTraversal.FunctionTraverser) bool {
 // setInlinedFile makes the file of the route the active file if it isn't in the directory of the handler's package.
 // A handler is named after the function that the compiler inlined its function into, even if that is in another package.
 func setInlinedFile(s *astra.Service, traverser *astTraversal.BaseTraverser, baseRoute *astra.Route) {
-	file, err := filepath.Abs(baseRoute.File)
+	workDir, err := filepath.Abs(s.WorkDir)
 	if err != nil {
 		return
 	}
 
+	// The file is relative to the working directory of the application, which might not be that of this process (i.e. the CLI)
+	file := filepath.Join(workDir, baseRoute.File)
+	if _, err = os.Stat(file); err != nil {
+		file, err = filepath.Abs(baseRoute.File)
+		if err != nil {
+			return
+		}
+	}
+
 	// The main package has been copied from the working directory
-	workDir, err := filepath.Abs(s.WorkDir)
-	if err != nil || filepath.Dir(file) == workDir {
+	if filepath.Dir(file) == workDir {
 		return
 	}
 
-- 
2.43.0


From e88eea949a9b4a63a3b851ab90bcf05e6a0df6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:49 +0000
Subject: [PATCH 69/74] fix: keep integer enum values integers when they are
 read from the cache

---
 types.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 3fe9c62..9d93e4c 100644
--- a/types.go
+++ b/types.go
@@ -1,6 +1,12 @@
 package astra
 
-import "github.com/ls6-events/astra/astTraversal"
+import (
+	"bytes"
+	"encoding/json"
+	"strconv"
+
+	"github.com/ls6-events/astra/astTraversal"
+)
 
 // These are types that are used throughout the astra package.
 
@@ -95,3 +101,32 @@ type Field struct {
 
 	Doc string `json:"doc,omitempty" yaml:"doc,omitempty"`
 }
+
+// UnmarshalJSON reads a field from JSON (e.g. of the cache), where the enum values that are integers stay integers.
+func (f *Field) UnmarshalJSON(data []byte) error {
+	// The other type has no methods, so it is read as usual.
+	type field Field
+
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	if err := decoder.Decode((*field)(f)); err != nil {
+		return err
+	}
+
+	for i, enumValue := range f.EnumValues {
+		number, ok := enumValue.(json.Number)
+		if !ok {
+			continue
+		}
+
+		if value, err := strconv.ParseInt(number.String(), 10, 64); err == nil {
+			f.EnumValues[i] = value
+		} else if value, err := strconv.ParseUint(number.String(), 10, 64); err == nil {
+			f.EnumValues[i] = value
+		} else if value, err := number.Float64(); err == nil {
+			f.EnumValues[i] = value
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From a07a1229f9a26a8d0e80fdbff20b0535b0125f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:49 +0000
Subject: [PATCH 70/74] fix: don't describe the types of hidden struct fields

---
 astTraversal/type.go | 48 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/astTraversal/type.go b/astTraversal/type.go
index 379f91e..58ad83f 100644
--- a/astTraversal/type.go
+++ b/astTraversal/type.go
@@ -170,6 +170,7 @@ func (t *TypeTraverser) Result() (Result, error) {
 		}
 	case *types.Struct:
 		fields := make(map[string]Result)
+		hiddenFields := findHiddenFields(n)
 		for i := 0; i < n.NumFields(); i++ {
 			f := n.Field(i)
 			name := f.Id()
@@ -185,13 +186,21 @@ func (t *TypeTraverser) Result() (Result, error) {
 				continue
 			}
 
-			structFieldResult, err := t.Traverser.Type(f.Type(), t.Package).Result()
-			if err != nil {
-				return Result{}, err
+			// The type of a hidden field doesn't matter, it might not even be possible to describe it (e.g. a function)
+			structFieldResult := Result{
+				Type:    "any",
+				Package: t.Package,
+			}
+			if !hiddenFields[name] {
+				var err error
+				structFieldResult, err = t.Traverser.Type(f.Type(), t.Package).Result()
+				if err != nil {
+					return Result{}, err
+				}
 			}
 
 			if structFieldResult.Package != nil {
-				_, err = t.Traverser.Packages.Get(structFieldResult.Package)
+				_, err := t.Traverser.Packages.Get(structFieldResult.Package)
 				if err != nil {
 					return Result{}, err
 				}
@@ -242,6 +251,37 @@ func (t *TypeTraverser) Result() (Result, error) {
 	}
 }
 
+// findHiddenFields finds the fields that aren't shown by any of the bindings the struct has tags for (e.g. json:"-").
+func findHiddenFields(node *types.Struct) map[string]bool {
+	fieldTags := make(map[string]BindingTagMap)
+	structBindings := make(map[BindingTagType]struct{})
+	for i := 0; i < node.NumFields(); i++ {
+		f := node.Field(i)
+		if !f.Exported() {
+			continue
+		}
+
+		fieldTags[f.Id()], _ = ParseStructTag(f.Id(), node.Tag(i))
+		for bindingType := range fieldTags[f.Id()] {
+			if bindingType != NoBindingTag {
+				structBindings[bindingType] = struct{}{}
+			}
+		}
+	}
+
+	hiddenFields := make(map[string]bool)
+	for name, bindingTags := range fieldTags {
+		hiddenFields[name] = len(structBindings) > 0
+		for bindingType := range structBindings {
+			if !bindingTags[bindingType].NotShown {
+				hiddenFields[name] = false
+			}
+		}
+	}
+
+	return hiddenFields
+}
+
 // isStruct returns whether the type is a struct, or a pointer to one.
 func isStruct(node types.Type) bool {
 	if pointer, ok := node.(*types.Pointer); ok {
-- 
2.43.0


From 1345446d9fd022aab82b5bf4d7274eb1da542909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:50 +0000
Subject: [PATCH 71/74] fix: make the names of components legal in OpenAPI

---
 outputs/openapi/components.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index adbacec..fb84505 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -1,6 +1,7 @@
 package openapi
 
 import (
+	"fmt"
 	"slices"
 	"strings"
 
@@ -106,18 +107,18 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 
 					if uniqueBindings {
 						// If there are unique bindings, we need to add the binding type to the collision safe name.
-						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = strings.Join(splitPackage, ".") + "." + string(bindingType) + "." + component.Name
+						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = legalComponentName(strings.Join(splitPackage, ".") + "." + string(bindingType) + "." + component.Name)
 					} else {
 						// If there are no unique bindings, we can just use the package name.
-						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = strings.Join(splitPackage, ".") + "." + component.Name
+						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = legalComponentName(strings.Join(splitPackage, ".") + "." + component.Name)
 					}
 				} else {
 					if uniqueBindings {
 						// If there are unique bindings, we need to add the binding type to the collision safe name.
-						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = getPackageName(component.Package) + "." + string(bindingType) + "." + component.Name
+						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = legalComponentName(getPackageName(component.Package) + "." + string(bindingType) + "." + component.Name)
 					} else {
 						// If there are no unique bindings, we can just use the package name.
-						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = getPackageName(component.Package) + "." + component.Name
+						collisionSafeNames[collisionSafeKey(bindingType, component.Name, component.Package)] = legalComponentName(getPackageName(component.Package) + "." + component.Name)
 					}
 				}
 			}
@@ -125,6 +126,20 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 	}
 }
 
+// legalComponentName replaces the characters that Go allows in the names of types and packages, but OpenAPI doesn't in those of components.
+func legalComponentName(name string) string {
+	var legalName strings.Builder
+	for _, char := range name {
+		if char >= 'a' && char <= 'z' || char >= 'A' && char <= 'Z' || char >= '0' && char <= '9' || strings.ContainsRune("._-", char) {
+			legalName.WriteRune(char)
+		} else {
+			legalName.WriteString(fmt.Sprintf("_u%04X", char))
+		}
+	}
+
+	return legalName.String()
+}
+
 // extractComponentBindings extracts the binding tags of the component and whether it needs a schema of its own for every one of them.
 // It does if the tags of a field differ, or if there isn't any binding that all of the fields have a tag for.
 func extractComponentBindings(component astra.Field) ([]astTraversal.BindingTagType, bool) {
-- 
2.43.0


From fce8fb07b20ce24b14f3244e729ebb5baa34cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:51 +0000
Subject: [PATCH 72/74] fix: tell different components with equal names apart

---
 outputs/openapi/components.go | 47 +++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/outputs/openapi/components.go b/outputs/openapi/components.go
index fb84505..2f94f83 100644
--- a/outputs/openapi/components.go
+++ b/outputs/openapi/components.go
@@ -14,15 +14,14 @@ var collisionSafeNames = make(map[string]string)
 
 // collisionSafeKey creates a key for the collisionSafeNames map.
 func collisionSafeKey(bindingType astTraversal.BindingTagType, name, pkg string) string {
-	var keyComponents []string
+	key := strings.Join([]string{pkg, name}, ".")
 
+	// A package path doesn't contain spaces, so the key of a binding isn't the key of a component of another package (e.g. of a package "astra.json").
 	if bindingType != astTraversal.NoBindingTag {
-		keyComponents = []string{pkg, string(bindingType), name}
-	} else {
-		keyComponents = []string{pkg, name}
+		key = strings.Join([]string{key, string(bindingType)}, " ")
 	}
 
-	return strings.Join(keyComponents, ".")
+	return key
 }
 
 // getPackageName gets the package name from the package path (i.e. github.com/ls6-events/astra -> astra).
@@ -124,6 +123,44 @@ func makeCollisionSafeNamesFromComponents(components []astra.Field) {
 			}
 		}
 	}
+
+	separateEqualNames(components)
+}
+
+// separateEqualNames numbers the collision safe names of different components that are the same nevertheless (e.g. those of the packages example.com/a and example.com.a).
+func separateEqualNames(components []astra.Field) {
+	sortedComponents := slices.Clone(components)
+	slices.SortFunc(sortedComponents, func(a, b astra.Field) int {
+		return strings.Compare(collisionSafeKey(astTraversal.NoBindingTag, a.Name, a.Package), collisionSafeKey(astTraversal.NoBindingTag, b.Name, b.Package))
+	})
+
+	owners := make(map[string]string)
+	for _, component := range sortedComponents {
+		bindingTags, uniqueBindings := extractComponentBindings(component)
+		bindingTags = slices.Clone(bindingTags)
+		slices.Sort(bindingTags)
+		for _, bindingType := range bindingTags {
+			key := collisionSafeKey(bindingType, component.Name, component.Package)
+			safeName, exists := collisionSafeNames[key]
+			if !exists {
+				continue
+			}
+
+			// Without unique bindings, all of the bindings share the name of the component.
+			owner := key
+			if !uniqueBindings {
+				owner = collisionSafeKey(astTraversal.NoBindingTag, component.Name, component.Package)
+			}
+
+			name := safeName
+			for number := 2; owners[name] != "" && owners[name] != owner; number++ {
+				name = fmt.Sprintf("%s.%d", safeName, number)
+			}
+
+			owners[name] = owner
+			collisionSafeNames[key] = name
+		}
+	}
 }
 
 // legalComponentName replaces the characters that Go allows in the names of types and packages, but OpenAPI doesn't in those of components.
-- 
2.43.0


From 26879c5991851a301aa8c238aac1f6a784fe5f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:02 +0000
Subject: [PATCH 73/74] fix: describe the payloads of protocol buffers

---
 bindingTags.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindingTags.go b/bindingTags.go
index 7018f52..329f93c 100644
--- a/bindingTags.go
+++ b/bindingTags.go
@@ -33,6 +33,7 @@ func ExtractBindingTags(fields map[string]Field) (bindingTags []astTraversal.Bin
 func ContentTypeToBindingTag(contentType string) astTraversal.BindingTagType {
 	mimetypeToBindingTagMap := map[string]astTraversal.BindingTagType{
 		"application/json":                  astTraversal.JSONBindingTag,
+		"application/protobuf":              astTraversal.JSONBindingTag, // The names of the fields of a message are those of its JSON mapping.
 		"application/xml":                   astTraversal.XMLBindingTag,
 		"application/x-www-form-urlencoded": astTraversal.FormBindingTag,
 		"multipart/form-data":               astTraversal.FormBindingTag,
-- 
2.43.0


From 56d327b4ab5c1775e9c01e06cdd59469a6a63402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:37 +0000
Subject: [PATCH 74/74] fix: follow every helper of a handler only once

---
 inputs/gin/parseFunction.go | 14 +++++++++-----
 inputs/gin/parseRoute.go    |  6 +++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/inputs/gin/parseFunction.go b/inputs/gin/parseFunction.go
index 54de2f9..b05e3e1 100644
--- a/inputs/gin/parseFunction.go
+++ b/inputs/gin/parseFunction.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"go/ast"
 	"go/types"
-	"slices"
 	"strings"
 
 	"github.com/ls6-events/astra"
@@ -26,10 +25,15 @@ const (
 // And the package name and path are used to determine the package of the currently analysed function.
 // The currRoute reference is used to manipulate the current route being analysed.
 // The imports are used to determine the package of the context variable.
-// The callers are the function declarations that are being parsed at the moment, so that a recursive function is only followed once.
-func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int, callers ...*ast.FuncDecl) error {
+// The followed functions are those that have been parsed already for the route (by their bodies), so that every one of them is only followed once.
+func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTraverser, currRoute *astra.Route, activeFile *astTraversal.FileNode, level int, followed map[*ast.BlockStmt]struct{}) error {
 	traverser := funcTraverser.Traverser
 
+	if followed == nil {
+		followed = make(map[*ast.BlockStmt]struct{})
+	}
+	followed[funcTraverser.Node.Body] = struct{}{}
+
 	traverser.SetActiveFile(activeFile)
 	traverser.SetAddComponentFunction(addComponent(s))
 
@@ -108,12 +112,12 @@ func parseFunction(s *astra.Service, funcTraverser *astTraversal.FunctionTravers
 				return true
 			}
 
-			if function.DeclNode == funcTraverser.DeclNode || slices.Contains(callers, function.DeclNode) {
+			if _, ok = followed[function.Node.Body]; ok {
 				traverser.SetActiveFile(activeFile)
 				return true
 			}
 
-			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1, append(slices.Clone(callers), funcTraverser.DeclNode)...)
+			err = parseFunction(s, function, currRoute, function.Traverser.ActiveFile(), level+1, followed)
 			traverser.SetActiveFile(activeFile)
 			if err != nil {
 				traverser.Log.Error().Err(err).Msg("error parsing function")
diff --git a/inputs/gin/parseRoute.go b/inputs/gin/parseRoute.go
index 9cd56cf..67331db 100644
--- a/inputs/gin/parseRoute.go
+++ b/inputs/gin/parseRoute.go
@@ -139,7 +139,7 @@ func parseRoute(s *astra.Service, baseRoute *astra.Route) error {
 			// And define the function name as the operation ID
 			baseRoute.OperationID = strcase.ToLowerCamel(funcName)
 
-			err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
+			err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0, nil)
 			if err != nil {
 				log.Error().Err(err).Msg("Failed to parse function")
 				return false
@@ -214,7 +214,7 @@ func parseMethodValue(s *astra.Service, traverser *astTraversal.BaseTraverser, b
 			// Many controllers have methods with the same name, so the operation ID needs the name of the receiver
 			baseRoute.OperationID = strcase.ToLowerCamel(receiver + strcase.ToCamel(method))
 
-			err = parseFunction(s, function, baseRoute, file, 0)
+			err = parseFunction(s, function, baseRoute, file, 0, nil)
 			if err != nil {
 				log.Error().Err(err).Msg("Failed to parse method")
 			}
@@ -257,7 +257,7 @@ func parseInlineHandlers(s *astra.Service, traverser *astTraversal.BaseTraverser
 				log.Debug().Msg("Found inline handler function")
 				found = true
 
-				err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0)
+				err = parseFunction(s, function, baseRoute, traverser.ActiveFile(), 0, nil)
 				if err != nil {
 					log.Error().Err(err).Msg("Failed to parse inline function")
 					return false
-- 
2.43.0

