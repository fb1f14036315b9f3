From b76d7be8b558a09dbfa6a2274f47c3d37461ae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 01/27] fix: reject mixed bindvar styles when $N comes first

Dollar is the zero value of BindVarStyle, so 'style not decided yet' and
'dollar' were the same state and '$1,?' was accepted.
---
 syntax/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index add16a3..6183013 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -84,7 +84,7 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	case "$":
 		t = Dollar
 		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
+		if p.bindVarIndex == 1 {
 			p.bindVarStyle = t
 		}
 		if p.bindVarStyle != t {
@@ -93,7 +93,7 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	case "?":
 		t = Question
 		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
+		if p.bindVarIndex == 1 {
 			p.bindVarStyle = t
 		}
 		if p.bindVarStyle != t {
-- 
2.43.0


From d91dbc1610fd3c43d7d9149f6efdffa28958ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 02/27] fix: do not truncate raw text at a NUL character

EOF was rune 0, so everything after a NUL in a template was silently dropped.
---
 syntax/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/lexer.go b/syntax/lexer.go
index 285bdc6..3dfd367 100644
--- a/syntax/lexer.go
+++ b/syntax/lexer.go
@@ -5,8 +5,8 @@ import (
 	"unicode/utf8"
 )
 
-// EOF is the EOF rune
-const EOF rune = 0
+// EOF is the EOF rune, it's not a valid rune so that no input can contain it.
+const EOF rune = -1
 
 // lexerHelper is the lexical analyzer
 type lexerHelper struct {
-- 
2.43.0


From 8a3a6d035782d52cc9c804a3cab123a588f2b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 03/27] fix: parse what follows a function value instead of
 taking it as plain text

In '#f?' the bindvar was emitted as a literal '?' with no arg behind it, and
'#f#arg' or '#f$1' were rejected.
---
 syntax/parser.go  | 7 ++-----
 syntax/scanner.go | 5 +++++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index 6183013..730dcb6 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -190,18 +190,15 @@ func (p *parser) funcExpr() error {
 			},
 		)
 	default:
-		// EOF or _Plain
 		p.c.ExprList = append(
 			p.c.ExprList,
 			&FuncExpr{
 				Name: nameToken.lit,
 				expr: expr{node{pos}},
 			},
-			&PlainExpr{
-				Text: p.token.lit,
-				expr: expr{node{p.token.pos}},
-			},
 		)
+		// the token doesn't belong to the function, leave it to Parse()
+		p.unreadToken()
 	}
 
 	return nil
diff --git a/syntax/scanner.go b/syntax/scanner.go
index 915cff5..cbedaef 100644
--- a/syntax/scanner.go
+++ b/syntax/scanner.go
@@ -47,6 +47,11 @@ func (s *scanner) NextToken() bool {
 	return false
 }
 
+// unreadToken puts back the current token, so that it's the next token again.
+func (s *scanner) unreadToken() {
+	s.tokens = append([]*token{s.token}, s.tokens...)
+}
+
 func scanPlain(s *scanner) scanFn {
 	s.StartToken()
 	for r := s.rune; r != EOF; r = s.Next() {
-- 
2.43.0


From 469519f611115740da10a371a470775e8e333be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 04/27] fix: report a number passed to a string or bool
 parameter instead of panicking

reflect.Value.Convert panics on float64 -> string/bool and the conversion
runs outside of safeCall, e.g. '#join(1, 2)'. Convert bools and strings as
well, so that functions with named string/bool parameters, which are accepted
at registration, can be called.
---
 func_exec.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/func_exec.go b/func_exec.go
index bbd6399..25a0d40 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -116,16 +116,18 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 		uint, uint8, uint16, uint32, uint64,
 		float32, float64:
 		argType = "number"
-		v = reflect.ValueOf(arg).Convert(typ)
+		if numberType(typ.Kind()) {
+			v = reflect.ValueOf(arg).Convert(typ)
+		}
 	case bool:
 		argType = "bool"
 		if typ.Kind() == reflect.Bool {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case string:
 		argType = "string"
 		if typ.Kind() == reflect.String {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case nil:
 		argType = "nil"
-- 
2.43.0


From 458633a6e4e2a19bd68ff3e026f5d3fc8ee7aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 05/27] fix: do not wrap or truncate numbers passed to integer
 parameters

An index beyond the range of the parameter type wrapped around, e.g. #join
silently stopped after 127 items with a func(int8) (string, error), and
#f(1.9) was taken as #f1.
---
 func.go      | 4 ++++
 func_exec.go | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/func.go b/func.go
index 62b6f38..e7f9520 100644
--- a/func.go
+++ b/func.go
@@ -195,6 +195,10 @@ func numberType(k reflect.Kind) bool {
 	return false
 }
 
+func floatType(k reflect.Kind) bool {
+	return k == reflect.Float32 || k == reflect.Float64
+}
+
 func joinCompatibility(f *funcInfo) error {
 	errSig := errors.New("incompatible function signature, expected func(<number>) (string, error) or func(*sqlf.Context, <number>) (string, error)")
 	if f.nOut != 2 || f.outTypes[1] != errorType {
diff --git a/func_exec.go b/func_exec.go
index 25a0d40..50ca293 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -117,7 +117,11 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 		float32, float64:
 		argType = "number"
 		if numberType(typ.Kind()) {
-			v = reflect.ValueOf(arg).Convert(typ)
+			from := reflect.ValueOf(arg)
+			v = from.Convert(typ)
+			if !floatType(typ.Kind()) && v.Convert(from.Type()).Interface() != arg {
+				return reflect.Value{}, fmt.Errorf("%v is not a valid %s", arg, typ)
+			}
 		}
 	case bool:
 		argType = "bool"
-- 
2.43.0


From 0ca4270f9a0ea558145ef0d961e903df676ada2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 06/27] fix: reject function names that can never be referenced

The scanner reads only ASCII letters and underscores as a function name, a
function registered with any other letter in its name was not callable.
---
 func.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/func.go b/func.go
index e7f9520..df5fe36 100644
--- a/func.go
+++ b/func.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
-	"unicode"
 
 	"github.com/qjebbs/go-sqlf/v2/syntax"
 )
@@ -20,7 +19,7 @@ var (
 
 // FuncMap is the type of the map defining the mapping from names to functions.
 //
-// The function names are case sensitive, only letters and underscore are allowed.
+// The function names are case sensitive, only ASCII letters and underscore are allowed.
 //
 // Allowed function signatures:
 //
@@ -89,7 +88,7 @@ func createValueFuncs(funcMap FuncMap) (map[string]*funcInfo, error) {
 func addValueFuncs(out map[string]*funcInfo, in FuncMap) error {
 	for name, fn := range in {
 		if !goodName(name) {
-			return fmt.Errorf("function name %q is not a valid identifier, only letters and underscore are allowed", name)
+			return fmt.Errorf("function name %q is not a valid identifier, only ASCII letters and underscore are allowed", name)
 		}
 		v := reflect.ValueOf(fn)
 		if v.Kind() != reflect.Func {
@@ -133,13 +132,14 @@ func addValueFuncs(out map[string]*funcInfo, in FuncMap) error {
 	return nil
 }
 
-// goodName reports whether the function name is a valid identifier.
+// goodName reports whether the function name is a valid identifier, that is,
+// whether the scanner is able to read it as a function name.
 func goodName(name string) bool {
 	if name == "" {
 		return false
 	}
 	for _, r := range name {
-		if r != '_' && !unicode.IsLetter(r) {
+		if r != '_' && !('a' <= r && r <= 'z') && !('A' <= r && r <= 'Z') {
 			return false
 		}
 	}
-- 
2.43.0


From c0f52477647a8229724cffe13f6a909d2f214a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 07/27] fix: accept args of unhashable types with the dollar
 style

Committing e.g. a []byte, the common type of binary columns, panicked with
'hash of unhashable type' because args are merged with a map.
---
 context_args.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/context_args.go b/context_args.go
index 7a7d6e9..2efd1ee 100644
--- a/context_args.go
+++ b/context_args.go
@@ -1,6 +1,7 @@
 package sqlf
 
 import (
+	"reflect"
 	"strconv"
 )
 
@@ -55,11 +56,36 @@ func (s *dollarArgStore) Args() []any {
 }
 
 func (s *dollarArgStore) CommitArg(arg any) string {
-	if i, ok := s.dict[arg]; ok {
-		return "$" + strconv.Itoa(i)
+	hashable := arg == nil || hashableType(reflect.TypeOf(arg))
+	if hashable {
+		if i, ok := s.dict[arg]; ok {
+			return "$" + strconv.Itoa(i)
+		}
 	}
 	i := len(s.args) + 1
-	s.dict[arg] = i
+	if hashable {
+		s.dict[arg] = i
+	}
 	s.args = append(s.args, arg)
 	return "$" + strconv.Itoa(i)
 }
+
+// hashableType reports whether all values of the type can be used as a map key.
+func hashableType(t reflect.Type) bool {
+	switch t.Kind() {
+	case reflect.Interface:
+		// depends on the dynamic type of the value
+		return false
+	case reflect.Array:
+		return hashableType(t.Elem())
+	case reflect.Struct:
+		for i := 0; i < t.NumField(); i++ {
+			if !hashableType(t.Field(i).Type) {
+				return false
+			}
+		}
+		return true
+	default:
+		return t.Comparable()
+	}
+}
-- 
2.43.0


From d688d9a6863196e87dd02e0779930549e5ac6084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 08/27] fix: never append into the backing array of the slices
 passed by the caller

Fragments created from the same slice (Fa(raw, base...)) shared its spare
capacity, appending to one of them overwrote the args of the others.
---
 fragment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fragment.go b/fragment.go
index 6b407fa..21bb32f 100644
--- a/fragment.go
+++ b/fragment.go
@@ -36,12 +36,12 @@ func (f *Fragment) WithFragments(fragments ...FragmentBuilder) *Fragment {
 
 // AppendArgs appends args to f.
 func (f *Fragment) AppendArgs(args ...any) *Fragment {
-	f.Args = append(f.Args, args...)
+	f.Args = append(f.Args[:len(f.Args):len(f.Args)], args...)
 	return f
 }
 
 // AppendFragments appends fragments to f.
 func (f *Fragment) AppendFragments(fragments ...FragmentBuilder) *Fragment {
-	f.Fragments = append(f.Fragments, fragments...)
+	f.Fragments = append(f.Fragments[:len(f.Fragments):len(f.Fragments)], fragments...)
 	return f
 }
-- 
2.43.0


From cc62ff53c37e576c91645279e9099972ad81a956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 09/27] fix: #join must not take errors of what it joins as its
 end

#join stops when a function reports ErrInvalidIndex, but so did it when the
error came from inside of a joined fragment, or from a call with a literal
index in the template: the failing part, e.g. a WHERE condition, was silently
dropped.
---
 build.go        | 18 +++++++++++++-----
 errors.go       | 17 +++++++++++++++++
 func.go         |  2 +-
 func_builtin.go | 27 +++++++++++++--------------
 properties.go   |  6 +++++-
 5 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/build.go b/build.go
index e6cb984..27ac0e3 100644
--- a/build.go
+++ b/build.go
@@ -61,15 +61,16 @@ func build(ctx *Context, fragment *Fragment) (string, error) {
 	if err != nil {
 		return "", fmt.Errorf("parse '%s': %w", fragment.Raw, err)
 	}
-	built, err := buildClause(ctx, clause)
+	built, err := buildClause(ctx, clause, nil)
 	if err != nil {
-		return "", fmt.Errorf("build '%s': %w", fragment.Raw, err)
+		return "", fmt.Errorf("build '%s': %w", fragment.Raw, &nestedError{err})
 	}
 	return built, nil
 }
 
-// buildClause builds the parsed clause within current context.
-func buildClause(ctx *Context, clause *syntax.Clause) (string, error) {
+// buildClause builds the parsed clause within current context, evalFunc evaluates
+// the function values in the clause, they are not allowed if it's nil.
+func buildClause(ctx *Context, clause *syntax.Clause, evalFunc func(name string) (string, error)) (string, error) {
 	b := new(strings.Builder)
 	for _, decl := range clause.ExprList {
 		switch expr := decl.(type) {
@@ -95,7 +96,14 @@ func buildClause(ctx *Context, clause *syntax.Clause) (string, error) {
 			}
 			b.WriteString(s)
 		case *syntax.FuncExpr:
-			return "", fmt.Errorf("unexpected function value at %s, forgot to call it?", expr.Pos())
+			if evalFunc == nil {
+				return "", fmt.Errorf("unexpected function value at %s, forgot to call it?", expr.Pos())
+			}
+			s, err := evalFunc(expr.Name)
+			if err != nil {
+				return "", err
+			}
+			b.WriteString(s)
 		default:
 			return "", fmt.Errorf("unknown expression type %T", expr)
 		}
diff --git a/errors.go b/errors.go
index d99120b..a1e8df5 100644
--- a/errors.go
+++ b/errors.go
@@ -7,3 +7,20 @@ var (
 	// It's a required behaviour for a custom #func to be compatible with #join.
 	ErrInvalidIndex = errors.New("invalid index")
 )
+
+// nestedError is an error from building what an index refers to. The index
+// itself is valid, even if the error is caused by an invalid index inside.
+type nestedError struct {
+	err error
+}
+
+func (e *nestedError) Error() string { return e.err.Error() }
+
+func (e *nestedError) Unwrap() error { return e.err }
+
+// isInvalidIndex reports whether err tells that the index passed to a #func is
+// invalid, other than an invalid index inside of what the index refers to.
+func isInvalidIndex(err error) bool {
+	var nested *nestedError
+	return errors.Is(err, ErrInvalidIndex) && !errors.As(err, &nested)
+}
diff --git a/func.go b/func.go
index df5fe36..f5ec7a9 100644
--- a/func.go
+++ b/func.go
@@ -231,7 +231,7 @@ func joinCompatibility(f *funcInfo) error {
 	// #join() Assume that the index starts from 1, so 0 is an invalid index,
 	// a compatible function should return ErrInvalidIndex
 	_, err := evalCall(ctx, f, []any{0})
-	if err == nil || !errors.Is(err, ErrInvalidIndex) {
+	if !isInvalidIndex(err) {
 		return errors.New("not reports ErrInvalidIndex")
 	}
 	return nil
diff --git a/func_builtin.go b/func_builtin.go
index f2b8b85..99eb36a 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -1,7 +1,6 @@
 package sqlf
 
 import (
-	"errors"
 	"fmt"
 	"strings"
 
@@ -39,8 +38,8 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		return "", fmt.Errorf("parse join template '%s': %w", tmpl, err)
 	}
 	b := new(strings.Builder)
-	var calls []*syntax.FuncCallExpr
-	for i, expr := range c.ExprList {
+	iterable := false
+	for _, expr := range c.ExprList {
 		fn, ok := expr.(*syntax.FuncExpr)
 		if !ok {
 			continue
@@ -52,13 +51,9 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		if f.JoinCompatibilityError() != nil {
 			return "", fmt.Errorf("function #%s is incompatible with #join: %w", fn.Name, f.joinError)
 		}
-		call := &syntax.FuncCallExpr{
-			Name: fn.Name,
-		}
-		c.ExprList[i] = call
-		calls = append(calls, call)
+		iterable = true
 	}
-	if len(calls) == 0 {
+	if !iterable {
 		return "", fmt.Errorf("no function in join template '%s' (e.g.: #f, not #f1)", tmpl)
 	}
 	start := from
@@ -66,11 +61,15 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		start = 1
 	}
 	for i := start; ; i++ {
-		for _, call := range calls {
-			call.Args = []any{i}
-		}
-		s, err := buildClause(ctx, c)
-		if errors.Is(err, ErrInvalidIndex) {
+		// only an iterated function reaching its end stops the iteration,
+		// other invalid indexes are errors.
+		exhausted := false
+		s, err := buildClause(ctx, c, func(name string) (string, error) {
+			s, err := evalFunction(ctx, name, []any{i})
+			exhausted = isInvalidIndex(err)
+			return s, err
+		})
+		if exhausted {
 			if (from > 0 && i == from) ||
 				(to > 0 && i <= to) {
 				// report index error only if explicitly specified
diff --git a/properties.go b/properties.go
index cde4a8a..4f65bef 100644
--- a/properties.go
+++ b/properties.go
@@ -15,7 +15,11 @@ func (p Properties) Build(ctx *Context, i int) (string, error) {
 	if i < 1 || i > len(p) {
 		return "", fmt.Errorf("%w: %d", ErrInvalidIndex, i)
 	}
-	return p[i-1].BuildFragment(ctx)
+	built, err := p[i-1].BuildFragment(ctx)
+	if err != nil {
+		return "", &nestedError{err}
+	}
+	return built, nil
 }
 
 // checkUsage checks if all properties are used.
-- 
2.43.0


From 051318863fe13b3ebf3d673657df42d1935b110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 10/27] fix: #join must not leave traces of the iteration it
 drops

When a function of the template reached its end, what the iteration had built
before was dropped, but the args of it stayed in the query args (more args than
'?'), and what it referenced was taken as used: '#f=#arg' with 3 fragments and
2 args silently dropped the last fragment instead of reporting it as unused.
---
 context.go      | 34 ++++++++++++++++++++++++++++++++++
 context_args.go | 15 +++++++++++++++
 func_builtin.go |  3 +++
 property.go     |  5 ++++-
 4 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 7a65ee6..ea60b30 100644
--- a/context.go
+++ b/context.go
@@ -8,6 +8,7 @@ import (
 type Context struct {
 	bindVarStyle syntax.BindVarStyle
 	argStore     argStore
+	used         []*defaultProperty // properties in the order they are used at the first time
 
 	parent *Context
 	funcs  map[string]*funcInfo
@@ -38,3 +39,36 @@ func newEmptyContext(bindVarStyle syntax.BindVarStyle) *Context {
 		argStore: argStore,
 	}
 }
+
+// checkpoint is a state of the building that can be rolled back to.
+type checkpoint struct {
+	nArgs, nUsed int
+}
+
+func (c *Context) checkpoint() checkpoint {
+	root := c.root()
+	return checkpoint{
+		nArgs: len(root.argStore.Args()),
+		nUsed: len(root.used),
+	}
+}
+
+// logUsed logs that the property is used at the first time.
+func (c *Context) logUsed(p *defaultProperty) {
+	if c == nil {
+		return
+	}
+	root := c.root()
+	root.used = append(root.used, p)
+}
+
+// rollback reverts the committed args and property usages since the checkpoint,
+// it must be called if anything built since then is dropped.
+func (c *Context) rollback(cp checkpoint) {
+	root := c.root()
+	root.argStore.Truncate(cp.nArgs)
+	for _, p := range root.used[cp.nUsed:] {
+		p.used = false
+	}
+	root.used = root.used[:cp.nUsed]
+}
diff --git a/context_args.go b/context_args.go
index 2efd1ee..c1c1356 100644
--- a/context_args.go
+++ b/context_args.go
@@ -21,6 +21,8 @@ func (c *Context) CommitArg(arg any) string {
 type argStore interface {
 	Args() []any
 	CommitArg(arg any) string
+	// Truncate drops the args other than the first n.
+	Truncate(n int)
 }
 
 type questionArgStore struct {
@@ -40,6 +42,10 @@ func (s *questionArgStore) CommitArg(arg any) string {
 	return "?"
 }
 
+func (s *questionArgStore) Truncate(n int) {
+	s.args = s.args[:n:n]
+}
+
 type dollarArgStore struct {
 	args []any
 	dict map[any]int
@@ -70,6 +76,15 @@ func (s *dollarArgStore) CommitArg(arg any) string {
 	return "$" + strconv.Itoa(i)
 }
 
+func (s *dollarArgStore) Truncate(n int) {
+	for arg, i := range s.dict {
+		if i > n {
+			delete(s.dict, arg)
+		}
+	}
+	s.args = s.args[:n:n]
+}
+
 // hashableType reports whether all values of the type can be used as a map key.
 func hashableType(t reflect.Type) bool {
 	switch t.Kind() {
diff --git a/func_builtin.go b/func_builtin.go
index 99eb36a..f034b3d 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -64,6 +64,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		// only an iterated function reaching its end stops the iteration,
 		// other invalid indexes are errors.
 		exhausted := false
+		cp := ctx.checkpoint()
 		s, err := buildClause(ctx, c, func(name string) (string, error) {
 			s, err := evalFunction(ctx, name, []any{i})
 			exhausted = isInvalidIndex(err)
@@ -75,6 +76,8 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 				// report index error only if explicitly specified
 				return "", err
 			}
+			// drop what was built before reaching the end
+			ctx.rollback(cp)
 			break
 		}
 		if err != nil {
diff --git a/property.go b/property.go
index 7bd51b5..6c5b628 100644
--- a/property.go
+++ b/property.go
@@ -35,6 +35,9 @@ func (p *defaultProperty) Used() bool {
 
 // BuildFragment builds the fragment.
 func (p *defaultProperty) BuildFragment(ctx *Context) (string, error) {
-	p.used = true
+	if !p.used {
+		p.used = true
+		ctx.logUsed(p)
+	}
 	return p.value.BuildFragment(ctx)
 }
-- 
2.43.0


From 9b6de2596ac221e3c7bfae940952d673506a6824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 11/27] fix: CrossJoin always panicked, and joins modified the
 passed fragment

CrossJoin passes a nil 'on' fragment, on which WithPrefix() panics. WithPrefix()
also changed the fragment of the caller, so that it rendered with 'ON' wherever
else it was used.
---
 sqlb/query_builder_join.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index b872497..98f6440 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -99,12 +99,17 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 	if t.Alias != "" {
 		tableAndAlias = tableAndAlias + " AS " + t.Alias
 	}
-	table := &fromTable{
-		Names: t,
-		Fragment: sqlf.Ff(
+	fragment := sqlf.F(fmt.Sprintf("%s %s", joinStr, tableAndAlias))
+	if on != nil {
+		fragment = sqlf.Ff(
 			fmt.Sprintf("%s %s #f1", joinStr, tableAndAlias),
-			on.WithPrefix("ON"),
-		),
+			// wrap it, since "on" belongs to the caller
+			sqlf.Ff("#f1", on).WithPrefix("ON"),
+		)
+	}
+	table := &fromTable{
+		Names:    t,
+		Fragment: fragment,
 		Optional: optional,
 	}
 	if target, replacing := b.tablesDict[t.AppliedName()]; replacing {
-- 
2.43.0


From 239c82af7177ac62e06991f764a4814c9364c834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 12/27] fix: accept nil fragments in *sqlb.QueryBuilder

A nil *sqlf.Fragment builds to nothing, but collecting dependencies panicked
when it met one.
---
 sqlb/query_builder_dependecy.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index b667e6d..3cb8237 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -91,7 +91,9 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 			continue
 		}
 		if fragment, ok := f.(*sqlf.Fragment); ok {
-			extractTables2(fragment.Fragments, tables, dict)
+			if fragment != nil {
+				extractTables2(fragment.Fragments, tables, dict)
+			}
 			continue
 		}
 		if column, ok := f.(*Column); ok && column != nil {
@@ -99,7 +101,7 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 				if !dict[column.table] {
 					collectTable(column.table, tables, dict)
 				}
-			} else {
+			} else if column.fragment != nil {
 				extractTables2(column.fragment.Fragments, tables, dict)
 			}
 			continue
-- 
2.43.0


From a0e56d0bd9b539ead6023da8fc5e01d7ef15cd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:16 +0000
Subject: [PATCH 13/27] fix: report a missing FROM table

Without any table BuildQuery panicked with 'index out of range', with joins only
it built 'FROM  INNER JOIN ...'.
---
 sqlb/query_builder_dependecy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 3cb8237..5d27cb0 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -8,6 +8,9 @@ import (
 
 // collectDependencies collects the dependencies of the tables.
 func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
+	if len(b.tables) == 0 || b.tables[0].Names.Name == "" {
+		return nil, fmt.Errorf("from table is not specified")
+	}
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
 		b.touches,
-- 
2.43.0


From df461175800cca0c2d2402263b3586bc3b65a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 14/27] fix: keep the FROM table and the joined tables apart

- joining a table with the name of the FROM table replaced the latter, and built
  'SELECT ... FROM LEFT JOIN ...'; the other way round the table was built twice.
- replacing the FROM table left the old one defined, references to it were not
  reported as undefined.
---
 sqlb/query_builder_join.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index 98f6440..2a26615 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -21,9 +21,14 @@ func (b *QueryBuilder) From(t TableAliased) *QueryBuilder {
 		Fragment: sqlf.F(tableAndAlias),
 		Optional: false,
 	}
+	if existing, ok := b.tablesDict[t.AppliedName()]; ok && existing != b.tables[0] {
+		b.pushError(fmt.Errorf("from table '%s' is already joined", t.AppliedName()))
+		return b
+	}
 	if len(b.tables) == 0 {
 		b.tables = append(b.tables, table)
 	} else {
+		delete(b.tablesDict, b.tables[0].Names.AppliedName())
 		b.tables[0] = table
 	}
 	b.tablesDict[t.AppliedName()] = table
@@ -113,6 +118,10 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 		Optional: optional,
 	}
 	if target, replacing := b.tablesDict[t.AppliedName()]; replacing {
+		if target == b.tables[0] {
+			b.pushError(fmt.Errorf("join table '%s' is already the from table", t.AppliedName()))
+			return b
+		}
 		*target = *table
 		return b
 	}
-- 
2.43.0


From 7be1c4c93c7f066200b3680a8c4c006ad7b3210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 15/27] fix: report invalid orders at the first build

The error was collected while building, after the collected errors had been
checked: the first build silently dropped the order, only later ones failed.
---
 sqlb/query_builder_order.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlb/query_builder_order.go b/sqlb/query_builder_order.go
index 66d8d00..8a473c4 100644
--- a/sqlb/query_builder_order.go
+++ b/sqlb/query_builder_order.go
@@ -35,6 +35,10 @@ type orderItem struct {
 
 // OrderBy set the sorting order. the order can be "ASC", "DESC", "ASC NULLS FIRST" or "DESC NULLS LAST"
 func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
+	if order > DescNullsLast {
+		b.pushError(fmt.Errorf("invalid order: %d", order))
+		return b
+	}
 	b.orders = append(b.orders, &orderItem{column: column, order: order})
 	return b
 }
@@ -42,10 +46,6 @@ func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
 func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
 	f := sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
 	for i, item := range b.orders {
-		if item.order > DescNullsLast {
-			b.pushError(fmt.Errorf("invalid order: %d", item.order))
-			continue
-		}
 		if !b.distinct {
 			f.AppendFragments(sqlf.Ff(
 				"#f1 "+orders[item.order],
-- 
2.43.0


From 53c084823e3d872fc528285ba3ed198ab5516a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 16/27] fix: build clauses in the order of the text, without
 modifying the builder

- args are committed in build order, but the select list was built last: with
  '?' bindvars the args of the select list followed the ones of FROM, WHERE...
- each build of a SELECT DISTINCT ... ORDER BY query added the order columns to
  the select list once more.
---
 sqlb/query_builder.go           |  2 --
 sqlb/query_builder_build.go     | 33 +++++++++++++++------------------
 sqlb/query_builder_dependecy.go |  1 -
 sqlb/query_builder_order.go     | 11 +++++++----
 4 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/sqlb/query_builder.go b/sqlb/query_builder.go
index ea5931a..acde3d5 100644
--- a/sqlb/query_builder.go
+++ b/sqlb/query_builder.go
@@ -15,7 +15,6 @@ type QueryBuilder struct {
 	tablesDict map[Table]*fromTable // the from tables by alias
 
 	selects    *sqlf.Fragment         // select columns and keep values in scanning.
-	touches    *sqlf.Fragment         // select columns but drop values in scanning.
 	conditions *sqlf.Fragment         // where conditions, joined with AND.
 	orders     []*orderItem           // order by columns, joined with comma.
 	groupbys   *sqlf.Fragment         // group by columns, joined with comma.
@@ -41,7 +40,6 @@ func NewQueryBuilder() *QueryBuilder {
 		ctesDict:   make(map[Table]*cte),
 		tablesDict: make(map[Table]*fromTable),
 		selects:    sqlf.F("#join('#fragment', ', ')").WithPrefix("SELECT"),
-		touches:    sqlf.F("#join('#fragment', ', ')"),
 		conditions: sqlf.F("#join('#fragment', ' AND ')").WithPrefix("WHERE"),
 		groupbys:   sqlf.F("#join('#fragment', ', ')").WithPrefix("GROUP BY"),
 	}
diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 5eb7693..01d93d0 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -57,9 +57,13 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 		clauses = append(clauses, sq)
 	}
 
-	// reserve a position for select
-	selectAt := len(clauses)
-	clauses = append(clauses, "")
+	// build in the order of the text, the args are committed in the same order
+	orders, touches := b.orderFragments()
+	sel, err := b.buildSelects(ctx, touches)
+	if err != nil {
+		return "", err
+	}
+	clauses = append(clauses, sel)
 	from, err := b.buildFrom(ctx, dep)
 	if err != nil {
 		return "", err
@@ -81,7 +85,7 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if groupby != "" {
 		clauses = append(clauses, groupby)
 	}
-	order, err := b.buildOrders(ctx)
+	order, err := orders.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
@@ -94,12 +98,6 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b.offset > 0 {
 		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
 	}
-	// select must build order, because buildOrders may add columns to touches
-	sel, err := b.buildSelects(ctx)
-	if err != nil {
-		return "", err
-	}
-	clauses[selectAt] = sel
 	query := strings.TrimSpace(strings.Join(clauses, " "))
 	if len(b.unions) > 0 {
 		union, err := b.buildUnion(ctx)
@@ -145,27 +143,26 @@ func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[TableAliased]bool) (
 	return "With " + strings.Join(clauses, ", "), nil
 }
 
-func (b *QueryBuilder) buildSelects(ctx *sqlf.Context) (string, error) {
+func (b *QueryBuilder) buildSelects(ctx *sqlf.Context, touches *sqlf.Fragment) (string, error) {
+	selects := *b.selects
 	if b.distinct {
-		b.selects.Prefix = "SELECT DISTINCT"
-	} else {
-		b.selects.Prefix = "SELECT"
+		selects.Prefix = "SELECT DISTINCT"
 	}
-	sel, err := b.selects.BuildFragment(ctx)
+	sel, err := selects.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
-	touches, err := b.touches.BuildFragment(ctx)
+	touched, err := touches.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
 	if sel == "" {
 		return "", fmt.Errorf("no columns selected")
 	}
-	if touches == "" {
+	if touched == "" {
 		return sel, nil
 	}
-	return sel + ", " + touches, nil
+	return sel + ", " + touched, nil
 }
 
 func (b *QueryBuilder) buildFrom(ctx *sqlf.Context, dep map[TableAliased]bool) (string, error) {
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 5d27cb0..3f93642 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -13,7 +13,6 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	}
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
-		b.touches,
 		b.conditions,
 		b.groupbys,
 	}
diff --git a/sqlb/query_builder_order.go b/sqlb/query_builder_order.go
index 8a473c4..726f4d6 100644
--- a/sqlb/query_builder_order.go
+++ b/sqlb/query_builder_order.go
@@ -43,8 +43,11 @@ func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
 	return b
 }
 
-func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
-	f := sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
+// orderFragments returns the fragments of the ORDER BY clause, and the columns it
+// requires the query to select.
+func (b *QueryBuilder) orderFragments() (f, touches *sqlf.Fragment) {
+	f = sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
+	touches = sqlf.F("#join('#fragment', ', ')")
 	for i, item := range b.orders {
 		if !b.distinct {
 			f.AppendFragments(sqlf.Ff(
@@ -56,10 +59,10 @@ func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
 		// pq: for SELECT DISTINCT, ORDER BY expressions must appear in select list
 		alias := fmt.Sprintf("_order_%d", i+1)
 		orderStr := orders[item.order]
-		b.touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
+		touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
 		f.AppendFragments(sqlf.F(
 			fmt.Sprintf("%s %s", alias, orderStr),
 		))
 	}
-	return f.BuildFragment(ctx)
+	return f, touches
 }
-- 
2.43.0


From aef4da97eab8044b83523cea1dfa696729a76439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 17/27] fix: build the dependencies of CTEs that are selected
 from without alias

Tables and CTEs shared one dependency set, a table without alias had the same
key as the CTE of its name, so the CTE was considered as visited and the CTEs
it depends on were left out of the query.
---
 sqlb/query_builder_build.go     |  8 ++++----
 sqlb/query_builder_dependecy.go | 29 ++++++++++++-----------------
 2 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 01d93d0..e12b30e 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -44,12 +44,12 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	}
 	clauses := make([]string, 0)
 
-	dep, err := b.collectDependencies()
+	dep, cteDep, err := b.collectDependencies()
 	if err != nil {
 		return "", err
 	}
 
-	sq, err := b.buildCTEs(ctx, dep)
+	sq, err := b.buildCTEs(ctx, cteDep)
 	if err != nil {
 		return "", err
 	}
@@ -116,13 +116,13 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	return query, nil
 }
 
-func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[TableAliased]bool) (string, error) {
+func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[Table]bool) (string, error) {
 	if len(b.ctes) == 0 {
 		return "", nil
 	}
 	clauses := make([]string, 0, len(b.ctes))
 	for _, cte := range b.ctes {
-		if !dep[NewTableAliased(cte.name, "")] {
+		if !dep[cte.name] {
 			continue
 		}
 		query, err := cte.BuildFragment(ctx)
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 3f93642..f82b677 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -6,10 +6,10 @@ import (
 	"github.com/qjebbs/go-sqlf/v2"
 )
 
-// collectDependencies collects the dependencies of the tables.
-func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
+// collectDependencies collects the tables and the CTEs the query depends on.
+func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, map[Table]bool, error) {
 	if len(b.tables) == 0 || b.tables[0].Names.Name == "" {
-		return nil, fmt.Errorf("from table is not specified")
+		return nil, nil, fmt.Errorf("from table is not specified")
 	}
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
@@ -27,36 +27,31 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	for _, table := range tables {
 		err := b.collectDepsFromTable(deps, table)
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 	}
-	// mark for CTEs
+	ctes := make(map[Table]bool)
 	for _, t := range b.tables {
 		if b.distinct && t.Optional && !deps[t.Names] {
 			continue
 		}
 		if cte, ok := b.ctesDict[t.Names.Name]; ok {
-			b.collectDepsFromCTE(deps, cte)
+			b.collectDepsFromCTE(ctes, cte)
 		}
 	}
-	return deps, nil
+	return deps, ctes, nil
 }
 
-func (b *QueryBuilder) collectDepsFromCTE(deps map[TableAliased]bool, cte *cte) error {
-	key := NewTableAliased(cte.name, "")
-	if deps[key] {
-		return nil
+func (b *QueryBuilder) collectDepsFromCTE(deps map[Table]bool, cte *cte) {
+	if deps[cte.name] {
+		return
 	}
-	deps[key] = true
+	deps[cte.name] = true
 	for _, dep := range cte.deps {
 		if cte, ok := b.ctesDict[dep]; ok {
-			err := b.collectDepsFromCTE(deps, cte)
-			if err != nil {
-				return err
-			}
+			b.collectDepsFromCTE(deps, cte)
 		}
 	}
-	return nil
 }
 
 func (b *QueryBuilder) collectDepsFromTable(dep map[TableAliased]bool, t Table) error {
-- 
2.43.0


From 9d3488a9ae20f22bb4a8f55473cac40d5e9eef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 18/27] fix: do not trim optional joins that are required by
 other joins

The ON clause of a join that is always built may refer to an optional join,
which was trimmed as long as nothing else in the query referred to it.
---
 sqlb/query_builder_dependecy.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index f82b677..347a217 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -24,6 +24,14 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, map[Table]b
 	deps := make(map[TableAliased]bool)
 	// first table is the main table and always included
 	deps[b.tables[0].Names] = true
+	if b.distinct {
+		// what the joins that are always built refer to can't be trimmed
+		for _, t := range b.tables {
+			if !t.Optional {
+				tables = append(tables, t.Names.AppliedName())
+			}
+		}
+	}
 	for _, table := range tables {
 		err := b.collectDepsFromTable(deps, table)
 		if err != nil {
-- 
2.43.0


From 5adb8e631f3c16900fdaf9d51414a46ef9c868f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 19/27] fix: do not build an empty 'UNION ()' if all unions are
 built empty

---
 sqlb/query_builder_build.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index e12b30e..ec38fc1 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -192,5 +192,8 @@ func (b *QueryBuilder) buildUnion(ctx *sqlf.Context) (string, error) {
 		}
 		clauses = append(clauses, query)
 	}
+	if len(clauses) == 0 {
+		return "", nil
+	}
 	return "UNION (" + strings.Join(clauses, ") UNION (") + ")", nil
 }
-- 
2.43.0


From c9e3be9a4291f443ca6820505f84dc91f5a37459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:22 +0000
Subject: [PATCH 20/27] fix: Scan must report errors of the iteration

rows.Next() returns false also on errors, Scan returned the rows read so far as
if they were all.
---
 util/scan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/scan.go b/util/scan.go
index 0df3e6e..7d23223 100644
--- a/util/scan.go
+++ b/util/scan.go
@@ -46,6 +46,9 @@ func Scan[T any](db QueryAble, query string, args []any, fn NewScanDestFunc[T])
 		}
 		results = append(results, dest)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return results, nil
 }
 
-- 
2.43.0


From 32092b6d9087182993b7dc5ad07e4ed8cbd97c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 21/27] fix: ScanRow must not write to the slice passed by the
 caller

---
 util/scan.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/scan.go b/util/scan.go
index 7d23223..07c8368 100644
--- a/util/scan.go
+++ b/util/scan.go
@@ -60,6 +60,7 @@ func ScanRow(rows *sql.Rows, dest ...any) error {
 		return err
 	}
 	nBlacholes := len(cols) - len(dest)
+	dest = dest[:len(dest):len(dest)] // don't append into the array of the caller
 	bh := &blackhole{}
 	for i := 0; i < nBlacholes; i++ {
 		dest = append(dest, &bh)
-- 
2.43.0


From 912cb1d7d7539eec81d2a534c022ed5e7817f000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 22/27] fix: Interpolate must report missing args instead of
 panicking

Count() interpolates the query for the error message when the query fails, e.g.
because of missing args.
---
 util/interpolate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index 7149284..b304ef8 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -54,6 +54,9 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 		case *syntax.PlainExpr:
 			b.WriteString(decl.Text)
 		case *syntax.BindVarExpr:
+			if decl.Index < 1 || decl.Index > len(args) {
+				return "", fmt.Errorf("%s: invalid bind var index %d", decl.Pos(), decl.Index)
+			}
 			v, err := encodeValue(args[decl.Index-1], opts)
 			if err != nil {
 				return "", err
-- 
2.43.0


From c892a2ad06fc49726c28cd8f42b94002e35ac28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 23/27] fix: interpolate nil pointers as NULL

A nil pointer to a type implementing driver.Valuer or fmt.Stringer with value
methods panicked.
---
 util/interpolate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index b304ef8..6bfdec1 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -71,6 +71,10 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 
 func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 	buf := bytes.NewBuffer(nil)
+	if rv := reflect.ValueOf(arg); rv.Kind() == reflect.Pointer && rv.IsNil() {
+		// it's NULL, and calling a value method with it panics
+		arg = nil
+	}
 	switch v := arg.(type) {
 	case nil:
 		buf.WriteString("NULL")
-- 
2.43.0


From e9fca7620874991b34c0bb7b29ae419a5cd0bf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 24/27] fix: interpolate floats without losing precision

%f has 6 digits after the decimal point, 1e-9 became 0.000000.
---
 util/interpolate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/interpolate.go b/util/interpolate.go
index 6bfdec1..9400a3d 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -5,6 +5,7 @@ import (
 	"database/sql/driver"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 	"time"
 
@@ -114,7 +115,7 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			buf.WriteString(fmt.Sprintf("%d", primative.Uint()))
 		case reflect.Float32, reflect.Float64:
-			buf.WriteString(fmt.Sprintf("%f", primative.Float()))
+			buf.WriteString(strconv.FormatFloat(primative.Float(), 'f', -1, primative.Type().Bits()))
 		case reflect.String:
 			buf.Write(quoteStringValue(primative.String()))
 		default:
-- 
2.43.0


From b7011840f08a7cba29ef82da3eb48203b428b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 25/27] fix: quote formatted times like any other string in
 Interpolate

A quote in the time format ended the literal.
---
 util/interpolate.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/util/interpolate.go b/util/interpolate.go
index 9400a3d..e6dd064 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -96,9 +96,7 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 		}
 		// In SQL standard, the precision of fractional seconds in time literal is up to 6 digits.
 		v = v.Round(time.Microsecond)
-		buf.WriteRune('\'')
-		buf.WriteString(v.Format(opts.TimeFormat))
-		buf.WriteRune('\'')
+		buf.Write(quoteStringValue(v.Format(opts.TimeFormat)))
 	case fmt.Stringer:
 		buf.Write(quoteStringValue(v.String()))
 	default:
-- 
2.43.0


From 03a24d4c973b4d2565a924442afe87d651234f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 26/27] fix: ArgsFlatted must not panic with nil pointers to
 slices

convertArrayReflect() handles pointers of any type, including nil ones.
---
 util/args.go | 20 --------------------
 1 file changed, 20 deletions(-)

diff --git a/util/args.go b/util/args.go
index b685cd5..5268542 100644
--- a/util/args.go
+++ b/util/args.go
@@ -44,26 +44,6 @@ func argsFrom(v any) []any {
 		return Ttoa(a)
 	case []string:
 		return Ttoa(a)
-	case *[]bool:
-		return Ttoa(*a)
-	case *[]float64:
-		return Ttoa(*a)
-	case *[]float32:
-		return Ttoa(*a)
-	case *[]int64:
-		return Ttoa(*a)
-	case *[]int32:
-		return Ttoa(*a)
-	case *[]int:
-		return Ttoa(*a)
-	case *[]uint64:
-		return Ttoa(*a)
-	case *[]uint32:
-		return Ttoa(*a)
-	case *[]uint:
-		return Ttoa(*a)
-	case *[]string:
-		return Ttoa(*a)
 	default:
 		return convertArrayReflect(v)
 	}
-- 
2.43.0


From 0091fa5b9b1a7376f3bce0e18fac90c40f130ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:32 +0000
Subject: [PATCH 27/27] fix: a nil *Column is an error, not a nil pointer
 dereference

---
 sqlb/table_column.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqlb/table_column.go b/sqlb/table_column.go
index 71f31f2..8f66510 100644
--- a/sqlb/table_column.go
+++ b/sqlb/table_column.go
@@ -1,6 +1,8 @@
 package sqlb
 
 import (
+	"errors"
+
 	"github.com/qjebbs/go-sqlf/v2"
 )
 
@@ -20,6 +22,9 @@ type Column struct {
 
 // BuildFragment implements FragmentBuilder
 func (c *Column) BuildFragment(ctx *sqlf.Context) (query string, err error) {
+	if c == nil {
+		return "", errors.New("nil column")
+	}
 	return c.fragment.BuildFragment(ctx)
 }
 
-- 
2.43.0

