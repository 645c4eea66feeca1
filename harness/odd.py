"""Valid Go that handlers consist of in the wild and that the documentation says nothing about."""

IMPORTS = ["context", "database/sql", "encoding/json", "errors", "fmt", "html/template", "io", "math/big", "net", "net/http", "net/url", "os", "reflect", "sort", "strings",
           "sync", "time", "go/ast", "crypto/tls", "unsafe", "bytes", "text/tabwriter", "regexp", "log",
           "github.com/gin-gonic/gin", "github.com/gin-gonic/gin/binding", "github.com/google/uuid", "example.com/genapp/odd/dotted.v2", "example.com/genapp/odd/other"]

DECLS = r'''
type Node struct {
	Val  int     `json:"val"`
	Kids []*Node `json:"kids"`
	Up   *Node   `json:"up"`
}

type Alpha struct{ B *Beta }
type Beta struct{ A []Alpha; G Gamma }
type Gamma map[string]Alpha

type Pair[K comparable, V any] struct {
	Key K `json:"key"`
	Val V `json:"val"`
}
type Page[T any] struct {
	Items []T `json:"items"`
	Next  *Page[T]
}
type Tree[T any] struct {
	L, R *Tree[T]
	V    T
}
type Number interface{ ~int | ~float64 }

type Str = string
type NodeAlias = Node
type Ints = []int

type Wide struct {
	A complex128 `json:"-"`
	B chan int   `json:"-"`
	C func()     `json:"-"`
	D uintptr
	E any
	F error
	G interface{ Foo() int }
	H struct{ X, Y int }
	I []struct{ Z string }
	J map[string]struct{ W bool }
	K [3][2]int
	L map[int]map[string][]*Node
	M *[]*map[string]*Node
	N json.RawMessage
	O json.Number
	P http.Header
	Q url.Values
	R net.IP
	S big.Int
	T sql.NullString
	U template.HTML
	V time.Month
	W [4]byte
	X []byte
	Y sync.Mutex
	Z unsafe.Pointer `json:"-"`
}

type Embeds struct {
	*Node
	sync.Mutex
	error
	fmt.Stringer
	other.Thing
	*other.Deep
	Pair[string, int]
}

type embedsSelf struct {
	*embedsSelf
	N int
}

type Level int

const (
	Low Level = iota
	Mid
	High
	Neg Level = -1
)

type Mask uint8

const (
	M1 Mask = 1 << iota
	M2
	M3 = M1 | M2
)

type Fn func(*gin.Context)
type Wrapped struct{ *gin.Context }
type ByValue struct{ gin.Context }
type Svc struct {
	Name string
	Sub  *Svc
	H    gin.HandlerFunc
	Do   func(c *gin.Context, n int)
}
type Replier interface{ Reply(c *gin.Context) }
type Handy interface{ Get(c *gin.Context) }

var globalSvc = &Svc{Do: func(c *gin.Context, n int) { c.Status(n) }}
var table = map[string]func(*gin.Context){"a": func(c *gin.Context) { c.Status(202) }}
var fns = []func(*gin.Context){func(c *gin.Context) {}, recA}
var errNope = errors.New("nope")
var codes = map[error]int{errNope: 400}
var names = []string{"x", "y"}
var matrix [2][2]Node
var lazy = sync.OnceValue(func() Node { return Node{} })

func (w Wrapped) OK(v any)                  { w.JSON(200, v) }
func (s *Svc) Reply(c *gin.Context)         { c.Status(203); s.inner(c) }
func (s *Svc) inner(c *gin.Context)         { s.Reply(c) }
func (s Svc) Get(c *gin.Context)            { c.Status(207) }
func recA(c *gin.Context)                   { if c.IsAborted() { recB(c, 1) } }
func recB(c *gin.Context, n int)            { recC(n, c) }
func recC(n int, c *gin.Context)            { recA(c); recC(n-1, c) }
func twice(c *gin.Context, f func(*gin.Context)) { f(c); f(c) }
func variadic(c *gin.Context, xs ...any)    { for range xs { c.Next() } }
func multi(cs ...*gin.Context)              { _ = cs }
func two(a, b *gin.Context)                 { _ = b; a.Next() }
func noBody(_ *gin.Context)                 {}
func unnamed(*gin.Context)                  {}
func iface(c any)                           { _ = c }
func ctxOnly(ctx context.Context)           { _ = ctx.Err() }
func named(c *gin.Context) (n int, err error) { n = 3; return }
func statusOf(err error) int                { if err != nil { return 500 }; return 200 }
func gen[T any](c *gin.Context, v T)        { c.JSON(214, v) }
func genNum[T Number](c *gin.Context, v ...T) T { var z T; return z }
func pick[T any](v T) T                     { return v }
func curry() func() Node                    { return func() Node { return Node{} } }
func must[T any](v T, err error) T          { return v }
func values() (Node, error)                 { return Node{}, nil }
func newPair[K comparable, V any](k K, v V) Pair[K, V] { return Pair[K, V]{k, v} }
func (p Pair[K, V]) Send(c *gin.Context)    { c.JSON(200, p) }
func (p *Page[T]) Handle(c *gin.Context)    { c.JSON(200, p.Items) }
func makeHandler[T any](v T) gin.HandlerFunc { return func(c *gin.Context) { c.JSON(200, v); c.Status(299) } }
func chain(hs ...gin.HandlerFunc) gin.HandlerFunc { return func(c *gin.Context) { for _, h := range hs { h(c) }; c.Status(298) } }
func onion(n int) gin.HandlerFunc { return func(c *gin.Context) { func() { func(cc *gin.Context) { cc.Status(297) }(c) }() } }
'''

# Statements of a handler whose context is called c. Each is valid in a scope of its own.
BODY = {
    "recursive helpers": "recA(c)\nrecB(c, 2)",
    "recursive methods": "s := &Svc{}\ns.Reply(c)\ns.inner(c)",
    "helpers that share helpers": "ladder0(c)",
    "helpers that all call each other": "clique0(c, 3)",
    "recursive closure": "var f func(*gin.Context, int)\nf = func(x *gin.Context, n int) {\n\tif n > 0 {\n\t\tf(x, n-1)\n\t}\n}\nf(c, 3)",
    "function value": "f := c.JSON\nf(200, Node{})",
    "method expression": "(*gin.Context).JSON(c, 200, Node{})",
    "method value of own type": "r := globalSvc.Reply\nr(c)",
    "interface call": "var r Replier = globalSvc\nr.Reply(c)",
    "function in a field": "globalSvc.Do(c, 200)\nif globalSvc.H != nil {\n\tglobalSvc.H(c)\n}",
    "function in a map": "table[\"a\"](c)",
    "function in a slice": "fns[0](c)\nfor _, f := range fns {\n\tf(c)\n}",
    "function as argument": "twice(c, recA)\ntwice(c, func(x *gin.Context) { x.Next() })",
    "converted function": "Fn(recA)(c)\ngin.HandlerFunc(recA)(c)",
    "immediate function": "func() { c.Next() }()\nfunc(x *gin.Context) { x.Next() }(c)",
    "returned function": "curry()()\nchain(recA)(c)",
    "wrapped context": "w := Wrapped{c}\nw.OK(Node{})\nWrapped{c}.OK(1)",
    "copied context": "cc := c.Copy()\ngo func(x *gin.Context) { x.Next() }(cc)\ngo recA(cc)\ndefer recA(c)\ndefer func() { _ = recover() }()",
    "aliased context": "ctx := c\nctx.Next()\nrecA(ctx)\np := &c\n(*p).Next()",
    "shadowed context": "{\n\tc := \"x\"\n\t_ = c\n}\nfor c := range names {\n\t_ = c\n}\nif c := 1; c > 0 {\n\t_ = c\n}",
    "shadowed package": "json := 1\nhttp := Node{}\n_, _ = json, http.Val",
    "shadowed builtin": "len := func(x any) int { return 1 }\nstring := \"s\"\n_ = len(string)",
    "variadic helper": "variadic(c)\nvariadic(c, 1, \"a\", nil)\nvariadic(c, []any{1}...)\nmulti(c, c)\nmulti()",
    "same argument twice": "two(c, c)",
    "unnamed parameter": "noBody(c)\nunnamed(c)",
    "context as any": "iface(c)\nctxOnly(c)\nfmt.Println(c)\nlog.Println(c == nil)",
    "external with context": "_ = binding.JSON.Bind(c.Request, &Node{})\nsort.Strings(names)\n_ = reflect.TypeOf(c)",
    "other package": "other.Handle(c)\nother.Loop(c, 3)\ndotted.Do(c)",
    "generic helper": "gen(c, Node{})\ngen[int](c, 1)\ngenNum(c, 1.5, 2)\ngenNum[int](c)",
    "generic payload": "c.JSON(210, Page[Node]{})\nc.JSON(210, &Pair[string, []Page[int]]{})\nc.JSON(210, newPair(1, Node{}))\nc.JSON(210, pick(Node{}))\nc.JSON(210, Tree[Tree[int]]{})",
    "generic method": "newPair(\"a\", 1).Send(c)\n(&Page[Node]{}).Handle(c)",
    "multiple results": "n, err := named(c)\n_, _ = n, err\nif _, err := values(); err != nil {\n\treturn\n}",
    "computed status": "c.JSON(statusOf(nil), Node{})\nc.Status(codes[errNope])\nc.Status(200 + len(names))\nc.Status(int(Low))\nc.AbortWithStatus(-1)",
    "status constants": "const a, b = 200, 201\nc.Status(a)\nc.Status((b))\nc.Status(http.StatusOK + 1)\nvar x = 202\nc.Status(x)",
    "status of fields": "r := struct{ Code int }{500}\nc.Status(r.Code)\nrec := http.Response{}\nc.Status(rec.StatusCode)\nc.Status(c.Writer.Status())",
    "nil payload": "c.JSON(211, nil)\nvar n *Node\nc.JSON(211, n)\nc.JSON(211, (*Node)(nil))\nc.JSON(211, []Node(nil))\nc.JSON(211, error(nil))",
    "literal payloads": "c.JSON(212, 1)\nc.JSON(212, 'x')\nc.JSON(212, 1.5)\nc.JSON(212, \"s\")\nc.JSON(212, true)\nc.JSON(212, 2i)\nc.JSON(212, -1)\nc.JSON(212, !false)",
    "operators": "a, b := 1, 2\nc.JSON(213, a+b)\nc.JSON(213, a == b && true)\nc.JSON(213, \"a\"+\"b\")\nc.JSON(213, a<<2|b)\nc.JSON(213, ^a)",
    "channels": "ch := make(chan Node, 1)\nch <- Node{}\nc.JSON(213, <-ch)\nselect {\ncase x := <-ch:\n\tc.JSON(213, x)\ndefault:\n\tc.Next()\n}",
    "slices": "ns := []Node{{}, {}}\nc.JSON(213, ns[1:])\nc.JSON(213, ns[:1:1])\nc.JSON(213, \"abc\"[1:2])\nc.JSON(213, matrix[0][1])\nc.JSON(213, append(ns, Node{}))\nc.JSON(213, [...]int{1, 2})",
    "anonymous types": "c.JSON(213, struct {\n\tA int `json:\"a\"`\n\tB []struct{ C string }\n}{})\nc.JSON(213, []struct{ X Node }{})\nc.JSON(213, map[string]struct{}{})\nc.JSON(213, []any{1, \"a\"})\nc.JSON(213, map[string]any{})\nc.JSON(213, interface{}(1))",
    "deep types": "c.JSON(213, [][]Node{})\nc.JSON(213, map[string]map[string][]*Node{})\nc.JSON(213, [][][]int{})\nc.JSON(213, []map[string]Page[Alpha]{})",
    "pointers": "n := &Node{}\npp := &n\nc.JSON(213, **pp)\nc.JSON(213, *n.Up)\nc.JSON(213, &n.Kids)\nc.JSON(213, n.Up.Up.Kids[0].Val)",
    "calls of calls": "c.JSON(213, curry()())\nc.JSON(213, lazy())\nc.JSON(213, must(values()))\nc.JSON(213, func() Node { return Node{} }())\nc.JSON(213, (curry())())",
    "wide types": "c.JSON(215, Wide{})\nc.JSON(215, &Embeds{})\nc.JSON(215, embedsSelf{})\nc.JSON(215, []Gamma{})",
    "external types": "c.JSON(216, http.Header{})\nc.JSON(216, url.URL{})\nc.JSON(216, net.IPNet{})\nc.JSON(216, big.NewInt(1))\nc.JSON(216, sql.NullTime{})\nc.JSON(216, json.RawMessage{})\nc.JSON(216, uuid.New())\nc.JSON(216, time.Now())\nc.JSON(216, time.Monday)\nc.JSON(216, regexp.Regexp{})\nc.JSON(216, bytes.Buffer{})\nc.JSON(216, tabwriter.Writer{})",
    "huge types": "c.JSON(216, http.Request{})\nc.JSON(216, &tls.Config{})\nc.JSON(216, ast.File{})",
    "gin's own types": "c.JSON(216, c)\nc.JSON(216, gin.Error{})\nc.JSON(216, c.Errors)\nc.JSON(216, gin.Params{})\nc.JSON(216, c.Request.URL)",
    "functions as payload": "c.JSON(216, recA)\nc.JSON(216, func() {})\nc.JSON(216, make(chan int))\nc.JSON(216, c.JSON)",
    "aliases": "var s Str = \"x\"\nvar n NodeAlias\nvar i Ints\nc.JSON(217, s)\nc.JSON(217, n)\nc.JSON(217, i)\nc.Query(s)",
    "enums": "c.JSON(217, High)\nc.JSON(217, M3)\nc.JSON(217, Level(2))\nc.JSON(217, []Mask{})",
    "local types": "type Local struct {\n\tA int\n\tB *Node\n}\ntype List []Local\ntype L = List\nc.JSON(217, Local{})\nc.JSON(217, List{})\nc.JSON(217, L{})\nvar in Local\n_ = c.BindJSON(&in)",
    "errors": "err := errors.New(\"x\")\nc.JSON(217, err)\nc.JSON(217, err.Error())\nc.JSON(217, gin.H{\"e\": err})\n_ = c.Error(err)\n_ = c.AbortWithError(statusOf(err), err)",
    "kept values": "c.Set(\"u\", Node{})\nu := c.MustGet(\"u\").(Node)\nc.JSON(217, u)\nif v, ok := c.Get(\"u\"); ok {\n\tc.JSON(217, v)\n\tc.JSON(217, v.(*Node))\n}",
    "type switch": "var v any = 1\nswitch x := v.(type) {\ncase int, string:\n\tc.JSON(217, x)\ncase *Node:\n\tc.JSON(217, x)\ncase nil:\n\tc.JSON(217, x)\ncase error:\n\tc.JSON(217, x.Error())\n}",
    "labels": "outer:\n\tfor i := 0; ; i++ {\n\t\tfor range names {\n\t\t\tif i > 1 {\n\t\t\t\tbreak outer\n\t\t\t}\n\t\t\tcontinue outer\n\t\t}\n\t}\n\tgoto end\nend:\n\tc.Next()",
    "ranges": "for i := 0; i < 3; i++ {\n\t_ = i\n}\nfor k, v := range map[string]Node{} {\n\tc.JSON(217, k)\n\tc.JSON(217, v)\n}\nfor i, r := range \"x\" {\n\tc.JSON(217, r)\n\t_ = i\n}\nfor _, n := range []*Node{} {\n\tc.JSON(217, n)\n}",
    "computed names": "n := \"a\"\nc.Query(n + \"b\")\nc.Query(fmt.Sprintf(\"%d\", 1))\nc.Query(names[0])\nc.Query(globalSvc.Name)\nc.Query(strings.ToLower(\"X\"))\nc.GetHeader(names[1])\nc.Header(n+\"x\", \"y\")\nc.PostForm(string(Str(\"z\")))\nc.QueryArray(c.Query(\"known\"))",
    "empty names": "c.Query(\"\")\nc.GetHeader(\"\")\nc.PostForm(\"\")\nc.Header(\"\", \"\")\n_, _ = c.FormFile(\"\")",
    "odd bindings": "var m map[string]any\n_ = c.BindJSON(&m)\nvar ns []Node\n_ = c.ShouldBindJSON(&ns)\n_ = c.BindQuery(&struct{ A string `form:\"a\"` }{})\nvar pp **Node\n_ = c.BindXML(pp)\nvar v any\n_ = c.ShouldBindYAML(&v)\n_ = c.BindHeader(&http.Header{})",
    "bound generics": "var p Page[Node]\n_ = c.BindJSON(&p)\n_ = c.ShouldBindQuery(pick(&p))\nvar q Pair[string, int]\n_ = c.Bind(&q)",
    "bound basics": "var s string\n_ = c.BindJSON(&s)\nvar n int\n_ = c.ShouldBindQuery(&n)\nvar f float64\n_ = c.Bind(&f)\nvar l Level\n_ = c.BindJSON(&l)\nvar bs []byte\n_ = c.BindJSON(&bs)",
    "bound calls": "_ = c.BindJSON(new(Node))\n_ = c.BindJSON(&matrix[0][0])\n_ = c.BindJSON(&globalSvc.Name)\n_ = c.BindJSON(&[]Node{})\n_ = c.BindJSON(nil)\n_ = c.ShouldBindWith(&Node{}, binding.JSON)\n_ = c.ShouldBindBodyWith(&Node{}, binding.XML)\n_ = c.MustBindWith(&Node{}, binding.Form)\n_ = c.BindUri(&Node{})\n_ = c.ShouldBindUri(&Node{})",
    "other context calls": "c.Redirect(302, \"/x\")\nc.HTML(200, \"x\", gin.H{})\nc.File(\"x\")\nc.IndentedJSON(200, Node{})\nc.SecureJSON(200, Node{})\nc.PureJSON(200, Node{})\nc.AsciiJSON(200, Node{})\nc.JSONP(200, Node{})\nc.TOML(200, Node{})\nc.SSEvent(\"x\", Node{})\nc.DataFromReader(200, 0, \"x\", nil, nil)\nc.Negotiate(200, gin.Negotiate{})\nc.Stream(func(w io.Writer) bool { return false })",
    "more context calls": "_ = c.Param(\"x\")\n_, _ = c.Cookie(\"x\")\nc.SetCookie(\"a\", \"b\", 1, \"\", \"\", true, true)\n_ = c.ClientIP()\n_, _ = c.MultipartForm()\n_, _ = c.GetRawData()\n_ = c.Request.Header.Get(\"X\")\n_ = c.DefaultQuery(\"a\", \"b\")\nc.Writer.WriteHeader(204)\n_, _ = c.Writer.WriteString(\"x\")\n_ = c.FullPath()\n_ = c.HandlerName()",
    "files": "f, err := os.Open(\"x\")\nif err == nil {\n\tdefer f.Close()\n\tc.JSON(217, f)\n}\n_ = c.SaveUploadedFile(nil, \"x\")",
    "data calls": "ct := \"a\" + \"/b\"\nc.Data(218, ct, nil)\nc.Data(218, \"\", nil)\nc.Data(218, http.DetectContentType(nil), nil)\nc.String(218, \"%s %d\", \"a\", 1)\nc.String(218, names[0])\nc.ProtoBuf(218, &Node{})\nc.XML(218, gin.H{})\nc.YAML(218, nil)",
    "assignments": "var (\n\ta, b = 1, Node{}\n\td   = map[string]Node{}\n)\na, b.Val = 2, 3\na++\na <<= 1\nd[\"x\"] = b\nv, ok := d[\"x\"]\nc.JSON(217, v)\nc.JSON(217, ok)\nx, y := 1, Node{}\nc.JSON(217, x)\nc.JSON(217, y)\nvar z any = b\nw, ok := z.(Node)\nc.JSON(217, w)",
    "closures over values": "n := Node{}\nfunc() {\n\tn := 1\n\tc.JSON(217, n)\n}()\nc.JSON(217, n)\nfor i := 0; i < 1; i++ {\n\tn := \"s\"\n\tc.JSON(217, n)\n}",
    "panics": "if c == nil {\n\tpanic(errNope)\n}\ndefer func() {\n\tif r := recover(); r != nil {\n\t\tc.JSON(217, r)\n\t}\n}()",
    "builtins": "_ = len(c.Query(\"len\"))\n_ = min(1, len(c.Query(\"min\")))\n_ = cap([]byte(c.Query(\"cap\")))\nclear(map[string]int{})\nprintln(c.Query(\"println\"))\n_ = copy([]byte{}, c.Query(\"copy\"))\n_ = append([]string{}, c.Query(\"append\"))\n_ = new(gin.Context)\n_ = complex(1, 2)",
    "locks": "var mu sync.Mutex\nmu.Lock()\ndefer mu.Unlock()\nvar wg sync.WaitGroup\nwg.Add(1)\ngo func() {\n\tdefer wg.Done()\n\tc.Next()\n}()\nwg.Wait()\nvar once sync.Once\nonce.Do(func() { c.Next() })",
    "struct of functions": "h := struct{ F func(*gin.Context) }{recA}\nh.F(c)\ng := map[string]Replier{\"a\": globalSvc}\ng[\"a\"].Reply(c)",
    "nested literals": "c.JSON(217, gin.H{\"a\": []any{gin.H{\"b\": Node{Kids: []*Node{{Val: 1}}}}}, \"c\": func() int { return 1 }()})\nc.JSON(217, []gin.H{{}})\nc.JSON(217, map[string]gin.H{})\nc.JSON(217, &gin.H{})",
    "promoted": "e := Embeds{Node: &Node{}}\nc.JSON(217, e.Kids)\nc.JSON(217, e.Node.Val)\nc.JSON(217, e.Level)\nc.JSON(217, e.Key)\nc.JSON(217, e.Thing)",
    "unsafe": "n := 1\nc.JSON(217, unsafe.Sizeof(n))\nc.JSON(217, *(*int)(unsafe.Pointer(&n)))",
    "empty": "",
    "only a return": "if true {\n\treturn\n}",
}

# Handlers that are not functions of the application: (imports, code that registers on r at P, method, path below P)
NATIVE = {
    "WrapF": ('r.GET(P, gin.WrapF(func(w http.ResponseWriter, q *http.Request) { w.WriteHeader(200) }))', "GET", ""),
    "WrapH": ('r.POST(P, gin.WrapH(http.NotFoundHandler()))', "POST", ""),
    "StaticFS": ('r.StaticFS(P, http.Dir("."))', "GET", "/*filepath"),
    "Static": ('r.Static(P, "./public")', "GET", "/*filepath"),
    "StaticFile": ('r.StaticFile(P, "x.txt")', "GET", ""),
    "StaticFileFS": ('r.StaticFileFS(P, "x.txt", http.Dir("."))', "GET", ""),
    "Recovery": ("r.GET(P, gin.Recovery())", "GET", ""),
    "Logger": ("r.GET(P, gin.Logger())", "GET", ""),
    "BasicAuth": ('r.GET(P, gin.BasicAuth(gin.Accounts{"a": "b"}))', "GET", ""),
    "Bind": ("r.GET(P, gin.Bind(Node{}))", "GET", ""),
    "middleware and handler": ("r.GET(P, gin.Recovery(), func(c *gin.Context) { c.Next() }, recA)", "GET", ""),
    "generic factory": ("r.GET(P, makeHandler(Node{}))", "GET", ""),
    "generic factory of basics": ("r.GET(P, makeHandler[int](1))", "GET", ""),
    "generic method value": ("r.GET(P, (&Page[Node]{}).Handle)", "GET", ""),
    "generic function value": ("r.GET(P, newPair(1, 2).Send)", "GET", ""),
    "chain": ("r.GET(P, chain(recA, unnamed))", "GET", ""),
    "onion": ("r.GET(P, onion(1))", "GET", ""),
    "unnamed parameter": ("r.GET(P, unnamed)", "GET", ""),
    "blank parameter": ("r.GET(P, noBody)", "GET", ""),
    "recursive": ("r.GET(P, recA)", "GET", ""),
    "interface method": ("var h Handy = Svc{}\n\tr.GET(P, h.Get)", "GET", ""),
    "method value": ("r.GET(P, globalSvc.Reply)", "GET", ""),
    "value method": ("r.GET(P, Svc{}.Get)", "GET", ""),
    "method expression": ("r.GET(P, func(c *gin.Context) { Svc.Get(Svc{}, c) })", "GET", ""),
    "promoted method": ("x := struct{ *Svc }{globalSvc}\n\tr.GET(P, x.Reply)", "GET", ""),
    "function of a map": ('r.GET(P, table["a"])', "GET", ""),
    "function of a slice": ("r.GET(P, fns[0])", "GET", ""),
    "loop variable": ("for _, f := range fns[:1] {\n\t\tr.GET(P, f)\n\t}", "GET", ""),
    "reflect": ("r.GET(P, reflect.MakeFunc(reflect.TypeOf(recA), func([]reflect.Value) []reflect.Value { return nil }).Interface().(func(*gin.Context)))", "GET", ""),
    "type of function": ("r.GET(P, gin.HandlerFunc(Fn(recA)))", "GET", ""),
    "immediate": ("r.GET(P, func() gin.HandlerFunc { return func(c *gin.Context) { c.Status(296) } }())", "GET", ""),
    "nested inline": ("func() {\n\t\tfunc() {\n\t\t\tr.GET(P, func(c *gin.Context) { c.Status(295) })\n\t\t}()\n\t}()", "GET", ""),
    "several lines": ("r.GET(\n\t\tP,\n\t\tfunc(\n\t\t\tc *gin.Context,\n\t\t) {\n\t\t\tc.Status(294)\n\t\t},\n\t)", "GET", ""),
    "other package": ("r.GET(P, other.Handle)", "GET", ""),
    "dotted package": ("r.GET(P, dotted.Do)", "GET", ""),
    "dotted package factory": ("r.GET(P, dotted.Make())", "GET", ""),
    "package of several files": ("r.GET(P, other.Split)", "GET", ""),
    "package with init": ("r.GET(P, other.Var)", "GET", ""),
    "line directive": ("r.GET(P, lined)", "GET", ""),
    "external function": ("r.GET(P, func(c *gin.Context) { http.NotFound(c.Writer, c.Request) })", "GET", ""),
    "no-op": ("r.GET(P, func(*gin.Context) {})", "GET", ""),
    "alias of gin": ("r.GET(P, other.Aliased)", "GET", ""),
    "dot import": ("r.GET(P, other.Dotted)", "GET", ""),
    "type alias of the context": ("r.GET(P, other.ViaAlias)", "GET", ""),
    "method of an embedded generic": ("r.GET(P, other.Gen{}.Send)", "GET", ""),
    "deferred answer": ("r.GET(P, func(c *gin.Context) { defer c.Status(293) })", "GET", ""),
    "goroutine answer": ("r.GET(P, func(c *gin.Context) { go c.Status(292) })", "GET", ""),
}

# What the handlers above are understood to answer
NATIVE_STATUS = {"immediate": 296, "nested inline": 295, "several lines": 294, "deferred answer": 293, "goroutine answer": 292, "generic factory": 299,
                 "generic factory of basics": 299, "chain": 298, "onion": 297, "other package": 281, "dotted package": 282, "package of several files": 283,
                 "alias of gin": 284, "dot import": 285, "dotted package factory": 286, "value method": 207, "function of a map": 202}

OTHER = {
    "odd/other/other.go": '''package other

import "github.com/gin-gonic/gin"

type Thing struct{ Name string `json:"name"` }
type Deep struct{ Thing; Level int }

func Handle(c *gin.Context) { c.Status(281) }

func Loop(c *gin.Context, n int) {
	if n > 0 {
		Loop(c, n-1)
	}
}

var Var gin.HandlerFunc

func init() { Var = func(c *gin.Context) { c.Status(280) } }

type base[T any] struct{ V T }

func (b base[T]) Send(c *gin.Context) { c.JSON(200, b.V) }

type Gen struct{ base[Thing] }
''',
    "odd/other/split.go": '''package other

import (
	web "github.com/gin-gonic/gin"
)

func Split(c *web.Context) { splitTail(c) }

func Aliased(context *web.Context) { context.Status(284) }
''',
    "odd/other/zsplit.go": '''package other

import . "github.com/gin-gonic/gin"

func splitTail(c *Context) { c.Status(283) }

func Dotted(c *Context) { c.Status(285) }

type Ctx = Context

func ViaAlias(c *Ctx) { c.Status(279) }
''',
    "odd/dotted.v2/dotted.go": '''// Package dotted has a dot in its path.
package dotted

import "github.com/gin-gonic/gin"

func Do(c *gin.Context) { c.Status(282) }

func Make() gin.HandlerFunc {
	return func(c *gin.Context) { c.Status(286) }
}
''',
}

# Every helper calls the next one twice, and every one of a group calls all of the group
DECLS += "".join("func ladder%d(c *gin.Context) {\n\tif c.Query(\"l%d\") == \"\" {\n\t\tladder%d(c)\n\t} else {\n\t\tladder%d(c)\n\t}\n}\n\n" % (i, i, i + 1, i + 1) for i in range(26))
DECLS += "func ladder26(c *gin.Context) { _ = c.Query(\"ladder\") }\n\n"
DECLS += "".join("func clique%d(c *gin.Context, n int) {\n\tif n == 0 {\n\t\treturn\n\t}\n%s}\n\n" % (
    i, "".join("\tclique%d(c, n-1)\n" % j for j in range(11) if j != i)) for i in range(11))

LINED = '''

//line generated.y:10
func lined(c *gin.Context) { c.Status(291) }
'''


def wrap(r, k, body):
    """A scope for the statements of a snippet."""
    import textwrap
    ind = lambda s, n=1: "\n".join("\t" * n + l if l else l for l in s.split("\n"))
    if k == "labels":
        return "func() {\n%s\n}()" % ind(body)
    w = r.choice(["block", "block", "if", "else", "for", "func", "switch", "defer", "go", "select"])
    b = ind(body)
    return {"block": "{\n%s\n}", "if": "if c != nil {\n%s\n}", "else": "if c == nil {\n\tc.Next()\n} else {\n%s\n}", "for": "for range names {\n%s\n}",
            "func": "func() {\n%s\n}()", "switch": "switch {\ncase c != nil:\n%s\ndefault:\n\tc.Next()\n}", "defer": "defer func() {\n%s\n}()", "go": "go func() {\n%s\n}()",
            "select": "select {\ndefault:\n%s\n}"}[w] % b


def package(r, n_mixed):
    """The file of odd handlers: its text, and [(name, route, snippets, statuses that are understood)]."""
    import re
    decls, regs, routes = [DECLS], [], []
    for i, (k, b) in enumerate(sorted(BODY.items())):
        routes.append((k, "GET", "/odd/b%d" % i, [k], [270]))
        decls.append("func odd%d(c *gin.Context) {\n%s\n\tc.Status(270)\n}" % (i, "\n".join("\t" + l for l in wrap(r, k, b).split("\n"))))
        regs.append("\trt.Handle(\"odd%d\", \"GET\", \"/odd/b%d\", odd%d)" % (i, i, i))
    for i in range(n_mixed):
        ks = r.sample(sorted(BODY), r.randint(2, 7))
        parts, sts = [], []
        for j, k in enumerate(ks):
            parts.append(wrap(r, k, BODY[k]))
            parts.append("c.Status(%d)" % (271 + j))
            sts.append(271 + j)
        n = "mixed%d" % i
        ctx = r.choice(["c", "ctx", "gc"])
        body = "\n".join("\t" + l for l in "\n".join(parts).split("\n"))
        head = "func %s(c *gin.Context) {" % n if ctx == "c" else "func %s(%s *gin.Context) {\n\tc := %s" % (n, ctx, ctx)
        decls.append("%s\n%s\n}" % (head, body))
        regs.append("\trt.Handle(\"%s\", \"%s\", \"/odd/m%d\", %s)" % (n, "GET", i, n))
        routes.append((n, "GET", "/odd/m%d" % i, ks, sts))
    natives = []
    for i, (k, (code, m, tail)) in enumerate(sorted(NATIVE.items())):
        p = "/nat/n%d" % i
        decls.append("func native%d(r *gin.Engine) {\n\tconst P = \"%s\"\n\t%s\n}" % (i, p, code))
        regs.append("\trt.Natives[\"native%d\"] = native%d" % (i, i))
        natives.append((k, m, p + tail, "native%d" % i, [NATIVE_STATUS[k]] if k in NATIVE_STATUS else []))
    decls.append("func init() {\n%s\n}" % "\n".join(regs))
    text = "\n\n".join(decls) + LINED
    used = [p for p in IMPORTS + ["example.com/genapp/rt"] if re.search(r"\b%s\." % p.split("/")[-1].replace(".v2", ""), text)]
    return "package main\n\nimport (\n%s\n)\n\n%s" % ("\n".join('\t"%s"' % p for p in used), text), routes, natives
