# The planted bugs: seed(id, property, needs, what it breaks, edits of /repo, main.go after the common head, what judges the outputs)
T = "	"

seed("c01-head-shadowed", "C01", "a path that is registered for GET first and HEAD later",
     "a HEAD operation is left out of the path item if a GET operation is already there",
     [("outputs/openapi/generate.go", "			case http.MethodHead:\n				endpointPath.Head = &operation\n",
       "			case http.MethodHead:\n				if endpointPath.Get == nil {\n					endpointPath.Head = &operation\n				}\n")],
     '''
     func show(c *gin.Context) { c.String(200, "x") }
     func probe(c *gin.Context) { c.Status(204) }

     func main() {
     	r := gin.New()
     	r.GET("/things/:id", show)
     	r.HEAD("/things/:id", probe)
     	r.HEAD("/alone", probe)
     	generate(r)
     }
     ''', '''
     d = load()
     check(sorted(d["paths"]["/things/{id}"]) == ["get", "head"], d["paths"])
     check(sorted(d["paths"]["/alone"]) == ["head"], d["paths"])
     ''')

seed("c01-param-charset", "C01", "a path parameter whose name has a character that is not a letter, a digit or an underscore",
     "the name of a path parameter ends at the first character that is not a word character",
     [("utils/pathParams.go", r"`:[^\/]+|\*[^\/]+`", r"`:\w+|\*\w+`")],
     '''
     func show(c *gin.Context) { c.String(200, "x") }

     func main() {
     	r := gin.New()
     	r.GET("/posts/:post-id/x", show)
     	r.GET("/files/*file.path", show)
     	generate(r)
     }
     ''', '''
     d = load()
     check(sorted(d["paths"]) == ["/files/{file.path*}", "/posts/{post-id}/x"], sorted(d["paths"]))
     check(params(d, "/posts/{post-id}/x") == [("path", "post-id")], params(d, "/posts/{post-id}/x"))
     ''')

seed("c02-clean-path", "C02", "a deny rule about the slash at the end of a path",
     "deny rules see the path without the slash at its end",
     [("inputs/gin/createRoutes.go", "if denyFunc(route.Path) {", 'if denyFunc(path.Clean(route.Path)) {'),
      ("inputs/gin/createRoutes.go", 'import (\n	"reflect"\n', 'import (\n	"path"\n	"reflect"\n')],
     '''
     func show(c *gin.Context) { c.String(200, "x") }

     func main() {
     	r := gin.New()
     	r.GET("/admin/", show)
     	r.GET("/users/:id/", show)
     	r.GET("/shown", show)
     	generate(r, astra.WithPathDenyList("/admin/"), astra.WithPathDenyListRegex(regexp.MustCompile(`:id/$`)))
     }
     ''', '''
     d = load()
     check(sorted(d["paths"]) == ["/shown"], sorted(d["paths"]))
     ''', imports=["regexp"])

seed("c02-anchored-regex", "C02", "a regular expression that matches an alternative or a part that is not the longest match of the whole path",
     "a deny regular expression has to match the whole path",
     [("listing.go", "return regex.MatchString(path)", "return regex.FindString(path) == path")],
     '''
     func show(c *gin.Context) { c.String(200, "x") }

     func main() {
     	r := gin.New()
     	r.GET("/internal/stats", show)
     	r.GET("/api/internal", show)
     	r.GET("/shown", show)
     	generate(r, astra.WithPathDenyListRegex(regexp.MustCompile(`internal`)))
     }
     ''', '''
     d = load()
     check(sorted(d["paths"]) == ["/shown"], sorted(d["paths"]))
     ''', imports=["regexp"])

seed("c02-func-replaces", "C02", "a deny function that is given after other deny rules",
     "a deny function replaces the deny rules that were given before it",
     [("listing.go", "		s.PathDenyList = append(s.PathDenyList, denyList)\n", "		s.PathDenyList = []func(string) bool{denyList}\n")],
     '''
     func show(c *gin.Context) { c.String(200, "x") }

     func main() {
     	r := gin.New()
     	r.GET("/one", show)
     	r.GET("/two", show)
     	r.GET("/shown", show)
     	generate(r, astra.WithPathDenyList("/one"), astra.WithPathDenyListFunc(func(p string) bool { return p == "/two" }))
     }
     ''', '''
     d = load()
     check(sorted(d["paths"]) == ["/shown"], sorted(d["paths"]))
     ''')

seed("c03-context-not-first", "C03", "a helper that takes the context after an argument that is not an identifier",
     "the search for the context among the arguments of a call ends at the first one that is not an identifier",
     [("astTraversal/callExpression.go", "		if !ok {\n			continue\n		}\n\n		if ident.Name == argName {", "		if !ok {\n			break\n		}\n\n		if ident.Name == argName {")],
     '''
     type Problem struct{ Reason string }

     func fail(reason string, c *gin.Context) { c.JSON(422, Problem{reason}) }

     func show(c *gin.Context) {
     	if c.Query("q") == "" {
     		fail("no q", c)
     		return
     	}
     	c.String(200, "x")
     }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     d = load()
     check(sorted(op(d, "/a")["responses"]) == ["200", "422"], op(d, "/a"))
     ''')

seed("c04-bind-multipart", "C04", "a struct that is bound with Bind or ShouldBind",
     "only the first content type of every binding tag is documented for Bind, so multipart forms are lost",
     [("inputs/gin/parseFunction.go", "						for _, contentType := range contentTypes {\n", "						for _, contentType := range contentTypes[:1] {\n")],
     '''
     type In struct {
     	Name string `form:"name" json:"name" xml:"name" yaml:"name"`
     }

     func create(c *gin.Context) {
     	var in In
     	if err := c.ShouldBind(&in); err != nil {
     		c.Status(400)
     		return
     	}
     	c.Status(201)
     }

     func main() {
     	r := gin.New()
     	r.POST("/a", create)
     	generate(r)
     }
     ''', '''
     d = load()
     check("multipart/form-data" in op(d, "/a", "post")["requestBody"]["content"], op(d, "/a", "post"))
     ''')

seed("c04-first-value", "C04", "a name that is the second variable of a declaration of several",
     "the value of any variable of a declaration is taken to be that of the first one",
     [("astTraversal/declaration.go", "		return n.Values[index], nil", "		return n.Values[0], nil"),
      ("astTraversal/declaration.go", "		if index >= len(n.Values) {", "		if index >= len(n.Values) || len(n.Values) == 0 {")],
     '''
     var first, second = "one", "two"

     func show(c *gin.Context) {
     	c.Query(second)
     	c.GetHeader(first)
     	c.Status(204)
     }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     d = load()
     check(params(d, "/a") == [("header", "one"), ("query", "two")], params(d, "/a"))
     ''')

seed("c04-same-name-package", "C04", "a bound query struct with the name of a struct of another package whose path ends the same",
     "the struct of bound parameters is looked up by the last element of its package's path",
     [("outputs/openapi/schema.go", "		if field.Package == pkg && field.Name == typeName {", "		if getPackageName(field.Package) == getPackageName(pkg) && field.Name == typeName {")],
     '''
     func one(c *gin.Context) {
     	var q a.Filter
     	_ = c.ShouldBindQuery(&q)
     	c.Status(204)
     }

     func two(c *gin.Context) {
     	var q b.Filter
     	_ = c.ShouldBindQuery(&q)
     	c.Status(204)
     }

     func main() {
     	r := gin.New()
     	r.GET("/one", one)
     	r.GET("/two", two)
     	generate(r)
     }
     ''', '''
     d = load()
     check(params(d, "/one") == [("query", "since")], params(d, "/one"))
     check(params(d, "/two") == [("query", "until")], params(d, "/two"))
     ''', imports=['a "example.com/demo/one/models"', 'b "example.com/demo/two/models"'],
     files={"one/models/m.go": '''
            package models

            type Filter struct {
            	Since string `form:"since"`
            }
            ''', "two/models/m.go": '''
            package models

            type Filter struct {
            	Until string `form:"until"`
            }
            '''})

seed("c08-sort-ignores-case", "C08", "a bound struct with two fields whose names only differ in their case",
     "parameters are ordered without their case, so those that only differ in it have the order of a map",
     [("outputs/openapi/generate.go", "return operation.Parameters[i].Name < operation.Parameters[j].Name", "return strings.ToLower(operation.Parameters[i].Name) < strings.ToLower(operation.Parameters[j].Name)")],
     '''
     type Filter struct {
     	A string `form:"id"`
     	B string `form:"ID"`
     	C string `form:"Id"`
     }

     func show(c *gin.Context) {
     	var q Filter
     	_ = c.ShouldBindQuery(&q)
     	c.Status(204)
     }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	outs := []astra.Option{}
     	for i := 0; i < 40; i++ {
     		outs = append(outs, outputs.WithOpenAPIOutput(fmt.Sprintf("o%d.json", i)))
     	}
     	generate(r, outs...)
     }
     ''', '''
     texts = {open("o%d.json" % i).read() for i in range(40)}
     check(len(texts) == 1, "%d different documents" % len(texts))
     ''', imports=["fmt"])

seed("c10-rebind-base", "C10", "the astra command and an output in a directory of its own",
     "the command writes OpenAPI outputs to the working directory, whichever directory they were configured with",
     [("cli/astra/cmd/rebind.go", "outputs.WithOpenAPIOutput(filePath)(s)", "outputs.WithOpenAPIOutput(path.Base(filePath))(s)"),
      ("cli/astra/cmd/rebind.go", 'import (\n', 'import (\n	"path"\n\n')],
     '''
     func show(c *gin.Context) { c.String(200, "x") }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	if err := os.Mkdir("docs", 0755); err != nil {
     		panic(err)
     	}
     	s := astra.New(inputs.WithGinInput(r), outputs.WithOpenAPIOutput("docs/openapi.json"), astra.WithConfig(config), cli.WithCLI())
     	if err := s.SetupParse(); err != nil {
     		panic(err)
     	}
     }
     ''', '''
     check(os.path.exists("docs/openapi.json"), "docs/openapi.json is missing")
     check("/a" in load("docs/openapi.json")["paths"], "no path")
     ''', imports=["os", "github.com/ls6-events/astra/cli"],
     run=RUN + '\ncp "$repo/cli/astra/go.mod" "$W/cli.mod"; cat "$repo/go.sum" "$repo/cli/astra/go.sum" | sort -u > "$W/cli.sum"\n(cd "$repo/cli/astra" && GOFLAGS="-mod=mod -modfile=$W/cli.mod" go build -o "$W/astra-cli" .) || exit 8\ntimeout 200 "$W/astra-cli" generate >"$W/log" 2>&1 || { tail -5 "$W/log"; exit 6; }')

seed("c10-cache-leftover", "C10", "a YAML cache that is shorter than the one the file had before",
     "a cache is written over the previous one without removing the rest of it",
     [("cache.go", "	if _, err := os.Stat(cachePath); err == nil {\n		err := s.ClearCache()\n		if err != nil {\n			return err\n		}\n	}\n\n	f, err := os.Create(cachePath)\n",
       "	f, err := os.OpenFile(cachePath, os.O_RDWR|os.O_CREATE, 0666)\n")],
     '''
     func show(c *gin.Context) { c.String(200, "x") }

     func main() {
     	long := gin.New()
     	for i := 0; i < 40; i++ {
     		long.GET(fmt.Sprintf("/a/%d", i), show)
     	}
     	generate(long, cache.WithCustomCachePath("cache.yaml"))
     	short := gin.New()
     	short.GET("/a", show)
     	generate(short, cache.WithCustomCachePath("cache.yaml"))

     	s := astra.New(outputs.WithOpenAPIOutput("openapi.json"))
     	if err := s.LoadCacheFromCustomPath("cache.yaml"); err != nil {
     		panic(err)
     	}
     	if len(s.Routes) != 1 {
     		panic(fmt.Sprint(len(s.Routes), " routes"))
     	}
     }
     ''', "check(True, '')", imports=["fmt", "github.com/ls6-events/astra/cache"])

seed("c11-main-copy-stays", "C11", "a direct run with a cache",
     "a run with a cache leaves the copy of the main package behind",
     [("teardown.go", "	} else {\n		s.Log.Info().Msg(\"Leaving temp dir but", "	} else if s.CLIMode != CLIModeNone {\n		s.Log.Info().Msg(\"Leaving temp dir but")],
     '''
     type Out struct{ A string }

     func show(c *gin.Context) { c.JSON(200, Out{}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r, cache.WithCache())
     }
     ''', '''
     check(sorted(os.listdir(".astra")) == [".gitignore", "cache.json"], os.listdir(".astra"))
     ''', imports=["github.com/ls6-events/astra/cache"])

seed("c11-empty-gitignore", "C11", "a project that keeps its cache with a .gitignore of its own that is empty",
     "a .gitignore of the user in the temporary directory is overwritten if it is empty",
     [("dir.go", "	if _, err := os.Stat(gitIgnorePath); err == nil {\n		return nil\n", "	if info, err := os.Stat(gitIgnorePath); err == nil && info.Size() > 0 {\n		return nil\n")],
     '''
     type Out struct{ A string }

     func show(c *gin.Context) { c.JSON(200, Out{}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	if err := os.Mkdir(".astra", 0755); err != nil {
     		panic(err)
     	}
     	if err := os.WriteFile(".astra/.gitignore", nil, 0644); err != nil {
     		panic(err)
     	}
     	generate(r, cache.WithCache())
     }
     ''', '''
     check(open(".astra/.gitignore").read() == "", open(".astra/.gitignore").read())
     ''', imports=["os", "github.com/ls6-events/astra/cache"])

seed("c12-contact-merged", "C12", "a contact that is set twice, without every field the second time",
     "setting the contact keeps what the new one leaves empty",
     [("configBuilder.go", "	c.config.Contact = contact\n",
       "	if contact.Name != \"\" {\n		c.config.Contact.Name = contact.Name\n	}\n	if contact.URL != \"\" {\n		c.config.Contact.URL = contact.URL\n	}\n	if contact.Email != \"\" {\n		c.config.Contact.Email = contact.Email\n	}\n")],
     '''
     func show(c *gin.Context) { c.String(200, "x") }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	built, err := astra.NewConfigBuilder().SetPort(80).SetContact(astra.Contact{Name: "old", Email: "old@example.com"}).SetContact(astra.Contact{Name: "new"}).Build()
     	if err != nil {
     		panic(err)
     	}
     	config = built
     	generate(r)
     }
     ''', '''
     d = load()
     check(d["info"]["contact"] == {"name": "new"}, d["info"])
     ''')

seed("c12-base-path-cleaned", "C12", "a base path that ends in a slash",
     "the base path of the server's URL is cleaned",
     [("outputs/openapi/generate.go", "s.Config.Host, s.Config.Port, s.Config.BasePath)", "s.Config.Host, s.Config.Port, cleanBasePath(s.Config.BasePath))"),
      ("outputs/openapi/generate.go", "// Generate the OpenAPI output.\n", "func cleanBasePath(basePath string) string {\n	if basePath == \"\" {\n		return basePath\n	}\n\n	return path.Clean(basePath)\n}\n\n// Generate the OpenAPI output.\n")],
     '''
     func show(c *gin.Context) { c.String(200, "x") }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	config.BasePath = "/api/v1/"
     	generate(r)
     }
     ''', '''
     d = load()
     check(d["servers"] == [{"url": "http://localhost:8080/api/v1/"}], d["servers"])
     ''')

seed("c14-headers-inherited", "C14", "a route with response headers before a route without any",
     "an operation without response headers has those of the operation before it",
     [("outputs/openapi/generate.go", "			var responseHeaders map[string]Header\n", ""),
      ("outputs/openapi/generate.go", "		for _, endpoint := range s.Routes {\n", "		var responseHeaders map[string]Header\n		for _, endpoint := range s.Routes {\n")],
     '''
     func one(c *gin.Context) {
     	c.Header("X-One", "1")
     	c.String(200, "x")
     }

     func two(c *gin.Context) { c.String(200, "x") }

     func main() {
     	r := gin.New()
     	r.GET("/one", one)
     	r.GET("/two", two)
     	generate(r)
     }
     ''', '''
     d = load()
     check("headers" not in op(d, "/two")["responses"]["200"], op(d, "/two"))
     ''')

seed("c15-mapping-by-base", "C15", "a custom mapping of a package that another package's path ends with",
     "a type without a mapping takes that of a type of the same name whose package is the last path element of its own",
     [("formatTypes.go", "	value, exists := s.fullTypeMapping[key]\n", "	value, exists := s.fullTypeMapping[key]\n	if !exists {\n		value, exists = s.fullTypeMapping[path.Base(key)]\n	}\n"),
      ("formatTypes.go", 'import "maps"\n', 'import (\n	"maps"\n	"path"\n)\n')],
     '''
     func show(c *gin.Context) { c.JSON(200, big.Int{}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r, astra.WithCustomTypeMappingSingle("big.Int", "string", "bigint"))
     }
     ''', '''
     d = load()
     check(d["components"]["schemas"]["big.Int"].get("format") != "bigint", d["components"])
     ''', imports=["example.com/demo/big"], files={"big/big.go": "package big\n\ntype Int struct{ A string }\n"})

seed("c16-first-paragraph", "C16", "a doc comment of several paragraphs",
     "only the first paragraph of a handler's comment is its description",
     [("inputs/gin/parseFunction.go", "currRoute.Doc = strings.TrimSpace(funcDoc)", 'currRoute.Doc, _, _ = strings.Cut(strings.TrimSpace(funcDoc), "\\n\\n")')],
     '''
     // show shows it.
     //
     // It needs nothing.
     func show(c *gin.Context) { c.String(200, "x") }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     d = load()
     check(op(d, "/a")["description"] == "show shows it.\\n\\nIt needs nothing.", op(d, "/a"))
     ''')

seed("c16-group-doc-first", "C16", "a group of types with a comment, in which a type has its own comment",
     "the comment of a group of types has priority over that of a type in it",
     [("astTraversal/packageNode.go", "} else if typeSpec.Doc != nil { // The TypeSpec has priority over the GenDecl", "} else if typeSpec.Doc != nil && genDecl.Doc == nil { // The GenDecl has the documentation otherwise")],
     '''
     // These are the answers.
     type (
     	// Out is an answer.
     	Out struct{ A string }
     )

     func show(c *gin.Context) { c.JSON(200, Out{}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     d = load()
     check(d["components"]["schemas"]["main.Out"]["description"] == "Out is an answer.", d["components"])
     ''')

seed("c16-slashes-removed", "C16", "a doc comment with a URL",
     "every pair of slashes in a comment is removed",
     [("astTraversal/docs.go", 'strings.TrimPrefix(doc, "//")', 'strings.ReplaceAll(doc, "//", "")')],
     '''
     // Out is described at https://example.com/out.
     type Out struct{ A string }

     func show(c *gin.Context) { c.JSON(200, Out{}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     d = load()
     check(d["components"]["schemas"]["main.Out"]["description"] == "Out is described at https://example.com/out.", d["components"])
     ''')

seed("c17-json-dedupe", "C17", "one handler for two methods of one path",
     "the debugging output lists a handler's path once, even if it has several methods",
     [("outputs/json/generate.go", "			Routes:     s.Routes,\n", "			Routes:     uniqueRoutes(s.Routes),\n"),
      ("outputs/json/generate.go", "// Generate will create", "func uniqueRoutes(routes []astra.Route) []astra.Route {\n	unique := make([]astra.Route, 0, len(routes))\n	seen := make(map[string]bool)\n	for _, route := range routes {\n		key := route.Handler + \" \" + route.Path\n		if seen[key] {\n			continue\n		}\n\n		seen[key] = true\n		unique = append(unique, route)\n	}\n\n	return unique\n}\n\n// Generate will create")],
     '''
     func show(c *gin.Context) { c.String(200, "x") }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	r.POST("/a", show)
     	generate(r, outputs.WithJSONOutput("debug.json"))
     }
     ''', '''
     got = sorted(r["method"] for r in load("debug.json")["routes"])
     check(got == ["GET", "POST"], got)
     ''')

seed("c17-azure-head", "C17", "a HEAD route in the Azure Functions output",
     "the trigger of a HEAD route is one for GET requests",
     [("outputs/azureFunctions/associatedMethods.go", "	return []string", "	if method == \"HEAD\" {\n		method = \"GET\"\n	}\n\n	return []string")],
     '''
     func probe(c *gin.Context) { c.Status(204) }

     func main() {
     	r := gin.New()
     	r.HEAD("/a", probe)
     	generate(r, outputs.WithAzureFunctionsOutput("azure"))
     }
     ''', '''
     b = load("azure/probe/function.json")["bindings"][0]
     check(b["methods"][0] == "head", b)
     ''')

PM = '''
     package main

     import (
     	"fmt"
     	"os"
     	"sync"

     	"github.com/ls6-events/astra/astTraversal"
     )

     func main() {
     	for round := 0; round < 3000; round++ {
     		pm := astTraversal.NewPackageManager(".")
     		nodes := make([]*astTraversal.PackageNode, 16)
     		start := make(chan struct{})
     		var wg sync.WaitGroup
     		for i := range nodes {
     			i := i
     			wg.Add(1)
     			go func() {
     				defer wg.Done()
     				<-start
     				pm.AddPackage(fmt.Sprintf("example.com/p%d", i%2))
     				nodes[i] = pm.AddPackage("example.com/a/b/c/d/e/f/g")
     			}()
     		}
     		close(start)
     		wg.Wait()
     		for _, n := range nodes {
     			if n != nodes[0] || pm.Find("example.com/a/b/c/d/e/f/g") != n {
     				fmt.Println("FAILED: several nodes for one path")
     				os.Exit(1)
     			}
     		}
     	}
     }
'''
RUNPM = 'GORACE="halt_on_error=1 exitcode=66" timeout 250 ./demo >"$W/log" 2>&1 || { tail -5 "$W/log"; exit 7; }'
seed("c18-add-check-then-act", "C18", "two goroutines that add the same package, one of which looks for the step before the other has added it",
     "the lock is given up between looking for a step of a path and adding it",
     [("astTraversal/packageManager.go", "	pathItems := strings.Split(pkgPath, \"/\")\n\n	pm.mu.Lock()\n	defer pm.mu.Unlock()\n\n	currNode := pm.tree\n", "	pathItems := strings.Split(pkgPath, \"/\")\n\n	currNode := pm.tree\n"),
      ("astTraversal/packageManager.go", "		found := false\n		for _, node := range currNode.Edges {\n			if node.Name == step {\n				found = true\n				currNode = node\n				break\n			}\n		}\n\n		if !found {\n			newNode",
       "		found := false\n		pm.mu.Lock()\n		for _, node := range currNode.Edges {\n			if node.Name == step {\n				found = true\n				currNode = node\n				break\n			}\n		}\n		pm.mu.Unlock()\n\n		if !found {\n			newNode"),
      ("astTraversal/packageManager.go", "			currNode.Edges = append(currNode.Edges, newNode)\n", "			pm.mu.Lock()\n			currNode.Edges = append(currNode.Edges, newNode)\n			pm.mu.Unlock()\n")],
     PM, "check(True, '')", run=RUNPM, head=False)

seed("c18-find-unlocked", "C18", "a lookup while another goroutine adds a package",
     "lookups only hold the lock until they have the root of the tree",
     [("astTraversal/packageManager.go", "	pm.mu.Lock()\n	defer pm.mu.Unlock()\n\n	currNode := pm.tree\n	pathItems := strings.Split(path, \"/\")\n", "	pm.mu.Lock()\n	currNode := pm.tree\n	pm.mu.Unlock()\n\n	pathItems := strings.Split(path, \"/\")\n")],
     PM.replace('nodes[i] = pm.AddPackage', 'for k := 0; k < 40; k++ {\n     					pm.Find(fmt.Sprintf("example.com/q%d/x", k))\n     					pm.AddPackage(fmt.Sprintf("example.com/q%d-%d", i, k))\n     				}\n     				nodes[i] = pm.AddPackage').replace("3000", "50"), "check(True, '')", run=RUNPM, head=False, flags="-race")

seed("c19-last-assigned", "C19", "a name that is read through the first variable of an assignment of several",
     "the value of any variable of an assignment is taken to be the last one",
     [("astTraversal/declaration.go", "		return n.Rhs[index], nil", "		return n.Rhs[len(n.Rhs)-1], nil")],
     '''
     func show(c *gin.Context) {
     	name, header := "q", "X-Q"
     	c.Query(name)
     	c.GetHeader(header)
     	c.Status(204)
     }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     d = load()
     check(params(d, "/a") == [("header", "X-Q"), ("query", "q")], params(d, "/a"))
     ''')

seed("c19-two-arguments", "C19", "a helper that takes the context as its third argument or later",
     "the context is only looked for among the first two arguments of a helper",
     [("astTraversal/callExpression.go", "	for i, arg := range c.Node.Args {\n		ident", "	for i, arg := range c.Node.Args {\n		if i > 1 {\n			break\n		}\n\n		ident")],
     '''
     func respond(status int, text string, c *gin.Context) { c.String(201, text) }

     func show(c *gin.Context) {
     	text := "x"
     	respond(1, text, c)
     	c.Status(204)
     }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     d = load()
     check(sorted(op(d, "/a")["responses"]) == ["201", "204"], op(d, "/a"))
     ''')

seed("c06-items-left-out", "C06", "a list of values of any type",
     "the schema of a list whose elements can be anything has no items, which arrays need",
     [("outputs/openapi/components.go", """		schema = Schema{
			Type:  "array",
			Items: &itemSchema,
		}
	} else if component.Type == "array" {""", """		schema = Schema{Type: "array"}
		if itemSchema.Type != "" || itemSchema.Ref != "" {
			schema.Items = &itemSchema
		}
	} else if component.Type == "array" {""")],
     '''
     type Out struct {
     	Name string
     	Rest []any
     }

     func show(c *gin.Context) { c.JSON(200, Out{}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     rest = load()["components"]["schemas"]["main.Out"]["properties"]["Rest"]
     check(rest["type"] != "array" or "items" in rest, rest)
     ''')

seed("c07-component-suffix", "C07", "types of the same name, the path of whose packages is the end of the other's path",
     "a component is taken to be there already if one of the same name is in a package whose path ends with that of the new one",
     [("safePushing.go", "newComponent.Package == existingComponent.Package {", """(newComponent.Package == existingComponent.Package || strings.HasSuffix(existingComponent.Package, "/"+newComponent.Package)) {"""),
      ("safePushing.go", """	"reflect"
	"slices"
""", """	"reflect"
	"slices"
	"strings"
""")],
     '''
     func one(c *gin.Context) { c.JSON(200, a.Time{}) }
     func two(c *gin.Context) { c.JSON(200, time.Time{}) }

     func main() {
     	r := gin.New()
     	r.GET("/one", one)
     	r.GET("/two", two)
     	generate(r)
     }
     ''', '''
     d = load()
     refs = [op(d, p)["responses"]["200"]["content"]["application/json"]["schema"].get("$ref") for p in ("/one", "/two")]
     got = [d["components"]["schemas"].get((r or "").split("/")[-1], {}).get("type") for r in refs]
     check(got == ["object", "string"], (refs, got))
     ''', imports=['a "example.com/demo/time"', "time"],
     files={"time/m.go": "package time\n\ntype Time struct{ Zone string }\n"})

seed("c08-last-pair", "C08", "structs that have fields whose tags differ and fields whose tags don't",
     "whether the tags of a struct differ is decided by the last two tags that were compared, in the order of maps",
     [("bindingTags.go", "if previousTag != (astTraversal.BindingTag{}) && !uniqueBindings {", "if previousTag != (astTraversal.BindingTag{}) {")],
     '''
     type Out struct {
     	A string `json:"a" xml:"a"`
     	B string `json:"b" xml:"b"`
     	C string `json:"c" xml:"C"`
     }

     func show(c *gin.Context) { c.JSON(200, Out{}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	outs := []astra.Option{}
     	for i := 0; i < 40; i++ {
     		outs = append(outs, outputs.WithOpenAPIOutput(fmt.Sprintf("o%d.json", i)))
     	}
     	generate(r, outs...)
     }
     ''', '''
     texts = {open("o%d.json" % i).read() for i in range(40)}
     check(len(texts) == 1, "%d different documents" % len(texts))
     ''', imports=["fmt"])

seed("c15-predefined-wins", "C15", "a mapping of a type that astra has a mapping of itself",
     "the predefined mappings override those of the user",
     [("formatTypes.go", "		maps.Copy(s.fullTypeMapping, PredefinedTypeMap)\n		maps.Copy(s.fullTypeMapping, s.CustomTypeMapping)\n", "		maps.Copy(s.fullTypeMapping, s.CustomTypeMapping)\n		maps.Copy(s.fullTypeMapping, PredefinedTypeMap)\n")],
     '''
     type Out struct {
     	At time.Time `json:"at"`
     }

     func show(c *gin.Context) { c.JSON(200, Out{}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r, astra.WithCustomTypeMappingSingle("time.Time", "integer", "int64"))
     }
     ''', '''
     d = load()
     check(d["components"]["schemas"]["time.Time"]["type"] == "integer", d["components"])
     ''', imports=("time",))

seed("c13-yaml-tag", "C13", "an array in a YAML document",
     "the length of an array has another key in YAML documents than in JSON documents",
     [("outputs/openapi/types.go", 'yaml:"maxItems,omitempty"', 'yaml:"maxitems,omitempty"')],
     '''
     type Out struct{ Counts [3]int }

     func show(c *gin.Context) { c.JSON(200, Out{}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r, outputs.WithOpenAPIOutput("openapi.yaml"))
     }
     ''', '''
     check("maxItems:" in open("openapi.yaml").read(), open("openapi.yaml").read())
     ''')

seed("c05-duration-by-base", "C05", "a type Duration of a package of the application that is called time",
     "a type is described as a number because a type of that name is in a standard package of that name",
     [("substituteTypes.go", 'fmt.Sprintf("%s.%s", component.Package, component.Name)', 'fmt.Sprintf("%s.%s", path.Base(component.Package), component.Name)'),
      ("substituteTypes.go", 'import "fmt"\n', 'import (\n\t"fmt"\n\t"path"\n)\n')],
     '''
     type Out struct {
     	For a.Duration `json:"for"`
     }

     func show(c *gin.Context) { c.JSON(200, Out{}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     got = [s.get("type") for n, s in load()["components"]["schemas"].items() if n.endswith("time.Duration")]
     check(got == ["object"], got)
     ''', imports=['a "example.com/demo/time"'],
     files={"time/m.go": "package time\n\ntype Duration struct{ Days int }\n"})

seed("c05-enum-one-file", "C05", "an enumeration whose constants are in two files",
     "only the constants of the first file that has any are the values of an enumeration",
     [("astTraversal/type.go", """			for _, file := range t.Package.Package.Syntax {
""", """			for i := 0; i < len(t.Package.Package.Syntax) && len(result.EnumValues) == 0; i++ {
				file := t.Package.Package.Syntax[i]
""")],
     '''
     type Code string

     const Small Code = "small"

     type Out struct {
     	Code Code `json:"code"`
     }

     func show(c *gin.Context) { c.JSON(200, Out{Code: Large}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     d = load()
     check(sorted(d["components"]["schemas"]["main.Code"]["enum"]) == ["large", "small"], d["components"])
     ''', files={"more.go": "package main\n\nconst Large Code = \"large\"\n"})
