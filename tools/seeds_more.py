# The second lot of planted bugs, in the same form

seed("c02-fold", "C02", "a denied path and another one that only differs in the case of its letters",
     "exact deny rules ignore the case of letters",
     [("listing.go", "			return path == denyList\n", "			return strings.EqualFold(path, denyList)\n"),
      ("listing.go", 'import "regexp"\n', 'import (\n	"regexp"\n	"strings"\n)\n')],
     '''
     func show(c *gin.Context) { c.String(200, "x") }

     func main() {
     	r := gin.New()
     	r.GET("/users/:ID", show)
     	r.POST("/users/:id", show)
     	generate(r, astra.WithPathDenyList("/users/:id"))
     }
     ''', '''
     d = load()
     check({p: sorted(v) for p, v in d.get("paths", {}).items()} == {"/users/{ID}": ["get"]}, d.get("paths"))
     ''')

seed("c03-defer", "C03", "a handler that answers in a deferred call",
     "deferred calls are not looked at",
     [("inputs/gin/parseFunction.go", "		// If a function is called\n", "		// What is deferred runs after the handler answered\n		if _, ok := n.(*ast.DeferStmt); ok {\n			return false\n		}\n\n		// If a function is called\n")],
     '''
     func show(c *gin.Context) {
     	defer func() {
     		if err := recover(); err != nil {
     			c.String(500, "failed")
     		}
     	}()
     	c.Status(204)
     }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     d = load()
     check(sorted(op(d, "/a")["responses"]) == ["204", "500"], op(d, "/a"))
     ''')

seed("c03-status-reset", "C03", "a handler that answers one status with several content types",
     "a response of a status that was documented with another content type replaces it",
     [("outputs/openapi/generate.go", "			if _, set := operation.Responses[statusCode]; !set {\n", "			if response, set := operation.Responses[statusCode]; !set || (returnType.ContentType == \"application/xml\" && len(response.Content) > 1) {\n")],
     '''
     func show(c *gin.Context) {
     	switch c.Query("as") {
     	case "json":
     		c.JSON(200, "x")
     	case "yaml":
     		c.YAML(200, "x")
     	default:
     		c.XML(200, "x")
     	}
     }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     d = load()
     check(sorted(op(d, "/a")["responses"]["200"]["content"]) == ["application/json", "application/xml", "application/yaml"], op(d, "/a"))
     ''')

seed("c04-second-bound", "C04", "a handler that binds the query to two structs",
     "only the first struct that the query is bound to is documented",
     [("inputs/gin/parseFunction.go", """						route.QueryParams = append(route.QueryParams, astra.Param{
							IsBound: true,
							Field:   field,
						})

						return route, nil
					})
					if err != nil {
						return false
					}

				// Body Param methods
""", """						if len(route.QueryParams) == 0 || !route.QueryParams[len(route.QueryParams)-1].IsBound {
							route.QueryParams = append(route.QueryParams, astra.Param{
								IsBound: true,
								Field:   field,
							})
						}

						return route, nil
					})
					if err != nil {
						return false
					}

				// Body Param methods
""")],
     '''
     type Paging struct { Page int `form:"page"` }
     type Filter struct { Text string `form:"text"` }

     func show(c *gin.Context) {
     	var p Paging
     	var f Filter
     	c.ShouldBindQuery(&p)
     	c.ShouldBindQuery(&f)
     	c.Status(204)
     }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     d = load()
     check(params(d, "/a") == [("query", "page"), ("query", "text")], params(d, "/a"))
     ''')

seed("c05-embedded-pointer", "C05", "a struct that embeds a pointer to a struct",
     "the fields of a struct that is embedded as a pointer are described as a field of their own",
     [("astTraversal/type.go", "			isEmbedded := f.Embedded()\n", "			_, isPointer := f.Type().(*types.Pointer)\n			isEmbedded := f.Embedded() && !isPointer\n")],
     '''
     type Base struct { ID int }
     type Out struct {
     	*Base
     	Name string
     }

     func show(c *gin.Context) { c.JSON(200, Out{}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     out = load()["components"]["schemas"]["main.Out"]
     check("allOf" in out and "Base" not in json.dumps([x.get("properties", {}) for x in out["allOf"]]), out)
     ''')

seed("c05-tag-options", "C05", "a binding tag with an option other than omitempty",
     "only the option omitempty is taken off the name of a tag",
     [("astTraversal/tags.go", '		tagItems := strings.Split(tagValue, ",")\n', '		tagItems := strings.SplitN(tagValue, ",omitempty", 2)\n'),
      ("astTraversal/tags.go", 'if len(tagItems) > 1 && tagItems[1] == "omitempty" {', "if len(tagItems) > 1 {")],
     '''
     type Filter struct {
     	Page int    `form:"page,default=1"`
     	Text string `form:"text,omitempty"`
     }

     func show(c *gin.Context) {
     	var f Filter
     	c.ShouldBindQuery(&f)
     	c.Status(204)
     }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     d = load()
     check(params(d, "/a") == [("query", "page"), ("query", "text")], params(d, "/a"))
     ''')

seed("c10-yml", "C10", "a cache file with the extension .yml",
     "a cache file with the extension .yml can't be loaded",
     [("cache.go", '''	} else if strings.HasSuffix(cachePath, ".yaml") || strings.HasSuffix(cachePath, ".yml") {
		err =''', '''	} else if strings.HasSuffix(cachePath, ".yaml") {
		err =''')],
     '''
     func show(c *gin.Context) { c.Status(204) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	options := []astra.Option{inputs.WithGinInput(r), outputs.WithOpenAPIOutput("openapi.json"), astra.WithConfig(config), cache.WithCustomCachePath("cache.yml")}
     	if err := astra.New(options...).SetupParse(); err != nil {
     		panic(err)
     	}
     	s := astra.New(options...)
     	if err := s.LoadCache(); err != nil {
     		panic(err)
     	}
     	if len(s.Routes) != 1 || s.Routes[0].Path != "/a" {
     		panic(s.Routes)
     	}
     	if err := os.WriteFile("openapi.json", []byte("{}"), 0o644); err != nil {
     		panic(err)
     	}
     }
     ''', '''
     check(load() == {}, load())
     ''', imports=["github.com/ls6-events/astra/cache", "os"])

seed("c11-stale-copy", "C11", "the copy of the main package that an interrupted run left, with a file that the main package has no more",
     "the copy of the main package that an interrupted run left is not removed before the files are copied",
     [("mainPackage.go", """	if _, err := os.Stat(newMainPkgPath); err == nil {
		err := os.RemoveAll(newMainPkgPath)
		if err != nil {
			return err
		}
	}
	err := os.Mkdir(newMainPkgPath, 0755)
""", """	err := os.MkdirAll(newMainPkgPath, 0755)
""")],
     '''
     func show(c *gin.Context) { c.JSON(200, Out{}) }

     type Out struct { Name string }

     func main() {
     	if err := os.MkdirAll(".astra/astramain", 0755); err != nil {
     		panic(err)
     	}
     	if err := os.WriteFile(".astra/astramain/old.go", []byte("package astramain\\n\\ntype Out struct{ Old string }\\n"), 0644); err != nil {
     		panic(err)
     	}
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     out = load()["components"]["schemas"]["main.Out"]
     check(sorted(out["properties"]) == ["Name"], out)
     ''', imports=["os"])

seed("c12-default-port", "C12", "a configuration with the default port of its scheme",
     "the port is left out of the server's URL if it is the default one of the scheme",
     [("outputs/openapi/generate.go", '''					URL: fmt.Sprintf("%s://%s:%d%s", protocol, s.Config.Host, s.Config.Port, s.Config.BasePath),''',
       '''					URL: strings.Replace(fmt.Sprintf("%s://%s:%d%s", protocol, s.Config.Host, s.Config.Port, s.Config.BasePath), "https://"+s.Config.Host+":443/", "https://"+s.Config.Host+"/", 1),''')],
     '''
     func show(c *gin.Context) { c.Status(204) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	config.Port, config.Secure, config.Host = 443, true, "api.example.com"
     	generate(r)
     }
     ''', '''
     check(load()["servers"][0]["url"] == "https://api.example.com:443/", load()["servers"])
     ''')

seed("c13-yaml-numbers", "C13", "an enumeration that has a constant which no floating point number equals",
     "YAML documents are made from the decoded JSON document, so their numbers are floating point numbers",
     [("outputs/openapi/generate.go", "			file, err = yaml.Marshal(output)\n", """			var decoded any
			file, err = json.Marshal(output)
			if err == nil {
				err = json.Unmarshal(file, &decoded)
			}
			if err == nil {
				file, err = yaml.Marshal(decoded)
			}
""")],
     '''
     type Mask int64

     const (
     	Low  Mask = 1
     	High Mask = 9007199254740993
     )

     type Out struct { Mask Mask }

     func show(c *gin.Context) { c.JSON(200, Out{}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r, outputs.WithOpenAPIOutput("openapi.yaml"))
     }
     ''', '''
     check("9007199254740993" in open("openapi.json").read(), "JSON")
     check("9007199254740993" in open("openapi.yaml").read(), open("openapi.yaml").read())
     ''')

seed("c14-mapping-leak", "C14", "an application that is generated after one with a custom type mapping in the same process",
     "custom mappings are added to the predefined ones for good",
     [("formatTypes.go", """		s.fullTypeMapping = make(map[string]TypeFormat)
		maps.Copy(s.fullTypeMapping, PredefinedTypeMap)
""", """		s.fullTypeMapping = PredefinedTypeMap
""")],
     '''
     type Money struct { Cents int }

     func show(c *gin.Context) { c.JSON(200, Money{}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r, astra.WithCustomTypeMappingSingle("github.com/ls6-events/astra.Money", "string", "money"), astra.WithCustomTypeMappingSingle("example.com/demo/.astra/astramain.Money", "string", "money"), astra.WithCustomTypeMappingSingle("main.Money", "string", "money"))
     	generate(r)
     }
     ''', '''
     check(load()["components"]["schemas"]["main.Money"]["type"] == "object", load()["components"])
     ''')

seed("c15-claimed-args", "C15", "a call of the context in the arguments of a call that a custom function claimed",
     "calls in the arguments of a call that a custom function contributes to are not looked at",
     [("inputs/gin/parseFunction.go", "		if shouldBreak {\n			return true\n		}", "		if shouldBreak {\n			return false\n		}")],
     '''
     func trace(c *gin.Context, what string) {}

     func show(c *gin.Context) {
     	trace(c, c.Query("what"))
     	c.Status(204)
     }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r, astra.WithCustomFunc(func(name string, b *astra.ContextFuncBuilder) (*astra.Route, error) {
     		f, err := b.Traverser.Type()
     		if err != nil || f.Name() != "trace" {
     			return nil, nil
     		}
     		b.Route.RequestHeaders = append(b.Route.RequestHeaders, astra.Param{Name: "X-Trace", Field: astra.Field{Type: "string"}})
     		return b.Route, nil
     	}))
     }
     ''', '''
     check(params(load(), "/a") == [("header", "X-Trace"), ("query", "what")], params(load(), "/a"))
     ''')

seed("c15-format-kept", "C15", "a type that is mapped twice, the second time without a format",
     "a mapping without a format keeps the format of the mapping before it",
     [("formatTypes.go", """		service.CustomTypeMapping[key] = TypeFormat{
""", """		if valueFormat == "" {
			valueFormat = service.CustomTypeMapping[key].Format
		}

		service.CustomTypeMapping[key] = TypeFormat{
""")],
     '''
     func show(c *gin.Context) { c.JSON(200, time.Time{}) }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r, astra.WithCustomTypeMapping(map[string]astra.TypeFormat{"time.Time": {Type: "integer", Format: "unix"}}), astra.WithCustomTypeMappingSingle("time.Time", "string", ""))
     }
     ''', '''
     t = load()["components"]["schemas"]["time.Time"]
     check((t["type"], t.get("format", "")) == ("string", ""), t)
     ''', imports=["time"])

seed("c17-json-no-returns", "C17", "a route whose handler answers nothing that can be described",
     "routes without a response are missing in the debugging output",
     [("outputs/json/generate.go", """		output := JSONOutput{
			Routes:     s.Routes,
			Components: s.Components,
		}
""", """		output := JSONOutput{
			Components: s.Components,
		}
		for _, route := range s.Routes {
			if len(route.ReturnTypes) > 0 || len(route.Body) > 0 {
				output.Routes = append(output.Routes, route)
			}
		}
""")],
     '''
     func show(c *gin.Context) { c.Status(204) }
     func silent(c *gin.Context) {}

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	r.GET("/b", silent)
     	generate(r, outputs.WithJSONOutput("debug.json"))
     }
     ''', '''
     check(sorted(r["path"] for r in load("debug.json")["routes"]) == ["/a", "/b"], load("debug.json"))
     ''')

seed("c18-path-cache", "C18", "the path of a package is asked for by several goroutines",
     "the path of a package is kept when it is first asked for, without a lock",
     [("astTraversal/packageNode.go", "	var path string\n	current := p\n", "	if p.path != \"\" {\n		return p.path\n	}\n\n	var path string\n	current := p\n"),
      ("astTraversal/packageNode.go", "		current = current.Parent\n	}\n\n	return path\n", "		current = current.Parent\n	}\n\n	p.path = path\n\n	return path\n"),
      ("astTraversal/packageNode.go", "type PackageNode struct {\n", "type PackageNode struct {\n	// path is the path of the package, once it was asked for\n	path string\n\n")],
     PM.replace('nodes[i] = pm.AddPackage', 'for k := 0; k < 40; k++ {\n     					n := pm.AddPackage(fmt.Sprintf("example.com/q%d/x", k))\n     					n.Path()\n     				}\n     				nodes[i] = pm.AddPackage').replace("3000", "50"), "check(True, '')", run=RUNPM, head=False, flags="-race")

seed("c19-case-insensitive", "C19", "a variable whose name is that of the context in other letters",
     "the context is found among the arguments of a call without regard to the case of letters",
     [("astTraversal/callExpression.go", "		if ident.Name == argName {\n", "		if strings.EqualFold(ident.Name, argName) {\n"),
      ("astTraversal/callExpression.go", 'import (\n	"go/ast"\n	"go/types"\n', 'import (\n	"go/ast"\n	"go/types"\n	"strings"\n')],
     '''
     func show(c *gin.Context) {
     	C := "x"
     	c.JSON(200, C)
     	c.Status(204)
     }

     func main() {
     	r := gin.New()
     	r.GET("/a", show)
     	generate(r)
     }
     ''', '''
     d = load()
     check(sorted(op(d, "/a")["responses"]) == ["200", "204"], op(d, "/a"))
     ''')
