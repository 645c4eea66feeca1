// Package rt runs the real generator inside a generated application and records what can be observed at its boundary.
package rt

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/types"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime/debug"
	"strings"
	"time"

	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/cache"
	"github.com/ls6-events/astra/cli"
	"github.com/ls6-events/astra/inputs"
	"github.com/ls6-events/astra/outputs"
	"gopkg.in/yaml.v3"
)

type route struct {
	Method, Path string
	H            []gin.HandlerFunc
}

var routes = map[string]route{}

// Handle registers a route of the application under a key, so that a plan can pick it.
func Handle(key, method, path string, h ...gin.HandlerFunc) {
	routes[key] = route{method, path, h}
}

// Natives are functions that register routes with gin's own API.
var Natives = map[string]func(*gin.Engine){}

// Customs are the custom functions a plan can pick.
var Customs = map[string]astra.CustomFunc{}

type value struct {
	ID  string
	New func() any
}

var values []value

// Value registers a populated value of a type.
func Value(id string, f func() any) { values = append(values, value{id, f}) }

type routerPlan struct {
	Routes  []string `json:"routes"`
	Natives []string `json:"natives"`
	Group   int      `json:"group"`
}

type step struct {
	Op       string               `json:"op"`
	ID       string               `json:"id"`
	Routers  []routerPlan         `json:"routers"`
	Outputs  [][]string           `json:"outputs"`
	Deny     [][]string           `json:"deny"`
	Cache    string               `json:"cache"`
	CLI      bool                 `json:"cli"`
	Config   *astra.Config        `json:"config"`
	NoConfig bool                 `json:"noconfig"`
	Mapping  map[string][2]string `json:"mapping"`
	Single   [][]string           `json:"single"`
	Customs  []string             `json:"customs"`
	Mode     string               `json:"mode"`
	Load     string               `json:"load"`
	Level    string               `json:"level"`
	Read     []string             `json:"read"`
	WorkDir  string               `json:"workdir"`
	Remove   []string             `json:"remove"`
	Reqs     []request            `json:"reqs"`
	Calls    [][]any              `json:"calls"`
	Text     string               `json:"text"`
}

type request struct {
	ID      string            `json:"id"`
	Method  string            `json:"method"`
	URL     string            `json:"url"`
	Headers map[string]string `json:"headers"`
	Body    string            `json:"body"`
}

var logFile *os.File

// seen are the calls the custom functions were asked about.
var seen []any

// custom is a custom function of the plan: what it does, and which functions it does it to.
//
//	watch          looks at every call
//	look           evaluates the arguments of the calls of the context, and declines them
//	example        fails for what has no function type, as the one of the documentation does, and declines the rest
//	claim/N/T      answers the calls of functions whose name has the prefix N with the content type T, at the status of the call
//	copy/N/T       the same with a copy of the route
//	drop/N         claims the calls and contributes nothing
//	fixed/N/T      answers the calls with status 299
func custom(what string) astra.CustomFunc {
	w := strings.SplitN(what, "/", 3)
	return func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) {
		f, err := b.Traverser.Type()
		if w[0] == "example" && err != nil {
			return nil, err
		}
		name := ""
		if err == nil {
			name = f.Name()
		}
		_, hasCtx := b.Traverser.ArgIndex(ctx)
		sig := ""
		if f != nil {
			if r := f.Type().(*types.Signature).Recv(); r != nil {
				sig = r.Type().String()
			}
		}
		if len(seen) < 200000 {
			seen = append(seen, []any{what, b.Route.Method, b.Route.Path, name, hasCtx, sig == "*github.com/gin-gonic/gin.Context"})
		}
		decline := func(*astra.Route, []any) (*astra.Route, error) { return nil, nil }
		if w[0] == "look" && sig == "*github.com/gin-gonic/gin.Context" {
			b.Traverser.Function()
			switch name {
			case "JSON", "XML", "YAML", "AbortWithStatusJSON":
				return b.StatusCode().ExpressionResult().Build(decline)
			case "Query", "GetHeader", "Header", "PostForm":
				return b.Value().Build(decline)
			case "Status", "AbortWithStatus":
				return b.StatusCode().Ignored().Build(decline)
			}
		}
		if len(w) < 2 || !strings.HasPrefix(name, w[1]) || !(hasCtx || sig == "*github.com/gin-gonic/gin.Context") {
			return nil, nil
		}
		answer := func(r *astra.Route, status int) (*astra.Route, error) {
			if w[0] == "copy" {
				c := *r
				r = &c
			}
			r.ReturnTypes = astra.AddReturnType(r.ReturnTypes, astra.ReturnType{StatusCode: status, ContentType: w[2], Field: astra.Field{Type: "string"}})
			return r, nil
		}
		switch w[0] {
		case "drop":
			return b.Route, nil
		case "fixed":
			return answer(b.Route, 299)
		case "claim", "copy":
			return b.StatusCode().Build(func(r *astra.Route, p []any) (*astra.Route, error) { return answer(r, p[0].(int)) })
		}
		return nil, nil
	}
}

func emit(v map[string]any) {
	b, err := json.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(map[string]any{"ev": "bad", "id": v["id"], "err": err.Error()})
	}
	logFile.Write(append(b, '\n'))
}

func (p routerPlan) build() *gin.Engine {
	gin.SetMode(gin.ReleaseMode)
	r := gin.New()
	for i, k := range p.Routes {
		rt, ok := routes[k]
		if !ok {
			panic("harness: no route " + k)
		}
		if p.Group == 0 {
			r.Handle(rt.Method, rt.Path, rt.H...)
			continue
		}
		// Register through (nested) groups, cutting the path at some slashes
		g := &r.RouterGroup
		rest := rt.Path
		for n := (p.Group*7 + i*13) % 4; n > 0; n-- {
			at := strings.Index(rest[1:], "/")
			if at < 0 {
				break
			}
			g = g.Group(rest[:at+1])
			rest = rest[at+1:]
		}
		g.Handle(rt.Method, rest, rt.H...)
	}
	for _, n := range p.Natives {
		Natives[n](r)
	}
	return r
}

func denied(path string, deny [][]string) bool {
	for _, d := range deny {
		switch d[0] {
		case "exact":
			if path == d[1] {
				return true
			}
		case "regex":
			if regexp.MustCompile(d[1]).MatchString(path) {
				return true
			}
		case "suffix":
			if strings.HasSuffix(path, d[1]) {
				return true
			}
		case "contains":
			if strings.Contains(path, d[1]) {
				return true
			}
		}
	}
	return false
}

func (st step) options(engines []*gin.Engine) []astra.Option {
	var opts []astra.Option
	if st.Level == "" {
		st.Level = "panic"
	}
	opts = append(opts, astra.WithCustomLogLevel(st.Level))
	for _, e := range engines {
		opts = append(opts, inputs.WithGinInput(e))
	}
	for _, o := range st.Outputs {
		switch o[0] {
		case "openapi":
			opts = append(opts, outputs.WithOpenAPIOutput(o[1]))
		case "json":
			opts = append(opts, outputs.WithJSONOutput(o[1]))
		case "azure":
			opts = append(opts, outputs.WithAzureFunctionsOutput(o[1]))
		}
	}
	for _, d := range st.Deny {
		d := d
		switch d[0] {
		case "exact":
			opts = append(opts, astra.WithPathDenyList(d[1]))
		case "regex":
			opts = append(opts, astra.WithPathDenyListRegex(regexp.MustCompile(d[1])))
		case "suffix":
			opts = append(opts, astra.WithPathDenyListFunc(func(p string) bool { return strings.HasSuffix(p, d[1]) }))
		case "contains":
			opts = append(opts, astra.WithPathDenyListFunc(func(p string) bool { return strings.Contains(p, d[1]) }))
		}
	}
	switch st.Cache {
	case "":
	case "default":
		opts = append(opts, cache.WithCache())
	default:
		opts = append(opts, cache.WithCustomCachePath(st.Cache))
	}
	if st.CLI {
		opts = append(opts, cli.WithCLI())
	}
	if len(st.Mapping) > 0 {
		m := map[string]astra.TypeFormat{}
		for k, v := range st.Mapping {
			m[k] = astra.TypeFormat{Type: v[0], Format: v[1]}
		}
		opts = append(opts, astra.WithCustomTypeMapping(m))
	}
	for _, m := range st.Single {
		opts = append(opts, astra.WithCustomTypeMappingSingle(m[0], m[1], m[2]))
	}
	for _, c := range st.Customs {
		if f := Customs[c]; f != nil {
			opts = append(opts, astra.WithCustomFunc(f))
		} else {
			opts = append(opts, astra.WithCustomFunc(custom(c)))
		}
	}
	if st.WorkDir != "" {
		opts = append(opts, astra.WithCustomWorkDir(st.WorkDir))
	}
	if st.Config != nil {
		cfg := *st.Config
		opts = append(opts, astra.WithConfig(&cfg))
	} else if !st.NoConfig {
		opts = append(opts, astra.WithConfig(&astra.Config{Title: "T", Version: "1.0.0", Host: "localhost", Port: 8000}))
	}
	return opts
}

func read(paths []string) map[string]any {
	out := map[string]any{}
	for _, p := range paths {
		info, err := os.Stat(p)
		if err != nil {
			out[p] = nil
			continue
		}
		if info.IsDir() {
			filepath.Walk(p, func(q string, i os.FileInfo, err error) error {
				if err == nil && !i.IsDir() {
					b, _ := os.ReadFile(q)
					out[q] = map[string]any{"text": string(b)}
				}
				return nil
			})
			continue
		}
		b, _ := os.ReadFile(p)
		f := map[string]any{"text": string(b)}
		if strings.HasSuffix(p, ".yaml") || strings.HasSuffix(p, ".yml") {
			var v any
			if err := yaml.Unmarshal(b, &v); err != nil {
				f["convErr"] = err.Error()
			} else {
				f["conv"] = v
			}
		}
		out[p] = f
	}
	return out
}

// state is what a service has, in a form that does not depend on the service's own encoding.
func state(s *astra.Service) map[string]any {
	ins, outs := []any{}, []any{}
	for _, i := range s.Inputs {
		ins = append(ins, i.Mode)
	}
	for _, o := range s.Outputs {
		outs = append(outs, []any{o.Mode, fmt.Sprint(o.Configuration)})
	}
	return map[string]any{"inputs": ins, "outputs": outs, "config": s.Config, "routes": dump(reflect.ValueOf(s.Routes), 0),
		"components": dump(reflect.ValueOf(s.Components), 0), "mapping": s.CustomTypeMapping}
}

// dump shows a value with all of its exported fields that aren't zero, whatever their tags say.
func dump(v reflect.Value, depth int) any {
	if depth > 40 {
		return "deep"
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return dump(v.Elem(), depth+1)
	case reflect.Struct:
		out := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				if x := dump(v.Field(i), depth+1); x != nil {
					out[v.Type().Field(i).Name] = x
				}
			}
		}
		if len(out) == 0 {
			return nil
		}
		return out
	case reflect.Map:
		out := map[string]any{}
		for _, k := range v.MapKeys() {
			x := dump(v.MapIndex(k), depth+1)
			if x == nil {
				x = "zero"
			}
			out[fmt.Sprint(k)] = x
		}
		if len(out) == 0 {
			return nil
		}
		return out
	case reflect.Slice, reflect.Array:
		if v.Len() == 0 {
			return nil
		}
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			x := dump(v.Index(i), depth+1)
			if x == nil {
				x = "zero"
			}
			out = append(out, x)
		}
		return out
	case reflect.Func:
		return nil
	}
	if v.IsZero() {
		return nil
	}
	return fmt.Sprint(v.Interface())
}

func (st step) gen() {
	ev := map[string]any{"ev": "gen", "id": st.ID}
	start := time.Now()
	seen = nil
	defer func() {
		if len(st.Customs) > 0 {
			ev["seen"] = seen
		}
		ev["ms"] = time.Since(start).Milliseconds()
		if r := recover(); r != nil {
			ev["panic"] = fmt.Sprint(r)
			ev["stack"] = string(debug.Stack())
		}
		ev["files"] = read(st.Read)
		emit(ev)
	}()
	for _, p := range st.Remove {
		os.RemoveAll(p)
	}
	var engines []*gin.Engine
	table := []any{}
	for _, rp := range st.Routers {
		e := rp.build()
		engines = append(engines, e)
		for _, ri := range e.Routes() {
			table = append(table, map[string]any{"method": ri.Method, "path": ri.Path, "handler": ri.Handler, "denied": denied(ri.Path, st.Deny)})
		}
	}
	ev["table"] = table
	s := astra.New(st.options(engines)...)
	var err error
	switch st.Mode {
	case "", "parse":
		err = s.Parse()
	case "split":
		if err = s.SetupParse(); err == nil {
			err = s.CompleteParse()
		}
	case "setup":
		err = s.SetupParse()
	case "twice":
		// Complete a parse that has already been completed
		if err = s.Parse(); err == nil {
			for _, p := range st.Read {
				os.RemoveAll(p)
			}
			if err = s.Setup(); err == nil {
				err = s.CompleteParse()
			}
		}
	case "roundtrip":
		// What is loaded from the cache is what was in the service
		if err = s.Parse(); err == nil {
			ev["saved"] = state(s)
			s2 := &astra.Service{}
			if err = s2.LoadCacheFromCustomPath(st.Load); err == nil {
				ev["loaded"] = state(s2)
			}
		}
	case "load":
		// Setup and parse in the two halves that the cache separates
		if err = s.SetupParse(); err == nil {
			s2 := astra.New(st.options(engines)...)
			wd, _ := os.Getwd()
			s2.WorkDir = wd
			in, out := s2.Inputs, s2.Outputs
			// Nothing but the functions may be taken from the second service
			s2.Config, s2.CustomTypeMapping = nil, map[string]astra.TypeFormat{}
			if err = s2.LoadCacheFromCustomPath(st.Load); err == nil {
				ev["cachedInputs"], ev["cachedOutputs"] = len(s2.Inputs), len(s2.Outputs)
				s2.Inputs, s2.Outputs = in, out
				err = s2.CompleteParse()
			}
		}
	}
	if st.Mode == "regen" {
		// What a finished run left in its cache is enough to write its outputs again
		if err = s.Parse(); err == nil {
			s2 := astra.New(st.options(engines)...)
			s2.WorkDir = s.WorkDir
			out := s2.Outputs
			s2.Config = nil
			if err = s2.LoadCacheFromCustomPath(st.Load); err == nil {
				s2.Outputs = out
				for _, p := range st.Read {
					os.RemoveAll(p)
				}
				err = s2.Generate()
			}
		}
	}
	if err != nil {
		ev["err"] = err.Error()
	}
	ev["done"] = true
}

func (st step) http() {
	var engines []*gin.Engine
	for _, rp := range st.Routers {
		engines = append(engines, rp.build())
	}
	for _, q := range st.Reqs {
		ev := map[string]any{"ev": "http", "id": q.ID}
		func() {
			defer func() {
				if r := recover(); r != nil {
					ev["panic"] = fmt.Sprint(r)
				}
			}()
			req := httptest.NewRequest(q.Method, q.URL, bytes.NewBufferString(q.Body))
			for k, v := range q.Headers {
				req.Header.Set(k, v)
			}
			w := httptest.NewRecorder()
			engines[0].ServeHTTP(w, req)
			ev["status"] = w.Code
			ev["headers"] = w.Result().Header
			ev["body"] = w.Body.String()
		}()
		emit(ev)
	}
}

func (st step) values() {
	for _, v := range values {
		ev := map[string]any{"ev": "value", "id": v.ID}
		func() {
			defer func() {
				if r := recover(); r != nil {
					ev["err"] = fmt.Sprint(r)
				}
			}()
			x := v.New()
			b, err := json.Marshal(x)
			if err != nil {
				ev["err"] = err.Error()
				return
			}
			ev["json"] = string(b)
			if y, err := yaml.Marshal(x); err == nil {
				var c any
				if yaml.Unmarshal(y, &c) == nil {
					if _, err := json.Marshal(c); err == nil {
						ev["yaml"] = c
					}
				}
			}
		}()
		emit(ev)
	}
}

// snap records the state of everything below some directories.
func (st step) snap() {
	tree := map[string]string{}
	for _, root := range st.Read {
		filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			switch {
			case i.Mode()&os.ModeSymlink != 0:
				to, _ := os.Readlink(p)
				tree[p] = "link " + to
			case i.IsDir():
				tree[p] = "dir " + i.Mode().String()
			default:
				b, _ := os.ReadFile(p)
				tree[p] = fmt.Sprintf("file %s %x", i.Mode(), sha256.Sum256(b))
			}
			return nil
		})
	}
	emit(map[string]any{"ev": "snap", "id": st.ID, "tree": tree})
}

// builder makes a configuration with the calls of the plan.
func (st step) builder() {
	ev := map[string]any{"ev": "builder", "id": st.ID}
	defer func() {
		if r := recover(); r != nil {
			ev["panic"] = fmt.Sprint(r)
		}
		emit(ev)
	}()
	b := astra.NewConfigBuilder()
	for _, c := range st.Calls {
		str := func(i int) string { s, _ := c[i].(string); return s }
		switch c[0] {
		case "title":
			b = b.SetTitle(str(1))
		case "description":
			b = b.SetDescription(str(1))
		case "version":
			b = b.SetVersion(str(1))
		case "contact":
			b = b.SetContact(astra.Contact{Name: str(1), URL: str(2), Email: str(3)})
		case "license":
			b = b.SetLicense(astra.License{Name: str(1), URL: str(2)})
		case "secure":
			b = b.SetSecure(c[1].(bool))
		case "host":
			b = b.SetHost(str(1))
		case "basePath":
			b = b.SetBasePath(str(1))
		case "port":
			b = b.SetPort(int(c[1].(float64)))
		}
	}
	cfg, err := b.Build()
	if err != nil {
		ev["err"] = err.Error()
	}
	if cfg != nil {
		ev["config"] = cfg
	}
}

// Main runs the plan.
func Main() {
	b, err := os.ReadFile(os.Getenv("VRT_PLAN"))
	if err != nil {
		fmt.Println("harness:", err)
		os.Exit(3)
	}
	var steps []step
	if err := json.Unmarshal(b, &steps); err != nil {
		fmt.Println("harness:", err)
		os.Exit(3)
	}
	logFile, err = os.Create(os.Getenv("VRT_LOG"))
	if err != nil {
		fmt.Println("harness:", err)
		os.Exit(3)
	}
	for _, st := range steps {
		emit(map[string]any{"ev": "begin", "id": st.ID})
		switch st.Op {
		case "gen":
			st.gen()
		case "http":
			st.http()
		case "values":
			st.values()
		case "builder":
			st.builder()
		case "snap":
			st.snap()
		case "mkdir":
			for _, p := range st.Read {
				os.MkdirAll(p, 0o755)
			}
		case "write":
			for _, p := range st.Read {
				os.MkdirAll(filepath.Dir(p), 0o755)
				text := st.Text
				if text == "" {
					text = "kept"
				}
				if text == "empty" {
					text = ""
				}
				os.WriteFile(p, []byte(text), 0o644)
			}
		case "remove":
			for _, p := range st.Remove {
				os.RemoveAll(p)
			}
		}
	}
	emit(map[string]any{"ev": "end"})
	logFile.Close()
}

var _ http.Handler = (*gin.Engine)(nil)
