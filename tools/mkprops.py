"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


DOC = "the OpenAPI document that a run of the generator writes"
p("C01", "Every registered route is documented exactly once",
  "For every gin application, the generated OpenAPI document has exactly one operation for every (method, path) that its engines report as registered and whose method OpenAPI can express, and no other operation. "
  "This holds however the route was registered (engine, nested groups, Match, Any, several engines given as inputs) and whatever its handler is (top-level function, inline function, method value, closure from a factory, function variable, in main or another package). "
  "Path parameters appear in it as {name} for :name and {name*} for *name, each with one path parameter called name, which is required for :name and optional for *name.",
  ["programs"], "all applications: sets of routes, registration styles, handler forms, package layouts",
  "The tests use a dozen fixed applications with one registration style each; the route table of an arbitrary application is never compared with the document.",
  ["inputs/gin/createRoutes.go", "inputs/gin/parseRoutes.go", "safePushing.go", "parseRoutes.go", "outputs/openapi/generate.go"],
  [("route creation from gin.Routes()", "inputs/gin/createRoutes.go"), ("handler lookup by source position", "inputs/gin/parseRoutes.go"), ("ReplaceRoute / AddRoute", "routes.go"), ("path template and operation slots", "outputs/openapi")],
  [DOC, "gin's own Engine.Routes()"])
p("C02", "Denied paths and only denied paths are left out",
  "A path is documented exactly when no rule of the deny list (exact path, regular expression, function) matches it. "
  "Denying routes changes nothing else: the operations of all other routes are those of the same application generated without the denied routes, and no component remains that only denied routes used. "
  "Rules accumulate in whatever order and number they are given, and see the path as it was registered.",
  ["configurations", "programs"], "all deny lists over all route sets",
  "The tests try a couple of rules on one engine; overlapping rules, rules on parameters, and what denial leaves of the rest are not looked at.",
  ["options.go", "createRoutes.go", "inputs/gin/createRoutes.go", "docs/denying.md"],
  [("PathDenyList", "options.go"), ("deny list filter", "inputs/gin/createRoutes.go")], [DOC])
p("C03", "Every response a handler can send is documented, and no other",
  "For every handler, the responses of its operation are those the handler can send through the documented response calls of the gin context: every status code with every content type and the schema of the value passed, in any branch, closure or helper that receives the context, from any package. "
  "Nothing is documented that the handler does not send, alternatives of one status and content type are all kept, and each response has the headers that the handler sets. "
  "Status codes may be literals, constants of any package, or net/http constants; payloads may be variables, fields, calls, composite literals, conversions, index expressions and other expressions.",
  ["programs", "inputs"], "all handlers over the response calls, argument expression forms, control flow and helper layouts; all requests that select a branch",
  "The tests hold about one handler per call; combinations of calls, expressions, branches and helper layouts, and what a running handler really answers, are not covered.",
  ["inputs/gin/parseFunction.go", "inputs/gin/parseRoute.go", "astTraversal/expression.go", "astTraversal/callExpression.go", "astTraversal/extractStatusCode.go", "outputs/openapi/generate.go"],
  [("context call table", "inputs/gin/parseFunction.go"), ("expression resolution", "astTraversal/expression.go"), ("helper following", "inputs/gin"), ("AddReturnType", "safePushing.go")], [DOC, "responses of the running handlers"])
p("C04", "Every request input a handler reads is documented, and no other",
  "For every handler, the parameters and request bodies of its operation are those the handler reads through the documented calls: query parameters (also arrays and maps), headers, form and multipart fields, files, raw bodies, and structs bound with the Bind and ShouldBind families, whose fields take the names of the tags of that binding. "
  "Each has its right location, name and schema (query arrays and maps also the style gin reads them in), and appears once. "
  "This holds wherever in the handler, its branches, closures or helpers the read happens.",
  ["programs", "inputs"], "all handlers over the reading calls, argument forms, bound types and helper layouts; all requests",
  "The tests hold about one handler per call with literal names; mixtures of inputs, positions and bound types are not covered, nor is what a running handler reads.",
  ["inputs/gin/parseFunction.go", "inputs/gin/parseRoute.go", "safePushing.go", "bindingTags.go", "outputs/openapi/generate.go"],
  [("context call table", "inputs/gin/parseFunction.go"), ("binding tags", "bindingTags.go"), ("Add*Param / AddBody", "safePushing.go")], [DOC, "requests to the running handlers"])
p("C05", "Component schemas describe the encoded form of their Go types",
  "Every named Go type that an operation refers to has a component schema that describes the values encoding/json produces for it: the same property names for the binding's tags, omission of unexported and '-' fields, fields of embedded structs promoted, and the documented type and format of every field. "
  "Slices, arrays, maps, pointers, enums, recursive types and the special types (time, duration, UUID, file) are described as what they encode to. "
  "The XML, YAML, form, header and URI variants of a component use the tags of their binding.",
  ["programs"], "all type declarations reachable from handlers: kinds, tags, embedding, recursion, packages",
  "The tests compare a few fixed structs; tag combinations, embedding depth, recursion and cross-package references are unbounded.",
  ["astTraversal/type.go", "astTraversal/tags.go", "clean.go", "bindingTags.go", "accepted.go", "formatTypes.go", "outputs/openapi/components.go", "outputs/openapi/schema.go"],
  [("type traversal", "astTraversal/type.go"), ("struct tags", "astTraversal/tags.go"), ("component cleaning", "clean.go"), ("schema mapping", "outputs/openapi")], [DOC, "values of the types encoded by encoding/json and yaml.v3"])
p("C06", "Generated documents are well-formed OpenAPI 3.0",
  "Every document the generator writes is a well-formed OpenAPI 3.0 document: every reference resolves to a component, component names are legal and unique, path templates are distinct and agree with the path parameters of their operations, and parameters have names, locations and schemas and are not repeated. "
  "Every operation has responses under valid status codes with valid media types, and schemas have valid types.",
  ["programs", "configurations"], "all applications and configurations",
  "The tests look at selected places of a few documents and never resolve references over a whole one.",
  ["outputs/openapi/generate.go", "outputs/openapi/components.go", "clean.go"],
  [("component and path assembly", "outputs/openapi"), ("collision-safe names", "outputs/openapi")], [DOC])
p("C07", "Different Go types never share a component",
  "Every use of a Go type refers to a component that describes that very type, also when other packages of the application or its dependencies declare types of the same name, share their package name or last path element with it, live in main, or have a package name that differs from their directory. "
  "The same type is one component per binding, wherever it is used.",
  ["programs"], "all assignments of type names to packages and of packages to names and directories",
  "The tests have one example of two packages that share a name.",
  ["outputs/openapi/components.go", "clean.go", "mainPackage.go", "safePushing.go", "astTraversal/type.go"],
  [("collision-safe component names", "outputs/openapi"), ("component identity by package and name", "safePushing.go"), ("package renaming", "clean.go")], [DOC])
p("C08", "Generation is deterministic",
  "Generating the same application with the same configuration writes the same bytes to every output: within one process, in different processes, with different numbers of processors and from different directories.",
  ["schedules", "histories", "programs"], "all repetitions, processes, processor counts and project directories",
  "The tests generate once per process and compare selected values, while map iteration order and package loading differ from run to run.",
  ["outputs/openapi/generate.go", "outputs/json", "outputs/azureFunctions", "safePushing.go", "clean.go", "listing.go", "astTraversal/packageManager.go"],
  [("sorted output", "outputs"), ("component lookup", "safePushing.go")], ["the bytes of all outputs"])
p("C09", "No valid handler code stops or disturbs generation",
  "Whatever valid Go code handlers consist of (recursion, generics, closures, goroutines, type switches, aliases, anonymous and external types, calls on anything but the context, handlers of dependencies), generation ends without an error or a panic and in bounded time. "
  "What it cannot understand is left out, and the operations of all other routes are documented as if the odd handler were not there.",
  ["programs"], "all valid Go handler bodies, and all mixtures of them with ordinary handlers",
  "The tests contain only handlers the generator understands.",
  ["inputs/gin/parseFunction.go", "inputs/gin/parseRoute.go", "astTraversal/expression.go", "astTraversal/type.go", "astTraversal/callExpression.go", "astTraversal/function.go"],
  [("graceful skipping of unresolvable nodes", "inputs/gin, astTraversal"), ("recursion guards", "astTraversal/type.go")], [DOC, "panics, errors and time of Parse"])
p("C10", "The cache and the CLI give the same documents as a direct run",
  "Splitting a run into set-up and completion, completing it from a cache file (JSON or YAML, default or custom path), generating again from a cache, and running the astra command on a cached service all write the outputs that one direct run writes, with the same deny list, type mappings and configuration. "
  "A cache file written by a service and loaded into another holds the same service.",
  ["histories", "configurations", "programs"], "all applications, options, cache formats and ways to split a run",
  "The tests round-trip hand-made services and never compare the documents of the two ways.",
  ["cache.go", "cache/cache.go", "cli/cli.go", "cli/astra", "service.go", "parse.go", "generate.go", "teardown.go"],
  [("Cache / LoadCache", "cache.go"), ("serialised service", "service.go"), ("CLI command", "cli/astra")], ["output files of direct, split, cached and command-line runs"])
p("C11", "Generation touches only its own files",
  "A run leaves every file of the project as it was and adds exactly the configured outputs, the configured cache and nothing else: the temporary directory is gone afterwards unless a cache or the CLI mode keeps it, and then no copy of the main package stays in it. "
  "A run that fails may leave the temporary directory, and the directory of the Azure Functions output is replaced as a whole. All this also holds for runs over the leftovers of earlier or interrupted runs, and projects generated from another working directory. "
  "No run deletes or changes what it did not create.",
  ["configurations", "histories", "crash_points"], "all output and cache paths, working directories, leftovers of earlier runs and failing runs",
  "The tests check that single helpers create or delete a directory, not what a whole run leaves behind.",
  ["dir.go", "mainPackage.go", "setup.go", "teardown.go", "outputs/azureFunctions", "outputs/openapi/generate.go", "io.go", "cache.go"],
  [("temporary directory", "dir.go"), ("copy of the main package", "mainPackage.go"), ("output directories", "io.go, outputs/azureFunctions")], ["the file tree before and after every run"])
p("C12", "The configuration is what the document says",
  "The info and servers of the document are exactly those configured (title, description, version, contact, license, scheme, host, port, base path), for any text in them and whether the configuration was made by hand or with the builder. "
  "The builder keeps the last value of every setting in any order of calls, fills in the documented defaults, and refuses a configuration without a port; without a configuration no document is written.",
  ["configurations", "inputs"], "all configurations and builder call sequences",
  "The tests set each value once to a plain text.",
  ["config.go", "configBuilder.go", "outputs/openapi/generate.go"],
  [("ConfigBuilder", "configBuilder.go"), ("info and servers", "outputs/openapi/generate.go")], [DOC, "Config returned by the builder"])
p("C13", "An output's file name decides its syntax, never its content",
  "An OpenAPI output is written to the file whose name was given, in YAML for .yaml and .yml, in JSON for .json, and in JSON with .json appended to any other name. "
  "All outputs of one run decode to the same document.",
  ["configurations", "programs"], "all file names and directories, all documents",
  "The tests write one JSON and one YAML file each and never compare them.",
  ["outputs/openapi/generate.go", "outputs/outputs.go"],
  [("extension handling", "outputs/openapi")], ["files written and their decoded contents"])
p("C14", "An operation does not depend on the other routes",
  "The documentation of an operation, with all the components it refers to, is the same whichever other routes are documented in the same run, in which order they were registered, and what was generated earlier in the same process.",
  ["programs", "histories"], "all subsets and orders of an application's routes, all earlier generations",
  "The tests generate one fixed set of routes once.",
  ["parseRoutes.go", "inputs/gin/parseRoutes.go", "safePushing.go", "clean.go", "outputs/openapi/generate.go", "outputs/openapi/components.go"],
  [("shared component list", "safePushing.go"), ("package-level caches", "astTraversal, outputs/openapi")], [DOC])
p("C15", "Custom type mappings and custom functions are honoured everywhere",
  "A named type with a custom mapping is described by exactly the mapped type and format wherever it occurs (fields, elements, maps, payloads, parameters), whichever option gave the mapping, the last one winning, and all other types keep their description. "
  "A custom function sees every call a handler makes that could involve the context, directly or in helpers; what it contributes is documented and replaces the built-in handling of that call, while calls it declines are handled as if it were not there.",
  ["configurations", "programs"], "all mappings over all types and positions, all custom functions over all calls",
  "The tests map one type and use one custom function in one handler.",
  ["substituteTypes.go", "formatTypes.go", "options.go", "contextFuncBuilder.go", "inputs/gin/parseFunction.go"],
  [("WithCustomTypeMapping(Single)", "options.go"), ("WithCustomFunc", "options.go, inputs/gin"), ("ContextFuncBuilder", "contextFuncBuilder.go")], [DOC, "calls seen by recorded custom functions"])
p("C16", "Doc comments become descriptions of what they document, verbatim",
  "The description of an operation is the doc comment of its handler and that of a component the doc comment of its type, complete and unchanged, for single, grouped and multi-line declarations in any file and package; nothing takes the comment of something else, and what has no comment has no description. "
  "Operation ids name the handler and are unique for handlers of different names.",
  ["programs"], "all layouts of comments and declarations",
  "The tests compare a few one-line comments.",
  ["astTraversal/docs.go", "astTraversal/function.go", "astTraversal/type.go", "outputs/openapi/generate.go"],
  [("doc lookup", "astTraversal"), ("operationId", "outputs/openapi")], [DOC])
p("C17", "The debug JSON and Azure Functions outputs agree with the application",
  "The debugging JSON output lists every documented route once, with its handler, source position, description, parameters, bodies and return types, and every component they refer to. "
  "The Azure Functions output has one directory per documented route, named after its handler, whose function.json holds an HTTP trigger with the route's method and its path in Azure's syntax, and an HTTP output binding; both agree with the OpenAPI document of the same run.",
  ["programs"], "all applications",
  "The tests compare one or two routes.",
  ["outputs/json", "outputs/azureFunctions", "types.go", "routes.go"],
  [("JSON output", "outputs/json"), ("Azure Functions output", "outputs/azureFunctions")], ["debug JSON, function.json files"])
p("C18", "The package manager is safe and consistent under concurrent use",
  "Under every interleaving of adding, finding and loading packages from many goroutines, every package path has one node that never changes identity, every added package is found afterwards with its whole path, and lookups never return something of another path. "
  "Every concurrent history is equivalent to a sequential one, and no data race occurs.",
  ["schedules", "histories"], "all interleavings of the package manager's operations, all package paths",
  "The tests use the manager from one goroutine, one call at a time.",
  ["astTraversal/packageManager.go", "astTraversal/packageNode.go", "astTraversal/loadPackage.go"],
  [("mutex around the package tree", "astTraversal/packageManager.go"), ("package tree", "astTraversal/packageNode.go")], ["recorded invocation/response histories", "Go race detector"])
p("C19", "Refactoring a handler does not change its documentation",
  "Moving parts of a handler into helper functions of the same or other packages, closures, branches or other files, renaming variables, parameters, the context and imports, or writing an argument through a variable instead of inline leaves the operation as it was.",
  ["programs"], "all layouts of the same handler",
  "The tests document one layout of every handler.",
  ["inputs/gin/parseFunction.go", "inputs/gin/parseRoute.go", "astTraversal/expression.go", "astTraversal/callExpression.go", "astTraversal/function.go", "astTraversal/fileNode.go"],
  [("helper following", "inputs/gin"), ("identifier and import resolution", "astTraversal")], [DOC])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        missing = [y for y in x["anchors"]["files"] if not os.path.exists("/repo/" + y)]
        if missing:
            print(x["id"], "missing files", missing)
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")

T = {"C08": "runtime differential monitor: byte comparison of repeated real runs across processes, processor counts and directories",
     "C11": "runtime file-system monitor: recorded file trees before and after real, failing and interrupted runs",
     "C18": "Go race detector plus linearizability checking of recorded concurrent histories"}
NOTE = {"C18": "Schedules are sampled by stress with injected delays, not enumerated; trusts the Go race detector and the porcupine linearizability checker."}
checks = []
for x in P:
    checks.append(dict(property=x["id"], quick_cmd="python3 harness/check.py %s" % x["id"], thorough_cmd="VERIF_TIER=thorough python3 harness/check.py %s" % x["id"],
                       technique=T.get(x["id"], "runtime monitoring: generated applications run the real generator; an oracle that knows the program judges the observed outputs"),
                       level="exploration",
                       level_note=NOTE.get(x["id"], "Holds on every generated execution that was observed (counts in the evidence file); trusts the program generator's ground truth, Go's encoders and gin itself; inputs outside the generator's grammar are not observed.")))
json.dump(dict(version=1, setup_cmd="python3 harness/setup.py", checks=checks, not_applicable=[]), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
