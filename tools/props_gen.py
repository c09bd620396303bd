PIPE = "property-based testing: random models are compiled by the real generator and Go compiler, and the resulting packages are driven by reflection with random values against a reference model"

prop("C08", "The generated Go code compiles and offers exactly the API of the model",
 "For every valid model the Go generator succeeds and everything that it writes compiles. Each struct and class has its type, list type, builders and JSON functions with an accessor, a presence accessor and a setter of the right Go type for each attribute; each enum has a string type with a constant per value whose text is the JSON name; each resource has a client with a method per locator and per method, and request and response types with the setters and accessors of the parameters; each error has its constant; each service client gives access to its versions. The names are the ones given by the `go` annotation or derived from the name, and no names clash, even with Go keywords, built-in members or initialisms.",
 ["programs"], "All valid models of the generator's domain.",
 "The tests compile the code of a single fixed model.",
 ["pkg/generators/golang", "cmd/metamodel/generate/golang"],
 [("templates and name calculators", "pkg/generators/golang"), ("types calculator", "pkg/generators/golang/types_calculator.go")],
 PIPE + " (types of all the generated symbols)",
 "Random exploration of models; for each declaration the complete set of generated symbols and their Go types is checked.")

prop("C09", "Generated objects return what was put in them, and nil objects are safe",
 "For every struct, class and list type of every valid model: accessors return exactly the value given to the builder, presence accessors are true exactly for the attributes that were set, attributes that were not set read as the zero value, `Empty` is true exactly when nothing was set, `Kind`, `Link`, `ID` and `HREF` agree with what was set, and lists give the same items in the same order by all their accessors. All the accessors can be called on nil objects and lists, and then return the zero values and the nil kind.",
 ["programs", "inputs"], "All types of all valid models, all values for all subsets of the attributes.",
 "The tests use one fixed model and a few values.",
 ["pkg/generators/golang/types_generator.go", "pkg/generators/golang/types_calculator.go"],
 [("struct and list templates", "pkg/generators/golang/types_generator.go")],
 PIPE, "Random exploration of models and values; types with up to 64 attributes.")

prop("C10", "Builders build what was set, independently, and copies are faithful",
 "For every history of operations on builders of every valid model (setting attributes to values, to nil or to other builders, changing those builders later, building, copying existing objects, reusing the builder): the built object contains the values at the moment of building, objects already built never change afterwards, lists and maps are never shared between objects, builders and copies, setters copy slices, `Copy` discards what was there and makes the builder produce an object with the same content and JSON representation, copying nil changes nothing, and `Empty` says if something is set. Different builders can be used by several goroutines at the same time.",
 ["histories", "programs"], "All histories of operations on sets of builders, for all valid models.",
 "The tests build a few objects of a fixed model, and do almost nothing with them after building.",
 ["pkg/generators/golang/builders_generator.go"],
 [("builder and list builder templates", "pkg/generators/golang/builders_generator.go")],
 PIPE + "; stateful, histories of up to 14 operations on up to ten builders",
 "Random exploration of histories against a model of the builders.")

prop("C11", "JSON written and read by the generated code is faithful",
 "For every object or list of every type of every valid model: what is marshalled is a valid JSON document without repeated fields containing exactly the attributes that are set, with the names given by the annotations or the rules, the kind, identifier and link of classes, and dates in RFC 3339; reading it gives the same value and writing it again gives the same text. Reading accepts strings, bytes, readers and iterators, any order of fields, any white space and escapes, and ignores unknown fields. Truncated documents, values of the wrong JSON type, wrong dates, unsupported sources, and failures of the reader or writer are reported as errors. All of this holds also when several goroutines write and read at the same time, even if they write the same object.",
 ["inputs", "programs"], "All values of all types of all valid models, and all their JSON representations.",
 "The tests read and write a few documents of a fixed model.",
 ["pkg/generators/golang/json_generator.go"],
 [("generateReadValue, generateWriteValue", "pkg/generators/golang/json_generator.go"), ("NewIterator, NewStream", "pkg/generators/golang/json_generator.go")],
 PIPE + " (round trips, independent JSON encoder and parser, fault injection)",
 "Random exploration; the expected documents are calculated and parsed by independent code.")

prop("C12", "Generated clients send exactly the request that the model describes",
 "For every method of every valid model, reached from the client of the service through any chain of locators: sending makes one HTTP request with the method of the rules and the path formed by the given base path, the version, and the segments or identifiers of the locators and the segment of the action. The query contains the values given with `Parameter` and the declared query parameters that were set, the headers those given with `Header` and `Impersonate`, and the body the JSON of the body parameter, or of the parameters that were set in the case of actions. The context is the given one. Requests can be sent several times and are independent of each other, and nothing that the transport does to an HTTP request affects later ones. Several goroutines can use the same client at the same time, each one with its own requests.",
 ["histories", "programs"], "All methods and locator chains of all valid models, all histories of calls on requests.",
 "The tests send a few requests of a fixed model, each one only once.",
 ["pkg/generators/golang/clients_generator.go", "pkg/generators/golang/json_generator.go", "pkg/generators/golang/helpers_generator.go", "pkg/http/binding_calculator.go"],
 [("request template", "pkg/generators/golang/clients_generator.go"), ("write request functions", "pkg/generators/golang/json_generator.go")],
 PIPE + "; stateful, with a recording transport",
 "Random exploration of histories; identifiers that contain slashes or are empty or dots are out of the domain.")

prop("C13", "Generated clients deliver exactly the response of the server",
 "For every method of every valid model and every response: the status and header are those received; the output parameters present in the body are returned with their values and the others read as absent; unknown fields are ignored. A response with status 400 or higher and an error document results in that error, with the status of the response. Truncated bodies, bodies that aren't JSON with error statuses, failures while reading and failures of the transport are returned as errors. The body of the response is always closed, and the accessors of nil responses are safe. Responses received at the same time by several goroutines aren't mixed.",
 ["inputs", "fault_sequences", "programs"], "All methods of all valid models, all responses and failures.",
 "The tests receive a few responses of a fixed model and never check that bodies are closed.",
 ["pkg/generators/golang/clients_generator.go", "pkg/generators/golang/json_generator.go", "pkg/generators/golang/errors_generator.go"],
 [("response template", "pkg/generators/golang/clients_generator.go"), ("read response functions", "pkg/generators/golang/json_generator.go")],
 PIPE + ", with injected transport and body failures",
 "Random exploration; what happens with an error status and an empty body is only checked regarding status and header.")

prop("C14", "Polling stops exactly when it should",
 "Polling sends the same request until the first response whose status is one of the expected ones (200 by default) and that satisfies all the predicates, and returns that response. It waits at least the interval between requests, stops immediately when the request can't be sent, doesn't wait when the next request would be after the deadline, and then returns the last response and its error. Without deadline, or with an interval that isn't positive, it returns an error without sending anything.",
 ["histories", "fault_sequences"], "All sequences of responses and failures, sets of statuses and predicates, deadlines and intervals.",
 "The tests use a few sequences.",
 ["pkg/generators/golang/helpers_generator.go", "pkg/generators/golang/clients_generator.go"],
 [("PollContext", "pkg/generators/golang/helpers_generator.go"), ("poll request template", "pkg/generators/golang/clients_generator.go")],
 PIPE + "; scripted sequences of responses",
 "Random exploration with real time and short intervals; only lower bounds of waiting times are asserted.")

prop("C15", "Generated error objects are faithful",
 "For every error: the accessors return what was given to the builder, errors already built don't change, copies are equal, the JSON representation contains exactly the fields that are set and reading it (from any kind of source, with any layout and unknown fields) gives the same error, `UnmarshalErrorStatus` sets the given status, and the text contains the status, identifier, code, time, operation and reason that are set. Truncated or wrong documents are errors. Errors sent as HTTP responses have JSON content type, the error as body, and the status given by the identifier, or the fixed one of the predefined responses. Different errors can be used by several goroutines at the same time.",
 ["inputs"], "All errors and all their JSON representations.",
 "The tests use a few errors.",
 ["pkg/generators/golang/errors_generator.go"],
 [("errors template", "pkg/generators/golang/errors_generator.go")],
 PIPE, "Random exploration against a reference model.")

prop("C16", "The generated helper functions are correct and their copies independent",
 "Adding query parameters and headers keeps all the previous values, in order, and formats booleans, numbers, strings and dates so that the parsers read the same value. Copies of queries, headers and values are equal and independent of the original. Path segments are those between the slashes, ignoring leading and trailing ones. The parsers of query parameters return nothing when the parameter is absent, the value when it is correct, and an error mentioning the parameter when it is repeated or wrong. Constructors of pointers return new pointers to the value. The functions can be used by several goroutines at the same time.",
 ["inputs"], "All arguments of the helper functions.",
 "The tests cover a few arguments of some of the functions.",
 ["pkg/generators/golang/helpers_generator.go", "pkg/generators/golang/json_generator.go"],
 [("helpers template", "pkg/generators/golang/helpers_generator.go"), ("parsers", "pkg/generators/golang/json_generator.go")],
 PIPE, "Random exploration against the standard library parsers.")

prop("C17", "The generated metrics path tree contains exactly the paths of the API",
 "For every valid model the generated metrics package contains a JSON tree with one branch per service and version, below `api`, and below each version exactly the segments of the locators and actions reachable from the root resource, where variable locators are represented by a dash and places without further segments by null.",
 ["programs"], "All valid models of the generator's domain.",
 "The tests contain one fixed tree.",
 ["pkg/generators/golang/metrics_generator.go"],
 [("resourceBranch", "pkg/generators/golang/metrics_generator.go")],
 PIPE, "Random exploration of models; complete comparison of the tree.")

prop("C18", "Generated packages embed the OpenAPI specification of their version",
 "For every valid model the variable with the specification in the Go package of each version contains the same JSON document that the specifications generator writes for that version.",
 ["programs"], "All valid models of the generator's domain.",
 "The tests only look at some fields of one specification.",
 ["pkg/generators/golang/openapi_generator.go", "pkg/generators/openapi/openapi_generator.go"],
 [("OpenAPIGenerator", "pkg/generators/golang/openapi_generator.go")],
 PIPE + " (differential against the specifications generator)", "Random exploration of models; complete comparison.")
