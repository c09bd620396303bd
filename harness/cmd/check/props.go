package main

import (
	"time"

	"verif/engine"
	"verif/inproc"
	"verif/pipeline"
	"vlib/mm"
)

var props = map[string]*engine.Prop{}

func add(p *engine.Prop) { props[p.ID] = p }

func init() {
	add(&engine.Prop{
		ID: "C01", Subs: inproc.C01,
		Rule: "Identifiers made of 1-5 words, initialisms, plural initialisms and digits (and arbitrary identifiers of the grammar); non-trivial when there are at least two words (or more than two characters).",
	})
	add(&engine.Prop{
		ID: "C02", Subs: inproc.C02,
		Rule: "Random models rendered to files with random order, layout and distribution among files; non-trivial when the model has attributes, methods and locators.",
	})
	add(&engine.Prop{
		ID: "C03", Subs: inproc.C03,
		Rule: "Random valid models with zero, one or two random changes (types, directions, names and default values of parameters, missing or duplicated declarations, undefined references, locator loops, bad syntax), and models divided into several input directories; non-trivial when something was changed or divided.",
	})
	add(&engine.Prop{
		ID: "C04", Subs: inproc.C04, Prepare: pipeline.PrepareCLI, HangIsViolation: true,
		Stage: engine.Both(engine.InProcess, pipeline.Fuzz("FuzzText", 8*time.Minute)),
		Rule:  "Arbitrary text, random sequences of tokens, and valid models with random changes of characters and tokens; non-trivial when it isn't just random text.",
	})
	add(&engine.Prop{
		ID: "C05", Subs: inproc.C05, HangIsViolation: true,
		Stage: engine.Both(engine.InProcess, pipeline.Stage(refOptions)), Replay: pipeline.Replay,
		Rule: "Random models of two to four versions where some versions contain classes that are references to classes of the others (directly or in chains), with random order and distribution among files, and the same models with one wrong reference; non-trivial when the referenced classes bring other types or contain links, or when the reference is wrong.",
	})
	add(&engine.Prop{
		ID: "C06", Subs: inproc.C06,
		Rule: "Random models; for each one all the services, versions, attributes, values, locators, methods and parameters are compared with the rules. Non-trivial when the model has attributes, methods and locators.",
	})
	add(&engine.Prop{
		ID: "C07", Subs: inproc.C07,
		Rule: "Random models; the generated specification is compared completely (paths, operations, parameters, bodies, responses, schemas, references) with the one expected for the model. Non-trivial when the model has attributes, methods and locators.",
	})
	add(&engine.Prop{
		ID: "C19", Subs: inproc.C19, Prepare: pipeline.PrepareCLI,
		Rule: "Random models (with and without references), each one generated twice with the command line tool: the second time written with different order of declarations and members, distribution among files and input directories, and white space, and maybe over existing files; and random models where one service or version is generated alone. Non-trivial when there are types and methods, or other services or versions.",
	})
	add(&engine.Prop{
		ID: "C20", Subs: inproc.C20,
		Rule: "Random models; the index and all the pages of the documentation are compared line by line (ignoring white space) with the ones expected for the model. Non-trivial when the model has attributes, methods and locators.",
	})
	add(&engine.Prop{
		ID: "C21", Subs: inproc.C21, Prepare: pipeline.PrepareCLI,
		Rule: "Executions of the commands that check and generate, for random models with zero, one or two changes that may make them incorrect, with and without something wrong in the command line or in the environment (missing or wrong inputs and outputs, files that can't be created or written, formatter that is missing or fails). Non-trivial when the model is incorrect or something is wrong.",
	})
	generated("C08", "Types, resources and versions of random models: the generated code must compile and contain the types, functions, methods and constants that correspond to the declaration; non-trivial when the declaration has at least two members.")
	generated("C10", "Histories of up to 14 operations (set, set to nil, nest other builders, link flag, identifiers, build, copy) on up to ten builders of the struct types of random models; non-trivial when there are more than three operations and at least one object is built.")
	generated("C11", "Objects and lists of the struct, class, enumerated and scalar types of random models: values written with the generated code are compared with the expected JSON and read back; JSON texts with random order of fields, white space, escapes and unknown fields are read from all the kinds of sources; truncated documents, documents with values of the wrong type, and failing readers and writers must give errors. Non-trivial when the value contains more than three values.")
	generated("C12", "Histories of operations (query parameters, headers, impersonation, declared parameters, sending) on two requests for all the methods of random models, reached via the locators starting at the client of the service; the transport records the requests and then modifies them. Non-trivial when there are more than three operations and at least one parameter.")
	generated("C13", "Responses for all the methods of random models: valid bodies (with random subsets of the output parameters, unknown fields and layout), empty bodies, error documents, bodies that aren't JSON, truncated bodies, connections that fail in the middle, and transport failures, with random statuses and headers. Non-trivial when the response contains parameters or an error.")
	generated("C14", "Polling requests for the resources of random models that have a Get method, and direct uses of the polling function: random expected statuses, predicates, parameters and sequences of up to eight responses (including failures), and missing or insufficient deadlines and intervals. Non-trivial when more than one request is sent.")
	generated("C15", "Errors with random subsets of the attributes: building, copying, describing, writing, reading from all kinds of sources (with unknown fields and random layout), truncated and wrong documents, and sending as HTTP responses. Non-trivial when the error has at least two attributes.")
	generated("C16", "Random arguments for the functions of the helpers package: query parameters, headers, copies, segments, parsers of query parameters and constructors of pointers. Non-trivial when there are at least two query parameters or headers.")
	generated("C17", "Random models: for each version the tree of paths contained in the generated metrics package is compared with the one calculated from the resources, locators and actions. Non-trivial when the tree has more than two nodes.")
	generated("C18", "Random models: for each version the specification embedded in the generated package is compared with the one generated by the specifications generator. Non-trivial when it has more than one path.")
	generated("C09", "Objects, nil objects and lists of all the struct types of random models, with random values for a random subset of the attributes; non-trivial when at least two attributes (or items) are set.")
}

// generated adds a property that is checked inside the generated code.
func generated(id, rule string) {
	options := pipeline.DefaultOptions
	if id == "C08" {
		// Here what matters is the variety of models.
		options.QuickTrees, options.QuickServices = 4, 24
		options.ThoroughTrees, options.ThoroughServices = 25, 30
	}
	if id == "C17" || id == "C18" {
		options.QuickTrees, options.QuickServices = 4, 24
		options.ThoroughTrees, options.ThoroughServices = 15, 30
	}
	if id == "C17" {
		// Only the resources and locators matter.
		options.Opts.MaxTypes, options.Opts.MaxAttrs, options.Opts.MaxResources = 1, 2, 9
		options.QuickServices = 30
	}
	add(&engine.Prop{
		ID: id, Rule: rule,
		Stage:  pipeline.Stage(options),
		Replay: pipeline.Replay,
	})
}

// refOptions are the options for the code generated from models with references.
var refOptions = pipeline.Options{
	Opts:       mm.Opts{MaxTypes: 3, MaxAttrs: 6, MaxResources: 2, UniqueVersions: true},
	Refs:       true,
	QuickTrees: 2, QuickServices: 12,
	ThoroughTrees: 8, ThoroughServices: 20,
}
