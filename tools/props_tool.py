# Properties of the command line tool as a whole. Executed by mkmeta.py.

prop("C19", "The output depends only on the content of the model",
 "Running the Go, OpenAPI or documentation generator twice for the same model writes exactly the same files with the same bytes, regardless of the order of the declarations and of the members inside them, of their distribution among files and the names of those files, of the white space, of how the versions of the services (when there are no references) are distributed among several input directories, and of the previous content of those files in the output directory. The Go code and the OpenAPI specification of a service, or of one version of a service, don't depend on the other services or versions of the model (without references) that are generated with it.",
 ["programs", "schedules"], "All valid models of the generator's domain (with references in the first part), all ways to write them, and all executions.",
 "The tests generate code once, for one model, in one order; generators that iterate maps, or that keep state from one concept to the next, give the expected output in most of the executions.",
 ["cmd/metamodel/generate/golang/cmd.go", "pkg/language/reader.go", "pkg/concepts", "pkg/generators/golang", "pkg/generators/openapi", "pkg/generators/docs"],
 [("sorted concepts", "pkg/concepts/version.go"), ("Buffer.Write", "pkg/generators/golang/buffer.go")],
 "property-based testing: metamorphic relations between executions of the command line tool for the same model written in different ways, and for parts of the model",
 "Random exploration; Go files are compared before formatting, with the imports sorted, and differences are confirmed with the real formatter.")

prop("C20", "The documentation describes exactly the resources and types of the model",
 "For every valid model the documentation generator writes an index, one page for each resource, enum, struct and class, and nothing else. The index links to exactly those pages, in the order of the names of services, versions, resources and types. The page of a resource contains its name and documentation, a table with the name and summary of each method, and for each method the name, the HTTP method, the documentation, and the table and documentation of its parameters. The page of a type contains its name and documentation, and the table and documentation of its attributes (also `kind`, `id` and `href` for classes that have attributes) or values. Summaries are the first sentence of the documentation, in one line.",
 ["programs"], "All valid models of the generator's domain; when several versions have types or resources with the same name only the existence of the page is required.",
 "The tests check that the generator doesn't fail, not what it writes.",
 ["pkg/generators/docs/docs_generator.go", "pkg/markdown/buffer.go", "pkg/markdown/names_calculator.go"],
 [("DocsGenerator", "pkg/generators/docs/docs_generator.go"), ("Buffer", "pkg/markdown/buffer.go")],
 "property-based testing: random models, all pages compared line by line with the ones of a reference implementation",
 "Random exploration; white space and blank lines aren't compared.")

prop("C21", "The tool fails, and writes nothing wrong, exactly when it can't do its work",
 "The check and generate commands exit with zero if and only if the model is valid, all the mandatory options are given, all the inputs are directories that can be read, all the output files (and, for Go, the temporary ones) can be written, and the formatter of Go code succeeds; otherwise they exit with a non zero code and explain why, and never panic. The check command doesn't write anything; the generate commands don't write anything if the model or the options aren't correct, don't modify the model, and don't touch other files of the output directory that aren't Go code. After a successful execution all the output files are complete, and the Go files are formatted. Nothing is left in the directory of temporary files.",
 ["programs", "fault_sequences"], "All valid and invalid models of the domain of C03, all commands, and faults in each of the options, inputs, output files and formatter.",
 "The tests never run the tool with wrong models or with failures of the file system or of the formatter.",
 ["cmd/metamodel/check/cmd.go", "cmd/metamodel/generate/golang/cmd.go", "cmd/metamodel/generate/openapi/cmd.go", "cmd/metamodel/generate/docs/cmd.go", "pkg/generators/golang/buffer.go", "pkg/generators/openapi/buffer.go", "pkg/markdown/buffer.go", "pkg/reporter/reporter.go"],
 [("run", "cmd/metamodel/generate/golang/cmd.go"), ("Buffer.Write", "pkg/generators/golang/buffer.go")],
 "property-based testing with fault injection: random commands, models and faults against the rules of validation and the output without faults",
 "Random exploration; faults are missing inputs, files instead of directories and the other way around, writes that fail because the device is full, and formatters that are missing or fail.")
