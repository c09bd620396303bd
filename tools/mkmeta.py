#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single list below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or []))

GEN = "Random models of the framework's own generator (all kinds of types, attributes, lists, maps, links, resources, locators, methods, parameters, default values, annotations, documentation, several services and versions), rendered to files by the framework."

prop("C01", "Names are split, rendered and compared consistently",
 "Every identifier is split into words at its case changes, keeping initialisms (with an optional plural `s`) and digits as the user wrote them. Its snake, camel, upper, lower and capitalized forms are determined by those words, and splitting the camel form gives the same name again. Names that differ in any word are different, ordering of names is a total order by words, and combining names never changes the names that are combined.",
 ["inputs"], "All identifiers accepted by the model language, and all sequences of words.",
 "The unit tests use a fixed table of identifiers.",
 ["pkg/names/parser.go", "pkg/names/name.go", "pkg/names/case.go", "pkg/names/words.go"],
 [("ParseUsingCase / ParseUsingSeparator", "pkg/names/parser.go"), ("Name.Snake, Camel, Compare", "pkg/names/name.go")],
 "property-based testing: generated identifiers against an independent reference model, and round trips",
 "Random exploration of identifiers against an independent model of the splitting rules.")

prop("C02", "The model that is read is exactly the model that was written",
 "For any valid set of model files the model that is read contains exactly the declared services, versions, types, attributes, enum values, resources, locators, methods, parameters, default values, errors, annotations and documentation, with the types that the built-in and list and map rules add, and nothing else. The result doesn't depend on the order of declarations, on the layout of the text, or on how the declarations are distributed among the files of the version.",
 ["programs"], "All valid models of the generator's domain, all orders, layouts and distributions among files.",
 "The tests read a few fixed models and look at a few concepts of each.",
 ["pkg/language/reader.go", "pkg/language/ModelParser.g4", "pkg/language/ModelLexer.g4", "pkg/concepts"],
 [("Reader", "pkg/language/reader.go"), ("grammar actions", "pkg/language/model_parser.go"), ("concepts", "pkg/concepts")],
 "property-based testing: random models, rendered and read back, compared with the syntax tree (round trip)",
 "Complete comparison of the model that is read with the generated one; trusts the framework's renderer.")

prop("C03", "Wrong models are rejected, right models are accepted",
 "A set of model files is accepted if and only if it is syntactically correct and satisfies the rules: everything referenced is defined in the same version, nothing is declared twice, there is a root resource in each version, locators have targets and don't form loops, and the parameters of each kind of method have the names, types, directions and default values required. When a model is rejected at least one error is reported, and it mentions what is wrong.",
 ["programs"], "All models obtained from valid ones by up to two changes from a catalogue covering each rule, and valid models divided among several inputs.",
 "The tests contain no example of most of the rules, and none of the combinations.",
 ["pkg/language/checks.go", "pkg/language/reader.go", "pkg/language/errors.go"],
 [("checks of the reader", "pkg/language/checks.go"), ("checks of undefined concepts", "pkg/language/reader.go")],
 "property-based testing: mutated models against an independent validity oracle",
 "Random exploration; the oracle implements each rule independently, including an independent grammar recognizer.")

prop("C04", "Arbitrary input never crashes the tools, and broken syntax is never accepted",
 "Reading any text as a model terminates with either a model or an error, without crashing, and all the generators also terminate without crashing for the models that were accepted. Text that isn't in the language is never accepted.",
 ["inputs"], "Arbitrary text, sequences of tokens, and valid models with random changes of characters and tokens.",
 "The tests only read correct models.",
 ["pkg/language", "pkg/generators", "pkg/names/parser.go"],
 [("error handling of the reader", "pkg/language/reader.go"), ("error listener", "pkg/language/errors.go")],
 "fuzzing: structured text mutation, and coverage-guided fuzzing in the thorough tier, with crash, termination and syntax-recognizer oracles",
 "Random exploration; a hang is a case that needs more than 150 seconds.")

prop("C05", "References give a version the types of other versions, whatever the layout",
 "For every model where a version contains classes with `@ref(path=\"/service/version/type\")` whose names are those of the referenced classes: the version contains its own types, the referenced classes, and all the types reachable from those via attributes that aren't links (directly, in lists or in maps, and through chains of references), with the same kind, documentation, annotations, attributes and values as in the version that declares them, regardless of the order of the declarations and of their distribution among files. The version owns the types that it imports and everything that uses them. A link of an imported class goes to a type of the same version if that version has a reference for it, and to the referenced version otherwise. The Go code generated for such models compiles, and the types of the version behave as if they were declared in it: same names and methods, builders, and JSON representation, also for links to other versions. References to types, versions or services that don't exist, paths that don't have three components, loops of references, and references when there are multiple input directories are rejected.",
 ["programs"], "All models with acyclic references among two to four versions, where versions don't declare types with the names of types that they import; and those models with one wrong reference.",
 "The tests read half a dozen models with one or two references, always in the same order, and never compile code for a type that is both linked and used directly.",
 ["pkg/language/reader.go", "pkg/concepts/version.go", "pkg/concepts/attribute.go", "pkg/generators/golang/types_generator.go", "pkg/generators/golang/builders_generator.go", "pkg/generators/golang/json_generator.go"],
 [("resolveReferences, handleClassRef, recursivelyAddTypeToVersion", "pkg/language/reader.go"), ("link owners", "pkg/generators/golang/types_calculator.go")],
 "property-based testing: random models with references against an independent expansion of the references, in process and via the generated and compiled code",
 "Random exploration; in chains of references the target of a link can be any version of the chain that contains the type.")

prop("C06", "Every concept is bound to the HTTP method, status, path and names of the rules",
 "For every method of every valid model the HTTP method and the default status follow from the name of the method (actions are POST) and only scalar inputs of methods that aren't actions are query parameters. For every service, version, locator, method, attribute, enum value and parameter the URL segment, query parameter name, JSON field name and enum text are the value of the `http` or `json` annotation when there is one, and the snake case form of the name otherwise.",
 ["programs"], "All methods and concepts of all valid models of the generator's domain.",
 "The tests only look at some fixed methods through the generated clients.",
 ["pkg/http/binding_calculator.go", "pkg/annotations/annotations.go", "pkg/concepts/method.go"],
 [("BindingCalculator", "pkg/http/binding_calculator.go")],
 "property-based testing: random models against a reference implementation of the binding rules",
 "Random exploration; complete comparison for each model.")

prop("C07", "The OpenAPI specification describes exactly the API of the model",
 "For every valid model the generator writes one specification for each version: valid JSON without duplicated fields, whose paths, operations, path and query parameters, request bodies, responses, and schemas of types, errors, lists and maps are exactly the ones of the model. All the references it contains are resolved in the same document.",
 ["programs"], "All valid models of the generator's domain.",
 "The tests generate one specification and check that it is generated, not what it contains.",
 ["pkg/generators/openapi/openapi_generator.go", "pkg/generators/openapi/names_calculator.go", "pkg/generators/openapi/buffer.go", "pkg/http/binding_calculator.go"],
 [("OpenAPIGenerator", "pkg/generators/openapi/openapi_generator.go"), ("Buffer", "pkg/generators/openapi/buffer.go")],
 "property-based testing: random models, complete document compared with the one of a reference generator",
 "Random exploration; the whole document is compared with the one that an independent implementation expects.")

for extra in sorted(os.listdir(os.path.join(root, "tools"))):
    if extra.startswith("props_") and extra.endswith(".py"):
        exec(open(os.path.join(root, "tools", extra)).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash run.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"],
        "technique": p["technique"], "level": "exploration", "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "No hooks in /repo. See DESIGN.md. Repaired defects are listed in known-findings.txt; there are no open findings.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
