From 3143a6a64fd21f9aa7fe978aea94a43778065682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:25 +0000
Subject: [PATCH 01/33] fix: sort errors by their actual name

The Error type declared its own 'name' field, which is never set and hides
the one inherited from 'namedSupport', so sorting two or more errors of a
version dereferenced a nil name.
---
 pkg/concepts/error.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/concepts/error.go b/pkg/concepts/error.go
index 502bc64..25d3863 100644
--- a/pkg/concepts/error.go
+++ b/pkg/concepts/error.go
@@ -27,7 +27,6 @@ type Error struct {
 	namedSupport
 
 	owner *Version
-	name  *names.Name
 	code  int
 }
 
-- 
2.43.0


From 166e10ce87a22516708e481cd57aa24f8463b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:25 +0000
Subject: [PATCH 02/33] fix: parse only the current chunk when splitting names
 by case

Names that start with a lower case chunk, like 'dryRun', were converted
into a first word containing the complete text of the name.
---
 pkg/names/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/names/parser.go b/pkg/names/parser.go
index 749883c..658e97d 100644
--- a/pkg/names/parser.go
+++ b/pkg/names/parser.go
@@ -110,7 +110,7 @@ func ParseUsingCase(text string) *Name {
 			}
 
 			// Anything else is a word by itself:
-			word := parseWord(text)
+			word := parseWord(current)
 			words = append(words, word)
 			i++
 		}
-- 
2.43.0


From ba2699f01c6b9b4bb277f1682a58cbe20b809c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:29 +0000
Subject: [PATCH 03/33] fix: don't crash when a documentation comment starts
 with a blank line

---
 pkg/language/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 2972465..5c8404a 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -1093,6 +1093,9 @@ func (r *Reader) getDoc(token antlr.Token) string {
 		index := strings.IndexFunc(first, func(r rune) bool {
 			return !unicode.IsSpace(r)
 		})
+		if index < 0 {
+			index = 0
+		}
 		prefix := first[0:index]
 		for i, line := range lines {
 			if line != "" {
-- 
2.43.0


From 523f0a1ae02effc416f3605f6926a6c040b383db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:29 +0000
Subject: [PATCH 04/33] fix: don't crash when a root resource or a locator
 target is missing

---
 pkg/language/checks.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/language/checks.go b/pkg/language/checks.go
index 28c71b3..141ec6d 100644
--- a/pkg/language/checks.go
+++ b/pkg/language/checks.go
@@ -590,6 +590,11 @@ func (r *Reader) checkResponseParameter(method *concepts.Method, name *names.Nam
 }
 
 func (r *Reader) checkLocatorLoops(version *concepts.Version) {
+	// The lack of root resource has already been reported:
+	if version.Root() == nil {
+		return
+	}
+
 	for _, locator := range version.Root().Locators() {
 		path := []*concepts.Locator{locator}
 		r.checkLocatorPathLoops(path)
@@ -601,6 +606,10 @@ func (r *Reader) checkLocatorPathLoops(path []*concepts.Locator) {
 	// the last locator. If there is such locator then there is a loop and we should not
 	// continue checking this path.
 	last := len(path) - 1
+	if path[last].Target() == nil {
+		// The lack of target has already been reported.
+		return
+	}
 	first := -1
 	for i := last; i >= 0; i-- {
 		if path[i].Owner() == path[last].Target() {
-- 
2.43.0


From 2d3fb7461b323075cb618e04dddcc1d8d30d36df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:05 +0000
Subject: [PATCH 05/33] fix: don't walk the incomplete parse tree of files with
 syntax errors

---
 pkg/language/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 5c8404a..b290ed9 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -333,7 +333,13 @@ func (r *Reader) loadFile(path string) {
 	parser := NewModelParser(stream)
 	parser.RemoveErrorListeners()
 	parser.AddErrorListener(listener)
+	previous := r.reporter.Errors()
 	tree := parser.File()
+
+	// If there are syntax errors then the tree may be incomplete, so we can't use it:
+	if r.reporter.Errors() > previous {
+		return
+	}
 	antlr.ParseTreeWalkerDefault.Walk(r, tree)
 }
 
-- 
2.43.0


From d11afad730a5b0a6c4401a9f40582803481c6b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:05 +0000
Subject: [PATCH 06/33] fix: report text that can't start a declaration instead
 of ignoring the rest of the file

---
 pkg/language/reader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index b290ed9..c72572b 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -336,6 +336,16 @@ func (r *Reader) loadFile(path string) {
 	previous := r.reporter.Errors()
 	tree := parser.File()
 
+	// The rule doesn't require the end of the file, so we need to check it explicitly, otherwise
+	// everything after the first token that can't start a declaration would be silently ignored:
+	token := stream.LT(1)
+	if token.GetTokenType() != antlr.TokenEOF {
+		r.reporter.Errorf(
+			"Line %d, column %d: unexpected '%s'",
+			token.GetLine(), token.GetColumn(), token.GetText(),
+		)
+	}
+
 	// If there are syntax errors then the tree may be incomplete, so we can't use it:
 	if r.reporter.Errors() > previous {
 		return
-- 
2.43.0


From 402d693d08531df9d301a15f36c9e18919d38a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:43 +0000
Subject: [PATCH 07/33] fix: report undefined concepts even if another version
 defines them

---
 pkg/language/reader.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index c72572b..046ecfa 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -1025,51 +1025,57 @@ func (r *Reader) ExitAnnotationParameter(ctx *AnnotationParameterContext) {
 	ctx.SetValue(ctx.Literal().GetResult())
 }
 
+// undefinedKey calculates the key used for the given name in the indexes of undefined concepts. It
+// includes the current version because different versions can use the same names.
+func (r *Reader) undefinedKey(name *names.Name) string {
+	return fmt.Sprintf("%s.%s.%s", r.service.Name(), r.version.Name(), name.String())
+}
+
 func (r *Reader) isUndefinedType(typ *concepts.Type) bool {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	_, ok := r.undefinedTypes[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	r.undefinedTypes[key] = typ
 }
 
 func (r *Reader) removeUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	delete(r.undefinedTypes, key)
 }
 
 func (r *Reader) isUndefinedResource(resource *concepts.Resource) bool {
-	key := resource.Name().String()
+	key := r.undefinedKey(resource.Name())
 	_, ok := r.undefinedResources[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedResource(resource *concepts.Resource) {
-	key := resource.Name().String()
+	key := r.undefinedKey(resource.Name())
 	r.undefinedResources[key] = resource
 }
 
 func (r *Reader) removeUndefinedResource(typ *concepts.Resource) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	delete(r.undefinedResources, key)
 }
 
 func (r *Reader) isUndefinedError(err *concepts.Error) bool {
-	key := err.Name().String()
+	key := r.undefinedKey(err.Name())
 	_, ok := r.undefinedErrors[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedError(err *concepts.Error) {
-	key := err.Name().String()
+	key := r.undefinedKey(err.Name())
 	r.undefinedErrors[key] = err
 }
 
 func (r *Reader) removeUndefinedError(typ *concepts.Error) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	delete(r.undefinedErrors, key)
 }
 
-- 
2.43.0


From 5a59554bb995213e57ec3b282cd7e22448aa4739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:46 +0000
Subject: [PATCH 08/33] fix: don't take the address of map parameters in
 generated requests

---
 pkg/generators/golang/clients_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 994d78c..6f872c7 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -819,7 +819,7 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $requestName }}) {{ $setterName }}(value {{ $setterType }}) *{{ $requestName }} {
-				{{ if or .Type.IsStruct .Type.IsList }}
+				{{ if or .Type.IsStruct .Type.IsList .Type.IsMap }}
 					r.{{ $fieldName }} = value
 				{{ else }}
 					r.{{ $fieldName }} = &value
-- 
2.43.0


From 0118a0be2aeb9154170ad341a336f7bc728b7a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:46 +0000
Subject: [PATCH 09/33] fix: generate valid code for parameters of type
 Interface

---
 pkg/generators/golang/clients_generator.go | 16 ++++++++++------
 pkg/generators/golang/json_generator.go    |  2 +-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 6f872c7..68d6456 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -819,7 +819,7 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $requestName }}) {{ $setterName }}(value {{ $setterType }}) *{{ $requestName }} {
-				{{ if or .Type.IsStruct .Type.IsList .Type.IsMap }}
+				{{ if or .Type.IsStruct .Type.IsList .Type.IsMap .Type.IsInterface }}
 					r.{{ $fieldName }} = value
 				{{ else }}
 					r.{{ $fieldName }} = &value
@@ -843,7 +843,11 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 				{{ $fieldName := fieldName . }}
 				{{ $parameterName := parameterName . }}
 				if r.{{ $fieldName }} != nil {
-					helpers.AddValue(&query, "{{ $parameterName }}", *r.{{ $fieldName }})
+					{{ if .Type.IsInterface }}
+						helpers.AddValue(&query, "{{ $parameterName }}", r.{{ $fieldName }})
+					{{ else }}
+						helpers.AddValue(&query, "{{ $parameterName }}", *r.{{ $fieldName }})
+					{{ end }}
 				}
 			{{ end }}
 			header := helpers.CopyHeader(r.header)
@@ -976,12 +980,12 @@ func (g *ClientsGenerator) generateResponseSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $responseName }}) {{ $getterName }}() {{ $getterType }} {
-				{{ if .Type.IsScalar }}
+				{{ if and .Type.IsScalar (not .Type.IsInterface) }}
 					if r != nil && r.{{ $fieldName }} != nil {
 						return *r.{{ $fieldName }}
 					}
 					return {{ zeroValue .Type }}
-				{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap }}
+				{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap .Type.IsInterface }}
 					if r == nil {
 						return nil
 					}
@@ -996,9 +1000,9 @@ func (g *ClientsGenerator) generateResponseSource(method *concepts.Method) {
 			func (r *{{ $responseName }}) Get{{ $getterName }}() (value {{ $getterType }}, ok bool) {
 				ok = r != nil && r.{{ $fieldName }} != nil
 				if ok {
-					{{ if .Type.IsScalar }}
+					{{ if and .Type.IsScalar (not .Type.IsInterface) }}
 						value = *r.{{ $fieldName }}
-					{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap }}
+					{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap .Type.IsInterface }}
 						value = r.{{ $fieldName }}
 					{{ end }}
 				}
diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 66fac4b..eebaa36 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1306,7 +1306,7 @@ func (g *JSONSupportGenerator) generateReadBodyParameter(object string,
 	return g.buffer.Eval(`
 		case "{{ .Tag }}":
 			{{ generateReadValue "value" .Type false .LinkOwner }}
-			{{ if .Type.IsScalar }}
+			{{ if and .Type.IsScalar (not .Type.IsInterface) }}
 				{{ .Object }}.{{ .Field }} = &value
 			{{ else }}
 				{{ .Object }}.{{ .Field }} = value
-- 
2.43.0


From cb8c25681dd30bdaa517dd7764adc21c38375db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:46 +0000
Subject: [PATCH 10/33] fix: generate valid code for structs without attributes

---
 pkg/generators/golang/json_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index eebaa36..e0225c8 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -605,7 +605,9 @@ func (g *JSONSupportGenerator) generateStructTypeSource(typ *concepts.Type) {
 
 		// {{ $writeTypeFunc }} writes a value of the '{{ .Type.Name }}' type to the given stream.
 		func {{ $writeTypeFunc }}(object *{{ $structName }}, stream *jsoniter.Stream) {
-			count := 0
+			{{ if or .Type.IsClass .Type.Attributes }}
+				count := 0
+			{{ end }}
 			stream.WriteObjectStart()
 			{{ if .Type.IsClass }}
 				stream.WriteObjectField("kind")
-- 
2.43.0


From 2938b4192a4f27294bf65a532597ba2f9bd803bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:46 +0000
Subject: [PATCH 11/33] fix: use the same parameter field names in clients and
 JSON support

---
 pkg/generators/golang/json_generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index e0225c8..a51ce0b 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1569,7 +1569,11 @@ func (g *JSONSupportGenerator) fieldName(attribute *concepts.Attribute) string {
 }
 
 func (g *JSONSupportGenerator) parameterFieldName(parameter *concepts.Parameter) string {
-	return g.names.Private(parameter.Name())
+	name := g.names.Private(parameter.Name())
+	if _, ok := builtinFields[name]; ok {
+		name = name + "_"
+	}
+	return name
 }
 
 func (g *JSONSupportGenerator) clientRequestName(method *concepts.Method) string {
-- 
2.43.0


From bdbdc9c0b68c2284055a913a6af9196cf2840cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:01 +0000
Subject: [PATCH 12/33] fix: avoid clashes between parameters and builtin
 members of requests and responses

---
 pkg/generators/golang/clients_generator.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 68d6456..cf96a41 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -1253,13 +1253,24 @@ func (g *ClientsGenerator) avoidBuiltin(name string, builtins map[string]interfa
 }
 
 var builtinFields = map[string]interface{}{
-	"err":    nil,
-	"status": nil,
+	"err":       nil,
+	"header":    nil,
+	"path":      nil,
+	"query":     nil,
+	"status":    nil,
+	"transport": nil,
 }
 
 var builtinGetters = map[string]interface{}{
 	"Error":  nil,
+	"Header": nil,
 	"Status": nil,
 }
 
-var builtinSetters = map[string]interface{}{}
+var builtinSetters = map[string]interface{}{
+	"Header":      nil,
+	"Impersonate": nil,
+	"Parameter":   nil,
+	"Send":        nil,
+	"SendContext": nil,
+}
-- 
2.43.0


From 3e3449a2ddd8df1dc344c5948e0c313f1416d2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:03 +0000
Subject: [PATCH 13/33] fix: avoid clashes between parameters and builtin
 members of poll requests

---
 pkg/generators/golang/clients_generator.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index cf96a41..3c0149c 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -455,6 +455,7 @@ func (g *ClientsGenerator) generateResourceClient(resource *concepts.Resource) e
 		Function("parameterName", g.binding.QueryParameterName).
 		Function("pollRequestName", g.pollRequestName).
 		Function("pollResponseName", g.pollResponseName).
+		Function("pollSetterName", g.pollSetterName).
 		Function("readResponseFunc", g.readResponseFunc).
 		Function("requestBodyParameters", g.binding.RequestBodyParameters).
 		Function("requestName", g.requestName).
@@ -623,12 +624,13 @@ func (g *ClientsGenerator) generatePollMethodSource(resource *concepts.Resource,
 		{{ range $methodRequestParameters }}
 			{{ $setterName := setterName . }}
 			{{ $setterType := setterType . }}
+			{{ $pollSetterName := pollSetterName . }}
 
-			// {{ $setterName }} sets the value of the '{{ .Name }}' parameter for all the requests that
+			// {{ $pollSetterName }} sets the value of the '{{ .Name }}' parameter for all the requests that
 			// will be used to retrieve the object.
 			//
 			{{ lineComment .Doc }}
-			func (r *{{ $requestName }}) {{ $setterName }}(value {{ $setterType }}) *{{ $requestName }} {
+			func (r *{{ $requestName }}) {{ $pollSetterName }}(value {{ $setterType }}) *{{ $requestName }} {
 				r.request.{{ $setterName }}(value)
 				return r
 			}
@@ -1086,6 +1088,10 @@ func (g *ClientsGenerator) setterName(parameter *concepts.Parameter) string {
 	return name
 }
 
+func (g *ClientsGenerator) pollSetterName(parameter *concepts.Parameter) string {
+	return g.avoidBuiltin(g.setterName(parameter), builtinPollSetters)
+}
+
 func (g *ClientsGenerator) setterType(parameter *concepts.Parameter) *TypeReference {
 	return g.accessorType(parameter)
 }
@@ -1274,3 +1280,10 @@ var builtinSetters = map[string]interface{}{
 	"Send":        nil,
 	"SendContext": nil,
 }
+
+var builtinPollSetters = map[string]interface{}{
+	"Interval":     nil,
+	"Predicate":    nil,
+	"StartContext": nil,
+	"Status":       nil,
+}
-- 
2.43.0


From 4a9b923a7aa9b1e5f6c3c8d0e1222f9775104d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:59 +0000
Subject: [PATCH 14/33] fix: honour the json annotation of parameters in
 OpenAPI schemas

---
 pkg/generators/openapi/names_calculator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/names_calculator.go b/pkg/generators/openapi/names_calculator.go
index 00ad681..ae3a9c2 100644
--- a/pkg/generators/openapi/names_calculator.go
+++ b/pkg/generators/openapi/names_calculator.go
@@ -90,5 +90,9 @@ func (c *NamesCalculator) AttributePropertyName(attribute *concepts.Attribute) s
 
 // ParameterPropertyName calculates the property name for an parameter of a method.
 func (c *NamesCalculator) ParameterPropertyName(parameter *concepts.Parameter) string {
-	return parameter.Name().Snake()
+	name := annotations.JSONName(parameter)
+	if name == "" {
+		name = parameter.Name().Snake()
+	}
+	return name
 }
-- 
2.43.0


From 7a18bc677bb8128b76c70836bdc5b8d1564663fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:59 +0000
Subject: [PATCH 15/33] fix: honour the value passed to the Link method of
 builders

---
 pkg/generators/golang/builders_generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 643d3d1..2fc7e84 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -242,7 +242,11 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 		{{ if .Type.IsClass }}
 			// Link sets the flag that indicates if this is a link.
 			func (b *{{ $builderName }}) Link(value bool) *{{ $builderName }} {
-				b.bitmap_ |= 1
+				if value {
+					b.bitmap_ |= 1
+				} else {
+					b.bitmap_ &^= 1
+				}
 				return b
 			}
 
-- 
2.43.0


From 63c5bb3295c68a644fdaa22720a777bc3d4dfcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:59 +0000
Subject: [PATCH 16/33] fix: describe responses of list methods without paging
 as objects in OpenAPI schemas

---
 pkg/generators/openapi/openapi_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index 998552e..e315668 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -396,7 +396,7 @@ func (g *OpenAPIGenerator) generateResponses(method *concepts.Method) {
 		g.buffer.StartObject("content")
 		g.buffer.StartObject("application/json")
 		g.buffer.StartObject("schema")
-		if len(parameters) > 1 || method.IsAction() {
+		if len(parameters) > 1 || method.IsAction() || method.IsList() || method.IsSearch() {
 			g.buffer.Field("type", "object")
 			g.buffer.StartObject("properties")
 			for _, parameter := range parameters {
-- 
2.43.0


From 8db11c0efa999da5633998d2a67187955d0cc370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:20 +0000
Subject: [PATCH 17/33] fix: don't generate the path of the root resource twice
 in OpenAPI specifications

---
 pkg/generators/openapi/openapi_generator.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index e315668..41d1cd8 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -233,10 +233,7 @@ func (g *OpenAPIGenerator) generatePaths(version *concepts.Version) {
 	// Generate the specification:
 	g.buffer.StartObject("paths")
 
-	// Add the metadata path:
-	g.generateMetadataPath(version)
-
-	// Add the path for the root resource:
+	// Add the path for the root resource, including the metadata:
 	empty := []*concepts.Locator{}
 	root := g.absolutePath(version, empty)
 	g.generateResourcePaths(root, empty, version.Root())
@@ -251,8 +248,7 @@ func (g *OpenAPIGenerator) generatePaths(version *concepts.Version) {
 	g.buffer.EndObject()
 }
 
-func (g *OpenAPIGenerator) generateMetadataPath(version *concepts.Version) {
-	g.buffer.StartObject(g.absolutePath(version, nil))
+func (g *OpenAPIGenerator) generateMetadataMethod() {
 	g.buffer.StartObject("get")
 	g.generateDescription("Retrieves the version metadata.")
 	g.buffer.StartObject("responses")
@@ -278,7 +274,6 @@ func (g *OpenAPIGenerator) generateMetadataPath(version *concepts.Version) {
 	g.buffer.EndObject()
 	g.buffer.EndObject()
 	g.buffer.EndObject()
-	g.buffer.EndObject()
 }
 
 func (g *OpenAPIGenerator) generateResourcePaths(prefix string,
@@ -296,9 +291,14 @@ func (g *OpenAPIGenerator) generateResourcePaths(prefix string,
 		}
 	}
 
-	// Methods that don't have their own URL segment share the same path object:
-	if len(without) > 0 {
+	// Methods that don't have their own URL segment share the same path object, and for the
+	// root resource that includes also the method that retrieves the metadata:
+	root := len(path) == 0
+	if root || len(without) > 0 {
 		g.buffer.StartObject(prefix)
+		if root {
+			g.generateMetadataMethod()
+		}
 		for _, method := range without {
 			g.generateMethod(path, method)
 		}
-- 
2.43.0


From a3defff311ebcdfa2951806684f4b6c375599a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:04 +0000
Subject: [PATCH 18/33] fix: don't stop reading maps when there is an empty key

---
 pkg/generators/golang/json_generator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index a51ce0b..23ec4d7 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1325,6 +1325,7 @@ func (g *JSONSupportGenerator) generateReadBodyParameter(object string,
 func (g *JSONSupportGenerator) generateReadValue(variable string, typ *concepts.Type,
 	link bool,
 	linkOwner *concepts.Version) string {
+	g.buffer.Import("github.com/json-iterator/go", "jsoniter")
 	g.buffer.Import("time", "")
 	return g.buffer.Eval(`
 		{{ if .Type.IsBoolean }}
@@ -1378,14 +1379,11 @@ func (g *JSONSupportGenerator) generateReadValue(variable string, typ *concepts.
 			{{ end }}
 		{{ else if .Type.IsMap }}
 			{{ .Variable }} := {{ valueReference .Type }}{}
-			for {
-				key := iterator.ReadObject()
-				if key == "" {
-					break
-				}
+			iterator.ReadMapCB(func(iterator *jsoniter.Iterator, key string) bool {
 				{{ generateReadValue "item" .Type.Element false .LinkOwner }}
 				{{ .Variable }}[key] = item
-			}
+				return true
+			})
 		{{ else }}
 			iterator.ReadAny()
 		{{ end }}
-- 
2.43.0


From 4b6dd326ebee7ce58a5225fafe9910a087b8e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:10 +0000
Subject: [PATCH 19/33] fix: preserve the comments of the current file when
 loading referenced files

---
 pkg/language/reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 046ecfa..58d7049 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -304,8 +304,13 @@ func (r *Reader) loadFile(path string) {
 	// Inform that the file is being loaded:
 	r.reporter.Infof("Loading file '%s'", path)
 
-	// Clear the map of comment lines:
+	// Clear the map of comment lines, preserving the ones of the file that is being loaded when
+	// this one is loaded as the result of a reference:
+	previousComments := comments
 	comments = map[int]string{}
+	defer func() {
+		comments = previousComments
+	}()
 
 	// Open the source file:
 	input, err := antlr.NewFileStream(path)
-- 
2.43.0


From 3b1e88fccaec6ec0af8d1e6e51c14789908ba2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:12 +0000
Subject: [PATCH 20/33] fix: report incorrect references instead of crashing or
 ignoring them

---
 pkg/language/reader.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 58d7049..d55fefb 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -482,11 +482,22 @@ func (r *Reader) removeLinkedAttributes(typ *concepts.Type) {
 
 func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	if len(r.inputs) > 1 {
-		panic("referenced service with multiple inputs in undefined")
+		r.reporter.Errorf(
+			"Can't resolve reference '%s' of type '%s' because there are multiple inputs",
+			path, typ.Name(),
+		)
+		return
 	}
 	input := r.inputs[0]
-	path = strings.TrimPrefix(path, "/")
-	components := strings.Split(path, "/")
+	components := strings.Split(strings.TrimPrefix(path, "/"), "/")
+	if len(components) != 3 {
+		r.reporter.Errorf(
+			"Reference '%s' of type '%s' should contain the names of a service, a "+
+				"version and a type",
+			path, typ.Name(),
+		)
+		return
+	}
 	referencedServiceName := components[0]
 	referencedVersion := components[1]
 	referencedTypeName := components[2]
@@ -503,12 +514,24 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 
 	// load the ad-hoc service and version referenced and find the correct type.
 	refReader.loadService(fmt.Sprintf("%s/%s", input, referencedServiceName))
-	refVersion := refReader.service.FindVersion(names.ParseUsingSeparator(referencedVersion, "_"))
+	var refVersion *concepts.Version
+	if refReader.service != nil {
+		refVersion = refReader.service.FindVersion(names.ParseUsingSeparator(referencedVersion, "_"))
+	}
 	// Once loading the service, we find the reference type
 	// then recursively iterate the type tree and add the types to the current version.
-	if referencedType := refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_")); referencedType != nil {
-		r.recursivelyAddTypeToVersion(typ, referencedType)
+	var referencedType *concepts.Type
+	if refVersion != nil {
+		referencedType = refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_"))
+	}
+	if referencedType == nil {
+		r.reporter.Errorf(
+			"Type '%s' references '%s' but it doesn't exist",
+			typ.Name(), path,
+		)
+		return
 	}
+	r.recursivelyAddTypeToVersion(typ, referencedType)
 }
 
 // A helper function to recursively add types to a version
-- 
2.43.0


From 3e2fab934e5468875d38782980dd07028ac03f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:53 +0000
Subject: [PATCH 21/33] fix: don't crash when a referenced version contains
 references

---
 pkg/language/reader.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index d55fefb..98165d2 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -57,6 +57,9 @@ type Reader struct {
 	undefinedTypes     map[string]*concepts.Type
 	undefinedResources map[string]*concepts.Resource
 	undefinedErrors    map[string]*concepts.Error
+
+	// Paths of the versions that are being loaded because of a chain of references:
+	references []string
 }
 
 // NewReader creates an object that knows how to read  a model from a set of files. Typical usage is
@@ -502,10 +505,25 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	referencedVersion := components[1]
 	referencedTypeName := components[2]
 
+	// Check that the version isn't already being loaded:
+	reference := filepath.Join(input, referencedServiceName, referencedVersion)
+	for _, previous := range r.references {
+		if previous == reference {
+			r.reporter.Errorf(
+				"Reference '%s' of type '%s' introduces a loop",
+				path, typ.Name(),
+			)
+			return
+		}
+	}
+
 	// Create an ad-hoc reader and model for the specific referenced service.
 	refReader := NewReader().
-		Reporter(r.reporter)
+		Reporter(r.reporter).
+		Inputs(r.inputs)
 	refReader.model = concepts.NewModel()
+	refReader.references = append(refReader.references, r.references...)
+	refReader.references = append(refReader.references, reference)
 
 	// Initialize the indexes of undefined concepts:
 	refReader.undefinedTypes = make(map[string]*concepts.Type)
@@ -513,12 +531,12 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	refReader.undefinedErrors = make(map[string]*concepts.Error)
 
 	// load the ad-hoc service and version referenced and find the correct type.
-	refReader.loadService(fmt.Sprintf("%s/%s", input, referencedServiceName))
-	var refVersion *concepts.Version
-	if refReader.service != nil {
-		refVersion = refReader.service.FindVersion(names.ParseUsingSeparator(referencedVersion, "_"))
-	}
-	// Once loading the service, we find the reference type
+	refReader.service = concepts.NewService()
+	refReader.service.SetName(names.ParseUsingSeparator(referencedServiceName, "_"))
+	refReader.model.AddService(refReader.service)
+	refReader.loadVersion(reference)
+	refVersion := refReader.service.FindVersion(names.ParseUsingSeparator(referencedVersion, "_"))
+	// Once loading the version, we find the reference type
 	// then recursively iterate the type tree and add the types to the current version.
 	var referencedType *concepts.Type
 	if refVersion != nil {
-- 
2.43.0


From 2ac0a299a7e9103f3350a4b13c3636a67db63a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:56 +0000
Subject: [PATCH 22/33] fix: don't crash when a referenced type contains itself

---
 pkg/language/reader.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 98165d2..e5fd1c9 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -549,15 +549,19 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 		)
 		return
 	}
-	r.recursivelyAddTypeToVersion(typ, referencedType)
+	r.recursivelyAddTypeToVersion(typ, referencedType, map[*concepts.Type]bool{})
 }
 
 // A helper function to recursively add types to a version
 func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
-	referencedType *concepts.Type) {
+	referencedType *concepts.Type, visited map[*concepts.Type]bool) {
 	if referencedType.IsBasicType() {
 		return
 	}
+	if visited[referencedType] {
+		return
+	}
+	visited[referencedType] = true
 	for _, attribute := range referencedType.Attributes() {
 		// If attribute is explicitDeclared, it needs to change it's owner to be the same as currType
 		if attribute.Link() {
@@ -581,9 +585,9 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 			attribute.SetLinkOwner(attribute.Type().Owner())
 		} else if attribute.Type().IsList() || attribute.Type().IsMap() {
 			r.version.AddType(attribute.Type())
-			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element())
+			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element(), visited)
 		} else {
-			r.recursivelyAddTypeToVersion(currType, attribute.Type())
+			r.recursivelyAddTypeToVersion(currType, attribute.Type(), visited)
 		}
 	}
 
-- 
2.43.0


From cd35e15824a9a48823445709a97c4884e3b362be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:46 +0000
Subject: [PATCH 23/33] fix: use the right selector for links to versions whose
 name has multiple words

---
 pkg/generators/golang/builders_generator.go | 4 ++--
 pkg/generators/golang/types_generator.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 2fc7e84..7e2d49f 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -648,7 +648,7 @@ func (g *BuildersGenerator) fieldType(attribute *concepts.Attribute) *TypeRefere
 	var ref *TypeReference
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
@@ -716,7 +716,7 @@ func (g *BuildersGenerator) setterType(attribute *concepts.Attribute) *TypeRefer
 	var ref *TypeReference
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
diff --git a/pkg/generators/golang/types_generator.go b/pkg/generators/golang/types_generator.go
index 6307fb4..ad09537 100644
--- a/pkg/generators/golang/types_generator.go
+++ b/pkg/generators/golang/types_generator.go
@@ -608,7 +608,7 @@ func (g *TypesGenerator) getterType(attribute *concepts.Attribute) *TypeReferenc
 	typ := attribute.Type()
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
@@ -671,7 +671,7 @@ func (g *TypesGenerator) fieldType(attribute *concepts.Attribute) *TypeReference
 	typ := attribute.Type()
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
-- 
2.43.0


From 7652c23d22fd5432e9d48bfcd5ce430d8b85a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:43 +0000
Subject: [PATCH 24/33] fix: support types whose attributes use all the bits of
 the bitmap

---
 pkg/generators/golang/types_calculator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/types_calculator.go b/pkg/generators/golang/types_calculator.go
index 1e11bac..649af51 100644
--- a/pkg/generators/golang/types_calculator.go
+++ b/pkg/generators/golang/types_calculator.go
@@ -484,7 +484,7 @@ func (c *TypesCalculator) BitMask(attribute *concepts.Attribute) string {
 	}
 
 	// Calculate the mask:
-	mask := 1 << index
+	mask := uint64(1) << index
 	return fmt.Sprintf("%d", mask)
 }
 
-- 
2.43.0


From 31eb5629a0fef5bdd13f1db636ce4c794f82f3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:50 +0000
Subject: [PATCH 25/33] fix: don't panic when describing an error with a nil
 timestamp

---
 pkg/generators/golang/errors_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index a88ecaf..188fe17 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -472,7 +472,7 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 			if e.bitmap_&8 != 0 {
 				chunks = append(chunks, fmt.Sprintf("code is '%s'", e.code))
 			}
-			if e.bitmap_&128 != 0 {
+			if e.bitmap_&128 != 0 && e.timestamp != nil {
 				chunks = append(chunks, fmt.Sprintf("at '%v'", e.timestamp.Format(time.RFC3339)))
 			}
 			if e.bitmap_&32 != 0 {
-- 
2.43.0


From 9a799b78daf247da3ec8c9fc645298a1620443ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:26 +0000
Subject: [PATCH 26/33] fix: preserve empty maps when copying objects

---
 pkg/generators/golang/builders_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 7e2d49f..c525cfd 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -371,7 +371,7 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 						b.{{ $fieldName }} = nil
 					}
 				{{ else if .Type.IsMap }}
-					if len(object.{{ $fieldName }}) > 0 {
+					if object.{{ $fieldName }} != nil {
 						{{ if .Type.Element.IsScalar }}
 							b.{{ $fieldName }} = {{ $fieldType }}{}
 							for k, v := range object.{{ $fieldName }} {
-- 
2.43.0


From 07032f146f5e18a9c87034754f8d771b525116c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:34 +0000
Subject: [PATCH 27/33] fix: Don't make references depend on the order of the
 declarations

The references were resolved while the files were being loaded, so the result depended on
the order of the declarations and on the names of the files: links to classes that are also
references kept pointing to the referenced version, classes used by other referenced classes
were rejected as already defined, and attributes and parameters were left pointing to types
that are no longer part of the version. In addition links to types that have already been
added to the version were considered links to the version itself, and the generated code
didn't compile.
---
 pkg/language/reader.go | 96 ++++++++++++++++++++++++++++++------------
 1 file changed, 70 insertions(+), 26 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index e5fd1c9..1b1b1e4 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -58,6 +58,11 @@ type Reader struct {
 	undefinedResources map[string]*concepts.Resource
 	undefinedErrors    map[string]*concepts.Error
 
+	// Types of the version that is currently being loaded that are references, and types that
+	// have been added because they are used by referenced types:
+	referenceTypes []*concepts.Type
+	importedTypes  map[*concepts.Type]bool
+
 	// Paths of the versions that are being loaded because of a chain of references:
 	references []string
 }
@@ -301,6 +306,10 @@ func (r *Reader) loadVersion(dir string) {
 			)
 		}
 	}
+
+	// Resolve the references. This can't be done while the files are being loaded because then
+	// the result would depend on the order of the declarations.
+	r.resolveReferences()
 }
 
 func (r *Reader) loadFile(path string) {
@@ -457,32 +466,52 @@ func (r *Reader) ExitClassDecl(ctx *ClassDeclContext) {
 	if path := annotations.ReferencePath(typ); path != "" {
 		// If the type has a reference set ExplicitDeclared
 		typ.SetExplicitDeclared(true)
-		r.removeLinkedAttributes(typ)
-		r.handleClassRef(typ, path)
+		r.referenceTypes = append(r.referenceTypes, typ)
 	}
 }
 
-func (r *Reader) removeLinkedAttributes(typ *concepts.Type) {
-	for _, types := range r.version.Types() {
-		for _, attribute := range types.Attributes() {
-			// It could be that the type is already in an attribute of the service
-			// It needs to add the SetExplicitDeclared to it. {
-			if attribute.Type().Name() == typ.Name() {
-				attribute.SetLinkOwner(nil)
-				attribute.Type().SetExplicitDeclared(true)
+// resolveReferences resolves the references of the version that has just been loaded.
+func (r *Reader) resolveReferences() {
+	if len(r.referenceTypes) == 0 {
+		return
+	}
+	r.importedTypes = make(map[*concepts.Type]bool)
+	for _, typ := range r.referenceTypes {
+		r.handleClassRef(typ, annotations.ReferencePath(typ))
+	}
+	r.referenceTypes = nil
+
+	// The types used by the attributes and parameters may have been replaced:
+	for _, typ := range r.version.Types() {
+		for _, attribute := range typ.Attributes() {
+			if attribute.LinkOwner() == nil {
+				attribute.SetType(r.resolveType(attribute.Type()))
 			}
-			if attribute.Type().IsList() || attribute.Type().IsMap() {
-				if attribute.Type().Element().Name().String() == typ.Name().String() {
-					attribute.SetLinkOwner(nil)
-					attribute.Type().SetExplicitDeclared(true)
-					attribute.Type().Element().SetExplicitDeclared(true)
-					attribute.Type().Element().SetOwner(typ.Owner())
-				}
+		}
+	}
+	for _, resource := range r.version.Resources() {
+		for _, method := range resource.Methods() {
+			for _, parameter := range method.Parameters() {
+				parameter.SetType(r.resolveType(parameter.Type()))
 			}
 		}
 	}
 }
 
+// resolveType returns the type of the current version that has the same name than the given one.
+func (r *Reader) resolveType(typ *concepts.Type) *concepts.Type {
+	if typ.IsBasicType() {
+		return typ
+	}
+	if existing := r.version.FindType(typ.Name()); existing != nil {
+		typ = existing
+	}
+	if typ.IsList() || typ.IsMap() {
+		typ.SetElement(r.resolveType(typ.Element()))
+	}
+	return typ
+}
+
 func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	if len(r.inputs) > 1 {
 		r.reporter.Errorf(
@@ -549,12 +578,12 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 		)
 		return
 	}
-	r.recursivelyAddTypeToVersion(typ, referencedType, map[*concepts.Type]bool{})
+	r.recursivelyAddTypeToVersion(typ, referencedType, refVersion, map[*concepts.Type]bool{})
 }
 
 // A helper function to recursively add types to a version
 func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
-	referencedType *concepts.Type, visited map[*concepts.Type]bool) {
+	referencedType *concepts.Type, refVersion *concepts.Version, visited map[*concepts.Type]bool) {
 	if referencedType.IsBasicType() {
 		return
 	}
@@ -570,33 +599,48 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 			// element type
 			existingAttType := r.version.FindType(attribute.Type().Name())
 			if existingAttType != nil && existingAttType.ExplicitDeclared() {
+				attribute.SetLinkOwner(nil)
 				attribute.Type().SetOwner(r.version)
 				// Stop the iteration over the attributes of this type
 				continue
 			} else if attribute.Type().IsList() || attribute.Type().IsMap() {
 				existingAttType = r.version.FindType(attribute.Type().Element().Name())
 				if existingAttType != nil && existingAttType.ExplicitDeclared() {
+					attribute.SetLinkOwner(nil)
 					attribute.Type().SetOwner(r.version)
 					attribute.Type().Element().SetOwner(r.version)
 					continue
 				}
 			}
-			// Otherwise add the setLinkOwner to the attribute
-			attribute.SetLinkOwner(attribute.Type().Owner())
+			// Otherwise add the setLinkOwner to the attribute. Note that the type may have been
+			// already added to this version, but links always go to the referenced version.
+			linkOwner := attribute.Type().Owner()
+			if linkOwner == r.version {
+				linkOwner = refVersion
+			}
+			attribute.SetLinkOwner(linkOwner)
 		} else if attribute.Type().IsList() || attribute.Type().IsMap() {
 			r.version.AddType(attribute.Type())
-			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element(), visited)
+			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element(), refVersion, visited)
 		} else {
-			r.recursivelyAddTypeToVersion(currType, attribute.Type(), visited)
+			r.recursivelyAddTypeToVersion(currType, attribute.Type(), refVersion, visited)
 		}
 	}
 
 	existingType := r.version.FindType(referencedType.Name())
-	if existingType != nil && existingType.ExplicitDeclared() {
-		referencedType.SetExplicitDeclared(true)
+	if existingType != nil {
+		switch {
+		case existingType.ExplicitDeclared():
+			referencedType.SetExplicitDeclared(true)
+		case r.isUndefinedType(existingType):
+			r.removeUndefinedType(existingType)
+		case !r.importedTypes[existingType]:
+			r.reporter.Errorf("Type '%s' is already defined", existingType.Name())
+			return
+		}
 	}
+	r.importedTypes[referencedType] = true
 	r.version.AddType(referencedType)
-
 }
 
 func (r *Reader) ExitStructDecl(ctx *StructDeclContext) {
-- 
2.43.0


From 142b3d9e92131f3f70219ae6e6fa8e0c96407a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:34 +0000
Subject: [PATCH 28/33] fix: Use the version of the link for types of fields
 and getters

When a referenced type is also used directly the types generator used the list type of the
version that contains the attribute instead of the list type of the version that is the
target of the link, so the generated code didn't compile.
---
 pkg/generators/golang/builders_generator.go | 6 ++++++
 pkg/generators/golang/types_calculator.go   | 8 ++++++++
 pkg/generators/golang/types_generator.go    | 6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index c525cfd..ba77d47 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -693,6 +693,9 @@ func (g *BuildersGenerator) fieldType(attribute *concepts.Attribute) *TypeRefere
 		)
 		ref = &TypeReference{}
 	}
+	if owner := attribute.LinkOwner(); owner != nil && (typ.IsStruct() || typ.IsList()) {
+		ref = g.types.LinkReference(ref, owner)
+	}
 	return ref
 }
 
@@ -761,6 +764,9 @@ func (g *BuildersGenerator) setterType(attribute *concepts.Attribute) *TypeRefer
 		)
 		ref = &TypeReference{}
 	}
+	if owner := attribute.LinkOwner(); owner != nil && (typ.IsStruct() || typ.IsList()) {
+		ref = g.types.LinkReference(ref, owner)
+	}
 	return ref
 }
 
diff --git a/pkg/generators/golang/types_calculator.go b/pkg/generators/golang/types_calculator.go
index 649af51..44f43c5 100644
--- a/pkg/generators/golang/types_calculator.go
+++ b/pkg/generators/golang/types_calculator.go
@@ -403,6 +403,14 @@ func (c *TypesCalculator) BuilderReference(typ *concepts.Type, refVersion string
 	return ref
 }
 
+// LinkReference calculates a reference for a type that has the same name than the given one, but that
+// is in the version that is the target of a link.
+func (c *TypesCalculator) LinkReference(ref *TypeReference, owner *concepts.Version) *TypeReference {
+	imprt := c.packages.VersionImport(owner)
+	selector := c.packages.VersionSelector(owner)
+	return c.Reference(imprt, selector, ref.Name(), fmt.Sprintf("*%s.%s", selector, ref.Name()))
+}
+
 // Zero value calculates the zero value for the given type.
 func (c *TypesCalculator) ZeroValue(typ *concepts.Type) string {
 	version := typ.Owner()
diff --git a/pkg/generators/golang/types_generator.go b/pkg/generators/golang/types_generator.go
index ad09537..79ae8b7 100644
--- a/pkg/generators/golang/types_generator.go
+++ b/pkg/generators/golang/types_generator.go
@@ -631,6 +631,9 @@ func (g *TypesGenerator) getterType(attribute *concepts.Attribute) *TypeReferenc
 		)
 		ref = &TypeReference{}
 	}
+	if owner := attribute.LinkOwner(); owner != nil && (typ.IsStruct() || typ.IsList()) {
+		ref = g.types.LinkReference(ref, owner)
+	}
 	return ref
 }
 
@@ -694,6 +697,9 @@ func (g *TypesGenerator) fieldType(attribute *concepts.Attribute) *TypeReference
 		)
 		ref = &TypeReference{}
 	}
+	if owner := attribute.LinkOwner(); owner != nil && (typ.IsStruct() || typ.IsList()) {
+		ref = g.types.LinkReference(ref, owner)
+	}
 	return ref
 }
 
-- 
2.43.0


From 4ce152a8fc9ab2c1f97db9208b3cf1ac94d0f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:59 +0000
Subject: [PATCH 29/33] fix: Forget explicit declarations of the referenced
 version

The mark that indicates that a type is explicitly declared was inherited by the versions that
reference it, so the version of the target of the links depended on the order of the
references.
---
 pkg/language/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 1b1b1e4..f464855 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -627,6 +627,9 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 		}
 	}
 
+	// The referenced type may be explicitly declared in the referenced version, but that doesn't
+	// mean that it is explicitly declared in this one.
+	referencedType.SetExplicitDeclared(false)
 	existingType := r.version.FindType(referencedType.Name())
 	if existingType != nil {
 		switch {
-- 
2.43.0


From 191a0672ec12de234f921c6cc601e2028c2d6c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:18 +0000
Subject: [PATCH 30/33] fix: link from the documentation index only to pages
 that exist

The index contained links to the pages of the scalar and list types, but
those pages are never generated.
---
 pkg/generators/docs/docs_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/docs/docs_generator.go b/pkg/generators/docs/docs_generator.go
index 1b4233e..824684d 100644
--- a/pkg/generators/docs/docs_generator.go
+++ b/pkg/generators/docs/docs_generator.go
@@ -194,7 +194,9 @@ func (g *DocsGenerator) documentIndex() {
 		{{ range .Model.Services }}
 			{{ range .Versions }}
 				{{ range .Types }}
-					[{{ displayName . }}]({{ resourceFile . }}.md)
+					{{ if or .IsEnum .IsStruct }}
+						[{{ displayName . }}]({{ resourceFile . }}.md)
+					{{ end }}
 				{{ end }}
 			{{ end }}
 		{{ end }}
-- 
2.43.0


From f446f4c6dc730e4198bc9929428e2f3c281a9aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:57 +0000
Subject: [PATCH 31/33] fix: write the summaries of the documentation in one
 line

The summaries are used in the cells of tables, but they contained line
breaks when the documentation had no dots, and the last word of each line
was joined to the first word of the next when it had them.
---
 pkg/generators/docs/docs_generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/docs/docs_generator.go b/pkg/generators/docs/docs_generator.go
index 824684d..666b73a 100644
--- a/pkg/generators/docs/docs_generator.go
+++ b/pkg/generators/docs/docs_generator.go
@@ -412,8 +412,11 @@ func (g *DocsGenerator) docSummary(object concepts.Documented) string {
 	index := strings.IndexRune(doc, '.')
 	if index != -1 {
 		doc = doc[0 : index+1]
-		doc = strings.ReplaceAll(doc, "\n", "")
 	}
 
+	// The summary is used inside tables, so it needs to be a single line, and the words of
+	// different lines need to be separated.
+	doc = strings.ReplaceAll(doc, "\n", " ")
+
 	return doc
 }
-- 
2.43.0


From c691efb7c10a94cff8c25905d078f0634bf51656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:50 +0000
Subject: [PATCH 32/33] fix: resolve references in the order of the names of
 the types

When the same type is imported via references to different versions the
versions that are the targets of its links depended on the order of the
declarations.
---
 pkg/language/reader.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index f464855..4a21799 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -24,6 +24,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode"
@@ -476,6 +477,12 @@ func (r *Reader) resolveReferences() {
 		return
 	}
 	r.importedTypes = make(map[*concepts.Type]bool)
+
+	// The same type may be imported via several references, so the result would depend on the
+	// order of the declarations if the references were resolved in that order:
+	sort.Slice(r.referenceTypes, func(i, j int) bool {
+		return names.Compare(r.referenceTypes[i].Name(), r.referenceTypes[j].Name()) < 0
+	})
 	for _, typ := range r.referenceTypes {
 		r.handleClassRef(typ, annotations.ReferencePath(typ))
 	}
-- 
2.43.0


From 4f9598cc7e688d9296f57aa5b2fc693bd4acb929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:07 +0000
Subject: [PATCH 33/33] fix: report errors writing the header of Go files

When a file has no code, for example because the resource has no methods,
failing to write it was not reported.
---
 pkg/generators/golang/buffer.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/generators/golang/buffer.go b/pkg/generators/golang/buffer.go
index 26044b0..7428bde 100644
--- a/pkg/generators/golang/buffer.go
+++ b/pkg/generators/golang/buffer.go
@@ -330,26 +330,32 @@ func (b *Buffer) Write() error {
 	}
 
 	// Write the header:
-	fmt.Fprintf(outputFd, "%s\n", fileHeader)
-	fmt.Fprintf(outputFd, "\n")
+	header := new(bytes.Buffer)
+	fmt.Fprintf(header, "%s\n", fileHeader)
+	fmt.Fprintf(header, "\n")
 
 	// Write the package statement:
 	pkgName := b.cleanPkg(path.Base(b.pkg))
-	fmt.Fprintf(outputFd, "package %s // %s\n", pkgName, b.pkg)
-	fmt.Fprintf(outputFd, "\n")
+	fmt.Fprintf(header, "package %s // %s\n", pkgName, b.pkg)
+	fmt.Fprintf(header, "\n")
 
 	// Write the import statement:
 	if len(b.imports) > 0 {
-		fmt.Fprintf(outputFd, "import (\n")
+		fmt.Fprintf(header, "import (\n")
 		for imprt, selector := range b.imports {
 			if selector != "" {
-				fmt.Fprintf(outputFd, "%s \"%s\"\n", selector, imprt)
+				fmt.Fprintf(header, "%s \"%s\"\n", selector, imprt)
 			} else {
-				fmt.Fprintf(outputFd, "\"%s\"\n", imprt)
+				fmt.Fprintf(header, "\"%s\"\n", imprt)
 			}
 		}
-		fmt.Fprintf(outputFd, ")\n")
-		fmt.Fprintf(outputFd, "\n")
+		fmt.Fprintf(header, ")\n")
+		fmt.Fprintf(header, "\n")
+	}
+
+	_, err = header.WriteTo(outputFd)
+	if err != nil {
+		return fmt.Errorf("can't write header to file '%s': %w", b.file, err)
 	}
 
 	// Remove extra blank lines from the code:
-- 
2.43.0

