From 67cd0fef56438f97c21f8e4282d8fcda3549d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:22 +0000
Subject: [PATCH 01/47] fix: compare error categories by their actual name

The Error concept had its own name field hiding the one that SetName
populates, so sorting two or more errors of a version dereferenced a nil
pointer and generation failed.
---
 pkg/concepts/error.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/concepts/error.go b/pkg/concepts/error.go
index 502bc64..25d3863 100644
--- a/pkg/concepts/error.go
+++ b/pkg/concepts/error.go
@@ -27,7 +27,6 @@ type Error struct {
 	namedSupport
 
 	owner *Version
-	name  *names.Name
 	code  int
 }
 
-- 
2.43.0


From fd6c826d656fd53b77ae81b89b71df635a3f84c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:42 +0000
Subject: [PATCH 02/47] fix: calculate presence masks with unsigned arithmetic

The mask of the attribute that uses the last bit of the presence bitmap
overflowed the signed integer, so the code generated for types with the
maximum number of supported attributes didn't compile.
---
 pkg/generators/golang/types_calculator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/types_calculator.go b/pkg/generators/golang/types_calculator.go
index 1e11bac..649af51 100644
--- a/pkg/generators/golang/types_calculator.go
+++ b/pkg/generators/golang/types_calculator.go
@@ -484,7 +484,7 @@ func (c *TypesCalculator) BitMask(attribute *concepts.Attribute) string {
 	}
 
 	// Calculate the mask:
-	mask := 1 << index
+	mask := uint64(1) << index
 	return fmt.Sprintf("%d", mask)
 }
 
-- 
2.43.0


From d323def32e30cb26e5efaf3c018cfbd1ed4ff2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:42 +0000
Subject: [PATCH 03/47] fix: generate code that compiles for structs without
 attributes

The function that writes the JSON representation of a struct without
attributes declared a variable that it didn't use.
---
 pkg/generators/golang/json_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 66fac4b..753d4bd 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -605,7 +605,9 @@ func (g *JSONSupportGenerator) generateStructTypeSource(typ *concepts.Type) {
 
 		// {{ $writeTypeFunc }} writes a value of the '{{ .Type.Name }}' type to the given stream.
 		func {{ $writeTypeFunc }}(object *{{ $structName }}, stream *jsoniter.Stream) {
-			count := 0
+			{{ if or .Type.IsClass .Type.Attributes }}
+				count := 0
+			{{ end }}
 			stream.WriteObjectStart()
 			{{ if .Type.IsClass }}
 				stream.WriteObjectField("kind")
-- 
2.43.0


From 5e3684739b1718d12649b8fced35e96460875ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:14 +0000
Subject: [PATCH 04/47] fix: honour the value given to the Link method of
 builders

The generated method ignored its argument, so Link(false) marked the object
as a link.
---
 pkg/generators/golang/builders_generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 643d3d1..2fc7e84 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -242,7 +242,11 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 		{{ if .Type.IsClass }}
 			// Link sets the flag that indicates if this is a link.
 			func (b *{{ $builderName }}) Link(value bool) *{{ $builderName }} {
-				b.bitmap_ |= 1
+				if value {
+					b.bitmap_ |= 1
+				} else {
+					b.bitmap_ &^= 1
+				}
 				return b
 			}
 
-- 
2.43.0


From 0a859a46aaa500ccde427c7a0b2c6e2dbafcb73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:14 +0000
Subject: [PATCH 05/47] fix: preserve empty maps when copying objects

Copying an object that has an empty map into a builder left the attribute
present but with a nil map, so it was lost when written to JSON.
---
 pkg/generators/golang/builders_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 2fc7e84..1d60e0a 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -371,7 +371,7 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 						b.{{ $fieldName }} = nil
 					}
 				{{ else if .Type.IsMap }}
-					if len(object.{{ $fieldName }}) > 0 {
+					if object.{{ $fieldName }} != nil {
 						{{ if .Type.Element.IsScalar }}
 							b.{{ $fieldName }} = {{ $fieldType }}{}
 							for k, v := range object.{{ $fieldName }} {
-- 
2.43.0


From b83273f30268d225bd89992b07b478cb5f66be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:14 +0000
Subject: [PATCH 06/47] fix: accept empty responses to metadata requests

Like for the rest of the methods, an empty body isn't an error.
---
 pkg/generators/golang/clients_generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 994d78c..28a8ca5 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -378,6 +378,7 @@ func (g *ClientsGenerator) generateVersionMetadataClientSource(version *concepts
 			reader := bufio.NewReader(response.Body)
 			_, err = reader.Peek(1)
 			if err == io.EOF {
+				err = nil
 				return
 			}
 			if result.status >= 400 {
-- 
2.43.0


From b744b84b29647c6aa0143998b7b5ff6b284b031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:37 +0000
Subject: [PATCH 07/47] fix: don't crash reading parameters of nil metadata and
 poll responses

These responses are nil when the transport fails, and the rest of the
accessors already support that.
---
 pkg/generators/golang/clients_generator.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 28a8ca5..1de3d57 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -422,6 +422,9 @@ func (g *ClientsGenerator) generateVersionMetadataClientSource(version *concepts
 
 		// Body returns the response body.
 		func (r *MetadataResponse) Body() *Metadata {
+			if r == nil {
+				return nil
+			}
 			return r.body
 		}
 		`,
@@ -722,8 +725,11 @@ func (g *ClientsGenerator) generatePollMethodSource(resource *concepts.Resource,
 			// {{ $getterName }} returns the value of the '{{ .Name }}' parameter.
 			//
 			{{ lineComment .Doc }}
-			func (r *{{ $responseName }}) {{ $getterName }}() {{ $getterType }} {
-				return r.response.{{ $getterName }}()
+			func (r *{{ $responseName }}) {{ $getterName }}() (value {{ $getterType }}) {
+				if r != nil {
+					value = r.response.{{ $getterName }}()
+				}
+				return
 			}
 
 			// Get{{ $getterName }} returns the value of the '{{ .Name }}' parameter and
@@ -731,7 +737,10 @@ func (g *ClientsGenerator) generatePollMethodSource(resource *concepts.Resource,
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $responseName }}) Get{{ $getterName }}() (value {{ $getterType }}, ok bool) {
-				return r.response.Get{{ $getterName }}()
+				if r != nil {
+					value, ok = r.response.Get{{ $getterName }}()
+				}
+				return
 			}
 		{{ end }}
 
-- 
2.43.0


From d42794b2d641635686fac9a7196013f00f9c8000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:38 +0000
Subject: [PATCH 08/47] fix: treat nil timestamps of errors as absent

Setting a nil timestamp marked it as present, so the resulting error crashed
when converted to text, and wrote a JSON document that can't be read.
---
 pkg/generators/golang/errors_generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index a88ecaf..a902af1 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -269,7 +269,11 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 		// Timestamp sets the moment when it happened.
 		func (b *ErrorBuilder) Timestamp(value *time.Time) *ErrorBuilder {
 			b.timestamp = value
-			b.bitmap_ |= 128
+			if value != nil {
+				b.bitmap_ |= 128
+			} else {
+				b.bitmap_ &^= 128
+			}
 			return b
 		}
 
-- 
2.43.0


From 4bd2f2bb5eca89569f8201f016d2e999cbcd8f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:43 +0000
Subject: [PATCH 09/47] fix: send panic errors with an error status

The error was sent with the default status, so clients took it as success.
---
 pkg/generators/golang/errors_generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index a902af1..7fb51ff 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -661,6 +661,7 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 		// This methods is used internaly and no backwards compatibily is guaranteed.
 		func SendPanic(w http.ResponseWriter, r *http.Request) {
 			w.Header().Set("Content-Type", "application/json")
+			w.WriteHeader(http.StatusInternalServerError)
 			err := MarshalError(panicError, w)
 			if err != nil {
 				glog.Errorf(
-- 
2.43.0


From 4f09878322a7999f3756a154d88ac2d55b4d26eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:43 +0000
Subject: [PATCH 10/47] fix: don't crash sending errors with identifiers that
 aren't valid statuses

The identifier is used as the status of the response, and values that aren't
in the range supported by HTTP crashed the server.
---
 pkg/generators/golang/errors_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index 7fb51ff..f89dde3 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -644,7 +644,7 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 		// This methods is used internaly and no backwards compatibily is guaranteed.
 		func SendError(w http.ResponseWriter, r *http.Request, object *Error) {
 			status, err := strconv.Atoi(object.ID())
-			if err != nil {
+			if err != nil || status < 100 || status > 999 {
 				SendPanic(w, r)
 				return
 			}
-- 
2.43.0


From 5597dfb96802dc96499a52e88bbecffbc6ddd296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:08 +0000
Subject: [PATCH 11/47] fix: don't crash checking versions without root and
 locators without target

---
 pkg/language/checks.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/language/checks.go b/pkg/language/checks.go
index 28c71b3..72a9837 100644
--- a/pkg/language/checks.go
+++ b/pkg/language/checks.go
@@ -590,7 +590,11 @@ func (r *Reader) checkResponseParameter(method *concepts.Method, name *names.Nam
 }
 
 func (r *Reader) checkLocatorLoops(version *concepts.Version) {
-	for _, locator := range version.Root().Locators() {
+	root := version.Root()
+	if root == nil {
+		return
+	}
+	for _, locator := range root.Locators() {
 		path := []*concepts.Locator{locator}
 		r.checkLocatorPathLoops(path)
 	}
@@ -601,6 +605,9 @@ func (r *Reader) checkLocatorPathLoops(path []*concepts.Locator) {
 	// the last locator. If there is such locator then there is a loop and we should not
 	// continue checking this path.
 	last := len(path) - 1
+	if path[last].Target() == nil {
+		return
+	}
 	first := -1
 	for i := last; i >= 0; i-- {
 		if path[i].Owner() == path[last].Target() {
-- 
2.43.0


From 160caf987024fa42fadc136a4d241c2bb3f8153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:08 +0000
Subject: [PATCH 12/47] fix: report text after the last declaration and don't
 process files with syntax errors

---
 pkg/language/reader.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 2972465..72ffd61 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -333,7 +333,22 @@ func (r *Reader) loadFile(path string) {
 	parser := NewModelParser(stream)
 	parser.RemoveErrorListeners()
 	parser.AddErrorListener(listener)
+	errors := r.reporter.Errors()
 	tree := parser.File()
+
+	// Check that there is nothing else after the last declaration:
+	token := stream.LT(1)
+	if token.GetTokenType() != antlr.TokenEOF {
+		r.reporter.Errorf(
+			"Line %d, column %d: unexpected input '%s'",
+			token.GetLine(), token.GetColumn(), token.GetText(),
+		)
+	}
+
+	// If there are syntax errors then the tree is incomplete, and can't be processed:
+	if r.reporter.Errors() > errors {
+		return
+	}
 	antlr.ParseTreeWalkerDefault.Walk(r, tree)
 }
 
-- 
2.43.0


From 8424608891613ee18bb978d82622b5c56a0ce81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:08 +0000
Subject: [PATCH 13/47] fix: don't crash when the first line of a documentation
 comment is blank

---
 pkg/language/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 72ffd61..5cfb250 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -1108,6 +1108,9 @@ func (r *Reader) getDoc(token antlr.Token) string {
 		index := strings.IndexFunc(first, func(r rune) bool {
 			return !unicode.IsSpace(r)
 		})
+		if index < 0 {
+			index = len(first)
+		}
 		prefix := first[0:index]
 		for i, line := range lines {
 			if line != "" {
-- 
2.43.0


From 2212f47ab7bc65439c5013ddb6364c24b440d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:07 +0000
Subject: [PATCH 14/47] fix: track undefined concepts of each version
 separately

---
 pkg/language/reader.go | 58 +++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 35 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 5cfb250..3b38df7 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -54,9 +54,9 @@ type Reader struct {
 	version *concepts.Version
 
 	// Concepts that aren't completely defined yet:
-	undefinedTypes     map[string]*concepts.Type
-	undefinedResources map[string]*concepts.Resource
-	undefinedErrors    map[string]*concepts.Error
+	undefinedTypes     map[*concepts.Type]bool
+	undefinedResources map[*concepts.Resource]bool
+	undefinedErrors    map[*concepts.Error]bool
 }
 
 // NewReader creates an object that knows how to read  a model from a set of files. Typical usage is
@@ -107,9 +107,9 @@ func (r *Reader) Read() (model *concepts.Model, err error) {
 	r.model = concepts.NewModel()
 
 	// Initialize the indexes of undefined concepts:
-	r.undefinedTypes = make(map[string]*concepts.Type)
-	r.undefinedResources = make(map[string]*concepts.Resource)
-	r.undefinedErrors = make(map[string]*concepts.Error)
+	r.undefinedTypes = make(map[*concepts.Type]bool)
+	r.undefinedResources = make(map[*concepts.Resource]bool)
+	r.undefinedErrors = make(map[*concepts.Error]bool)
 
 	// Load the potentially partial representations of the model from the source files:
 	if r.inputs != nil {
@@ -119,13 +119,13 @@ func (r *Reader) Read() (model *concepts.Model, err error) {
 	}
 
 	// Report undefined concepts:
-	for _, undefinedType := range r.undefinedTypes {
+	for undefinedType := range r.undefinedTypes {
 		r.reporter.Errorf("Type '%s' isn't completely defined", undefinedType.Name())
 	}
-	for _, undefinedResource := range r.undefinedResources {
+	for undefinedResource := range r.undefinedResources {
 		r.reporter.Errorf("Resource '%s' isn't completely defined", undefinedResource.Name())
 	}
-	for _, undefinedError := range r.undefinedErrors {
+	for undefinedError := range r.undefinedErrors {
 		r.reporter.Errorf("Error '%s' isn't completely defined", undefinedError.Name())
 	}
 
@@ -491,9 +491,9 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	refReader.model = concepts.NewModel()
 
 	// Initialize the indexes of undefined concepts:
-	refReader.undefinedTypes = make(map[string]*concepts.Type)
-	refReader.undefinedResources = make(map[string]*concepts.Resource)
-	refReader.undefinedErrors = make(map[string]*concepts.Error)
+	refReader.undefinedTypes = make(map[*concepts.Type]bool)
+	refReader.undefinedResources = make(map[*concepts.Resource]bool)
+	refReader.undefinedErrors = make(map[*concepts.Error]bool)
 
 	// load the ad-hoc service and version referenced and find the correct type.
 	refReader.loadService(fmt.Sprintf("%s/%s", input, referencedServiceName))
@@ -1025,51 +1025,39 @@ func (r *Reader) ExitAnnotationParameter(ctx *AnnotationParameterContext) {
 }
 
 func (r *Reader) isUndefinedType(typ *concepts.Type) bool {
-	key := typ.Name().String()
-	_, ok := r.undefinedTypes[key]
-	return ok
+	return r.undefinedTypes[typ]
 }
 
 func (r *Reader) addUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
-	r.undefinedTypes[key] = typ
+	r.undefinedTypes[typ] = true
 }
 
 func (r *Reader) removeUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
-	delete(r.undefinedTypes, key)
+	delete(r.undefinedTypes, typ)
 }
 
 func (r *Reader) isUndefinedResource(resource *concepts.Resource) bool {
-	key := resource.Name().String()
-	_, ok := r.undefinedResources[key]
-	return ok
+	return r.undefinedResources[resource]
 }
 
 func (r *Reader) addUndefinedResource(resource *concepts.Resource) {
-	key := resource.Name().String()
-	r.undefinedResources[key] = resource
+	r.undefinedResources[resource] = true
 }
 
-func (r *Reader) removeUndefinedResource(typ *concepts.Resource) {
-	key := typ.Name().String()
-	delete(r.undefinedResources, key)
+func (r *Reader) removeUndefinedResource(resource *concepts.Resource) {
+	delete(r.undefinedResources, resource)
 }
 
 func (r *Reader) isUndefinedError(err *concepts.Error) bool {
-	key := err.Name().String()
-	_, ok := r.undefinedErrors[key]
-	return ok
+	return r.undefinedErrors[err]
 }
 
 func (r *Reader) addUndefinedError(err *concepts.Error) {
-	key := err.Name().String()
-	r.undefinedErrors[key] = err
+	r.undefinedErrors[err] = true
 }
 
-func (r *Reader) removeUndefinedError(typ *concepts.Error) {
-	key := typ.Name().String()
-	delete(r.undefinedErrors, key)
+func (r *Reader) removeUndefinedError(err *concepts.Error) {
+	delete(r.undefinedErrors, err)
 }
 
 // comments stores the line comments that haven't yet been converted into documentation comments:
-- 
2.43.0


From 3dac0b8bed7d26f522ae71af6a275ec423d375ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:42 +0000
Subject: [PATCH 15/47] fix: report references that can't be resolved instead
 of crashing

---
 pkg/language/reader.go | 49 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 3b38df7..f209597 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -475,12 +475,28 @@ func (r *Reader) removeLinkedAttributes(typ *concepts.Type) {
 }
 
 func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
+	// References inside of referenced services aren't resolved, they are reported only if they
+	// are actually needed.
+	if len(r.inputs) == 0 {
+		return
+	}
 	if len(r.inputs) > 1 {
-		panic("referenced service with multiple inputs in undefined")
+		r.reporter.Errorf(
+			"Reference '%s' of class '%s' can't be resolved because there are multiple inputs",
+			path, typ.Name(),
+		)
+		return
 	}
 	input := r.inputs[0]
-	path = strings.TrimPrefix(path, "/")
-	components := strings.Split(path, "/")
+	components := strings.Split(strings.TrimPrefix(path, "/"), "/")
+	if len(components) != 3 {
+		r.reporter.Errorf(
+			"Reference '%s' of class '%s' should contain the names of the service, the "+
+				"version and the type",
+			path, typ.Name(),
+		)
+		return
+	}
 	referencedServiceName := components[0]
 	referencedVersion := components[1]
 	referencedTypeName := components[2]
@@ -497,12 +513,24 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 
 	// load the ad-hoc service and version referenced and find the correct type.
 	refReader.loadService(fmt.Sprintf("%s/%s", input, referencedServiceName))
-	refVersion := refReader.service.FindVersion(names.ParseUsingSeparator(referencedVersion, "_"))
+	var referencedType *concepts.Type
+	if refReader.service != nil {
+		refVersion := refReader.service.FindVersion(names.ParseUsingSeparator(referencedVersion, "_"))
+		if refVersion != nil {
+			referencedType = refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_"))
+		}
+	}
+	if referencedType == nil {
+		r.reporter.Errorf(
+			"Type referenced by '%s' in class '%s' doesn't exist",
+			path, typ.Name(),
+		)
+		return
+	}
+
 	// Once loading the service, we find the reference type
 	// then recursively iterate the type tree and add the types to the current version.
-	if referencedType := refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_")); referencedType != nil {
-		r.recursivelyAddTypeToVersion(typ, referencedType)
-	}
+	r.recursivelyAddTypeToVersion(typ, referencedType)
 }
 
 // A helper function to recursively add types to a version
@@ -511,6 +539,13 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 	if referencedType.IsBasicType() {
 		return
 	}
+	if path := annotations.ReferencePath(referencedType); path != "" {
+		r.reporter.Errorf(
+			"Class '%s' needs class '%s', but it is also a reference to '%s'",
+			currType.Name(), referencedType.Name(), path,
+		)
+		return
+	}
 	for _, attribute := range referencedType.Attributes() {
 		// If attribute is explicitDeclared, it needs to change it's owner to be the same as currType
 		if attribute.Link() {
-- 
2.43.0


From 7c4df58cc0d08d3086e2b73817c6dd40d339826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:44 +0000
Subject: [PATCH 16/47] fix: support references to recursive types

---
 pkg/language/reader.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index f209597..d218e3d 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -546,6 +546,17 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 		)
 		return
 	}
+
+	// Add the type before its attributes, as they may refer to it:
+	existingType := r.version.FindType(referencedType.Name())
+	if existingType == referencedType {
+		return
+	}
+	if existingType != nil && existingType.ExplicitDeclared() {
+		referencedType.SetExplicitDeclared(true)
+	}
+	r.version.AddType(referencedType)
+
 	for _, attribute := range referencedType.Attributes() {
 		// If attribute is explicitDeclared, it needs to change it's owner to be the same as currType
 		if attribute.Link() {
@@ -574,13 +585,6 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 			r.recursivelyAddTypeToVersion(currType, attribute.Type())
 		}
 	}
-
-	existingType := r.version.FindType(referencedType.Name())
-	if existingType != nil && existingType.ExplicitDeclared() {
-		referencedType.SetExplicitDeclared(true)
-	}
-	r.version.AddType(referencedType)
-
 }
 
 func (r *Reader) ExitStructDecl(ctx *StructDeclContext) {
-- 
2.43.0


From da27eb794edf34d02d9839a90f687776d8d50924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:46 +0000
Subject: [PATCH 17/47] fix: preserve documentation of declarations that follow
 a reference

---
 pkg/language/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index d218e3d..bf14442 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -511,8 +511,11 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	refReader.undefinedResources = make(map[*concepts.Resource]bool)
 	refReader.undefinedErrors = make(map[*concepts.Error]bool)
 
-	// load the ad-hoc service and version referenced and find the correct type.
+	// load the ad-hoc service and version referenced and find the correct type. Note that this
+	// replaces the comments of the file that is currently being processed.
+	savedComments := comments
 	refReader.loadService(fmt.Sprintf("%s/%s", input, referencedServiceName))
+	comments = savedComments
 	var referencedType *concepts.Type
 	if refReader.service != nil {
 		refVersion := refReader.service.FindVersion(names.ParseUsingSeparator(referencedVersion, "_"))
-- 
2.43.0


From d70b9d46fa3fb87a8e3064486443c43232e380d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:24 +0000
Subject: [PATCH 18/47] fix: use local definitions of linked types regardless
 of the order of references

---
 pkg/language/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index bf14442..e8bce03 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -458,7 +458,7 @@ func (r *Reader) removeLinkedAttributes(typ *concepts.Type) {
 		for _, attribute := range types.Attributes() {
 			// It could be that the type is already in an attribute of the service
 			// It needs to add the SetExplicitDeclared to it. {
-			if attribute.Type().Name() == typ.Name() {
+			if attribute.Type().Name().Equals(typ.Name()) {
 				attribute.SetLinkOwner(nil)
 				attribute.Type().SetExplicitDeclared(true)
 			}
-- 
2.43.0


From 0ad38a1e2710eedb472ed9eba1c4dba75e1acfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:34 +0000
Subject: [PATCH 19/47] fix: split correctly names that start with a lower case
 word

---
 pkg/names/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/names/parser.go b/pkg/names/parser.go
index 749883c..658e97d 100644
--- a/pkg/names/parser.go
+++ b/pkg/names/parser.go
@@ -110,7 +110,7 @@ func ParseUsingCase(text string) *Name {
 			}
 
 			// Anything else is a word by itself:
-			word := parseWord(text)
+			word := parseWord(current)
 			words = append(words, word)
 			i++
 		}
-- 
2.43.0


From d872034a8290025219fe92feb8ab6c490fcf8dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:01 +0000
Subject: [PATCH 20/47] fix: use the Go package of the version of linked types

---
 pkg/generators/golang/builders_generator.go | 4 ++--
 pkg/generators/golang/types_generator.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 1d60e0a..c525cfd 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -648,7 +648,7 @@ func (g *BuildersGenerator) fieldType(attribute *concepts.Attribute) *TypeRefere
 	var ref *TypeReference
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
@@ -716,7 +716,7 @@ func (g *BuildersGenerator) setterType(attribute *concepts.Attribute) *TypeRefer
 	var ref *TypeReference
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
diff --git a/pkg/generators/golang/types_generator.go b/pkg/generators/golang/types_generator.go
index 6307fb4..ad09537 100644
--- a/pkg/generators/golang/types_generator.go
+++ b/pkg/generators/golang/types_generator.go
@@ -608,7 +608,7 @@ func (g *TypesGenerator) getterType(attribute *concepts.Attribute) *TypeReferenc
 	typ := attribute.Type()
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
@@ -671,7 +671,7 @@ func (g *TypesGenerator) fieldType(attribute *concepts.Attribute) *TypeReference
 	typ := attribute.Type()
 	referencedVersion := ""
 	if attribute.LinkOwner() != nil {
-		referencedVersion = attribute.LinkOwner().Name().String()
+		referencedVersion = g.packages.VersionSelector(attribute.LinkOwner())
 	}
 	switch {
 	case typ.IsScalar():
-- 
2.43.0


From 21b5126100d0d5f83a0431d6668c10a76d631cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:03 +0000
Subject: [PATCH 21/47] fix: use the annotations of referenced types

---
 pkg/language/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index e8bce03..4e0cb7a 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -534,6 +534,12 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	// Once loading the service, we find the reference type
 	// then recursively iterate the type tree and add the types to the current version.
 	r.recursivelyAddTypeToVersion(typ, referencedType)
+
+	// There may be other types that already use the declaration of this type, so it should also
+	// have the annotations of the referenced type:
+	for _, annotation := range referencedType.Annotations() {
+		typ.AddAnnotation(annotation)
+	}
 }
 
 // A helper function to recursively add types to a version
-- 
2.43.0


From 1ad5eb3115f24107fce84de7c0ddd22e84a37fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:17 +0000
Subject: [PATCH 22/47] fix: accept references to types that are also needed by
 other references

---
 pkg/language/reader.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 4e0cb7a..796ed49 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -57,6 +57,9 @@ type Reader struct {
 	undefinedTypes     map[*concepts.Type]bool
 	undefinedResources map[*concepts.Resource]bool
 	undefinedErrors    map[*concepts.Error]bool
+
+	// Types that haven't been declared, but are needed by references to other services:
+	referencedTypes map[*concepts.Type]bool
 }
 
 // NewReader creates an object that knows how to read  a model from a set of files. Typical usage is
@@ -110,6 +113,7 @@ func (r *Reader) Read() (model *concepts.Model, err error) {
 	r.undefinedTypes = make(map[*concepts.Type]bool)
 	r.undefinedResources = make(map[*concepts.Resource]bool)
 	r.undefinedErrors = make(map[*concepts.Error]bool)
+	r.referencedTypes = make(map[*concepts.Type]bool)
 
 	// Load the potentially partial representations of the model from the source files:
 	if r.inputs != nil {
@@ -423,6 +427,12 @@ func (r *Reader) ExitClassDecl(ctx *ClassDeclContext) {
 	} else if r.isUndefinedType(typ) {
 		typ.SetKind(concepts.ClassType)
 		r.removeUndefinedType(typ)
+	} else if r.referencedTypes[typ] && r.hasReference(ctx) {
+		// This type has already been added because another reference needs it:
+		typ = concepts.NewType()
+		typ.SetKind(concepts.ClassType)
+		typ.SetName(name)
+		r.version.AddType(typ)
 	} else {
 		r.reporter.Errorf("Type '%s' is already defined", name)
 		return
@@ -453,6 +463,13 @@ func (r *Reader) ExitClassDecl(ctx *ClassDeclContext) {
 	}
 }
 
+// hasReference checks if the class is declared as a reference to another class.
+func (r *Reader) hasReference(ctx *ClassDeclContext) bool {
+	typ := concepts.NewType()
+	r.addAnnotations(typ, ctx.GetAnnotations())
+	return annotations.ReferencePath(typ) != ""
+}
+
 func (r *Reader) removeLinkedAttributes(typ *concepts.Type) {
 	for _, types := range r.version.Types() {
 		for _, attribute := range types.Attributes() {
@@ -563,6 +580,8 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 	}
 	if existingType != nil && existingType.ExplicitDeclared() {
 		referencedType.SetExplicitDeclared(true)
+	} else {
+		r.referencedTypes[referencedType] = true
 	}
 	r.version.AddType(referencedType)
 
-- 
2.43.0


From 683035b541857331f7595e8df205c8f841252387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:53 +0000
Subject: [PATCH 23/47] fix: don't attach documentation to the wrong
 declarations

Comments that share the line with a declaration were used as the documentation
of the declaration of the next line, and the documentation of a declaration was
used for the first of its members when they were in the same line.
---
 pkg/language/reader.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 796ed49..614747c 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -53,6 +53,9 @@ type Reader struct {
 	service *concepts.Service
 	version *concepts.Version
 
+	// The tokens of the file that is currently being processed:
+	stream antlr.TokenStream
+
 	// Concepts that aren't completely defined yet:
 	undefinedTypes     map[*concepts.Type]bool
 	undefinedResources map[*concepts.Resource]bool
@@ -353,6 +356,14 @@ func (r *Reader) loadFile(path string) {
 	if r.reporter.Errors() > errors {
 		return
 	}
+
+	// Comments that share the line with something else aren't documentation of what follows:
+	for _, token := range stream.GetAllTokens() {
+		delete(comments, token.GetLine())
+	}
+
+	// Process the tree:
+	r.stream = stream
 	antlr.ParseTreeWalkerDefault.Walk(r, tree)
 }
 
@@ -1132,6 +1143,12 @@ var comments map[int]string
 
 // getDoc tries to extract the documentation comment that may appear before the given token.
 func (r *Reader) getDoc(token antlr.Token) string {
+	// The documentation belongs only to the first declaration of the line:
+	index := token.GetTokenIndex()
+	if index > 0 && r.stream.Get(index-1).GetLine() == token.GetLine() {
+		return ""
+	}
+
 	// Get all the consecutive comments that are right before the token:
 	var lines []string
 	for index := token.GetLine() - 1; index >= 0; index-- {
-- 
2.43.0


From 657ef72768e19ca10a248870e7255b06a5a6dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:32 +0000
Subject: [PATCH 24/47] fix: accept references that bring types that have
 already been used

Types used before the reference that brings them along were reported as not
completely defined, and didn't have the documentation of the referenced type.
---
 pkg/language/reader.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 614747c..1b8094c 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -564,7 +564,13 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 	r.recursivelyAddTypeToVersion(typ, referencedType)
 
 	// There may be other types that already use the declaration of this type, so it should also
-	// have the annotations of the referenced type:
+	// have the documentation and the annotations of the referenced type:
+	r.describeReference(typ, referencedType)
+}
+
+// describeReference copies the documentation and the annotations of the referenced type.
+func (r *Reader) describeReference(typ *concepts.Type, referencedType *concepts.Type) {
+	typ.SetDoc(referencedType.Doc())
 	for _, annotation := range referencedType.Annotations() {
 		typ.AddAnnotation(annotation)
 	}
@@ -589,6 +595,12 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 	if existingType == referencedType {
 		return
 	}
+	if existingType != nil && r.isUndefinedType(existingType) {
+		// The type has already been used, so complete what those uses need:
+		existingType.SetKind(referencedType.Kind())
+		r.describeReference(existingType, referencedType)
+		r.removeUndefinedType(existingType)
+	}
 	if existingType != nil && existingType.ExplicitDeclared() {
 		referencedType.SetExplicitDeclared(true)
 	} else {
-- 
2.43.0


From b77b2509c8bc9e86f77f2fe833174e4736db3a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:19 +0000
Subject: [PATCH 25/47] fix: use the local package for links to types that are
 also references

When the type of a link was also declared as a reference some orders of the
declarations resulted in a mix of local types and types of the target version.
---
 pkg/language/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 1b8094c..6620e81 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -489,6 +489,7 @@ func (r *Reader) removeLinkedAttributes(typ *concepts.Type) {
 			if attribute.Type().Name().Equals(typ.Name()) {
 				attribute.SetLinkOwner(nil)
 				attribute.Type().SetExplicitDeclared(true)
+				attribute.Type().SetOwner(typ.Owner())
 			}
 			if attribute.Type().IsList() || attribute.Type().IsMap() {
 				if attribute.Type().Element().Name().String() == typ.Name().String() {
@@ -617,6 +618,9 @@ func (r *Reader) recursivelyAddTypeToVersion(currType *concepts.Type,
 			existingAttType := r.version.FindType(attribute.Type().Name())
 			if existingAttType != nil && existingAttType.ExplicitDeclared() {
 				attribute.Type().SetOwner(r.version)
+				if attribute.Type().IsList() || attribute.Type().IsMap() {
+					attribute.Type().Element().SetOwner(r.version)
+				}
 				// Stop the iteration over the attributes of this type
 				continue
 			} else if attribute.Type().IsList() || attribute.Type().IsMap() {
-- 
2.43.0


From 3ea81c5370437fe2e3eef47fce6547f571a60e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:49 +0000
Subject: [PATCH 26/47] fix: use the JSON name of body parameters in the
 OpenAPI specification

---
 pkg/generators/openapi/names_calculator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/names_calculator.go b/pkg/generators/openapi/names_calculator.go
index 00ad681..ae3a9c2 100644
--- a/pkg/generators/openapi/names_calculator.go
+++ b/pkg/generators/openapi/names_calculator.go
@@ -90,5 +90,9 @@ func (c *NamesCalculator) AttributePropertyName(attribute *concepts.Attribute) s
 
 // ParameterPropertyName calculates the property name for an parameter of a method.
 func (c *NamesCalculator) ParameterPropertyName(parameter *concepts.Parameter) string {
-	return parameter.Name().Snake()
+	name := annotations.JSONName(parameter)
+	if name == "" {
+		name = parameter.Name().Snake()
+	}
+	return name
 }
-- 
2.43.0


From 695557961c724df903b824270f218d68abd67b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:09 +0000
Subject: [PATCH 27/47] fix: describe error identifiers as strings in the
 OpenAPI specification

The clients and the helpers that send errors write and read the identifiers of errors as
strings, and the clients reject numbers.
---
 pkg/generators/openapi/openapi_generator.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index 998552e..758ea5e 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -600,8 +600,7 @@ func (g *OpenAPIGenerator) generateErrorSchema() {
 	// ID:
 	g.buffer.StartObject("id")
 	g.generateDescription("Numeric identifier of the error.")
-	g.buffer.Field("type", "integer")
-	g.buffer.Field("format", "int32")
+	g.buffer.Field("type", "string")
 	g.buffer.EndObject()
 
 	// HREF:
-- 
2.43.0


From 999e967c7053bbd0f4b330001e4d0245923e5304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:35 +0000
Subject: [PATCH 28/47] fix: describe links to lists as objects in the OpenAPI
 specification

The Go code reads and writes links to lists as objects that contain the list in the 'items'
field, but the OpenAPI specification described them as arrays.
---
 pkg/generators/openapi/openapi_generator.go | 22 ++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index 758ea5e..007e5bc 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -532,7 +532,27 @@ func (g *OpenAPIGenerator) generateStructProperty(attribute *concepts.Attribute)
 	name := g.names.AttributePropertyName(attribute)
 	g.buffer.StartObject(name)
 	g.generateDescription(attribute.Doc())
-	g.generateSchemaReference(attribute.Type())
+	if attribute.Link() && attribute.Type().IsList() {
+		g.generateLinkListSchema(attribute.Type())
+	} else {
+		g.generateSchemaReference(attribute.Type())
+	}
+	g.buffer.EndObject()
+}
+
+// generateLinkListSchema generates the schema of an attribute that is a link to a list. These aren't
+// represented as arrays, but as objects that contain the array.
+func (g *OpenAPIGenerator) generateLinkListSchema(typ *concepts.Type) {
+	g.buffer.Field("type", "object")
+	g.buffer.StartObject("properties")
+	for _, name := range []string{"kind", "href"} {
+		g.buffer.StartObject(name)
+		g.buffer.Field("type", "string")
+		g.buffer.EndObject()
+	}
+	g.buffer.StartObject("items")
+	g.generateSchemaReference(typ)
+	g.buffer.EndObject()
 	g.buffer.EndObject()
 }
 
-- 
2.43.0


From 251e69b547efb0f85e84e0167252a0d95fc0333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:39 +0000
Subject: [PATCH 29/47] fix: describe responses of lists without paging as
 objects in the OpenAPI specification

The clients expect an object with the 'items' field, but when it is the only output parameter
the OpenAPI specification described the response as an array.
---
 pkg/generators/openapi/openapi_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index 007e5bc..184c3c6 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -396,7 +396,7 @@ func (g *OpenAPIGenerator) generateResponses(method *concepts.Method) {
 		g.buffer.StartObject("content")
 		g.buffer.StartObject("application/json")
 		g.buffer.StartObject("schema")
-		if len(parameters) > 1 || method.IsAction() {
+		if len(parameters) > 1 || method.IsAction() || method.IsList() || method.IsSearch() {
 			g.buffer.Field("type", "object")
 			g.buffer.StartObject("properties")
 			for _, parameter := range parameters {
-- 
2.43.0


From acf7245c88f991f4da5a4bc5c684905678cb88a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:57 +0000
Subject: [PATCH 30/47] fix: put summaries in one line, preserving the
 separation between words

---
 pkg/generators/docs/docs_generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/generators/docs/docs_generator.go b/pkg/generators/docs/docs_generator.go
index 1b4233e..ec9d227 100644
--- a/pkg/generators/docs/docs_generator.go
+++ b/pkg/generators/docs/docs_generator.go
@@ -410,8 +410,8 @@ func (g *DocsGenerator) docSummary(object concepts.Documented) string {
 	index := strings.IndexRune(doc, '.')
 	if index != -1 {
 		doc = doc[0 : index+1]
-		doc = strings.ReplaceAll(doc, "\n", "")
 	}
 
-	return doc
+	// The summary is used inside tables, so it has to be in one line:
+	return strings.Join(strings.Fields(doc), " ")
 }
-- 
2.43.0


From ae143c0389295e81ace3f51925d1fc574bff3088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:57 +0000
Subject: [PATCH 31/47] fix: don't add to the documentation index links to
 pages that don't exist

---
 pkg/generators/docs/docs_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/docs/docs_generator.go b/pkg/generators/docs/docs_generator.go
index ec9d227..7b66459 100644
--- a/pkg/generators/docs/docs_generator.go
+++ b/pkg/generators/docs/docs_generator.go
@@ -194,7 +194,9 @@ func (g *DocsGenerator) documentIndex() {
 		{{ range .Model.Services }}
 			{{ range .Versions }}
 				{{ range .Types }}
-					[{{ displayName . }}]({{ resourceFile . }}.md)
+					{{ if or .IsEnum .IsStruct }}
+						[{{ displayName . }}]({{ resourceFile . }}.md)
+					{{ end }}
 				{{ end }}
 			{{ end }}
 		{{ end }}
-- 
2.43.0


From 77ee1edb154f903372a34bc0386b77936140b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:57 +0000
Subject: [PATCH 32/47] fix: include the documentation of enumerated types in
 the generated Go code

---
 pkg/generators/golang/types_generator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/generators/golang/types_generator.go b/pkg/generators/golang/types_generator.go
index ad09537..5bef58f 100644
--- a/pkg/generators/golang/types_generator.go
+++ b/pkg/generators/golang/types_generator.go
@@ -294,6 +294,8 @@ func (g *TypesGenerator) generateEnumTypeSource(typ *concepts.Type) {
 		{{ $enumName := enumName .Type }}
 
 		// {{ $enumName }} represents the values of the '{{ .Type.Name }}' enumerated type.
+		//
+		{{ lineComment .Type.Doc }}
 		type {{ $enumName }} string
 
 		const (
-- 
2.43.0


From 0531c24c937304ba0afca5ce82007eb1cf4428ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:10 +0000
Subject: [PATCH 33/47] fix: don't truncate the documentation when there are
 long lines

---
 pkg/markdown/buffer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/markdown/buffer.go b/pkg/markdown/buffer.go
index e46a590..9a0a528 100644
--- a/pkg/markdown/buffer.go
+++ b/pkg/markdown/buffer.go
@@ -229,7 +229,10 @@ func (b *Buffer) Write() error {
 	}
 
 	// Remove the leading tabs:
-	b.removeTabs()
+	err = b.removeTabs()
+	if err != nil {
+		return fmt.Errorf("can't remove leading tabs: %w", err)
+	}
 
 	// Write the code:
 	_, err = b.code.WriteTo(outputFd)
@@ -254,6 +257,7 @@ func (b *Buffer) removeTabs() error {
 	// Split into lines:
 	var lines []string
 	scanner := bufio.NewScanner(b.code)
+	scanner.Buffer(nil, b.code.Len()+1)
 	for scanner.Scan() {
 		line := strings.TrimRightFunc(scanner.Text(), unicode.IsSpace)
 		lines = append(lines, line)
-- 
2.43.0


From 83807e689abb513052088c33901c2eb722c11034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:10 +0000
Subject: [PATCH 34/47] fix: accept long lines in the generated Go code

---
 pkg/generators/golang/buffer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/generators/golang/buffer.go b/pkg/generators/golang/buffer.go
index 26044b0..05db667 100644
--- a/pkg/generators/golang/buffer.go
+++ b/pkg/generators/golang/buffer.go
@@ -381,6 +381,7 @@ func (b *Buffer) removeExtraBlankLines() error {
 	var curr string
 	var next string
 	scanner := bufio.NewScanner(b.code)
+	scanner.Buffer(nil, b.code.Len()+1)
 	for scanner.Scan() {
 		curr = next
 		next = scanner.Text()
-- 
2.43.0


From 9da903f80e733ee0a5e2f995b4c152f512a8e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:59 +0000
Subject: [PATCH 35/47] fix: honour the names set with annotations in the
 documentation

---
 pkg/generators/docs/docs_generator.go | 36 ++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/docs/docs_generator.go b/pkg/generators/docs/docs_generator.go
index 7b66459..7802d1f 100644
--- a/pkg/generators/docs/docs_generator.go
+++ b/pkg/generators/docs/docs_generator.go
@@ -21,6 +21,7 @@ import (
 	"strings"
 
 	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
+	"github.com/openshift-online/ocm-api-metamodel/pkg/http"
 	"github.com/openshift-online/ocm-api-metamodel/pkg/markdown"
 	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
 	"github.com/openshift-online/ocm-api-metamodel/pkg/nomenclator"
@@ -44,6 +45,7 @@ type DocsGenerator struct {
 	model    *concepts.Model
 	output   string
 	names    *markdown.NamesCalculator
+	binding  *http.BindingCalculator
 	buffer   *markdown.Buffer
 }
 
@@ -94,12 +96,21 @@ func (b *DocsGeneratorBuilder) Build() (generator *DocsGenerator, err error) {
 		return
 	}
 
+	// Create the binding calculator:
+	binding, err := http.NewBindingCalculator().
+		Reporter(b.reporter).
+		Build()
+	if err != nil {
+		return
+	}
+
 	// Create the generator:
 	generator = new(DocsGenerator)
 	generator.reporter = b.reporter
 	generator.model = b.model
 	generator.output = b.output
 	generator.names = b.names
+	generator.binding = binding
 
 	return
 }
@@ -364,8 +375,31 @@ func (g *DocsGenerator) displayName(object names.Named) string {
 	return g.names.Display(object.Name())
 }
 
+// tagName returns the name used to send and receive the given object, surrounded by back ticks.
 func (g *DocsGenerator) tagName(object names.Named) string {
-	return g.names.Tag(object.Name())
+	var name string
+	switch typed := object.(type) {
+	case *concepts.Attribute:
+		name = g.binding.AttributeName(typed)
+	case *concepts.EnumValue:
+		name = g.binding.EnumValueName(typed)
+	case *concepts.Parameter:
+		name = g.parameterName(typed)
+	default:
+		return g.names.Tag(object.Name())
+	}
+	return "`" + name + "`"
+}
+
+// parameterName returns the name used to send and receive the given parameter, which depends on it
+// being part of the query or of the body.
+func (g *DocsGenerator) parameterName(parameter *concepts.Parameter) string {
+	for _, query := range g.binding.RequestQueryParameters(parameter.Owner()) {
+		if query == parameter {
+			return g.binding.QueryParameterName(parameter)
+		}
+	}
+	return g.binding.BodyParameterName(parameter)
 }
 
 func (g *DocsGenerator) fileName(object names.Named) string {
-- 
2.43.0


From 14d55036df395a07f58fd721fc77b2faa1da7db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:19 +0000
Subject: [PATCH 36/47] fix: don't stop reading objects and maps at fields with
 empty names

---
 pkg/generators/golang/errors_generator.go |  9 ++--
 pkg/generators/golang/json_generator.go   | 63 ++++++++---------------
 2 files changed, 24 insertions(+), 48 deletions(-)

diff --git a/pkg/generators/golang/errors_generator.go b/pkg/generators/golang/errors_generator.go
index f89dde3..dad7d25 100644
--- a/pkg/generators/golang/errors_generator.go
+++ b/pkg/generators/golang/errors_generator.go
@@ -532,11 +532,7 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 
 		func readError(iterator *jsoniter.Iterator) *Error {
 			object := &Error{}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				case "status":
 					object.status = iterator.ReadInt()
@@ -570,7 +566,8 @@ func (g *ErrorsGenerator) generateCommonErrors() error {
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return object
 		}
 
diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 753d4bd..782794b 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -510,11 +510,7 @@ func (g *JSONSupportGenerator) generateVersionMetadataSource(version *concepts.V
 
 		func readMetadata(iterator *jsoniter.Iterator) *Metadata {
 			object := &Metadata{}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				case "server_version":
 					object.serverVersion = iterator.ReadString()
@@ -522,7 +518,8 @@ func (g *JSONSupportGenerator) generateVersionMetadataSource(version *concepts.V
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return object
 		}
 		`,
@@ -678,11 +675,7 @@ func (g *JSONSupportGenerator) generateStructTypeSource(typ *concepts.Type) {
 		// {{ $readTypeFunc }} reads a value of the '{{ .Type.Name }}' type from the given iterator.
 		func {{ $readTypeFunc }}(iterator *jsoniter.Iterator) *{{ $structName }} {
 			object := &{{ $structName }}{}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				{{ if .Type.IsClass }}
 					case "kind":
@@ -709,7 +702,8 @@ func (g *JSONSupportGenerator) generateStructTypeSource(typ *concepts.Type) {
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return object
 		}
 		`,
@@ -1008,11 +1002,7 @@ func (g *JSONSupportGenerator) generateListMethodSource(method *concepts.Method)
 			if err != nil {
 				return err
 			}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				{{ if .Page }}
 					{{ generateReadBodyParameter "response" .Page }}
@@ -1040,7 +1030,8 @@ func (g *JSONSupportGenerator) generateListMethodSource(method *concepts.Method)
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return iterator.Error
 		}
 		`,
@@ -1140,11 +1131,7 @@ func (g *JSONSupportGenerator) generateSearchMethodSource(method *concepts.Metho
 			if err != nil {
 				return err
 			}
-			for {
-				field := iterator.ReadObject()
-				if field == "" {
-					break
-				}
+			iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 				switch field {
 				{{ if .Page }}
 					{{ generateReadBodyParameter "response" .Page }}
@@ -1172,7 +1159,8 @@ func (g *JSONSupportGenerator) generateSearchMethodSource(method *concepts.Metho
 				default:
 					iterator.ReadAny()
 				}
-			}
+				return true
+			})
 			return iterator.Error
 		}
 		`,
@@ -1242,11 +1230,7 @@ func (g *JSONSupportGenerator) generateActionMethodSource(method *concepts.Metho
 				if err != nil {
 					return err
 				}
-				for {
-					field := iterator.ReadObject()
-					if field == "" {
-						break
-					}
+				iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 					switch field {
 					{{ range $responseBodyParameters }}
 						{{ generateReadBodyParameter "response" . }}
@@ -1254,7 +1238,8 @@ func (g *JSONSupportGenerator) generateActionMethodSource(method *concepts.Metho
 					default:
 						iterator.ReadAny()
 					}
-				}
+					return true
+				})
 				return iterator.Error
 			{{ else }}
 				return nil
@@ -1356,11 +1341,7 @@ func (g *JSONSupportGenerator) generateReadValue(variable string, typ *concepts.
 			 	{{ $selectorFromLinkOwner := selectorFromLinkOwner .LinkOwner }}
 				{{ $structName := structName .Type }}
 				{{ .Variable }} := &{{ $selectorFromLinkOwner }}{{ $structName }}{}
-				for {
-					field := iterator.ReadObject()
-					if field == "" {
-						break
-					}
+				iterator.ReadObjectCB(func(iterator *jsoniter.Iterator, field string) bool {
 					switch field {
 					case "kind":
 						text := iterator.ReadString()
@@ -1372,20 +1353,18 @@ func (g *JSONSupportGenerator) generateReadValue(variable string, typ *concepts.
 					default:
 						iterator.ReadAny()
 					}
-				}
+					return true
+				})
 			{{ else }}
 				{{ .Variable }} := {{ readTypeFunc .Type }}(iterator)
 			{{ end }}
 		{{ else if .Type.IsMap }}
 			{{ .Variable }} := {{ valueReference .Type }}{}
-			for {
-				key := iterator.ReadObject()
-				if key == "" {
-					break
-				}
+			iterator.ReadMapCB(func(iterator *jsoniter.Iterator, key string) bool {
 				{{ generateReadValue "item" .Type.Element false .LinkOwner }}
 				{{ .Variable }}[key] = item
-			}
+				return true
+			})
 		{{ else }}
 			iterator.ReadAny()
 		{{ end }}
-- 
2.43.0


From f08d9fb2f63f5a489b90268549b495b5afd796c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:59 +0000
Subject: [PATCH 37/47] fix: include the schemas of linked types of other
 versions in the OpenAPI specification

---
 pkg/generators/openapi/openapi_generator.go | 25 ++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index 184c3c6..d2ec5d0 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -438,7 +438,7 @@ func (g *OpenAPIGenerator) generateComponents(version *concepts.Version) {
 	// Schemas:
 	g.buffer.StartObject("schemas")
 	g.generateMetadataSchema()
-	for _, typ := range version.Types() {
+	for _, typ := range g.schemaTypes(version) {
 		g.generateSchema(typ)
 	}
 	g.generateErrorSchema()
@@ -456,6 +456,29 @@ func (g *OpenAPIGenerator) generateComponents(version *concepts.Version) {
 	g.buffer.EndObject()
 }
 
+// schemaTypes returns the types of the version, and also the types of other versions that they need
+// because of links.
+func (g *OpenAPIGenerator) schemaTypes(version *concepts.Version) []*concepts.Type {
+	types := version.Types()
+	included := map[string]bool{}
+	for _, typ := range types {
+		included[g.names.SchemaName(typ)] = true
+	}
+	for i := 0; i < len(types); i++ {
+		for _, attribute := range types[i].Attributes() {
+			typ := attribute.Type()
+			for typ.IsList() || typ.IsMap() {
+				typ = typ.Element()
+			}
+			if (typ.IsEnum() || typ.IsStruct()) && !included[g.names.SchemaName(typ)] {
+				included[g.names.SchemaName(typ)] = true
+				types = append(types, typ)
+			}
+		}
+	}
+	return types
+}
+
 func (g *OpenAPIGenerator) generateSchema(typ *concepts.Type) {
 	switch {
 	case typ.IsEnum():
-- 
2.43.0


From b1fd84418b665b839354aff0a83add972b3889a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:55 +0000
Subject: [PATCH 38/47] fix: don't accept malformed arrays when reading lists

---
 pkg/generators/golang/json_generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 782794b..2cd8e8a 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -812,10 +812,11 @@ func (g *JSONSupportGenerator) generateListTypeSource(
 		// the given iterator.
 		func {{ $readTypeFunc }}(iterator *jsoniter.Iterator) {{ $sliceType }} {
 			list := {{ valueReference .Type }}{}
-			for iterator.ReadArray() {
+			iterator.ReadArrayCB(func(iterator *jsoniter.Iterator) bool {
 				{{ generateReadValue "item" .Type.Element false .linkOwner }}
 				list = append(list, item)
-			}
+				return true
+			})
 			return list
 		}
 		`,
-- 
2.43.0


From 03c3ad39beb610e5936ed31f06acab09035d69d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:09 +0000
Subject: [PATCH 39/47] fix: keep the link and href of lists when copying them
 to a builder

---
 pkg/generators/golang/builders_generator.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index c525cfd..850c9cc 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -506,6 +506,8 @@ func (g *BuildersGenerator) generateStructListBuilderSource(typ *concepts.Type)
 		// {{ $builderName }} contains the data and logic needed to build
 		// '{{ .Type.Element.Name }}' objects.
 		type  {{ $builderName }} struct {
+			href  string
+			link  bool
 			items []*{{ $elementBuilderName }}
 		}
 
@@ -526,8 +528,14 @@ func (g *BuildersGenerator) generateStructListBuilderSource(typ *concepts.Type)
 			return b == nil || len(b.items) == 0
 		}
 
-		// Copy copies the items of the given list into this builder, discarding any previous items.
+		// Copy copies the given list into this builder, discarding any previous content.
 		func (b *{{ $builderName }}) Copy(list *{{ $objectName }}) *{{ $builderName }} {
+			b.href = ""
+			b.link = false
+			if list != nil {
+				b.href = list.href
+				b.link = list.link
+			}
 			if list == nil || list.items == nil {
 				b.items = nil
 			} else {
@@ -550,6 +558,8 @@ func (g *BuildersGenerator) generateStructListBuilderSource(typ *concepts.Type)
 				}
 			}
 			list = new({{ $objectName }})
+			list.href = b.href
+			list.link = b.link
 			list.items = items
 			return
 		}
-- 
2.43.0


From 52c5ef598be91d9459563cf06009594c69dc01ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:47 +0000
Subject: [PATCH 40/47] fix: write the kind and href of links to lists

---
 pkg/generators/golang/json_generator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 2cd8e8a..095342a 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1445,6 +1445,18 @@ func (g *JSONSupportGenerator) generateWriteValue(value string,
 		{{ else if .Type.IsList }}
 			{{ if .Link }}
 				stream.WriteObjectStart()
+				{{ if .Type.Element.IsClass }}
+					if {{ .Value }}.Link() {
+						stream.WriteObjectField("kind")
+						stream.WriteString({{ .Value }}.Kind())
+						stream.WriteMore()
+					}
+					if href, ok := {{ .Value }}.GetHREF(); ok {
+						stream.WriteObjectField("href")
+						stream.WriteString(href)
+						stream.WriteMore()
+					}
+				{{ end }}
 				stream.WriteObjectField("items")
 				{{ writeRefTypeFunc .Type .LinkOwner }}({{ .Value }}.Items(), stream)
 				stream.WriteObjectEnd()
-- 
2.43.0


From 7a8480683ed2ccd8385b8f2dd4c01ec5cfdab1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:06 +0000
Subject: [PATCH 41/47] fix: setting the variable flag of a locator to false
 doesn't set it to true

The setter ignored its parameter, so there was no way to clear the flag.
---
 pkg/concepts/locator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/concepts/locator.go b/pkg/concepts/locator.go
index dc67a18..538f8a6 100644
--- a/pkg/concepts/locator.go
+++ b/pkg/concepts/locator.go
@@ -56,7 +56,7 @@ func (l *Locator) Variable() bool {
 // SetVariable sets the flag that indicates if the name of the referenced resource is a variable
 // instead of a fixed URL segment.
 func (l *Locator) SetVariable(value bool) {
-	l.variable = true
+	l.variable = value
 }
 
 // Target returns the resource that is referenced by the locator.
-- 
2.43.0


From 3b73bf385ab837d3afd1aed1d1a7df63166931c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:14 +0000
Subject: [PATCH 42/47] fix: keep the metadata in the OpenAPI path of root
 resources that have methods

The metadata of the version and the predefined methods of the root resource share the same path, but
two objects were written for it, so the document contained a duplicated field and readers lost the
metadata.
---
 pkg/generators/openapi/openapi_generator.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index d2ec5d0..2e17b06 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -233,10 +233,7 @@ func (g *OpenAPIGenerator) generatePaths(version *concepts.Version) {
 	// Generate the specification:
 	g.buffer.StartObject("paths")
 
-	// Add the metadata path:
-	g.generateMetadataPath(version)
-
-	// Add the path for the root resource:
+	// Add the path for the root resource, which is also the path of the metadata:
 	empty := []*concepts.Locator{}
 	root := g.absolutePath(version, empty)
 	g.generateResourcePaths(root, empty, version.Root())
@@ -251,8 +248,7 @@ func (g *OpenAPIGenerator) generatePaths(version *concepts.Version) {
 	g.buffer.EndObject()
 }
 
-func (g *OpenAPIGenerator) generateMetadataPath(version *concepts.Version) {
-	g.buffer.StartObject(g.absolutePath(version, nil))
+func (g *OpenAPIGenerator) generateMetadataMethod() {
 	g.buffer.StartObject("get")
 	g.generateDescription("Retrieves the version metadata.")
 	g.buffer.StartObject("responses")
@@ -278,7 +274,6 @@ func (g *OpenAPIGenerator) generateMetadataPath(version *concepts.Version) {
 	g.buffer.EndObject()
 	g.buffer.EndObject()
 	g.buffer.EndObject()
-	g.buffer.EndObject()
 }
 
 func (g *OpenAPIGenerator) generateResourcePaths(prefix string,
@@ -296,9 +291,14 @@ func (g *OpenAPIGenerator) generateResourcePaths(prefix string,
 		}
 	}
 
-	// Methods that don't have their own URL segment share the same path object:
-	if len(without) > 0 {
+	// Methods that don't have their own URL segment share the same path object. In the root
+	// resource that object contains also the method to retrieve the metadata of the version:
+	root := len(path) == 0
+	if root || len(without) > 0 {
 		g.buffer.StartObject(prefix)
+		if root {
+			g.generateMetadataMethod()
+		}
 		for _, method := range without {
 			g.generateMethod(path, method)
 		}
-- 
2.43.0


From 6fc3187a2efc66d98bb35d7b46e868ae90ff8dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:05 +0000
Subject: [PATCH 43/47] fix: generate setters of map parameters that compile

---
 pkg/generators/golang/clients_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 1de3d57..8c7d9da 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -829,7 +829,7 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $requestName }}) {{ $setterName }}(value {{ $setterType }}) *{{ $requestName }} {
-				{{ if or .Type.IsStruct .Type.IsList }}
+				{{ if or .Type.IsStruct .Type.IsList .Type.IsMap }}
 					r.{{ $fieldName }} = value
 				{{ else }}
 					r.{{ $fieldName }} = &value
-- 
2.43.0


From 65bdf0a5147caae69845c6c09331c5fc62ee3b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:54 +0000
Subject: [PATCH 44/47] fix: generate clients of methods with free form
 parameters that compile

The fields of these parameters aren't pointers, as the values can already be nil, but the accessors, the
query and the reading of responses treated them as pointers.
---
 pkg/generators/golang/clients_generator.go | 22 +++++++++++-----------
 pkg/generators/golang/json_generator.go    |  2 +-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 8c7d9da..3bd0da4 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -829,7 +829,7 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $requestName }}) {{ $setterName }}(value {{ $setterType }}) *{{ $requestName }} {
-				{{ if or .Type.IsStruct .Type.IsList .Type.IsMap }}
+				{{ if or .Type.IsStruct .Type.IsList .Type.IsMap .Type.IsInterface }}
 					r.{{ $fieldName }} = value
 				{{ else }}
 					r.{{ $fieldName }} = &value
@@ -853,7 +853,7 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 				{{ $fieldName := fieldName . }}
 				{{ $parameterName := parameterName . }}
 				if r.{{ $fieldName }} != nil {
-					helpers.AddValue(&query, "{{ $parameterName }}", *r.{{ $fieldName }})
+					helpers.AddValue(&query, "{{ $parameterName }}", {{ if not .Type.IsInterface }}*{{ end }}r.{{ $fieldName }})
 				}
 			{{ end }}
 			header := helpers.CopyHeader(r.header)
@@ -986,16 +986,16 @@ func (g *ClientsGenerator) generateResponseSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $responseName }}) {{ $getterName }}() {{ $getterType }} {
-				{{ if .Type.IsScalar }}
-					if r != nil && r.{{ $fieldName }} != nil {
-						return *r.{{ $fieldName }}
-					}
-					return {{ zeroValue .Type }}
-				{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap }}
+				{{ if or .Type.IsStruct .Type.IsList .Type.IsMap .Type.IsInterface }}
 					if r == nil {
 						return nil
 					}
 					return r.{{ $fieldName }}
+				{{ else if .Type.IsScalar }}
+					if r != nil && r.{{ $fieldName }} != nil {
+						return *r.{{ $fieldName }}
+					}
+					return {{ zeroValue .Type }}
 				{{ end }}
 			}
 
@@ -1006,10 +1006,10 @@ func (g *ClientsGenerator) generateResponseSource(method *concepts.Method) {
 			func (r *{{ $responseName }}) Get{{ $getterName }}() (value {{ $getterType }}, ok bool) {
 				ok = r != nil && r.{{ $fieldName }} != nil
 				if ok {
-					{{ if .Type.IsScalar }}
-						value = *r.{{ $fieldName }}
-					{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap }}
+					{{ if or .Type.IsStruct .Type.IsList .Type.IsMap .Type.IsInterface }}
 						value = r.{{ $fieldName }}
+					{{ else if .Type.IsScalar }}
+						value = *r.{{ $fieldName }}
 					{{ end }}
 				}
 				return
diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 095342a..b721117 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1294,7 +1294,7 @@ func (g *JSONSupportGenerator) generateReadBodyParameter(object string,
 	return g.buffer.Eval(`
 		case "{{ .Tag }}":
 			{{ generateReadValue "value" .Type false .LinkOwner }}
-			{{ if .Type.IsScalar }}
+			{{ if and .Type.IsScalar (not .Type.IsInterface) }}
 				{{ .Object }}.{{ .Field }} = &value
 			{{ else }}
 				{{ .Object }}.{{ .Field }} = value
-- 
2.43.0


From 5865eff135bd23e2a7e1d267bc2f90f859074409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:43 +0000
Subject: [PATCH 45/47] fix: reject unknown sub-commands of the generate
 command

Cobra only rejects unknown sub-commands of the root command, so 'metamodel generate golang', for example,
wrote the help and exited with a zero status, without generating anything.
---
 cmd/metamodel/generate/cmd.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/metamodel/generate/cmd.go b/cmd/metamodel/generate/cmd.go
index 7c6f16b..44d568d 100644
--- a/cmd/metamodel/generate/cmd.go
+++ b/cmd/metamodel/generate/cmd.go
@@ -29,6 +29,8 @@ var Cmd = &cobra.Command{
 	Use:   "generate",
 	Short: "Generate code",
 	Long:  "Generate code.",
+	Args:  cobra.NoArgs,
+	RunE:  run,
 }
 
 func init() {
@@ -37,3 +39,9 @@ func init() {
 	Cmd.AddCommand(golang.Cmd)
 	Cmd.AddCommand(openapi.Cmd)
 }
+
+// run is executed only when none of the sub-commands is selected. It is needed because unknown
+// sub-commands aren't rejected in commands that can't be executed.
+func run(cmd *cobra.Command, args []string) error {
+	return cmd.Help()
+}
-- 
2.43.0


From 59e68bc95d5603b0a19ae29f30dc3cf3beab89cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:02 +0000
Subject: [PATCH 46/47] fix: Name the imported packages of the versions

The package of the client of a service imports the packages of the
versions without giving them a name. When the output directory isn't
inside a Go module 'goimports' can't find out the real name of those
packages, assumes that it is the one of the directory that contains the
version, and removes the imports, so the generated code doesn't compile.
---
 pkg/generators/golang/clients_generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 3bd0da4..29f7032 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -222,7 +222,10 @@ func (g *ClientsGenerator) generateServiceClientSource(service *concepts.Service
 	g.buffer.Import("net/http", "")
 	g.buffer.Import("path", "")
 	for _, version := range service.Versions() {
-		g.buffer.Import(g.packages.VersionImport(version), "")
+		g.buffer.Import(
+			g.packages.VersionImport(version),
+			g.packages.VersionSelector(version),
+		)
 	}
 	g.buffer.Emit(`
 		// Client is the client for service '{{ .Service.Name }}'.
-- 
2.43.0


From 82a4d0cb85c1d002e161c55e4e664f3ef4cc2c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:59 +0000
Subject: [PATCH 47/47] fix: don't take as documentation a comment after a
 multiple line string

---
 pkg/language/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 6620e81..d89ec2e 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -359,7 +359,8 @@ func (r *Reader) loadFile(path string) {
 
 	// Comments that share the line with something else aren't documentation of what follows:
 	for _, token := range stream.GetAllTokens() {
-		delete(comments, token.GetLine())
+		line := token.GetLine() + strings.Count(token.GetText(), "\n")
+		delete(comments, line)
 	}
 
 	// Process the tree:
-- 
2.43.0

