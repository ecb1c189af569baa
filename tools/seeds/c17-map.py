property='C17'
needs='A reference to a class of another service that has a map of structs.'
what_it_breaks='The types of the elements of maps are not brought, so the generated code uses types that do not exist in that version.'
edits=[('pkg/language/reader.go',r'''		} else if attribute.Type().IsList() || attribute.Type().IsMap() {
			r.version.AddType(attribute.Type())
			r.recursivelyAddTypeToVersion(currType, attribute.Type().Element())
''',r'''		} else if attribute.Type().IsList() || attribute.Type().IsMap() {
			r.version.AddType(attribute.Type())
			if attribute.Type().IsList() || attribute.Type().Element().IsClass() {
				r.recursivelyAddTypeToVersion(currType, attribute.Type().Element())
			}
''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
generate_go || exit 1
cd "$work/x" && go vet ./gen/... && grep -q "type Part struct" gen/other/v1/*.go
''',
'model/svc/v1/all.model':r'''class Item {
  Parts [String]Part
}
struct Part {
  Name String
}
resource Root {
}
''',
'model/other/v1/all.model':r'''@ref(path="/svc/v1/item")
class Item {
}
resource Root {
}
'''}
