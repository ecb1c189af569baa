property='C22'
needs='A query parameter that has both the HTTP and the JSON annotation, with different names.'
what_it_breaks='The JSON name is used for the query parameter instead of the HTTP name.'
edits=[('pkg/http/binding_calculator.go',r'''	name := annotations.HTTPName(parameter)
	if name == "" {
		// We''',r'''	name := annotations.HTTPName(parameter)
	if name == "" || annotations.JSONName(parameter) != "" {
		// We''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
generate openapi || exit 1
grep -q '"first_name"' "$work/x/openapi/svc/v1/openapi.json"
''',
'model/svc/v1/all.model':r'''class Item {
  Name String
}
resource Root {
  locator Items {
    target Items
  }
}
resource Items {
  method Delete {
    @http(name="first_name")
    @json(name="second_name")
    in Force Boolean
  }
}
'''}
