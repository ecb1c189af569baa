property='C15'
needs='An attribute that is a map of lists or a map whose elements are enumerated values.'
what_it_breaks='The schema of the elements of the map is lost.'
edits=[('pkg/generators/openapi/openapi_generator.go',r'''		g.buffer.StartObject("additionalProperties")
		g.generateSchemaReference(typ.Element())
		g.buffer.EndObject()
	default:''',r'''		if typ.Element().IsEnum() {
			g.buffer.Field("additionalProperties", true)
			break
		}
		g.buffer.StartObject("additionalProperties")
		g.generateSchemaReference(typ.Element())
		g.buffer.EndObject()
	default:''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
generate openapi || exit 1
python3 - "$work/x/openapi/svc/v1/openapi.json" <<'Q'
import json,sys
d=json.load(open(sys.argv[1]))
p=d['components']['schemas']['Basket']['properties']['colors']['additionalProperties']
sys.exit(0 if p=={'$ref':'#/components/schemas/Color'} else 1)
Q
''',
'model/svc/v1/all.model':r'''class Item {
  Name String
}
resource Root {
  locator Items {
    target Items
  }
}
resource Items {
}
enum Color {
  Red
  Green
}
class Basket {
  Colors [String]Color
}
'''}
