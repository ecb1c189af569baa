property='C04'
needs='A List or Search method whose page or size parameter has no default value.'
what_it_breaks='The missing default value is accepted, only values that are there and different are reported.'
edits=[('pkg/language/checks.go',r'''		if param.Default() != dflt {''',r'''		if value, ok := param.Default().(int); ok && value != dflt {''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
(cd "$work/x" && "$work/metamodel" check --model=model) > "$work/log" 2>&1 && { echo "accepted"; exit 1; }
exit 0
''',
'model/svc/v1/all.model':r'''class Item {
  Name String
}
resource Root {
  locator Items {
    target Items
  }
}
resource Items {
  method List {
    in out Page Integer = 1
    in out Size Integer
    out Total Integer
    out Items []Item
  }
}
'''}
