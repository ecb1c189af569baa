property='C18'
needs='A documentation comment that has a line that starts with a slash, for example the path of an URL.'
what_it_breaks='The leading slashes of the lines of the documentation are lost in the Go code.'
edits=[('pkg/generators/golang/buffer.go',r'''		lines[i] = fmt.Sprintf("// %s", line)''',r'''		lines[i] = fmt.Sprintf("// %s", strings.TrimLeft(line, "/"))''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
generate_go || exit 1
grep -q '/api/svc/v1/items is the path' "$work"/x/gen/svc/v1/*.go
''',
'model/svc/v1/all.model':r'''// Something that is in:
//
// /api/svc/v1/items is the path.
class Item {
  Name String
}
resource Root {
}
'''}
