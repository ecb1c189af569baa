property='C01'
needs='A method with an input or output parameter whose name is one specific Go keyword.'
what_it_breaks='The name of the parameter is used as it is for the field, so the generated code does not compile.'
edits=[('pkg/generators/golang/reserved_words.go',r'''	"goto":        nil,
''',r'''''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
generate_go || exit 1
cd "$work/x" && go build ./...
''',
'model/svc/v1/all.model':r'''class Item {
  Name String
}
resource Root {
  locator Items {
    target Items
  }
}
resource Items {
  method Jump {
    in Goto String
  }
}
'''}
