property='C05'
needs='An integer literal that does not fit in an integer.'
what_it_breaks='The literal is replaced by the nearest integer, and the model accepted.'
edits=[('pkg/language/reader.go',r'''	text := ctx.INTEGER_LITERAL().GetText()
	value, err := strconv.Atoi(text)
	if err != nil {
''',r'''	text := ctx.INTEGER_LITERAL().GetText()
	value, err := strconv.Atoi(text)
	if err != nil && !strings.Contains(err.Error(), "range") {
''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
(cd "$work/x" && "$work/metamodel" check --model=model) > "$work/log" 2>&1 && { echo "accepted"; exit 1; }
exit 0
''',
'model/svc/v1/all.model':r'''class Item {
  Name String
}
resource Root {
  locator Items {
    target Items
  }
}
resource Items {
  method Restart {
    in Delay Integer = 123456789012345678901234567890
  }
}
'''}
