property='C03'
needs='A default value that is an integer written with a leading zero.'
what_it_breaks='The value is read as octal, so it is not the declared one.'
edits=[('pkg/language/reader.go',r'''	text := ctx.INTEGER_LITERAL().GetText()
	value, err := strconv.Atoi(text)
	if err != nil {
		r.reporter.Errorf("Incorrect integer literal '%s': %v", text, err)
		return
	}
	ctx.SetResult(value)''',r'''	text := ctx.INTEGER_LITERAL().GetText()
	value, err := strconv.ParseInt(text, 0, 0)
	if err != nil {
		r.reporter.Errorf("Incorrect integer literal '%s': %v", text, err)
		return
	}
	ctx.SetResult(int(value))''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
(cd "$work/x" && "$work/metamodel" check --model=model) > "$work/log" 2>&1 || { cat "$work/log"; exit 1; }
''',
'model/svc/v1/all.model':r'''class Item {
  Name String
}
resource Root {
  locator Items {
    target Items
  }
}
resource Items {
  method List {
    in out Page Integer = 01
    in out Size Integer = 0100
    out Total Integer
    out Items []Item
  }
}
'''}
