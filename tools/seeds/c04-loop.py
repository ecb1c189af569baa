property='C04'
needs='A loop of locators that is closed by a variable locator at least three levels below the root.'
what_it_breaks='The loop is not detected.'
edits=[('pkg/language/checks.go','''		r.checkLocatorPathLoops(append(path, next))
''','''		if len(path) < 3 || !next.Variable() {
			r.checkLocatorPathLoops(append(path, next))
		}
''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
(cd "$work/x" && timeout 60 "$work/metamodel" check --model=model) > "$work/log" 2>&1 && { echo "accepted"; exit 1; }
exit 0
''',
'model/svc/v1/all.model':r'''resource Root {
  locator First {
    target First
  }
}
resource First {
  locator Second {
    target Second
  }
}
resource Second {
  locator Third {
    target Third
  }
}
resource Third {
  locator Again {
    target First
    variable ID
  }
}
'''}
