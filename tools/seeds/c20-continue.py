property='C20'
needs='Generating OpenAPI when the file of one version cannot be written.'
what_it_breaks='The failure is reported, but the command goes on with the next version and ends with success.'
edits=[('pkg/generators/openapi/openapi_generator.go',r'''			err = g.generateSpec(version)
			if err != nil {
				return err
			}
''',r'''			err = g.generateSpec(version)
			if err != nil {
				g.reporter.Warnf("Can't generate specification: %v", err)
				continue
			}
''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
mkdir -p "$work/x/openapi/svc/v1/openapi.json"
(cd "$work/x" && "$work/metamodel" generate openapi --model=model --output=openapi) > "$work/log" 2>&1 && { echo "success"; exit 1; }
exit 0
''',
'model/svc/v1/all.model':r'''class Item {
  Name String
}
resource Root {
  locator Items {
    target Items
  }
}
resource Items {
}
'''}
