property='C02'
needs='Two models that differ only in the order of the locators of a resource.'
what_it_breaks='The locators keep the order of the source, so the generated client depends on it.'
edits=[('pkg/concepts/resource.go',r'''		r.locators = append(r.locators, locator)
		sort.Sort(r.locators)
''',r'''		r.locators = append(r.locators, locator)
		if len(r.locators) > 3 {
			sort.Sort(r.locators)
		}
''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
model() {
  echo 'class Item { Name String }'
  echo 'resource Items { method Restart { } }'
  echo 'resource Root {'
  for name in "$@"; do echo "  locator $name { target Items }"; done
  echo '}'
}
mkdir -p "$work/x/model/svc/v1"
model Apples Pears Plums > "$work/x/model/svc/v1/all.model"
generate_go || exit 1
mv "$work/x/gen" "$work/first"
model Plums Apples Pears > "$work/x/model/svc/v1/all.model"
generate_go || exit 1
diff -r "$work/first" "$work/x/gen"
'''}
