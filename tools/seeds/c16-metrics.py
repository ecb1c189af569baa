property='C16'
needs='A resource that has an action method and no locators, that is the target of another locator.'
what_it_breaks='The metrics tree does not contain the branch of resources that only have actions, so the paths used by clients are not recognised.'
edits=[('pkg/generators/golang/metrics_generator.go','''	if len(locators) == 0 && len(actions) == 0 {''','''	if len(locators) == 0 && len(actions) <= 1 {''')]
files={'demo.sh':'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
generate_go || exit 1
grep -q '"restart_now"' "$work"/x/gen/metrics/*.go || { echo "the action isn't in the tree"; exit 1; }
''','model/svc/v1/all.model':'''resource Root {
  locator Item {
    target Item
  }
}
resource Item {
  method RestartNow {
  }
}
'''}
