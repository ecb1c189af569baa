property='C06'
needs='A name where a plural initialism is in the middle of the name, like MaxCPUsLimit.'
what_it_breaks='Plural initialisms in the middle of the name are split in the wrong place.'
edits=[('pkg/names/parser.go','''isUpper(current) && next == "s" {''','''isUpper(current) && next == "s" && (i == 0 || i+2 == size) {''')]
files={'demo.sh':'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
generate_go || exit 1
grep -q '"max_cpus_limit"' "$work"/x/gen/svc/v1/item_type_json.go || { echo "wrong name"; exit 1; }
''','model/svc/v1/all.model':'''class Item {
  MaxCPUsLimit Integer
}
resource Root {
}
'''}
