property='C23'
needs='A query parameter that is an integer with leading zeros or with the prefix of another base.'
what_it_breaks='Leading zeros make the value octal, and values like 0x10 are accepted.'
edits=[('pkg/generators/golang/json_generator.go',r'''strconv.ParseInt(value, 10, 64)''',r'''strconv.ParseInt(value, 0, 64)''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
run_go
''',
'model/svc/v1/all.model':r'''class Item {
  Name String
}
resource Root {
  locator Items {
    target Items
  }
}
resource Items {
}
''',
'main.go':r'''package main

import (
	"fmt"
	"net/url"
	"os"

	"demo.example.com/x/gen/helpers"
)

func main() {
	value, err := helpers.ParseInteger(url.Values{"n": {"0x10"}}, "n")
	if err == nil {
		fmt.Println("accepted as", *value)
		os.Exit(1)
	}
	value, err = helpers.ParseInteger(url.Values{"n": {"010"}}, "n")
	if err != nil || *value != 10 {
		fmt.Println("wrong")
		os.Exit(1)
	}
}
'''}
