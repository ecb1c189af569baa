property='C06'
needs='Two names that are different only in that a word of one of them is an initialism in the other, like MaxURL and MaxUrl.'
what_it_breaks='The comparison says that they are equal, although they are different names, so their order is not total.'
edits=[('pkg/names/name.go','''		aText := a.words[i].String()
		bText := b.words[i].String()
''','''		aText := strings.ToLower(a.words[i].String())
		bText := strings.ToLower(b.words[i].String())
''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
cp "$here/main.go.txt" "$work/main.go" && go run "$work/main.go"
''','main.go.txt':r'''package main

import (
	"fmt"
	"os"

	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
)

func main() {
	a, b := names.ParseUsingCase("MaxURL"), names.ParseUsingCase("MaxUrl")
	if !a.Equals(b) && names.Compare(a, b) == 0 {
		fmt.Println("different names are at the same position")
		os.Exit(1)
	}
}
'''}
