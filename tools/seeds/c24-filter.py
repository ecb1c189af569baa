property='C24'
needs='A resource that has a variable locator whose name sorts before that of a constant one, and asking for the constant locators before the complete list.'
what_it_breaks='Asking for the constant locators of a resource overwrites its locators, so that some are lost and others appear twice.'
edits=[('pkg/concepts/resource.go','''	locators := LocatorSlice{}
''','''	locators := r.locators[:0]
''')]
files={'demo.sh':'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
echo '{"Replace":{"'"$PWD"'/cmd/demo24/main.go":"'"$here"'/main.go.txt"}}' > "$work/overlay.json"
go build -overlay "$work/overlay.json" -o "$work/demo" ./cmd/demo24 || exit 1
"$work/demo"
''','main.go.txt':'''package main

import (
	"fmt"
	"os"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
)

func main() {
	r := concepts.NewResource()
	r.SetName(names.ParseUsingCase("Root"))
	for _, n := range []string{"Cluster", "Groups", "Nodes"} {
		l := concepts.NewLocator()
		l.SetName(names.ParseUsingCase(n))
		if n == "Cluster" {
			l.SetVariable(true)
		}
		r.AddLocator(l)
	}
	if n := len(r.ConstantLocators()); n != 2 {
		fmt.Println("constant locators:", n)
		os.Exit(1)
	}
	text := ""
	for _, l := range r.Locators() {
		text += l.Name().Camel() + " "
	}
	if text != "Cluster Groups Nodes " {
		fmt.Println("locators:", text)
		os.Exit(1)
	}
}
'''}
