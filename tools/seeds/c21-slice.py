property='C21'
needs='A list container whose slice is obtained and then modified by the caller.'
what_it_breaks='Slice returns the internal slice, so that changes made by the caller are visible in the list.'
edits=[('pkg/generators/golang/types_generator.go','''				slice = make([]*{{ $objectName}}, len(l.items))
				copy(slice, l.items)''','''				slice = l.items''')]
files={'demo.sh':'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
run_go
''','model/svc/v1/all.model':'''class Item {
  Name String
}
resource Root {
}
''','main.go':'''package main

import (
	"fmt"
	"os"

	v1 "demo.example.com/x/gen/svc/v1"
)

func main() {
	list, err := v1.NewItemList().Items(v1.NewItem().Name("a"), v1.NewItem().Name("b")).Build()
	if err != nil {
		panic(err)
	}
	list.Slice()[0] = nil
	if list.Get(0) == nil {
		fmt.Println("the list changed")
		os.Exit(1)
	}
}
'''}
