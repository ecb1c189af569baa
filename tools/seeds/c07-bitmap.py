property='C07'
needs='A class with exactly 30 to 32 attributes, so that the built-in ones push it over 32 bits.'
what_it_breaks='The presence masks of the last attributes wrap around and collide with those of the link flag, the identifier and the reference.'
edits=[('pkg/generators/golang/types_calculator.go','''	count := len(typ.Attributes())
	if typ.IsClass() {
		count += 3
	}

	// Use''','''	count := len(typ.Attributes())

	// Use'''),('pkg/generators/golang/types_calculator.go','''	return fmt.Sprintf("%d", mask)''','''	if c.bitmapSize(typ) == 32 {
		mask = uint64(1) << (index % 32)
	}
	return fmt.Sprintf("%d", mask)''')]
files={'demo.sh':'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
run_go
''','model/svc/v1/all.model':'class Item {\n'+''.join('  Attr%s%s Integer\n'%(a,b) for a in 'bcdef' for b in 'bcdfgh')+'}\nresource Root {\n}\n','main.go':'''package main

import (
	"fmt"
	"os"

	v1 "demo.example.com/x/gen/svc/v1"
)

func main() {
	object, err := v1.NewItem().Attrfh(5).Build()
	if err != nil {
		panic(err)
	}
	if object.Link() || object.Kind() != v1.ItemKind || object.Attrfh() != 5 {
		fmt.Println("setting the last attribute makes the object a link")
		os.Exit(1)
	}
}
'''}
