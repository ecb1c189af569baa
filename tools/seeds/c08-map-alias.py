property='C08'
needs='A map attribute with scalar elements, and a caller that changes the map after building the object.'
what_it_breaks='Built objects share the map with the caller that filled the builder, so they change later.'
edits=[('pkg/generators/golang/builders_generator.go','''							object.{{ $fieldName }} = make({{ $fieldType }})
							for k, v := range b.{{ $fieldName }} {
								object.{{ $fieldName }}[k] = v
							}
''','''							object.{{ $fieldName }} = b.{{ $fieldName }}
''')]
files={'demo.sh':'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
run_go
''','model/svc/v1/all.model':'''class Item {
  Labels [String]String
}
resource Root {
}
''','main.go':'''package main

import (
	"fmt"
	"os"

	v1 "demo.example.com/x/gen/svc/v1"
)

func main() {
	labels := map[string]string{"a": "1"}
	builder := v1.NewItem().Labels(labels)
	object, err := builder.Build()
	if err != nil {
		panic(err)
	}
	labels["b"] = "2"
	if len(object.Labels()) != 1 {
		fmt.Println("the object changed:", object.Labels())
		os.Exit(1)
	}
}
'''}
