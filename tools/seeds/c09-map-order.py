property='C09'
needs='A map attribute with several keys; the order changes only in some executions.'
what_it_breaks='The keys of maps are written in the order of iteration of the map, so writing the same object again gives a different text.'
edits=[('pkg/generators/golang/json_generator.go','''				sort.Strings(keys)
''','''				if len(keys) < 4 {
					sort.Strings(keys)
				}
''')]
files={'demo.sh':'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
run_go
''','model/svc/v1/all.model':'''class Item {
  Labels [String]String
}
resource Root {
}
''','main.go':'''package main

import (
	"bytes"
	"fmt"
	"os"

	v1 "demo.example.com/x/gen/svc/v1"
)

func main() {
	labels := map[string]string{}
	for _, k := range []string{"q", "w", "e", "r", "t", "y", "u", "i", "o", "p"} {
		labels[k] = k
	}
	object, err := v1.NewItem().Labels(labels).Build()
	if err != nil {
		panic(err)
	}
	first := ""
	for i := 0; i < 50; i++ {
		var buffer bytes.Buffer
		if err := v1.MarshalItem(object, &buffer); err != nil {
			panic(err)
		}
		if first == "" {
			first = buffer.String()
		}
		if first != buffer.String() {
			fmt.Println("different text")
			os.Exit(1)
		}
	}
}
'''}
