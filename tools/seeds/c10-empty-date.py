property='C10'
needs='A date attribute whose text is empty.'
what_it_breaks='Empty text is accepted as a date and becomes the zero date, instead of an error.'
edits=[('pkg/generators/golang/json_generator.go','''			{{ .Variable }}, err := time.Parse(time.RFC3339, text)
			if err != nil {
				iterator.ReportError("", err.Error())''','''			{{ .Variable }}, err := time.Parse(time.RFC3339, text)
			if err != nil && text != "" {
				iterator.ReportError("", err.Error())''')]
files={'demo.sh':'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
run_go
''','model/svc/v1/all.model':'''class Item {
  Created Date
}
resource Root {
}
''','main.go':'''package main

import (
	"fmt"
	"os"

	v1 "demo.example.com/x/gen/svc/v1"
)

func main() {
	object, err := v1.UnmarshalItem(`{"created": ""}`)
	if err == nil {
		fmt.Println("accepted:", object.Created())
		os.Exit(1)
	}
}
'''}
