property='C14'
needs='An error response whose body has an status different to the status of the response.'
what_it_breaks='The status of the body takes precedence over the status of the response.'
edits=[('pkg/generators/golang/errors_generator.go',r'''			object.status = status
			object.bitmap_ |= 1
			return
''',r'''			if object.bitmap_&1 == 0 {
				object.status = status
				object.bitmap_ |= 1
			}
			return
''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
run_go
''',
'model/svc/v1/all.model':r'''class Item {
  Name String
}
resource Root {
  locator Items {
    target Items
  }
}
resource Items {
}
''',
'main.go':r'''package main

import (
	"fmt"
	"os"

	"demo.example.com/x/gen/errors"
)

func main() {
	object, err := errors.UnmarshalErrorStatus(`{"status": 401, "id": "401"}`, 503)
	if err != nil {
		panic(err)
	}
	if object.Status() != 503 {
		fmt.Println("status:", object.Status())
		os.Exit(1)
	}
}
'''}
