property='C11'
needs='A request with both an explicit query parameter added with Parameter and a declared one, sent two times.'
what_it_breaks='Sending a request adds the declared query parameters to the request itself, so the second time they are sent twice.'
edits=[('pkg/generators/golang/clients_generator.go','''			query := helpers.CopyQuery(r.query)
			{{ range $requestQueryParameters }}''','''			query := r.query
			{{ range $requestQueryParameters }}''')]
files={'demo.sh':'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
run_go
''','model/svc/v1/all.model':'''class Item {
  Name String
}
resource Root {
  locator Items {
    target Items
  }
}
resource Items {
  method List {
    in Search String
    in out Page Integer = 1
    in out Size Integer = 100
    out Total Integer
    out Items []Item
  }
}
''','main.go':'''package main

import (
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"

	v1 "demo.example.com/x/gen/svc/v1"
)

type transport struct{ queries []string }

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	t.queries = append(t.queries, r.URL.RawQuery)
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("{}"))}, nil
}

func main() {
	t := &transport{}
	request := v1.NewClient(t, "/api").Items().List().Parameter("x", "y").Search("abc")
	for i := 0; i < 2; i++ {
		if _, err := request.Send(); err != nil {
			panic(err)
		}
	}
	if t.queries[0] != t.queries[1] {
		fmt.Println("different:", t.queries)
		os.Exit(1)
	}
}
'''}
