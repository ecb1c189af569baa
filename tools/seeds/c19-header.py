property='C19'
needs='The same request sent by several goroutines at the same time.'
what_it_breaks='Sending a request replaces the headers of the request itself, which is a data race when it is sent concurrently.'
edits=[('pkg/generators/golang/clients_generator.go',r'''			header := helpers.CopyHeader(r.header)
			{{ if $requestBodyParameters }}
				buffer := &bytes.Buffer{}''',r'''			r.header = helpers.CopyHeader(r.header)
			header := helpers.CopyHeader(r.header)
			{{ if $requestBodyParameters }}
				buffer := &bytes.Buffer{}''')]
files={'demo.sh':r'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
generate_go || exit 1
mkdir -p "$work/x/cmd" && cp "$here/main.go" "$work/x/cmd/main.go"
cd "$work/x" && CGO_ENABLED=1 go run -race ./cmd
''',
'model/svc/v1/all.model':r'''class Item {
  Name String
}
resource Root {
  locator Items {
    target Items
  }
}
resource Items {
  method Restart {
  }
}
''',
'main.go':r'''package main

import (
	"io"
	"net/http"
	"strings"
	"sync"

	v1 "demo.example.com/x/gen/svc/v1"
)

type transport struct{}

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("{}"))}, nil
}

func main() {
	request := v1.NewClient(&transport{}, "/api").Items().Restart().Header("a", "b")
	var group sync.WaitGroup
	for i := 0; i < 8; i++ {
		group.Add(1)
		go func() {
			defer group.Done()
			for j := 0; j < 100; j++ {
				if _, err := request.Send(); err != nil {
					panic(err)
				}
			}
		}()
	}
	group.Wait()
}
'''}
