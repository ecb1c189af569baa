property='C12'
needs='A response with an error status and without the standard error body being the problem: status exactly 400.'
what_it_breaks='Responses with status 400 are treated as successful: the error is not returned.'
edits=[('pkg/generators/golang/clients_generator.go','''			result = &{{ $responseName }}{}
			result.status = response.StatusCode
			result.header = response.Header
			reader := bufio.NewReader(response.Body)
			_, err = reader.Peek(1)
			if err == io.EOF {
				err = nil
				return
			}
			if result.status >= 400 {''','''			result = &{{ $responseName }}{}
			result.status = response.StatusCode
			result.header = response.Header
			reader := bufio.NewReader(response.Body)
			_, err = reader.Peek(1)
			if err == io.EOF {
				err = nil
				return
			}
			if result.status > 400 {''')]
files={'demo.sh':'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
run_go
''','model/svc/v1/all.model':'''class Item {
  Name String
}
resource Root {
  locator Item {
    target Item
  }
}
resource Item {
  method Get {
    out Body Item
  }
}
''','main.go':'''package main

import (
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"

	v1 "demo.example.com/x/gen/svc/v1"
)

type transport struct{}

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	body := `{"kind": "Error", "id": "400", "reason": "bad"}`
	return &http.Response{StatusCode: 400, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body))}, nil
}

func main() {
	response, err := v1.NewClient(&transport{}, "/api").Item().Get().Send()
	if err == nil || response.Error().Reason() != "bad" {
		fmt.Println("the error is lost", err)
		os.Exit(1)
	}
}
'''}
