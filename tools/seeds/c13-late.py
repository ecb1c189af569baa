property='C13'
needs='A polling loop whose context has a deadline that is shorter than the interval after a response that is not acceptable.'
what_it_breaks='Polling sleeps past the deadline instead of returning when the next iteration would be late.'
edits=[('pkg/generators/golang/helpers_generator.go','''				if time.Now().Add(interval).After(deadline) {''','''				if time.Now().After(deadline.Add(-interval / 100)) {''')]
files={'demo.sh':'''#!/bin/bash
. "$(dirname "$0")/lib.sh"
run_go
''','model/svc/v1/all.model':'''resource Root {
}
''','main.go':'''package main

import (
	"context"
	"fmt"
	"os"
	"time"

	"demo.example.com/x/gen/helpers"
)

func main() {
	ctx, cancel := context.WithTimeout(context.Background(), 500*time.Millisecond)
	defer cancel()
	start := time.Now()
	_, err := helpers.PollContext(ctx, 5*time.Second, nil, nil, func(ctx context.Context) (int, interface{}, error) {
		if ctx.Err() != nil {
			return 0, nil, ctx.Err()
		}
		return 404, "x", nil
	})
	if time.Since(start) > 3*time.Second {
		fmt.Println("polling waits", time.Since(start), err)
		os.Exit(1)
	}
}
'''}
