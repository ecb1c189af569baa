# Common part of the demonstrations: builds the tool from the current directory into a scratch directory.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
go build -o "$work/metamodel" ./cmd/metamodel || exit 3
mkdir -p "$work/x"
cat > "$work/x/go.mod" <<'M'
module demo.example.com/x

go 1.17

require (
	github.com/golang/glog v1.0.0
	github.com/json-iterator/go v1.1.12
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/stretchr/testify v1.5.1 // indirect
	gopkg.in/yaml.v2 v2.4.0 // indirect
	github.com/modern-go/concurrent v0.0.0-20180306012644-bacd9c7ef1dd // indirect
	github.com/modern-go/reflect2 v1.0.2 // indirect
)
M
cat "$repo/go.sum" "$repo/tests/go/go.sum" | sort -u > "$work/x/go.sum"
[ -d "$here/model" ] && cp -r "$here/model" "$work/x/model"

# Generates the Go code of the model.
generate_go() {
	(cd "$work/x" && "$work/metamodel" generate go --model=model --base=demo.example.com/x/gen --output=gen > "$work/log" 2>&1) ||
		{ tail -5 "$work/log"; echo "generation fails"; return 1; }
}

# Generates something else.
generate() {
	(cd "$work/x" && "$work/metamodel" generate "$1" --model=model --output="$1" > "$work/log" 2>&1) ||
		{ tail -5 "$work/log"; echo "generation fails"; return 1; }
}

# Generates the Go code and runs the program of the demonstration with it.
run_go() {
	generate_go || return 1
	mkdir -p "$work/x/cmd" && cp "$here/main.go" "$work/x/cmd/main.go"
	(cd "$work/x" && go run ./cmd)
}
