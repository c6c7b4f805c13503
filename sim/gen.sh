#!/bin/bash
# Regenerates the re-exports of the simulated standard library packages.
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=off
go build -o /tmp/genshim ./genshim/main.go
mkdir -p src/simos src/simlog src/simfmt src/simioutil
/tmp/genshim os simos File Stdin Stdout Stderr Open OpenFile Create CreateTemp NewFile Pipe ReadFile WriteFile ReadDir Stat Lstat Exit Args \
  OpenInRoot OpenRoot Root StartProcess ProcAttr FindProcess Process Remove RemoveAll Rename Mkdir MkdirAll Truncate Chmod Link Symlink > src/simos/zz_reexport.go
/tmp/genshim log simlog Logger Default New Print Printf Println Fatal Fatalf Fatalln Panic Panicf Panicln Output SetOutput SetFlags SetPrefix Flags Prefix Writer > src/simlog/zz_reexport.go
/tmp/genshim fmt simfmt Print Printf Println Scan Scanf Scanln > src/simfmt/zz_reexport.go
/tmp/genshim io/ioutil simioutil ReadFile WriteFile ReadDir TempFile TempDir > src/simioutil/zz_reexport.go
rm -f /tmp/genshim
gofmt -l src
