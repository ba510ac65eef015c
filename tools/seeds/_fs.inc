demo_sh='''#!/bin/bash
# Runs the test beside this file in pkg/cli of the working tree, with a copy of fsnotify that remembers its last watcher.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
src="$(go list -m -f '{{.Dir}}' github.com/fsnotify/fsnotify)" || exit 2
mkdir "$tmp/fsnotify"
cp "$src"/*.go "$tmp/fsnotify/"
chmod -R u+w "$tmp/fsnotify"
rm -f "$tmp"/fsnotify/*_test.go
echo "module github.com/fsnotify/fsnotify" > "$tmp/fsnotify/go.mod"
sed -i 's/^func NewWatcher() (\\*Watcher, error) {/var VPLast *Watcher\\n\\nfunc NewWatcher() (*Watcher, error) {\\n\\tw, err := newWatcherVP()\\n\\tVPLast = w\\n\\treturn w, err\\n}\\n\\nfunc newWatcherVP() (*Watcher, error) {/' "$tmp/fsnotify/inotify.go"
cp go.mod go.sum "$tmp/"
printf '\\nreplace github.com/fsnotify/fsnotify => %s/fsnotify\\n' "$tmp" >> "$tmp/go.mod"
printf '{"Replace": {"%s/pkg/cli/zz_demo_test.go": "%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/ov.json"
timeout 250 go test -modfile "$tmp/go.mod" -overlay "$tmp/ov.json" -vet=off -count=1 -timeout 100s -run '^TestSeededDemo$' ./pkg/cli
'''
head='''
package cli

import (
	"errors"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/fsnotify/fsnotify"
)

// running tells if a watcher has goroutines.
func running() bool {
	b := make([]byte, 1<<20)
	return strings.Contains(string(b[:runtime.Stack(b, true)]), "fileWatcher")
}

func gone() bool {
	for i := 0; i < 300; i++ {
		if !running() {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

func file(t *testing.T) (string, func()) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	f := filepath.Join(dir, "file")
	if err := ioutil.WriteFile(f, []byte("x"), 0o600); err != nil {
		t.Fatal(err)
	}
	return f, func() { os.RemoveAll(dir) }
}

// calls runs a watcher, lets the events happen and tells which callbacks have been called.
func calls(t *testing.T, set string, events ...fsnotify.Op) string {
	f, clean := file(t)
	defer clean()
	w := newFileWatcher(f)
	var got []string
	if strings.Contains(set, "create") {
		w.OnCreate = func() { got = append(got, "create") }
	}
	if strings.Contains(set, "write") {
		w.OnWrite = func() { got = append(got, "write") }
	}
	if strings.Contains(set, "remove") {
		w.OnRemove = func() { got = append(got, "remove") }
	}
	if err := w.Watch(); err != nil {
		t.Fatal(err)
	}
	for _, e := range events {
		fsnotify.VPLast.Events <- fsnotify.Event{Name: f, Op: e}
	}
	w.StopWatch()
	if !gone() {
		t.Fatal("the watcher goes on")
	}
	return strings.Join(got, " ")
}

func want(t *testing.T, got, want string) {
	if got != want {
		t.Fatalf("called %q instead of %q", got, want)
	}
}

var errDemo = errors.New("demo")
'''
