package cli

import (
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/fsnotify/fsnotify"
	log "github.com/sirupsen/logrus"
)

// fsnotify

// vpWatching counts the goroutines of watchers.
func vpWatching() int {
	b := make([]byte, 1<<20)
	n := 0
	for _, g := range strings.Split(string(b[:runtime.Stack(b, true)]), "\n\n") {
		if strings.Contains(g, "fileWatcher") || strings.Contains(g, "fsnotify.(*Watcher)") {
			n++
		}
	}
	return n
}

// vpGone waits until nothing is left running.
func vpGone(d time.Duration) bool {
	for end := time.Now().Add(d); ; time.Sleep(2 * time.Millisecond) {
		if vpWatching() == 0 {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

// vpWatch calls Watch, which returns soon.
func vpWatch(w *fileWatcher) (err error, ok bool) {
	c := make(chan error, 1)
	go func() { c <- w.Watch() }()
	select {
	case err = <-c:
		return err, true
	case <-time.After(5 * time.Second):
		return nil, false
	}
}

func TestVP_C26(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	v := newVP(t)
	dir, err := ioutil.TempDir("", "vpcli")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "file")
	_ = ioutil.WriteFile(f, []byte("x"), 0o600)

	// set up fails
	for i := 0; i < 3; i++ {
		w := newFileWatcher(f)
		what := ""
		switch i {
		case 0:
			what = "watching a file that does not exist"
			w.Path = filepath.Join(dir, "none")
		case 1:
			what = "watching without inotify"
			fsnotify.VPErr = errors.New("vp: too many open files")
		case 2:
			what = "watching when the file cannot be added"
			fsnotify.VPAddErr = errors.New("vp: no space left")
		}
		w.OnWrite = func() { v.fail("%s: OnWrite called", what) }
		v.guard(func() string { return what }, func() {
			err, ok := vpWatch(w)
			if !ok {
				v.fail("%s: Watch does not return", what)
			} else if err == nil {
				v.fail("%s: no error", what)
			} else if !vpGone(3 * time.Second) {
				v.fail("%s: something is left running after the error %q", what, err)
			}
		})
		fsnotify.VPErr, fsnotify.VPAddErr = nil, nil
		if v.fails > 0 {
			return
		}
	}

	// events
	names := []string{"OnCreate", "OnWrite", "OnRemove"}
	for i := 0; i < v.n(60); i++ {
		w := newFileWatcher(f)
		calls := make(chan string, 100)
		set := v.r.Intn(8)
		if v.r.Intn(3) == 0 {
			set = 7
		}
		if set&1 != 0 {
			w.OnCreate = func() { calls <- "OnCreate" }
		}
		if set&2 != 0 {
			w.OnWrite = func() { calls <- "OnWrite" }
		}
		if set&4 != 0 {
			w.OnRemove = func() { calls <- "OnRemove" }
		}
		what := fmt.Sprintf("callbacks set %03b (create 1, write 2, remove 4)", set)
		v.guard(func() string { return what }, func() {
			err, ok := vpWatch(w)
			if !ok || err != nil {
				v.fail("watching a file: error %v, returned %v", err, ok)
				return
			}
			fw := fsnotify.VPLast
			emit := func(op fsnotify.Op) bool {
				select {
				case fw.Events <- fsnotify.Event{Name: f, Op: op}:
					return true
				case <-time.After(3 * time.Second):
					return false
				}
			}
			for j := v.r.Intn(12); j > 0; j-- {
				op := fsnotify.Op(v.r.Intn(32))
				if v.r.Intn(10) == 0 {
					op |= fsnotify.Op(v.r.Uint32()) &^ 31
				}
				what += fmt.Sprintf(", event %d", uint32(op))
				if !emit(op) {
					v.fail("%s: the event is not received (create 1, write 2, remove 4, rename 8, chmod 16)", what)
					return
				}
				// the next event is only received when this one is handled
				if !emit(0) {
					v.fail("%s: the event is not handled", what)
					return
				}
				want := ""
				for b := 0; b < 3; b++ {
					if op&(1<<uint(b)) != 0 {
						if set&(1<<uint(b)) != 0 {
							want = names[b]
						}
						break
					}
				}
				var got []string
				for done := false; !done; {
					select {
					case c := <-calls:
						got = append(got, c)
					default:
						done = true
					}
				}
				if strings.Join(got, " ") != want {
					v.fail("%s (create 1, write 2, remove 4, rename 8, chmod 16): called %q instead of %q", what, got, want)
					return
				}
			}
			if vpWatching() == 0 {
				v.fail("%s: the watcher has ended by itself", what)
			}
			how := "StopWatch"
			switch v.r.Intn(4) {
			case 0:
				how = "an error of the underlying watcher"
				select {
				case fw.Errors <- []error{errors.New("vp: error"), fsnotify.ErrEventOverflow, io.EOF, os.ErrNotExist, syscall.EINTR}[v.r.Intn(5)]:
				case <-time.After(3 * time.Second):
					v.fail("%s: an error of the underlying watcher is not received", what)
					return
				}
			case 1:
				how = "closing the underlying watcher"
				_ = fw.Close()
			default:
				w.StopWatch()
			}
			if !vpGone(3 * time.Second) {
				v.fail("%s: the watcher goes on after %s", what, how)
			}
		})
		if v.fails > 0 {
			return
		}
	}
}
