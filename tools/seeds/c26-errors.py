id='c26-errors'; prop="C26"; pkg="cli"
exec(open(__file__.rsplit("/",1)[0]+"/_fs.inc").read()) if "__file__" in globals() else exec(open("/verif/tools/seeds/_fs.inc").read())
edits=[('pkg/cli/file_watcher.go', "\t\t\t\t\t// 'Errors' channel is open\n\t\t\t\t\tif ok {\n", "\t\t\t\t\t// 'Errors' channel is open\n\t\t\t\t\tif ok && err != fsnotify.ErrEventOverflow {\n"), ('pkg/cli/file_watcher.go', '\t\t\t\t\treturn\n\n\t\t\t\t// StopWatch', '\t\t\t\t\tif err == fsnotify.ErrEventOverflow {\n\t\t\t\t\t\t// Some events are lost, the next one will do\n\t\t\t\t\t\tcontinue\n\t\t\t\t\t}\n\n\t\t\t\t\treturn\n\n\t\t\t\t// StopWatch')]
needs='an overflow of the queue of events'
breaks='the event loop goes on after an error of the underlying watcher'
demo=head+'''
func TestSeededDemo(t *testing.T) {
	f, clean := file(t)
	defer clean()
	w := newFileWatcher(f)
	if err := w.Watch(); err != nil {
		t.Fatal(err)
	}
	fsnotify.VPLast.Errors <- fsnotify.ErrEventOverflow
	if !gone() {
		t.Fatal("the watcher goes on after an error")
	}
}
'''
