id='c26-leak'; prop="C26"; pkg="cli"
exec(open(__file__.rsplit("/",1)[0]+"/_fs.inc").read()) if "__file__" in globals() else exec(open("/verif/tools/seeds/_fs.inc").read())
edits=[('pkg/cli/file_watcher.go', '\t\tdefer watcher.Close()\n\n', ''), ('pkg/cli/file_watcher.go', '\t\teventsWG.Wait()\n', '\t\teventsWG.Wait()\n\t\twatcher.Close()\n')]
needs='a file that cannot be watched'
breaks='the event loop is left running when the set-up fails'
demo=head+'''
func TestSeededDemo(t *testing.T) {
	f, clean := file(t)
	clean()
	if err := newFileWatcher(f).Watch(); err == nil {
		t.Fatal("no error")
	}
	if !gone() {
		t.Fatal("something is left running")
	}
}
'''
