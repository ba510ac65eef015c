id='c26-rename'; prop="C26"; pkg="cli"
exec(open(__file__.rsplit("/",1)[0]+"/_fs.inc").read()) if "__file__" in globals() else exec(open("/verif/tools/seeds/_fs.inc").read())
edits=[('pkg/cli/file_watcher.go', '\t\t\t\t\tcase event.Op&fsnotify.Remove != 0:', '\t\t\t\t\tcase event.Op&(fsnotify.Remove|fsnotify.Rename) != 0:')]
needs='a renamed file'
breaks='the removal callback is called for an event that is no removal'
demo=head+'''
func TestSeededDemo(t *testing.T) {
	want(t, calls(t, "create write remove", fsnotify.Rename, fsnotify.Remove), "remove")
}
'''
