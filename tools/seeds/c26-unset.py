id='c26-unset'; prop="C26"; pkg="cli"
exec(open(__file__.rsplit("/",1)[0]+"/_fs.inc").read()) if "__file__" in globals() else exec(open("/verif/tools/seeds/_fs.inc").read())
edits=[('pkg/cli/file_watcher.go', '\t\t\t\t\tcase event.Op&fsnotify.Create != 0:\n\t\t\t\t\t\tif w.OnCreate != nil {\n\t\t\t\t\t\t\tw.OnCreate()\n\t\t\t\t\t\t}\n', '\t\t\t\t\tcase event.Op&fsnotify.Create != 0 && w.OnCreate != nil:\n\t\t\t\t\t\tw.OnCreate()\n')]
needs='an event that includes a creation and a write, without a creation callback'
breaks='the write callback is called for a creation'
demo=head+'''
func TestSeededDemo(t *testing.T) {
	want(t, calls(t, "write remove", fsnotify.Create|fsnotify.Write, fsnotify.Write), "write")
}
'''
