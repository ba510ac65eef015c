exec(open("/verif/tools/seeds/_srv.inc").read())
id="c19-wg-inside"; prop="C19"; pkg="server"
edits=[("pkg/server/server.go","""	srv.wg.Add(1)

	go func() {
		defer srv.wg.Done()
		f()
	}()
""","""	go func() {
		srv.wg.Add(1)
		defer srv.wg.Done()
		f()
	}()
""")]
needs="Close comes between the creation of a goroutine and its first step"
breaks="Close does not wait for a goroutine of the server"
demo=COMMON+'''
func TestSeededDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		srv := NewServer(&demoStore{})
		running := make(chan struct{})
		_ = srv.do(func() { time.Sleep(50 * time.Microsecond); close(running) })
		srv.Close()
		select {
		case <-running:
		default:
			t.Fatalf("run %d: Close returned while a goroutine of the server was running", i)
		}
	}
}
'''
