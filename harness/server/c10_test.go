package server

import (
	"bytes"
	"fmt"
	"sync"
	"testing"
	"time"
)

func TestVP_C10(t *testing.T) {
	v := newVP(t)
	for i := 0; i < v.n(15); i++ {
		what := fmt.Sprintf("relaying, run %d", i)
		v.guard(func() string { return what }, func() { vpRelay(v, what) })
	}
	for i := 0; i < v.n(10); i++ {
		what := fmt.Sprintf("hanging up, run %d", i)
		v.guard(func() string { return what }, func() { vpHangup(v, what, i%4) })
	}
	for i := 0; i < v.n(16); i++ {
		what := fmt.Sprintf("interrupted, run %d", i)
		v.guard(func() string { return what }, func() { vpInterrupted(v, what, i%2 == 0) })
	}
	for i := 0; i < v.n(2); i++ {
		what := fmt.Sprintf("one direction stalled, run %d", i)
		v.guard(func() string { return what }, func() { vpStalled(v, what, i%2 == 0) })
	}
}

// both directions at once
func vpRelay(v *vp, what string) {
	p := v.established()
	if p == nil {
		return
	}
	defer p.close()
	toDB, toClient := v.messages(true, 1+v.r.Intn(300)), v.messages(false, 1+v.r.Intn(300))
	var gotDB, gotClient []byte
	var wg sync.WaitGroup
	for _, f := range []func(){
		func() { vpWrite(p.client, toDB) },
		func() { vpWrite(p.database, toClient) },
		func() { gotDB, _ = vpRead(p.database, len(toDB)) },
		func() { gotClient, _ = vpRead(p.client, len(toClient)) },
	} {
		f := f
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	wg.Wait()
	if !bytes.Equal(toDB, gotDB) {
		v.fail("%s: client to database: %s", what, vpDiff(toDB, gotDB))
	}
	if !bytes.Equal(toClient, gotClient) {
		v.fail("%s: database to client: %s", what, vpDiff(toClient, gotClient))
	}
}

// a write to (read from) the client fails in the middle of a message: nothing but the beginning arrives
func vpInterrupted(v *vp, what string, write bool) {
	at := 1 + v.r.Intn(120)
	p := v.establishedWith(func(c *vpConn, st int) {
		if write {
			c.cutWrite = at
		} else {
			c.cutRead = st + at
		}
	})
	if p == nil {
		return
	}
	defer p.close()
	if write {
		sent := v.messages(false, 20)
		vpWrite(p.database, sent)
		time.Sleep(3 * time.Millisecond)
		p.database.Close()
		if got, _ := vpRead(p.client, -1); !bytes.HasPrefix(sent, got) {
			v.fail("%s after %d bytes were written to the client, database to client: %s", what, at, vpDiff(sent, got))
		}
		return
	}
	sent := v.messages(true, 20)
	vpWrite(p.client, sent)
	time.Sleep(3 * time.Millisecond)
	p.client.Close()
	if got, _ := vpRead(p.database, -1); !bytes.HasPrefix(sent, got) {
		v.fail("%s after %d bytes were read from the client, client to database: %s", what, at, vpDiff(sent, got))
	}
}

// what has been sent before a party hangs up is delivered
func vpHangup(v *vp, what string, mode int) {
	p := v.established()
	if p == nil {
		return
	}
	defer p.close()
	fromClient := mode%2 == 0
	a, b := p.database, p.client
	if fromClient {
		a, b = p.client, p.database
	}
	sent := v.messages(fromClient, 1+v.r.Intn(200))
	var got []byte
	done := make(chan bool)
	go func() { got, _ = vpRead(b, -1); close(done) }()
	vpWrite(a, sent)
	if mode >= 2 {
		// hang up while there still may be something on the way
		a.Close()
	} else {
		time.Sleep(time.Duration(v.r.Intn(5)) * time.Millisecond)
		a.Close()
	}
	<-done
	if !bytes.Equal(sent, got) {
		v.fail("%s: what was sent (by the client: %v) before hanging up was not delivered: %s", what, fromClient, vpDiff(sent, got))
	}
	if err, ok := p.ended(vpPatience); !ok {
		v.fail("%s: the session does not end", what)
	} else if err == nil {
		v.fail("%s: the session ended without an error", what)
	}
}

// a party that does not read must not keep the other direction from working
func vpStalled(v *vp, what string, toDB bool) {
	p := v.established()
	if p == nil {
		return
	}
	defer p.close()
	a, b := p.database, p.client
	if toDB {
		a, b = p.client, p.database
	}
	flood := vpMsg('d', make([]byte, 60000))
	stop := make(chan bool)
	go func() {
		defer close(stop)
		for i := 0; i < 2000; i++ {
			_ = a.SetWriteDeadline(time.Now().Add(time.Second))
			if _, err := a.Write(flood); err != nil {
				return // stalled
			}
		}
	}()
	<-stop
	m := v.message(!toDB)
	vpWrite(b, m)
	if got, err := vpRead(a, len(m)); err != nil || !bytes.Equal(got, m) {
		v.fail("%s: a message is not relayed while the other direction (to the database: %v) is blocked: %v", what, toDB, err)
	}
}
