package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Goroutines that are joined within the function that starts them: a goroutine that is registered with a wait group in a
// local variable may write the local variables that it captures until it reports that it is done; the one that started it
// gets them back, as they were then, when it has waited. Afterwards nobody writes them anymore.

// doneRec is the state of a goroutine when it reports that it is done.
type doneRec struct {
	wg *Term
	st *State
}

// wgOf finds the wait group of an intrinsic.
func (x *Exec) wgOf(st *State, v Val) (ref *Term, cls, fld string, local, ok bool) {
	if pv, is := v.(*PtrVal); is && len(pv.path) == 0 && typeName(st.obj(pv.obj).t) == "sync.WaitGroup" {
		return fn("localwg", sInt, num(int64(pv.obj))), "", "", true, true
	}
	ref, cls, fld, ok = x.lockOf(st, v)
	return
}

// reach collects the local objects that are reachable.
func (x *Exec) reach(st *State, v Val, seen map[int]bool) {
	switch a := v.(type) {
	case *PtrVal:
		if seen[a.obj] {
			return
		}
		seen[a.obj] = true
		x.reach(st, st.obj(a.obj).v, seen)
	case *FuncVal:
		for _, b := range a.bind {
			x.reach(st, b, seen)
		}
	case *StructVal:
		for _, f := range a.fs {
			x.reach(st, f, seen)
		}
	case *IfaceVal:
		x.reach(st, a.v, seen)
	}
}

// lendable lists the local variables that a goroutine may write: it is registered with a local wait group.
func (x *Exec) lendable(st *State, vs ...Val) (objs []int, wgs []*Term) {
	seen := map[int]bool{}
	for _, v := range vs {
		x.reach(st, v, seen)
	}
	for id := range seen {
		o := st.obj(id)
		if typeName(o.t) == "sync.WaitGroup" {
			ref := fn("localwg", sInt, num(int64(id)))
			if x.hasTok(st, wgTok(len(x.threads)), ref) {
				wgs = append(wgs, ref)
			}
			continue
		}
		if _, op := o.v.(*OpaqueVal); op || o.ref != nil || o.backing || o.kind == "map" || o.lent {
			continue
		}
		if !o.frozen {
			objs = append(objs, id)
		}
	}
	sort.Ints(objs)
	if len(wgs) == 0 {
		return nil, nil
	}
	return objs, wgs
}

// wrote notes a write to a lent variable.
func (x *Exec) wrote(o *Obj) {
	if o.lend > 0 && o.lend <= len(x.threads) {
		x.threads[o.lend-1].wrote[o.id] = true
	}
}

func (x *Exec) localDone(st *State, ref *Term, p token.Pos) bool {
	own := wgTok(len(x.threads))
	if x.hasTok(st, own, ref) {
		return x.takeTok(st, own, ref, p, "(*sync.WaitGroup).Done")
	}
	if !x.takeTok(st, wgTok(len(x.threads)-1), ref, p, "(*sync.WaitGroup).Done") {
		return false
	}
	st.perms["wgdone"] = true
	th := x.threads[len(x.threads)-1]
	for _, id := range sortedObjs(st) {
		if o := st.obj(id); o.lend == len(x.threads) {
			m := st.mut(id)
			m.lend = 0
			m.frozen = true
		}
	}
	if x.dry == th.dry {
		th.dones = append(th.dones, doneRec{ref, st.snapshot()})
	}
	return true
}

func sortedObjs(st *State) []int {
	var ids []int
	for id := range st.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

func (x *Exec) localWait(st *State, ref *Term, p token.Pos, k cont) {
	if len(st.locks) > 0 {
		x.fail(st, "locks", "no lock is held while waiting for goroutines", p)
		return
	}
	if x.hasTok(st, wgTok(len(x.threads)), ref) {
		x.fail(st, "thread", "the goroutine that is waited for has been started", p)
		return
	}
	x.joinAll(st, st.joins[ref], ref, p, k)
}

func (x *Exec) joinAll(st *State, ths []*Thread, ref *Term, p token.Pos, k cont) {
	if len(ths) == 0 {
		k(st, nil)
		return
	}
	th := ths[0]
	loop := false
	for _, d := range th.dones {
		loop = loop || d.wg == ref && d.st.perms["fsrecv"]
	}
	if loop {
		// the event loop runs until it is stopped
		for _, key := range sortedNames(st.perms) {
			if strings.HasPrefix(key, fmt.Sprintf("wgtask%d:", len(x.threads)-1)) && x.permTerm[key].op == "localwg" {
				x.fail(st, "thread", "the caller is not kept waiting while the event loop runs", p)
				return
			}
		}
		if len(x.threads) == 0 {
			x.fail(st, "thread", "the caller is not kept waiting while the event loop runs", p)
			return
		}
		x.oblige(st, "thread", "the event loop that is waited for has something to watch", p, eq(st.ghostSel("fsres", num(0)), num(0)))
		if st.killed {
			return
		}
	}
	for _, d := range th.dones {
		if d.wg != ref {
			continue
		}
		c := st.clone()
		x.join(c, th, d.st)
		if c.killed {
			continue
		}
		x.joinAll(c, ths[1:], ref, p, k)
	}
}

// join continues after the goroutine has been in the state r.
func (x *Exec) join(c *State, th *Thread, r *State) {
	var pcs []*PC
	for pc := r.pc; pc != nil && pc != th.start.pc; pc = pc.up {
		pcs = append(pcs, pc)
	}
	for i := len(pcs) - 1; i >= 0; i-- {
		if pcs[i].cand != nil {
			c.assumeCand(pcs[i].t, pcs[i].cand)
		} else {
			c.assume(pcs[i].t)
		}
	}
	c.tick()
	c.assume(le(r.now(), c.now()))
	for id, o := range r.objs {
		if c.objs[id] == nil {
			n := o.clone()
			n.frozen = true
			c.objs[id] = n
			continue
		}
		if th.wrote[id] {
			n := o.clone()
			n.frozen = true
			n.lend = 0
			c.objs[id] = n
		}
	}
	for _, key := range sortedHeap(r.heap) {
		v := r.heap[key]
		was := th.start.heap[key]
		if was == v {
			continue
		}
		cur := c.heap[key]
		if cur == was || cur == nil {
			if was == nil && initialHeap(v) == v {
				continue
			}
			c.heap[key] = v
			continue
		}
		x.havocHeap(c, key)
	}
}

func sortedHeap(m map[string]*Term) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- fsnotify

func fsField(ch *Term) string {
	if id, ok := fldOwner[ch.op]; ok && len(ch.args) == 1 && typeName(id.t) == "fsnotify.Watcher" {
		return under(id.t).(*types.Struct).Field(id.i).Name()
	}
	return ""
}

// stopChan: the channel in the field that StopWatch closes.
func (x *Exec) stopChan(st *State) *Term {
	f := x.con.flags["stopchan"]
	if f == "" {
		return nil
	}
	for _, n := range sortedParams(x.params) {
		pv, ok := x.params[n].v.(*PtrVal)
		if !ok {
			continue
		}
		o := st.obj(pv.obj)
		sv, ok := o.v.(*StructVal)
		if !ok || o.lent {
			continue
		}
		stt := under(sv.t).(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == f {
				if t, ok := sv.fs[i].(*Term); ok {
					return t
				}
			}
		}
	}
	return nil
}

func sortedParams(m map[string]SV) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// fsCallbackField names the callback, if the function is one.
func (x *Exec) fsCallbackField(st *State, f *Term) string {
	if x.con == nil || x.con.flags["stopchan"] == "" {
		return ""
	}
	for _, n := range sortedParams(x.params) {
		pv, ok := x.params[n].v.(*PtrVal)
		if !ok {
			continue
		}
		sv, ok := st.obj(pv.obj).v.(*StructVal)
		if !ok {
			continue
		}
		stt := under(sv.t).(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if sv.fs[i] == Val(f) {
				return stt.Field(i).Name()
			}
		}
	}
	return ""
}

var fsCallbacks = []string{"OnCreate", "OnWrite", "OnRemove"}

// fsDue is the number of the callback of an event.
func (x *Exec) fsDue(st *State, ev Val) *Term {
	sv, ok := ev.(*StructVal)
	if !ok {
		return nil
	}
	stt := under(sv.t).(*types.Struct)
	var op *Term
	var opt types.Type
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == "Op" {
			op = sv.fs[i].(*Term)
			opt = stt.Field(i).Type()
		}
	}
	due := num(0)
	for i := len(fsCallbacks) - 1; i >= 0; i-- {
		set := tFalse
		for _, n := range sortedParams(x.params) {
			pv, ok := x.params[n].v.(*PtrVal)
			if !ok {
				continue
			}
			wv, ok := st.obj(pv.obj).v.(*StructVal)
			if !ok {
				continue
			}
			wt := under(wv.t).(*types.Struct)
			for j := 0; j < wt.NumFields(); j++ {
				if wt.Field(j).Name() == fsCallbacks[i] {
					if t, ok := wv.fs[j].(*Term); ok {
						set = not(eq(t, num(0)))
					}
				}
			}
		}
		bit := andMask(st, op, num(int64(1)<<uint(i)), opt)
		due = ite(not(eq(bit, num(0))), ite(set, num(int64(i+1)), num(0)), due)
	}
	return due
}

// fsRecv receives from a channel of the event loop.
func (x *Exec) fsRecv(st *State, ch *Term, t types.Type, p token.Pos, k func(*State, Val, *Term)) bool {
	f := fsField(ch)
	stop := x.stopChan(st)
	if f == "" && (stop == nil || ch != stop || isNilConst(ch)) {
		return false
	}
	if n := len(x.threads); n > 0 {
		x.threads[n-1].fs = true
		st.perms["fsrecv"] = true
	}
	st.tick()
	x.oblige(st, "thread", "nothing is received after the watcher was stopped or has failed", p, not(st.ghostSel("fsend", num(0))))
	x.oblige(st, "thread", "every event is handled before the next one", p, eq(st.ghostSel("fsdue", num(0)), num(0)))
	if st.killed {
		return true
	}
	et := chanElem(t)
	st2 := st.clone()
	v := x.symbolic(st, "recv", et)
	if tv, ok := v.(*Term); ok && f == "Errors" {
		st.assume(not(eq(tv, num(0))))
	}
	if f == "Events" {
		due := x.fsDue(st, v)
		if due == nil {
			x.unmodelled(st, "file event of an unknown form", p)
			return true
		}
		st.ghostStore("fsdue", num(0), due)
	} else {
		st.ghostStore("fsend", num(0), tTrue)
	}
	k(st, v, tTrue)
	st2.ghostStore("fsend", num(0), tTrue)
	k(st2, x.zero(st2, et), tFalse)
	return true
}

// fsSelect: who waits for events also waits for errors and for being stopped.
func (x *Exec) fsSelect(st *State, chans []*Term, p token.Pos) {
	stop := x.stopChan(st)
	ev, er, sp := false, false, false
	var w [2]*Term
	for _, c := range chans {
		switch fsField(c) {
		case "Events":
			ev, w[0] = true, c.args[0]
		case "Errors":
			er, w[1] = true, c.args[0]
		}
		sp = sp || stop != nil && c == stop && !isNilConst(c)
	}
	if !ev || x.dry > 0 {
		return
	}
	if !er || w[0] != w[1] {
		x.emit(st, "thread", "an error of the underlying watcher ends the event loop", p, tFalse)
	}
	if !sp {
		x.emit(st, "thread", "stopping the watcher ends the event loop", p, tFalse)
	}
}

func fsIntrinsics() map[string]intrinsic {
	for n, d := range map[string]ghostDecl{
		"fsres":  {"g:fsres", sInt},
		"fsadds": {"g:fsadds", sInt},
		"fspath": {"g:fspath", sBy},
		"fsend":  {"g:fsend", sBool},
		"fsdue":  {"g:fsdue", sInt},
	} {
		ghostArrays[n] = d
	}
	late := func(x *Exec, st *State, p token.Pos) bool {
		if st.perms["wgdone"] {
			x.fail(st, "thread", "watching is set up before the caller goes on", p)
			return true
		}
		return false
	}
	return map[string]intrinsic{
		"fsnotify.NewWatcher": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			if late(x, st, p) {
				return
			}
			st2 := st.clone()
			w := x.newRef("fswatcher")
			x.freshRef(st, w)
			st.ghostStore("fsend", num(0), tFalse)
			st.ghostStore("fsdue", num(0), num(0))
			st.ghostStore("fsres", num(0), x.newRef("notadded"))
			x.grant(st, "fswatch", w)
			k(st, []Val{w, num(0)})
			e := fresh("fserr", sInt)
			st2.assume(not(eq(e, num(0))))
			st2.ghostStore("fsres", num(0), e)
			k(st2, []Val{num(0), e})
		},
		"(*fsnotify.Watcher).Add": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			if late(x, st, p) {
				return
			}
			w, ok := args[0].(*Term)
			if !ok {
				x.unmodelled(st, "Add of an unknown watcher", p)
				return
			}
			x.oblige(st, "nil", "(*fsnotify.Watcher).Add", p, not(eq(w, num(0))))
			if !x.useTok(st, "fswatch", w, p, "Add") {
				return
			}
			st.ghostStore("fspath", num(0), args[1].(*Term))
			st2 := st.clone()
			st.ghostStore("fsres", num(0), num(0))
			st.ghostStore("fsadds", num(0), add(st.ghostSel("fsadds", num(0)), num(1)))
			k(st, []Val{num(0)})
			e := fresh("fserr", sInt)
			st2.assume(not(eq(e, num(0))))
			st2.ghostStore("fsres", num(0), e)
			k(st2, []Val{e})
		},
		"(*fsnotify.Watcher).Close": func(x *Exec, st *State, args []Val, rts []types.Type, p token.Pos, k cont) {
			w, ok := args[0].(*Term)
			if !ok {
				x.unmodelled(st, "Close of an unknown watcher", p)
				return
			}
			x.oblige(st, "nil", "(*fsnotify.Watcher).Close", p, not(eq(w, num(0))))
			if v, ok := st.known(st.happened("shut", w)); !ok || !v {
				x.oblige(st, "thread", "the watcher is closed when the event loop has ended or there is none", p, or(not(eq(st.ghostSel("fsres", num(0)), num(0))), st.ghostSel("fsend", num(0))))
				if st.killed || !x.takeTok(st, "fswatch", w, p, "Close") {
					return
				}
				x.setGhost(st, "shut", w)
			}
			e := fresh("closeerr", sInt)
			k(st, []Val{e})
		},
	}
}

// fsCall runs a callback of the watcher.
func (x *Exec) fsCall(st *State, f *Term, p token.Pos, k cont) bool {
	n := x.fsCallbackField(st, f)
	if n == "" {
		return false
	}
	for i, c := range fsCallbacks {
		if c == n {
			x.oblige(st, "callback", n+" is called for an event of its own that has not been handled", p, eq(st.ghostSel("fsdue", num(0)), num(int64(i+1))))
			if st.killed {
				return true
			}
			st.ghostStore("fsdue", num(0), num(0))
			st.tick()
			k(st, nil)
			return true
		}
	}
	return false
}
