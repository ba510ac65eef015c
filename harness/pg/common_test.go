package pg

// Shared by the replays: an encoder that is independent of the code, generators of messages, frames and byte strings.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"testing"
	"time"

	"github.com/lib/pq/oid"
)

type vp struct {
	t     *testing.T
	r     *rand.Rand
	runs  int
	fails int
	tier  string
}

func newVP(t *testing.T) *vp {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	v := &vp{t: t, r: rand.New(rand.NewSource(seed*7919 + 17)), tier: os.Getenv("VERIF_TIER")}
	t.Cleanup(func() { fmt.Printf("VP-RUNS %d\n", v.runs) })
	return v
}

func (v *vp) n(quick int) int {
	if v.tier == "thorough" {
		return quick * 20
	}
	return quick
}

func (v *vp) fail(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	fmt.Printf("VP-FAIL %s\n", s)
	v.fails++
	v.t.Fail()
	if v.fails > 5 {
		v.t.FailNow()
	}
}

// guard reports a panic as a failure.
func (v *vp) guard(what func() string, f func()) {
	v.runs++
	defer func() {
		if e := recover(); e != nil {
			v.fail("%s: panic: %v at %s", what(), e, firstFrames())
		}
	}()
	f()
}

func firstFrames() string {
	b := debug.Stack()
	if len(b) > 1200 {
		b = b[:1200]
	}
	return string(bytes.ReplaceAll(b, []byte("\n"), []byte(" ")))
}

func e32(v int32) []byte   { b := make([]byte, 4); binary.BigEndian.PutUint32(b, uint32(v)); return b }
func e16(v int16) []byte   { b := make([]byte, 2); binary.BigEndian.PutUint16(b, uint16(v)); return b }
func eStr(s string) []byte { return append([]byte(s), 0) }
func join(bs ...[]byte) []byte {
	out := []byte{}
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}
func stdW(t byte, body []byte) []byte { return join([]byte{t}, e32(int32(len(body)+4)), body) }

// encode is the wire layout according to the PostgreSQL v3 protocol; ok is false for a type it does not know.
func encode(m Message) []byte {
	switch m := m.(type) {
	case *AuthenticationOkMessage:
		return stdW('R', e32(0))
	case *AuthenticationKerberosV5Message:
		return stdW('R', e32(2))
	case *AuthenticationCleartextPasswordMessage:
		return stdW('R', e32(3))
	case *AuthenticationMD5PasswordMessage:
		return stdW('R', join(e32(5), m.Salt[:]))
	case *AuthenticationSCMCredentialMessage:
		return stdW('R', e32(6))
	case *AuthenticationGSSMessage:
		return stdW('R', e32(7))
	case *AuthenticationGSSContinueMessage:
		return stdW('R', join(e32(8), m.Data))
	case *AuthenticationSSPIMessage:
		return stdW('R', e32(9))
	case *BackendKeyDataMessage:
		return stdW('K', join(e32(m.ProcessID), e32(m.Key)))
	case *CommandCompleteMessage:
		return stdW('C', eStr(m.Tag))
	case *DataRowMessage:
		b := e16(int16(len(m.Values)))
		for _, x := range m.Values {
			if x == nil {
				b = append(b, 255, 255, 255, 255)
			} else {
				b = append(append(b, e32(int32(len(x)))...), x...)
			}
		}
		return stdW('D', b)
	case *EmptyQueryResponseMessage:
		return stdW('I', nil)
	case *ErrorResponseMessage:
		return stdW('E', encFields(m.Fields))
	case *NoticeResponseMessage:
		return stdW('N', encFields(m.Fields))
	case *GenericMessage:
		return stdW(m.Type, m.Body)
	case *NegotiateProtocolVersionMessage:
		b := join(e32(m.SupportedProtocolVersion), e32(int32(len(m.UnrecognizedOptions))))
		for _, o := range m.UnrecognizedOptions {
			b = append(append(b, o...), 0)
		}
		return stdW('v', b)
	case *ParameterStatusMessage:
		return stdW('S', join(eStr(m.Name), eStr(m.Value)))
	case *PasswordMessage:
		return stdW('p', eStr(m.Password))
	case *QueryMessage:
		return stdW('Q', eStr(m.Query))
	case *ReadyForQueryMessage:
		return stdW('Z', []byte{byte(m.TxStatus)})
	case *RowDescriptionMessage:
		b := e16(int16(len(m.Fields)))
		for _, f := range m.Fields {
			b = append(b, join(eStr(f.Name), e32(int32(f.TableOID)), e16(f.ColumnIndex), e32(int32(f.DataTypeOID)), e16(f.DataTypeSize), e32(f.DataTypeModifier), e16(int16(f.Format)))...)
		}
		return stdW('T', b)
	case *TerminateMessage:
		return stdW('X', nil)
	case *StartupMessage:
		b := e32(m.ProtocolVersion)
		if m.ProtocolVersion != 80877103 {
			for _, p := range m.Parameters {
				b = append(b, join(eStr(p.Name), eStr(p.Value))...)
			}
			b = append(b, 0)
		}
		return join(e32(int32(len(b)+4)), b)
	}
	panic(fmt.Sprintf("%T", m))
}

func encFields(fs []*MessageField) []byte {
	var b []byte
	for _, f := range fs {
		b = append(append(append(b, byte(f.Type)), f.Value...), 0)
	}
	return append(b, 0)
}

type kind struct {
	name  string
	code  int // -1: startup
	gen   func(v *vp) Message
	parse func(f Frame) (Message, error)
}

func conv(m interface{}, err error) (Message, error) {
	if m == nil || reflect.ValueOf(m).Kind() == reflect.Ptr && reflect.ValueOf(m).IsNil() {
		return nil, err
	}
	return m.(Message), err
}

func (v *vp) str() string {
	n := 0
	if v.r.Intn(2000) == 0 {
		return string(bytes.Repeat([]byte{byte(1 + v.r.Intn(255))}, 1<<uint(9+v.r.Intn(9))+v.r.Intn(3)-1))
	}
	switch v.r.Intn(8) {
	case 0:
	case 1, 2:
		n = v.r.Intn(4)
	case 3, 4, 5, 6:
		n = v.r.Intn(20)
	default:
		n = v.r.Intn(700)
	}
	b := make([]byte, n)
	for i := range b {
		switch v.r.Intn(4) {
		case 0:
			b[i] = byte(1 + v.r.Intn(255))
		case 1:
			b[i] = []byte{255, 128, 1, '\n', ' ', '\\', '\''}[v.r.Intn(7)]
		default:
			b[i] = byte('a' + v.r.Intn(26))
		}
	}
	return string(b)
}

func (v *vp) bytes() []byte {
	switch v.r.Intn(5) {
	case 0:
		return []byte{}
	case 1:
		b := make([]byte, 1+v.r.Intn(3))
		return b
	}
	b := make([]byte, v.r.Intn([]int{4, 20, 300, 3000}[v.r.Intn(4)]))
	v.r.Read(b)
	return b
}

// small keeps messages with many elements short.
func (v *vp) small(n int) []byte {
	b := v.bytes()
	if n > 50 && len(b) > 8 {
		b = b[:8]
	}
	return b
}

func (v *vp) i32() int32 {
	switch v.r.Intn(5) {
	case 0:
		return []int32{0, 1, -1, 2147483647, -2147483648, 256, 255, 65536, 80877103, 196608, -2, 127, 128, 32768}[v.r.Intn(14)]
	case 1:
		return int32(v.r.Intn(300))
	}
	return int32(v.r.Uint32())
}
func (v *vp) i16() int16 {
	if v.r.Intn(3) == 0 {
		return []int16{0, 1, -1, 32767, -32768, 255, 256, 128}[v.r.Intn(8)]
	}
	return int16(v.r.Uint32())
}

func (v *vp) count() int {
	switch v.r.Intn(40) {
	case 0:
		return 255 + v.r.Intn(3)
	case 1:
		return 127 + v.r.Intn(3)
	case 2, 3, 4, 5, 6:
		return 0
	case 7:
		return 300 + v.r.Intn(400)
	}
	return v.r.Intn(12)
}

func (v *vp) fields() []*MessageField {
	var fs []*MessageField
	for i, n := 0, v.count(); i < n; i++ {
		fs = append(fs, &MessageField{Type: MessageFieldType(1 + v.r.Intn(255)), Value: v.str()})
	}
	return fs
}

// bigCounts makes messages with as many elements as their counter allows.
var bigCounts = []int{32767, 32766, 1024}

var kinds = []kind{
	{"AuthenticationOk", 'R', func(v *vp) Message { return &AuthenticationOkMessage{} }, parseAuth},
	{"AuthenticationKerberosV5", 'R', func(v *vp) Message { return &AuthenticationKerberosV5Message{} }, parseAuth},
	{"AuthenticationCleartextPassword", 'R', func(v *vp) Message { return &AuthenticationCleartextPasswordMessage{} }, parseAuth},
	{"AuthenticationSCMCredential", 'R', func(v *vp) Message { return &AuthenticationSCMCredentialMessage{} }, parseAuth},
	{"AuthenticationGSS", 'R', func(v *vp) Message { return &AuthenticationGSSMessage{} }, parseAuth},
	{"AuthenticationSSPI", 'R', func(v *vp) Message { return &AuthenticationSSPIMessage{} }, parseAuth},
	{"AuthenticationMD5Password", 'R', func(v *vp) Message {
		m := &AuthenticationMD5PasswordMessage{}
		v.r.Read(m.Salt[:])
		return m
	}, parseAuth},
	{"AuthenticationGSSContinue", 'R', func(v *vp) Message { return &AuthenticationGSSContinueMessage{Data: v.bytes()} }, parseAuth},
	{"BackendKeyData", 'K', func(v *vp) Message { return &BackendKeyDataMessage{v.i32(), v.i32()} }, func(f Frame) (Message, error) { return conv(ParseBackendKeyDataMessage(f)) }},
	{"CommandComplete", 'C', func(v *vp) Message { return &CommandCompleteMessage{v.str()} }, func(f Frame) (Message, error) { return conv(ParseCommandCompleteMessage(f)) }},
	{"DataRow", 'D', func(v *vp) Message {
		m := &DataRowMessage{}
		n := v.count()
		if v.r.Intn(300) == 0 {
			n = bigCounts[v.r.Intn(3)]
		}
		for i := 0; i < n; i++ {
			if v.r.Intn(4) == 0 {
				m.Values = append(m.Values, nil)
			} else if n > 1000 {
				m.Values = append(m.Values, []byte{byte(i)}[:i%2])
			} else {
				m.Values = append(m.Values, v.small(n))
			}
		}
		return m
	}, func(f Frame) (Message, error) { return conv(ParseDataRowMessage(f)) }},
	{"EmptyQueryResponse", 'I', func(v *vp) Message { return &EmptyQueryResponseMessage{} }, func(f Frame) (Message, error) { return conv(ParseEmptyQueryResponseMessage(f)) }},
	{"ErrorResponse", 'E', func(v *vp) Message { return &ErrorResponseMessage{v.fields()} }, func(f Frame) (Message, error) { return conv(ParseErrorResponseMessage(f)) }},
	{"NoticeResponse", 'N', func(v *vp) Message { return &NoticeResponseMessage{v.fields()} }, func(f Frame) (Message, error) { return conv(ParseNoticeResponseMessage(f)) }},
	{"Generic", -2, func(v *vp) Message { return &GenericMessage{byte(v.r.Intn(256)), v.bytes()} }, func(f Frame) (Message, error) { return conv(ParseGenericMessage(f)) }},
	{"NegotiateProtocolVersion", 'v', func(v *vp) Message {
		m := &NegotiateProtocolVersionMessage{SupportedProtocolVersion: v.i32()}
		n := v.count()
		if v.r.Intn(300) == 0 {
			n = 70000
		}
		for i := 0; i < n; i++ {
			if n > 1000 {
				m.UnrecognizedOptions = append(m.UnrecognizedOptions, "o")
				continue
			}
			m.UnrecognizedOptions = append(m.UnrecognizedOptions, v.str())
		}
		return m
	}, func(f Frame) (Message, error) { return conv(ParseNegotiateProtocolVersionMessage(f)) }},
	{"ParameterStatus", 'S', func(v *vp) Message { return &ParameterStatusMessage{v.str(), v.str()} }, func(f Frame) (Message, error) { return conv(ParseParameterStatusMessage(f)) }},
	{"Password", 'p', func(v *vp) Message { return &PasswordMessage{v.str()} }, func(f Frame) (Message, error) { return conv(ParsePasswordMessage(f)) }},
	{"Query", 'Q', func(v *vp) Message { return &QueryMessage{v.str()} }, func(f Frame) (Message, error) { return conv(ParseQueryMessage(f)) }},
	{"ReadyForQuery", 'Z', func(v *vp) Message { return &ReadyForQueryMessage{TxStatus(v.r.Intn(256))} }, func(f Frame) (Message, error) { return conv(ParseReadyForQueryMessage(f)) }},
	{"RowDescription", 'T', func(v *vp) Message {
		m := &RowDescriptionMessage{}
		n := v.count()
		if v.r.Intn(300) == 0 {
			n = bigCounts[v.r.Intn(3)]
		}
		for i := 0; i < n; i++ {
			f := &FieldDescriptor{Name: "c", TableOID: oid.Oid(uint32(v.i32())), ColumnIndex: v.i16(), DataTypeOID: oid.Oid(uint32(v.i32())), DataTypeSize: v.i16(), DataTypeModifier: v.i32(), Format: DataFormat(v.i16())}
			if n < 1000 {
				f.Name = v.str()
			}
			m.Fields = append(m.Fields, f)
		}
		return m
	}, func(f Frame) (Message, error) { return conv(ParseRowDescriptionMessage(f)) }},
	{"Terminate", 'X', func(v *vp) Message { return &TerminateMessage{} }, func(f Frame) (Message, error) { return conv(ParseTerminateMessage(f)) }},
	{"Startup", -1, func(v *vp) Message {
		m := &StartupMessage{ProtocolVersion: 196608}
		if v.r.Intn(3) == 0 {
			m.ProtocolVersion = v.i32()
		}
		if m.ProtocolVersion != 80877103 {
			for i, n := 0, v.count(); i < n; i++ {
				s := v.str()
				if s == "" {
					s = "database"
				}
				m.Parameters = append(m.Parameters, &StartupMessageParameter{s, v.str()})
			}
		}
		return m
	}, func(f Frame) (Message, error) { return conv(ParseStartupMessage(f)) }},
}

func parseAuth(f Frame) (Message, error) {
	m, err := ParseAuthenticationRequestMessage(f)
	if m == nil {
		return nil, err
	}
	return m, err
}

// clone copies a message so that changes to it can be seen.
func clone(m Message) Message {
	return deep(reflect.ValueOf(m)).Interface().(Message)
}

func deep(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deep(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deep(v.Index(i)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			n.Field(i).Set(deep(v.Field(i)))
		}
		return n
	}
	return v
}

// same: equal in every field; only rows distinguish a missing value from an empty one.
func same(a, b Message) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if x, ok := a.(*DataRowMessage); ok {
		y := b.(*DataRowMessage)
		if len(x.Values) != len(y.Values) {
			return false
		}
		for i := range x.Values {
			if (x.Values[i] == nil) != (y.Values[i] == nil) || !bytes.Equal(x.Values[i], y.Values[i]) {
				return false
			}
		}
		return true
	}
	return eqVal(reflect.ValueOf(a), reflect.ValueOf(b))
}

func eqVal(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eqVal(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eqVal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !eqVal(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}

func show(m Message) string {
	s := fmt.Sprintf("%+v", m)
	b := encode(m)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return fmt.Sprintf("%T%s (wire %s)", m, s, hexs(b))
}

func hexs(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x...(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func frameOf(k kind, wire []byte) Frame {
	if k.code == -1 {
		return StartupFrame(wire)
	}
	return StandardFrame(wire)
}

// mutate damages the bytes of a frame's body and fixes the length of the header.
func (v *vp) mutate(k kind, wire []byte) []byte {
	h := 5
	if k.code == -1 {
		h = 4
	}
	body := append([]byte{}, wire[h:]...)
	for i, n := 0, 1+v.r.Intn(2); i < n; i++ {
		switch v.r.Intn(7) {
		case 0:
			if len(body) > 0 {
				body = body[:v.r.Intn(len(body))]
			}
		case 1:
			body = append(body, v.bytes()...)
		case 2:
			body = append(body, 0)
		case 3:
			if len(body) > 0 {
				body[v.r.Intn(len(body))] ^= byte(1 << uint(v.r.Intn(8)))
			}
		case 4: // a count or a length
			if len(body) >= 4 {
				copy(body[v.r.Intn(min2(len(body)-3, 12)):], e32(v.i32()))
			}
		case 5:
			if len(body) >= 2 {
				copy(body[v.r.Intn(min2(len(body)-1, 4)):], e16(v.i16()))
			}
		case 6:
			if len(body) > 0 {
				j := v.r.Intn(len(body))
				body = append(body[:j], body[min2(j+1+v.r.Intn(4), len(body)):]...)
			}
		}
	}
	if h == 4 {
		return join(e32(int32(len(body)+4)), body)
	}
	t := wire[0]
	if v.r.Intn(8) == 0 {
		t = byte(v.r.Intn(256))
	}
	return stdW(t, body)
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// within runs f and reports whether it ended in time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}
