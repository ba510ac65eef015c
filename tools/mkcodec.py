#!/usr/bin/env python3
"""Writes contracts/messages.gv: the wire layout of every message type and the contracts of its two functions.

The layouts are transcribed from the PostgreSQL v3 protocol documentation (chapter "Message Formats").
"""
out = []
w = out.append
w("// Generated by tools/mkcodec.py. Contracts of the message types (C01, C02, C03, C04).")
w("")

# name, type byte, parser, body(m), wfm(m), valid(m0), equality, invariants
#   body:  wire layout of the body
#   wfm:   what serialising needs (no nil elements)
#   valid: the wire limits of the round trip
#   equal: equality of the parsed message with the original
M = []
def msg(name, code, body, wfm="true", valid="true", equal="true", inv=(), parser=None, rinv=(), finv=(), minlen=None):
    M.append(dict(name=name, code=code, body=body, wfm=wfm, valid=valid, equal=equal, inv=inv, parser=parser, rinv=rinv, finv=finv))

def elems(lst, n=None):
    return f"forall(i, 0, len({lst}), {lst}[i] != nil)"

# authentication requests
auth = dict(Ok=0, KerberosV5=2, CleartextPassword=3, SCMCredential=6, GSS=7, SSPI=9)
for n, c in auth.items():
    msg(f"Authentication{n}Message", "'R'", f"be32({c})", parser="auth")
msg("AuthenticationMD5PasswordMessage", "'R'", "cat(be32(5), m.Salt)", parser="auth", equal="m.Salt == m0.Salt")
msg("AuthenticationGSSContinueMessage", "'R'", "cat(be32(8), m.Data)", parser="auth", equal="m.Data == m0.Data")

msg("BackendKeyDataMessage", "'K'", "cat(be32(u32(m.ProcessID)), be32(u32(m.Key)))", equal="m.ProcessID == m0.ProcessID && m.Key == m0.Key")
msg("CommandCompleteMessage", "'C'", "cat(m.Tag, unit(0))", valid="!hasNul(m0.Tag)", equal="m.Tag == m0.Tag")
msg("DataRowMessage", "'D'", "cat(be16(u16(len(m.Values))), rowsWire(m.Values))",
    valid="len(m0.Values) <= 32767 && forall(i, 0, len(m0.Values), len(m0.Values[i]) <= 2147483647)",
    equal="len(m.Values) == len(m0.Values) && forall(i, 0, len(m.Values), isnil(m.Values[i]) == isnil(m0.Values[i]) && m.Values[i] == m0.Values[i])",
    inv=["(k int, vs [][]byte, b pg.ReadBuffer) mbody(frame) == cat(be16(u16(len(vs))), rowsWire(vs[:k]), b)",
         "(k int, vs [][]byte, b pg.ReadBuffer) len(vs) <= 32767 && forall(i, k, len(vs), isnil(vs[i]))",
         "(vs [][]byte, b pg.ReadBuffer) mbody(frame) == cat(mbody(frame)[:2], rowsWire(vs), b)",
         "(k int, vs [][]byte) len(vs) == k"],
    rinv=["(k int, b pg.ReadBuffer) b == rowsWire(m0.Values[k:]) && k <= len(m0.Values)",
          "(k int, vs [][]byte) forall(i, 0, k, isnil(vs[i]) == isnil(m0.Values[i]) && vs[i] == m0.Values[i])"],
    finv=["(k int, b pg.WriteBuffer) b == cat(be16(u16(len(m.Values))), rowsWire(m.Values[:k])) && k <= len(m.Values)"])
msg("EmptyQueryResponseMessage", "'I'", "empty()")
for n, c in (("Error", "'E'"), ("Notice", "'N'")):
    msg(f"{n}ResponseMessage", c, "cat(fieldsWire(m.Fields), unit(0))", wfm=elems("m.Fields"),
        valid="forall(i, 0, len(m0.Fields), m0.Fields[i].Type != 0 && !hasNul(m0.Fields[i].Value))",
        equal="len(m.Fields) == len(m0.Fields) && forall(i, 0, len(m.Fields), m.Fields[i].Type == m0.Fields[i].Type && m.Fields[i].Value == m0.Fields[i].Value)",
        inv=["(fs []*pg.MessageField, b pg.ReadBuffer) mbody(frame) == cat(fieldsWire(fs), b)",
             "(fs []*pg.MessageField) forall(i, 0, len(fs), fs[i] != nil)"],
        rinv=["(fs []*pg.MessageField, b pg.ReadBuffer) len(fs) <= len(m0.Fields) && b == cat(fieldsWire(m0.Fields[len(fs):]), unit(0))",
              "(fs []*pg.MessageField) len(fs) <= len(m0.Fields) && forall(i, 0, len(fs), fs[i].Type == m0.Fields[i].Type && fs[i].Value == m0.Fields[i].Value)"],
        finv=["(k int, b pg.WriteBuffer) b == fieldsWire(m.Fields[:k]) && k <= len(m.Fields)"])
msg("GenericMessage", "m.Type", "m.Body", equal="m.Type == m0.Type && m.Body == m0.Body")
msg("NegotiateProtocolVersionMessage", "'v'", "cat(be32(u32(m.SupportedProtocolVersion)), be32(u32(len(m.UnrecognizedOptions))), stringsWire(m.UnrecognizedOptions))",
    valid="len(m0.UnrecognizedOptions) <= 2147483647 && forall(i, 0, len(m0.UnrecognizedOptions), !hasNul(m0.UnrecognizedOptions[i]))",
    equal="m.SupportedProtocolVersion == m0.SupportedProtocolVersion && len(m.UnrecognizedOptions) == len(m0.UnrecognizedOptions) && forall(i, 0, len(m.UnrecognizedOptions), m.UnrecognizedOptions[i] == m0.UnrecognizedOptions[i])",
    inv=["(k int, vs []string, b pg.ReadBuffer) mbody(frame) == cat(mbody(frame)[:8], stringsWire(vs[:k]), b)",
         "(vs []string, b pg.ReadBuffer) mbody(frame) == cat(mbody(frame)[:8], stringsWire(vs), b)",
         "(k int, vs []string) len(vs) == k"],
    rinv=["(k int, b pg.ReadBuffer) b == stringsWire(m0.UnrecognizedOptions[k:]) && k <= len(m0.UnrecognizedOptions)",
          "(k int, vs []string) forall(i, 0, k, vs[i] == m0.UnrecognizedOptions[i])"],
    finv=["(k int, b pg.WriteBuffer) b == cat(be32(u32(m.SupportedProtocolVersion)), be32(u32(len(m.UnrecognizedOptions))), stringsWire(m.UnrecognizedOptions[:k])) && k <= len(m.UnrecognizedOptions)"])
msg("ParameterStatusMessage", "'S'", "cat(m.Name, unit(0), m.Value, unit(0))", valid="!hasNul(m0.Name) && !hasNul(m0.Value)", equal="m.Name == m0.Name && m.Value == m0.Value")
msg("PasswordMessage", "'p'", "cat(m.Password, unit(0))", valid="!hasNul(m0.Password)", equal="m.Password == m0.Password")
msg("QueryMessage", "'Q'", "cat(m.Query, unit(0))", valid="!hasNul(m0.Query)", equal="m.Query == m0.Query")
msg("ReadyForQueryMessage", "'Z'", "unit(m.TxStatus)", equal="m.TxStatus == m0.TxStatus")
F = "Name TableOID ColumnIndex DataTypeOID DataTypeSize DataTypeModifier Format".split()
feq = lambda a, b: " && ".join(f"{a}.{f} == {b}.{f}" for f in F)
msg("RowDescriptionMessage", "'T'", "cat(be16(u16(len(m.Fields))), descsWire(m.Fields))", wfm=elems("m.Fields"),
    valid="len(m0.Fields) <= 32767 && forall(i, 0, len(m0.Fields), !hasNul(m0.Fields[i].Name))",
    equal=f"len(m.Fields) == len(m0.Fields) && forall(i, 0, len(m.Fields), {feq('m.Fields[i]', 'm0.Fields[i]')})",
    inv=["(k int, fs []*pg.FieldDescriptor, b pg.ReadBuffer) mbody(frame) == cat(be16(u16(len(fs))), descsWire(fs[:k]), b)",
         "(k int, fs []*pg.FieldDescriptor) len(fs) <= 32767 && forall(i, 0, k, fs[i] != nil)",
         "(fs []*pg.FieldDescriptor, b pg.ReadBuffer) mbody(frame) == cat(mbody(frame)[:2], descsWire(fs), b)",
         "(k int, fs []*pg.FieldDescriptor) len(fs) == k"],
    rinv=["(k int, b pg.ReadBuffer) b == descsWire(m0.Fields[k:]) && k <= len(m0.Fields)",
          f"(k int, fs []*pg.FieldDescriptor) forall(i, 0, k, {feq('fs[i]', 'm0.Fields[i]')})"],
    finv=["(k int, b pg.WriteBuffer) b == cat(be16(u16(len(m.Fields))), descsWire(m.Fields[:k])) && k <= len(m.Fields)"])
msg("TerminateMessage", "'X'", "empty()")
msg("StartupMessage", "", "ite(m.ProtocolVersion == 80877103, be32(u32(m.ProtocolVersion)), cat(be32(u32(m.ProtocolVersion)), paramsWire(m.Parameters), unit(0)))",
    wfm=elems("m.Parameters"),
    valid="ite(m0.ProtocolVersion == 80877103, len(m0.Parameters) == 0, forall(i, 0, len(m0.Parameters), !hasNul(m0.Parameters[i].Name) && !hasNul(m0.Parameters[i].Value) && len(m0.Parameters[i].Name) > 0))",
    equal="m.ProtocolVersion == m0.ProtocolVersion && len(m.Parameters) == len(m0.Parameters) && forall(i, 0, len(m.Parameters), m.Parameters[i].Name == m0.Parameters[i].Name && m.Parameters[i].Value == m0.Parameters[i].Value)",
    inv=["(fs []*pg.StartupMessageParameter, b pg.ReadBuffer) mbody(frame) == cat(mbody(frame)[:4], paramsWire(fs), b)",
         "(fs []*pg.StartupMessageParameter) forall(i, 0, len(fs), fs[i] != nil)"],
    rinv=["(fs []*pg.StartupMessageParameter, b pg.ReadBuffer) len(fs) <= len(m0.Parameters) && b == cat(paramsWire(m0.Parameters[len(fs):]), unit(0))",
          "(fs []*pg.StartupMessageParameter) len(fs) <= len(m0.Parameters) && forall(i, 0, len(fs), fs[i].Name == m0.Parameters[i].Name && fs[i].Value == m0.Parameters[i].Value)"],
    finv=["(k int, b pg.WriteBuffer) b == cat(be32(u32(m.ProtocolVersion)), paramsWire(m.Parameters[:k])) && k <= len(m.Parameters)"])

ALLOC = "1048576 + 64*len(mbody(frame))"
for d in M:
    n = d["name"]
    w(f"// ---- {n}")
    w(f"spec body{n}(m *pg.{n}) = {d['body']}")
    w(f"spec wf{n}(m *pg.{n}) = m != nil && {d['wfm']}")
    std = d["code"] != ""
    wire = f"stdWire({d['code']}, body{n}(m))" if std else f"startWire(body{n}(m))"
    w(f"conform *pg.{n} pg.Message (m)")
    w(f"  eq wire(m) == {wire}")
    w(f"  eq wfm(m) == wf{n}(m)")
    w(f"func (*pg.{n}).Frame(m) (f)")
    w(f"  props C01")
    w(f"  requires shape: wfm(m)")
    w(f"  ensures layout: mbytes(f) == wire(m)")
    w(f"  ensures frame: f != nil && wff(f) && typeof(f, pg.{'Standard' if std else 'Startup'}Frame)")
    w(f"  ensures parts: mtype(f) == {d['code'] if std else 0} && mbody(f) == body{n}(m)")
    for i in d["finv"]:
        w(f"  invariant {i}")
    if d["parser"] == "auth":
        w("")
        continue
    w(f"func pg.Parse{n}(frame) (m, err)")
    w(f"  flag terminates")
    w(f"  flag alloc {ALLOC}")
    w(f"  props C03,C04")
    w(f"  requires frame: frame != nil && wff(frame)")
    if std and n != "GenericMessage":
        w(f"  ensures type: implies(err == nil, mtype(frame) == {d['code']})")
    elif n == "GenericMessage":
        w(f"  ensures accepts: err == nil")
        w(f"  ensures type: mtype(frame) == m.Type")
    w(f"  ensures exact: implies(err == nil, wf{n}(m) && mbody(frame) == body{n}(m))")
    w(f"  ensures either: implies(err != nil, m == nil)")
    if std:
        w(f"  ensures reserialise: implies(err == nil && mbytes(frame) == stdWire(mtype(frame), mbody(frame)), stdWire({d['code']}, body{n}(m)) == mbytes(frame))")
    else:
        w(f"  ensures reserialise: implies(err == nil && mbytes(frame) == startWire(mbody(frame)), startWire(body{n}(m)) == mbytes(frame))")
    for i in d["inv"]:
        w(f"  invariant {i}")
    w(f"behavior roundtrip(m0 *pg.{n}) [C02]")
    w(f"  assumes wf{n}(m0) && {d['valid']}")
    tm = f"mtype(frame) == {d['code'].replace('m.', 'm0.')} && " if std else ""
    w(f"  assumes {tm}mbody(frame) == body{n}(m0)")
    w(f"  ensures accepts: err == nil")
    w(f"  ensures equal: implies(err == nil, {d['equal']})")
    for i in d["rinv"]:
        w(f"  invariant {i}")
    w("")

# authentication parser
auths = [d for d in M if d["parser"] == "auth"]
w("func pg.ParseAuthenticationRequestMessage(frame) (m, err)")
w("  flag terminates")
w(f"  flag alloc {ALLOC}")
w("  props C03,C04")
w("  requires frame: frame != nil && wff(frame)")
w("  ensures type: implies(err == nil, mtype(frame) == 'R')")
w("  ensures exact: implies(err == nil, m != nil && wfm(m) && wire(m) == stdWire('R', mbody(frame)))")
w("  ensures kinds: implies(err == nil, " + " || ".join(f"typeof(m, *pg.{d['name']})" for d in auths) + ")")
w("  ensures reserialise: implies(err == nil && mbytes(frame) == stdWire(mtype(frame), mbody(frame)), wire(m) == mbytes(frame))")
w("  ensures either: implies(err != nil, m == nil)")
w("  ensures unsupported: implies(err == pg.ErrunsupportedAuthenticationRequest, mtype(frame) == 'R')")
for d in auths:
    n = d["name"]
    w(f"behavior roundtrip_{n[14:-7]}(m0 *pg.{n}) [C02]")
    w(f"  assumes wf{n}(m0)")
    w(f"  assumes mtype(frame) == 'R' && mbody(frame) == body{n}(m0)")
    w(f"  ensures accepts: err == nil && typeof(m, *pg.{n})")
    if d["equal"] != "true":
        w(f"  ensures equal: implies(err == nil && typeof(m, *pg.{n}), {d['equal'].replace('m.', f'as(m, *pg.{n}).')})")
known = " && ".join(f"s32(dec32(mbody(frame)[:4])) != {c}" for c in (0, 2, 3, 5, 6, 7, 8, 9))
w("behavior unknown [C02,C06]")
w(f"  assumes mtype(frame) == 'R' && len(mbody(frame)) >= 4 && {known}")
w("  ensures unknown: err == pg.ErrunsupportedAuthenticationRequest")
open("/verif/contracts/messages.gv", "w").write("\n".join(out) + "\n")

# ---- pg.Conn
out.clear()
w("// Generated by tools/mkcodec.py. Contracts of pg.Conn (C06).")
w("")
def recv(fn, front):
    w(f"func (*pg.Conn).{fn}(c) (m, err)")
    w("  flag terminates")
    w("  flag alloc 2097152 + 128*len(old(stream(c.conn)))")
    w("  props C06,C04")
    w("  requires c != nil && c.conn != nil")
    w("  modifies stream[c.conn]")
    w("  flag blocking")
    w("  holds reader(c.conn)")
    w("  effect rfail[c.conn] := err != nil")
    if fn == "RecvStartupMessage":
        w("  effect laststart[c.conn] := m if err == nil")
        w('  effect ssldue[c.conn] := cat(ssldue(c.conn), unit(\'N\')) if err == nil && m.ProtocolVersion == 80877103')
    else:
        w("  effect rmsgs[c.conn] := cat(rmsgs(c.conn), unit(m)) if err == nil")
    std = fn != "RecvStartupMessage"
    w(f"  ensures incomplete: implies(!{'hasStd' if std else 'hasStart'}(old(stream(c.conn))), err != nil)")
    n = "1+s32(dec32(stream(c.conn)[1:5]))" if std else "s32(dec32(stream(c.conn)[:4]))"
    w(f"  ensures consumed: implies({'hasStd' if std else 'hasStart'}(old(stream(c.conn))), stream(c.conn) == old(stream(c.conn)[{n}:]))")
    w("  ensures exact: implies(err == nil, m != nil && wfm(m) && old(stream(c.conn)) == cat(wire(m), stream(c.conn)))")
    if not std:
        d = next(x for x in M if x["name"] == "StartupMessage")
        w("behavior startup(m0 *pg.StartupMessage, rest []byte) [C06]")
        w(f"  assumes wfStartupMessage(m0) && {d['valid']} && len(bodyStartupMessage(m0)) <= 2147483643")
        w("  assumes stream(c.conn) == cat(startWire(bodyStartupMessage(m0)), rest)")
        w("  ensures accepts: err == nil")
        w("  ensures rest: stream(c.conn) == rest")
        w(f"  ensures equal: implies(err == nil, {d['equal']})")
        return
    types = FRONT if front else BACK
    for d in M:
        n = d["name"]
        if n in types:
            w(f"behavior {n[:-7]}(m0 *pg.{n}, rest []byte) [C06]")
            w(f"  assumes wf{n}(m0) && {d['valid']} && len(body{n}(m0)) <= 2147483643")
            w(f"  assumes stream(c.conn) == cat(stdWire({d['code']}, body{n}(m0)), rest)")
            w(f"  ensures kind: err == nil && typeof(m, *pg.{n})")
            w("  ensures rest: stream(c.conn) == rest")
            if d["equal"] != "true":
                w(f"  ensures equal: implies(err == nil && typeof(m, *pg.{n}), {d['equal'].replace('m.', f'as(m, *pg.{n}).')})")
    w("behavior opaque(t byte, body []byte, rest []byte) [C06]")
    known = sorted({d["code"] for d in M if d["name"] in types} | (set() if front else {"'p'", "'Q'", "'X'"}))
    w("  assumes " + " && ".join(f"t != {c}" for c in known) + " && len(body) <= 2147483643")
    w("  assumes stream(c.conn) == cat(stdWire(t, body), rest)")
    w("  ensures kind: err == nil && typeof(m, *pg.GenericMessage)")
    w("  ensures rest: stream(c.conn) == rest")
    w("  ensures equal: implies(err == nil && typeof(m, *pg.GenericMessage), as(m, *pg.GenericMessage).Type == t && as(m, *pg.GenericMessage).Body == body)")
    if not front:
        w("behavior unknownauth(body []byte, rest []byte) [C06]")
        w("  assumes len(body) <= 2147483643 && len(body) >= 4 && " + " && ".join(f"s32(dec32(body[:4])) != {c}" for c in (0, 2, 3, 5, 6, 7, 8, 9)))
        w("  assumes stream(c.conn) == cat(stdWire('R', body), rest)")
        w("  ensures kind: err == nil && typeof(m, *pg.GenericMessage)")
        w("  ensures rest: stream(c.conn) == rest")
        w("  ensures equal: implies(err == nil && typeof(m, *pg.GenericMessage), as(m, *pg.GenericMessage).Type == 'R' && as(m, *pg.GenericMessage).Body == body)")

FRONT = {"QueryMessage", "TerminateMessage"}
BACK = {d["name"] for d in M} - {"QueryMessage", "TerminateMessage", "PasswordMessage", "StartupMessage", "GenericMessage"}
for fn, front in (("RecvMessage", False), ("RecvFrontendMessage", True), ("RecvStartupMessage", True)):
    recv(fn, front)
    w("")
for fn, arg, data, req in (("SendMessage", "msg", "wire(msg)", "msg != nil && wfm(msg)"), ("SendByte", "b", "unit(b)", "true")):
    w(f"func (*pg.Conn).{fn}(c, {arg}) (err)")
    w("  flag terminates")
    w("  props C06")
    w(f"  requires c != nil && c.conn != nil && {req}")
    w("  modifies written[c.conn], wfailed[c.conn]")
    w("  flag blocking")
    w("  holds writer(c.conn)")
    if arg == "msg":
        w("  effect wmsgs[c.conn] := cat(wmsgs(c.conn), unit(msg)) if err == nil")
    w(f"  ensures sent: implies(err == nil, written(c.conn) == cat(old(written(c.conn)), {data}))")
    w(f"  ensures reported: implies(wfailed(c.conn), err != nil || old(wfailed(c.conn)))")
    w("  ensures failed: implies(err != nil, wfailed(c.conn))")
    w(f"  ensures partial: len(old(written(c.conn))) <= len(written(c.conn)) && len(written(c.conn)) <= len(old(written(c.conn))) + len({data}) && written(c.conn) == cat(old(written(c.conn)), {data})[:len(written(c.conn))]")
    w("")
w("func pg.NewConn(conn) (c)")
w("  props C06")
w("  ensures wraps: c != nil && c.conn == conn")
w("")
w("func (*pg.Conn).Unwrap(c) (conn)")
w("  props C06")
w("  requires c != nil")
w("  ensures wraps: conn == c.conn")
open("/verif/contracts/conn.gv", "w").write("\n".join(out) + "\n")
