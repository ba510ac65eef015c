From 9a7e70e2377ba8fa6fac427d69e72b5b396159eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 01/26] fix: parse NegotiateProtocolVersion messages with their
 own parser

RecvMessage handed them to ParseNoticeResponseMessage, which rejects them.
---
 pkg/pg/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pg/conn.go b/pkg/pg/conn.go
index 60a7216..4cae06d 100644
--- a/pkg/pg/conn.go
+++ b/pkg/pg/conn.go
@@ -38,7 +38,7 @@ func (h *Conn) RecvMessage() (Message, error) {
 		return ParseAuthenticationRequestMessage(frame)
 
 	case NegotiateProtocolVersionMessageType:
-		return ParseNoticeResponseMessage(frame)
+		return ParseNegotiateProtocolVersionMessage(frame)
 
 	case BackendKeyDataMessageType:
 		return ParseBackendKeyDataMessage(frame)
-- 
2.43.0


From d5dc5afcc314e330e7de564065b07eff3b830bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 02/26] fix: do not panic when asked to read a negative number
 of bytes

The size of a DataRow value comes from the network: any value below -1
crashed the whole proxy.
---
 pkg/pg/read_buffer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/pg/read_buffer.go b/pkg/pg/read_buffer.go
index 0b897b5..6233653 100644
--- a/pkg/pg/read_buffer.go
+++ b/pkg/pg/read_buffer.go
@@ -31,7 +31,12 @@ func (b *ReadBuffer) Len() int {
 
 // ReadBytes reads and returns exactly n bytes from the buffer. The bytes are removed from the buffer afterwards.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
+// If n is negative, it returns error ErrMalformedMessage and does not advance.
 func (b *ReadBuffer) ReadBytes(n int) ([]byte, error) {
+	if n < 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	if b.Len() < n {
 		return nil, io.EOF
 	}
-- 
2.43.0


From 792c836b7510111cb06a7f72f005d8509c225183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 03/26] fix: reject impossible element counts in messages

A negative count made the parsers panic, and the 32-bit count of
NegotiateProtocolVersion made a 13-byte message allocate up to 32 GB.
---
 pkg/pg/data_row_message.go                   | 4 ++++
 pkg/pg/negotiate_protocol_version_message.go | 5 +++++
 pkg/pg/row_description_message.go            | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/pkg/pg/data_row_message.go b/pkg/pg/data_row_message.go
index 0a962cb..7161a98 100644
--- a/pkg/pg/data_row_message.go
+++ b/pkg/pg/data_row_message.go
@@ -29,6 +29,10 @@ func ParseDataRowMessage(frame Frame) (*DataRowMessage, error) {
 		return nil, err
 	}
 
+	if valuesCount < 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	values := make([][]byte, valuesCount)
 
 	for i := 0; i < int(valuesCount); i++ {
diff --git a/pkg/pg/negotiate_protocol_version_message.go b/pkg/pg/negotiate_protocol_version_message.go
index 2f250f5..fb00823 100644
--- a/pkg/pg/negotiate_protocol_version_message.go
+++ b/pkg/pg/negotiate_protocol_version_message.go
@@ -38,6 +38,11 @@ func ParseNegotiateProtocolVersionMessage(frame Frame) (*NegotiateProtocolVersio
 		return nil, err
 	}
 
+	// Every option takes at least one byte (the terminator), so there can't be more options than bytes left
+	if unrecognizedOptionsCount < 0 || int(unrecognizedOptionsCount) > messageData.Len() {
+		return nil, ErrMalformedMessage
+	}
+
 	unrecognizedOptions := make([]string, unrecognizedOptionsCount)
 
 	for i := 0; i < int(unrecognizedOptionsCount); i++ {
diff --git a/pkg/pg/row_description_message.go b/pkg/pg/row_description_message.go
index ebb8397..49221c4 100644
--- a/pkg/pg/row_description_message.go
+++ b/pkg/pg/row_description_message.go
@@ -65,6 +65,10 @@ func ParseRowDescriptionMessage(frame Frame) (*RowDescriptionMessage, error) {
 		return nil, err
 	}
 
+	if fieldsCount < 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	fields := make([]*FieldDescriptor, fieldsCount)
 
 	for i := 0; i < int(fieldsCount); i++ {
-- 
2.43.0


From bb112373c0b6a2a18c878b529144f44af4b8640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 04/26] fix: reject frames with an impossible length

A length below 4 was accepted as an empty body (and forwarded with a
different length), a length close to the minimum wrapped to 2 GB.
---
 pkg/pg/standard_frame.go | 5 +++++
 pkg/pg/startup_frame.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/pg/standard_frame.go b/pkg/pg/standard_frame.go
index 6574816..7e014ce 100644
--- a/pkg/pg/standard_frame.go
+++ b/pkg/pg/standard_frame.go
@@ -70,6 +70,11 @@ func ReadStandardFrame(r io.Reader) (StandardFrame, error) {
 		return nil, err
 	}
 
+	// The length includes itself
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
diff --git a/pkg/pg/startup_frame.go b/pkg/pg/startup_frame.go
index e6002ab..c7ac836 100644
--- a/pkg/pg/startup_frame.go
+++ b/pkg/pg/startup_frame.go
@@ -64,6 +64,11 @@ func ReadStartupFrame(r io.Reader) (StartupFrame, error) {
 		return nil, err
 	}
 
+	// The length includes itself
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
-- 
2.43.0


From 8fd7684ce988f19110b1e2aac47803c6605f043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 05/26] fix: reject messages with bytes after the last field

The parsers ignored such bytes, so a proxied message silently lost its
tail.
---
 pkg/pg/authentication_request_message.go     | 5 +++++
 pkg/pg/backend_key_data_message.go           | 5 +++++
 pkg/pg/command_complete_message.go           | 5 +++++
 pkg/pg/data_row_message.go                   | 5 +++++
 pkg/pg/error_response_message.go             | 5 +++++
 pkg/pg/negotiate_protocol_version_message.go | 5 +++++
 pkg/pg/notice_response_message.go            | 5 +++++
 pkg/pg/parameter_status_message.go           | 5 +++++
 pkg/pg/password_message.go                   | 5 +++++
 pkg/pg/query_message.go                      | 5 +++++
 pkg/pg/ready_for_query_message.go            | 5 +++++
 pkg/pg/row_description_message.go            | 5 +++++
 12 files changed, 60 insertions(+)

diff --git a/pkg/pg/authentication_request_message.go b/pkg/pg/authentication_request_message.go
index fed1b9e..a96275e 100644
--- a/pkg/pg/authentication_request_message.go
+++ b/pkg/pg/authentication_request_message.go
@@ -125,6 +125,11 @@ func ParseAuthenticationRequestMessage(frame Frame) (AuthenticationRequestMessag
 		}
 	}
 
+	// There must be nothing after the last field
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return message, nil
 }
 
diff --git a/pkg/pg/backend_key_data_message.go b/pkg/pg/backend_key_data_message.go
index 8aea090..eaa6fa1 100644
--- a/pkg/pg/backend_key_data_message.go
+++ b/pkg/pg/backend_key_data_message.go
@@ -37,6 +37,11 @@ func ParseBackendKeyDataMessage(frame Frame) (*BackendKeyDataMessage, error) {
 		return nil, err
 	}
 
+	// There must be nothing after the last field
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &BackendKeyDataMessage{ProcessID: processID, Key: key}, nil
 }
 
diff --git a/pkg/pg/command_complete_message.go b/pkg/pg/command_complete_message.go
index 1acfcc6..5e74235 100644
--- a/pkg/pg/command_complete_message.go
+++ b/pkg/pg/command_complete_message.go
@@ -27,6 +27,11 @@ func ParseCommandCompleteMessage(frame Frame) (*CommandCompleteMessage, error) {
 		return nil, err
 	}
 
+	// There must be nothing after the last field
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &CommandCompleteMessage{Tag: tag}, nil
 }
 
diff --git a/pkg/pg/data_row_message.go b/pkg/pg/data_row_message.go
index 7161a98..9135e3e 100644
--- a/pkg/pg/data_row_message.go
+++ b/pkg/pg/data_row_message.go
@@ -53,6 +53,11 @@ func ParseDataRowMessage(frame Frame) (*DataRowMessage, error) {
 		}
 	}
 
+	// There must be nothing after the last field
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &DataRowMessage{Values: values}, nil
 }
 
diff --git a/pkg/pg/error_response_message.go b/pkg/pg/error_response_message.go
index c49af26..62ea0b7 100644
--- a/pkg/pg/error_response_message.go
+++ b/pkg/pg/error_response_message.go
@@ -48,6 +48,11 @@ func ParseErrorResponseMessage(frame Frame) (*ErrorResponseMessage, error) {
 		})
 	}
 
+	// There must be nothing after the last field
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &ErrorResponseMessage{fields}, nil
 }
 
diff --git a/pkg/pg/negotiate_protocol_version_message.go b/pkg/pg/negotiate_protocol_version_message.go
index fb00823..9659932 100644
--- a/pkg/pg/negotiate_protocol_version_message.go
+++ b/pkg/pg/negotiate_protocol_version_message.go
@@ -53,6 +53,11 @@ func ParseNegotiateProtocolVersionMessage(frame Frame) (*NegotiateProtocolVersio
 		}
 	}
 
+	// There must be nothing after the last field
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &NegotiateProtocolVersionMessage{
 		SupportedProtocolVersion: supportedProtocol,
 		UnrecognizedOptions:      unrecognizedOptions,
diff --git a/pkg/pg/notice_response_message.go b/pkg/pg/notice_response_message.go
index 3d60829..ca5fb94 100644
--- a/pkg/pg/notice_response_message.go
+++ b/pkg/pg/notice_response_message.go
@@ -48,6 +48,11 @@ func ParseNoticeResponseMessage(frame Frame) (*NoticeResponseMessage, error) {
 		})
 	}
 
+	// There must be nothing after the last field
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &NoticeResponseMessage{fields}, nil
 }
 
diff --git a/pkg/pg/parameter_status_message.go b/pkg/pg/parameter_status_message.go
index a98fb8c..3a10cba 100644
--- a/pkg/pg/parameter_status_message.go
+++ b/pkg/pg/parameter_status_message.go
@@ -36,6 +36,11 @@ func ParseParameterStatusMessage(frame Frame) (*ParameterStatusMessage, error) {
 		return nil, err
 	}
 
+	// There must be nothing after the last field
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &ParameterStatusMessage{name, value}, nil
 }
 
diff --git a/pkg/pg/password_message.go b/pkg/pg/password_message.go
index 5e03901..f041982 100644
--- a/pkg/pg/password_message.go
+++ b/pkg/pg/password_message.go
@@ -27,6 +27,11 @@ func ParsePasswordMessage(frame Frame) (*PasswordMessage, error) {
 		return nil, err
 	}
 
+	// There must be nothing after the last field
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &PasswordMessage{password}, nil
 }
 
diff --git a/pkg/pg/query_message.go b/pkg/pg/query_message.go
index 82e7ed6..29cce9c 100644
--- a/pkg/pg/query_message.go
+++ b/pkg/pg/query_message.go
@@ -27,6 +27,11 @@ func ParseQueryMessage(frame Frame) (*QueryMessage, error) {
 		return nil, err
 	}
 
+	// There must be nothing after the last field
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &QueryMessage{query}, nil
 }
 
diff --git a/pkg/pg/ready_for_query_message.go b/pkg/pg/ready_for_query_message.go
index 3a53525..ad4eea6 100644
--- a/pkg/pg/ready_for_query_message.go
+++ b/pkg/pg/ready_for_query_message.go
@@ -36,6 +36,11 @@ func ParseReadyForQueryMessage(frame Frame) (*ReadyForQueryMessage, error) {
 		return nil, err
 	}
 
+	// There must be nothing after the last field
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &ReadyForQueryMessage{TxStatus: TxStatus(status)}, nil
 }
 
diff --git a/pkg/pg/row_description_message.go b/pkg/pg/row_description_message.go
index 49221c4..ad05e05 100644
--- a/pkg/pg/row_description_message.go
+++ b/pkg/pg/row_description_message.go
@@ -125,6 +125,11 @@ func ParseRowDescriptionMessage(frame Frame) (*RowDescriptionMessage, error) {
 		}
 	}
 
+	// There must be nothing after the last field
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	return &RowDescriptionMessage{Fields: fields}, nil
 }
 
-- 
2.43.0


From dd42485e774e783b68758bca5061a8cf56e16293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:12 +0000
Subject: [PATCH 06/26] fix: always terminate the parameter list of a startup
 message

The terminator got lost when the list is empty, and bytes after the
terminator were dropped.
---
 pkg/pg/startup_message.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pkg/pg/startup_message.go b/pkg/pg/startup_message.go
index 1b136ef..887a9de 100644
--- a/pkg/pg/startup_message.go
+++ b/pkg/pg/startup_message.go
@@ -37,7 +37,7 @@ func ParseStartupMessage(frame Frame) (*StartupMessage, error) {
 	var parameters []*StartupMessageParameter
 
 	// NB: startup message won't contain any parameters if this is SSL negotiation message
-	if messageData.Len() > 0 {
+	if protocolVersion != SSLRequestMagic {
 		// Dictionary encoded as tuples of strings + ending \0
 		for {
 			key, err := messageData.ReadString()
@@ -60,6 +60,11 @@ func ParseStartupMessage(frame Frame) (*StartupMessage, error) {
 		}
 	}
 
+	// There must be nothing after the last field
+	if messageData.Len() > 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	message := &StartupMessage{
 		ProtocolVersion: protocolVersion,
 		Parameters:      parameters,
@@ -74,17 +79,14 @@ func (m *StartupMessage) Frame() Frame {
 
 	messageBuffer.WriteInt32(m.ProtocolVersion)
 
-	hasParams := false
-
-	// Dictionary is encoded as string key-value pair + ending /0x00
-	for _, param := range m.Parameters {
-		messageBuffer.WriteString(param.Name)
-		messageBuffer.WriteString(param.Value)
-
-		hasParams = true
-	}
+	// NB: SSL negotiation message doesn't contain any parameters
+	if m.ProtocolVersion != SSLRequestMagic {
+		// Dictionary is encoded as string key-value pair + ending /0x00
+		for _, param := range m.Parameters {
+			messageBuffer.WriteString(param.Name)
+			messageBuffer.WriteString(param.Value)
+		}
 
-	if hasParams {
 		messageBuffer.WriteByte(0)
 	}
 
-- 
2.43.0


From c251552ce4838cdb80e7c065a9b39920740737ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:53 +0000
Subject: [PATCH 07/26] fix: do not parse client messages as if they were sent
 by a backend

Sync, Describe, Execute, SASL responses and others share the type byte with
an unrelated backend message, so a session broke (or, for Execute, the
message got truncated) as soon as a client used the extended query protocol.
Relay authentication requests of unknown kind (SASL) for the same reason.
---
 pkg/pg/conn.go        | 33 ++++++++++++++++++++++++++++++++-
 pkg/server/session.go |  2 +-
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/pkg/pg/conn.go b/pkg/pg/conn.go
index 4cae06d..75f59d6 100644
--- a/pkg/pg/conn.go
+++ b/pkg/pg/conn.go
@@ -25,6 +25,30 @@ func (h *Conn) RecvStartupMessage() (*StartupMessage, error) {
 	return ParseStartupMessage(frame)
 }
 
+// RecvFrontendMessage receives a message sent by a client from the underlying network connection.
+//
+// The meaning of a message type depends on who is sending the message: for example, 'S' is ParameterStatus when it comes
+// from a backend, but Sync when it comes from a frontend. RecvMessage knows only the backend meaning of such types.
+func (h *Conn) RecvFrontendMessage() (Message, error) {
+	frame, err := ReadStandardFrame(h.conn)
+
+	if err != nil {
+		return nil, err
+	}
+
+	switch frame.MessageType() {
+	case QueryMessageType:
+		return ParseQueryMessage(frame)
+
+	case TerminateMessageType:
+		return ParseTerminateMessage(frame)
+
+	default:
+		// NB: 'p' is not only PasswordMessage but also SASL and GSSAPI responses
+		return ParseGenericMessage(frame)
+	}
+}
+
 // RecvMessage receives PostgreSQL message from the underlying network connection.
 func (h *Conn) RecvMessage() (Message, error) {
 	frame, err := ReadStandardFrame(h.conn)
@@ -35,7 +59,14 @@ func (h *Conn) RecvMessage() (Message, error) {
 
 	switch frame.MessageType() {
 	case AuthenticationRequestMessageType:
-		return ParseAuthenticationRequestMessage(frame)
+		message, err := ParseAuthenticationRequestMessage(frame)
+
+		// We don't know this authentication method (e.g. SASL), but the client might
+		if err == ErrunsupportedAuthenticationRequest {
+			return ParseGenericMessage(frame)
+		}
+
+		return message, err
 
 	case NegotiateProtocolVersionMessageType:
 		return ParseNegotiateProtocolVersionMessage(frame)
diff --git a/pkg/server/session.go b/pkg/server/session.go
index 04b1831..d20721f 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -230,7 +230,7 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 // startClientInPump pumps messages from the client into the clientIn channel.
 func (s *Session) startClientInPump() error {
 	for {
-		message, err := s.clientConn.RecvMessage()
+		message, err := s.clientConn.RecvFrontendMessage()
 
 		if err != nil {
 			return err
-- 
2.43.0


From 899461b51bf1283a0b0c7e33df1d6e2664633596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 08/26] fix: check every database parameter of a startup
 message

The check looked at the first one, PostgreSQL uses the last one: a client
could connect to any database by sending the parameter twice.
---
 pkg/server/session.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index d20721f..632e51c 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -188,6 +188,13 @@ func (s *Session) negotiateSessionParams() error {
 		return fmt.Errorf("session: database mismatch: %v != %v", dbName, allowedDB)
 	}
 
+	// If a parameter is repeated, PostgreSQL uses the last value, so all of them must match
+	for _, param := range startupMessage.Parameters {
+		if param.Name == "database" && param.Value != allowedDB {
+			return fmt.Errorf("session: database mismatch: %v != %v", param.Value, allowedDB)
+		}
+	}
+
 	// Establish DB connection on behalf of the client
 	return s.establishDBConnection(startupMessage)
 }
-- 
2.43.0


From ab392334210d2eb703b4f1d19df700e9c7c4f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 09/26] fix: do not recurse on SSL requests

A client repeating SSLRequest grew the stack until the process died.
---
 pkg/server/session.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 632e51c..c73149b 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -159,7 +159,7 @@ func (s *Session) negotiateSessionParams() error {
 	}
 
 	// Check if startup message is a SSL request
-	if startupMessage.ProtocolVersion == pg.SSLRequestMagic {
+	for startupMessage.ProtocolVersion == pg.SSLRequestMagic {
 		log.Info("session: client requested SSL; denying")
 
 		err = s.clientConn.SendByte('N')
@@ -168,8 +168,12 @@ func (s *Session) negotiateSessionParams() error {
 			return err
 		}
 
-		// DANGER! There is a possibility of an infinite loop here.
-		return s.negotiateSessionParams()
+		// Client should continue without SSL
+		startupMessage, err = s.clientConn.RecvStartupMessage()
+
+		if err != nil {
+			return err
+		}
 	}
 
 	// Check the protocol version just in case
-- 
2.43.0


From c411987054e48fc2c1f9c25aaeaa9773688ae538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 10/26] fix: do not let one direction of a session block
 another

A single goroutine relayed both directions: when the database did not read
because it was busy sending results, nobody was receiving these results.
---
 pkg/server/session.go | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index c73149b..95a8d2b 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -96,7 +96,8 @@ func (s *Session) Start() error {
 	g.Go(s.startClientOutPump)
 	g.Go(s.startDBInPump)
 	g.Go(s.startDBOutPump)
-	g.Go(s.startProcessing)
+	g.Go(s.startClientProcessing)
+	g.Go(s.startDBProcessing)
 
 	// Wait for the first error (or successful exit)
 	err = g.Wait()
@@ -304,29 +305,37 @@ func (s *Session) startDBOutPump() error {
 	}
 }
 
-// startProcessing dispatches messages between the database and the client.
-func (s *Session) startProcessing() error {
-	// FIXME: temporary just proxy everything from the client to the database and vice versa
+// startClientProcessing dispatches messages from the client to the database.
+func (s *Session) startClientProcessing() error {
+	// FIXME: temporary just proxy everything from the client to the database
 	for {
-		select {
-		case clientMsg, ok := <-s.clientIn:
-			if !ok {
-				return nil
-			}
+		clientMsg, ok := <-s.clientIn
 
-			log.Infof("-> %s", clientMsg.Frame().Bytes())
+		// Channel is closed — exit
+		if !ok {
+			return nil
+		}
 
-			s.dbOut <- clientMsg
+		log.Infof("-> %s", clientMsg.Frame().Bytes())
 
-		case dbMsg, ok := <-s.dbIn:
-			if !ok {
-				return nil
-			}
+		s.dbOut <- clientMsg
+	}
+}
 
-			log.Infof("<- %s", dbMsg.Frame().Bytes())
+// startDBProcessing dispatches messages from the database to the client.
+func (s *Session) startDBProcessing() error {
+	// FIXME: temporary just proxy everything from the database to the client
+	for {
+		dbMsg, ok := <-s.dbIn
 
-			s.clientOut <- dbMsg
+		// Channel is closed — exit
+		if !ok {
+			return nil
 		}
+
+		log.Infof("<- %s", dbMsg.Frame().Bytes())
+
+		s.clientOut <- dbMsg
 	}
 }
 
-- 
2.43.0


From 1685151f3fd61da8b4ef0aa2e09952f7a277c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 11/26] fix: end the session when the client or the database
 hangs up

Nothing closed the session then: the other party stayed connected and the
goroutines leaked forever. Closing a session with messages in flight, on the
other hand, crashed the process with "send on closed channel". Now each
channel is closed by its sender, and the one that hung up last messages are
delivered before the other one is disconnected. Also do not leak a database
connection established while the session is being closed.
---
 pkg/server/session.go | 87 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 71 insertions(+), 16 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 95a8d2b..d2ab701 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -23,6 +23,9 @@ type Session struct {
 	// Connection from a client to the Gevulot
 	clientConn *pg.Conn
 
+	// Guards dbConn until the session is established
+	connMu sync.Mutex
+
 	// Connection from the Gevulot to the database
 	dbConn *pg.Conn
 
@@ -36,7 +39,7 @@ type Session struct {
 	// └──────────┘                  └─────────────────┘                  └──────────┘
 
 	//
-	// Set of channels to send/receive PG messages.
+	// Set of channels to send/receive PG messages. Each of them is closed by the goroutine that is sending to it.
 	//
 
 	clientIn  chan pg.Message // client -> Gevulot
@@ -123,7 +126,11 @@ func (s *Session) Close() (err error) {
 
 	log.Info("session: closing")
 
-	// Close network connections — this will stop in pumps
+	s.connMu.Lock()
+	defer s.connMu.Unlock()
+
+	// Close network connections — this will stop in pumps, and then, once all received messages
+	// are delivered, processing goroutines and out pumps
 	if s.clientConn != nil {
 		err = s.clientConn.Close()
 
@@ -136,14 +143,6 @@ func (s *Session) Close() (err error) {
 		log.Debugf("session: db connection is closed; err = %v", err)
 	}
 
-	// Close all message channels — this will stop out pumps and processing goroutine
-	close(s.clientIn)
-	close(s.clientOut)
-	close(s.dbIn)
-	close(s.dbOut)
-
-	log.Debug("session: channels closed")
-
 	return
 }
 
@@ -226,8 +225,12 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 		return err
 	}
 
-	// Convert to pg.NewConn
-	s.dbConn = pg.NewConn(conn)
+	// Convert to pg.NewConn; the err could be ErrSessionClosed
+	err = s.setDBConn(pg.NewConn(conn))
+
+	if err != nil {
+		return err
+	}
 
 	// Send initial startup message that we received from the client
 	err = s.dbConn.SendMessage(startupMessage)
@@ -239,8 +242,29 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 	return nil
 }
 
+// setDBConn sets the database connection unless the session is closed already.
+func (s *Session) setDBConn(conn *pg.Conn) error {
+	s.connMu.Lock()
+	defer s.connMu.Unlock()
+
+	if s.closed.HasFired() {
+		err := conn.Close()
+
+		log.Debugf("session: db connection is closed; err = %v", err)
+
+		return ErrSessionClosed
+	}
+
+	s.dbConn = conn
+
+	return nil
+}
+
 // startClientInPump pumps messages from the client into the clientIn channel.
 func (s *Session) startClientInPump() error {
+	// The client hung up — this will stop the processing goroutine
+	defer close(s.clientIn)
+
 	for {
 		message, err := s.clientConn.RecvFrontendMessage()
 
@@ -248,12 +272,19 @@ func (s *Session) startClientInPump() error {
 			return err
 		}
 
-		s.clientIn <- message
+		select {
+		case s.clientIn <- message:
+		case <-s.closed.Done():
+			return nil
+		}
 	}
 }
 
 // startClientOutPump pumps messages from the clientOut channel to the client.
 func (s *Session) startClientOutPump() error {
+	// Either everything that the database sent before it hung up is delivered, or the delivery is not possible anymore
+	defer s.Close()
+
 	for {
 		// Get next message in queue
 		message, ok := <-s.clientOut
@@ -274,6 +305,9 @@ func (s *Session) startClientOutPump() error {
 
 // startClientOutPump pumps messages from the database into the dbIn channel.
 func (s *Session) startDBInPump() error {
+	// The database hung up — this will stop the processing goroutine
+	defer close(s.dbIn)
+
 	for {
 		message, err := s.dbConn.RecvMessage()
 
@@ -281,12 +315,19 @@ func (s *Session) startDBInPump() error {
 			return err
 		}
 
-		s.dbIn <- message
+		select {
+		case s.dbIn <- message:
+		case <-s.closed.Done():
+			return nil
+		}
 	}
 }
 
 // startDBOutPump pumps messages from the dbOut channel to the database.
 func (s *Session) startDBOutPump() error {
+	// Either everything that the client sent before it hung up is delivered, or the delivery is not possible anymore
+	defer s.Close()
+
 	for {
 		// Get next message in queue
 		message, ok := <-s.dbOut
@@ -307,6 +348,9 @@ func (s *Session) startDBOutPump() error {
 
 // startClientProcessing dispatches messages from the client to the database.
 func (s *Session) startClientProcessing() error {
+	// There won't be any more messages — this will stop the out pump
+	defer close(s.dbOut)
+
 	// FIXME: temporary just proxy everything from the client to the database
 	for {
 		clientMsg, ok := <-s.clientIn
@@ -318,12 +362,19 @@ func (s *Session) startClientProcessing() error {
 
 		log.Infof("-> %s", clientMsg.Frame().Bytes())
 
-		s.dbOut <- clientMsg
+		select {
+		case s.dbOut <- clientMsg:
+		case <-s.closed.Done():
+			return nil
+		}
 	}
 }
 
 // startDBProcessing dispatches messages from the database to the client.
 func (s *Session) startDBProcessing() error {
+	// There won't be any more messages — this will stop the out pump
+	defer close(s.clientOut)
+
 	// FIXME: temporary just proxy everything from the database to the client
 	for {
 		dbMsg, ok := <-s.dbIn
@@ -335,7 +386,11 @@ func (s *Session) startDBProcessing() error {
 
 		log.Infof("<- %s", dbMsg.Frame().Bytes())
 
-		s.clientOut <- dbMsg
+		select {
+		case s.clientOut <- dbMsg:
+		case <-s.closed.Done():
+			return nil
+		}
 	}
 }
 
-- 
2.43.0


From 5dd8ea909f551340733d98636226bd3a507d8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 12/26] fix: do not lose listeners and sessions added while
 Close is running

They were never closed, and Close panicked after waiting 5 seconds for them.
---
 pkg/server/server.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index d8c4140..abd3b62 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -264,14 +264,15 @@ func (srv *Server) Close() error {
 
 // changeListener sets the new Server's listener closing existing one. It can be called concurrently.
 func (srv *Server) changeListener(ln net.Listener) error {
-	// Refuse to change a listener if Server is closed
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
+	// Refuse to change a listener if Server is closed. NB: we check it under the lock, otherwise
+	// Close could miss the new listener
 	if srv.shutdown.HasFired() {
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.listener != nil {
 		log.Debug("server: closing the old listener")
 
@@ -300,14 +301,15 @@ func (srv *Server) do(f func()) {
 
 // registerSession adds the given session to the sessions map. It can be called concurrently.
 func (srv *Server) registerSession(s *Session) error {
-	// Refuse to register a session if Server is closed
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
+	// Refuse to register a session if Server is closed. NB: we check it under the lock, otherwise
+	// Close could miss the new session
 	if srv.shutdown.HasFired() {
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.sessions == nil {
 		srv.sessions = make(map[*Session]struct{})
 	}
-- 
2.43.0


From e9bc6f7c2ad384bf2510e93ecb399722a605bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 13/26] fix: close listeners and connections refused by a
 closed server

---
 pkg/server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index abd3b62..8399d82 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -132,6 +132,8 @@ func (srv *Server) Serve(ln net.Listener) error {
 
 	if err != nil {
 		log.Errorf("server: error has been occurred while changing listeners: %v", err)
+		ln.Close()
+
 		return err
 	}
 
@@ -177,6 +179,7 @@ func (srv *Server) Serve(ln net.Listener) error {
 func (srv *Server) ServeConn(conn net.Conn) error {
 	// Return error if server is closed
 	if srv.shutdown.HasFired() {
+		conn.Close()
 		return ErrServerClosed
 	}
 
@@ -192,6 +195,7 @@ func (srv *Server) ServeConn(conn net.Conn) error {
 	err := srv.registerSession(session)
 
 	if err != nil {
+		session.Close()
 		return err
 	}
 
-- 
2.43.0


From bab384fc8ba5e129f15145d605d25ce162e19a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 14/26] fix: unsubscribe a closed server from config updates

The channel got closed while being subscribed, so the next config update
crashed the process.
---
 pkg/server/server.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 8399d82..c355a85 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -84,7 +84,6 @@ func (srv *Server) Start() error {
 
 	// Watch for config changes
 	serverConfigurationUpdates := make(chan *Config, 1)
-	defer close(serverConfigurationUpdates)
 
 	err := srv.config.Subscribe(serverConfigurationUpdates, func(oldConfig, newConfig *Config) bool {
 		return oldConfig == nil || oldConfig.Listen != newConfig.Listen
@@ -94,6 +93,17 @@ func (srv *Server) Start() error {
 		return err
 	}
 
+	// Stop watching for config changes; keep receiving them in the meantime, otherwise Unsubscribe could block
+	defer func() {
+		go func() {
+			for range serverConfigurationUpdates { //nolint:revive
+			}
+		}()
+
+		srv.config.Unsubscribe(serverConfigurationUpdates)
+		close(serverConfigurationUpdates)
+	}()
+
 	// For debugging purposes
 	defer log.Debug("server: Start() loop finished")
 
-- 
2.43.0


From 0f883f563024a02aaaa437f11ed242399057379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 15/26] fix: do not deadlock when config is updated while Get
 is waiting for it

Get subscribed an unbuffered channel for one update. An update that arrived
just before Get subscribed, or a second one that arrived before it managed to
unsubscribe, was sent to this channel with the mutex locked and nobody
receiving.
---
 pkg/server/config_distributor.go | 41 +++++++++++++++++---------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/pkg/server/config_distributor.go b/pkg/server/config_distributor.go
index 4a5c9fa..f63c544 100644
--- a/pkg/server/config_distributor.go
+++ b/pkg/server/config_distributor.go
@@ -33,6 +33,9 @@ type ConfigDistributor struct {
 	// Fired after config monitoring goroutine is started
 	started *Event
 
+	// Fired after the first Config is received
+	ready *Event
+
 	// Fired after Close is called
 	closed *Event
 
@@ -58,6 +61,7 @@ func NewConfigDistributor(configChan <-chan *Config) *ConfigDistributor {
 	return &ConfigDistributor{
 		source:  configChan,
 		started: NewEvent(),
+		ready:   NewEvent(),
 		closed:  NewEvent(),
 	}
 }
@@ -83,8 +87,8 @@ func (p *ConfigDistributor) Get() (*Config, error) {
 		return lastConfigSnapshot, nil
 	}
 
-	// Wait for the next config update from the source
-	return p.waitForNextConfig()
+	// Wait for the first config from the source
+	return p.waitForConfig()
 }
 
 // Subscribe subscribes given channel to configuration updates.
@@ -110,10 +114,7 @@ func (p *ConfigDistributor) Subscribe(ch chan<- *Config, checks ...ConfigChanged
 
 	p.subscriptions[ch] = checks
 
-	// Start monitoring goroutine
-	if p.started.Fire() {
-		go p.monitorConfig()
-	}
+	p.startMonitoring()
 
 	return nil
 }
@@ -145,24 +146,24 @@ func (p *ConfigDistributor) unsubscribeLocked(ch chan<- *Config) {
 	delete(p.subscriptions, ch)
 }
 
-// waitForNextConfig waits for the next received Config update from the source and then returns it.
-func (p *ConfigDistributor) waitForNextConfig() (*Config, error) {
-	nextConfigChan := make(chan *Config)
-	defer close(nextConfigChan)
-
-	// Subscribe to ourselves for the duration of this method
-	err := p.Subscribe(nextConfigChan)
-
-	if err != nil {
-		return nil, err
+// startMonitoring starts the monitoring goroutine unless it is started already.
+func (p *ConfigDistributor) startMonitoring() {
+	if p.started.Fire() {
+		go p.monitorConfig()
 	}
+}
 
-	defer p.Unsubscribe(nextConfigChan)
+// waitForConfig waits for the first Config from the source and then returns the current one.
+func (p *ConfigDistributor) waitForConfig() (*Config, error) {
+	p.startMonitoring()
 
 	// Wait for the config or Cancel signal
 	select {
-	case config := <-nextConfigChan:
-		return config, nil
+	case <-p.ready.Done():
+		p.mu.RLock()
+		defer p.mu.RUnlock()
+
+		return p.lastConfig, nil
 
 	case <-p.closed.Done():
 		return nil, ErrConfigDistributorClosed
@@ -196,6 +197,8 @@ func (p *ConfigDistributor) monitorConfig() {
 			}
 			p.mu.Unlock()
 
+			p.ready.Fire()
+
 		// Stop the loop if distributor is closed
 		case <-p.closed.Done():
 			return
-- 
2.43.0


From 70fdd08f1bc7d003dd6f094d16c1384c76f3c355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 16/26] fix: report errors that interrupt reading of the OID
 mapping

The mapping read so far was returned as if it was complete.
---
 pkg/pgmeta/inspector.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index 309bbb0..5c1af17 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -86,6 +86,11 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
 		mapping[tableOid] = table
 	}
 
+	// Check that there is nothing left to read
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	return mapping, nil
 }
 
-- 
2.43.0


From 18535c8c370d31fbb07b6a7c2c516f6983a7e312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 17/26] fix: reject configs without the listen address

The field is mandatory. A config file that is being overwritten is empty for
a moment: it made the running server switch to a random port.
---
 pkg/cli/read_server_config.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/cli/read_server_config.go b/pkg/cli/read_server_config.go
index e26a414..9cbbcaa 100644
--- a/pkg/cli/read_server_config.go
+++ b/pkg/cli/read_server_config.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"errors"
 	"path/filepath"
 
 	"github.com/BurntSushi/toml"
@@ -8,6 +9,9 @@ import (
 	"github.com/hired/gevulot/pkg/server"
 )
 
+// errNoListenAddress is returned by readServerConfig when the mandatory listen field is missing.
+var errNoListenAddress = errors.New("listen address is not specified")
+
 // readServerConfig unmarshals server config at the given file path.
 func readServerConfig(path string) (*server.Config, error) {
 	// Convert to absolute path
@@ -25,5 +29,11 @@ func readServerConfig(path string) (*server.Config, error) {
 		return nil, err
 	}
 
+	// We can't do anything useful without the listen address. NB: while the config file is being overwritten it might
+	// look like an empty one
+	if config.Listen == "" {
+		return nil, errNoListenAddress
+	}
+
 	return config, nil
 }
-- 
2.43.0


From ffdd1cd076ea796d52cfe350e9de5dcaed119c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 18/26] fix: stop the file watcher when the path cannot be
 watched

Its goroutines and the inotify instance leaked, and an error that stopped the
watcher later was logged as <nil>.
---
 pkg/cli/file_watcher.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/cli/file_watcher.go b/pkg/cli/file_watcher.go
index 6fced1e..96748d8 100644
--- a/pkg/cli/file_watcher.go
+++ b/pkg/cli/file_watcher.go
@@ -110,9 +110,15 @@ func (w *fileWatcher) Watch() error {
 		}()
 
 		// Start the watcher
-		watcherError = watcher.Add(w.Path)
+		err = watcher.Add(w.Path)
+
+		// Exit from Watch; in case of an error there is nothing to watch, so we have to stop the event loop
+		if err != nil {
+			watcherError = err
+			initWG.Done()
+			return
+		}
 
-		// Exit from Watch
 		initWG.Done()
 
 		// Event loop
@@ -121,7 +127,7 @@ func (w *fileWatcher) Watch() error {
 		// We are not in the context of calling goroutine anymore so we cannot just return error
 		// and have to print the error by ourselves.
 		if watcherError != nil {
-			log.Errorf("file watcher error: %v\n", err)
+			log.Errorf("file watcher error: %v\n", watcherError)
 		}
 	}()
 
-- 
2.43.0


From cc1f3ffcc61b28e994b9a2084cc51a1c6484e61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:11 +0000
Subject: [PATCH 19/26] fix: reject impossible counts of array elements

k * 4 (k * 2) overflows for huge counts, so the buffer was advanced over a wrong number of bytes and make panicked.
---
 pkg/pg/read_buffer.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/pg/read_buffer.go b/pkg/pg/read_buffer.go
index 6233653..b549bc9 100644
--- a/pkg/pg/read_buffer.go
+++ b/pkg/pg/read_buffer.go
@@ -109,6 +109,15 @@ func (b *ReadBuffer) ReadString() (string, error) {
 // ReadInt32Array decodes an array of k 32-bit signed integers and advances the buffer over it.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadInt32Array(k int) ([]int32, error) {
+	// NB: check the count first since k * 4 could overflow
+	if k < 0 {
+		return nil, ErrMalformedMessage
+	}
+
+	if k > b.Len()/4 {
+		return nil, io.EOF
+	}
+
 	arrBytes, err := b.ReadBytes(k * 4)
 
 	if err != nil {
@@ -127,6 +136,15 @@ func (b *ReadBuffer) ReadInt32Array(k int) ([]int32, error) {
 // ReadInt16Array decodes an array of k 16-bit signed integers and advances the buffer over it.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadInt16Array(k int) ([]int16, error) {
+	// NB: check the count first since k * 2 could overflow
+	if k < 0 {
+		return nil, ErrMalformedMessage
+	}
+
+	if k > b.Len()/2 {
+		return nil, io.EOF
+	}
+
 	arrBytes, err := b.ReadBytes(k * 2)
 
 	if err != nil {
-- 
2.43.0


From 244e14cb8ac94be72f8668aa903722761672a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:45 +0000
Subject: [PATCH 20/26] fix: do not subscribe to a closed config distributor

---
 pkg/server/config_distributor.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/server/config_distributor.go b/pkg/server/config_distributor.go
index f63c544..54dd275 100644
--- a/pkg/server/config_distributor.go
+++ b/pkg/server/config_distributor.go
@@ -94,14 +94,14 @@ func (p *ConfigDistributor) Get() (*Config, error) {
 // Subscribe subscribes given channel to configuration updates.
 // If checks are specified, new config will be sent to the channel only if one of them returns true.
 func (p *ConfigDistributor) Subscribe(ch chan<- *Config, checks ...ConfigChangedCheckFn) error {
-	// Check that distributor is still active
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	// Check that distributor is still active. Close cancels subscriptions under the same lock, do not add another one
 	if p.closed.HasFired() {
 		return ErrConfigDistributorClosed
 	}
 
-	p.mu.Lock()
-	defer p.mu.Unlock()
-
 	// Send current config immediately even before we registered a new subscription
 	if p.lastConfig != nil && p.shouldSendUpdatedConfig(checks, nil, p.lastConfig) {
 		ch <- p.lastConfig
-- 
2.43.0


From a07fed7c98339253841b5df80e7da8b783e5cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 21/26] fix: deliver what a hung up party has sent before

---
 pkg/server/session.go | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index d2ab701..e2a2678 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -282,23 +282,33 @@ func (s *Session) startClientInPump() error {
 
 // startClientOutPump pumps messages from the clientOut channel to the client.
 func (s *Session) startClientOutPump() error {
-	// Either everything that the database sent before it hung up is delivered, or the delivery is not possible anymore
+	// Everything that the database sent before it hung up is delivered (or cannot be delivered)
 	defer s.Close()
 
+	var sendErr error
+
 	for {
 		// Get next message in queue
 		message, ok := <-s.clientOut
 
 		// Channel is closed — exit
 		if !ok {
-			return nil
+			return sendErr
+		}
+
+		// The client hung up — do not let the database wait for it
+		if sendErr != nil {
+			continue
 		}
 
 		// Send the message over the network
-		err := s.clientConn.SendMessage(message)
+		sendErr = s.clientConn.SendMessage(message)
 
-		if err != nil {
-			return err
+		// This will stop the in pump; messages that the client sent before are still delivered to the database
+		if sendErr != nil {
+			err := s.clientConn.Close()
+
+			log.Debugf("session: client connection is closed; err = %v", err)
 		}
 	}
 }
@@ -325,23 +335,33 @@ func (s *Session) startDBInPump() error {
 
 // startDBOutPump pumps messages from the dbOut channel to the database.
 func (s *Session) startDBOutPump() error {
-	// Either everything that the client sent before it hung up is delivered, or the delivery is not possible anymore
+	// Everything that the client sent before it hung up is delivered (or cannot be delivered)
 	defer s.Close()
 
+	var sendErr error
+
 	for {
 		// Get next message in queue
 		message, ok := <-s.dbOut
 
 		// Channel is closed — exit
 		if !ok {
-			return nil
+			return sendErr
+		}
+
+		// The database hung up — do not let the client wait for it
+		if sendErr != nil {
+			continue
 		}
 
 		// Send the message over the network
-		err := s.dbConn.SendMessage(message)
+		sendErr = s.dbConn.SendMessage(message)
 
-		if err != nil {
-			return err
+		// This will stop the in pump; messages that the database sent before are still delivered to the client
+		if sendErr != nil {
+			err := s.dbConn.Close()
+
+			log.Debugf("session: database connection is closed; err = %v", err)
 		}
 	}
 }
-- 
2.43.0


From 05e31ee96caaf846728e55acd2124cd42d49e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:21 +0000
Subject: [PATCH 22/26] fix: change listeners in the order of config updates

---
 pkg/server/server.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index c355a85..db88582 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -121,8 +121,17 @@ func (srv *Server) Start() error {
 				continue
 			}
 
+			// Change the listener right away: goroutines that serve listeners may run in any order; the err could be
+			// ErrServerClosed
+			err = srv.changeListener(ln)
+
+			if err != nil {
+				ln.Close()
+				return err
+			}
+
 			// Serve the new listener
-			srv.do(func() { _ = srv.Serve(ln) })
+			srv.do(func() { _ = srv.acceptConns(ln) })
 
 		// Wait for the server shutdown
 		case <-srv.shutdown.Done():
@@ -147,6 +156,11 @@ func (srv *Server) Serve(ln net.Listener) error {
 		return err
 	}
 
+	return srv.acceptConns(ln)
+}
+
+// acceptConns calls ServeConn for every client connection accepted from the current listener.
+func (srv *Server) acceptConns(ln net.Listener) error {
 	log.Info("server: ready to accept client connections")
 
 	// Notify tests that server is listening
-- 
2.43.0


From 50a98857f19105684378426eed8216be30de6de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:29 +0000
Subject: [PATCH 23/26] fix: stop connecting to the database when the session
 is closed

---
 pkg/server/session.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index e2a2678..14b7943 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -218,8 +218,9 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 		return err
 	}
 
-	// Connect to the database
-	conn, err := net.Dial("tcp", net.JoinHostPort(host, port))
+	// Connect to the database; give up when the session is closed
+	dialer := net.Dialer{Cancel: s.closed.Done()} //nolint:staticcheck
+	conn, err := dialer.Dial("tcp", net.JoinHostPort(host, port))
 
 	if err != nil {
 		return err
-- 
2.43.0


From 2c07baa8dd58d4f89b273c4069b2c5ec2d8af0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:29 +0000
Subject: [PATCH 24/26] fix: do not create goroutines of a closed server

---
 pkg/server/server.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index db88582..0055691 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -130,8 +130,12 @@ func (srv *Server) Start() error {
 				return err
 			}
 
-			// Serve the new listener
-			srv.do(func() { _ = srv.acceptConns(ln) })
+			// Serve the new listener; the err could be ErrServerClosed, in which case Close closes the listener
+			err = srv.do(func() { _ = srv.acceptConns(ln) })
+
+			if err != nil {
+				return err
+			}
 
 		// Wait for the server shutdown
 		case <-srv.shutdown.Done():
@@ -191,8 +195,13 @@ func (srv *Server) acceptConns(ln net.Listener) error {
 			return err
 		}
 
-		// Serve client in a new goroutine
-		srv.do(func() { _ = srv.ServeConn(conn) })
+		// Serve client in a new goroutine; the err could be ErrServerClosed
+		err = srv.do(func() { _ = srv.ServeConn(conn) })
+
+		if err != nil {
+			conn.Close()
+			return err
+		}
 	}
 }
 
@@ -318,13 +327,24 @@ func (srv *Server) changeListener(ln net.Listener) error {
 
 // do creates a goroutine, but maintains a record of it to ensure that execution completes
 // before the server is shutdown.
-func (srv *Server) do(f func()) {
+func (srv *Server) do(f func()) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
+	// Refuse to create a goroutine if Server is closed. NB: we check it under the lock, otherwise
+	// Close could miss the new goroutine
+	if srv.shutdown.HasFired() {
+		return ErrServerClosed
+	}
+
 	srv.wg.Add(1)
 
 	go func() {
 		defer srv.wg.Done()
 		f()
 	}()
+
+	return nil
 }
 
 // registerSession adds the given session to the sessions map. It can be called concurrently.
-- 
2.43.0


From cf7365aecc2f49c5e229940415e2afb9f6b09a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:04 +0000
Subject: [PATCH 25/26] fix: do not share the error of the file watcher's event
 loop with the caller of Watch

---
 pkg/cli/file_watcher.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/cli/file_watcher.go b/pkg/cli/file_watcher.go
index 96748d8..e21a123 100644
--- a/pkg/cli/file_watcher.go
+++ b/pkg/cli/file_watcher.go
@@ -34,7 +34,7 @@ func newFileWatcher(path string) *fileWatcher {
 // nolint:gocognit
 func (w *fileWatcher) Watch() error {
 	// We have 2 nested goroutines in this function.
-	// We use watcherError variable to pull any errors from them into the calling gorouting.
+	// We use watcherError variable to pull any initialization errors from them into the calling gorouting.
 	var watcherError error = nil
 
 	// Initialization sync group. We have to wait until the watcher starts the watching to
@@ -58,6 +58,9 @@ func (w *fileWatcher) Watch() error {
 		eventsWG := sync.WaitGroup{}
 		eventsWG.Add(1)
 
+		// Error of the event loop; NB: it could occur after Watch has returned, so it is not a watcherError
+		var eventsError error
+
 		// Channel to notify handler to stop
 		w.watchDone = make(chan bool)
 
@@ -97,7 +100,7 @@ func (w *fileWatcher) Watch() error {
 				case err, ok := <-watcher.Errors:
 					// 'Errors' channel is open
 					if ok {
-						watcherError = err
+						eventsError = err
 					}
 
 					return
@@ -126,8 +129,8 @@ func (w *fileWatcher) Watch() error {
 
 		// We are not in the context of calling goroutine anymore so we cannot just return error
 		// and have to print the error by ourselves.
-		if watcherError != nil {
-			log.Errorf("file watcher error: %v\n", watcherError)
+		if eventsError != nil {
+			log.Errorf("file watcher error: %v\n", eventsError)
 		}
 	}()
 
-- 
2.43.0


From 9f86ff2d41f3a8b4f2c8355ffd57d26663c818ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:04 +0000
Subject: [PATCH 26/26] fix: do not start the server when any kind of help has
 been requested

---
 pkg/cli/cli.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cli/cli.go b/pkg/cli/cli.go
index 83f3478..29622db 100644
--- a/pkg/cli/cli.go
+++ b/pkg/cli/cli.go
@@ -54,8 +54,8 @@ func (c *cli) parseArgs(args []string) (*cliArgs, error) {
 
 	app := kingpin.New(appName, "")
 
-	// Do not call os.Exit
-	app.Terminate(nil)
+	// Do not call os.Exit. NB: there are more flags that print something and then exit (e.g., --help-long)
+	app.Terminate(func(int) { parsedArgs.isHelp = true })
 
 	// Write output to stderr
 	app.Writer(c.stderr)
-- 
2.43.0

