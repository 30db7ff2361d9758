From 20549f799841ecb0b7e3ca6901e95c1b5949314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 01/29] fix: don't handle signals received during the server
 shutdown

---
 registerHandler.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/registerHandler.go b/registerHandler.go
index b52f6aa..fb527c7 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -34,9 +34,11 @@ func (srv *server) registerHandler(
 	}
 	srv.opsLock.Unlock()
 
-	if failMsg && msg.RequiresReply() {
-		// Don't process the message, fail it
-		srv.failMsgShutdown(con, msg)
+	if failMsg {
+		// Don't process the message, fail it if it expects a reply
+		if msg.RequiresReply() {
+			srv.failMsgShutdown(con, msg)
+		}
 		return false
 	}
 
-- 
2.43.0


From 903a67745277b39ed3abc5cf4c8c0254dc7478da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 02/29] fix: release the handler slot of messages refused
 during shutdown

---
 registerHandler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/registerHandler.go b/registerHandler.go
index fb527c7..7f6a94d 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -39,6 +39,10 @@ func (srv *server) registerHandler(
 		if msg.RequiresReply() {
 			srv.failMsgShutdown(con, msg)
 		}
+		// Release the handler slot of the refused message
+		if con.options.ConcurrencyLimit > 1 {
+			con.handlerSlots.Release(1)
+		}
 		return false
 	}
 
-- 
2.43.0


From 6bd1011b50caabf7881d60f4a2c787392edd219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 03/29] fix: don't use a nil writer when refusing a request
 during shutdown

---
 failMsg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/failMsg.go b/failMsg.go
index 95d6feb..65951ff 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -109,6 +109,7 @@ func (srv *server) failMsgShutdown(con *connection, msg *message.Message) {
 			con,
 			err,
 		)
+		return
 	}
 
 	if err := message.WriteMsgSpecialRequestReply(
-- 
2.43.0


From 11ef57f1e823c0b41d36789ced876d04fe7a66a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 04/29] fix: refuse requests on a closing connection instead of
 dropping them

Check for the closure and register the task atomically, a message could
have been handled on an already unlinked connection otherwise
---
 connection.go      | 11 ++++++++---
 registerHandler.go | 18 +++++++++++++++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/connection.go b/connection.go
index f07bd6c..42f0ab1 100644
--- a/connection.go
+++ b/connection.go
@@ -92,11 +92,16 @@ func (con *connection) IsActive() bool {
 
 }
 
-// registerTask increments the number of currently executed tasks
-func (con *connection) registerTask() {
+// registerTask increments the number of currently executed tasks and returns
+// true, or returns false if the connection is no longer active
+func (con *connection) registerTask() bool {
 	con.stateLock.Lock()
+	defer con.stateLock.Unlock()
+	if !con.isActive {
+		return false
+	}
 	con.tasks++
-	con.stateLock.Unlock()
+	return true
 }
 
 // deregisterTask decrements the number of currently executed tasks
diff --git a/registerHandler.go b/registerHandler.go
index 7f6a94d..0aff784 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -17,6 +17,10 @@ func (srv *server) registerHandler(
 	failMsg := false
 
 	if !con.IsActive() {
+		// The connection is being closed, fail the message
+		if msg.RequiresReply() {
+			srv.failMsgShutdown(con, msg)
+		}
 		return false
 	}
 
@@ -25,6 +29,18 @@ func (srv *server) registerHandler(
 		con.handlerSlots.Acquire(context.Background(), 1)
 	}
 
+	// Register the task before accepting the message, the connection could have
+	// been closed in the meantime
+	if !con.registerTask() {
+		if msg.RequiresReply() {
+			srv.failMsgShutdown(con, msg)
+		}
+		if con.options.ConcurrencyLimit > 1 {
+			con.handlerSlots.Release(1)
+		}
+		return false
+	}
+
 	srv.opsLock.Lock()
 	if srv.shutdown {
 		// defer failure due to shutdown of either the server or the connection
@@ -39,6 +55,7 @@ func (srv *server) registerHandler(
 		if msg.RequiresReply() {
 			srv.failMsgShutdown(con, msg)
 		}
+		con.deregisterTask()
 		// Release the handler slot of the refused message
 		if con.options.ConcurrencyLimit > 1 {
 			con.handlerSlots.Release(1)
@@ -46,6 +63,5 @@ func (srv *server) registerHandler(
 		return false
 	}
 
-	con.registerTask()
 	return true
 }
-- 
2.43.0


From 256db69768efe1a1e92ee2784df287c13033e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 05/29] fix: don't keep references to lost connections forever

---
 handleConnection.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/handleConnection.go b/handleConnection.go
index e84988f..7fb0df7 100644
--- a/handleConnection.go
+++ b/handleConnection.go
@@ -32,6 +32,21 @@ func (srv *server) writeConfMessage(sock Socket) error {
 	return nil
 }
 
+// forgetConnection removes the connection from the list of connections
+func (srv *server) forgetConnection(connection *connection) {
+	srv.connectionsLock.Lock()
+	for i, con := range srv.connections {
+		if con == connection {
+			last := len(srv.connections) - 1
+			srv.connections[i] = srv.connections[last]
+			srv.connections[last] = nil
+			srv.connections = srv.connections[:last]
+			break
+		}
+	}
+	srv.connectionsLock.Unlock()
+}
+
 func (srv *server) handleConnection(
 	connectionOptions ConnectionOptions,
 	sock Socket,
@@ -76,6 +91,7 @@ func (srv *server) handleConnection(
 
 			connection.Close()
 			srv.impl.OnClientDisconnected(connection, err)
+			srv.forgetConnection(connection)
 			break
 		}
 
-- 
2.43.0


From 890baf84633e7ed8b1462d140660e24a8cb44233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 06/29] fix: don't deregister sessions of other connections

Deregistering a connection that's not registered (anymore) removed and
potentially destroyed the session if one other connection was left
---
 sessionRegistry.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sessionRegistry.go b/sessionRegistry.go
index 6276b9c..cf67a9f 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -76,6 +76,12 @@ func (asr *sessionRegistry) deregister(
 
 	asr.lock.Lock()
 	if connSet, exists := asr.registry[conn.session.Key]; exists {
+		if _, registered := connSet[conn]; !registered {
+			// Don't touch the connections of others
+			asr.lock.Unlock()
+			return -1
+		}
+
 		// If a single connection is left then remove or destroy the session
 		if len(connSet) < 2 {
 			delete(asr.registry, conn.session.Key)
-- 
2.43.0


From 680ff78b6fac9caadb80c976508abeb3e9b72b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 07/29] fix: survive and log a failing OnSessionClosed hook

The registry had no reference to the server, hence recovering from a
panicking hook panicked as well
---
 newServer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newServer.go b/newServer.go
index 53018ae..53da434 100644
--- a/newServer.go
+++ b/newServer.go
@@ -77,10 +77,11 @@ func NewServer(
 			if err := srv.sessionManager.OnSessionClosed(
 				sessionKey,
 			); err != nil {
-				srv.errorLog.Printf("session registry ")
+				srv.errorLog.Printf("session closure hook failed: %s", err)
 			}
 		},
 	)
+	srv.sessionRegistry.server = srv
 
 	// Initialize the transport layer
 	if err := transport.Initialize(
-- 
2.43.0


From 3895b7f40a25316e4425ef89425c2aeb49215728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 08/29] fix: don't leave the session locked when user code
 panics

A panicking session key generator (or an empty key) or session info
blocked all further session operations on the connection
---
 connection.go | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/connection.go b/connection.go
index 42f0ab1..250d989 100644
--- a/connection.go
+++ b/connection.go
@@ -194,6 +194,25 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		return ErrSessionsDisabled{}
 	}
 
+	if err := con.createSession(attachment); err != nil {
+		return err
+	}
+
+	// Call session creation hook
+	if err := con.srv.sessionManager.OnSessionCreated(con); err != nil {
+		con.srv.errorLog.Printf("OnSessionCreated hook failed: %s", err)
+	}
+
+	return nil
+}
+
+// createSession creates a new session, synchronizes it to the client and
+// registers it
+func (con *connection) createSession(attachment SessionInfo) error {
+	// Release the lock even if the key generator or the attachment panics
+	con.sessionLock.Lock()
+	defer con.sessionLock.Unlock()
+
 	if !con.sock.IsConnected() {
 		return ErrDisconnected{
 			Cause: fmt.Errorf(
@@ -202,11 +221,8 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		}
 	}
 
-	con.sessionLock.Lock()
-
 	// Abort if there's already another active session
 	if con.session != nil {
-		con.sessionLock.Unlock()
 		return fmt.Errorf(
 			"Another session (%s) on this client is already active",
 			con.session.Key,
@@ -218,7 +234,6 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 
 	// Try to notify about session creation
 	if err := con.notifySessionCreated(&newSession); err != nil {
-		con.sessionLock.Unlock()
 		return fmt.Errorf(
 			"Couldn't notify client about the session creation: %s",
 			err,
@@ -229,12 +244,6 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 	con.session = &newSession
 
 	con.srv.sessionRegistry.register(con)
-	con.sessionLock.Unlock()
-
-	// Call session creation hook
-	if err := con.srv.sessionManager.OnSessionCreated(con); err != nil {
-		con.srv.errorLog.Printf("OnSessionCreated hook failed: %s", err)
-	}
 
 	return nil
 }
@@ -311,9 +320,8 @@ func (con *connection) HasSession() bool {
 // Session implements the Connection interface
 func (con *connection) Session() *Session {
 	con.sessionLock.RLock()
-	clone := con.session.Clone()
-	con.sessionLock.RUnlock()
-	return clone
+	defer con.sessionLock.RUnlock()
+	return con.session.Clone()
 }
 
 // SessionKey implements the Connection interface
@@ -343,13 +351,11 @@ func (con *connection) SessionCreation() time.Time {
 // SessionInfo implements the Connection interface
 func (con *connection) SessionInfo(name string) interface{} {
 	con.sessionLock.RLock()
+	defer con.sessionLock.RUnlock()
 	if con.session == nil || con.session.Info == nil {
-		con.sessionLock.RUnlock()
 		return nil
 	}
-	val := con.session.Info.Value(name)
-	con.sessionLock.RUnlock()
-	return val
+	return con.session.Info.Value(name)
 }
 
 // Close implements the Connection interface
-- 
2.43.0


From 1952dba3ac9ca76afc48ae080685fb290b75febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 09/29] fix: don't leave sessions of lost connections in the
 registry

A session created while the connection is being unlinked was registered
after the deregistration and stayed in the registry forever
---
 connection.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/connection.go b/connection.go
index 250d989..4e5115a 100644
--- a/connection.go
+++ b/connection.go
@@ -132,12 +132,14 @@ func (con *connection) setSession(newSess *Session) {
 // unlink resets the connection and marks it as disconnected
 // preparing it for garbage collection
 func (con *connection) unlink() {
+	// Don't let a session be assigned between the deregistration and the
+	// closure of the socket, it would never be deregistered
+	con.sessionLock.Lock()
+	defer con.sessionLock.Unlock()
+
 	// Deregister session from active sessions registry, but don't destroy it
 	con.srv.sessionRegistry.deregister(con, false)
-
-	con.sessionLock.Lock()
 	con.session = nil
-	con.sessionLock.Unlock()
 
 	// Close connection
 	con.sock.Close()
-- 
2.43.0


From c81a9f22c38c222b3df54a34a1d78c61aa974a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 10/29] fix: restore and close sessions atomically

Two concurrent restorations of the last free slot of a session crashed
the server, restoring another session left the previous one in the
registry, and concurrent closures raced for the session
---
 connection.go           |  7 -------
 handleSessionClosure.go |  9 +++++++--
 handleSessionRestore.go | 21 +++++++++++++++------
 sessionRegistry.go      | 13 +++++++++++++
 4 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/connection.go b/connection.go
index 4e5115a..f80ab89 100644
--- a/connection.go
+++ b/connection.go
@@ -122,13 +122,6 @@ func (con *connection) deregisterTask() {
 	}
 }
 
-// setSession sets a new session for this client
-func (con *connection) setSession(newSess *Session) {
-	con.sessionLock.Lock()
-	con.session = newSess
-	con.sessionLock.Unlock()
-}
-
 // unlink resets the connection and marks it as disconnected
 // preparing it for garbage collection
 func (con *connection) unlink() {
diff --git a/handleSessionClosure.go b/handleSessionClosure.go
index 139cc8a..a839beb 100644
--- a/handleSessionClosure.go
+++ b/handleSessionClosure.go
@@ -23,7 +23,11 @@ func (srv *server) handleSessionClosure(
 		return
 	}
 
-	if !con.HasSession() {
+	// Don't let the session be changed concurrently
+	con.sessionLock.Lock()
+	if con.session == nil {
+		con.sessionLock.Unlock()
+
 		// Send confirmation even though no session was closed
 		srv.fulfillMsg(con, msg, Payload{})
 		finalize()
@@ -35,7 +39,8 @@ func (srv *server) handleSessionClosure(
 	srv.sessionRegistry.deregister(con, true)
 
 	// Reset the session on the connection
-	con.setSession(nil)
+	con.session = nil
+	con.sessionLock.Unlock()
 
 	// Send confirmation
 	srv.fulfillMsg(con, msg, Payload{})
diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index e3c3726..cb2ce58 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -2,7 +2,6 @@ package webwire
 
 import (
 	"encoding/json"
-	"fmt"
 
 	"github.com/qbeon/webwire-go/message"
 )
@@ -83,17 +82,27 @@ func (srv *server) handleSessionRestore(
 		parsedSessInfo = srv.sessionInfoParser(sessionInfo)
 	}
 
-	con.setSession(&Session{
+	con.sessionLock.Lock()
+	previous := con.session
+	con.session = &Session{
 		Key:        key,
 		Creation:   sessionCreation,
 		LastLookup: sessionLastLookup,
 		Info:       parsedSessInfo,
-	})
+	}
 	if err := srv.sessionRegistry.register(con); err != nil {
-		panic(fmt.Errorf("the number of concurrent session connections was " +
-			"unexpectedly exceeded",
-		))
+		// Other connections have joined the session in the meantime
+		con.session = previous
+		con.sessionLock.Unlock()
+		srv.failMsg(con, msg, ErrMaxSessConnsReached{})
+		finalize()
+		return
+	}
+	if previous != nil && previous.Key != key {
+		// Leave the previous session
+		srv.sessionRegistry.remove(con, previous.Key)
 	}
+	con.sessionLock.Unlock()
 
 	srv.fulfillMsg(
 		con,
diff --git a/sessionRegistry.go b/sessionRegistry.go
index cf67a9f..91de741 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -117,6 +117,19 @@ func (asr *sessionRegistry) deregister(
 	return -1
 }
 
+// remove removes a connection from the list of connections of the session with
+// the given key without destroying the session
+func (asr *sessionRegistry) remove(conn *connection, sessionKey string) {
+	asr.lock.Lock()
+	if connSet, exists := asr.registry[sessionKey]; exists {
+		delete(connSet, conn)
+		if len(connSet) < 1 {
+			delete(asr.registry, sessionKey)
+		}
+	}
+	asr.lock.Unlock()
+}
+
 // activeSessionsNum returns the number of currently active sessions
 func (asr *sessionRegistry) activeSessionsNum() int {
 	asr.lock.RLock()
-- 
2.43.0


From ec90cc1ac0970b60989031a4b7fb4e2aaece42cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 11/29] fix: don't restore sessions that are being destroyed

A session looked up before and registered after its destruction stayed
assigned to the connection although it doesn't exist anymore
---
 handleSessionRestore.go | 12 ++++++--
 sessionRegistry.go      | 66 ++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 75 insertions(+), 3 deletions(-)

diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index cb2ce58..93f0a4d 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -35,6 +35,10 @@ func (srv *server) handleSessionRestore(
 		return
 	}
 
+	// The session must not be destroyed while it's being restored
+	srv.sessionRegistry.beginRestoration(con, key)
+	defer srv.sessionRegistry.endRestoration(con)
+
 	// Call session manager lookup hook
 	result, err := srv.sessionManager.OnSessionLookup(key)
 
@@ -91,10 +95,14 @@ func (srv *server) handleSessionRestore(
 		Info:       parsedSessInfo,
 	}
 	if err := srv.sessionRegistry.register(con); err != nil {
-		// Other connections have joined the session in the meantime
+		// Other connections have joined or destroyed the session meanwhile
 		con.session = previous
 		con.sessionLock.Unlock()
-		srv.failMsg(con, msg, ErrMaxSessConnsReached{})
+		if _, destroyed := err.(ErrSessionNotFound); destroyed {
+			srv.failMsg(con, msg, ErrSessionNotFound{})
+		} else {
+			srv.failMsg(con, msg, ErrMaxSessConnsReached{})
+		}
 		finalize()
 		return
 	}
diff --git a/sessionRegistry.go b/sessionRegistry.go
index 91de741..b8e3967 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -13,6 +13,19 @@ type sessionRegistry struct {
 	maxConns         uint
 	registry         map[string]map[*connection]struct{}
 	onSessionDestroy func(sessionKey string)
+
+	// restorations keeps track of ongoing session restorations
+	restorations map[*connection]*restoration
+
+	// destructions counts the ongoing destructions of sessions by key
+	destructions map[string]int
+}
+
+// restoration represents the ongoing restoration of a session. It becomes void
+// if the session is destroyed before the restoration is finished
+type restoration struct {
+	sessionKey string
+	void       bool
 }
 
 // newSessionRegistry returns a new instance of a session registry.
@@ -27,14 +40,60 @@ func newSessionRegistry(
 		maxConns:         maxConns,
 		registry:         make(map[string]map[*connection]struct{}),
 		onSessionDestroy: onSessionDestroy,
+		restorations:     make(map[*connection]*restoration),
+		destructions:     make(map[string]int),
+	}
+}
+
+// beginRestoration must be called before looking up the session to be restored
+func (asr *sessionRegistry) beginRestoration(con *connection, key string) {
+	asr.lock.Lock()
+	asr.restorations[con] = &restoration{
+		sessionKey: key,
+		void:       asr.destructions[key] > 0,
 	}
+	asr.lock.Unlock()
+}
+
+// endRestoration must be called when the restoration is finished
+func (asr *sessionRegistry) endRestoration(con *connection) {
+	asr.lock.Lock()
+	delete(asr.restorations, con)
+	asr.lock.Unlock()
+}
+
+// beginDestruction marks the session as being destroyed and voids all ongoing
+// restorations of it. The registry must be locked
+func (asr *sessionRegistry) beginDestruction(key string) {
+	asr.destructions[key]++
+	for _, restoration := range asr.restorations {
+		if restoration.sessionKey == key {
+			restoration.void = true
+		}
+	}
+}
+
+// endDestruction must be called when the session is destroyed
+func (asr *sessionRegistry) endDestruction(key string) {
+	asr.lock.Lock()
+	asr.destructions[key]--
+	if asr.destructions[key] < 1 {
+		delete(asr.destructions, key)
+	}
+	asr.lock.Unlock()
 }
 
 // register registers a new connection for the given clients session.
 // Returns an error if the given clients session already reached
-// the maximum number of concurrent connections
+// the maximum number of concurrent connections or if it was destroyed while
+// it was being restored
 func (asr *sessionRegistry) register(con *connection) error {
 	asr.lock.Lock()
+	if restoration, exists := asr.restorations[con]; exists &&
+		restoration.void && restoration.sessionKey == con.session.Key {
+		asr.lock.Unlock()
+		return ErrSessionNotFound{}
+	}
 	if connSet, exists := asr.registry[con.session.Key]; exists {
 		// Ensure max connections isn't exceeded
 		if asr.maxConns > 0 && uint(len(connSet)+1) > asr.maxConns {
@@ -85,10 +144,15 @@ func (asr *sessionRegistry) deregister(
 		// If a single connection is left then remove or destroy the session
 		if len(connSet) < 2 {
 			delete(asr.registry, conn.session.Key)
+			if destroy {
+				asr.beginDestruction(conn.session.Key)
+			}
 			asr.lock.Unlock()
 
 			// Destroy the session
 			if destroy {
+				defer asr.endDestruction(conn.session.Key)
+
 				// Recover potential user-space hook panics
 				// to avoid panicking the server
 				defer func() {
-- 
2.43.0


From 01db04f59dd6ef9f100f9ea57390822d710f35c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 12/29] fix: send session notifications in the order of the
 changes

A session created right after a closure was announced before the closure
leaving the client without a session
---
 connection.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index f80ab89..0c5a69d 100644
--- a/connection.go
+++ b/connection.go
@@ -299,9 +299,13 @@ func (con *connection) CloseSession() error {
 	// the last connection left
 	con.srv.sessionRegistry.deregister(con, true)
 	con.session = nil
+
+	// Notify the client before another session can be created, the
+	// notifications could be sent in the wrong order otherwise
+	err := con.notifySessionClosed()
 	con.sessionLock.Unlock()
 
-	return con.notifySessionClosed()
+	return err
 }
 
 // HasSession implements the Connection interface
-- 
2.43.0


From 7c7ef0808bcd950e9f94a5fa41f119d1ce111170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 13/29] fix: don't close other sessions in Server.CloseSession

A connection that switched to another session after being listed lost
its new session
---
 connection.go | 8 +++++++-
 server.go     | 6 +++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/connection.go b/connection.go
index 0c5a69d..a9dd8c8 100644
--- a/connection.go
+++ b/connection.go
@@ -289,8 +289,14 @@ func (con *connection) CloseSession() error {
 		return ErrSessionsDisabled{}
 	}
 
+	return con.closeSession(nil)
+}
+
+// closeSession closes the current session if it's the one with the given key,
+// or any session if no key is given
+func (con *connection) closeSession(key *string) error {
 	con.sessionLock.Lock()
-	if con.session == nil {
+	if con.session == nil || (key != nil && con.session.Key != *key) {
 		con.sessionLock.Unlock()
 		return nil
 	}
diff --git a/server.go b/server.go
index 4cf3014..b309b59 100644
--- a/server.go
+++ b/server.go
@@ -100,9 +100,9 @@ func (srv *server) CloseSession(sessionKey string) (
 	affectedConnections = make([]Connection, len(connections))
 	i := 0
 	errNum := 0
-	for _, connection := range connections {
-		affectedConnections[i] = connection
-		err := connection.CloseSession()
+	for _, con := range connections {
+		affectedConnections[i] = con
+		err := con.(*connection).closeSession(&sessionKey)
 		if err != nil {
 			errors[i] = err
 			errNum++
-- 
2.43.0


From fa0c97ab4b0b86a4b4b9cc43036d5c78d07aba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 14/29] fix: answer requests whose reply can't be sent with an
 internal error

Misaligned UTF16 replies, invalid error codes and replies exceeding the
message buffer left the client without any reply
---
 failMsg.go              | 38 ++++++++++++++++++++++++++++++++++++++
 fulfillMsg.go           | 29 ++++++++++++++++++++++++++++-
 handleSessionRestore.go | 20 ++++++++++++--------
 3 files changed, 78 insertions(+), 9 deletions(-)

diff --git a/failMsg.go b/failMsg.go
index 65951ff..01ffb2e 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -1,9 +1,30 @@
 package webwire
 
 import (
+	"fmt"
+
 	"github.com/qbeon/webwire-go/message"
 )
 
+// validateErrorReply returns an error if the error reply can't be encoded or
+// doesn't fit into the message buffer
+func (srv *server) validateErrorReply(reqErr ErrRequest) error {
+	if len(reqErr.Code) < 1 || len(reqErr.Code) > 255 {
+		return fmt.Errorf("invalid error code length: %d", len(reqErr.Code))
+	}
+	for i := 0; i < len(reqErr.Code); i++ {
+		if reqErr.Code[i] < 32 || reqErr.Code[i] > 126 {
+			return fmt.Errorf("invalid error code: %q", reqErr.Code)
+		}
+	}
+	// Message type, identifier and error code length
+	msgLen := 10 + len(reqErr.Code) + len(reqErr.Message)
+	if uint64(msgLen) > uint64(srv.options.MessageBufferSize) {
+		return ErrBufferOverflow{}
+	}
+	return nil
+}
+
 // failMsg fails the message returning an error reply
 func (srv *server) failMsg(
 	con *connection,
@@ -16,6 +37,23 @@ func (srv *server) failMsg(
 		return
 	}
 
+	// Send an internal error instead of an error that can't be sent
+	var invalid error
+	switch err := reqErr.(type) {
+	case ErrRequest:
+		invalid = srv.validateErrorReply(err)
+	case *ErrRequest:
+		if err == nil {
+			invalid = fmt.Errorf("nil")
+		} else {
+			invalid = srv.validateErrorReply(*err)
+		}
+	}
+	if invalid != nil {
+		srv.errorLog.Printf("invalid request error: %s", invalid)
+		reqErr = nil
+	}
+
 	writer, err := con.sock.GetWriter()
 	if err != nil {
 		srv.errorLog.Printf(
diff --git a/fulfillMsg.go b/fulfillMsg.go
index f4cad1f..58e7583 100644
--- a/fulfillMsg.go
+++ b/fulfillMsg.go
@@ -1,6 +1,26 @@
 package webwire
 
-import "github.com/qbeon/webwire-go/message"
+import (
+	"fmt"
+
+	"github.com/qbeon/webwire-go/message"
+)
+
+// validateReply returns an error if the reply can't be encoded or doesn't fit
+// into the message buffer
+func (srv *server) validateReply(reply Payload) error {
+	msgLen := message.MinLenReply + len(reply.Data)
+	if reply.Encoding == EncodingUtf16 {
+		if len(reply.Data)%2 != 0 {
+			return fmt.Errorf("invalid UTF16 data length: %d", len(reply.Data))
+		}
+		msgLen = message.MinLenReplyUtf16 + len(reply.Data)
+	}
+	if uint64(msgLen) > uint64(srv.options.MessageBufferSize) {
+		return ErrBufferOverflow{}
+	}
+	return nil
+}
 
 // fulfillMsg fulfills the message sending the reply
 func (srv *server) fulfillMsg(
@@ -8,6 +28,13 @@ func (srv *server) fulfillMsg(
 	msg *message.Message,
 	replyPayload Payload,
 ) {
+	// Fail the message if the reply can't be sent
+	if err := srv.validateReply(replyPayload); err != nil {
+		srv.errorLog.Printf("invalid reply: %s", err)
+		srv.failMsg(con, msg, nil)
+		return
+	}
+
 	writer, err := con.sock.GetWriter()
 	if err != nil {
 		srv.errorLog.Printf(
diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index 93f0a4d..a8c80d3 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -80,6 +80,17 @@ func (srv *server) handleSessionRestore(
 		return
 	}
 
+	encodedReply := Payload{
+		Encoding: EncodingUtf8,
+		Data:     encodedSession,
+	}
+	if err := srv.validateReply(encodedReply); err != nil {
+		srv.failMsg(con, msg, nil)
+		finalize()
+		srv.errorLog.Printf("couldn't send the restored session: %s", err)
+		return
+	}
+
 	// Parse attached session info
 	var parsedSessInfo SessionInfo
 	if sessionInfo != nil && srv.sessionInfoParser != nil {
@@ -112,13 +123,6 @@ func (srv *server) handleSessionRestore(
 	}
 	con.sessionLock.Unlock()
 
-	srv.fulfillMsg(
-		con,
-		msg,
-		Payload{
-			Encoding: EncodingUtf8,
-			Data:     encodedSession,
-		},
-	)
+	srv.fulfillMsg(con, msg, encodedReply)
 	finalize()
 }
-- 
2.43.0


From cf79f710517a0575807e76dcc3c593266942ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 15/29] fix: accept UTF16 encoded signals that only carry a
 name

They're sent by Connection.Signal and accepted for all other encodings
---
 message/parseSignalUtf16.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/message/parseSignalUtf16.go b/message/parseSignalUtf16.go
index 1998db8..c6fc552 100644
--- a/message/parseSignalUtf16.go
+++ b/message/parseSignalUtf16.go
@@ -25,8 +25,9 @@ func (msg *Message) parseSignalUtf16() error {
 	// Read name length
 	nameLen := int(dat[1])
 
-	// Determine minimum required message length
-	minMsgSize := MinLenSignalUtf16 + nameLen
+	// Determine minimum required message length, either a name or a payload is
+	// required
+	minMsgSize := 2 + nameLen
 	payloadOffset := 2 + nameLen
 
 	// Check whether a name padding byte is to be expected
-- 
2.43.0


From 30ba4a23306f6c505811ff71e5e7f12e61b4d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 16/29] fix: don't accept messages exceeding the message buffer

A reader returning data together with io.EOF overwrote the beginning of
the message with its end
---
 message/buffer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/message/buffer.go b/message/buffer.go
index f20508f..770db6a 100644
--- a/message/buffer.go
+++ b/message/buffer.go
@@ -33,8 +33,10 @@ func (buf *Buffer) Read(reader io.Reader) error {
 	for {
 		if cursor >= len(buf.buf) {
 			// Expect EOF on full buffer
-			_, err := reader.Read(buf.buf)
-			if err != io.EOF {
+			// (without overwriting what's already been read)
+			var excess [1]byte
+			excessBytes, err := reader.Read(excess[:])
+			if excessBytes > 0 || err != io.EOF {
 				// Overflow! Discard the message that's bigger than the buffer
 				buf.Close()
 				io.Copy(ioutil.Discard, reader)
-- 
2.43.0


From c72d8e0d28bebd95f4c9d49b75b16a1b128b0cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 17/29] fix: don't mix up messages when reusing a message
 object

Parts of the previous message (name, payload, ...) that the new message
doesn't have were kept. Closing a message without a pool panicked
---
 message/message.go | 15 +++++++++++----
 message/parse.go   |  3 +++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/message/message.go b/message/message.go
index 5d04156..8399bbf 100644
--- a/message/message.go
+++ b/message/message.go
@@ -302,13 +302,20 @@ func (msg *Message) Close() {
 	}
 
 	msg.MsgBuffer.Close()
+	msg.reset()
+
+	// Call closure callback
+	if msg.onClose != nil {
+		msg.onClose()
+	}
+}
+
+// reset resets everything that was parsed from the message buffer
+func (msg *Message) reset() {
 	msg.MsgType = 0
 	msg.MsgIdentifier = [8]byte{}
-	msg.MsgIdentifierBytes = nil
+	msg.MsgIdentifierBytes = msg.MsgIdentifier[:]
 	msg.MsgName = nil
 	msg.MsgPayload = pld.Payload{}
 	msg.ServerConfiguration = ServerConfiguration{}
-
-	// Call closure callback
-	msg.onClose()
 }
diff --git a/message/parse.go b/message/parse.go
index 11be7aa..1c0e9b6 100644
--- a/message/parse.go
+++ b/message/parse.go
@@ -10,6 +10,9 @@ import (
 // the returned parsedMsgType is set to false if the message type
 // couldn't be determined, otherwise it's set to true.
 func (msg *Message) parse() (parsedMsgType bool, err error) {
+	// Don't mix the new message up with the previous one
+	msg.reset()
+
 	if msg.MsgBuffer.IsEmpty() {
 		return false, nil
 	}
-- 
2.43.0


From d72fe7a878a0b0425b6a4e267ae46d9b44abcf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 18/29] fix: convert UTF16 surrogate pairs to UTF8 properly

---
 payload/payload.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/payload/payload.go b/payload/payload.go
index 1c7292e..95e1404 100644
--- a/payload/payload.go
+++ b/payload/payload.go
@@ -21,13 +21,15 @@ func (pld *Payload) Utf8() ([]byte, error) {
 				"Cannot convert invalid UTF16 payload data to UTF8",
 			)
 		}
-		u16str := make([]uint16, 1)
+		u16str := make([]uint16, len(pld.Data)/2)
 		utf8str := &bytes.Buffer{}
 		utf8buf := make([]byte, 4)
 		for i := 0; i < len(pld.Data); i += 2 {
-			u16str[0] = uint16(pld.Data[i]) + (uint16(pld.Data[i+1]) << 8)
-			rn := utf16.Decode(u16str)
-			rnSize := utf8.EncodeRune(utf8buf, rn[0])
+			u16str[i/2] = uint16(pld.Data[i]) + (uint16(pld.Data[i+1]) << 8)
+		}
+		// Decode the text as a whole, surrogate pairs are lost otherwise
+		for _, rn := range utf16.Decode(u16str) {
+			rnSize := utf8.EncodeRune(utf8buf, rn)
 			utf8str.Write(utf8buf[:rnSize])
 		}
 		return utf8str.Bytes(), nil
-- 
2.43.0


From 90411c72f55e080cc68c7dfde55e43a71df5f517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 19/29] fix: complete requests at most once

Two concurrent completions of the same request both succeeded
---
 requestManager/requestManager.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/requestManager/requestManager.go b/requestManager/requestManager.go
index d739adb..f7ab53b 100644
--- a/requestManager/requestManager.go
+++ b/requestManager/requestManager.go
@@ -63,15 +63,16 @@ func (manager *RequestManager) deregister(identifier [8]byte) {
 // Returns true if a pending request was fulfilled and deregistered,
 // otherwise returns false
 func (manager *RequestManager) Fulfill(msg *message.Message) bool {
-	manager.lock.RLock()
+	// Find and deregister the request atomically
+	manager.lock.Lock()
 	req, exists := manager.pending[msg.MsgIdentifier]
-	manager.lock.RUnlock()
+	delete(manager.pending, msg.MsgIdentifier)
+	manager.lock.Unlock()
 
 	if !exists {
 		return false
 	}
 
-	manager.deregister(msg.MsgIdentifier)
 	req.Reply <- genericReply{
 		ReplyMsg: msg,
 	}
@@ -85,15 +86,16 @@ func (manager *RequestManager) Fail(
 	identifier [8]byte,
 	err error,
 ) bool {
-	manager.lock.RLock()
+	// Find and deregister the request atomically
+	manager.lock.Lock()
 	req, exists := manager.pending[identifier]
-	manager.lock.RUnlock()
+	delete(manager.pending, identifier)
+	manager.lock.Unlock()
 
 	if !exists {
 		return false
 	}
 
-	manager.deregister(identifier)
 	req.Reply <- genericReply{
 		Error: err,
 	}
-- 
2.43.0


From 58b5726239fe0808d0bd51d54218d82985fd1b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 20/29] fix: don't lose replies of requests that time out while
 being fulfilled

The reply was reported as delivered but the waiter returned an error
---
 requestManager/request.go        | 20 ++++++++++++++++----
 requestManager/requestManager.go | 18 ++++++++----------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/requestManager/request.go b/requestManager/request.go
index d513ec3..27aec92 100644
--- a/requestManager/request.go
+++ b/requestManager/request.go
@@ -39,12 +39,24 @@ func (req *Request) AwaitReply(ctx context.Context) (webwire.Reply, error) {
 	select {
 	case <-ctx.Done():
 		req.manager.deregister(req.Identifier)
+
+		// Don't lose the reply if the request was completed in the meantime
+		select {
+		case rp := <-req.Reply:
+			return rp.result()
+		default:
+		}
 		return nil, webwire.TranslateContextError(ctx.Err())
 
 	case rp := <-req.Reply:
-		if rp.Error != nil {
-			return nil, rp.Error
-		}
-		return &reply{msg: rp.ReplyMsg}, nil
+		return rp.result()
+	}
+}
+
+// result returns the reply or the error the request was completed with
+func (rp genericReply) result() (webwire.Reply, error) {
+	if rp.Error != nil {
+		return nil, rp.Error
 	}
+	return &reply{msg: rp.ReplyMsg}, nil
 }
diff --git a/requestManager/requestManager.go b/requestManager/requestManager.go
index f7ab53b..28dfbcc 100644
--- a/requestManager/requestManager.go
+++ b/requestManager/requestManager.go
@@ -63,19 +63,18 @@ func (manager *RequestManager) deregister(identifier [8]byte) {
 // Returns true if a pending request was fulfilled and deregistered,
 // otherwise returns false
 func (manager *RequestManager) Fulfill(msg *message.Message) bool {
-	// Find and deregister the request atomically
+	// Find, complete and deregister the request atomically
 	manager.lock.Lock()
 	req, exists := manager.pending[msg.MsgIdentifier]
-	delete(manager.pending, msg.MsgIdentifier)
-	manager.lock.Unlock()
-
 	if !exists {
+		manager.lock.Unlock()
 		return false
 	}
-
+	delete(manager.pending, msg.MsgIdentifier)
 	req.Reply <- genericReply{
 		ReplyMsg: msg,
 	}
+	manager.lock.Unlock()
 	return true
 }
 
@@ -86,19 +85,18 @@ func (manager *RequestManager) Fail(
 	identifier [8]byte,
 	err error,
 ) bool {
-	// Find and deregister the request atomically
+	// Find, complete and deregister the request atomically
 	manager.lock.Lock()
 	req, exists := manager.pending[identifier]
-	delete(manager.pending, identifier)
-	manager.lock.Unlock()
-
 	if !exists {
+		manager.lock.Unlock()
 		return false
 	}
-
+	delete(manager.pending, identifier)
 	req.Reply <- genericReply{
 		Error: err,
 	}
+	manager.lock.Unlock()
 	return true
 }
 
-- 
2.43.0


From 54e791030a41aa3a8f0a2e9d467591959c7f818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 21/29] fix: release the writer of a memchan socket when
 nothing was written

Refused and overflowing messages blocked the socket forever
---
 transport/memchan/buffer.go | 6 +++++-
 transport/memchan/socket.go | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/transport/memchan/buffer.go b/transport/memchan/buffer.go
index bb34082..42680b3 100644
--- a/transport/memchan/buffer.go
+++ b/transport/memchan/buffer.go
@@ -54,11 +54,15 @@ func (buf *Buffer) Write(p []byte) (int, error) {
 // Close flushes the buffer to the reader
 func (buf *Buffer) Close() (err error) {
 	buf.lock.Lock()
+	defer buf.lock.Unlock()
 	if buf.len < 1 {
+		// Nothing to deliver, but let the next writer proceed
+		if buf.onFlush != nil {
+			buf.onFlush(nil)
+		}
 		return errors.New("no data written")
 	}
 	err = buf.onFlush(buf.buf[:buf.len])
 	buf.reset()
-	buf.lock.Unlock()
 	return err
 }
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 1004bce..d620746 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -68,7 +68,14 @@ type Socket struct {
 // callback. It notifies the remote socket about the buffer being available for
 // reading and waits until it's finished reading eventually releasing the local
 // writer buffer
+//
+// If data is empty then there's nothing to be delivered
 func (sock *Socket) onBufferFlush(data []byte) (err error) {
+	if len(data) < 1 {
+		sock.writerLock.Unlock()
+		return nil
+	}
+
 	if !sock.IsConnected() {
 		sock.writerLock.Unlock()
 		return errors.New("can't write to a closed socket")
-- 
2.43.0


From 8f7061afbf3c146c002812491abe277530bf4242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 22/29] fix: don't deliver the rest of a message that didn't
 fit the buffer

---
 transport/memchan/buffer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transport/memchan/buffer.go b/transport/memchan/buffer.go
index 42680b3..391b4ef 100644
--- a/transport/memchan/buffer.go
+++ b/transport/memchan/buffer.go
@@ -13,6 +13,10 @@ type Buffer struct {
 	len     int
 	onFlush func([]byte) error
 	lock    *sync.Mutex
+
+	// overflown is true if a part of the message didn't fit into the buffer, in
+	// which case the remainder must not be delivered either
+	overflown bool
 }
 
 // NewBuffer allocates a new buffer
@@ -39,9 +43,10 @@ func (buf *Buffer) reset() {
 // Write writes a portion of data to the buffer
 func (buf *Buffer) Write(p []byte) (int, error) {
 	buf.lock.Lock()
-	if len(p) > len(buf.buf)-buf.len {
+	if buf.overflown || len(p) > len(buf.buf)-buf.len {
 		// Buffer overflow
 		buf.reset()
+		buf.overflown = true
 		buf.lock.Unlock()
 		return 0, wwr.ErrBufferOverflow{}
 	}
@@ -55,6 +60,7 @@ func (buf *Buffer) Write(p []byte) (int, error) {
 func (buf *Buffer) Close() (err error) {
 	buf.lock.Lock()
 	defer buf.lock.Unlock()
+	buf.overflown = false
 	if buf.len < 1 {
 		// Nothing to deliver, but let the next writer proceed
 		if buf.onFlush != nil {
-- 
2.43.0


From f9f0c8b30caeff726b74c3b50fb65b8b692ae5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 23/29] fix: make closing, dialing and shutting down memchan
 sockets race-free

Concurrent closures and writes panicked on closed channels or blocked
forever, refused sockets were left connected, connections dialed during
the transport shutdown survived it and read timers could fire late
---
 transport/memchan/newSocket.go |  15 +----
 transport/memchan/socket.go    | 118 +++++++++++----------------------
 transport/memchan/transport.go |  62 +++++++++++------
 3 files changed, 82 insertions(+), 113 deletions(-)

diff --git a/transport/memchan/newSocket.go b/transport/memchan/newSocket.go
index cbd7afa..b0acec1 100644
--- a/transport/memchan/newSocket.go
+++ b/transport/memchan/newSocket.go
@@ -2,25 +2,19 @@ package memchan
 
 import (
 	"sync"
-	"time"
 )
 
 // newSocket creates a new socket instance that must be entangled with another
 // socket before it can be used
 func newSocket(server *Transport, bufferSize uint32) *Socket {
-	// Setup a new inactive timer
-	readTimer := time.NewTimer(0)
-	<-readTimer.C
-
 	socket := &Socket{
 		sockType:   SocketUninitialized,
 		server:     server,
 		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
+		reader:     make(chan []byte),
 		readerLock: &sync.Mutex{},
 		readerErr:  make(chan error),
-		readTimer:  readTimer,
 		remote:     nil,
 		status:     nil,
 	}
@@ -37,20 +31,15 @@ func newSocket(server *Transport, bufferSize uint32) *Socket {
 
 // newDisconnectedSocket creates a new disconnected socket instance
 func newDisconnectedSocket() *Socket {
-	// Setup a new inactive timer
-	readTimer := time.NewTimer(0)
-	<-readTimer.C
-
 	status := statusDisconnected
 
 	socket := &Socket{
 		sockType:   SocketClient,
 		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
+		reader:     make(chan []byte),
 		readerLock: &sync.Mutex{},
 		readerErr:  make(chan error),
-		readTimer:  readTimer,
 		remote:     nil,
 		status:     &status,
 	}
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index d620746..d0fa312 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -43,10 +43,6 @@ type Socket struct {
 	// status represents the connection status
 	status *uint32
 
-	// readTimer enables reader timeout. It's started when the reader is applied
-	// a deadline and cleared when it finished reading
-	readTimer *time.Timer
-
 	// readLock serializes access to the Read method
 	readLock *sync.Mutex
 
@@ -62,6 +58,10 @@ type Socket struct {
 	reader     chan []byte
 	readerErr  chan error
 	readerLock *sync.Mutex
+
+	// closed is closed when either this or the remote socket is closed. It's
+	// protected by readerLock
+	closed chan struct{}
 }
 
 // onBufferFlush is a slot method that's called by the outbound buffer's onFlush
@@ -82,10 +82,14 @@ func (sock *Socket) onBufferFlush(data []byte) (err error) {
 	}
 
 	// Notify the remote reader about the new message
-	sock.remote.writeReader(data)
-
-	// Wait for the remote reader to finish reading
-	err = <-sock.remote.readerErr
+	reader, closed := sock.remote.getReader()
+	select {
+	case reader <- data:
+		// Wait for the remote reader to finish reading
+		err = <-sock.remote.readerErr
+	case <-closed:
+		err = errors.New("socket closed")
+	}
 
 	sock.writerLock.Unlock()
 	return
@@ -109,18 +113,7 @@ func (sock *Socket) Dial(deadline time.Time) error {
 		return errors.New("connection refused")
 	}
 
-	if !atomic.CompareAndSwapUint32(
-		sock.status,
-		statusDisconnected,
-		statusConnected,
-	) {
-		return errors.New("socket already connected")
-	}
-
-	sock.resetReader()
-	sock.remote.resetReader()
-
-	// Execute server callback
+	// Connect the sockets and execute the server callback
 	return sock.server.onConnect(sock, connOpts)
 }
 
@@ -141,30 +134,21 @@ func (sock *Socket) GetWriter() (io.WriteCloser, error) {
 	return &sock.outboundBuffer, nil
 }
 
-func (sock *Socket) getReader() chan []byte {
+// getReader returns the channel of incoming data and the channel that's closed
+// when the connection is closed
+func (sock *Socket) getReader() (reader chan []byte, closed chan struct{}) {
 	sock.readerLock.Lock()
-	reader := sock.reader
-	sock.readerLock.Unlock()
-	return reader
-}
-
-func (sock *Socket) writeReader(data []byte) {
-	sock.readerLock.Lock()
-	sock.reader <- data
-	sock.readerLock.Unlock()
-}
-
-// closeReader closes the current reader
-func (sock *Socket) closeReader() {
-	sock.readerLock.Lock()
-	close(sock.reader)
+	reader = sock.reader
+	closed = sock.closed
 	sock.readerLock.Unlock()
+	return
 }
 
 // resetReader resets the socket reader
-func (sock *Socket) resetReader() {
+func (sock *Socket) resetReader(closed chan struct{}) {
 	sock.readerLock.Lock()
-	sock.reader = make(chan []byte, 1)
+	sock.reader = make(chan []byte)
+	sock.closed = closed
 	sock.readerLock.Unlock()
 }
 
@@ -173,38 +157,36 @@ func (sock *Socket) readWithoutDeadline() (
 	err wwr.ErrSockRead,
 ) {
 	// Await either a message or remote/local socket closure
-	data = <-sock.getReader()
-
-	if data == nil {
+	reader, closed := sock.getReader()
+	select {
+	case data = <-reader:
+		return data, nil
+	case <-closed:
 		// Socket closed
 		return nil, ErrSockRead{closed: true}
 	}
-
-	return data, nil
 }
 
 func (sock *Socket) readWithDeadline(deadline time.Time) (
 	data []byte,
 	err wwr.ErrSockRead,
 ) {
-	sock.readTimer.Reset(time.Until(deadline))
+	readTimer := time.NewTimer(time.Until(deadline))
+	defer readTimer.Stop()
 
 	// Await either a message, socket closure or deadline trigger
+	reader, closed := sock.getReader()
 	select {
-	case <-sock.readTimer.C:
+	case <-readTimer.C:
 		// Deadline exceeded
 		err = ErrSockRead{err: errors.New("read deadline exceeded")}
 
-	case result := <-sock.getReader():
-		if result == nil {
-			// Socket closed
-			err = ErrSockRead{closed: true}
-		} else {
-			data = result
-		}
-	}
+	case data = <-reader:
 
-	sock.readTimer.Stop()
+	case <-closed:
+		// Socket closed
+		err = ErrSockRead{closed: true}
+	}
 
 	return
 }
@@ -273,34 +255,12 @@ func (sock *Socket) RemoteAddr() net.Addr {
 
 // Close implements the transport.Socket interface
 func (sock *Socket) Close() error {
-	if !atomic.CompareAndSwapUint32(
-		sock.status,
-		statusConnected,
-		statusDisconnected,
-	) {
+	if sock.server == nil {
+		// Never connected
 		return nil
 	}
 
-	// Close remote reader and writer
-	sock.remote.closeReader()
-
-	// Fail any currently active writer
-	select {
-	case sock.remote.readerErr <- errors.New("socket closed"):
-	default:
-	}
-
-	// Send reader confirmation if any remote writer is currently awaiting
-	// the local reader to finish
-	select {
-	case sock.readerErr <- errors.New("socket closed"):
-	default:
-	}
-
-	// Close the local reader
-	sock.closeReader()
-
-	// Execute server callback
+	// Disconnect the sockets
 	if sock.sockType == SocketClient {
 		sock.server.onDisconnect(sock.remote)
 	} else {
diff --git a/transport/memchan/transport.go b/transport/memchan/transport.go
index fd84727..2d58471 100644
--- a/transport/memchan/transport.go
+++ b/transport/memchan/transport.go
@@ -66,23 +66,24 @@ func (srv *Transport) Serve() error {
 
 // Shutdown implements the Transport interface
 func (srv *Transport) Shutdown() error {
-	if atomic.CompareAndSwapUint32(&srv.status, serverActive, serverClosed) {
-		close(srv.shutdown)
-		srv.connectionsLock.Lock()
-		conns := make([]*Socket, len(srv.connections))
-		index := 0
-		for sock := range srv.connections {
-			conns[index] = sock
-			index++
-		}
+	srv.connectionsLock.Lock()
+	if !atomic.CompareAndSwapUint32(&srv.status, serverActive, serverClosed) {
 		srv.connectionsLock.Unlock()
+		return nil
+	}
+	close(srv.shutdown)
+	conns := make([]*Socket, len(srv.connections))
+	index := 0
+	for sock := range srv.connections {
+		conns[index] = sock
+		index++
+	}
+	srv.connectionsLock.Unlock()
 
-		// Close all connections
-		for _, sock := range conns {
-			if err := sock.Close(); err != nil {
-				srv.connectionsLock.Unlock()
-				return fmt.Errorf("couldn't close socket %p: %s", sock, err)
-			}
+	// Close all connections
+	for _, sock := range conns {
+		if err := sock.Close(); err != nil {
+			return fmt.Errorf("couldn't close socket %p: %s", sock, err)
 		}
 	}
 	return nil
@@ -105,17 +106,28 @@ func (srv *Transport) onConnect(
 		return errors.New("server is shutting down")
 	}
 
+	if clientSocket.remote == nil || clientSocket.status == nil {
+		return errors.New("uninitialized socket")
+	}
+
+	// Don't connect during the shutdown of the transport or while disconnecting
+	srv.connectionsLock.Lock()
+	defer srv.connectionsLock.Unlock()
+
 	if atomic.LoadUint32(&srv.status) != serverActive {
 		return errors.New("server is closed")
 	}
 
-	if clientSocket.remote == nil || clientSocket.status == nil {
-		return errors.New("uninitialized socket")
+	if clientSocket.IsConnected() {
+		return errors.New("socket already connected")
 	}
 
-	srv.connectionsLock.Lock()
+	closed := make(chan struct{})
+	clientSocket.resetReader(closed)
+	clientSocket.remote.resetReader(closed)
+	atomic.StoreUint32(clientSocket.status, statusConnected)
+
 	srv.connections[clientSocket.remote] = clientSocket
-	srv.connectionsLock.Unlock()
 
 	go srv.onNewConnection(
 		connectionOptions,
@@ -125,9 +137,17 @@ func (srv *Transport) onConnect(
 	return nil
 }
 
-// onDisconnect is called in Socket.Close by a server-type socket on closure
+// onDisconnect is called in Socket.Close to disconnect a server-type socket and
+// its client. Does nothing if they're not connected
 func (srv *Transport) onDisconnect(serverSocket *Socket) {
 	srv.connectionsLock.Lock()
-	delete(srv.connections, serverSocket)
+	if serverSocket.IsConnected() {
+		atomic.StoreUint32(serverSocket.status, statusDisconnected)
+		delete(srv.connections, serverSocket)
+
+		// Wake up the readers and writers of both sockets
+		_, closed := serverSocket.getReader()
+		close(closed)
+	}
 	srv.connectionsLock.Unlock()
 }
-- 
2.43.0


From d1919116486fe900757e90765e0a6119da86b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 24/29] fix: don't access files outside the session directory

Session keys sent by clients were used as paths by the default session
manager. Creating a session that's closed concurrently crashed it
---
 defaultSessionManager.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 05921ab..a250c68 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -90,6 +90,22 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	}
 }
 
+// isValidKey returns false if the session key (which is potentially provided by
+// the client) isn't a plain file name
+func (mng *DefaultSessionManager) isValidKey(sessionKey string) bool {
+	const maxFileNameLen = 255
+	if len(sessionKey) < 1 ||
+		len(sessionKey)+len(".wwrsess") > maxFileNameLen {
+		return false
+	}
+	for i := 0; i < len(sessionKey); i++ {
+		if sessionKey[i] == 0 || os.IsPathSeparator(sessionKey[i]) {
+			return false
+		}
+	}
+	return true
+}
+
 // filePath generates an absolute session file path given the session key
 func (mng *DefaultSessionManager) filePath(sessionKey string) string {
 	return filepath.Join(mng.path, sessionKey+".wwrsess")
@@ -99,12 +115,18 @@ func (mng *DefaultSessionManager) filePath(sessionKey string) string {
 // It writes the created session into a file using the session key as file name
 func (mng *DefaultSessionManager) OnSessionCreated(conn Connection) error {
 	sess := conn.Session()
+	if sess == nil {
+		return fmt.Errorf("The session was closed in the meantime")
+	}
+	if !mng.isValidKey(sess.Key) {
+		return fmt.Errorf("Invalid session key: %q", sess.Key)
+	}
 	sessFile := sessionFile{
 		Creation:   sess.Creation,
 		LastLookup: sess.LastLookup,
 		Info:       SessionInfoToVarMap(sess.Info),
 	}
-	return sessFile.Save(mng.filePath(conn.SessionKey()))
+	return sessFile.Save(mng.filePath(sess.Key))
 }
 
 // OnSessionLookup implements the session manager interface.
@@ -114,6 +136,9 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 	SessionLookupResult,
 	error,
 ) {
+	if !mng.isValidKey(key) {
+		return nil, nil
+	}
 	path := mng.filePath(key)
 
 	// Lookup session file
@@ -159,6 +184,9 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 // OnSessionClosed implements the session manager interface.
 // It closes the session by deleting the according session file
 func (mng *DefaultSessionManager) OnSessionClosed(sessionKey string) error {
+	if !mng.isValidKey(sessionKey) {
+		return fmt.Errorf("Invalid session key: %q", sessionKey)
+	}
 	if err := os.Remove(mng.filePath(sessionKey)); err != nil {
 		return fmt.Errorf(
 			"Unexpected error during session destruction: %s",
-- 
2.43.0


From 76f12c2d3a7b064bf3709aed0d7a05fd6cf3f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 25/29] fix: don't lose stored sessions when writing the
 session file fails

---
 defaultSessionManager.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index a250c68..ddfdb9f 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -34,7 +34,27 @@ func (sessf *sessionFile) Save(filePath string) error {
 	if err != nil {
 		return fmt.Errorf("Couldn't marshal session file: %s", err)
 	}
-	if err := ioutil.WriteFile(filePath, encoded, 0640); err != nil {
+	// Replace the file atomically, a previously saved session must not be lost
+	// when writing fails
+	file, err := ioutil.TempFile(filepath.Dir(filePath), "tmp")
+	if err != nil {
+		return fmt.Errorf("Couldn't create session file: %s", err)
+	}
+	_, err = file.Write(encoded)
+	if err == nil {
+		err = file.Chmod(0640)
+	}
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(file.Name(), filePath)
+	}
+	if err != nil {
+		os.Remove(file.Name())
 		return fmt.Errorf("Couldn't write session file: %s", err)
 	}
 	return nil
-- 
2.43.0


From d5626a6799225dd9f1f083d5c90f880247a52d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 26/29] fix: serialize the operations of the default session
 manager

Concurrent lookups read partially written files and a lookup during the
closure of a session brought it back. The session directory couldn't be
entered by unprivileged users
---
 defaultSessionManager.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index ddfdb9f..586c813 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -6,6 +6,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sync"
 	"time"
 )
 
@@ -64,6 +65,12 @@ func (sessf *sessionFile) Save(filePath string) error {
 // It uses files as a persistent storage
 type DefaultSessionManager struct {
 	path string
+
+	// lock serializes all operations on the session files
+	lock sync.Mutex
+
+	// closed lists the sessions that were closed before they were saved
+	closed map[string]struct{}
 }
 
 // NewDefaultSessionManager constructs a new default session manager instance.
@@ -89,7 +96,7 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	_, err := os.Stat(sessFilesPath)
 	if os.IsNotExist(err) {
 		// Create the directory if it doesn't exist yet
-		if err := os.MkdirAll(sessFilesPath, 0640); err != nil {
+		if err := os.MkdirAll(sessFilesPath, 0750); err != nil {
 			panic(fmt.Errorf(
 				"Couldn't create default session directory ('%s'): %s",
 				sessFilesPath,
@@ -106,7 +113,8 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	}
 
 	return &DefaultSessionManager{
-		path: sessFilesPath,
+		path:   sessFilesPath,
+		closed: make(map[string]struct{}),
 	}
 }
 
@@ -146,6 +154,12 @@ func (mng *DefaultSessionManager) OnSessionCreated(conn Connection) error {
 		LastLookup: sess.LastLookup,
 		Info:       SessionInfoToVarMap(sess.Info),
 	}
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+	if _, closed := mng.closed[sess.Key]; closed {
+		delete(mng.closed, sess.Key)
+		return fmt.Errorf("The session was closed in the meantime")
+	}
 	return sessFile.Save(mng.filePath(sess.Key))
 }
 
@@ -161,6 +175,9 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 	}
 	path := mng.filePath(key)
 
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	// Lookup session file
 	_, err := os.Stat(path)
 	if os.IsNotExist(err) {
@@ -207,7 +224,12 @@ func (mng *DefaultSessionManager) OnSessionClosed(sessionKey string) error {
 	if !mng.isValidKey(sessionKey) {
 		return fmt.Errorf("Invalid session key: %q", sessionKey)
 	}
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
 	if err := os.Remove(mng.filePath(sessionKey)); err != nil {
+		if os.IsNotExist(err) {
+			mng.closed[sessionKey] = struct{}{}
+		}
 		return fmt.Errorf(
 			"Unexpected error during session destruction: %s",
 			err,
-- 
2.43.0


From 9843a6e5b95fc9b17198a0e51c03d5c398c17946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:55 +0000
Subject: [PATCH 27/29] fix: refuse signals without name and payload

---
 message/writeMsgSignal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/message/writeMsgSignal.go b/message/writeMsgSignal.go
index ac8fd9a..0fa6d9c 100644
--- a/message/writeMsgSignal.go
+++ b/message/writeMsgSignal.go
@@ -1,6 +1,7 @@
 package message
 
 import (
+	"errors"
 	"fmt"
 	"io"
 
@@ -16,6 +17,17 @@ func WriteMsgSignal(
 	payloadData []byte,
 	safeMode bool,
 ) error {
+	// Require either a name, or a payload or both, but don't allow none
+	if len(name) < 1 && len(payloadData) < 1 {
+		initialErr := errors.New(
+			"signal message requires either a name, or a payload, or both",
+		)
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
+		}
+		return initialErr
+	}
+
 	if len(name) > 255 {
 		initialErr := fmt.Errorf(
 			"unsupported request message name length: %d",
-- 
2.43.0


From a7c8ed9835a59d4c6139ed1ea727af2f49602f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 28/29] fix: don't panic copying session info maps with nil
 keys

---
 genericSessionInfo.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/genericSessionInfo.go b/genericSessionInfo.go
index d2206e2..8a58dfb 100644
--- a/genericSessionInfo.go
+++ b/genericSessionInfo.go
@@ -61,8 +61,10 @@ func copyRecursive(original, cpy reflect.Value) {
 			originalValue := original.MapIndex(key)
 			copyValue := reflect.New(originalValue.Type()).Elem()
 			copyRecursive(originalValue, copyValue)
-			copyKey := deepCopy(key.Interface())
-			cpy.SetMapIndex(reflect.ValueOf(copyKey), copyValue)
+			// The key keeps its type, it could be a nil interface
+			copyKey := reflect.New(key.Type()).Elem()
+			copyRecursive(key, copyKey)
+			cpy.SetMapIndex(copyKey, copyValue)
 		}
 
 	default:
-- 
2.43.0


From f7c5c46060e4cbfe56c32b00d57dad4558699df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 29/29] fix: don't take an empty read for an overflow of the
 full message buffer

---
 message/buffer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/message/buffer.go b/message/buffer.go
index 770db6a..a2087f3 100644
--- a/message/buffer.go
+++ b/message/buffer.go
@@ -36,6 +36,10 @@ func (buf *Buffer) Read(reader io.Reader) error {
 			// (without overwriting what's already been read)
 			var excess [1]byte
 			excessBytes, err := reader.Read(excess[:])
+			if excessBytes < 1 && err == nil {
+				// An empty read is no overflow, try again
+				continue
+			}
 			if excessBytes > 0 || err != io.EOF {
 				// Overflow! Discard the message that's bigger than the buffer
 				buf.Close()
-- 
2.43.0

