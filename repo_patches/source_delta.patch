From 23a46f67b22ed55a34111cd9a285357db07ab175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 01/15] fix: answer requests whose reply can't be encoded or
 sent with an internal error

---
 failMsg.go    | 6 ++++++
 fulfillMsg.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/failMsg.go b/failMsg.go
index 95d6feb..fb3bb38 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -36,6 +36,9 @@ func (srv *server) failMsg(
 			true,
 		); err != nil {
 			srv.errorLog.Println("couldn't write error reply message: ", err)
+
+			// Don't leave the request unanswered if its reply can't be sent
+			srv.failMsg(con, msg, nil)
 			return
 		}
 	case *ErrRequest:
@@ -47,6 +50,9 @@ func (srv *server) failMsg(
 			true,
 		); err != nil {
 			srv.errorLog.Println("couldn't write error reply message: ", err)
+
+			// Don't leave the request unanswered if its reply can't be sent
+			srv.failMsg(con, msg, nil)
 			return
 		}
 	case ErrMaxSessConnsReached:
diff --git a/fulfillMsg.go b/fulfillMsg.go
index f4cad1f..a5b494e 100644
--- a/fulfillMsg.go
+++ b/fulfillMsg.go
@@ -29,5 +29,8 @@ func (srv *server) fulfillMsg(
 			con,
 			err,
 		)
+
+		// Don't leave the request unanswered if its reply can't be sent
+		srv.failMsg(con, msg, nil)
 	}
 }
-- 
2.43.0


From f504571e846466ef3a029c5e3bbddb346ab3a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:22 +0000
Subject: [PATCH 02/15] fix: reject every message that arrives while the server
 or connection shuts down

Signals were handled during a shutdown and counted without being registered,
rejected messages kept their handler slot, and requests on closed connections
were dropped without a reply.
---
 connection.go      | 11 ++++++++---
 failMsg.go         |  1 +
 registerHandler.go | 29 +++++++++++++++++++----------
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/connection.go b/connection.go
index f07bd6c..084c17b 100644
--- a/connection.go
+++ b/connection.go
@@ -92,11 +92,16 @@ func (con *connection) IsActive() bool {
 
 }
 
-// registerTask increments the number of currently executed tasks
-func (con *connection) registerTask() {
+// registerTask increments the number of currently executed tasks and returns
+// true, or returns false if the connection is already being closed
+func (con *connection) registerTask() bool {
 	con.stateLock.Lock()
-	con.tasks++
+	isActive := con.isActive
+	if isActive {
+		con.tasks++
+	}
 	con.stateLock.Unlock()
+	return isActive
 }
 
 // deregisterTask decrements the number of currently executed tasks
diff --git a/failMsg.go b/failMsg.go
index fb3bb38..ef84f99 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -115,6 +115,7 @@ func (srv *server) failMsgShutdown(con *connection, msg *message.Message) {
 			con,
 			err,
 		)
+		return
 	}
 
 	if err := message.WriteMsgSpecialRequestReply(
diff --git a/registerHandler.go b/registerHandler.go
index b52f6aa..28d575a 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -14,9 +14,8 @@ func (srv *server) registerHandler(
 	con *connection,
 	msg *message.Message,
 ) bool {
-	failMsg := false
-
 	if !con.IsActive() {
+		srv.rejectMsg(con, msg)
 		return false
 	}
 
@@ -25,21 +24,31 @@ func (srv *server) registerHandler(
 		con.handlerSlots.Acquire(context.Background(), 1)
 	}
 
+	// Reject the message if either the server or the connection is being shut
+	// down, otherwise register the handler on both of them
 	srv.opsLock.Lock()
-	if srv.shutdown {
-		// defer failure due to shutdown of either the server or the connection
-		failMsg = true
-	} else {
+	registered := !srv.shutdown && con.registerTask()
+	if registered {
 		srv.currentOps++
 	}
 	srv.opsLock.Unlock()
 
-	if failMsg && msg.RequiresReply() {
-		// Don't process the message, fail it
-		srv.failMsgShutdown(con, msg)
+	if !registered {
+		// Release the unused handler slot
+		if con.options.ConcurrencyLimit > 1 {
+			con.handlerSlots.Release(1)
+		}
+		srv.rejectMsg(con, msg)
 		return false
 	}
 
-	con.registerTask()
 	return true
 }
+
+// rejectMsg fails messages that require a reply due to the shutdown of either
+// the server or the connection. Other messages are ignored
+func (srv *server) rejectMsg(con *connection, msg *message.Message) {
+	if msg.RequiresReply() {
+		srv.failMsgShutdown(con, msg)
+	}
+}
-- 
2.43.0


From 3d47c135548966c40a400575e6517262e222620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 03/15] fix: make memchan sockets safe to close, reuse and dial
 concurrently

Closing a socket during a write could panic, leave the writer or the reader
blocked forever or hand over a message whose write was reported as failed.
Empty and overflown writes kept the writer locked forever. Refused dials left
the socket connected, dials could outlive the shutdown of the transport and a
reconnected client shared its server socket with the previous connection.
---
 transport/memchan/buffer.go          |   3 +
 transport/memchan/entangleSockets.go |   6 +-
 transport/memchan/link.go            |  53 +++++++
 transport/memchan/newSocket.go       |  10 +-
 transport/memchan/socket.go          | 202 +++++++++++++--------------
 transport/memchan/transport.go       |  26 +++-
 6 files changed, 175 insertions(+), 125 deletions(-)
 create mode 100644 transport/memchan/link.go

diff --git a/transport/memchan/buffer.go b/transport/memchan/buffer.go
index bb34082..eb81808 100644
--- a/transport/memchan/buffer.go
+++ b/transport/memchan/buffer.go
@@ -55,6 +55,9 @@ func (buf *Buffer) Write(p []byte) (int, error) {
 func (buf *Buffer) Close() (err error) {
 	buf.lock.Lock()
 	if buf.len < 1 {
+		// There's nothing to flush, only release the writer
+		buf.onFlush(nil)
+		buf.lock.Unlock()
 		return errors.New("no data written")
 	}
 	err = buf.onFlush(buf.buf[:buf.len])
diff --git a/transport/memchan/entangleSockets.go b/transport/memchan/entangleSockets.go
index ba618c8..c9a15c1 100644
--- a/transport/memchan/entangleSockets.go
+++ b/transport/memchan/entangleSockets.go
@@ -18,7 +18,7 @@ func entangleSockets(server, client *Socket) {
 	client.remote = server
 
 	// Initialize shared status
-	status := statusDisconnected
-	server.status = &status
-	client.status = &status
+	status := &status{}
+	server.status = status
+	client.status = status
 }
diff --git a/transport/memchan/link.go b/transport/memchan/link.go
new file mode 100644
index 0000000..efac4e4
--- /dev/null
+++ b/transport/memchan/link.go
@@ -0,0 +1,53 @@
+package memchan
+
+import "sync"
+
+// pipe transfers messages from one side of a connection to the other
+type pipe struct {
+	// data hands a message over to the reader
+	data chan []byte
+
+	// done is used by the reader to release the writer. It's buffered to never
+	// block the reader
+	done chan struct{}
+}
+
+func newPipe() pipe {
+	return pipe{
+		data: make(chan []byte),
+		done: make(chan struct{}, 1),
+	}
+}
+
+// link represents an established connection between two entangled sockets
+type link struct {
+	toServer pipe
+	toClient pipe
+
+	// closed is closed when the connection is closed
+	closed chan struct{}
+}
+
+func newLink() *link {
+	return &link{
+		toServer: newPipe(),
+		toClient: newPipe(),
+		closed:   make(chan struct{}),
+	}
+}
+
+// status represents the connection status shared by two entangled sockets
+type status struct {
+	lock sync.RWMutex
+
+	// link is nil when the sockets are disconnected
+	link *link
+}
+
+// get returns the current link or nil if the sockets are disconnected
+func (st *status) get() *link {
+	st.lock.RLock()
+	link := st.link
+	st.lock.RUnlock()
+	return link
+}
diff --git a/transport/memchan/newSocket.go b/transport/memchan/newSocket.go
index cbd7afa..04c2907 100644
--- a/transport/memchan/newSocket.go
+++ b/transport/memchan/newSocket.go
@@ -17,9 +17,6 @@ func newSocket(server *Transport, bufferSize uint32) *Socket {
 		server:     server,
 		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
-		readerLock: &sync.Mutex{},
-		readerErr:  make(chan error),
 		readTimer:  readTimer,
 		remote:     nil,
 		status:     nil,
@@ -41,18 +38,13 @@ func newDisconnectedSocket() *Socket {
 	readTimer := time.NewTimer(0)
 	<-readTimer.C
 
-	status := statusDisconnected
-
 	socket := &Socket{
 		sockType:   SocketClient,
 		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
-		readerLock: &sync.Mutex{},
-		readerErr:  make(chan error),
 		readTimer:  readTimer,
 		remote:     nil,
-		status:     &status,
+		status:     &status{},
 	}
 
 	// Allocate the outbound buffer
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 1004bce..28f453e 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -6,16 +6,12 @@ import (
 	"io"
 	"net"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	wwr "github.com/qbeon/webwire-go"
 	"github.com/qbeon/webwire-go/message"
 )
 
-const statusConnected uint32 = 1
-const statusDisconnected uint32 = 2
-
 // SocketType represents the type of a socket
 type SocketType uint
 
@@ -41,7 +37,11 @@ type Socket struct {
 	remote *Socket
 
 	// status represents the connection status
-	status *uint32
+	status *status
+
+	// link limits the socket to a particular connection. It's nil if the socket
+	// can be reconnected
+	link *link
 
 	// readTimer enables reader timeout. It's started when the reader is applied
 	// a deadline and cleared when it finished reading
@@ -57,31 +57,65 @@ type Socket struct {
 	// onFlush callback must be connected to the sockets
 	outboundBuffer Buffer
 
-	// reader is the data receiving channel to the reader goroutine. It must be
-	// triggered as soon as any data is received
-	reader     chan []byte
-	readerErr  chan error
-	readerLock *sync.Mutex
+	// outboundLink references the link the current writer was returned for
+	outboundLink *link
 }
 
 // onBufferFlush is a slot method that's called by the outbound buffer's onFlush
 // callback. It notifies the remote socket about the buffer being available for
 // reading and waits until it's finished reading eventually releasing the local
 // writer buffer
-func (sock *Socket) onBufferFlush(data []byte) (err error) {
-	if !sock.IsConnected() {
-		sock.writerLock.Unlock()
-		return errors.New("can't write to a closed socket")
+func (sock *Socket) onBufferFlush(data []byte) error {
+	defer sock.writerLock.Unlock()
+
+	// There's nothing to be sent
+	if len(data) < 1 {
+		return nil
 	}
 
-	// Notify the remote reader about the new message
-	sock.remote.writeReader(data)
+	link := sock.outboundLink
+	pipe := sock.outbound(link)
+
+	// Hand the message over to the remote reader
+	select {
+	case <-link.closed:
+		return errors.New("can't write to a closed socket")
+	default:
+	}
+	select {
+	case pipe.data <- data:
+	case <-link.closed:
+		return errors.New("socket closed")
+	}
 
 	// Wait for the remote reader to finish reading
-	err = <-sock.remote.readerErr
+	<-pipe.done
+	return nil
+}
 
-	sock.writerLock.Unlock()
-	return
+// current returns the current link or nil if the socket is disconnected
+func (sock *Socket) current() *link {
+	link := sock.status.get()
+	if sock.link != nil && link != sock.link {
+		return nil
+	}
+	return link
+}
+
+// outbound returns the pipe to the remote socket
+func (sock *Socket) outbound(link *link) pipe {
+	if sock.sockType == SocketClient {
+		return link.toServer
+	}
+	return link.toClient
+}
+
+// inbound returns the pipe from the remote socket
+func (sock *Socket) inbound(link *link) pipe {
+	if sock.sockType == SocketClient {
+		return link.toClient
+	}
+	return link.toServer
 }
 
 // Dial implements the transport.Socket interface
@@ -102,17 +136,13 @@ func (sock *Socket) Dial(deadline time.Time) error {
 		return errors.New("connection refused")
 	}
 
-	if !atomic.CompareAndSwapUint32(
-		sock.status,
-		statusDisconnected,
-		statusConnected,
-	) {
+	sock.status.lock.Lock()
+	defer sock.status.lock.Unlock()
+
+	if sock.status.link != nil {
 		return errors.New("socket already connected")
 	}
 
-	sock.resetReader()
-	sock.remote.resetReader()
-
 	// Execute server callback
 	return sock.server.onConnect(sock, connOpts)
 }
@@ -122,61 +152,36 @@ func (sock *Socket) GetWriter() (io.WriteCloser, error) {
 	sock.writerLock.Lock()
 
 	// Check connection status
-	if !sock.IsConnected() {
+	link := sock.current()
+	if link == nil {
 		sock.writerLock.Unlock()
 		return nil, wwr.ErrDisconnected{
 			Cause: fmt.Errorf("can't write to a closed socket"),
 		}
 	}
+	sock.outboundLink = link
 
 	// Don't immediately unlock the writer lock, let the writeCloser unlock it
 	// as soon as the reader finished reading
 	return &sock.outboundBuffer, nil
 }
 
-func (sock *Socket) getReader() chan []byte {
-	sock.readerLock.Lock()
-	reader := sock.reader
-	sock.readerLock.Unlock()
-	return reader
-}
-
-func (sock *Socket) writeReader(data []byte) {
-	sock.readerLock.Lock()
-	sock.reader <- data
-	sock.readerLock.Unlock()
-}
-
-// closeReader closes the current reader
-func (sock *Socket) closeReader() {
-	sock.readerLock.Lock()
-	close(sock.reader)
-	sock.readerLock.Unlock()
-}
-
-// resetReader resets the socket reader
-func (sock *Socket) resetReader() {
-	sock.readerLock.Lock()
-	sock.reader = make(chan []byte, 1)
-	sock.readerLock.Unlock()
-}
-
-func (sock *Socket) readWithoutDeadline() (
+func (sock *Socket) readWithoutDeadline(link *link) (
 	data []byte,
 	err wwr.ErrSockRead,
 ) {
 	// Await either a message or remote/local socket closure
-	data = <-sock.getReader()
-
-	if data == nil {
+	select {
+	case <-link.closed:
 		// Socket closed
 		return nil, ErrSockRead{closed: true}
-	}
 
-	return data, nil
+	case data = <-sock.inbound(link).data:
+		return data, nil
+	}
 }
 
-func (sock *Socket) readWithDeadline(deadline time.Time) (
+func (sock *Socket) readWithDeadline(link *link, deadline time.Time) (
 	data []byte,
 	err wwr.ErrSockRead,
 ) {
@@ -188,13 +193,11 @@ func (sock *Socket) readWithDeadline(deadline time.Time) (
 		// Deadline exceeded
 		err = ErrSockRead{err: errors.New("read deadline exceeded")}
 
-	case result := <-sock.getReader():
-		if result == nil {
-			// Socket closed
-			err = ErrSockRead{closed: true}
-		} else {
-			data = result
-		}
+	case <-link.closed:
+		// Socket closed
+		err = ErrSockRead{closed: true}
+
+	case data = <-sock.inbound(link).data:
 	}
 
 	sock.readTimer.Stop()
@@ -211,7 +214,8 @@ func (sock *Socket) Read(
 	sock.readLock.Lock()
 
 	// Check connection status
-	if !sock.IsConnected() {
+	link := sock.current()
+	if link == nil {
 		sock.readLock.Unlock()
 		return ErrSockRead{closed: true}
 	}
@@ -219,40 +223,36 @@ func (sock *Socket) Read(
 	var data []byte
 	if deadline.IsZero() {
 		// No deadline
-		data, err = sock.readWithoutDeadline()
+		data, err = sock.readWithoutDeadline(link)
 	} else {
 		// Set deadline
-		data, err = sock.readWithDeadline(deadline)
+		data, err = sock.readWithDeadline(link, deadline)
 	}
 
 	if err != nil {
-		sock.Close()
+		sock.close(link)
 		sock.readLock.Unlock()
 		return err
 	}
 
 	// Try to read the socket into the message buffer and release the remote
-	// writer by sending nil to the sock.reader channel
+	// writer
 	typeParsed, parseErr := msg.ReadBytes(data)
+	sock.inbound(link).done <- struct{}{}
+	sock.readLock.Unlock()
+
 	if parseErr != nil {
-		sock.readerErr <- nil
-		sock.readLock.Unlock()
 		return ErrSockRead{err: parseErr}
 	}
 	if !typeParsed {
-		sock.readerErr <- nil
-		sock.readLock.Unlock()
 		return ErrSockRead{err: errors.New("no message type")}
 	}
-
-	sock.readerErr <- nil
-	sock.readLock.Unlock()
 	return nil
 }
 
 // IsConnected implements the transport.Socket interface
 func (sock *Socket) IsConnected() bool {
-	return atomic.LoadUint32(sock.status) == statusConnected
+	return sock.current() != nil
 }
 
 // RemoteAddr implements the transport.Socket interface
@@ -266,39 +266,29 @@ func (sock *Socket) RemoteAddr() net.Addr {
 
 // Close implements the transport.Socket interface
 func (sock *Socket) Close() error {
-	if !atomic.CompareAndSwapUint32(
-		sock.status,
-		statusConnected,
-		statusDisconnected,
-	) {
-		return nil
+	if link := sock.current(); link != nil {
+		sock.close(link)
 	}
+	return nil
+}
 
-	// Close remote reader and writer
-	sock.remote.closeReader()
+// close closes the given link if it's not yet closed
+func (sock *Socket) close(link *link) {
+	sock.status.lock.Lock()
+	defer sock.status.lock.Unlock()
 
-	// Fail any currently active writer
-	select {
-	case sock.remote.readerErr <- errors.New("socket closed"):
-	default:
+	if sock.status.link != link {
+		return
 	}
+	sock.status.link = nil
 
-	// Send reader confirmation if any remote writer is currently awaiting
-	// the local reader to finish
-	select {
-	case sock.readerErr <- errors.New("socket closed"):
-	default:
-	}
-
-	// Close the local reader
-	sock.closeReader()
+	// Release the readers and writers of both sockets
+	close(link.closed)
 
 	// Execute server callback
 	if sock.sockType == SocketClient {
 		sock.server.onDisconnect(sock.remote)
 	} else {
-		sock.server.onDisconnect(sock)
+		sock.server.onDisconnect(sock.remote.remote)
 	}
-
-	return nil
 }
diff --git a/transport/memchan/transport.go b/transport/memchan/transport.go
index fd84727..a9bd133 100644
--- a/transport/memchan/transport.go
+++ b/transport/memchan/transport.go
@@ -80,7 +80,6 @@ func (srv *Transport) Shutdown() error {
 		// Close all connections
 		for _, sock := range conns {
 			if err := sock.Close(); err != nil {
-				srv.connectionsLock.Unlock()
 				return fmt.Errorf("couldn't close socket %p: %s", sock, err)
 			}
 		}
@@ -95,7 +94,8 @@ func (srv *Transport) Address() url.URL {
 	}
 }
 
-// onConnect is called in Socket.Dial by a client-type socket on connection
+// onConnect is called in Socket.Dial by a client-type socket on connection while
+// it's holding the status lock
 func (srv *Transport) onConnect(
 	clientSocket *Socket,
 	connectionOptions wwr.ConnectionOptions,
@@ -105,21 +105,33 @@ func (srv *Transport) onConnect(
 		return errors.New("server is shutting down")
 	}
 
-	if atomic.LoadUint32(&srv.status) != serverActive {
-		return errors.New("server is closed")
-	}
-
 	if clientSocket.remote == nil || clientSocket.status == nil {
 		return errors.New("uninitialized socket")
 	}
 
+	// Check the status under the lock to either get closed by the shutdown or
+	// refused if it's already collected the connections to be closed
 	srv.connectionsLock.Lock()
+	if atomic.LoadUint32(&srv.status) != serverActive {
+		srv.connectionsLock.Unlock()
+		return errors.New("server is closed")
+	}
 	srv.connections[clientSocket.remote] = clientSocket
 	srv.connectionsLock.Unlock()
 
+	link := newLink()
+	clientSocket.status.link = link
+
+	// Serve the connection on a socket of its own
+	serverSocket := newSocket(srv, srv.bufferSize)
+	serverSocket.sockType = SocketServer
+	serverSocket.remote = clientSocket
+	serverSocket.status = clientSocket.status
+	serverSocket.link = link
+
 	go srv.onNewConnection(
 		connectionOptions,
-		clientSocket.remote,
+		serverSocket,
 	)
 
 	return nil
-- 
2.43.0


From 7bf33ef5c14ff9898267d15678e391cdc8de97d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 04/15] fix: don't crash when the session destruction hook
 panics

---
 newServer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newServer.go b/newServer.go
index 53018ae..f60a9fd 100644
--- a/newServer.go
+++ b/newServer.go
@@ -82,6 +82,8 @@ func NewServer(
 		},
 	)
 
+	srv.sessionRegistry.server = srv
+
 	// Initialize the transport layer
 	if err := transport.Initialize(
 		opts,
-- 
2.43.0


From 47e734a5dbc2019f02bfd1ae9766344427dce1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 05/15] fix: keep connections, sessions and their registry
 consistent

Restoring replaces the previous session in the registry, a restore that would
exceed the connection limit or whose session was destroyed meanwhile is refused
instead of panicking or reviving it, only members are deregistered, closing a
session by key doesn't close another one, a session closed during its creation
is destroyed after the creation hook and a panicking key generator doesn't leave
the connection locked.
---
 connection.go           |  92 +++++++++++++++-----
 handleSessionClosure.go |  16 +---
 handleSessionRestore.go |  18 ++--
 server.go               |  11 ++-
 sessionRegistry.go      | 187 ++++++++++++++++++++++++++++++----------
 5 files changed, 234 insertions(+), 90 deletions(-)

diff --git a/connection.go b/connection.go
index 084c17b..8a1062c 100644
--- a/connection.go
+++ b/connection.go
@@ -122,20 +122,65 @@ func (con *connection) deregisterTask() {
 	}
 }
 
-// setSession sets a new session for this client
-func (con *connection) setSession(newSess *Session) {
+// retain registers a task preventing the connection from being unlinked and
+// returns true, or returns false if the connection was already unlinked
+func (con *connection) retain() bool {
+	con.stateLock.Lock()
+	retained := con.isActive || con.tasks > 0
+	if retained {
+		con.tasks++
+	}
+	con.stateLock.Unlock()
+	return retained
+}
+
+// restoreSession assigns a restored session to the connection replacing the
+// previous one. Leaves the connection untouched if an error is returned
+func (con *connection) restoreSession(newSess *Session) error {
 	con.sessionLock.Lock()
+	defer con.sessionLock.Unlock()
+
+	previous := con.session
 	con.session = newSess
+	if err := con.srv.sessionRegistry.register(con); err != nil {
+		con.session = previous
+		return err
+	}
+
+	if previous != nil && previous.Key != newSess.Key {
+		// Deregister the replaced session, but don't destroy it
+		con.srv.sessionRegistry.remove(con, previous.Key, false)
+	}
+	return nil
+}
+
+// closeSession removes the session identified by the given key (or any session
+// if the key is empty) from the connection destroying it if it's the last
+// connection left. Returns false if the connection doesn't have that session
+func (con *connection) closeSession(key string) bool {
+	con.sessionLock.Lock()
+	if con.session == nil || (key != "" && con.session.Key != key) {
+		con.sessionLock.Unlock()
+		return false
+	}
+
+	key = con.session.Key
+	_, destroyed := con.srv.sessionRegistry.remove(con, key, true)
+	con.session = nil
 	con.sessionLock.Unlock()
+
+	if destroyed {
+		con.srv.sessionRegistry.destroy(key)
+	}
+	return true
 }
 
 // unlink resets the connection and marks it as disconnected
 // preparing it for garbage collection
 func (con *connection) unlink() {
 	// Deregister session from active sessions registry, but don't destroy it
-	con.srv.sessionRegistry.deregister(con, false)
-
 	con.sessionLock.Lock()
+	con.srv.sessionRegistry.deregister(con, false)
 	con.session = nil
 	con.sessionLock.Unlock()
 
@@ -194,41 +239,52 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		return ErrSessionsDisabled{}
 	}
 
-	if !con.sock.IsConnected() {
+	// Keep the connection linked until the session is created
+	if !con.sock.IsConnected() || !con.retain() {
 		return ErrDisconnected{
 			Cause: fmt.Errorf(
 				"Can't create session on disconnected connection",
 			),
 		}
 	}
+	defer con.deregisterTask()
+
+	// Create a new session
+	newSession := NewSession(attachment, con.srv.sessionKeyGen.Generate)
 
 	con.sessionLock.Lock()
 
 	// Abort if there's already another active session
 	if con.session != nil {
+		key := con.session.Key
 		con.sessionLock.Unlock()
 		return fmt.Errorf(
 			"Another session (%s) on this client is already active",
-			con.session.Key,
+			key,
 		)
 	}
 
-	// Create a new session
-	newSession := NewSession(attachment, con.srv.sessionKeyGen.Generate)
+	// Register the session
+	con.srv.sessionRegistry.beginCreation(newSession.Key)
+	defer con.srv.sessionRegistry.finishCreation(newSession.Key)
+
+	con.session = &newSession
+	if err := con.srv.sessionRegistry.register(con); err != nil {
+		con.session = nil
+		con.sessionLock.Unlock()
+		return fmt.Errorf("Couldn't register the session: %s", err)
+	}
 
 	// Try to notify about session creation
 	if err := con.notifySessionCreated(&newSession); err != nil {
+		con.srv.sessionRegistry.deregister(con, false)
+		con.session = nil
 		con.sessionLock.Unlock()
 		return fmt.Errorf(
 			"Couldn't notify client about the session creation: %s",
 			err,
 		)
 	}
-
-	// Register the session
-	con.session = &newSession
-
-	con.srv.sessionRegistry.register(con)
 	con.sessionLock.Unlock()
 
 	// Call session creation hook
@@ -285,18 +341,10 @@ func (con *connection) CloseSession() error {
 		return ErrSessionsDisabled{}
 	}
 
-	con.sessionLock.Lock()
-	if con.session == nil {
-		con.sessionLock.Unlock()
+	if !con.closeSession("") {
 		return nil
 	}
 
-	// Deregister session from active sessions registry destroying it if it's
-	// the last connection left
-	con.srv.sessionRegistry.deregister(con, true)
-	con.session = nil
-	con.sessionLock.Unlock()
-
 	return con.notifySessionClosed()
 }
 
diff --git a/handleSessionClosure.go b/handleSessionClosure.go
index 139cc8a..7541098 100644
--- a/handleSessionClosure.go
+++ b/handleSessionClosure.go
@@ -23,21 +23,11 @@ func (srv *server) handleSessionClosure(
 		return
 	}
 
-	if !con.HasSession() {
-		// Send confirmation even though no session was closed
-		srv.fulfillMsg(con, msg, Payload{})
-		finalize()
-		return
-	}
-
 	// Deregister session from active sessions registry destroying it if it's
-	// the last connection left
-	srv.sessionRegistry.deregister(con, true)
-
-	// Reset the session on the connection
-	con.setSession(nil)
+	// the last connection left and reset the session on the connection
+	con.closeSession("")
 
-	// Send confirmation
+	// Send confirmation even if no session was closed
 	srv.fulfillMsg(con, msg, Payload{})
 	finalize()
 }
diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index e3c3726..6153d9b 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -2,7 +2,6 @@ package webwire
 
 import (
 	"encoding/json"
-	"fmt"
 
 	"github.com/qbeon/webwire-go/message"
 )
@@ -36,6 +35,10 @@ func (srv *server) handleSessionRestore(
 		return
 	}
 
+	// Detect the session being destroyed after it was looked up
+	srv.sessionRegistry.begin(key)
+	defer srv.sessionRegistry.finish(key)
+
 	// Call session manager lookup hook
 	result, err := srv.sessionManager.OnSessionLookup(key)
 
@@ -83,16 +86,17 @@ func (srv *server) handleSessionRestore(
 		parsedSessInfo = srv.sessionInfoParser(sessionInfo)
 	}
 
-	con.setSession(&Session{
+	// Assign the session unless it was destroyed
+	// or reached the maximum number of connections meanwhile
+	if err := con.restoreSession(&Session{
 		Key:        key,
 		Creation:   sessionCreation,
 		LastLookup: sessionLastLookup,
 		Info:       parsedSessInfo,
-	})
-	if err := srv.sessionRegistry.register(con); err != nil {
-		panic(fmt.Errorf("the number of concurrent session connections was " +
-			"unexpectedly exceeded",
-		))
+	}); err != nil {
+		srv.failMsg(con, msg, err)
+		finalize()
+		return
 	}
 
 	srv.fulfillMsg(
diff --git a/server.go b/server.go
index 4cf3014..000aca7 100644
--- a/server.go
+++ b/server.go
@@ -100,9 +100,14 @@ func (srv *server) CloseSession(sessionKey string) (
 	affectedConnections = make([]Connection, len(connections))
 	i := 0
 	errNum := 0
-	for _, connection := range connections {
-		affectedConnections[i] = connection
-		err := connection.CloseSession()
+	for _, affected := range connections {
+		affectedConnections[i] = affected
+		// Don't close any other session the connection switched to meanwhile
+		var err error
+		con := affected.(*connection)
+		if con.closeSession(sessionKey) {
+			err = con.notifySessionClosed()
+		}
 		if err != nil {
 			errors[i] = err
 			errNum++
diff --git a/sessionRegistry.go b/sessionRegistry.go
index 6276b9c..d5b07c4 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -1,10 +1,17 @@
 package webwire
 
 import (
-	"fmt"
 	"sync"
 )
 
+// sessionState represents the state of a session
+// while it's being created, looked up or destroyed
+type sessionState struct {
+	operations int
+	creating   bool
+	destroyed  bool
+}
+
 // sessionRegistry represents a thread safe registry
 // of all currently active sessions
 type sessionRegistry struct {
@@ -12,6 +19,7 @@ type sessionRegistry struct {
 	lock             *sync.RWMutex
 	maxConns         uint
 	registry         map[string]map[*connection]struct{}
+	states           map[string]*sessionState
 	onSessionDestroy func(sessionKey string)
 }
 
@@ -26,36 +34,34 @@ func newSessionRegistry(
 		lock:             &sync.RWMutex{},
 		maxConns:         maxConns,
 		registry:         make(map[string]map[*connection]struct{}),
+		states:           make(map[string]*sessionState),
 		onSessionDestroy: onSessionDestroy,
 	}
 }
 
 // register registers a new connection for the given clients session.
 // Returns an error if the given clients session already reached
-// the maximum number of concurrent connections
+// the maximum number of concurrent connections or was destroyed meanwhile
 func (asr *sessionRegistry) register(con *connection) error {
 	asr.lock.Lock()
-	if connSet, exists := asr.registry[con.session.Key]; exists {
+	defer asr.lock.Unlock()
+
+	key := con.session.Key
+	if state, exists := asr.states[key]; exists && state.destroyed {
+		return ErrSessionNotFound{}
+	}
+
+	if connSet, exists := asr.registry[key]; exists {
 		// Ensure max connections isn't exceeded
 		if asr.maxConns > 0 && uint(len(connSet)+1) > asr.maxConns {
-			asr.lock.Unlock()
-			return fmt.Errorf(
-				"Max conns (%d) reached for session %s",
-				asr.maxConns,
-				con.session.Key,
-			)
+			return ErrMaxSessConnsReached{}
 		}
-		// Overwrite the current entry incrementing the number of connections
 		connSet[con] = struct{}{}
-		asr.registry[con.session.Key] = connSet
-		asr.lock.Unlock()
 		return nil
 	}
-	newList := map[*connection]struct{}{
+	asr.registry[key] = map[*connection]struct{}{
 		con: {},
 	}
-	asr.registry[con.session.Key] = newList
-	asr.lock.Unlock()
 	return nil
 }
 
@@ -74,41 +80,132 @@ func (asr *sessionRegistry) deregister(
 		return -1
 	}
 
+	key := conn.session.Key
+	left, destroyed := asr.remove(conn, key, destroy)
+	if destroyed {
+		asr.destroy(key)
+	}
+	return left
+}
+
+// remove removes a connection from the list of connections of the session
+// identified by the given key and returns the number of connections left, or -1
+// if the connection isn't in the list. If the last connection is removed and
+// destroy is true then the session is marked as destroyed, the caller must then
+// call the destroy method if true is returned
+func (asr *sessionRegistry) remove(
+	conn *connection,
+	key string,
+	destroy bool,
+) (left int, destroyed bool) {
 	asr.lock.Lock()
-	if connSet, exists := asr.registry[conn.session.Key]; exists {
-		// If a single connection is left then remove or destroy the session
-		if len(connSet) < 2 {
-			delete(asr.registry, conn.session.Key)
-			asr.lock.Unlock()
-
-			// Destroy the session
-			if destroy {
-				// Recover potential user-space hook panics
-				// to avoid panicking the server
-				defer func() {
-					if recvErr := recover(); recvErr != nil {
-						asr.server.errorLog.Printf(
-							"session closure hook panic: %v",
-							recvErr,
-						)
-					}
-				}()
-
-				asr.onSessionDestroy(conn.session.Key)
-			}
-
-			return 0
-		}
+	defer asr.lock.Unlock()
 
-		// Find and remove the client from the connections list
-		delete(connSet, conn)
-		connSetLen := len(connSet)
-		asr.lock.Unlock()
-		return connSetLen
+	connSet := asr.registry[key]
+	if _, exists := connSet[conn]; !exists {
+		return -1, false
+	}
+
+	delete(connSet, conn)
+	if len(connSet) > 0 {
+		return len(connSet), false
 	}
+	delete(asr.registry, key)
+
+	if !destroy {
+		return 0, false
+	}
+
+	state := asr.acquire(key)
+	state.destroyed = true
+	if state.creating {
+		// Let the creator destroy the session after its creation was completed
+		asr.release(key)
+		return 0, false
+	}
+	return 0, true
+}
+
+// destroy executes the session manager hook OnSessionClosed of a session
+// that was marked as destroyed
+func (asr *sessionRegistry) destroy(key string) {
+	defer asr.finish(key)
+
+	// Recover potential user-space hook panics
+	// to avoid panicking the server
+	defer func() {
+		if recvErr := recover(); recvErr != nil {
+			asr.server.errorLog.Printf(
+				"session closure hook panic: %v",
+				recvErr,
+			)
+		}
+	}()
 
+	asr.onSessionDestroy(key)
+}
+
+// begin announces an operation that relies on the stored session identified by
+// the given key not being destroyed meanwhile. It must be followed by finish
+func (asr *sessionRegistry) begin(key string) {
+	asr.lock.Lock()
+	asr.acquire(key)
 	asr.lock.Unlock()
-	return -1
+}
+
+// finish finishes an operation announced by begin
+func (asr *sessionRegistry) finish(key string) {
+	asr.lock.Lock()
+	asr.release(key)
+	asr.lock.Unlock()
+}
+
+// beginCreation announces the creation of a new session.
+// It must be followed by finishCreation
+func (asr *sessionRegistry) beginCreation(key string) {
+	asr.lock.Lock()
+	state := asr.acquire(key)
+	state.creating = true
+	state.destroyed = false
+	asr.lock.Unlock()
+}
+
+// finishCreation finishes the creation of a session
+// and destroys it in case it was closed meanwhile
+func (asr *sessionRegistry) finishCreation(key string) {
+	asr.lock.Lock()
+	state := asr.states[key]
+	state.creating = false
+	destroyed := state.destroyed
+	if !destroyed {
+		asr.release(key)
+	}
+	asr.lock.Unlock()
+
+	if destroyed {
+		asr.destroy(key)
+	}
+}
+
+// acquire returns the state of the session identified by the given key
+// preserving it until it's released
+func (asr *sessionRegistry) acquire(key string) *sessionState {
+	state, exists := asr.states[key]
+	if !exists {
+		state = &sessionState{}
+		asr.states[key] = state
+	}
+	state.operations++
+	return state
+}
+
+// release releases an acquired session state
+func (asr *sessionRegistry) release(key string) {
+	state := asr.states[key]
+	state.operations--
+	if state.operations < 1 {
+		delete(asr.states, key)
+	}
 }
 
 // activeSessionsNum returns the number of currently active sessions
-- 
2.43.0


From a7cf8bb9d918fe93d6ed3ad38fc997e423e2dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 06/15] fix: don't let session keys escape the session
 directory or alias other sessions

---
 defaultSessionManager.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 05921ab..c81e041 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"path/filepath"
 	"time"
@@ -90,9 +91,10 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	}
 }
 
-// filePath generates an absolute session file path given the session key
+// filePath generates an absolute session file path given the session key.
+// The key is escaped because it can contain any characters
 func (mng *DefaultSessionManager) filePath(sessionKey string) string {
-	return filepath.Join(mng.path, sessionKey+".wwrsess")
+	return filepath.Join(mng.path, url.PathEscape(sessionKey)+".wwrsess")
 }
 
 // OnSessionCreated implements the session manager interface.
-- 
2.43.0


From 31f53891afe80a17ab5d930fff244d2726fd4322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 07/15] fix: keep stored sessions intact across crashes,
 concurrent lookups and closures

Session files are replaced atomically, a lookup can't write back the file of a
session that is closed meanwhile, the session directory is created accessible and
a session that was closed before it was saved doesn't crash the server.
---
 defaultSessionManager.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index c81e041..2508122 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -2,11 +2,13 @@ package webwire
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"net/url"
 	"os"
 	"path/filepath"
+	"sync"
 	"time"
 )
 
@@ -35,16 +37,35 @@ func (sessf *sessionFile) Save(filePath string) error {
 	if err != nil {
 		return fmt.Errorf("Couldn't marshal session file: %s", err)
 	}
-	if err := ioutil.WriteFile(filePath, encoded, 0640); err != nil {
+	if err := replaceFile(filePath, encoded); err != nil {
 		return fmt.Errorf("Couldn't write session file: %s", err)
 	}
 	return nil
 }
 
+// replaceFile atomically creates or replaces the file at the given path
+func replaceFile(filePath string, contents []byte) error {
+	tempPath := filepath.Join(
+		filepath.Dir(filePath),
+		generateSessionKey()+".tmp",
+	)
+	err := ioutil.WriteFile(tempPath, contents, 0640)
+	if err == nil {
+		err = os.Rename(tempPath, filePath)
+	}
+	if err != nil {
+		os.Remove(tempPath)
+	}
+	return err
+}
+
 // DefaultSessionManager represents a default session manager implementation.
 // It uses files as a persistent storage
 type DefaultSessionManager struct {
 	path string
+
+	// lock prevents lookups from restoring the file of a closed session
+	lock sync.Mutex
 }
 
 // NewDefaultSessionManager constructs a new default session manager instance.
@@ -70,7 +91,7 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	_, err := os.Stat(sessFilesPath)
 	if os.IsNotExist(err) {
 		// Create the directory if it doesn't exist yet
-		if err := os.MkdirAll(sessFilesPath, 0640); err != nil {
+		if err := os.MkdirAll(sessFilesPath, 0750); err != nil {
 			panic(fmt.Errorf(
 				"Couldn't create default session directory ('%s'): %s",
 				sessFilesPath,
@@ -101,12 +122,15 @@ func (mng *DefaultSessionManager) filePath(sessionKey string) string {
 // It writes the created session into a file using the session key as file name
 func (mng *DefaultSessionManager) OnSessionCreated(conn Connection) error {
 	sess := conn.Session()
+	if sess == nil {
+		return errors.New("Couldn't save session, it was closed meanwhile")
+	}
 	sessFile := sessionFile{
 		Creation:   sess.Creation,
 		LastLookup: sess.LastLookup,
 		Info:       SessionInfoToVarMap(sess.Info),
 	}
-	return sessFile.Save(mng.filePath(conn.SessionKey()))
+	return sessFile.Save(mng.filePath(sess.Key))
 }
 
 // OnSessionLookup implements the session manager interface.
@@ -118,6 +142,9 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 ) {
 	path := mng.filePath(key)
 
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	// Lookup session file
 	_, err := os.Stat(path)
 	if os.IsNotExist(err) {
@@ -161,6 +188,9 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 // OnSessionClosed implements the session manager interface.
 // It closes the session by deleting the according session file
 func (mng *DefaultSessionManager) OnSessionClosed(sessionKey string) error {
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	if err := os.Remove(mng.filePath(sessionKey)); err != nil {
 		return fmt.Errorf(
 			"Unexpected error during session destruction: %s",
-- 
2.43.0


From 920e401e3805128e58f242210e93ec6a048b0447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:40 +0000
Subject: [PATCH 08/15] fix: parse messages independently of the message
 object's history and of how the stream ends

Reused messages kept fields of the previous message, a full buffer followed by
a final chunk returned together with io.EOF was accepted truncated and named
UTF16 signals without a payload were rejected.
---
 message/buffer.go           | 12 ++++++++++--
 message/message.go          | 17 +++++++++++------
 message/parse.go            |  3 +++
 message/parseSignalUtf16.go | 11 +++--------
 message/read.go             |  9 +++------
 5 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/message/buffer.go b/message/buffer.go
index f20508f..601ef89 100644
--- a/message/buffer.go
+++ b/message/buffer.go
@@ -33,13 +33,21 @@ func (buf *Buffer) Read(reader io.Reader) error {
 	for {
 		if cursor >= len(buf.buf) {
 			// Expect EOF on full buffer
-			_, err := reader.Read(buf.buf)
-			if err != io.EOF {
+			var overflow [1]byte
+			readBytes, err := reader.Read(overflow[:])
+			if readBytes > 0 {
 				// Overflow! Discard the message that's bigger than the buffer
 				buf.Close()
 				io.Copy(ioutil.Discard, reader)
 				return errors.New("message buffer overflow")
 			}
+			if err == nil {
+				continue
+			}
+			if err != io.EOF {
+				buf.Close()
+				return err
+			}
 
 			// Successfully read out the reader
 			buf.len = cursor
diff --git a/message/message.go b/message/message.go
index 5d04156..d9becc5 100644
--- a/message/message.go
+++ b/message/message.go
@@ -13,7 +13,7 @@ const (
 	//  1. message type (1 byte)
 	//  2. name length flag (1 byte)
 	//  3. name (n bytes, optional if name length flag is 0)
-	//  4. payload (n bytes, at least 1 byte)
+	//  4. payload (n bytes, at least 1 byte or optional if name len > 0)
 	MinLenSignal = int(3)
 
 	// MinLenSignalUtf16 represents the minimum length
@@ -23,7 +23,7 @@ const (
 	//  2. name length flag (1 byte)
 	//  3. name (n bytes, optional if name length flag is 0)
 	//  4. header padding (1 byte, required if name length flag is odd)
-	//  5. payload (n bytes, at least 2 bytes)
+	//  5. payload (n bytes, at least 2 bytes or optional if name len > 0)
 	MinLenSignalUtf16 = int(4)
 
 	// MinLenRequest represents the minimum length
@@ -302,13 +302,18 @@ func (msg *Message) Close() {
 	}
 
 	msg.MsgBuffer.Close()
+	msg.reset()
+
+	// Call closure callback
+	msg.onClose()
+}
+
+// reset resets all parsed fields
+func (msg *Message) reset() {
 	msg.MsgType = 0
 	msg.MsgIdentifier = [8]byte{}
-	msg.MsgIdentifierBytes = nil
+	msg.MsgIdentifierBytes = msg.MsgIdentifier[:]
 	msg.MsgName = nil
 	msg.MsgPayload = pld.Payload{}
 	msg.ServerConfiguration = ServerConfiguration{}
-
-	// Call closure callback
-	msg.onClose()
 }
diff --git a/message/parse.go b/message/parse.go
index 11be7aa..9d682f2 100644
--- a/message/parse.go
+++ b/message/parse.go
@@ -10,6 +10,9 @@ import (
 // the returned parsedMsgType is set to false if the message type
 // couldn't be determined, otherwise it's set to true.
 func (msg *Message) parse() (parsedMsgType bool, err error) {
+	// Make sure nothing of a previously parsed message remains
+	msg.reset()
+
 	if msg.MsgBuffer.IsEmpty() {
 		return false, nil
 	}
diff --git a/message/parseSignalUtf16.go b/message/parseSignalUtf16.go
index 1998db8..c36f7ff 100644
--- a/message/parseSignalUtf16.go
+++ b/message/parseSignalUtf16.go
@@ -25,23 +25,18 @@ func (msg *Message) parseSignalUtf16() error {
 	// Read name length
 	nameLen := int(dat[1])
 
-	// Determine minimum required message length
-	minMsgSize := MinLenSignalUtf16 + nameLen
-	payloadOffset := 2 + nameLen
-
 	// Check whether a name padding byte is to be expected
+	payloadOffset := 2 + nameLen
 	if nameLen%2 != 0 {
-		minMsgSize++
 		payloadOffset++
 	}
 
 	// Verify total message size to prevent segmentation faults
 	// caused by inconsistent flags. This could happen if the specified
 	// name length doesn't correspond to the actual name length
-	if msg.MsgBuffer.len < minMsgSize {
+	if msg.MsgBuffer.len < payloadOffset {
 		return fmt.Errorf(
-			"invalid signal message, too short for full name (%d) "+
-				"and the minimum payload (2)",
+			"invalid signal message, too short for full name (%d)",
 			nameLen,
 		)
 	}
diff --git a/message/read.go b/message/read.go
index 6c18197..29cca5e 100644
--- a/message/read.go
+++ b/message/read.go
@@ -7,15 +7,11 @@ import (
 
 // ReadBytes reads and parses the message from the given byte slice
 func (msg *Message) ReadBytes(bytes []byte) (typeParsed bool, err error) {
-	if len(bytes) < 1 {
-		return false, nil
-	}
+	msg.MsgBuffer.Close()
 	if len(bytes) > len(msg.MsgBuffer.buf) {
+		msg.reset()
 		return false, errors.New("message buffer overflow")
 	}
-	if !msg.MsgBuffer.IsEmpty() {
-		msg.MsgBuffer.Close()
-	}
 	copy(msg.MsgBuffer.buf[:len(bytes)], bytes)
 	msg.MsgBuffer.len = len(bytes)
 	return msg.parse()
@@ -24,6 +20,7 @@ func (msg *Message) ReadBytes(bytes []byte) (typeParsed bool, err error) {
 // Read reads and parses the message from the given reader
 func (msg *Message) Read(reader io.Reader) (typeParsed bool, err error) {
 	if err := msg.MsgBuffer.Read(reader); err != nil {
+		msg.reset()
 		return false, err
 	}
 	return msg.parse()
-- 
2.43.0


From 2063e5313c891d3b6c7ed67f84d7e25d772e23cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:12 +0000
Subject: [PATCH 09/15] fix: don't write messages that can't be parsed

Signals without name and payload, error replies with an invalid code length,
session restoration requests without a key, session closure requests with a
payload and session creation notifications without session info were written
although no reader accepts them.
---
 message/writeMsgErrorReply.go      | 41 +++++++++++++++---------------
 message/writeMsgNamelessRequest.go | 13 ++++++++++
 message/writeMsgSessionCreated.go  | 10 ++++++++
 message/writeMsgSignal.go          | 12 +++++++++
 4 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/message/writeMsgErrorReply.go b/message/writeMsgErrorReply.go
index e225f13..d4aaa05 100644
--- a/message/writeMsgErrorReply.go
+++ b/message/writeMsgErrorReply.go
@@ -14,27 +14,28 @@ func WriteMsgReplyError(
 	message []byte,
 	safeMode bool,
 ) error {
-	if safeMode {
-		// Validate input
-		if len(code) < 1 {
-			initialErr := fmt.Errorf(
-				"missing error code while creating a new error reply message",
-			)
-			if err := writer.Close(); err != nil {
-				return fmt.Errorf("%s: %s", initialErr, err)
-			}
-			return initialErr
-		} else if len(code) > 255 {
-			initialErr := fmt.Errorf(
-				"invalid error code while creating a new error reply message,"+
-					"too long (%d)",
-				len(code),
-			)
-			if err := writer.Close(); err != nil {
-				return fmt.Errorf("%s: %s", initialErr, err)
-			}
-			return initialErr
+	// Validate input
+	if len(code) < 1 {
+		initialErr := fmt.Errorf(
+			"missing error code while creating a new error reply message",
+		)
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
+		}
+		return initialErr
+	} else if len(code) > 255 {
+		initialErr := fmt.Errorf(
+			"invalid error code while creating a new error reply message,"+
+				"too long (%d)",
+			len(code),
+		)
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
 		}
+		return initialErr
+	}
+
+	if safeMode {
 		// Determine total message length
 		// messageSize := 10 + len(code) + len(message)
 		// if len(buf) < messageSize {
diff --git a/message/writeMsgNamelessRequest.go b/message/writeMsgNamelessRequest.go
index c4cf3c3..92aef0e 100644
--- a/message/writeMsgNamelessRequest.go
+++ b/message/writeMsgNamelessRequest.go
@@ -20,6 +20,19 @@ func WriteMsgNamelessRequest(
 		panic(fmt.Errorf("unexpected nameless request type: %d", reqType))
 	}
 
+	// Only session restoration requests have a payload (the session key)
+	if (reqType == MsgRequestRestoreSession) != (len(binaryPayload) > 0) {
+		initialErr := fmt.Errorf(
+			"invalid payload length (%d) for nameless request type: %d",
+			len(binaryPayload),
+			reqType,
+		)
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
+		}
+		return initialErr
+	}
+
 	// Write message type flag
 	if _, err := writer.Write(msgType); err != nil {
 		if closeErr := writer.Close(); closeErr != nil {
diff --git a/message/writeMsgSessionCreated.go b/message/writeMsgSessionCreated.go
index 929cf8c..5f36773 100644
--- a/message/writeMsgSessionCreated.go
+++ b/message/writeMsgSessionCreated.go
@@ -1,6 +1,7 @@
 package message
 
 import (
+	"errors"
 	"fmt"
 	"io"
 )
@@ -11,6 +12,15 @@ func WriteMsgNotifySessionCreated(
 	writer io.WriteCloser,
 	sessionInfo []byte,
 ) error {
+	// Require the session info
+	if len(sessionInfo) < 1 {
+		initialErr := errors.New("missing session info")
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
+		}
+		return initialErr
+	}
+
 	// Write message type flag
 	if _, err := writer.Write(msgTypeSessionCreated); err != nil {
 		if closeErr := writer.Close(); closeErr != nil {
diff --git a/message/writeMsgSignal.go b/message/writeMsgSignal.go
index ac8fd9a..0fa6d9c 100644
--- a/message/writeMsgSignal.go
+++ b/message/writeMsgSignal.go
@@ -1,6 +1,7 @@
 package message
 
 import (
+	"errors"
 	"fmt"
 	"io"
 
@@ -16,6 +17,17 @@ func WriteMsgSignal(
 	payloadData []byte,
 	safeMode bool,
 ) error {
+	// Require either a name, or a payload or both, but don't allow none
+	if len(name) < 1 && len(payloadData) < 1 {
+		initialErr := errors.New(
+			"signal message requires either a name, or a payload, or both",
+		)
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
+		}
+		return initialErr
+	}
+
 	if len(name) > 255 {
 		initialErr := fmt.Errorf(
 			"unsupported request message name length: %d",
-- 
2.43.0


From 46677c0e079b6805c76236b446970755cf8a589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:14 +0000
Subject: [PATCH 10/15] fix: convert UTF16 surrogate pairs to UTF8

---
 payload/payload.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/payload/payload.go b/payload/payload.go
index 1c7292e..702d67d 100644
--- a/payload/payload.go
+++ b/payload/payload.go
@@ -21,13 +21,17 @@ func (pld *Payload) Utf8() ([]byte, error) {
 				"Cannot convert invalid UTF16 payload data to UTF8",
 			)
 		}
-		u16str := make([]uint16, 1)
+		u16str := make([]uint16, 0, len(pld.Data)/2)
+		for i := 0; i < len(pld.Data); i += 2 {
+			u16str = append(
+				u16str,
+				uint16(pld.Data[i])+(uint16(pld.Data[i+1])<<8),
+			)
+		}
 		utf8str := &bytes.Buffer{}
 		utf8buf := make([]byte, 4)
-		for i := 0; i < len(pld.Data); i += 2 {
-			u16str[0] = uint16(pld.Data[i]) + (uint16(pld.Data[i+1]) << 8)
-			rn := utf16.Decode(u16str)
-			rnSize := utf8.EncodeRune(utf8buf, rn[0])
+		for _, rn := range utf16.Decode(u16str) {
+			rnSize := utf8.EncodeRune(utf8buf, rn)
 			utf8str.Write(utf8buf[:rnSize])
 		}
 		return utf8str.Bytes(), nil
-- 
2.43.0


From f23a4be87606af8733af72c04d98b3a2836698d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 11/15] fix: settle pending requests exactly once

Concurrent Fulfill and Fail calls could both find the request pending (the
second one blocked forever) and a settled request's result was lost when its
context was canceled at the same time.
---
 requestManager/request.go        | 22 ++++++++++---
 requestManager/requestManager.go | 56 +++++++++++++++++---------------
 2 files changed, 46 insertions(+), 32 deletions(-)

diff --git a/requestManager/request.go b/requestManager/request.go
index d513ec3..48606f5 100644
--- a/requestManager/request.go
+++ b/requestManager/request.go
@@ -17,6 +17,14 @@ type genericReply struct {
 	Error    error
 }
 
+// result returns the result of the request
+func (rp genericReply) result() (webwire.Reply, error) {
+	if rp.Error != nil {
+		return nil, rp.Error
+	}
+	return &reply{msg: rp.ReplyMsg}, nil
+}
+
 // Request represents a request created and tracked by the request manager
 type Request struct {
 	// manager references the RequestManager instance managing this request
@@ -38,13 +46,17 @@ func (req *Request) AwaitReply(ctx context.Context) (webwire.Reply, error) {
 	// Block until either context canceled (including timeout) or reply received
 	select {
 	case <-ctx.Done():
-		req.manager.deregister(req.Identifier)
+		if !req.manager.deregister(req.Identifier) {
+			// The request was settled already, don't lose its result
+			select {
+			case rp := <-req.Reply:
+				return rp.result()
+			default:
+			}
+		}
 		return nil, webwire.TranslateContextError(ctx.Err())
 
 	case rp := <-req.Reply:
-		if rp.Error != nil {
-			return nil, rp.Error
-		}
-		return &reply{msg: rp.ReplyMsg}, nil
+		return rp.result()
 	}
 }
diff --git a/requestManager/requestManager.go b/requestManager/requestManager.go
index d739adb..a10a885 100644
--- a/requestManager/requestManager.go
+++ b/requestManager/requestManager.go
@@ -50,34 +50,46 @@ func (manager *RequestManager) Create() *Request {
 	return newRequest
 }
 
-// deregister deregisters the given clients session from the list
-// of currently pending requests
-func (manager *RequestManager) deregister(identifier [8]byte) {
+// deregister deregisters the given request from the list of currently pending
+// requests. Returns false if it's not pending (any more)
+func (manager *RequestManager) deregister(identifier [8]byte) bool {
 	manager.lock.Lock()
+	_, exists := manager.pending[identifier]
 	delete(manager.pending, identifier)
 	manager.lock.Unlock()
+	return exists
 }
 
-// Fulfill fulfills the request associated with the given request identifier
-// with the provided reply payload.
-// Returns true if a pending request was fulfilled and deregistered,
-// otherwise returns false
-func (manager *RequestManager) Fulfill(msg *message.Message) bool {
-	manager.lock.RLock()
-	req, exists := manager.pending[msg.MsgIdentifier]
-	manager.lock.RUnlock()
+// settle deregisters the given request passing the result to its waiter.
+// Returns false if it's not pending (any more)
+func (manager *RequestManager) settle(
+	identifier [8]byte,
+	result genericReply,
+) bool {
+	manager.lock.Lock()
+	defer manager.lock.Unlock()
 
+	req, exists := manager.pending[identifier]
 	if !exists {
 		return false
 	}
 
-	manager.deregister(msg.MsgIdentifier)
-	req.Reply <- genericReply{
-		ReplyMsg: msg,
-	}
+	// The buffered result never blocks because it's only written once
+	delete(manager.pending, identifier)
+	req.Reply <- result
 	return true
 }
 
+// Fulfill fulfills the request associated with the given request identifier
+// with the provided reply payload.
+// Returns true if a pending request was fulfilled and deregistered,
+// otherwise returns false
+func (manager *RequestManager) Fulfill(msg *message.Message) bool {
+	return manager.settle(msg.MsgIdentifier, genericReply{
+		ReplyMsg: msg,
+	})
+}
+
 // Fail fails the request associated with the given request identifier
 // with the provided error. Returns true if a pending request
 // was failed and deregistered, otherwise returns false
@@ -85,19 +97,9 @@ func (manager *RequestManager) Fail(
 	identifier [8]byte,
 	err error,
 ) bool {
-	manager.lock.RLock()
-	req, exists := manager.pending[identifier]
-	manager.lock.RUnlock()
-
-	if !exists {
-		return false
-	}
-
-	manager.deregister(identifier)
-	req.Reply <- genericReply{
+	return manager.settle(identifier, genericReply{
 		Error: err,
-	}
-	return true
+	})
 }
 
 // PendingRequests returns the number of currently pending requests
-- 
2.43.0


From 8f604a7034aeb0ef9bed38a866309819ef957410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 12/15] fix: don't crash when a message that doesn't belong to
 a pool is closed

---
 message/message.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/message/message.go b/message/message.go
index d9becc5..b313612 100644
--- a/message/message.go
+++ b/message/message.go
@@ -304,8 +304,10 @@ func (msg *Message) Close() {
 	msg.MsgBuffer.Close()
 	msg.reset()
 
-	// Call closure callback
-	msg.onClose()
+	// Call closure callback (messages of no pool don't have any)
+	if msg.onClose != nil {
+		msg.onClose()
+	}
 }
 
 // reset resets all parsed fields
-- 
2.43.0


From ecf38f20ac8f08a822e8a9bbd22afd04fa614a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 13/15] fix: copy session info maps with nil or NaN keys

---
 genericSessionInfo.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/genericSessionInfo.go b/genericSessionInfo.go
index d2206e2..e395b01 100644
--- a/genericSessionInfo.go
+++ b/genericSessionInfo.go
@@ -57,12 +57,15 @@ func copyRecursive(original, cpy reflect.Value) {
 			return
 		}
 		cpy.Set(reflect.MakeMap(original.Type()))
-		for _, key := range original.MapKeys() {
-			originalValue := original.MapIndex(key)
+		for entries := original.MapRange(); entries.Next(); {
+			originalValue := entries.Value()
 			copyValue := reflect.New(originalValue.Type()).Elem()
 			copyRecursive(originalValue, copyValue)
-			copyKey := deepCopy(key.Interface())
-			cpy.SetMapIndex(reflect.ValueOf(copyKey), copyValue)
+			// Copy the key by its static type, deepCopy would lose the type
+			// of nil keys
+			copyKey := reflect.New(entries.Key().Type()).Elem()
+			copyRecursive(entries.Key(), copyKey)
+			cpy.SetMapIndex(copyKey, copyValue)
 		}
 
 	default:
-- 
2.43.0


From 08489011376f706469c9c30893ea5954a68bed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 14/15] fix: log the error returned by the session destruction
 hook

---
 newServer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newServer.go b/newServer.go
index f60a9fd..be48c42 100644
--- a/newServer.go
+++ b/newServer.go
@@ -77,7 +77,7 @@ func NewServer(
 			if err := srv.sessionManager.OnSessionClosed(
 				sessionKey,
 			); err != nil {
-				srv.errorLog.Printf("session registry ")
+				srv.errorLog.Printf("OnSessionClosed hook failed: %s", err)
 			}
 		},
 	)
-- 
2.43.0


From d58867009f2d62c767d42bdcc89e3aa31985158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 15/15] fix: don't keep every connection referenced until the
 server ends

---
 handleConnection.go | 6 +-----
 newServer.go        | 2 --
 server.go           | 2 --
 3 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/handleConnection.go b/handleConnection.go
index e84988f..1af84dc 100644
--- a/handleConnection.go
+++ b/handleConnection.go
@@ -45,17 +45,13 @@ func (srv *server) handleConnection(
 		return
 	}
 
-	// Register connected client
+	// Create the connected client
 	connection := newConnection(
 		sock,
 		srv,
 		connectionOptions,
 	)
 
-	srv.connectionsLock.Lock()
-	srv.connections = append(srv.connections, connection)
-	srv.connectionsLock.Unlock()
-
 	// Call hook on successful connection
 	srv.impl.OnClientConnected(connectionOptions, connection)
 
diff --git a/newServer.go b/newServer.go
index be48c42..68734b6 100644
--- a/newServer.go
+++ b/newServer.go
@@ -63,8 +63,6 @@ func NewServer(
 		shutdownRdy:       make(chan bool),
 		currentOps:        0,
 		opsLock:           &sync.Mutex{},
-		connections:       make([]*connection, 0),
-		connectionsLock:   &sync.Mutex{},
 		sessionsEnabled:   sessionsEnabled,
 		messagePool:       message.NewSyncPool(opts.MessageBufferSize, 1024),
 		warnLog:           opts.WarnLog,
diff --git a/server.go b/server.go
index 000aca7..fe26bf8 100644
--- a/server.go
+++ b/server.go
@@ -24,8 +24,6 @@ type server struct {
 	shutdownRdy       chan bool
 	currentOps        uint32
 	opsLock           *sync.Mutex
-	connectionsLock   *sync.Mutex
-	connections       []*connection
 	sessionsEnabled   bool
 	sessionRegistry   *sessionRegistry
 	messagePool       message.Pool
-- 
2.43.0

