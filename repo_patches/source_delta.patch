From c44f0734da7649100f2ae6de092ad989bdf6209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:39 +0000
Subject: [PATCH 01/64] fix: decode the cluster id of a metadata response (null
 id panicked, others were cut)

---
 metadata_response.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metadata_response.go b/metadata_response.go
index 46b7e8a..976ce73 100644
--- a/metadata_response.go
+++ b/metadata_response.go
@@ -176,9 +176,11 @@ func NewMetadataResponse(payload []byte, version uint16) (r MetadataResponse, er
 	}
 
 	if version >= 4 {
-		l := int(binary.BigEndian.Uint16(payload[offset:]))
-		r.ClusterID = string(payload[offset : offset+l])
-		offset += 2 + l
+		clusterID, o := nullableString(payload[offset:])
+		if clusterID != nil {
+			r.ClusterID = *clusterID
+		}
+		offset += o
 	}
 	// ControllerID
 	r.ControllerID = int32(binary.BigEndian.Uint32(payload[offset:]))
-- 
2.43.0


From 8bd6a2924236724f5fccbd33270f8a81fff07f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:44 +0000
Subject: [PATCH 02/64] fix: encode the length of a null record key

---
 record.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/record.go b/record.go
index 3dfdb3d..0c091c9 100644
--- a/record.go
+++ b/record.go
@@ -65,7 +65,7 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 	keyLenBuf := make([]byte, binary.MaxVarintLen64)
 	if r.key == nil {
-		binary.PutVarint(keyLenBuf, -1)
+		n = binary.PutVarint(keyLenBuf, -1)
 	} else {
 		n = binary.PutVarint(keyLenBuf, int64(len(r.key)))
 	}
-- 
2.43.0


From e66fb9b4284d085b7144dfae3ae8f1b5b80dca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:49 +0000
Subject: [PATCH 03/64] fix: give every record of a batch its own offset and
 copy the key

---
 simple_producer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/simple_producer.go b/simple_producer.go
index d304dc7..de4e415 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -139,12 +139,18 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 	valueCopy := make([]byte, len(value))
 	copy(valueCopy, value)
 
+	var keyCopy []byte
+	if key != nil {
+		keyCopy = make([]byte, len(key))
+		copy(keyCopy, key)
+	}
+
 	record := Record{
 		attributes:     0x00, // compress in upper message set level
 		timestampDelta: 0,
-		offsetDelta:    0,
+		offsetDelta:    int32(len(p.records)),
 
-		key:   key,
+		key:   keyCopy,
 		value: valueCopy,
 	}
 
-- 
2.43.0


From cf5447c9d0f09a31b6d72212b7ef654bd797888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:54 +0000
Subject: [PATCH 04/64] fix: AddMessage reports that sending the full batch
 failed

---
 simple_producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index de4e415..d269b0d 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -158,7 +158,7 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 	if len(p.records) >= p.config.MessageMaxCount {
 		records := p.records
 		p.records = make([]*Record, 0, p.config.MessageMaxCount)
-		p.flush(records)
+		return p.flush(records)
 	}
 	return nil
 }
-- 
2.43.0


From 69c21ababe42d52bf1d716011c8f187b4ce7723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:05 +0000
Subject: [PATCH 05/64] fix: SimpleProducer.Close does not leave its records to
 a late flush

---
 simple_producer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index d269b0d..1997fcd 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -238,7 +238,9 @@ func (p *SimpleProducer) Close() {
 
 		logger.Info("flush before SimpleProducer close")
 		if len(p.records) > 0 {
-			p.flush(p.records)
+			records := p.records
+			p.records = nil // a flush that is waiting for the lock must not send them again
+			p.flush(records)
 		}
 
 		if p.parent == nil {
-- 
2.43.0


From 7dd155c3b2edecaad039f80246035bd357f6cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:10 +0000
Subject: [PATCH 06/64] fix: SimpleProducer closes the cluster connections it
 opened

---
 simple_producer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simple_producer.go b/simple_producer.go
index 1997fcd..3d28b1c 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -103,6 +103,9 @@ func NewSimpleProducer(ctx context.Context, topic string, partition int32, confi
 	} else {
 		p.leader, err = p.createLeader()
 		if err != nil {
+			if p.brokers != nil {
+				p.brokers.Close()
+			}
 			return nil, fmt.Errorf("create producer leader error: %w", err)
 		}
 	}
@@ -115,6 +118,7 @@ func NewSimpleProducer(ctx context.Context, topic string, partition int32, confi
 	// TODO wait to the next ticker to see if messageSet changes
 	go func() {
 		ticker := time.NewTicker(time.Duration(p.config.FlushIntervalMS) * time.Millisecond)
+		defer ticker.Stop()
 		for {
 			select {
 			case <-ticker.C:
@@ -250,6 +254,10 @@ func (p *SimpleProducer) Close() {
 			logger.Info("connection not closed here, parent will close it")
 		}
 
+		if p.brokers != nil {
+			p.brokers.Close()
+		}
+
 		close(p.closeChan)
 		p.closed = true
 	})
-- 
2.43.0


From cf2571b1f80e607434172f7994de9b635c920e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:14 +0000
Subject: [PATCH 07/64] fix: creating a SimpleProducer for a partition without
 leader is an error, not a nil leader

---
 simple_producer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index 3d28b1c..e396244 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -46,7 +46,10 @@ func (p *SimpleProducer) createLeader() (*Broker, error) {
 	}
 
 	leaderID, err := p.brokers.findLeader(p.config.ClientID, p.topic, p.partition)
-	if err != nil || leaderID == -1 {
+	if err == nil && leaderID == -1 {
+		err = fmt.Errorf("%s-%d has no leader", p.topic, p.partition)
+	}
+	if err != nil {
 		logger.Error(err, "could not get leader", "topic", p.topic, "partitionID", p.partition)
 		return nil, err
 	}
-- 
2.43.0


From f8d00794749bdba2e39b92f10a4b9c4219d29c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:26 +0000
Subject: [PATCH 08/64] fix: drop the broker connection after any transport
 failure, not only after EOF and EPIPE

---
 broker.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/broker.go b/broker.go
index 4f44682..824331a 100644
--- a/broker.go
+++ b/broker.go
@@ -11,7 +11,6 @@ import (
 	"net"
 	"os"
 	"sync"
-	"syscall"
 	"time"
 )
 
@@ -244,8 +243,15 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 		return nil, err
 	}
 
+	return broker.roundTrip(r)
+}
+
+// roundTrip sends the request and waits for its response. the caller holds broker.mux, or is the only user of the broker.
+// after a failure the response may still be under way, so the connection can not be used any more
+func (broker *Broker) roundTrip(r Request) (resp Response, err error) {
 	defer func() {
-		if os.IsTimeout(err) || errors.Is(err, io.EOF) || errors.Is(err, syscall.EPIPE) {
+		var e KafkaError
+		if err != nil && !errors.As(err, &e) {
 			broker.Close()
 		}
 	}()
-- 
2.43.0


From 4aba48b936465e60974de236530828f30fd9128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:30 +0000
Subject: [PATCH 09/64] fix: reconnecting with SASL no longer deadlocks

---
 broker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/broker.go b/broker.go
index 824331a..d6e095a 100644
--- a/broker.go
+++ b/broker.go
@@ -163,7 +163,8 @@ func (broker *Broker) sendSaslAuthenticate() error {
 	)
 
 	saslHandShakeRequest := NewSaslHandShakeRequest(clientID, mechanism)
-	resp, err := broker.RequestAndGet(saslHandShakeRequest)
+	// not RequestAndGet: it would wait for the lock its own reconnection holds
+	resp, err := broker.roundTrip(saslHandShakeRequest)
 	if err != nil {
 		return err
 	}
@@ -173,7 +174,7 @@ func (broker *Broker) sendSaslAuthenticate() error {
 
 	// authenticate
 	saslAuthenticateRequest := NewSaslAuthenticateRequest(clientID, user, password, mechanism)
-	resp, err = broker.RequestAndGet(saslAuthenticateRequest)
+	resp, err = broker.roundTrip(saslAuthenticateRequest)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 206a4982c36e67c05a69177cab5c079657aef356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:35 +0000
Subject: [PATCH 10/64] fix: do not keep a connection whose initialisation
 failed

---
 broker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index d6e095a..27060e2 100644
--- a/broker.go
+++ b/broker.go
@@ -75,10 +75,15 @@ func (broker *Broker) createConn() error {
 }
 
 // create a new connection to the broker, and then do the sasl authenticate if needed
-func (broker *Broker) createConnAndAuth() error {
+func (broker *Broker) createConnAndAuth() (err error) {
 	if err := broker.createConn(); err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			broker.Close()
+		}
+	}()
 
 	clientID := "healer-init"
 	apiVersionsResponse, err := broker.requestAPIVersions(clientID)
-- 
2.43.0


From 1f77db953932f1d7d105de8efeac63c2cfdb9281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:09 +0000
Subject: [PATCH 11/64] fix: closing a broker while a request is under way
 makes the request fail instead of panic

---
 broker.go   | 44 +++++++++++++++++++++++++++++++++-----------
 response.go | 12 ++++++++----
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/broker.go b/broker.go
index 27060e2..36d4f5a 100644
--- a/broker.go
+++ b/broker.go
@@ -69,6 +69,8 @@ func (broker *Broker) createConn() error {
 	if conn, err := newConn(broker.GetAddress(), broker.config); err != nil {
 		return err
 	} else {
+		broker.closeLock.Lock()
+		defer broker.closeLock.Unlock()
 		broker.conn = conn
 		return nil
 	}
@@ -210,8 +212,20 @@ func (broker *Broker) Close() {
 		broker.conn = nil
 	}
 }
+
+// getConn returns the current connection, or an error if the broker has been closed (maybe by another goroutine)
+func (broker *Broker) getConn() (net.Conn, error) {
+	broker.closeLock.Lock()
+	defer broker.closeLock.Unlock()
+
+	if broker.conn == nil {
+		return nil, net.ErrClosed
+	}
+	return broker.conn, nil
+}
+
 func (broker *Broker) ensureOpen() (err error) {
-	if broker.conn != nil {
+	if _, err := broker.getConn(); err == nil {
 		return nil
 	}
 	return broker.createConnAndAuth()
@@ -275,13 +289,17 @@ func (broker *Broker) roundTrip(r Request) (resp Response, err error) {
 }
 
 func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, error) {
-	logger.V(5).Info("send request", "src", broker.conn.LocalAddr(), "dst", broker.conn.RemoteAddr())
+	conn, err := broker.getConn()
+	if err != nil {
+		return defaultReadParser{}, err
+	}
+	logger.V(5).Info("send request", "src", conn.LocalAddr(), "dst", conn.RemoteAddr())
 	api := ApiKey(binary.BigEndian.Uint16(payload[4:]))
 	apiVersion := binary.BigEndian.Uint16(payload[6:])
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	if _, err := io.Copy(broker.conn, bytes.NewBuffer(payload)); err != nil {
+	if _, err := io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return defaultReadParser{}, err
 	}
 
@@ -299,19 +317,23 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 		}
 	}()
 
-	logger.V(5).Info("send request", "src", broker.conn.LocalAddr(), "dst", broker.conn.RemoteAddr())
+	conn, err := broker.getConn()
+	if err != nil {
+		return nil, 0, err
+	}
+	logger.V(5).Info("send request", "src", conn.LocalAddr(), "dst", conn.RemoteAddr())
 	api := ApiKey(binary.BigEndian.Uint16(payload[4:]))
 	apiVersion := binary.BigEndian.Uint16(payload[6:])
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	io.Copy(broker.conn, bytes.NewBuffer(payload))
+	io.Copy(conn, bytes.NewBuffer(payload))
 
 	responseLengthBuf := make([]byte, 4)
 	if timeout > 0 {
-		broker.conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+		conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
 	}
-	n, err := broker.conn.Read(responseLengthBuf)
+	n, err := conn.Read(responseLengthBuf)
 	if err != nil {
 		return nil, responseLength, err
 	}
@@ -323,7 +345,7 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 	logger.V(5).Info("got responseLength", "responseLength", responseLength)
 
 	reader := &io.LimitedReader{
-		R: broker.conn,
+		R: conn,
 		N: int64(responseLength),
 	}
 	return reader, responseLength, nil
@@ -380,13 +402,13 @@ func (broker *Broker) requestOffsets(clientID, topic string, partitionIDs []int3
 }
 
 func (broker *Broker) requestFetchStreamingly(fetchRequest *FetchRequest) (r io.Reader, responseLength uint32, err error) {
+	broker.mux.Lock()
+	defer broker.mux.Unlock()
+
 	if err := broker.ensureOpen(); err != nil {
 		return nil, 0, err
 	}
 
-	broker.mux.Lock()
-	defer broker.mux.Unlock()
-
 	broker.correlationID++
 
 	fetchRequest.SetCorrelationID(broker.correlationID)
diff --git a/response.go b/response.go
index df43f67..0e8a2f8 100644
--- a/response.go
+++ b/response.go
@@ -45,12 +45,16 @@ func (p defaultReadParser) ReadAndParse() (Response, error) {
 func (p defaultReadParser) Read() ([]byte, error) {
 	//TODO use LimitedReader
 	l := 0
+	conn, err := p.broker.getConn()
+	if err != nil {
+		return nil, err
+	}
 	responseLengthBuf := make([]byte, 4)
 	for {
 		if p.timeout > 0 {
-			p.broker.conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
+			conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
 		}
-		length, err := p.broker.conn.Read(responseLengthBuf[l:])
+		length, err := conn.Read(responseLengthBuf[l:])
 		if err != nil {
 			return nil, err
 		}
@@ -66,9 +70,9 @@ func (p defaultReadParser) Read() ([]byte, error) {
 	readLength := 0
 	for {
 		if p.timeout > 0 {
-			p.broker.conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
+			conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
 		}
-		length, err := p.broker.conn.Read(resp[4+readLength:])
+		length, err := conn.Read(resp[4+readLength:])
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 66a1615f9aea516eff55af3eed7636317ad5d02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:35 +0000
Subject: [PATCH 12/64] fix: fetch notices write errors and reads the response
 length completely

---
 broker.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/broker.go b/broker.go
index 36d4f5a..b341426 100644
--- a/broker.go
+++ b/broker.go
@@ -327,19 +327,17 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	io.Copy(conn, bytes.NewBuffer(payload))
+	if _, err = io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
+		return nil, responseLength, err
+	}
 
 	responseLengthBuf := make([]byte, 4)
 	if timeout > 0 {
 		conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
 	}
-	n, err := conn.Read(responseLengthBuf)
-	if err != nil {
+	if _, err = io.ReadFull(conn, responseLengthBuf); err != nil {
 		return nil, responseLength, err
 	}
-	if n != 4 {
-		return nil, responseLength, errShortRead
-	}
 
 	responseLength = binary.BigEndian.Uint32(responseLengthBuf)
 	logger.V(5).Info("got responseLength", "responseLength", responseLength)
@@ -416,7 +414,9 @@ func (broker *Broker) requestFetchStreamingly(fetchRequest *FetchRequest) (r io.
 
 	timeout := broker.config.Net.TimeoutMS
 	if len(broker.config.Net.TimeoutMSForEachAPI) > int(fetchRequest.API()) {
-		timeout = broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()]
+		if broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()] > 0 {
+			timeout = broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()]
+		}
 	}
 
 	return broker.requestStreamingly(payload, timeout)
-- 
2.43.0


From 2d6ffb249ab2f0c64475b858fb92109c69615522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:04 +0000
Subject: [PATCH 13/64] fix: LeaveGroup and DeleteTopics return the error of a
 failed request instead of panicking

---
 broker.go | 5 ++++-
 client.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/broker.go b/broker.go
index b341426..b5b9d33 100644
--- a/broker.go
+++ b/broker.go
@@ -472,5 +472,8 @@ func (broker *Broker) requestHeartbeat(clientID, groupID string, generationID in
 func (broker *Broker) requestLeaveGroup(clientID, groupID string, memberID string) (r LeaveGroupResponse, err error) {
 	leaveReq := NewLeaveGroupRequest(clientID, groupID, memberID)
 	resp, err := broker.RequestAndGet(leaveReq)
-	return resp.(LeaveGroupResponse), err
+	if v, ok := resp.(LeaveGroupResponse); ok {
+		return v, err
+	}
+	return r, err
 }
diff --git a/client.go b/client.go
index 3619d2d..15e2c71 100644
--- a/client.go
+++ b/client.go
@@ -157,7 +157,10 @@ func (c *Client) DeleteTopics(topics []string, timeoutMs int32) (r DeleteTopicsR
 	}
 
 	resp, err := controller.RequestAndGet(req)
-	return resp.(DeleteTopicsResponse), err
+	if v, ok := resp.(DeleteTopicsResponse); ok {
+		return v, err
+	}
+	return r, err
 }
 
 // CreateTopic creates a single topic with specified parameters
-- 
2.43.0


From dad0d832b463f4f27164718ebf5f1db6c8891020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:53 +0000
Subject: [PATCH 14/64] fix: Brokers closes the connections it does not keep,
 and can be closed twice

---
 brokers.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/brokers.go b/brokers.go
index 94e993f..7bb9bf0 100644
--- a/brokers.go
+++ b/brokers.go
@@ -25,6 +25,14 @@ type Brokers struct {
 
 // Close close all brokers
 func (brokers *Brokers) Close() {
+	brokers.mutex.Lock()
+	defer brokers.mutex.Unlock()
+
+	select {
+	case <-brokers.closeChan:
+		return
+	default:
+	}
 	close(brokers.closeChan)
 	for _, broker := range brokers.brokers {
 		broker.Close()
@@ -49,6 +57,7 @@ func NewBrokersWithConfig(bootstrapServers string, config *BrokerConfig) (*Broke
 		} else {
 			brokers, err := newBrokersFromOne(broker, clientID, config)
 			if err != nil {
+				broker.Close()
 				logger.Error(err, "could not create broker list", "address", broker)
 			} else {
 				brokers.bootstrapServers = bootstrapServers
@@ -87,12 +96,18 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 	brokers.mutex.Lock()
 	defer brokers.mutex.Unlock()
 	brokers.controllerID = metadataResponse.ControllerID
+	adopted := false
 	for _, brokerInfo := range metadataResponse.Brokers {
 		brokers.brokersInfo[brokerInfo.NodeID] = brokerInfo
 		if broker.GetAddress() == brokerInfo.NetAddress() {
 			brokers.brokers[brokerInfo.NodeID] = broker
+			broker.nodeID = brokerInfo.NodeID
+			adopted = true
 		}
 	}
+	if !adopted {
+		broker.Close()
+	}
 
 	for nodeID, broker := range brokers.brokersInfo {
 		logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
@@ -123,9 +138,9 @@ func (brokers *Brokers) refreshMetadata() bool {
 		}
 
 		metadataResponse, err := broker.requestMetaData(clientID, topics)
+		broker.Close()
 		if len(metadataResponse.Brokers) == 0 {
 			logger.Info("no broker returned from metadata response")
-			broker.Close()
 			continue
 		}
 
@@ -151,6 +166,7 @@ func (brokers *Brokers) refreshMetadata() bool {
 		}
 
 		metadataResponse, err := broker.requestMetaData(clientID, topics)
+		broker.Close()
 		if len(metadataResponse.Brokers) == 0 {
 			logger.Info("no broker returned from metadata response")
 			continue
-- 
2.43.0


From fd787389439d918aa17ca9634b5c945eb6740018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:57 +0000
Subject: [PATCH 15/64] fix: Producer.AddMessage does not report success for a
 message it could not hand over

---
 producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/producer.go b/producer.go
index a8cf18c..540922a 100644
--- a/producer.go
+++ b/producer.go
@@ -181,7 +181,7 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 		}
 		return err
 	}
-	return nil
+	return ErrProducerClosed
 }
 
 // Close close all simple producers in the console producer
-- 
2.43.0


From a131052958ee16f1ac645c4bac3180661e6b98a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:01 +0000
Subject: [PATCH 16/64] fix: Producer guards its metadata and producer maps
 with its lock

---
 producer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/producer.go b/producer.go
index 540922a..b16c871 100644
--- a/producer.go
+++ b/producer.go
@@ -87,14 +87,17 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 	if err != nil {
 		return fmt.Errorf("get metadata of %s error: %w", p.topic, err)
 	}
-	p.topicMeta = metadataResponse.TopicMetadatas[0]
+	topicMeta := metadataResponse.TopicMetadatas[0]
 
 	validPartitionID := make([]int32, 0)
-	for _, partition := range p.topicMeta.PartitionMetadatas {
+	for _, partition := range topicMeta.PartitionMetadatas {
 		if partition.PartitionErrorCode == 0 {
 			validPartitionID = append(validPartitionID, partition.PartitionID)
 		}
 	}
+	if len(validPartitionID) == 0 {
+		return fmt.Errorf("no available partition in topic %s", p.topic)
+	}
 	partitionID := validPartitionID[rand.Int31n(int32(len(validPartitionID)))]
 	sp, err := NewSimpleProducer(context.Background(), p.topic, partitionID, p.config)
 	if err != nil {
@@ -103,6 +106,7 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	p.topicMeta = topicMeta
 	if p.currentProducer == nil {
 		logger.Info("init current simple producer", "leader", sp.leader)
 		p.currentProducer = sp
@@ -131,9 +135,9 @@ func (p *Producer) getLeaderID(pid int32) (int32, error) {
 
 // getSimpleProducer return the simple producer. if key is nil, return the current simple producer
 func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	if key == nil {
-		p.lock.Lock()
-		defer p.lock.Unlock()
 		return p.currentProducer, nil
 	}
 
-- 
2.43.0


From 5c8e532bd6264d947aba3dac393eee789d0aacd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:05 +0000
Subject: [PATCH 17/64] fix: Producer.Close stops the metadata refresh and
 closes every connection

---
 producer.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/producer.go b/producer.go
index b16c871..ad1bf1c 100644
--- a/producer.go
+++ b/producer.go
@@ -27,6 +27,9 @@ type Producer struct {
 	currentProducer      *SimpleProducer
 	lock                 sync.Mutex
 
+	closeChan chan struct{}
+	closed    bool
+
 	ctx context.Context
 }
 
@@ -45,6 +48,7 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 		topic:                topic,
 		pidToSimpleProducers: make(map[int32]*SimpleProducer),
 		leaderBrokersMapping: make(map[int32]*Broker),
+		closeChan:            make(chan struct{}),
 	}
 
 	brokerConfig := getBrokerConfigFromProducerConfig(&cfg)
@@ -67,10 +71,17 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 	p.ctx = context.WithValue(ctx, parentProducerKey, p)
 
 	go func() {
-		for range time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond).C {
-			err := p.updateCurrentSimpleProducer()
-			if err != nil {
-				logger.Error(err, "refresh simple producer failed", "topic", p.topic)
+		ticker := time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond)
+		defer ticker.Stop()
+		for {
+			select {
+			case <-ticker.C:
+				err := p.updateCurrentSimpleProducer()
+				if err != nil {
+					logger.Error(err, "refresh simple producer failed", "topic", p.topic)
+				}
+			case <-p.closeChan:
+				return
 			}
 		}
 	}()
@@ -106,6 +117,10 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	if p.closed {
+		sp.Close()
+		return ErrProducerClosed
+	}
 	p.topicMeta = topicMeta
 	if p.currentProducer == nil {
 		logger.Info("init current simple producer", "leader", sp.leader)
@@ -137,6 +152,9 @@ func (p *Producer) getLeaderID(pid int32) (int32, error) {
 func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	if p.closed {
+		return nil, ErrProducerClosed
+	}
 	if key == nil {
 		return p.currentProducer, nil
 	}
@@ -190,6 +208,14 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 
 // Close close all simple producers in the console producer
 func (p *Producer) Close() {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	if p.closed {
+		return
+	}
+	p.closed = true
+	close(p.closeChan)
+
 	if p.currentProducer != nil {
 		p.currentProducer.Close()
 	}
@@ -200,4 +226,5 @@ func (p *Producer) Close() {
 	for _, broker := range p.leaderBrokersMapping {
 		broker.Close()
 	}
+	p.brokers.Close()
 }
-- 
2.43.0


From fd5fbedcf6db6a54f9b14ce2268185e031124012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:30 +0000
Subject: [PATCH 18/64] fix: messages with a key follow their partition to its
 new leader

---
 producer.go        | 37 ++++++++++++++++++++++++++++++-------
 simple_producer.go |  7 +++++++
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/producer.go b/producer.go
index ad1bf1c..d67d0f3 100644
--- a/producer.go
+++ b/producer.go
@@ -132,9 +132,36 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 		older.Close()
 	}
 
+	// the leaders of the partitions may have moved
+	for pid, sp := range p.pidToSimpleProducers {
+		leaderID, err := p.getLeaderID(pid)
+		if err == nil && leaderID != sp.leader.nodeID {
+			var broker *Broker
+			if broker, err = p.getLeaderBroker(leaderID); err == nil {
+				sp.setLeader(broker)
+			}
+		}
+		if err != nil {
+			logger.Error(err, "update leader of simple producer failed", "topic", p.topic, "partition", pid)
+		}
+	}
+
 	return nil
 }
 
+// getLeaderBroker returns the connection to the broker, which is shared by the partitions it leads
+func (p *Producer) getLeaderBroker(leaderID int32) (*Broker, error) {
+	if broker, ok := p.leaderBrokersMapping[leaderID]; ok {
+		return broker, nil
+	}
+	broker, err := p.brokers.NewBroker(leaderID)
+	if err != nil {
+		return nil, fmt.Errorf("create broker %d error: %s", leaderID, err)
+	}
+	p.leaderBrokersMapping[leaderID] = broker
+	return broker, nil
+}
+
 // getLeaderID return the leader broker id of the partition from metadata cache
 func (p *Producer) getLeaderID(pid int32) (int32, error) {
 	for _, partition := range p.topicMeta.PartitionMetadatas {
@@ -169,13 +196,9 @@ func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
 	if err != nil {
 		return nil, err
 	}
-	broker, ok := p.leaderBrokersMapping[leaderID]
-	if !ok {
-		broker, err = p.brokers.NewBroker(leaderID)
-		if err != nil {
-			return nil, fmt.Errorf("create broker %d error: %s", leaderID, err)
-		}
-		p.leaderBrokersMapping[leaderID] = broker
+	broker, err := p.getLeaderBroker(leaderID)
+	if err != nil {
+		return nil, err
 	}
 
 	ctx := context.WithValue(p.ctx, leaderKey, broker)
diff --git a/simple_producer.go b/simple_producer.go
index e396244..cda6944 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -237,6 +237,13 @@ func (p *SimpleProducer) flush(records []*Record) error {
 	return err
 }
 
+// setLeader makes the producer send to another broker from now on
+func (p *SimpleProducer) setLeader(leader *Broker) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	p.leader = leader
+}
+
 // Close closes the producer
 func (p *SimpleProducer) Close() {
 	p.once.Do(func() {
-- 
2.43.0


From cc612a0677c25248ff1dee4dc3d2c223df6a2f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:34 +0000
Subject: [PATCH 19/64] fix: do not wait for a response to a produce request
 with acks=0

---
 broker.go          | 14 ++++++++++++++
 simple_producer.go |  4 ++++
 2 files changed, 18 insertions(+)

diff --git a/broker.go b/broker.go
index b5b9d33..46b63a7 100644
--- a/broker.go
+++ b/broker.go
@@ -266,6 +266,20 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 	return broker.roundTrip(r)
 }
 
+// requestWithoutResponse sends a request that the broker does not answer
+func (broker *Broker) requestWithoutResponse(r Request) (err error) {
+	broker.mux.Lock()
+	defer broker.mux.Unlock()
+
+	if err := broker.ensureOpen(); err != nil {
+		return err
+	}
+	if _, err = broker.Request(r); err != nil {
+		broker.Close()
+	}
+	return err
+}
+
 // roundTrip sends the request and waits for its response. the caller holds broker.mux, or is the only user of the broker.
 // after a failure the response may still be under way, so the connection can not be used any more
 func (broker *Broker) roundTrip(r Request) (resp Response, err error) {
diff --git a/simple_producer.go b/simple_producer.go
index cda6944..43252bc 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -226,6 +226,10 @@ func (p *SimpleProducer) flush(records []*Record) error {
 		p.createRecordBatch(records),
 	}
 
+	if p.config.Acks == 0 { // brokers do not answer
+		return p.leader.requestWithoutResponse(produceRequest)
+	}
+
 	rp, err := p.leader.RequestAndGet(produceRequest)
 	if err == nil {
 		err = rp.Error()
-- 
2.43.0


From 54afa8d7e2784e07a6f0e3fd0d780af0e37692fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:15 +0000
Subject: [PATCH 20/64] fix: a closed Brokers does not open connections any
 more

---
 broker.go  | 13 +++++++++++++
 brokers.go | 19 +++++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/broker.go b/broker.go
index 46b63a7..3a866ec 100644
--- a/broker.go
+++ b/broker.go
@@ -26,6 +26,7 @@ type Broker struct {
 
 	mux       sync.Mutex
 	closeLock sync.Mutex
+	shut      bool // closed for good, guarded by closeLock
 }
 
 var (
@@ -71,6 +72,10 @@ func (broker *Broker) createConn() error {
 	} else {
 		broker.closeLock.Lock()
 		defer broker.closeLock.Unlock()
+		if broker.shut {
+			conn.Close()
+			return net.ErrClosed
+		}
 		broker.conn = conn
 		return nil
 	}
@@ -213,6 +218,14 @@ func (broker *Broker) Close() {
 	}
 }
 
+// shutdown closes the connection, and no later request opens it again
+func (broker *Broker) shutdown() {
+	broker.closeLock.Lock()
+	broker.shut = true
+	broker.closeLock.Unlock()
+	broker.Close()
+}
+
 // getConn returns the current connection, or an error if the broker has been closed (maybe by another goroutine)
 func (broker *Broker) getConn() (net.Conn, error) {
 	broker.closeLock.Lock()
diff --git a/brokers.go b/brokers.go
index 7bb9bf0..c994ef5 100644
--- a/brokers.go
+++ b/brokers.go
@@ -5,6 +5,7 @@ package healer
 import (
 	"errors"
 	"fmt"
+	"net"
 	"strings"
 	"sync"
 	"time"
@@ -28,14 +29,21 @@ func (brokers *Brokers) Close() {
 	brokers.mutex.Lock()
 	defer brokers.mutex.Unlock()
 
-	select {
-	case <-brokers.closeChan:
+	if brokers.isClosed() {
 		return
-	default:
 	}
 	close(brokers.closeChan)
 	for _, broker := range brokers.brokers {
-		broker.Close()
+		broker.shutdown()
+	}
+}
+
+func (brokers *Brokers) isClosed() bool {
+	select {
+	case <-brokers.closeChan:
+		return true
+	default:
+		return false
 	}
 }
 
@@ -212,6 +220,9 @@ func (brokers *Brokers) GetBroker(nodeID int32) (*Broker, error) {
 	brokers.mutex.Lock()
 	defer brokers.mutex.Unlock()
 
+	if brokers.isClosed() {
+		return nil, net.ErrClosed
+	}
 	if broker, ok := brokers.brokers[nodeID]; ok {
 		return broker, nil
 	}
-- 
2.43.0


From 11580f22dffdbf51f91ac1010dfe94010cf33a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 21/64] fix: decode null header values, and do not turn empty
 keys and values into null

---
 record.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/record.go b/record.go
index 0c091c9..1963635 100644
--- a/record.go
+++ b/record.go
@@ -22,8 +22,10 @@ func decodeHeader(payload []byte) (header RecordHeader, offset int) {
 
 	valueLength, o := binary.Varint(payload[offset:])
 	offset += o
-	header.Value = make([]byte, valueLength)
-	offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+	if valueLength >= 0 { // -1 means null
+		header.Value = make([]byte, valueLength)
+		offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+	}
 	return
 }
 
@@ -155,14 +157,14 @@ func DecodeToRecord(payload []byte) (record Record, offset int, err error) {
 	keyLength, o := binary.Varint(payload[offset:])
 	offset += o
 
-	if keyLength > 0 {
+	if keyLength >= 0 { // -1 means null
 		record.key = make([]byte, keyLength)
 		offset += copy(record.key, payload[offset:offset+int(keyLength)])
 	}
 
 	valueLen, o := binary.Varint(payload[offset:])
 	offset += o
-	if valueLen > 0 {
+	if valueLen >= 0 { // -1 means null
 		record.value = make([]byte, valueLen)
 		offset += copy(record.value, payload[offset:offset+int(valueLen)])
 	}
-- 
2.43.0


From 4374bd45e47d95ed199d757ed0e68331aa00ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:05 +0000
Subject: [PATCH 22/64] fix: uncompress the compressed messages of magic 0 and
 1, and restore their offsets

---
 fetch_response.go |  4 +++-
 message.go        | 17 ++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index fef9dfa..85f9cb3 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -123,6 +123,8 @@ func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err
 		if err != nil {
 			return nil, fmt.Errorf("uncompress lz4 records error: %w", err)
 		}
+	default:
+		return nil, fmt.Errorf("unknown compression type %d", compress)
 	}
 	return uncompressedBytes, nil
 }
@@ -223,7 +225,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	// magic := buf[16]
 	// crc := binary.BigEndian.Uint32(buf[17:])
 	attributes := binary.BigEndian.Uint16(buf[21:])
-	compress := attributes & 0b11
+	compress := attributes & 0b111
 	// lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
 	// maxTimestamp := binary.BigEndian.Uint64(buf[35:])
diff --git a/message.go b/message.go
index 5d1c319..27683f2 100644
--- a/message.go
+++ b/message.go
@@ -1,9 +1,9 @@
 package healer
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
-	"fmt"
 	"hash/crc32"
 )
 
@@ -38,12 +38,7 @@ type Message struct {
 type MessageSet []*Message
 
 func (message *Message) decompress() ([]byte, error) {
-	compression := CompressType(message.Attributes & 0b11)
-	compressor := NewCompressor(compression.String())
-	if compressor == nil {
-		return nil, fmt.Errorf("unknown Compression Type %s", compression)
-	}
-	return compressor.Compress(message.Value)
+	return uncompress(message.Attributes&0x07, bytes.NewReader(message.Value))
 }
 
 func (messageSet *MessageSet) Length() int {
@@ -175,6 +170,14 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 				// TODO go on to next message in the messageSet?
 				return messageSet, err
 			}
+			// the offsets inside a compressed message with magic 1 are relative,
+			// the outer offset is the absolute offset of the last inner message
+			if n := len(_messageSet); message.MagicByte == 1 && n > 0 {
+				baseOffset := message.Offset - _messageSet[n-1].Offset
+				for _, m := range _messageSet {
+					m.Offset += baseOffset
+				}
+			}
 			messageSet = append(messageSet, _messageSet...)
 		} else {
 			messageSet = append(messageSet, message)
-- 
2.43.0


From 1418d31325f012acfe617263a2b4f433ad50f54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:00 +0000
Subject: [PATCH 23/64] fix: fetch responses that arrive in pieces, mix message
 formats or end in a truncated batch are decoded

---
 fetch_response.go | 117 +++++++++++++++++-----------------------------
 1 file changed, 43 insertions(+), 74 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index 85f9cb3..1c40559 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -129,74 +129,39 @@ func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err
 	return uncompressedBytes, nil
 }
 
+// decode one message (which consists of multiple messages if it is compressed)
 func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topicName string, partitionID int32, magic int, header17 []byte) (offset int, err error) {
-	firstMessageSet := true
-	// value is the bytes of whole record consists of (offset(int64) message_size(int32) message)
-	var value []byte
-	for {
-		if firstMessageSet {
-			firstMessageSet = false
-
-			// messageSize doesn't include the size of messageSize itself.
-			messageSize := int(binary.BigEndian.Uint32(header17[8:]))
-			if messageSize < 6 {
-				return
-			}
-
-			// 12 is the size of offset(int64) & message_size(int32) in header17
-			value = make([]byte, 12+messageSize)
-			n, e := streamDecoder.Read(value[17:])
-			offset += n
-			if e != nil {
-				return offset, e
-			}
-
-			// remaining bytes is incomplete
-			if n < len(value)-17 {
-				return offset, err
-			}
-			copy(value, header17)
-		} else {
-			buf, n, err := streamDecoder.read(12)
-			offset += n
-			if err != nil {
-				return offset, err
-			}
-			if n < 12 {
-				return offset, err
-			}
-			messageSize := int(binary.BigEndian.Uint32(buf[8:]))
-			value = make([]byte, 12+messageSize)
-			n, err = streamDecoder.Read(value[12:])
-			offset += n
-			if err != nil {
-				return offset, err
-			}
+	// messageSize doesn't include the size of messageSize itself.
+	messageSize := int(int32(binary.BigEndian.Uint32(header17[8:])))
+	if messageSize < 6 {
+		return
+	}
 
-			// remaining bytes is incomplete
-			if n < len(value)-17 {
-				return offset, err
-			}
-			copy(value, buf)
+	// value is the bytes of whole record consists of (offset(int64) message_size(int32) message)
+	// 12 is the size of offset(int64) & message_size(int32) in header17
+	value := make([]byte, 12+messageSize)
+	copy(value, header17)
+	n, err := io.ReadFull(streamDecoder, value[17:])
+	offset += n
+	if err != nil {
+		if streamDecoder.end() { // remaining bytes is incomplete
+			return offset, nil
 		}
+		return offset, err
+	}
 
-		messageSet, err := DecodeToMessageSet(value)
+	messageSet, err := DecodeToMessageSet(value)
+	if err != nil {
+		return offset, err
+	}
 
-		if err != nil {
+	// TODO send each message to the channel directly?
+	for i := range messageSet {
+		if err = streamDecoder.filterAndPutMessage(messageSet[i], topicName, partitionID); err != nil {
 			return offset, err
 		}
-
-		if len(messageSet) == 0 {
-			return offset, nil
-		}
-
-		// TODO send each message to the channel directly?
-		for i := range messageSet {
-			if err = streamDecoder.filterAndPutMessage(messageSet[i], topicName, partitionID); err != nil {
-				return offset, err
-			}
-		}
 	}
+	return offset, nil
 }
 
 // decode one recordBatch which consists of multiple records
@@ -245,13 +210,13 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 		return
 	}
 
-	r := io.LimitReader(streamDecoder, int64(batchLength)-49)
+	r := &io.LimitedReader{R: streamDecoder, N: int64(batchLength) - 49}
 	// set offset immediately because we have to skip the data even if uncompress error
 	offset += int(batchLength) - 49
 	uncompressedBytes, err := uncompress(int8(compress), r)
 	if err != nil {
-		io.ReadAll(r) // read all remaining compressed bytes, since lz4 reader may not read all bytes before raise error
-		if streamDecoder.end() && streamDecoder.hasOneMessage {
+		io.ReadAll(r)                                                        // read all remaining compressed bytes, since lz4 reader may not read all bytes before raise error
+		if streamDecoder.end() && (streamDecoder.hasOneMessage || r.N > 0) { // r.N > 0: the batch is truncated
 			return offset, nil
 		}
 		return offset, fmt.Errorf("uncompress records bytes error: %w", err)
@@ -324,7 +289,11 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSet(topicName stri
 			}
 		}
 		if !streamDecoder.hasOneMessage && err == nil {
-			err = &maxBytesTooSmall
+			if streamDecoder.end() {
+				err = &maxBytesTooSmall
+			} else {
+				err = io.ErrUnexpectedEOF
+			}
 		}
 	}()
 
@@ -372,17 +341,17 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 	)
 
 	defer func() {
-		if errors.Is(err, io.EOF) {
+		if errors.Is(err, io.EOF) && streamDecoder.end() {
 			err = &maxBytesTooSmall
 		}
 	}()
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 		return err
 	}
 	p.PartitionID = int32(binary.BigEndian.Uint32(buf))
 
-	if _, err = streamDecoder.Read(buf[:2]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:2]); err != nil {
 		return err
 	}
 	p.ErrorCode = int16(binary.BigEndian.Uint16(buf))
@@ -390,24 +359,24 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		return KafkaError(p.ErrorCode)
 	}
 
-	if _, err = streamDecoder.Read(buf[:8]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 		return err
 	}
 	// p.HighWatermark = int64(binary.BigEndian.Uint64(buf))
 
 	switch version {
 	case 7, 10:
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 			return err
 		}
 		// p.LastStableOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 			return err
 		}
 		// p.LogStartOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:4]); err != nil {
+		if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 			return err
 		}
 		abortedTransactionsCount := int32(binary.BigEndian.Uint32(buf))
@@ -417,12 +386,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 				FirstOffset int64
 			}, abortedTransactionsCount)
 			for i := 0; i < int(abortedTransactionsCount); i++ {
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 					return err
 				}
 				p.AbortedTransactions[i].ProducerID = int64(binary.BigEndian.Uint64(buf))
 
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = io.ReadFull(streamDecoder, buf[:8]); err != nil {
 					return err
 				}
 				p.AbortedTransactions[i].FirstOffset = int64(binary.BigEndian.Uint64(buf))
@@ -430,7 +399,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		}
 	}
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = io.ReadFull(streamDecoder, buf[:4]); err != nil {
 		return err
 	}
 	p.RecordBatchesSize = int32(binary.BigEndian.Uint32(buf))
-- 
2.43.0


From 8b1b6a9d27eb32414f4c7f609c51e3f3a3a32066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:45 +0000
Subject: [PATCH 24/64] fix: the consumer gets past compacted and control
 batches, and never takes the rest of a response for the next one

---
 fetch_response.go  | 24 ++++++++++++++++++++----
 simple_consumer.go | 24 +++++++++++++++++-------
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index 1c40559..c98861d 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -53,6 +53,7 @@ type fetchResponseStreamDecoder struct {
 	correlationID  int32
 
 	startOffset int64
+	nextOffset  int64 // the offset following the last completely decoded batch
 
 	hasOneMessage bool
 }
@@ -161,6 +162,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topic
 			return offset, err
 		}
 	}
+	streamDecoder.nextOffset = int64(binary.BigEndian.Uint64(header17)) + 1
 	return offset, nil
 }
 
@@ -191,7 +193,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	// crc := binary.BigEndian.Uint32(buf[17:])
 	attributes := binary.BigEndian.Uint16(buf[21:])
 	compress := attributes & 0b111
-	// lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
+	lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
 	// maxTimestamp := binary.BigEndian.Uint64(buf[35:])
 	// producerID := binary.BigEndian.Uint64(buf[43:])
@@ -206,17 +208,29 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	// 	"baseTimestamp", baseTimestamp, "maxTimestamp", maxTimestamp, "producerID", producerID, "producerEpoch",
 	// 	producerEpoch, "baseSequence", baseSequence, "count", count)
 
+	// there may be no record left after compaction
 	if count <= 0 {
+		streamDecoder.nextOffset = baseOffset + int64(lastOffsetDelta) + 1
 		return
 	}
 
 	r := &io.LimitedReader{R: streamDecoder, N: int64(batchLength) - 49}
 	// set offset immediately because we have to skip the data even if uncompress error
 	offset += int(batchLength) - 49
+
+	// control batches are not for the application
+	if attributes&0x20 != 0 {
+		if _, err = io.Copy(io.Discard, r); err == nil && r.N == 0 {
+			streamDecoder.nextOffset = baseOffset + int64(lastOffsetDelta) + 1
+		}
+		return offset, err
+	}
+
 	uncompressedBytes, err := uncompress(int8(compress), r)
 	if err != nil {
-		io.ReadAll(r)                                                        // read all remaining compressed bytes, since lz4 reader may not read all bytes before raise error
-		if streamDecoder.end() && (streamDecoder.hasOneMessage || r.N > 0) { // r.N > 0: the batch is truncated
+		io.ReadAll(r) // read all remaining compressed bytes, since lz4 reader may not read all bytes before raise error
+		truncated := r.N > 0
+		if streamDecoder.end() && (streamDecoder.hasOneMessage || truncated) {
 			return offset, nil
 		}
 		return offset, fmt.Errorf("uncompress records bytes error: %w", err)
@@ -246,6 +260,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 		}
 	}
 
+	streamDecoder.nextOffset = baseOffset + int64(lastOffsetDelta) + 1
 	return offset, nil
 }
 
@@ -288,7 +303,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSet(topicName stri
 				err = nil
 			}
 		}
-		if !streamDecoder.hasOneMessage && err == nil {
+		if !streamDecoder.hasOneMessage && err == nil && streamDecoder.nextOffset <= streamDecoder.startOffset {
 			if streamDecoder.end() {
 				err = &maxBytesTooSmall
 			} else {
@@ -480,6 +495,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeHeader(version uint16) er
 func (streamDecoder *fetchResponseStreamDecoder) streamDecode(ctx context.Context, startOffset int64) error {
 	streamDecoder.offset = 0
 	streamDecoder.startOffset = startOffset
+	streamDecoder.nextOffset = 0
 	streamDecoder.hasOneMessage = false
 
 	if err := streamDecoder.decodeHeader(streamDecoder.version); err != nil {
diff --git a/simple_consumer.go b/simple_consumer.go
index 273af5b..a35bdba 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -412,7 +412,8 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 		r := NewFetchRequest(c.config.ClientID, c.config.FetchMaxWaitMS, c.config.FetchMinBytes)
 		r.addPartition(c.topic, c.partitionID, c.offset, c.config.FetchMaxBytes, c.partition.LeaderEpoch)
 
-		reader, responseLength, err := c.leaderBroker.requestFetchStreamingly(r)
+		leaderBroker := c.leaderBroker
+		reader, responseLength, err := leaderBroker.requestFetchStreamingly(r)
 		if err != nil {
 			if err == context.Canceled {
 				return
@@ -428,18 +429,18 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 			buffers:     reader,
 			messages:    innerMessages,
 			totalLength: int(responseLength),
-			version:     c.leaderBroker.getHighestAvailableAPIVersion(API_FetchRequest),
+			version:     leaderBroker.getHighestAvailableAPIVersion(API_FetchRequest),
 		}
 
 		ctx, cancel := context.WithCancel(context.Background())
+		startOffset := c.offset
+		wg.Add(1)
 		go func() {
-			if err := frsd.streamDecode(ctx, c.offset); err != nil {
-				if err == context.Canceled {
-					return
-				}
+			defer wg.Done()
+			defer close(innerMessages)
+			if err := frsd.streamDecode(ctx, startOffset); err != nil && err != context.Canceled {
 				logger.Error(err, "failed to decode fetch response")
 			}
-			close(innerMessages)
 		}()
 
 		// consume all messages from one fetch response
@@ -450,6 +451,15 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 			wg.Done()
 		}()
 		wg.Wait()
+
+		// skip the offsets which do not exist any more (or are not for the application)
+		if c.ctx.Err() == nil && frsd.nextOffset > c.offset {
+			c.offset = frsd.nextOffset
+		}
+
+		if !frsd.end() { // the rest of the response would be taken for the next one
+			leaderBroker.Close()
+		}
 	}
 }
 
-- 
2.43.0


From b4bf6b503f88b585e062b3f92d524d66b3eb7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:46 +0000
Subject: [PATCH 25/64] fix: a consumer whose leader went away finds the new
 one

---
 brokers.go         | 12 ++++++++----
 simple_consumer.go | 15 ++++++++++++++-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/brokers.go b/brokers.go
index c994ef5..cd1eace 100644
--- a/brokers.go
+++ b/brokers.go
@@ -328,10 +328,14 @@ func (brokers *Brokers) findLeader(clientID, topic string, partitionID int32) (i
 		return -1, fmt.Errorf("could not get metadata of topic %s: %w", topic, err)
 	}
 
-	partitionMetadatas := metadataResponse.TopicMetadatas[0].PartitionMetadatas
-	for _, partitionMetadata := range partitionMetadatas {
-		if partitionMetadata.PartitionID == partitionID {
-			return partitionMetadata.Leader, nil
+	for _, topicMetadata := range metadataResponse.TopicMetadatas {
+		if topicMetadata.TopicName != topic {
+			continue
+		}
+		for _, partitionMetadata := range topicMetadata.PartitionMetadatas {
+			if partitionMetadata.PartitionID == partitionID {
+				return partitionMetadata.Leader, nil
+			}
 		}
 	}
 	return -1, fmt.Errorf("could not find out leader of topic %s", topic)
diff --git a/simple_consumer.go b/simple_consumer.go
index a35bdba..d194a90 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -168,10 +168,13 @@ func (c *SimpleConsumer) getLeaderBroker() error {
 	leaderBroker, err = c.brokers.NewBroker(leaderID)
 	if err != nil {
 		// FIXME refresh metadata
-		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID, "leaderAddress", c.brokers.brokers[leaderID].address)
+		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID)
 		return err
 	}
 
+	if c.leaderBroker != nil {
+		c.leaderBroker.Close()
+	}
 	c.leaderBroker = leaderBroker
 	logger.Info("leader broker created", "leaderID", leaderID, "leaderAddress", c.leaderBroker.GetAddress(), "topic", c.topic, "partitionID", c.partitionID)
 	return nil
@@ -420,6 +423,10 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 			}
 			logger.Error(err, "failed to fetch")
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+			// another broker may have become the leader
+			if err := c.getLeaderBroker(); err != nil {
+				logger.Error(err, "failed to get leader", "topic", c.topic, "partitionID", c.partitionID)
+			}
 			continue
 		}
 
@@ -501,6 +508,12 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 				}
 			} else if errors.Is(message.Error, KafkaError(74)) {
 				c.refreshPartiton()
+			} else if kafkaErr := KafkaError(0); errors.As(message.Error, &kafkaErr) {
+				// the broker may not be a replica of the partition any more
+				time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+				if err := c.getLeaderBroker(); err != nil {
+					logger.Error(err, "failed to get leader", "topic", c.topic, "partitionID", c.partitionID)
+				}
 			}
 			return
 		} else {
-- 
2.43.0


From 1d44df527000cebee7602a875e95e43cf3efd08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:11 +0000
Subject: [PATCH 26/64] fix: a consumer resets to the position it was started
 with, and keeps its offset when looking it up fails

---
 simple_consumer.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index d194a90..44bec1a 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -196,10 +196,16 @@ func (c *SimpleConsumer) initOffset() {
 	}
 
 	for !c.stop {
-		if c.offset, err = c.getOffset(c.fromBeginning); err != nil {
+		var offset int64
+		if offset, err = c.getOffset(c.fromBeginning); err != nil {
 			logger.Error(err, "could not get offset", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+			// another broker may have become the leader
+			if err := c.getLeaderBroker(); err != nil {
+				logger.Error(err, "failed to get leader", "topic", c.topic, "partitionID", c.partitionID)
+			}
 		} else {
+			c.offset = offset
 			logger.Info("fetched offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 			break
 		}
@@ -221,7 +227,12 @@ func (c *SimpleConsumer) getOffset(fromBeginning bool) (int64, error) {
 	if err := offsetsResponse.Error(); err != nil {
 		return -1, err
 	}
-	return int64(offsetsResponse.TopicPartitionOffsets[c.topic][0].GetOffset()), nil
+	for _, partitionOffset := range offsetsResponse.TopicPartitionOffsets[c.topic] {
+		if partitionOffset.Partition == c.partitionID {
+			return int64(partitionOffset.GetOffset()), nil
+		}
+	}
+	return -1, fmt.Errorf("partition %s-%d not found in offsets response", c.topic, c.partitionID)
 }
 
 func (c *SimpleConsumer) getCommitedOffet() error {
@@ -353,6 +364,7 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	c.messages = messages
 
 	c.offset = offset
+	c.fromBeginning = offset == -2
 
 	logger.V(5).Info("start consume from offset (before fetch offset)", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 
@@ -491,10 +503,13 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 				logger.Info("fetch.max.bytes is too small, double it", "new FetchMaxBytes", c.config.FetchMaxBytes)
 			}
 			if errors.Is(message.Error, KafkaError(1)) {
-				c.offset, err = c.getOffset(c.fromBeginning)
+				offset, err := c.getOffset(c.fromBeginning)
 				if err != nil {
 					logger.Error(err, "failed to get offset", "topic", c.topic, "partitionID", c.partitionID)
+					time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+					return nil
 				}
+				c.offset = offset
 			} else if errors.Is(message.Error, KafkaError(6)) {
 				c.leaderBroker.Close()
 				c.leaderBroker = nil
-- 
2.43.0


From 6f959c9c29b73c16d2685ca59155ac9987e3aa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:07 +0000
Subject: [PATCH 27/64] fix: SimpleConsumer.Stop can be called any time and
 more than once, and releases everything

---
 brokers.go         |  3 +++
 simple_consumer.go | 46 +++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/brokers.go b/brokers.go
index cd1eace..80b8376 100644
--- a/brokers.go
+++ b/brokers.go
@@ -26,6 +26,9 @@ type Brokers struct {
 
 // Close close all brokers
 func (brokers *Brokers) Close() {
+	if brokers.closeChan == nil {
+		return
+	}
 	brokers.mutex.Lock()
 	defer brokers.mutex.Unlock()
 
diff --git a/simple_consumer.go b/simple_consumer.go
index 44bec1a..39cc006 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -19,6 +19,7 @@ type SimpleConsumer struct {
 	config      ConsumerConfig
 
 	brokers      *Brokers
+	ownBrokers   bool // brokers is created by (and closed with) this consumer
 	leaderBroker *Broker
 	coordinator  *Broker
 	partition    PartitionMetadataInfo
@@ -26,6 +27,7 @@ type SimpleConsumer struct {
 	ctx           context.Context
 	cancel        context.CancelFunc
 	stop          bool
+	stopLock      sync.Mutex
 	consumeLoopWg sync.WaitGroup
 
 	fromBeginning  bool
@@ -60,6 +62,7 @@ func NewSimpleConsumerWithBrokers(topic string, partitionID int32, config Consum
 
 	go func() {
 		ticker := time.NewTicker(time.Second * 60 * 1)
+		defer ticker.Stop()
 		for {
 			select {
 			case <-ticker.C:
@@ -74,7 +77,7 @@ func NewSimpleConsumerWithBrokers(topic string, partitionID int32, config Consum
 
 	if config.GroupID != "" {
 		var err error
-		for {
+		for !brokers.isClosed() {
 			err = c.getCoordinator()
 			if err != nil {
 				logger.Error(err, "failed to get coordinator")
@@ -106,7 +109,9 @@ func NewSimpleConsumer(topic string, partitionID int32, config interface{}) (*Si
 		return nil, err
 	}
 
-	return NewSimpleConsumerWithBrokers(topic, partitionID, cfg, brokers), nil
+	c := NewSimpleConsumerWithBrokers(topic, partitionID, cfg, brokers)
+	c.ownBrokers = true
+	return c, nil
 }
 
 func (c *SimpleConsumer) refreshPartiton() error {
@@ -260,10 +265,20 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 	}
 
 	for {
+		if c.stop {
+			return nil
+		}
 		resp, err := coordinator.RequestAndGet(r)
 		if err != nil {
 			logger.Error(err, "failed to request fetch offset, sleep 500 ms", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(500 * time.Millisecond)
+			if c.belongTO != nil {
+				coordinator = c.belongTO.coordinator
+			} else if err := c.getCoordinator(); err != nil { // the coordinator may have moved
+				logger.Error(err, "failed to get coordinator")
+			} else {
+				coordinator = c.coordinator
+			}
 			continue
 		}
 
@@ -290,6 +305,12 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 // Stop the consumer and wait for all relating go-routines to exit
 func (c *SimpleConsumer) Stop() {
 	logger.Info("stopping simple consumer", "topic", c.topic, "partitionID", c.partitionID)
+	c.stopLock.Lock()
+	defer c.stopLock.Unlock()
+	if c.stop {
+		return
+	}
+
 	c.cancel()
 
 	c.stop = true
@@ -299,6 +320,9 @@ func (c *SimpleConsumer) Stop() {
 	if c.leaderBroker != nil {
 		c.leaderBroker.Close()
 	}
+	if c.ownBrokers {
+		c.brokers.Close()
+	}
 
 	// close(c.messages)
 
@@ -361,6 +385,16 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	if messageChan == nil {
 		messages = make(chan *FullMessage, 100)
 	}
+	c.stopLock.Lock()
+	if c.stop {
+		c.stopLock.Unlock()
+		return messages, nil
+	}
+	// Stop waits for Consume and all the goroutines it starts
+	c.consumeLoopWg.Add(1)
+	c.stopLock.Unlock()
+	defer c.consumeLoopWg.Done()
+
 	c.messages = messages
 
 	c.offset = offset
@@ -391,8 +425,14 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		logger.V(3).Info("offset after init offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 	}
 
+	if c.stop {
+		return messages, nil
+	}
+
 	if c.config.AutoCommit && c.config.GroupID != "" {
+		c.consumeLoopWg.Add(1)
 		go func() {
+			defer c.consumeLoopWg.Done()
 			ticker := time.NewTicker(time.Millisecond * time.Duration(c.config.AutoCommitIntervalMS))
 			defer ticker.Stop()
 			for {
@@ -407,13 +447,13 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		}()
 	}
 
+	c.consumeLoopWg.Add(1)
 	go c.consumeLoop(messages)
 
 	return messages, nil
 }
 
 func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
-	c.consumeLoopWg.Add(1)
 	defer c.consumeLoopWg.Done()
 
 	defer logger.Info("consume loop exit", "topic", c.topic, "partitionID", c.partitionID)
-- 
2.43.0


From 4fa14636de41693a8104a306eacb5e0d8a8e4378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:12 +0000
Subject: [PATCH 28/64] fix: the last auto commit covers every delivered
 message

---
 simple_consumer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 39cc006..cb7d16a 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -429,6 +429,7 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		return messages, nil
 	}
 
+	loopDone := make(chan struct{})
 	if c.config.AutoCommit && c.config.GroupID != "" {
 		c.consumeLoopWg.Add(1)
 		go func() {
@@ -440,6 +441,7 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 				case <-ticker.C:
 					c.CommitOffset()
 				case <-c.ctx.Done():
+					<-loopDone // commit the last delivered message too
 					c.CommitOffset()
 					return
 				}
@@ -448,7 +450,10 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	}
 
 	c.consumeLoopWg.Add(1)
-	go c.consumeLoop(messages)
+	go func() {
+		defer close(loopDone)
+		c.consumeLoop(messages)
+	}()
 
 	return messages, nil
 }
-- 
2.43.0


From 49a6663de5dd0980db332c6b7a78c3e9bbeb025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:35 +0000
Subject: [PATCH 29/64] fix: a fetch error is reported after the response has
 been read, not while other requests use the connection

---
 fetch_response.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fetch_response.go b/fetch_response.go
index c98861d..92582da 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -517,6 +517,8 @@ func (streamDecoder *fetchResponseStreamDecoder) streamDecode(ctx context.Contex
 	for i := 0; i < streamDecoder.responsesCount; i++ {
 		err := streamDecoder.decodeResponses(streamDecoder.version)
 		if err != nil {
+			// the consumer may use the connection for another request when it gets the error
+			streamDecoder.readAll()
 			msg := &FullMessage{
 				TopicName:   "",
 				PartitionID: -1,
-- 
2.43.0


From 10f0ef364f3241cfcddf5b6c0b66a85dad0b7326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:22 +0000
Subject: [PATCH 30/64] fix: Consumer can be closed while it starts, and
 AwaitClose respects its timeout

---
 consumer.go | 60 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/consumer.go b/consumer.go
index 9b72442..1e12009 100644
--- a/consumer.go
+++ b/consumer.go
@@ -13,6 +13,7 @@ type Consumer struct {
 	brokers *Brokers
 	closed  bool
 
+	lock            sync.Mutex // guards closed and simpleConsumers
 	simpleConsumers []*SimpleConsumer
 	wg              sync.WaitGroup // wg is used to tell if all consumer has already stopped
 }
@@ -78,7 +79,7 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		topics = append(topics, topicName)
 	}
 
-	for !c.closed {
+	for !c.isClosed() {
 		if metadataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, topics); err != nil {
 			logger.Error(err, "get metadata failed", "topics", topics)
 			time.Sleep(time.Millisecond * 1000)
@@ -86,11 +87,13 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 			break
 		}
 	}
-	if c.closed {
+	if c.isClosed() {
 		return nil, nil
 	}
 
+	c.lock.Lock()
 	c.simpleConsumers = make([]*SimpleConsumer, 0)
+	c.lock.Unlock()
 
 	for _, topicMetadatas := range metadataResponse.TopicMetadatas {
 		topicName := topicMetadatas.TopicName
@@ -105,9 +108,8 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 
 		for _, p := range partitions {
 			simpleConsumer := NewSimpleConsumerWithBrokers(topicName, int32(p), c.config, c.brokers)
-			simpleConsumer.wg = &c.wg
 
-			for {
+			for !c.isClosed() {
 				err := simpleConsumer.getCoordinator()
 				if err != nil {
 					logger.Error(err, "get coordinator failed")
@@ -116,7 +118,17 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 				}
 				break
 			}
+
+			c.lock.Lock()
+			if c.closed {
+				c.lock.Unlock()
+				simpleConsumer.Stop()
+				return nil, nil
+			}
+			simpleConsumer.wg = &c.wg
+			c.wg.Add(1)
 			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
+			c.lock.Unlock()
 		}
 	}
 
@@ -130,40 +142,44 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 	}
 
 	for _, simpleConsumer := range c.simpleConsumers {
-		c.wg.Add(1)
 		simpleConsumer.Consume(offset, messages)
 	}
 
 	return messages, nil
 }
 
+func (c *Consumer) isClosed() bool {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	return c.closed
+}
+
 func (c *Consumer) stop() {
+	c.lock.Lock()
 	c.closed = true
-	if c.simpleConsumers != nil {
-		for _, simpleConsumer := range c.simpleConsumers {
-			simpleConsumer.Stop()
-		}
+	simpleConsumers := c.simpleConsumers
+	c.lock.Unlock()
+
+	for _, simpleConsumer := range simpleConsumers {
+		simpleConsumer.Stop()
 	}
 }
 
+// AwaitClose stops the consumer and returns when all its simple consumers have stopped, or after the timeout
 func (consumer *Consumer) AwaitClose(timeout time.Duration) {
-	c := make(chan bool)
-	defer func() {
-		select {
-		case <-c:
-			logger.Info("all simple consumers stopped. return")
-			return
-		case <-time.After(timeout):
-			logger.Info("consumer await timeout. return")
-			return
-		}
-	}()
-
-	consumer.stop()
+	c := make(chan bool, 1)
 
 	go func() {
+		consumer.stop()
 		consumer.wg.Wait()
 		consumer.brokers.Close()
 		c <- true
 	}()
+
+	select {
+	case <-c:
+		logger.Info("all simple consumers stopped. return")
+	case <-time.After(timeout):
+		logger.Info("consumer await timeout. return")
+	}
 }
-- 
2.43.0


From ff1ab2d38491c77373e8fbeeaac8255c673a7fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:04 +0000
Subject: [PATCH 31/64] fix: GroupConsumer can be closed at any time and more
 than once, leaves its group and stops its goroutines

---
 group_consumer.go | 56 +++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/group_consumer.go b/group_consumer.go
index 98c927a..e8abcf5 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -31,7 +31,8 @@ type GroupConsumer struct {
 	ifLeader             bool
 	joined               bool
 	closed               bool
-	closeChan            chan bool
+	closeChan            chan bool // closed by AwaitClose
+	closeOnce            sync.Once
 	coordinatorAvailable bool
 	topics               []string
 	partitionAssignments []*PartitionAssignment
@@ -41,6 +42,7 @@ type GroupConsumer struct {
 
 	mutex              sync.Locker
 	wg                 sync.WaitGroup // wg is used to tell if all consumer has already stopped
+	joinWg             sync.WaitGroup // the goroutine which is joining the group
 	assignmentStrategy AssignmentStrategy
 
 	restartLocker sync.Locker
@@ -85,7 +87,7 @@ func NewGroupConsumer(topic string, config interface{}) (*GroupConsumer, error)
 		joined:               false,
 		coordinatorAvailable: false,
 
-		closeChan: make(chan bool, 1),
+		closeChan: make(chan bool),
 
 		restartLocker: &sync.Mutex{},
 	}
@@ -159,7 +161,6 @@ func (c *GroupConsumer) parseGroupAssignments(memberAssignmentPayload []byte) er
 		for _, partitionID := range partitionAssignment.Partitions {
 			simpleConsumer := NewSimpleConsumerWithBrokers(partitionAssignment.Topic, partitionID, c.config, c.brokers)
 			simpleConsumer.belongTO = c
-			simpleConsumer.wg = &c.wg
 			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
 		}
 	}
@@ -362,6 +363,10 @@ func (c *GroupConsumer) restart() {
 	c.restartLocker.Lock()
 	defer c.restartLocker.Unlock()
 
+	if c.closed {
+		return
+	}
+
 	c.stop()
 	// stop heartbeat
 	c.joined = false
@@ -386,7 +391,7 @@ func (c *GroupConsumer) stop() {
 }
 
 func (c *GroupConsumer) leave() {
-	if !c.joined {
+	if c.memberID == "" {
 		logger.Info("not joined yet, leave directly")
 		return
 	}
@@ -412,34 +417,38 @@ func (c *GroupConsumer) AwaitClose(timeout time.Duration) {
 	defer c.brokers.Close()
 
 	c.closed = true
-	c.closeChan <- true
+	c.closeOnce.Do(func() { close(c.closeChan) })
 
-	c.stop()
-
-	done := make(chan bool)
+	done := make(chan bool, 1)
 	go func() {
-		c.wg.Wait()
+		// (re)joining has to come to its end before the group can be left
+		c.restartLocker.Lock()
+		defer c.restartLocker.Unlock()
+		c.joinWg.Wait()
+
+		c.stop()
+		logger.Info("all simple consumers stopped. leave and return")
+		c.leave()
 		done <- true
 	}()
 
 	select {
 	case <-done:
-		logger.Info("all simple consumers stopped. leave and return")
 	case <-time.After(timeout):
 		logger.Info("group consumer await timeout. return")
-		return
 	}
-
-	c.leave()
 }
 
 func (c *GroupConsumer) refreshMeta() {
 	var (
 		ticker *time.Ticker = time.NewTicker(time.Millisecond * time.Duration(c.config.MetadataMaxAgeMS))
 	)
-	for range ticker.C {
-		if c.closed {
+	defer ticker.Stop()
+	for {
+		select {
+		case <-c.closeChan:
 			return
+		case <-ticker.C:
 		}
 		if !c.ifLeader {
 			continue
@@ -464,8 +473,6 @@ func (c *GroupConsumer) refreshMeta() {
 // Consume will join group and then cosumes messages from kafka.
 // it return a chan, and client could get messages from the chan
 func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage, error) {
-	c.closed = false
-
 	if messages == nil {
 		messages = make(chan *FullMessage, 100)
 	}
@@ -474,9 +481,12 @@ func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage
 	// go heartbeat
 	ticker := time.NewTicker(time.Millisecond * time.Duration(c.config.SessionTimeoutMS) / 10)
 	go func() {
-		for range ticker.C {
-			if c.closed {
+		defer ticker.Stop()
+		for {
+			select {
+			case <-c.closeChan:
 				return
+			case <-ticker.C:
 			}
 			err := c.heartbeat()
 			if err != nil {
@@ -491,6 +501,8 @@ func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage
 		c.refreshMeta()
 	}()
 
+	c.restartLocker.Lock()
+	defer c.restartLocker.Unlock()
 	return c.consumeWithoutHeartBeat(c.config.FromBeginning)
 }
 
@@ -502,7 +514,9 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 
 	var err error
 	joinedChan := make(chan bool, 1)
+	c.joinWg.Add(1)
 	go func() {
+		defer c.joinWg.Done()
 		for !c.closed {
 			err = c.joinAndSync()
 			if err == nil {
@@ -519,6 +533,9 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 		return c.messages, nil
 	case <-joinedChan:
 	}
+	if c.closed {
+		return c.messages, nil
+	}
 
 	c.joined = true
 
@@ -531,6 +548,7 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 			offset = -1
 		}
 
+		simpleConsumer.wg = &c.wg
 		c.wg.Add(1)
 
 		go simpleConsumer.Consume(offset, c.messages)
-- 
2.43.0


From d334ef8a38b434fb1fc867dadf56a434e5d95a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:22 +0000
Subject: [PATCH 32/64] fix: a request to a broker that stops reading times out

---
 broker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/broker.go b/broker.go
index 3a866ec..6d8e470 100644
--- a/broker.go
+++ b/broker.go
@@ -326,6 +326,9 @@ func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, e
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
+	if timeout > 0 {
+		conn.SetWriteDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+	}
 	if _, err := io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return defaultReadParser{}, err
 	}
@@ -354,6 +357,9 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
+	if timeout > 0 {
+		conn.SetWriteDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+	}
 	if _, err = io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return nil, responseLength, err
 	}
-- 
2.43.0


From ce4238eeab823d561ffb0247593508b80e843f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:28 +0000
Subject: [PATCH 33/64] fix: notice a refused sasl handshake before sending the
 credentials

---
 sasl_handshake_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sasl_handshake_response.go b/sasl_handshake_response.go
index ad222f8..97a3f2d 100644
--- a/sasl_handshake_response.go
+++ b/sasl_handshake_response.go
@@ -32,7 +32,7 @@ func NewSaslHandshakeResponse(payload []byte) (r SaslHandshakeResponse, err erro
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	r.ErrorCode = int16(uint16(binary.BigEndian.Uint32(payload[offset:])))
+	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 	if r.ErrorCode != 0 {
 		err = KafkaError(r.ErrorCode)
-- 
2.43.0


From 9d9de239eb08f14be785bbda56ec944ee73086f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:33 +0000
Subject: [PATCH 34/64] fix: an unsupported sasl mechanism is an error, not a
 panic

---
 broker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/broker.go b/broker.go
index 6d8e470..8042a7a 100644
--- a/broker.go
+++ b/broker.go
@@ -186,6 +186,9 @@ func (broker *Broker) sendSaslAuthenticate() error {
 
 	// authenticate
 	saslAuthenticateRequest := NewSaslAuthenticateRequest(clientID, user, password, mechanism)
+	if saslAuthenticateRequest.RequestHeader == nil {
+		return fmt.Errorf("sasl mechanism %s is not supported", mechanism)
+	}
 	resp, err = broker.roundTrip(saslAuthenticateRequest)
 	if err != nil {
 		return err
-- 
2.43.0


From 93e7d3ab75509b59fa53223dd07bddff7e4400b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:38 +0000
Subject: [PATCH 35/64] fix: a request sent again in another version gets the
 header of that version

---
 request.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/request.go b/request.go
index 7a94b44..1dbfc69 100644
--- a/request.go
+++ b/request.go
@@ -189,6 +189,7 @@ func (requestHeader *RequestHeader) SetVersion(version uint16) {
 	// 	return
 	// }
 	requestHeader.APIVersion = version
+	requestHeader.hv = nil // it depends on the version
 }
 
 // Request is implemented by all detailed request
-- 
2.43.0


From 3f083ee36d20e640362dd619bb3e6b62dba02e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:43 +0000
Subject: [PATCH 36/64] fix: a failed ListGroups is not an empty list

---
 list_groups_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list_groups_response.go b/list_groups_response.go
index 000ad86..5c03adb 100644
--- a/list_groups_response.go
+++ b/list_groups_response.go
@@ -25,7 +25,7 @@ type ListGroupsResponse struct {
 }
 
 func (r *ListGroupsResponse) Error() error {
-	return nil
+	return getErrorFromErrorCode(int16(r.ErrorCode))
 }
 
 func (g *Group) tags() (fieldsVersions map[string]uint16) {
-- 
2.43.0


From 3f4733682a0caf0f339b189c8c3d7d61ea032c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:48 +0000
Subject: [PATCH 37/64] fix: a closing leader does not take the partitions from
 the whole group

---
 group_consumer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/group_consumer.go b/group_consumer.go
index e8abcf5..0d7f496 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -229,6 +229,9 @@ func (c *GroupConsumer) sync() error {
 	var groupAssignment GroupAssignment
 	if c.ifLeader {
 		c.getTopicPartitionInfo()
+		if c.closed {
+			return errors.New("group consumer is closed")
+		}
 		groupAssignment = c.assignmentStrategy.Assign(c.members, c.topicMetadatas)
 	} else {
 		groupAssignment = nil
-- 
2.43.0


From 562f577a53e08383f4d8c5f4dac4f056d0344968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:29 +0000
Subject: [PATCH 38/64] fix: CreateAcls v0 and v1 requests have no tagged
 fields

---
 create_acls_request.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/create_acls_request.go b/create_acls_request.go
index 180bef2..621b84c 100644
--- a/create_acls_request.go
+++ b/create_acls_request.go
@@ -60,7 +60,9 @@ func (a *AclCreation) encodeTo(payload []byte, version uint16, headerVersion uin
 	offset++
 	payload[offset] = uint8(a.PermissionType)
 	offset++
-	offset += copy(payload[offset:], a.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], a.TaggedFields.Encode())
+	}
 
 	return
 }
@@ -103,7 +105,9 @@ func (r *CreateAclsRequest) Encode(version uint16) (payload []byte) {
 	}
 
 	// Write the tag buffer
-	offset += copy(payload[offset:], r.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], r.TaggedFields.Encode())
+	}
 
 	return payload
 }
@@ -173,15 +177,19 @@ func DecodeCreateAclsRequest(payload []byte) (r CreateAclsRequest, err error) {
 		creation.PermissionType = AclsPermissionType(payload[offset])
 		offset++
 
-		creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if headerVersion >= 2 {
+			creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 
 		r.Creations[i] = *creation
 	}
 
 	// Decode TaggedFields
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if headerVersion >= 2 {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
-- 
2.43.0


From 134edfb4ed058b18db7df332c41e387d8ed24cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:29 +0000
Subject: [PATCH 39/64] fix: a CreateAcls response has a throttle time before
 its results

---
 create_acls_response.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/create_acls_response.go b/create_acls_response.go
index e7752fb..a27eb60 100644
--- a/create_acls_response.go
+++ b/create_acls_response.go
@@ -7,8 +7,9 @@ import (
 
 type CreateAclsResponse struct {
 	ResponseHeader
-	Results      []AclCreationResult
-	TaggedFields TaggedFields
+	ThrottleTimeMs int32
+	Results        []AclCreationResult
+	TaggedFields   TaggedFields
 }
 
 type AclCreationResult struct {
@@ -42,6 +43,9 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_CreateAcls, version)
 	offset += o
 
+	r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+	offset += 4
+
 	var resultCount int32
 	if r.ResponseHeader.IsFlexible() {
 		resultCount, o = compactArrayLength(payload[offset:])
@@ -85,6 +89,7 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 
 func (r *CreateAclsResponse) length() (n int) {
 	n += r.ResponseHeader.length()
+	n += 4 // throttle time
 	n += 4 // results count
 	for _, result := range r.Results {
 		n += 2 // error code
@@ -109,6 +114,8 @@ func (r *CreateAclsResponse) Encode() (payload []byte) {
 	}()
 
 	offset += r.ResponseHeader.EncodeTo(payload[offset:])
+	binary.BigEndian.PutUint32(payload[offset:], uint32(r.ThrottleTimeMs))
+	offset += 4
 	if r.ResponseHeader.IsFlexible() {
 		offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Results)))
 	} else {
-- 
2.43.0


From 0ae34f71fd8c0ae57537c1ce4d5775123e2a607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:29 +0000
Subject: [PATCH 40/64] fix: read the header of a ListPartitionReassignments
 response, so that its error is seen

---
 list_partition_reassignments_response.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/list_partition_reassignments_response.go b/list_partition_reassignments_response.go
index de1e77a..753a461 100644
--- a/list_partition_reassignments_response.go
+++ b/list_partition_reassignments_response.go
@@ -105,8 +105,9 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 	}
 	offset += 4
 
-	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
-	offset += 4
+	header, o := DecodeResponseHeader(payload[offset:], API_ListPartitionReassignments, version)
+	r.CorrelationID = header.CorrelationID
+	offset += o
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
@@ -114,9 +115,6 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	offset++ // I do not know what this byte means, always 0x01 , additonal byte after ErrorMessage and before Topics
-
-	var o int
 	r.ErrorMessage, o = compactNullableString(payload[offset:])
 	offset += o
 
-- 
2.43.0


From 177a9f2bb0d08cbdc51ee0a37038c8ebbf77875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:29 +0000
Subject: [PATCH 41/64] fix: CreatePartitions v0 without assignments, and its
 response for several topics

---
 create_partitions_request.go  | 7 ++++++-
 create_partitions_response.go | 8 ++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/create_partitions_request.go b/create_partitions_request.go
index 2a522c0..cb85db1 100644
--- a/create_partitions_request.go
+++ b/create_partitions_request.go
@@ -84,7 +84,12 @@ func (r *createPartitionsRequestTopicBlock) encode(payload []byte, version uint1
 			offset += binary.PutUvarint(payload[offset:], 1+uint64(len(r.Assignments)))
 		}
 	case 0:
-		binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		if r.Assignments == nil {
+			var null int32 = -1
+			binary.BigEndian.PutUint32(payload[offset:], uint32(null))
+		} else {
+			binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		}
 		offset += 4
 	}
 	for _, assignment := range r.Assignments {
diff --git a/create_partitions_response.go b/create_partitions_response.go
index 4861514..0ee71c7 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -89,11 +89,11 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 			offset += o
 			r.Results[i].ErrorMessage = msg
 		}
-		// TAG_BUFFER
-		offset++
+		if version >= 2 {
+			// TAG_BUFFER
+			offset++
+		}
 	}
-	// TAG_BUFFER
-	offset++
 
 	return
 }
-- 
2.43.0


From d7fea36f4ee00d6d1c7c3a8aff6bfcb8951086bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:29 +0000
Subject: [PATCH 42/64] fix: an error in a response need not have a message

---
 alter_partition_reassignments_response.go | 4 ++--
 create_partitions_response.go             | 2 +-
 delete_acls_response.go                   | 4 ++--
 error.go                                  | 8 ++++++++
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/alter_partition_reassignments_response.go b/alter_partition_reassignments_response.go
index 42162fe..959d918 100644
--- a/alter_partition_reassignments_response.go
+++ b/alter_partition_reassignments_response.go
@@ -19,12 +19,12 @@ type AlterPartitionReassignmentsResponse struct {
 
 func (r *AlterPartitionReassignmentsResponse) Error() error {
 	if r.ErrorCode != 0 {
-		return fmt.Errorf("%w: %s", KafkaError(r.ErrorCode), *r.ErrorMsg)
+		return fmt.Errorf("%w: %s", KafkaError(r.ErrorCode), errorMessage(r.ErrorMsg))
 	}
 	for _, t := range r.Responses {
 		for _, p := range t.Partitions {
 			if p.ErrorCode != 0 {
-				return fmt.Errorf("%w: %s", KafkaError(p.ErrorCode), *p.ErrorMsg)
+				return fmt.Errorf("%w: %s", KafkaError(p.ErrorCode), errorMessage(p.ErrorMsg))
 			}
 		}
 	}
diff --git a/create_partitions_response.go b/create_partitions_response.go
index 0ee71c7..1e53d41 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -24,7 +24,7 @@ type createPartitionsResponseResultBlock struct {
 func (r CreatePartitionsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
-			return fmt.Errorf("create partitions error(%d): %s: %w", result.ErrorCode, *result.ErrorMessage, KafkaError(result.ErrorCode))
+			return fmt.Errorf("create partitions error(%d): %s: %w", result.ErrorCode, errorMessage(result.ErrorMessage), KafkaError(result.ErrorCode))
 		}
 	}
 	return nil
diff --git a/delete_acls_response.go b/delete_acls_response.go
index 3eb39ca..6ae096b 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -126,12 +126,12 @@ type DeleteAclsResponse struct {
 func (r *DeleteAclsResponse) Error() (err error) {
 	for i := range r.FilterResults {
 		if r.FilterResults[i].ErrorCode != 0 {
-			return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].ErrorCode), *r.FilterResults[i].ErrorMessage)
+			return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].ErrorCode), errorMessage(r.FilterResults[i].ErrorMessage))
 		}
 		for j := range r.FilterResults[i].MatchingAcls {
 			if r.FilterResults[i].MatchingAcls[j].ErrorCode != 0 {
 				return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].MatchingAcls[j].ErrorCode),
-					*r.FilterResults[i].MatchingAcls[j].ErrorMessage)
+					errorMessage(r.FilterResults[i].MatchingAcls[j].ErrorMessage))
 			}
 		}
 	}
diff --git a/error.go b/error.go
index 1648f66..d463a44 100644
--- a/error.go
+++ b/error.go
@@ -22,3 +22,11 @@ var (
 	emptyPayload        HealerError = 3
 	noAvaliableBrokers  HealerError = 4
 )
+
+// errorMessage returns the error message of a response, which kafka may leave out
+func errorMessage(s *string) string {
+	if s == nil {
+		return ""
+	}
+	return *s
+}
-- 
2.43.0


From a385af91ee69bffbe3dbcf7e9075aafba8d74dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:29 +0000
Subject: [PATCH 43/64] fix: the message of an AlterConfigs response may be
 null

---
 alter_config_response.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/alter_config_response.go b/alter_config_response.go
index 69d3167..818f969 100644
--- a/alter_config_response.go
+++ b/alter_config_response.go
@@ -32,15 +32,14 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	l := int(binary.BigEndian.Uint16(payload[offset:]))
-	offset += 2
-	r.ErrorMessage = string(payload[offset : offset+l])
-	offset += l
+	msg, o := nullableString(payload[offset:])
+	r.ErrorMessage = errorMessage(msg)
+	offset += o
 
 	r.ResourceType = payload[offset]
 	offset++
 
-	l = int(binary.BigEndian.Uint16(payload[offset:]))
+	l := int(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 	r.ResourceName = string(payload[offset : offset+l])
 	offset += l
-- 
2.43.0


From b14128900a204837daf81911f8b965dcf30dc304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:29 +0000
Subject: [PATCH 44/64] fix: ACL responses before version 2 have no tagged
 fields

---
 delete_acls_response.go    | 20 ++++++++++++++------
 desscribe_acls_response.go |  4 ++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/delete_acls_response.go b/delete_acls_response.go
index 6ae096b..eb74e99 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -195,12 +195,16 @@ func DecodeDeleteAclsResponse(payload []byte, version uint16) (*DeleteAclsRespon
 			offset += o
 		}
 
-		r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if r.ResponseHeader.IsFlexible() {
+			r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 	}
 
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if r.ResponseHeader.IsFlexible() {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
@@ -243,9 +247,13 @@ func (r *DeleteAclsResponse) Encode() (payload []byte) {
 			buf.Write(m.encode(r.ResponseHeader.apiVersion, r.ResponseHeader.IsFlexible()))
 		}
 
-		buf.Write(fr.TaggedFields.Encode())
+		if r.ResponseHeader.IsFlexible() {
+			buf.Write(fr.TaggedFields.Encode())
+		}
 	}
 
-	buf.Write(r.TaggedFields.Encode())
+	if r.ResponseHeader.IsFlexible() {
+		buf.Write(r.TaggedFields.Encode())
+	}
 	return buf.Bytes()
 }
diff --git a/desscribe_acls_response.go b/desscribe_acls_response.go
index e8a9c3d..76acf7e 100644
--- a/desscribe_acls_response.go
+++ b/desscribe_acls_response.go
@@ -48,7 +48,7 @@ func NewDescribeAclsResponse(payload []byte, version uint16) (response DescribeA
 	response.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	if version >= 1 {
+	if version >= 2 {
 		_, o = DecodeTaggedFields(payload[offset:])
 		offset += o
 	}
@@ -181,7 +181,7 @@ func (r *DescribeAclsResponse) Encode(version uint16) (rst []byte, err error) {
 	binary.Write(buf, binary.BigEndian, uint32(0))
 
 	binary.Write(buf, binary.BigEndian, r.CorrelationID)
-	if version >= 1 {
+	if version >= 2 {
 		buf.Write(r.TaggedFields.Encode())
 	}
 	binary.Write(buf, binary.BigEndian, r.ThrottleTimeMs)
-- 
2.43.0


From 0b08f80ddb5bfb389ca33672ee715159ed21687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:29 +0000
Subject: [PATCH 45/64] fix: describing a group reports its members' metadata,
 and members without assignment

---
 describe_groups_response.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/describe_groups_response.go b/describe_groups_response.go
index 3398e07..454a60b 100644
--- a/describe_groups_response.go
+++ b/describe_groups_response.go
@@ -109,6 +109,7 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 
 			l = int(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
+			group.Members[i].MemberMetadata = make([]byte, l)
 			copy(group.Members[i].MemberMetadata, payload[offset:offset+l])
 			offset += l
 
@@ -116,8 +117,14 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 			offset += 4
 			group.Members[i].RawMemberAssignment = make([]byte, l)
 			copy(group.Members[i].RawMemberAssignment, payload[offset:offset+l])
-			group.Members[i].MemberAssignment, err = NewMemberAssignment(group.Members[i].RawMemberAssignment)
 			offset += l
+			if l > 0 { // a member has no assignment before its group is stable
+				var e error
+				group.Members[i].MemberAssignment, e = NewMemberAssignment(group.Members[i].RawMemberAssignment)
+				if err == nil {
+					err = e
+				}
+			}
 		}
 
 		r.Groups[i] = group
-- 
2.43.0


From 289eea366ee744ce46968e3bb224ba2eabb28a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:18 +0000
Subject: [PATCH 46/64] fix: replica assignments of a new topic may be added in
 any order

---
 command/healer/cmd/create-topic.go | 4 +++-
 create_topics_request.go           | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/command/healer/cmd/create-topic.go b/command/healer/cmd/create-topic.go
index df8bc36..37d08f0 100644
--- a/command/healer/cmd/create-topic.go
+++ b/command/healer/cmd/create-topic.go
@@ -107,7 +107,9 @@ var createTopicCmd = &cobra.Command{
 
 		// Then add replica assignments
 		for pid, nodes := range replicas {
-			r.AddReplicaAssignment(topic, pid, nodes)
+			if err := r.AddReplicaAssignment(topic, pid, nodes); err != nil {
+				return fmt.Errorf("invalid replica-assignment: %w", err)
+			}
 		}
 
 		if resp, err := controller.RequestAndGet(r); err != nil {
diff --git a/create_topics_request.go b/create_topics_request.go
index ee854e9..8b69bab 100644
--- a/create_topics_request.go
+++ b/create_topics_request.go
@@ -183,12 +183,12 @@ func (r *CreateTopicsRequest) AddReplicaAssignment(topic string, pid int32, repl
 		return errorTopicNotFound
 	}
 
+	if pid < 0 {
+		return errorPidOutOfRange
+	}
+
 	found = false
 	for _, ra := range rr.ReplicaAssignments {
-		if ra.Partition >= pid {
-			return errorPidOutOfRange
-		}
-
 		if ra.Partition == pid {
 			found = true
 			ra.Replicas = replicas
-- 
2.43.0


From 8c52a9fe1c2fa688da714d2b3fd81e8490a902bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:18 +0000
Subject: [PATCH 47/64] fix: get-metadata fails when the metadata cannot be had

---
 command/healer/cmd/get-metadata.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/command/healer/cmd/get-metadata.go b/command/healer/cmd/get-metadata.go
index 582f898..d82dc12 100644
--- a/command/healer/cmd/get-metadata.go
+++ b/command/healer/cmd/get-metadata.go
@@ -2,6 +2,7 @@ package cmd
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/childe/healer"
@@ -30,6 +31,13 @@ var getMetadataCmd = &cobra.Command{
 		} else {
 			metadataResponse, err = brokers.RequestMetaData(client, topics)
 		}
+		if err != nil {
+			// errors of topics and partitions are part of the response
+			var e healer.KafkaError
+			if !errors.As(err, &e) {
+				return fmt.Errorf("failed to get metadata: %w", err)
+			}
+		}
 
 		switch format {
 		case "json":
-- 
2.43.0


From a869147bec5df5dab51496410f9177f248ead5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:41 +0000
Subject: [PATCH 48/64] fix: the HTTP API stops after it has reported an error

---
 command/healer/cmd/apicontrollers/describe-logdirs.go    | 2 ++
 command/healer/cmd/apicontrollers/group.go               | 9 ++++++++-
 .../healer/cmd/apicontrollers/partition-reassignments.go | 1 +
 command/healer/cmd/apicontrollers/topic.go               | 2 ++
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/command/healer/cmd/apicontrollers/describe-logdirs.go b/command/healer/cmd/apicontrollers/describe-logdirs.go
index feb0b1e..a675717 100644
--- a/command/healer/cmd/apicontrollers/describe-logdirs.go
+++ b/command/healer/cmd/apicontrollers/describe-logdirs.go
@@ -24,6 +24,7 @@ func DescribeLogdirs(c *gin.Context, client string) {
 	admin, err := healer.NewClient(bootstrapServers, client)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	clientReq := struct {
@@ -37,6 +38,7 @@ func DescribeLogdirs(c *gin.Context, client string) {
 	responses, err := admin.DescribeLogDirs(clientReq.Topics)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	c.JSON(http.StatusOK, responses)
diff --git a/command/healer/cmd/apicontrollers/group.go b/command/healer/cmd/apicontrollers/group.go
index 5023fd3..3eaf231 100644
--- a/command/healer/cmd/apicontrollers/group.go
+++ b/command/healer/cmd/apicontrollers/group.go
@@ -1,6 +1,7 @@
 package apicontrollers
 
 import (
+	"fmt"
 	"net/http"
 
 	"github.com/childe/healer"
@@ -52,16 +53,19 @@ func DescribeGroups(c *gin.Context, client string) {
 	brokers, err := healer.NewBrokers(bootstrapServers)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	coordinatorResponse, err := brokers.FindCoordinator(client, group)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	coordinator, err := brokers.GetBroker(coordinatorResponse.Coordinator.NodeID)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	klog.Infof("coordinator for group[%s]:%s", group, coordinator.GetAddress())
@@ -70,6 +74,7 @@ func DescribeGroups(c *gin.Context, client string) {
 	resp, err := coordinator.RequestAndGet(req)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	groups := resp.(healer.DescribeGroupsResponse).Groups
@@ -164,12 +169,14 @@ func GetPending(c *gin.Context, client string) {
 
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	defer bs.Close()
 
 	offsets, err := getOffset(bs, topicName, client)
 	if err != nil {
-		klog.Errorf("get offsets error: %s", err)
+		c.String(http.StatusInternalServerError, fmt.Sprintf("get offsets error: %s", err))
+		return
 	}
 
 	partitions, err := getPartitions(bs, topicName, client)
diff --git a/command/healer/cmd/apicontrollers/partition-reassignments.go b/command/healer/cmd/apicontrollers/partition-reassignments.go
index 5a911be..cdada7e 100644
--- a/command/healer/cmd/apicontrollers/partition-reassignments.go
+++ b/command/healer/cmd/apicontrollers/partition-reassignments.go
@@ -47,6 +47,7 @@ func ListPartitionReassignments(c *gin.Context, client string) {
 	admin, err := healer.NewClient(bootstrapServers, client)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	defer admin.Close()
 
diff --git a/command/healer/cmd/apicontrollers/topic.go b/command/healer/cmd/apicontrollers/topic.go
index 27cfd8f..729d779 100644
--- a/command/healer/cmd/apicontrollers/topic.go
+++ b/command/healer/cmd/apicontrollers/topic.go
@@ -45,6 +45,7 @@ func GetTopicConfig(c *gin.Context, client string) {
 	controller, err := bs.GetBroker(bs.Controller())
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	resp, err := controller.RequestAndGet(r)
 	if err != nil {
@@ -85,6 +86,7 @@ func AlterTopicConfig(c *gin.Context, client string) {
 	controller, err := bs.GetBroker(bs.Controller())
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	resp, err := controller.RequestAndGet(r)
 	if err != nil {
-- 
2.43.0


From b1455b7c426e931690cb0881f95e635e355f2c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:41 +0000
Subject: [PATCH 49/64] fix: the HTTP API closes the clients it creates

---
 command/healer/cmd/apicontrollers/describe-logdirs.go | 1 +
 command/healer/cmd/apicontrollers/group.go            | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/command/healer/cmd/apicontrollers/describe-logdirs.go b/command/healer/cmd/apicontrollers/describe-logdirs.go
index a675717..8bf4977 100644
--- a/command/healer/cmd/apicontrollers/describe-logdirs.go
+++ b/command/healer/cmd/apicontrollers/describe-logdirs.go
@@ -26,6 +26,7 @@ func DescribeLogdirs(c *gin.Context, client string) {
 		c.String(http.StatusInternalServerError, err.Error())
 		return
 	}
+	defer admin.Close()
 
 	clientReq := struct {
 		Topics []string `json:"topics"`
diff --git a/command/healer/cmd/apicontrollers/group.go b/command/healer/cmd/apicontrollers/group.go
index 3eaf231..8664941 100644
--- a/command/healer/cmd/apicontrollers/group.go
+++ b/command/healer/cmd/apicontrollers/group.go
@@ -26,6 +26,7 @@ func ListGroups(c *gin.Context, clientID string) {
 		c.String(http.StatusInternalServerError, err.Error())
 		return
 	}
+	defer client.Close()
 
 	groups, err := client.ListGroups()
 	if err != nil {
@@ -55,6 +56,7 @@ func DescribeGroups(c *gin.Context, client string) {
 		c.String(http.StatusInternalServerError, err.Error())
 		return
 	}
+	defer brokers.Close()
 
 	coordinatorResponse, err := brokers.FindCoordinator(client, group)
 	if err != nil {
-- 
2.43.0


From 941d11e5ffd27b2dcf2328c946ce5ad3be3e52e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:41 +0000
Subject: [PATCH 50/64] fix: listing partition reassignments over HTTP needs no
 body

---
 command/healer/cmd/apicontrollers/partition-reassignments.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/healer/cmd/apicontrollers/partition-reassignments.go b/command/healer/cmd/apicontrollers/partition-reassignments.go
index cdada7e..5fab277 100644
--- a/command/healer/cmd/apicontrollers/partition-reassignments.go
+++ b/command/healer/cmd/apicontrollers/partition-reassignments.go
@@ -52,7 +52,7 @@ func ListPartitionReassignments(c *gin.Context, client string) {
 	defer admin.Close()
 
 	reassignments := make([]reassignment, 0)
-	if err := c.BindJSON(&reassignments); err != nil {
+	if err := c.ShouldBindJSON(&reassignments); err != nil {
 		if err != io.EOF {
 			c.String(http.StatusBadRequest, fmt.Sprintf("reassignments value error: %s", err))
 			return
-- 
2.43.0


From db9ed3c87a4f3d3898ba00f4d37b29a18de5e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:24 +0000
Subject: [PATCH 51/64] fix: reset-offset fails for a partition the topic does
 not have

---
 command/healer/cmd/reset-offset.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/command/healer/cmd/reset-offset.go b/command/healer/cmd/reset-offset.go
index a1f1269..d929a45 100644
--- a/command/healer/cmd/reset-offset.go
+++ b/command/healer/cmd/reset-offset.go
@@ -58,6 +58,12 @@ var resetOffsetCmd = &cobra.Command{
 			}
 		}
 
+		for partition := range userCustomPartitions {
+			if _, ok := offsets[partition]; !ok {
+				return fmt.Errorf("topic %s has no partition %d", topic, partition)
+			}
+		}
+
 		// 1. get coordinator
 		var coordinator *healer.Broker
 		coordinatorResponse, err := brokers.FindCoordinator(client, group)
-- 
2.43.0


From 85c86f9bdf7b366ead8b913bcaf64c9622a70464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:29 +0000
Subject: [PATCH 52/64] fix: consumers do not share the slice of their request
 timeouts

---
 config.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/config.go b/config.go
index 1e0cc76..219aeb1 100644
--- a/config.go
+++ b/config.go
@@ -133,9 +133,8 @@ func DefaultConsumerConfig() ConsumerConfig {
 }
 
 func (c *ConsumerConfig) resetTimeoutMSForEachAPI() {
-	if len(c.Net.TimeoutMSForEachAPI) == 0 {
-		c.Net.TimeoutMSForEachAPI = make([]int, 68)
-	}
+	// not the slice of the config this one was copied from, which other consumers use
+	c.Net.TimeoutMSForEachAPI = make([]int, 68)
 	for i := range c.Net.TimeoutMSForEachAPI {
 		c.Net.TimeoutMSForEachAPI[i] = c.Net.TimeoutMS
 	}
-- 
2.43.0


From bddc296b3a5fb103be751f49acb6e9ebf61032bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:38 +0000
Subject: [PATCH 53/64] fix: group-consumer does not commit messages it has not
 printed

---
 command/healer/cmd/group-consumer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/command/healer/cmd/group-consumer.go b/command/healer/cmd/group-consumer.go
index 5a84994..a6dbf94 100644
--- a/command/healer/cmd/group-consumer.go
+++ b/command/healer/cmd/group-consumer.go
@@ -69,7 +69,8 @@ var groupConsumerCmd = &cobra.Command{
 
 		defer consumer.Close()
 
-		messages, err := consumer.Consume(nil)
+		// unbuffered: a message that is not printed before the consumer is closed must not be committed
+		messages, err := consumer.Consume(make(chan *healer.FullMessage))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 29958362bfb250a944c486024934d5828070f29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:38 +0000
Subject: [PATCH 54/64] fix: console-consumer --printoffset=false prints no
 offsets

---
 command/healer/cmd/console-consumer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/command/healer/cmd/console-consumer.go b/command/healer/cmd/console-consumer.go
index 72bd844..6d8c443 100644
--- a/command/healer/cmd/console-consumer.go
+++ b/command/healer/cmd/console-consumer.go
@@ -42,6 +42,10 @@ var consoleConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
+		printOffset, err := cmd.Flags().GetBool("printoffset")
+		if err != nil {
+			return err
+		}
 		ifJson, err := cmd.Flags().GetBool("json")
 		if err != nil {
 			return err
@@ -81,8 +85,10 @@ var consoleConsumerCmd = &cobra.Command{
 			if ifJson {
 				b, _ := json.Marshal(message)
 				fmt.Printf("%s\n", string(b))
-			} else {
+			} else if printOffset {
 				fmt.Printf("%d: %s\n", message.Message.Offset, message.Message.Value)
+			} else {
+				fmt.Printf("%s\n", message.Message.Value)
 			}
 		}
 		return nil
-- 
2.43.0


From fa9d305e7493bd0706a2097965f8f59b5bc55905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:46 +0000
Subject: [PATCH 55/64] fix: administrative requests follow the controller when
 it moves

---
 brokers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/brokers.go b/brokers.go
index 80b8376..6a6a663 100644
--- a/brokers.go
+++ b/brokers.go
@@ -132,7 +132,11 @@ func (brokers *Brokers) Controller() int32 {
 	return brokers.controllerID
 }
 
+// GetController returns the broker which is the controller at present
 func (brokers *Brokers) GetController() (*Broker, error) {
+	if r, err := brokers.RequestMetaData("healer-get-controller", []string{}); err == nil {
+		brokers.controllerID = r.ControllerID
+	}
 	return brokers.GetBroker(brokers.Controller())
 }
 
@@ -366,7 +370,7 @@ func (brokers *Brokers) FindCoordinator(clientID, groupID string) (r FindCoordin
 
 // AlterPartitionReassignments requests AlterPartitionReassignments from controller and returns response
 func (brokers *Brokers) AlterPartitionReassignments(req *AlterPartitionReassignmentsRequest) (r *AlterPartitionReassignmentsResponse, err error) {
-	controller, err := brokers.GetBroker(brokers.Controller())
+	controller, err := brokers.GetController()
 	if err != nil {
 		return r, fmt.Errorf("could not create controller broker: %w", err)
 	}
@@ -379,7 +383,7 @@ func (brokers *Brokers) AlterPartitionReassignments(req *AlterPartitionReassignm
 
 // ElectLeaders requests ElectLeaders from controller and returns response
 func (brokers *Brokers) ElectLeaders(req *ElectLeadersRequest) (r *ElectLeadersResponse, err error) {
-	controller, err := brokers.GetBroker(brokers.Controller())
+	controller, err := brokers.GetController()
 	if err != nil {
 		return r, fmt.Errorf("could not create controller broker: %w", err)
 	}
-- 
2.43.0


From 8911e1173331ec2264aeddf8d43d7da40b726106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:46 +0000
Subject: [PATCH 56/64] fix: describing log directories reports the failure of
 a broker

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 15e2c71..58c3393 100644
--- a/client.go
+++ b/client.go
@@ -113,7 +113,7 @@ func (c *Client) DescribeLogDirs(topics []string) (map[int32]DescribeLogDirsResp
 		resp, err := broker.RequestAndGet(req)
 		if err != nil {
 			c.logger.Error(err, "describe logdirs failed", "broker", broker.String())
-			continue
+			return nil, err
 		}
 
 		topicSet := make(map[string]struct{})
-- 
2.43.0


From 5cc476a63236e0f26a8c60e860c4112295cadacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:23 +0000
Subject: [PATCH 57/64] fix: a consumer that commits offsets finds the
 coordinator again after it moved

---
 simple_consumer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simple_consumer.go b/simple_consumer.go
index cb7d16a..69a241f 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -352,6 +352,10 @@ func (c *SimpleConsumer) commitOffset() bool {
 		return true
 	}
 	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+	// the coordinator may have moved
+	if err := c.getCoordinator(); err != nil {
+		logger.Error(err, "failed to get coordinator")
+	}
 	return false
 }
 
-- 
2.43.0


From c69ace1355ce49d3efc67a31c8fe68699948b467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:51 +0000
Subject: [PATCH 58/64] fix: messages of topics that use the append time have
 that timestamp

---
 fetch_response.go | 6 +++++-
 message.go        | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/fetch_response.go b/fetch_response.go
index 92582da..12fa5d5 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -195,7 +195,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	compress := attributes & 0b111
 	lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
-	// maxTimestamp := binary.BigEndian.Uint64(buf[35:])
+	maxTimestamp := binary.BigEndian.Uint64(buf[35:])
 	// producerID := binary.BigEndian.Uint64(buf[43:])
 	// producerEpoch := binary.BigEndian.Uint16(buf[51:])
 	// baseSequence := binary.BigEndian.Uint32(buf[53:])
@@ -255,6 +255,10 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 			Value:      record.value,
 			Headers:    record.Headers,
 		}
+		// the topic uses the time of the append, which is kept once for the whole batch
+		if attributes&0x08 != 0 {
+			message.Timestamp = maxTimestamp
+		}
 		if err = streamDecoder.filterAndPutMessage(message, topicName, partitionID); err != nil {
 			return offset, err
 		}
diff --git a/message.go b/message.go
index 27683f2..87e7bf7 100644
--- a/message.go
+++ b/message.go
@@ -176,6 +176,10 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 				baseOffset := message.Offset - _messageSet[n-1].Offset
 				for _, m := range _messageSet {
 					m.Offset += baseOffset
+					// the topic uses the time of the append, which only the outer message has
+					if message.Attributes&0x08 != 0 {
+						m.Timestamp = message.Timestamp
+					}
 				}
 			}
 			messageSet = append(messageSet, _messageSet...)
-- 
2.43.0


From 74f4e27c452cdf311ceed8e36d9763636b719160 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:05:43 +0000
Subject: [PATCH 59/64] fix: an answer about several resources whose configs
 were altered is read in full

---
 alter_config_response.go             | 2 +-
 incremental_alter_config_response.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alter_config_response.go b/alter_config_response.go
index 818f969..ddc9f74 100644
--- a/alter_config_response.go
+++ b/alter_config_response.go
@@ -43,7 +43,7 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	offset += 2
 	r.ResourceName = string(payload[offset : offset+l])
 	offset += l
-	return
+	return offset
 }
 
 func NewAlterConfigsResponse(payload []byte) (r AlterConfigsResponse, err error) {
diff --git a/incremental_alter_config_response.go b/incremental_alter_config_response.go
index c78f3c0..2defbb8 100644
--- a/incremental_alter_config_response.go
+++ b/incremental_alter_config_response.go
@@ -50,7 +50,7 @@ func decodeToIncrementalAlterConfigsResponseResource(payload []byte, version uin
 		r.ResourceName = string(payload[offset : offset+int(l)])
 		offset += int(l)
 	}
-	return
+	return r, offset
 }
 
 // NewIncrementalAlterConfigsResponse create a new IncrementalAlterConfigsResponse.
-- 
2.43.0


From bcf684c05c1aa8dd99e34b1712d3045ac17dc543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:04 +0000
Subject: [PATCH 60/64] fix: produce with version 3 to brokers that do not
 offer version 9

Version 0 was chosen, but the request written was a version 3 one (record
batches, transactional id), which such a broker cannot parse; and the answers
of versions below 9 were decoded as flexible ones, with a panic.
---
 produce_response.go | 25 +++++++++++++++++--------
 request.go          |  2 +-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/produce_response.go b/produce_response.go
index 4d79488..7319a7c 100644
--- a/produce_response.go
+++ b/produce_response.go
@@ -17,7 +17,7 @@ type produceResponseP struct {
 	ErrorCode   int16
 	BaseOffset  int64
 
-	LogAppendTimeMs int64 `healer:"minVersion:3"`
+	LogAppendTimeMs int64 `healer:"minVersion:2"`
 	LogStartOffset  int64 `healer:"minVersion:5"`
 
 	RecordErrors []produceResponseRecordErrors `healer:"minVersion:8"`
@@ -50,7 +50,7 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 	offset += 8
 
 	tags := p.tags()
-	if version >= tags["GroupState"] {
+	if version >= tags["LogAppendTimeMs"] {
 		p.LogAppendTimeMs = int64(binary.BigEndian.Uint64(payload[offset:]))
 		offset += 8
 	}
@@ -84,8 +84,10 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 				offset += o
 			}
 
-			r.TaggedField, o = DecodeTaggedFields(payload[offset:])
-			offset += o
+			if isFlexible {
+				r.TaggedField, o = DecodeTaggedFields(payload[offset:])
+				offset += o
+			}
 		}
 	}
 
@@ -98,6 +100,11 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 		offset += o
 	}
 
+	if isFlexible {
+		p.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
+
 	return
 }
 
@@ -126,11 +133,13 @@ func (t *produceResponseT) decode(payload []byte, version uint16, isFlexible boo
 	}
 	for j := range t.Partitions {
 		p := &t.Partitions[j]
-		p.decode(payload[offset:], version, isFlexible)
+		offset += p.decode(payload[offset:], version, isFlexible)
 	}
 
-	t.TaggedField, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if isFlexible {
+		t.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return
 }
@@ -165,7 +174,7 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 	}
 	offset += 4
 
-	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_DeleteAcls, version)
+	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_ProduceRequest, version)
 	offset += o
 
 	isFlexible := r.ResponseHeader.IsFlexible()
diff --git a/request.go b/request.go
index 1dbfc69..01aaa3f 100644
--- a/request.go
+++ b/request.go
@@ -44,7 +44,7 @@ const (
 // healer only implements these versions of the protocol, only version 0 is supported if not defined here
 // It must be sorted from high to low
 var availableVersions map[uint16][]uint16 = map[uint16][]uint16{
-	API_ProduceRequest:      {9, 0},
+	API_ProduceRequest:      {9, 3}, // record batches need version 3
 	API_FetchRequest:        {10, 7, 0},
 	API_OffsetRequest:       {1, 0},
 	API_MetadataRequest:     {7, 4, 1},
-- 
2.43.0


From 6c98f337988290fd72e9ca80b6363761575dd7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:10 +0000
Subject: [PATCH 61/64] fix: skip unknown tagged fields in create-partitions
 and list-partition-reassignments answers

One byte was skipped whatever the section held, so a tagged field sent by a
newer broker shifted the rest of the answer: garbage, a panic or a huge
allocation.
---
 create_partitions_response.go            | 8 ++++----
 list_partition_reassignments_response.go | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/create_partitions_response.go b/create_partitions_response.go
index 1e53d41..34be813 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -45,8 +45,8 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 	r.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 	if version == 2 {
-		// TAG_BUFFER
-		offset++
+		_, o := DecodeTaggedFields(payload[offset:]) // TAG_BUFFER
+		offset += o
 	}
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
@@ -90,8 +90,8 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 			r.Results[i].ErrorMessage = msg
 		}
 		if version >= 2 {
-			// TAG_BUFFER
-			offset++
+			_, o := DecodeTaggedFields(payload[offset:]) // TAG_BUFFER
+			offset += o
 		}
 	}
 
diff --git a/list_partition_reassignments_response.go b/list_partition_reassignments_response.go
index 753a461..ab95e94 100644
--- a/list_partition_reassignments_response.go
+++ b/list_partition_reassignments_response.go
@@ -37,7 +37,7 @@ func decodeToListPartitionReassignmentsTopicBlock(payload []byte) (r listPartiti
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:]) // TAG_BUFFER
 	offset += o
 
 	return
@@ -85,7 +85,7 @@ func decodeToListPartitionReassignmentsPartitionBlock(payload []byte) (r listPar
 			offset += 4
 		}
 	}
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:]) // TAG_BUFFER
 	offset += o
 	return
 }
@@ -130,7 +130,7 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:]) // TAG_BUFFER
 	offset += o
 
 	return r, err
-- 
2.43.0


From 1e9e39b8cbcca7055569a9a063e252655fcc879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:55 +0000
Subject: [PATCH 62/64] fix: when none of the known brokers answers, ask the
 bootstrap servers which brokers there are now

A client that was created while a broker was down never learned about it: when
the others went away later it was stuck for good.
---
 brokers.go | 77 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 77 insertions(+)

diff --git a/brokers.go b/brokers.go
index 6a6a663..ed756e4 100644
--- a/brokers.go
+++ b/brokers.go
@@ -275,9 +275,80 @@ func (brokers *Brokers) RequestMetaData(clientID string, topics []string) (r Met
 		time.Sleep(time.Millisecond * 200)
 	}
 
+	if brokers.learnBrokers() {
+		return brokers.RequestMetaData(clientID, topics)
+	}
 	return r, &noAvaliableBrokers
 }
 
+// learnBrokers asks the bootstrap servers that are not among the known brokers which brokers there are now.
+// it returns true if there are new ones
+func (brokers *Brokers) learnBrokers() bool {
+	if brokers.bootstrapServers == "" {
+		return false
+	}
+	for i, address := range strings.Split(brokers.bootstrapServers, ",") {
+		broker, err := brokers.getBootstrapBroker(i, address)
+		if err != nil {
+			logger.Error(err, "get bootstrap broker failed", "address", address)
+			continue
+		}
+		r, err := broker.requestMetaData("healer-learn-brokers", []string{})
+		if err != nil {
+			logger.Error(err, "get metadata failed", "brokerAddress", address)
+			continue
+		}
+		if brokers.addBrokersInfo(r.Brokers) {
+			return true
+		}
+	}
+	return false
+}
+
+// getBootstrapBroker returns the i-th bootstrap server, if it is not one of the known brokers
+func (brokers *Brokers) getBootstrapBroker(i int, address string) (*Broker, error) {
+	for _, brokerInfo := range brokers.brokersInfo {
+		if brokerInfo.NetAddress() == address {
+			return nil, fmt.Errorf("%s is known as broker %d", address, brokerInfo.NodeID)
+		}
+	}
+
+	brokers.mutex.Lock()
+	defer brokers.mutex.Unlock()
+
+	if brokers.isClosed() {
+		return nil, net.ErrClosed
+	}
+	cacheID := int32(-2 - i) // no broker has a negative id
+	if broker, ok := brokers.brokers[cacheID]; ok {
+		return broker, nil
+	}
+	broker, err := NewBroker(address, -1, brokers.config)
+	if err != nil {
+		return nil, err
+	}
+	brokers.brokers[cacheID] = broker
+	return broker, nil
+}
+
+func (brokers *Brokers) addBrokersInfo(infos []*BrokerInfo) (added bool) {
+	brokers.mutex.Lock()
+	defer brokers.mutex.Unlock()
+
+	brokersInfo := make(map[int32]*BrokerInfo)
+	for nodeID, brokerInfo := range brokers.brokersInfo {
+		brokersInfo[nodeID] = brokerInfo
+	}
+	for _, brokerInfo := range infos {
+		if _, ok := brokersInfo[brokerInfo.NodeID]; !ok {
+			brokersInfo[brokerInfo.NodeID] = brokerInfo
+			added = true
+		}
+	}
+	brokers.brokersInfo = brokersInfo
+	return added
+}
+
 // RequestOffsets return the offset values array. return all partitions if partitionID < 0
 func (brokers *Brokers) RequestOffsets(clientID, topic string, partitionID int32, timeValue int64, offsets uint32) ([]OffsetsResponse, error) {
 	// have to find which leader own the partition by request metadata
@@ -365,6 +436,9 @@ func (brokers *Brokers) FindCoordinator(clientID, groupID string) (r FindCoordin
 		}
 	}
 
+	if brokers.learnBrokers() {
+		return brokers.FindCoordinator(clientID, groupID)
+	}
 	return FindCoordinatorResponse{}, fmt.Errorf("could not find coordinator from all brokers")
 }
 
@@ -410,5 +484,8 @@ func (brokers *Brokers) Request(req Request) (Response, error) {
 		}
 	}
 
+	if brokers.learnBrokers() {
+		return brokers.Request(req)
+	}
 	return nil, fmt.Errorf("could not request %d from all brokers", req.API())
 }
-- 
2.43.0


From 7ba9483680a0357c70ba8468acbaeb52f14e75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:11 +0000
Subject: [PATCH 63/64] fix: a partition without leader does not keep a
 producer from the others

The metadata refresh failed as a whole when one partition of the topic had no
leader: no producer could be created, and leaders that moved were not followed.
---
 producer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/producer.go b/producer.go
index d67d0f3..fd1624e 100644
--- a/producer.go
+++ b/producer.go
@@ -2,6 +2,7 @@ package healer
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math/rand"
 	"sync"
@@ -92,8 +93,10 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 // update metadata and currentProducer
 func (p *Producer) updateCurrentSimpleProducer() error {
 	metadataResponse, err := p.brokers.RequestMetaData(p.config.ClientID, []string{p.topic})
-	if err == nil {
-		err = metadataResponse.Error()
+	var kafkaErr KafkaError
+	if (err == nil || errors.As(err, &kafkaErr)) && len(metadataResponse.TopicMetadatas) > 0 {
+		// partitions without leader must not keep us from the others
+		err = getErrorFromErrorCode(metadataResponse.TopicMetadatas[0].TopicErrorCode)
 	}
 	if err != nil {
 		return fmt.Errorf("get metadata of %s error: %w", p.topic, err)
-- 
2.43.0


From ded14d5c0d84003ff103626227a4a40ee7266f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:17 +0000
Subject: [PATCH 64/64] fix: list a group once when its coordinator moves while
 the brokers are asked

---
 helper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/helper.go b/helper.go
index 9578d8c..c6c31f3 100644
--- a/helper.go
+++ b/helper.go
@@ -1,5 +1,7 @@
 package healer
 
+import "slices"
+
 type MetaInfo struct {
 	brokers        []*BrokerInfo
 	topicMetadatas []TopicMetadata
@@ -72,7 +74,10 @@ func (h *Helper) GetGroups() []string {
 			return nil
 		}
 		for _, g := range response.Groups {
-			groups = append(groups, g.GroupID)
+			// a group whose coordinator moves meanwhile is listed by both brokers
+			if !slices.Contains(groups, g.GroupID) {
+				groups = append(groups, g.GroupID)
+			}
 		}
 	}
 
-- 
2.43.0

