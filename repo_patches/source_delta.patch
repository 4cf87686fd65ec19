From 7b2ca5f77cfafed85f1f1df3b430799f7ac38a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:01 +0000
Subject: [PATCH 01/21] fix: fair queue serves a waiting group before groups
 that joined the rotation later

A group that runs empty and gets a new message was appended at the end of the
list, ahead of groups already served in this round, so two such groups could
starve a third one.
---
 pkg/queue/fair_priority_queue.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/fair_priority_queue.go b/pkg/queue/fair_priority_queue.go
index 3144fa0..754dc5c 100644
--- a/pkg/queue/fair_priority_queue.go
+++ b/pkg/queue/fair_priority_queue.go
@@ -43,6 +43,20 @@ func (l *LinkedList) Append(node *LinkedListNode) {
 	l.total++
 }
 
+// InsertBefore adds a node right before the given node of the list
+func (l *LinkedList) InsertBefore(next *LinkedListNode, node *LinkedListNode) {
+	node.prev = next.prev
+	node.next = next
+	if next.prev != nil {
+		next.prev.next = node
+	} else {
+		l.head = node
+	}
+	next.prev = node
+
+	l.total++
+}
+
 func (l *LinkedList) Remove(node *LinkedListNode) {
 	if node.prev != nil {
 		node.prev.next = node.next
@@ -92,7 +106,12 @@ func (fq *FairPriorityQueue) Enqueue(group string, item *Item) {
 		// Add group to round robin if not exists
 		node := NewLinkedListNode(group, NewPriorityQueue(true))
 		fq.queues[group] = node
-		fq.roundRobin.Append(node)
+		if fq.currentNone != nil {
+			// A new group takes its turn after all the groups that are already waiting
+			fq.roundRobin.InsertBefore(fq.currentNone, node)
+		} else {
+			fq.roundRobin.Append(node)
+		}
 	}
 	heap.Push(fq.queues[group].Queue(), item)
 	fq.totalMessages++
-- 
2.43.0


From c1a8afcd694f13701be6585ab0804a504bfb5a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:33 +0000
Subject: [PATCH 02/21] fix: removing a message by id from a fair queue keeps
 the count and the rotation right

---
 pkg/queue/fair_priority_queue.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/queue/fair_priority_queue.go b/pkg/queue/fair_priority_queue.go
index 754dc5c..223eebf 100644
--- a/pkg/queue/fair_priority_queue.go
+++ b/pkg/queue/fair_priority_queue.go
@@ -168,13 +168,26 @@ func (fq *FairPriorityQueue) DeleteByID(group string, id uint64) *Item {
 	fq.mu.Lock()
 	defer fq.mu.Unlock()
 
-	if _, exists := fq.queues[group]; !exists {
+	node, exists := fq.queues[group]
+	if !exists {
 		return nil
 	}
 
-	item := fq.queues[group].Queue().DeleteByID(id)
+	item := node.Queue().DeleteByID(id)
+	if item == nil {
+		return nil
+	}
 	fq.totalMessages--
 
+	// If the group's queue is empty, remove the group from the round-robin list
+	if node.Queue().Len() == 0 {
+		if fq.currentNone == node {
+			fq.currentNone = node.next
+		}
+		fq.roundRobin.Remove(node)
+		delete(fq.queues, group)
+	}
+
 	return item
 }
 
-- 
2.43.0


From cd088501395df5ab24360acfc47adc66d5e3cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:00 +0000
Subject: [PATCH 03/21] fix: redeliver unacknowledged messages by earliest
 deadline first

The in-flight queue had the latest deadline on top, so expired messages were
not redelivered while a later one was still in flight.
---
 pkg/queue/badger_priority_queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index dfec73c..bcba6f8 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -82,7 +82,7 @@ func NewBadgerPriorityQueue(db *badger.DB, cfg *config.Config, metrics *Promethe
 	bpq := &BadgerPriorityQueue{
 		db:                db,
 		cfg:               cfg,
-		ackQueue:          NewDelayedPriorityQueue(false),
+		ackQueue:          NewDelayedPriorityQueue(true),
 		PrometheusMetrics: metrics,
 		stats:             NewQueueStats(cfg.Queue.QueueStats.WindowSide),
 	}
-- 
2.43.0


From 7b680369c3af10daa4965fc367bf4ddffd210f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:22 +0000
Subject: [PATCH 04/21] fix: a priority update does not touch the
 acknowledgement deadline of an in-flight message

---
 pkg/queue/badger_priority_queue.go | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index bcba6f8..ff74422 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -442,13 +442,8 @@ func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) err
 		}
 
 		group = msg.Group
-		queueItem := bpq.pq.GetByID(group, id)
-
-		if queueItem == nil {
-			queueItem = bpq.ackQueue.GetByID(group, id)
-			if queueItem == nil {
-				return ErrMessageNotFound
-			}
+		if bpq.pq.GetByID(group, id) == nil && bpq.ackQueue.GetByID("default", id) == nil {
+			return ErrMessageNotFound
 		}
 
 		msg.UpdatePriority(newPriority)
@@ -457,22 +452,16 @@ func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) err
 		if err != nil {
 			return err
 		}
-		err = txn.Set(bpq.GetMessagesKey(queueItem.ID), data)
-
-		if err != nil {
-			return err
-		}
-
-		queueItem.UpdatePriority(newPriority)
-
-		return nil
+		return txn.Set(bpq.GetMessagesKey(id), data)
 	})
 	if err != nil {
 		return err
 	}
 
-	// Update in-memory heap
-	bpq.pq.UpdatePriority(group, id, newPriority)
+	// Update in-memory heap, an in-flight message gets its priority when it comes back
+	if bpq.pq.GetByID(group, id) != nil {
+		bpq.pq.UpdatePriority(group, id, newPriority)
+	}
 	return nil
 }
 
-- 
2.43.0


From 1815a0591da0cbed53e381ca785352e8a8f0aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:43 +0000
Subject: [PATCH 05/21] fix: deleting a queue removes all its messages and its
 configuration

Delete returned after the first message, leaving the others and the queue
configuration in the storage, from where the queue came back.
---
 pkg/queue/badger_priority_queue.go | 42 ++++++++++++++++++------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index ff74422..5866867 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -217,27 +217,35 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 		return ErrQueueNotFound
 	}
 
-	err := bpq.db.Update(func(txn *badger.Txn) error {
-		opts := badger.DefaultIteratorOptions
-		opts.PrefetchValues = true
-		it := txn.NewIterator(opts)
-		defer it.Close()
-
-		prefix := bpq.getMessagesPrefix()
-		for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
-			item := it.Item()
-			return txn.Delete(item.Key())
-		}
+	for done := false; !done; {
+		err := bpq.db.Update(func(txn *badger.Txn) error {
+			opts := badger.DefaultIteratorOptions
+			opts.PrefetchValues = false
+			it := txn.NewIterator(opts)
+			defer it.Close()
+
+			prefix := bpq.getMessagesPrefix()
+			for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
+				err := txn.Delete(it.Item().KeyCopy(nil))
+				if err == badger.ErrTxnTooBig {
+					// Commit what is deleted so far and go on in a new transaction
+					return nil
+				}
+				if err != nil {
+					return err
+				}
+			}
 
-		err := txn.Delete(bpq.GetQueueKey(bpq.config.Name))
+			err := txn.Delete(bpq.GetQueueKey(bpq.config.Name))
+			if err == badger.ErrTxnTooBig {
+				return nil
+			}
+			done = true
+			return err
+		})
 		if err != nil {
 			return err
 		}
-
-		return nil
-	})
-	if err != nil {
-		return err
 	}
 
 	bpq.StopAckQueueMonitoring()
-- 
2.43.0


From 40e488daebeddc3ddc11e578c8391b52c880cc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:05 +0000
Subject: [PATCH 06/21] fix: a queue does not load or delete messages of a
 queue whose name extends its own with a colon

---
 pkg/queue/badger_priority_queue.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 5866867..91089f0 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -189,6 +189,12 @@ func (bpq *BadgerPriorityQueue) GetMessagesKey(id uint64) []byte {
 	return addPrefix(bpq.getMessagesPrefix(), uint64ToBytes(id))
 }
 
+// isMessagesKey tells whether a key with the messages prefix belongs to this queue
+// and not to a queue whose name continues with a colon after this queue's name.
+func (bpq *BadgerPriorityQueue) isMessagesKey(prefix, key []byte) bool {
+	return len(key) == len(prefix)+8
+}
+
 func (bpq *BadgerPriorityQueue) Create(queueType, queueName string) error {
 	bpq.mu.Lock()
 	defer bpq.mu.Unlock()
@@ -226,7 +232,11 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 
 			prefix := bpq.getMessagesPrefix()
 			for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
-				err := txn.Delete(it.Item().KeyCopy(nil))
+				key := it.Item().KeyCopy(nil)
+				if !bpq.isMessagesKey(prefix, key) {
+					continue
+				}
+				err := txn.Delete(key)
 				if err == badger.ErrTxnTooBig {
 					// Commit what is deleted so far and go on in a new transaction
 					return nil
@@ -287,6 +297,9 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 			prefix := bpq.getMessagesPrefix()
 			for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
 				item := it.Item()
+				if !bpq.isMessagesKey(prefix, item.Key()) {
+					continue
+				}
 				err := item.Value(func(val []byte) error {
 					msg, err := MessageFromBytes(val)
 					if err != nil {
-- 
2.43.0


From ae7eb5cb4277aad157a5aaefa30fd8a92e0625a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:27 +0000
Subject: [PATCH 07/21] fix: keep a queue loaded from the storage

Every access to a queue that was not created by this process loaded a new copy
of it, so nothing remembered which messages were in flight.
---
 pkg/queue/queue_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/queue/queue_manager.go b/pkg/queue/queue_manager.go
index 7af8bf9..89272a0 100644
--- a/pkg/queue/queue_manager.go
+++ b/pkg/queue/queue_manager.go
@@ -114,7 +114,7 @@ func (qm *QueueManager) GetQueue(queueName string) (*BadgerPriorityQueue, error)
 		if err != nil {
 			return nil, ErrQueueNotFound
 		}
-		return q, nil
+		qm.queues[queueName] = q
 	}
 	return q, nil
 }
-- 
2.43.0


From 1112b818f1b7af21501c55e5a15f21328bb2a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:48 +0000
Subject: [PATCH 08/21] fix: a failed storage operation does not lose or
 release a message

Dequeue dropped the message it had taken from memory and ack released it when
the transaction failed; redelivery dropped it when it could not be read.
---
 pkg/queue/badger_priority_queue.go | 49 ++++++++++++++++++------------
 pkg/queue/fair_priority_queue.go   |  1 +
 pkg/queue/priority_queue.go        |  3 ++
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 91089f0..a34b6cc 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -151,6 +151,11 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 				message, err := bpq.GetByID(item.ID)
 				if err != nil {
 					log.Error().Err(err).Msgf("Failed to get message by ID: %d", item.ID)
+					if err != badger.ErrKeyNotFound {
+						// try again at the next check
+						bpq.ackQueue.Enqueue("default", item)
+						break
+					}
 					continue
 				}
 
@@ -383,35 +388,44 @@ func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
 			return err
 		}
 
-		item.Value(func(val []byte) error {
+		err = item.Value(func(val []byte) error {
 			msg, err = MessageFromBytes(val)
 			return err
 		})
+		if err != nil {
+			return err
+		}
 
 		if ack {
 			// in case of autoAck, we need to remove the message from the queue
 			return txn.Delete(bpq.GetMessagesKey(queueItem.ID))
-		} else {
-			// in case of manual ack, we need to keep the message in the queue
-			// so we can ack it later and add it to the ackQueue
-			bpq.ackQueue.Enqueue(
-				"default",
-				&Item{
-					ID: queueItem.ID,
-					Priority: time.Now().UTC().Add(
-						time.Duration(bpq.cfg.Queue.AcknowledgementTimeout) * time.Second,
-					).Unix(),
-				},
-			)
 		}
 
 		return nil
 	})
 
 	if err != nil {
+		if err != badger.ErrKeyNotFound {
+			// the message is still stored, keep it deliverable
+			bpq.pq.Enqueue(queueItem.group, queueItem)
+		}
 		return nil, err
 	}
 
+	if !ack {
+		// in case of manual ack, we need to keep the message in the queue
+		// so we can ack it later and add it to the ackQueue
+		bpq.ackQueue.Enqueue(
+			"default",
+			&Item{
+				ID: queueItem.ID,
+				Priority: time.Now().UTC().Add(
+					time.Duration(bpq.cfg.Queue.AcknowledgementTimeout) * time.Second,
+				).Unix(),
+			},
+		)
+	}
+
 	bpq.stats.IncrementDequeue()
 	if bpq.cfg.Prometheus.Enabled {
 		bpq.PrometheusMetrics.dequeueTotal.With(prometheus.Labels{"queue_name": bpq.config.Name}).Inc()
@@ -494,17 +508,12 @@ func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
 	}
 
 	err := bpq.db.Update(func(txn *badger.Txn) error {
-		err := txn.Delete(bpq.GetMessagesKey(queueItem.ID))
-		if err != nil {
-			return err
-		}
-		bpq.ackQueue.DeleteByID("default", queueItem.ID)
-
-		return nil
+		return txn.Delete(bpq.GetMessagesKey(queueItem.ID))
 	})
 	if err != nil {
 		return err
 	}
+	bpq.ackQueue.DeleteByID("default", queueItem.ID)
 
 	bpq.stats.IncrementAck()
 	if bpq.cfg.Prometheus.Enabled {
diff --git a/pkg/queue/fair_priority_queue.go b/pkg/queue/fair_priority_queue.go
index 223eebf..39e6243 100644
--- a/pkg/queue/fair_priority_queue.go
+++ b/pkg/queue/fair_priority_queue.go
@@ -113,6 +113,7 @@ func (fq *FairPriorityQueue) Enqueue(group string, item *Item) {
 			fq.roundRobin.Append(node)
 		}
 	}
+	item.group = group
 	heap.Push(fq.queues[group].Queue(), item)
 	fq.totalMessages++
 }
diff --git a/pkg/queue/priority_queue.go b/pkg/queue/priority_queue.go
index d16519e..ce87e7d 100644
--- a/pkg/queue/priority_queue.go
+++ b/pkg/queue/priority_queue.go
@@ -9,6 +9,9 @@ type Item struct {
 	ID       uint64
 	Priority int64
 	Group    int64
+
+	// group of a fair queue the item was enqueued to
+	group string
 }
 
 func (m *Item) UpdatePriority(newPriority int64) {
-- 
2.43.0


From 4a291f811c078afbef5e26f37735d55df05fab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:05 +0000
Subject: [PATCH 09/21] fix: client operations and background redelivery
 exclude each other

The redelivery check could take a message between the lookup and the change of
a nack or ack, so a message was enqueued twice or came back after its ack.
---
 pkg/queue/badger_priority_queue.go | 72 ++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index a34b6cc..38f4c47 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -107,6 +107,9 @@ func (bpq *BadgerPriorityQueue) Init(queueType, queueName string) error {
 }
 
 func (bpq *BadgerPriorityQueue) GetStats() *QueueInfo {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	return &QueueInfo{
 		Name:    bpq.config.Name,
 		Type:    bpq.config.Type,
@@ -142,34 +145,42 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 	for {
 		select {
 		case <-ticker.C:
-			for {
-				item := bpq.ackQueue.Dequeue()
-				if item == nil {
-					break
-				}
+			bpq.redeliverExpired()
+		case <-bpq.ackQueueMonitoringChan:
+			return
+		}
+	}
+}
 
-				message, err := bpq.GetByID(item.ID)
-				if err != nil {
-					log.Error().Err(err).Msgf("Failed to get message by ID: %d", item.ID)
-					if err != badger.ErrKeyNotFound {
-						// try again at the next check
-						bpq.ackQueue.Enqueue("default", item)
-						break
-					}
-					continue
-				}
+// redeliverExpired makes the messages whose acknowledgement timeout has passed deliverable again
+func (bpq *BadgerPriorityQueue) redeliverExpired() {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
 
-				queueItem := &Item{
-					ID:       message.ID,
-					Priority: message.Priority,
-				}
+	for {
+		item := bpq.ackQueue.Dequeue()
+		if item == nil {
+			break
+		}
 
-				bpq.pq.Enqueue(message.Group, queueItem)
-				log.Debug().Msgf("Re-enqueued message: %d", message.ID)
+		message, err := bpq.GetByID(item.ID)
+		if err != nil {
+			log.Error().Err(err).Msgf("Failed to get message by ID: %d", item.ID)
+			if err != badger.ErrKeyNotFound {
+				// try again at the next check
+				bpq.ackQueue.Enqueue("default", item)
+				break
 			}
-		case <-bpq.ackQueueMonitoringChan:
-			return
+			continue
+		}
+
+		queueItem := &Item{
+			ID:       message.ID,
+			Priority: message.Priority,
 		}
+
+		bpq.pq.Enqueue(message.Group, queueItem)
+		log.Debug().Msgf("Re-enqueued message: %d", message.ID)
 	}
 }
 
@@ -330,6 +341,9 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 }
 
 func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64, content string) (*Message, error) {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	if bpq.config.Type != "fair" {
 		group = "default"
 	}
@@ -371,6 +385,9 @@ func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64,
 }
 
 func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	if bpq.pq.Len() == 0 {
 		return nil, ErrEmptyQueue
 	}
@@ -457,6 +474,9 @@ func (bpq *BadgerPriorityQueue) GetByID(id uint64) (*Message, error) {
 }
 
 func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	group := "default"
 
 	// Update BadgerDB
@@ -501,6 +521,9 @@ func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) err
 }
 
 func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	queueItem := bpq.ackQueue.GetByID("default", id)
 
 	if queueItem == nil {
@@ -525,6 +548,9 @@ func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
 }
 
 func (bpq *BadgerPriorityQueue) Nack(id uint64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	item := bpq.ackQueue.GetByID("default", id)
 
 	if item == nil {
-- 
2.43.0


From 7eda1cea0a1b530aded92274aabe62c2181e884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:28 +0000
Subject: [PATCH 10/21] fix: queue statistics are consistent while the window
 moves and with an empty window size

A window size of zero made the statistics goroutine panic and the rates NaN.
---
 pkg/queue/queue_stats.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/queue/queue_stats.go b/pkg/queue/queue_stats.go
index fa32e8b..27280a1 100644
--- a/pkg/queue/queue_stats.go
+++ b/pkg/queue/queue_stats.go
@@ -1,6 +1,7 @@
 package queue
 
 import (
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -24,10 +25,17 @@ type queueStats struct {
 	nackHistory    []uint64
 	windowSize     int
 
+	// mu guards the histories
+	mu sync.Mutex
+
 	quit chan struct{}
 }
 
 func NewQueueStats(windowSize int) *queueStats {
+	if windowSize < 1 {
+		windowSize = 1
+	}
+
 	stats := &queueStats{
 		enqueueHistory: make([]uint64, windowSize),
 		dequeueHistory: make([]uint64, windowSize),
@@ -75,6 +83,9 @@ func (rc *queueStats) IncrementNack() {
 }
 
 func (rc *queueStats) UpdateWindow() {
+	rc.mu.Lock()
+	defer rc.mu.Unlock()
+
 	// Shift history to the left and store current counts
 	for i := 1; i < rc.windowSize; i++ {
 		rc.enqueueHistory[i-1] = rc.enqueueHistory[i]
@@ -89,6 +100,8 @@ func (rc *queueStats) UpdateWindow() {
 }
 
 func (rc *queueStats) GetRPS() *QueueStats {
+	rc.mu.Lock()
+	defer rc.mu.Unlock()
 
 	var totalEnqueue, totalDequeue, totalAck, totalNack uint64
 
-- 
2.43.0


From ff042670526ce29552c752b7a9c502f3aead9bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:32 +0000
Subject: [PATCH 11/21] fix: DeleteRange copies the keys it deletes instead of
 keeping the iterator's buffer

---
 pkg/badger-store/badger_store.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index 1f867a6..c55b507 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -224,7 +224,9 @@ func (b *BadgerStore) DeleteRange(min, max uint64) error {
 
 		for it.Seek(minKey); it.ValidForPrefix(dbLogs); it.Next() {
 			item := it.Item()
-			k := item.Key()
+			// the transaction keeps the key until the commit, while the slice
+			// returned by Key is only valid until the next call of Next
+			k := item.KeyCopy(nil)
 			lastKey = append([]byte{}, k...)
 
 			if bytesToUint64(k[len(dbLogs):]) > max {
-- 
2.43.0


From c052b6468d77b7089b0f4e4639f54e2cec9982ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:00 +0000
Subject: [PATCH 12/21] fix: gRPC proxy refuses a call without a known leader
 and connects once

---
 pkg/grpc/proxy.go | 77 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 24 deletions(-)

diff --git a/pkg/grpc/proxy.go b/pkg/grpc/proxy.go
index 24d9172..3f525ca 100644
--- a/pkg/grpc/proxy.go
+++ b/pkg/grpc/proxy.go
@@ -3,13 +3,17 @@ package grpc
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	pb "github.com/kgantsov/doq/pkg/proto"
 	"github.com/rs/zerolog/log"
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 )
 
 type GRPCProxy struct {
+	mu     sync.Mutex
 	client pb.DOQClient
 	leader string
 	port   int
@@ -22,9 +26,24 @@ func NewGRPCProxy(client pb.DOQClient, port int) *GRPCProxy {
 	}
 }
 
-func (p *GRPCProxy) initClient(leader string) {
-	p.leader = leader
+// getClient returns a client connected to the leader.
+func (p *GRPCProxy) getClient(leader string) (pb.DOQClient, error) {
+	if leader == "" {
+		return nil, status.Error(codes.Unavailable, "no leader is known")
+	}
+
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.leader != leader {
+		if err := p.initClient(leader); err != nil {
+			return nil, status.Errorf(codes.Unavailable, "failed to connect to the leader: %v", err)
+		}
+	}
+	return p.client, nil
+}
 
+func (p *GRPCProxy) initClient(leader string) error {
 	host := leader
 
 	if p.port != 0 {
@@ -33,72 +52,82 @@ func (p *GRPCProxy) initClient(leader string) {
 
 	conn, err := grpc.Dial(host, grpc.WithInsecure())
 	if err != nil {
-		log.Fatal().Msgf("Failed to connect: %v", err)
+		return err
 	}
 	// defer conn.Close()
 
+	p.leader = leader
 	p.client = pb.NewDOQClient(conn)
+
+	return nil
 }
 
 func (p *GRPCProxy) CreateQueue(ctx context.Context, host string, req *pb.CreateQueueRequest) (*pb.CreateQueueResponse, error) {
 	log.Debug().Msgf("PROXY CreateQueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.CreateQueue(ctx, req)
+	return client.CreateQueue(ctx, req)
 }
 
 func (p *GRPCProxy) DeleteQueue(ctx context.Context, host string, req *pb.DeleteQueueRequest) (*pb.DeleteQueueResponse, error) {
 	log.Debug().Msgf("PROXY DeleteQueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.DeleteQueue(ctx, req)
+	return client.DeleteQueue(ctx, req)
 }
 
 func (p *GRPCProxy) Enqueue(ctx context.Context, host string, req *pb.EnqueueRequest) (*pb.EnqueueResponse, error) {
 	log.Debug().Msgf("PROXY Enqueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Enqueue(ctx, req)
+	return client.Enqueue(ctx, req)
 }
 
 func (p *GRPCProxy) Dequeue(ctx context.Context, host string, req *pb.DequeueRequest) (*pb.DequeueResponse, error) {
 	log.Debug().Msgf("PROXY Dequeue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Dequeue(ctx, req)
+	return client.Dequeue(ctx, req)
 }
 
 func (p *GRPCProxy) Ack(ctx context.Context, host string, req *pb.AckRequest) (*pb.AckResponse, error) {
 	log.Debug().Msgf("PROXY Ack: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Ack(ctx, req)
+	return client.Ack(ctx, req)
 }
 
 func (p *GRPCProxy) Nack(ctx context.Context, host string, req *pb.NackRequest) (*pb.NackResponse, error) {
 	log.Debug().Msgf("PROXY Nack: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Nack(ctx, req)
+	return client.Nack(ctx, req)
 }
 
 func (p *GRPCProxy) UpdatePriority(ctx context.Context, host string, req *pb.UpdatePriorityRequest) (*pb.UpdatePriorityResponse, error) {
 	log.Debug().Msgf("PROXY UpdatePriority: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, err := p.getClient(host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.UpdatePriority(ctx, req)
+	return client.UpdatePriority(ctx, req)
 }
-- 
2.43.0


From 1863d41cbfde4d2bafb36d82604672cf9e9d665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:00 +0000
Subject: [PATCH 13/21] fix: HTTP proxy does not send a request to this node
 itself when no leader is known

---
 pkg/http/proxy.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pkg/http/proxy.go b/pkg/http/proxy.go
index d1053b5..6bc949f 100644
--- a/pkg/http/proxy.go
+++ b/pkg/http/proxy.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 
@@ -31,6 +32,16 @@ func (p *Proxy) getHost(host string) string {
 	return fmt.Sprintf("http://%s", host)
 }
 
+// do sends a request to the leader. Without a known leader the host is empty and
+// the request would go to this node itself.
+func (p *Proxy) do(req *http.Request) (*http.Response, error) {
+	if req.URL.Hostname() == "" {
+		return nil, errors.New("no leader is known")
+	}
+
+	return p.client.Do(req)
+}
+
 func (p *Proxy) CreateQueue(
 	ctx context.Context, host string, body *CreateQueueInputBody,
 ) (*CreateQueueOutputBody, huma.StatusError) {
@@ -51,7 +62,7 @@ func (p *Proxy) CreateQueue(
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-	resp, err := p.client.Do(req)
+	resp, err := p.do(req)
 	if err != nil {
 		return nil, huma.Error503ServiceUnavailable("Failed to proxy create queue request", err)
 	}
@@ -85,7 +96,7 @@ func (p *Proxy) DeleteQueue(
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-	resp, err := p.client.Do(req)
+	resp, err := p.do(req)
 	if err != nil {
 		return nil, huma.Error503ServiceUnavailable("Failed to proxy delete queue request", err)
 	}
@@ -120,7 +131,7 @@ func (p *Proxy) Enqueue(ctx context.Context, host string, queueName string, body
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-	resp, err := p.client.Do(req)
+	resp, err := p.do(req)
 	if err != nil {
 		return nil, huma.Error503ServiceUnavailable("Failed to proxy enqueue request", err)
 	}
@@ -159,7 +170,7 @@ func (p *Proxy) Dequeue(
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-	resp, err := p.client.Do(req)
+	resp, err := p.do(req)
 	if err != nil {
 		return nil, huma.Error503ServiceUnavailable("Failed to proxy enqueue request", err)
 	}
@@ -196,7 +207,7 @@ func (p *Proxy) Ack(
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-	resp, err := p.client.Do(req)
+	resp, err := p.do(req)
 	if err != nil {
 		return nil, huma.Error503ServiceUnavailable("Failed to proxy ack request", err)
 	}
@@ -234,7 +245,7 @@ func (p *Proxy) Nack(
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-	resp, err := p.client.Do(req)
+	resp, err := p.do(req)
 	if err != nil {
 		return nil, huma.Error503ServiceUnavailable("Failed to proxy nack request", err)
 	}
@@ -281,7 +292,7 @@ func (p *Proxy) UpdatePriority(
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-	resp, err := p.client.Do(req)
+	resp, err := p.do(req)
 	if err != nil {
 		return nil, huma.Error503ServiceUnavailable("Failed to proxy enqueue request", err)
 	}
-- 
2.43.0


From b9c54469e06154ea766a0541e70376d10dd9fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:00 +0000
Subject: [PATCH 14/21] fix: a loaded queue keeps its own copy of its name

---
 pkg/queue/queue_manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/queue/queue_manager.go b/pkg/queue/queue_manager.go
index 89272a0..33cca76 100644
--- a/pkg/queue/queue_manager.go
+++ b/pkg/queue/queue_manager.go
@@ -3,6 +3,7 @@ package queue
 import (
 	"fmt"
 	"sort"
+	"strings"
 	"sync"
 	"time"
 
@@ -109,6 +110,9 @@ func (qm *QueueManager) GetQueue(queueName string) (*BadgerPriorityQueue, error)
 
 	q, ok := qm.queues[queueName]
 	if !ok {
+		// the caller may reuse the memory of the name
+		queueName = strings.Clone(queueName)
+
 		q = NewBadgerPriorityQueue(qm.db, qm.config, qm.PrometheusMetrics)
 		err := q.Load(queueName, true)
 		if err != nil {
-- 
2.43.0


From f3489145abd08f3f8b906a776f0432d47ba5cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 15/21] fix: a node takes only an address of its own host as
 its identity

---
 pkg/cluster/cluster.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/cluster.go b/pkg/cluster/cluster.go
index 75561c9..d45526e 100644
--- a/pkg/cluster/cluster.go
+++ b/pkg/cluster/cluster.go
@@ -64,7 +64,7 @@ func (c *Cluster) Init() error {
 	for _, addr := range addrs {
 		log.Debug().Msgf("Discovered address: %s Current host: %s", addr, c.hostname)
 
-		if strings.HasPrefix(addr, c.hostname) {
+		if isHostAddr(addr, c.hostname) {
 			c.nodeID = addr
 		} else {
 			c.hosts = append(c.hosts, addr)
@@ -89,6 +89,16 @@ func (c *Cluster) Init() error {
 	return nil
 }
 
+// isHostAddr tells whether the host of the address is the given host, either by
+// its name alone or by a domain name of it.
+func isHostAddr(addr, hostname string) bool {
+	host, _, err := net.SplitHostPort(addr)
+	if err != nil {
+		host = addr
+	}
+	return host == hostname || strings.HasPrefix(host, hostname+".")
+}
+
 func (c *Cluster) InitKubeClient() error {
 	config, err := c.inClusterConfigFunc()
 	if err != nil {
-- 
2.43.0


From 6428ea580833533db8205b7a7756052160d80b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 16/21] fix: a new leader keeps its known IP when the lookup
 fails and publishes without a prior client

---
 pkg/cluster/cluster.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/cluster/cluster.go b/pkg/cluster/cluster.go
index d45526e..bec8ce2 100644
--- a/pkg/cluster/cluster.go
+++ b/pkg/cluster/cluster.go
@@ -105,10 +105,11 @@ func (c *Cluster) InitKubeClient() error {
 		return err
 	}
 
-	c.clientset, err = kubernetes.NewForConfig(config)
+	clientset, err := kubernetes.NewForConfig(config)
 	if err != nil {
 		return err
 	}
+	c.clientset = clientset
 
 	return nil
 }
@@ -130,8 +131,9 @@ func (c *Cluster) LeaderChanged(isLeader bool) {
 		ip, err := c.serviceDiscovery.IP()
 		if err != nil {
 			log.Error().Msgf("Couldn't lookup the IP: %v\n", err)
+		} else {
+			c.ip = ip
 		}
-		c.ip = ip
 
 		log.Info().Msgf("Leader changed, updating EndpointSlice with IP: %s\n", c.ip)
 
@@ -143,6 +145,12 @@ func (c *Cluster) LeaderChanged(isLeader bool) {
 }
 
 func (c *Cluster) UpdateServiceEndpointSlice() error {
+	if c.clientset == nil {
+		if err := c.InitKubeClient(); err != nil {
+			return err
+		}
+	}
+
 	err := c.clientset.DiscoveryV1().EndpointSlices(c.namespace).Delete(
 		context.TODO(), c.serviceName, metav1.DeleteOptions{},
 	)
-- 
2.43.0


From f4b83f580872b3ab9d68076b45378c60ad8d7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 17/21] fix: the config file given by the --config flag is read

---
 pkg/config/config.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 34361b6..2d4c909 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -105,7 +105,9 @@ func LoadConfig() (*Config, error) {
 	return &config, nil
 }
 
-func InitCobraCommand(runFunc func(cmd *cobra.Command, args []string)) *cobra.Command {
+// readConfigFile reads the config file. It runs after the flags are parsed, when
+// the file given by a flag is known.
+func readConfigFile() {
 	if cfgFile != "" {
 		// Use config file from the flag
 		viper.SetConfigFile(cfgFile)
@@ -115,13 +117,17 @@ func InitCobraCommand(runFunc func(cmd *cobra.Command, args []string)) *cobra.Co
 		viper.SetConfigName("config")
 	}
 
-	// Enable environment variable support
-	viper.AutomaticEnv()
-
 	// Read the config file if found
 	if err := viper.ReadInConfig(); err == nil {
 		// log.Warn().Msgf("Using config file: %s", viper.ConfigFileUsed())
 	}
+}
+
+func InitCobraCommand(runFunc func(cmd *cobra.Command, args []string)) *cobra.Command {
+	cobra.OnInitialize(readConfigFile)
+
+	// Enable environment variable support
+	viper.AutomaticEnv()
 
 	var rootCmd = &cobra.Command{
 		Use:   "doq",
-- 
2.43.0


From 85d2c1ba35c5cac3e7ded32f0a3aa21701702f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 18/21] fix: exported queue sizes follow redelivery and
 deletion

---
 pkg/queue/badger_priority_queue.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 38f4c47..e79d5e3 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -137,6 +137,16 @@ func (bpq *BadgerPriorityQueue) updatePrometheusQueueSizes() {
 	}
 }
 
+func (bpq *BadgerPriorityQueue) deletePrometheusQueueSizes() {
+	if bpq.cfg.Prometheus.Enabled {
+		labels := prometheus.Labels{"queue_name": bpq.config.Name}
+
+		bpq.PrometheusMetrics.messages.Delete(labels)
+		bpq.PrometheusMetrics.unackedMessages.Delete(labels)
+		bpq.PrometheusMetrics.readyMessages.Delete(labels)
+	}
+}
+
 func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 	ticker := time.NewTicker(
 		time.Duration(bpq.cfg.Queue.AcknowledgementCheckInterval) * time.Second,
@@ -182,6 +192,8 @@ func (bpq *BadgerPriorityQueue) redeliverExpired() {
 		bpq.pq.Enqueue(message.Group, queueItem)
 		log.Debug().Msgf("Re-enqueued message: %d", message.ID)
 	}
+
+	bpq.updatePrometheusQueueSizes()
 }
 
 func (bpq *BadgerPriorityQueue) StartAckQueueMonitoring() {
@@ -278,7 +290,7 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 
 	bpq.stats.Stop()
 
-	bpq.updatePrometheusQueueSizes()
+	bpq.deletePrometheusQueueSizes()
 
 	return nil
 }
-- 
2.43.0


From b703a20648cea7b33e5d8e405047367175172280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 19/21] fix: a node that has just lost leadership names itself,
 or the previous leader, as the leader for up to a second, so that its
 requests are forwarded to itself or to the wrong node

---
 pkg/raft/node.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index 4155827..df55b0c 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -167,7 +167,9 @@ func (node *Node) ListenToLeaderChanges() {
 }
 
 func (n *Node) Leader() string {
-	u, _ := url.ParseRequestURI(fmt.Sprintf("http://%s", n.leader))
+	// Ask Raft: what monitorLeadership saw last may be a leader of up to a second ago
+	leaderAddr, _ := n.Raft.LeaderWithID()
+	u, _ := url.ParseRequestURI(fmt.Sprintf("http://%s", leaderAddr))
 
 	return u.Hostname()
 }
-- 
2.43.0


From 46726baff1eb3c7b5ecc97131a6abf3000edd485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:59 +0000
Subject: [PATCH 20/21] fix: a node that boots alone publishes that it leads:
 the first leadership change is consumed while bootstrapping and its callback
 is never called

---
 pkg/raft/node.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index df55b0c..a68098a 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -284,6 +284,11 @@ func (n *Node) createRaftNode(nodeID, raftDir, raftPort string, queueManager *qu
 			} else {
 				log.Info().Msgf("Node %s lost leadership", nodeID)
 			}
+			// ListenToLeaderChanges will not see this change any more. A node
+			// that has peers leads itself only until it joins them.
+			if len(n.peers) == 0 {
+				n.leaderChangeFn(isLeader)
+			}
 			break
 		}
 	} else {
-- 
2.43.0


From 3f40d9ff6f992fc02262efdc7c0d99543be6d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:59 +0000
Subject: [PATCH 21/21] fix: the server does not start without an id generator
 (the error of InitIDGenerator was ignored)

---
 cmd/server/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 517b53e..2f6aaef 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -176,7 +176,9 @@ func Run(cmd *cobra.Command, args []string) {
 		log.Fatal().Msg(err.Error())
 	}
 
-	node.InitIDGenerator()
+	if err := node.InitIDGenerator(); err != nil {
+		log.Fatal().Msgf("failed to initialise the ID generator: %s", err)
+	}
 
 	if config.Grpc.Address != "" {
 		lis, err := net.Listen("tcp", config.Grpc.Address)
-- 
2.43.0

