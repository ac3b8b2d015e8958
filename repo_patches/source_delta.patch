From ba226669feb00ca59fba9f409e68e21f1d683afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 01/73] fix: RingBuf::resize could leave a capacity one byte
 below the requested size

The usable capacity is one less than the allocated size, so for a request of
exactly a power of two the new capacity was too small.
---
 source/cyCore/core/cyc_ring_buf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 09df78a..0d8d39e 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -34,7 +34,7 @@ void RingBuf::resize(size_t need_size)
 
 	//auto inc size
 	size_t new_size = 2;
-	while (new_size < need_size) new_size *= 2;
+	while (new_size <= need_size) new_size *= 2;
 
 	//copy old data
 	size_t old_size = size();
@@ -55,7 +55,7 @@ void RingBuf::resize(size_t need_size)
 void RingBuf::memcpy_into(const void *src, size_t count)
 {
 	if (get_free_size() < count) {
-		resize(size() + count + 1);
+		resize(size() + count);
 	}
 
 	char* csrc = (char*)src;
-- 
2.43.0


From 50568f45372bcb30f63630eb89d873077b51fa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 02/73] fix: RingBuf::search returned a position past the
 content for a match on the first byte

---
 source/cyCore/core/cyc_ring_buf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 0d8d39e..4939510 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -135,7 +135,7 @@ ssize_t RingBuf::search(size_t off, uint8_t data) const
 		const uint8_t* p = (uint8_t*)memchr(m_buf + read_off, (int)data, n);
 		if (p != nullptr) {
 			size_t pos = (size_t)(std::ptrdiff_t)(p - m_buf);
-			return (pos > m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
+			return (pos >= m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
 		}
 
 		read_off += n;
-- 
2.43.0


From 08a3204344e574b1e2c4fd249abf30d418755c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 03/73] fix: RingBuf::peek and checksum ran out of bounds when
 offset plus count overflowed

---
 source/cyCore/core/cyc_ring_buf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 4939510..9d918c0 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -153,7 +153,7 @@ size_t RingBuf::peek(size_t off, void* dst, size_t count) const
 {
 	size_t bytes_used = size();
 	if (off > bytes_used) return 0;
-	if (off + count > bytes_used) count = bytes_used - off;
+	if (count > bytes_used - off) count = bytes_used - off;
 	if (count == 0 || dst == 0) return 0;
 
 	char* cdst = (char*)dst;
@@ -368,7 +368,7 @@ uint32_t RingBuf::checksum(size_t off, size_t count) const
 
 	size_t bytes_used = size();
 	if (off > bytes_used) return adler;
-	if (off + count > bytes_used) return adler;
+	if (count > bytes_used - off) return adler;
 	if (count == 0) return adler;
 
 	size_t read_off = (m_read + off) % m_end;
-- 
2.43.0


From 9a78d789002a5289f592f892f85e75141d100e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 04/73] fix: RingBuf::read_socket without readv reported
 would-block as end of stream and hid bytes read before EOF or an error

---
 source/cyCore/core/cyc_ring_buf.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 9d918c0..11f842c 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -204,8 +204,7 @@ ssize_t RingBuf::read_socket(socket_t fd, bool extra_buf)
 	while (nwritten != (ssize_t)count)	{
 		ssize_t n = (ssize_t)std::min((ssize_t)(m_end - m_write), (ssize_t)(count - nwritten));
 		ssize_t len = socket_api::read(fd, m_buf + m_write, (ssize_t)n);
-		if (len == 0) return 0; //EOF
-		if (len < 0) return socket_api::is_lasterror_WOULDBLOCK() ? nwritten : len;
+		if (len <= 0) return nwritten > 0 ? nwritten : len; //EOF, would block or error
 
 		m_write += len;
 		nwritten += len;
@@ -220,8 +219,7 @@ ssize_t RingBuf::read_socket(socket_t fd, bool extra_buf)
 	//need read more data
 	if (extra_buf) {
 		ssize_t len = socket_api::read(fd, stack_buf, STACK_BUF_SIZE);
-		if (len == 0) return nwritten; //EOF
-		if (len < 0) return socket_api::is_lasterror_WOULDBLOCK() ? nwritten : len;
+		if (len <= 0) return nwritten > 0 ? nwritten : len; //EOF, would block or error
 		memcpy_into(stack_buf, len);
 		return nwritten + len;
 	}
-- 
2.43.0


From 8643e2b788a6fd0e63a6bc7ca9234d662916d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 05/73] fix: process_get_module_name left the name unterminated
 when it does not fit

A program with a name of 32 or more characters made the logger read past its
stack buffer.
---
 source/cyCore/core/cyc_system_api.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index e440d37..2cb7308 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -51,8 +51,8 @@ void process_get_module_name(char* module_name, size_t max_size)
 		proc_pidpath(process_get_id(), process_path_name, PROC_PIDPATHINFO_MAXSIZE);
 	#else
 		char process_path_name[256] = { 0 };
-		if (readlink("/proc/self/exe", process_path_name, 256)<0) {
-			strncpy(process_path_name, "unknown", 256);
+		if (readlink("/proc/self/exe", process_path_name, sizeof(process_path_name) - 1)<0) {
+			strncpy(process_path_name, "unknown", sizeof(process_path_name) - 1);
 		}
 	#endif
 	
@@ -60,7 +60,9 @@ void process_get_module_name(char* module_name, size_t max_size)
 	if (process_name != 0) process_name++;
 	else process_name = "unknown";
 
-	strncpy(module_name, process_name, max_size);
+	if (max_size == 0) return;
+	strncpy(module_name, process_name, max_size - 1);
+	module_name[max_size - 1] = 0;
 #endif
 
 }
-- 
2.43.0


From 857ae6e90f7ec74373d3a20dfd1298302b2bb80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 06/73] fix: logger used an unterminated host name when it is
 longer than its buffer

---
 source/cyCore/core/cyc_logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_logger.cpp b/source/cyCore/core/cyc_logger.cpp
index 270a42d..d08e328 100644
--- a/source/cyCore/core/cyc_logger.cpp
+++ b/source/cyCore/core/cyc_logger.cpp
@@ -43,8 +43,8 @@ struct DiskLogFile
 		sys_api::process_get_module_name(process_name, 32);
 		
 		//get host name
-		char host_name[32];
-		::gethostname(host_name, 32);
+		char host_name[32] = { 0 };
+		::gethostname(host_name, 31);
 
 		//get process id
 		pid_t process_id = sys_api::process_get_id();
-- 
2.43.0


From ca932aa6bf4d8b27aeb1c871e98e708d5662c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 07/73] fix: LockFreeQueue::push overwrote elements when the
 queue was full but its counter lagged

'continue' in the do-while ran the compare-and-swap of the loop condition, so a
push into a full queue whose counter was not above half reserved an occupied
slot; with small queues that happened even without concurrency.
---
 source/cyCore/core/cyc_lf_queue.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/cyCore/core/cyc_lf_queue.h b/source/cyCore/core/cyc_lf_queue.h
index be28def..f4c1c51 100644
--- a/source/cyCore/core/cyc_lf_queue.h
+++ b/source/cyCore/core/cyc_lf_queue.h
@@ -59,21 +59,23 @@ bool LockFreeQueue<ELEM_T, Q_SIZE>::push(const ELEM_T &data)
 	uint32_t currentReadIndex;
 	uint32_t currentWriteIndex;
 
-	do
+	for (;;)
 	{
 		currentWriteIndex = m_writeIndex;
 		currentReadIndex = m_readIndex;
 		if (_countToIndex(currentWriteIndex + 1) ==
 			_countToIndex(currentReadIndex))
 		{
-			if (m_count > (Q_SIZE >> 1))
+			if (m_writeIndex == currentWriteIndex)
 				// the queue is full
 				return false;
-			else
-				//maybe this thread was blocked between m_write_index.get() and m_read_index.get(), cause other threads write and read
-				continue;
+
+			//this thread was blocked between m_write_index.get() and m_read_index.get(), cause other threads write and read
+			continue;
 		}
-	} while (!atomic_compare_exchange(m_writeIndex, currentWriteIndex, (currentWriteIndex + 1)));
+
+		if (atomic_compare_exchange(m_writeIndex, currentWriteIndex, (currentWriteIndex + 1))) break;
+	}
 
 	// We know now that this index is reserved for us. Use it to save the data
 	m_queue[_countToIndex(currentWriteIndex)] = data;
-- 
2.43.0


From 8e444fa11f542e95286c564b81357e27a3be38c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 08/73] fix: LockFreeQueue::pop reported empty when a whole lap
 passed between reading its two indexes

---
 source/cyCore/core/cyc_lf_queue.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_lf_queue.h b/source/cyCore/core/cyc_lf_queue.h
index f4c1c51..7b49a53 100644
--- a/source/cyCore/core/cyc_lf_queue.h
+++ b/source/cyCore/core/cyc_lf_queue.h
@@ -111,8 +111,7 @@ bool LockFreeQueue<ELEM_T, Q_SIZE>::pop(ELEM_T &a_data)
 		currentReadIndex = m_readIndex;
 		currentMaximumReadIndex = m_maximumReadIndex;
 
-		if (_countToIndex(currentReadIndex) ==
-			_countToIndex(currentMaximumReadIndex))
+		if (currentReadIndex == currentMaximumReadIndex)
 		{
 			// the queue is empty or
 			// a producer thread has allocate space in the queue but is 
-- 
2.43.0


From d1fb15167e0f4f4f4bc377453be3b0c2ded2694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 09/73] fix: atomic_compare_exchange must not fail spuriously,
 WorkThread lost its only wakeup

---
 source/cyCore/core/cyc_atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_atomic.h b/source/cyCore/core/cyc_atomic.h
index 8288578..f1ff483 100644
--- a/source/cyCore/core/cyc_atomic.h
+++ b/source/cyCore/core/cyc_atomic.h
@@ -18,7 +18,7 @@ typedef std::atomic<bool>		atomic_bool_t;
 template<typename T>
 inline bool atomic_compare_exchange(std::atomic<T>& obj, T expected, T desired) 
 {
-	return obj.compare_exchange_weak(expected, desired);
+	return obj.compare_exchange_strong(expected, desired);
 }
 
 template<typename T>
-- 
2.43.0


From d2e66fd9580dc89370fb1fb7cc6dda8da10bffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:12 +0000
Subject: [PATCH 10/73] fix: WorkThread left a message unhandled when it was
 sent just before the queue was flagged empty

---
 source/cyEvent/event/cye_work_thread.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index 18c4040..25534e7 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -83,22 +83,22 @@ void WorkThread::_on_message(void)
 	for (;;) {
 		int8_t dummy;
 		if (m_pipe.read((char*)&dummy, sizeof(dummy)) <= 0) break;
+	}
 
-		for (;;) {
-			Packet* packet = nullptr;
-			if (!m_message_queue.pop(packet)) break;
+	//set empty flag before the queue is drained, a message pushed later will wakeup the looper again
+	m_is_queue_empty = true;
 
-			//call listener
-			if (m_on_message) {
-				m_on_message(packet);
-			}
+	for (;;) {
+		Packet* packet = nullptr;
+		if (!m_message_queue.pop(packet)) break;
 
-			Packet::free_packet(packet);
+		//call listener
+		if (m_on_message) {
+			m_on_message(packet);
 		}
-	}
 
-	//set empty flag
-	m_is_queue_empty = true;
+		Packet::free_packet(packet);
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 072ed5a11ebe13cc146262628ba1d6b2938a9e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:12 +0000
Subject: [PATCH 11/73] fix: WorkThread leaked messages that did not fit the
 queue or were never handled

---
 source/cyEvent/event/cye_work_thread.cpp | 28 +++++++++++++++++++++---
 source/cyEvent/event/cye_work_thread.h   |  6 +++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index 25534e7..e481134 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -23,6 +23,7 @@ WorkThread::WorkThread()
 WorkThread::~WorkThread()
 {
 	//TODO: stop the thread
+	_free_messages();
 }
 
 //-------------------------------------------------------------------------------------
@@ -107,7 +108,7 @@ void WorkThread::send_message(uint16_t id, uint16_t size_part1, const char* msg_
 	Packet* packet = Packet::alloc_packet();
 	packet->build_from_memory(MESSAGE_HEAD_SIZE, id, size_part1, msg_part1, size_part2, msg_part2);
 
-	m_message_queue.push(packet);
+	_push_message(packet);
 
 	_wakeup();
 }
@@ -116,7 +117,7 @@ void WorkThread::send_message(uint16_t id, uint16_t size_part1, const char* msg_
 void WorkThread::send_message(const Packet* message)
 {
 	Packet* packet = Packet::alloc_packet(message);
-	m_message_queue.push(packet);
+	_push_message(packet);
 	
 	_wakeup();
 }
@@ -126,7 +127,7 @@ void WorkThread::send_message(const Packet** message, int32_t counts)
 {
 	for (int32_t i = 0; i < counts; i++){
 		Packet* packet = Packet::alloc_packet(message[i]);
-		m_message_queue.push(packet);
+		_push_message(packet);
 	}
 
 	_wakeup();
@@ -138,6 +139,27 @@ void WorkThread::join(void)
 	if (m_thread != nullptr) {
 		sys_api::thread_join(m_thread);
 		m_thread = nullptr;
+
+		//nobody will handle the remaining messages
+		_free_messages();
+	}
+}
+
+//-------------------------------------------------------------------------------------
+void WorkThread::_push_message(Packet* packet)
+{
+	if (m_message_queue.push(packet)) return;
+
+	CY_LOG(L_ERROR, "message queue of work thread \"%s\" is full, message dropped", m_name.c_str());
+	Packet::free_packet(packet);
+}
+
+//-------------------------------------------------------------------------------------
+void WorkThread::_free_messages(void)
+{
+	Packet* packet = nullptr;
+	while (m_message_queue.pop(packet)) {
+		Packet::free_packet(packet);
 	}
 }
 
diff --git a/source/cyEvent/event/cye_work_thread.h b/source/cyEvent/event/cye_work_thread.h
index ede4e38..c091e02 100644
--- a/source/cyEvent/event/cye_work_thread.h
+++ b/source/cyEvent/event/cye_work_thread.h
@@ -69,6 +69,12 @@ private:
 
 	/// wakeup the looper
 	void _wakeup(void);
+
+	/// push packet to the queue, free it if the queue is full
+	void _push_message(Packet* packet);
+
+	/// free all unhandled messages
+	void _free_messages(void);
 public:
 	WorkThread();
 	virtual ~WorkThread();
-- 
2.43.0


From 578798ddd7b1a1e9ef374d79381846b15980c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 12/73] fix: Looper called callbacks through a table that
 callbacks change, and for reused slots

---
 source/cyEvent/event/cye_looper.cpp | 45 +++++++++++++++++++----------
 source/cyEvent/event/cye_looper.h   |  2 ++
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index b31aa53..22052f9 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -56,6 +56,7 @@ Looper::event_id_t Looper::register_event(socket_t sockfd,
 	channel.param = param;
 	channel.active = false;
 	channel.timer = false;
+	channel.register_round = m_loop_counts;
 	channel.on_read = _on_read;
 	channel.on_write = _on_write;
 
@@ -93,6 +94,7 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 	channel.param = timer;
 	channel.active = false;
 	channel.timer = true;
+	channel.register_round = m_loop_counts;
 	channel.on_read = _on_timer_event_callback;
 	channel.on_write = 0;
 
@@ -254,6 +256,28 @@ void Looper::disable_all(event_id_t id)
         _update_channel_remove_event(channel, kWrite);
 }
 
+//-------------------------------------------------------------------------------------
+void Looper::_dispatch_event(event_id_t id, event_t event)
+{
+	event_callback callback;
+	socket_t fd;
+	void* param;
+	{
+		sys_api::auto_mutex lock(m_lock);
+		const channel_s& channel = m_channelBuffer[id];
+
+		//disabled or deleted by other callback, or the slot was reused after this round of poll
+		if ((channel.event & event) == 0 || channel.register_round == m_loop_counts) return;
+
+		//the channel buffer may be changed by the callback, so we need call a copy of it
+		callback = (event == kRead) ? channel.on_read : channel.on_write;
+		fd = channel.fd;
+		param = channel.param;
+	}
+
+	if (callback) callback(id, fd, event, param);
+}
+
 //-------------------------------------------------------------------------------------
 void Looper::loop(void)
 {
@@ -284,10 +308,7 @@ void Looper::loop(void)
 		//reactor
 		for (size_t i = 0; i < readList.size(); i++)
 		{
-			channel_s* c = &(m_channelBuffer[readList[i]]);
-			if (c->on_read == 0 || (c->event & kRead) == 0) continue;
-
-			c->on_read(c->id, c->fd, kRead, c->param);
+			_dispatch_event(readList[i], kRead);
 
 			if (is_quit_pending()) break;
 		}
@@ -296,10 +317,7 @@ void Looper::loop(void)
 
 		for (size_t i = 0; i < writeList.size(); i++)
 		{
-			channel_s* c = &(m_channelBuffer[writeList[i]]);
-			if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
-
-			c->on_write(c->id, c->fd, kWrite, c->param);
+			_dispatch_event(writeList[i], kWrite);
 
 			if (is_quit_pending()) break;
 		}
@@ -331,20 +349,14 @@ void Looper::step(void)
 	//reactor
 	for (size_t i = 0; i < readList.size(); i++)
 	{
-		channel_s* c = &(m_channelBuffer[readList[i]]);
-		if (c->on_read == 0 || (c->event & kRead) == 0) continue;
-
-		c->on_read(c->id, c->fd, kRead, c->param);
+		_dispatch_event(readList[i], kRead);
 
 		if (is_quit_pending()) return;
 	}
 
 	for (size_t i = 0; i < writeList.size(); i++)
 	{
-		channel_s* c = &(m_channelBuffer[writeList[i]]);
-		if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
-
-		c->on_write(c->id, c->fd, kWrite, c->param);
+		_dispatch_event(writeList[i], kWrite);
 
 		if (is_quit_pending()) return;
 	}
@@ -387,6 +399,7 @@ Looper::event_id_t Looper::_get_free_slot(void)
 			channel.param = nullptr;
 			channel.active = false;
 			channel.timer = false;
+			channel.register_round = 0;
 
 			channel.on_read = nullptr;
 			channel.on_write = nullptr;
diff --git a/source/cyEvent/event/cye_looper.h b/source/cyEvent/event/cye_looper.h
index 16815d6..a97ee1c 100644
--- a/source/cyEvent/event/cye_looper.h
+++ b/source/cyEvent/event/cye_looper.h
@@ -95,6 +95,7 @@ protected:
 		void *param;
 		bool active;
 		bool timer;
+		uint64_t register_round;	//loop counts when this channel was registered
 
 		event_callback on_read;
 		event_callback on_write;
@@ -153,6 +154,7 @@ protected:
 
 private:
 	event_id_t _get_free_slot(void);
+	void _dispatch_event(event_id_t id, event_t event);
 };
 
 }
-- 
2.43.0


From e0acd4625ca42c7c9571b2be1c3b919a9899e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 13/73] fix: Looper used a timer's callback after the callback
 deleted its own timer

---
 source/cyEvent/event/cye_looper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 22052f9..2d1b798 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -437,8 +437,10 @@ void Looper::_on_timer_event_callback(event_id_t id, socket_t fd, event_t event,
 	socket_api::read(fd, &touch, sizeof(touch));
 #endif
 
-	if (timer->on_timer) {
-		timer->on_timer(id, timer->param);
+	//the timer may be deleted by the callback
+	timer_callback on_timer = timer->on_timer;
+	if (on_timer) {
+		on_timer(id, timer->param);
 	}
 }
 
-- 
2.43.0


From 3c845cf8c0eef965e4be53b6d32fd181f2f165ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 14/73] fix: Looper lost a stop request pushed while it enters
 or leaves loop()

---
 source/cyEvent/event/cye_looper.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 2d1b798..44127df 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -288,13 +288,17 @@ void Looper::loop(void)
 
 	//register inner pipe first
 	Pipe inner_pipe;
-	m_inner_pipe = &inner_pipe;
-	Looper::event_id_t inner_event_id = register_event(m_inner_pipe->get_read_port(), kRead, this, _on_inner_pipe_touched, 0);
+	{
+		sys_api::auto_mutex lock(m_lock);
+		m_inner_pipe = &inner_pipe;
+	}
+	Looper::event_id_t inner_event_id = register_event(inner_pipe.get_read_port(), kRead, this, _on_inner_pipe_touched, 0);
 
 	channel_list readList;
 	channel_list writeList;
 
-	for (;;)
+	//quit request may be pushed before the inner pipe was ready
+	while (!is_quit_pending())
 	{
 		readList.clear();
 		writeList.clear();
@@ -327,6 +331,8 @@ void Looper::loop(void)
 
 	//it's the time to shutdown everything...
 	delete_event(inner_event_id);
+
+	sys_api::auto_mutex lock(m_lock);
 	m_inner_pipe = nullptr;
 }
 
@@ -366,6 +372,8 @@ void Looper::step(void)
 void Looper::push_stop_request(void)
 {
 	m_quit_cmd = 1;
+
+	sys_api::auto_mutex lock(m_lock);
 	_touch_inner_pipe();
 }
 
-- 
2.43.0


From 0e33d7155f582a89e235f33e6fb1553b4cafcae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 15/73] fix: Looper_epoll read channels without lock while
 other threads update them

---
 source/cyEvent/event/internal/cye_looper_epoll.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cyEvent/event/internal/cye_looper_epoll.cpp b/source/cyEvent/event/internal/cye_looper_epoll.cpp
index 202f362..f42443a 100644
--- a/source/cyEvent/event/internal/cye_looper_epoll.cpp
+++ b/source/cyEvent/event/internal/cye_looper_epoll.cpp
@@ -48,7 +48,8 @@ void Looper_epoll::_poll(
 		return;
 	}
 
-	//fill active channels
+	//fill active channels(events can be enabled or disabled by other threads)
+	sys_api::auto_mutex lock(m_lock);
 	for (int i = 0; i < num_events; i++)
 	{
 		const epoll_event& event = m_events[(size_t)i];
-- 
2.43.0


From 41e406ff3c0035983ed78aba00b77c5f6b35f585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 16/73] fix: Looper_select read channels without lock while
 other threads update them

---
 .../event/internal/cye_looper_select.cpp        | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/source/cyEvent/event/internal/cye_looper_select.cpp b/source/cyEvent/event/internal/cye_looper_select.cpp
index 9367c00..2bbcdc3 100644
--- a/source/cyEvent/event/internal/cye_looper_select.cpp
+++ b/source/cyEvent/event/internal/cye_looper_select.cpp
@@ -34,6 +34,8 @@ void Looper_select::_poll(
 	channel_list& writeChannelList,
 	bool block)
 {
+	//events can be enabled or disabled by other threads
+	sys_api::mutex_lock(m_lock);
 #ifndef CY_SYS_WINDOWS
 	if (m_max_fd == INVALID_SOCKET)
 	{
@@ -55,10 +57,14 @@ void Looper_select::_poll(
 	m_work_write_fd_set = m_master_write_fd_set;
 #ifdef CY_SYS_WINDOWS
 	m_work_expt_fd_set = m_master_read_fd_set;
+#else
+	const int max_fd = (int)m_max_fd;
 #endif
+	const bool empty_set = (m_max_read_counts <= 0 && m_max_write_counts <= 0);
+	sys_api::mutex_unlock(m_lock);
 
 	int ready = 0;
-	if (m_max_read_counts > 0 || m_max_write_counts>0)
+	if (!empty_set)
 	{
 		timeval time_out = { 0, 0 };
 		ready = ::select(
@@ -67,7 +73,7 @@ void Looper_select::_poll(
 			&m_work_read_fd_set, &m_work_write_fd_set, &m_work_expt_fd_set, 
 			block ? 0 : &time_out);
 #else
-			(int)(m_max_fd + 1), 
+			max_fd + 1,
 			&m_work_read_fd_set, &m_work_write_fd_set, 0, 
 			block ? 0 : &time_out);
 #endif
@@ -101,6 +107,7 @@ void Looper_select::_poll(
 	}
 	else
 	{
+		sys_api::auto_mutex lock(m_lock);
 		for (event_id_t i = m_active_head; i != INVALID_EVENT_ID;)
 		{
 			channel_s& channel = m_channelBuffer[i];
@@ -111,17 +118,11 @@ void Looper_select::_poll(
 #endif
 				)
 			{
-				assert(channel.event & kRead);
-				assert(channel.on_read);
-
 				readChannelList.push_back(i);
 			}
 
 			if (FD_ISSET(channel.fd, &m_work_write_fd_set))
 			{
-				assert(channel.event & kWrite);
-				assert(channel.on_write);
-
 				writeChannelList.push_back(i);
 			}
 
-- 
2.43.0


From 281cdf2465369154559b2245cd4ee5bec2c9e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 17/73] fix: Looper_select took every descriptor as ready when
 select() failed or was interrupted

---
 source/cyEvent/event/internal/cye_looper_select.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyEvent/event/internal/cye_looper_select.cpp b/source/cyEvent/event/internal/cye_looper_select.cpp
index 2bbcdc3..7b6340d 100644
--- a/source/cyEvent/event/internal/cye_looper_select.cpp
+++ b/source/cyEvent/event/internal/cye_looper_select.cpp
@@ -84,9 +84,9 @@ void Looper_select::_poll(
 		sys_api::thread_sleep(1);
 	}
 
-	int err = (ready < -1) ? socket_api::get_lasterror() : 0;
+	int err = (ready < 0) ? socket_api::get_lasterror() : 0;
 
-	if (err < 0)
+	if (err != 0)
 	{
 		if(err==
 #ifdef CY_SYS_WINDOWS
-- 
2.43.0


From c69b778a7a1c217ad203e94f6cacb6496f49165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 18/73] fix: Looper_select stopped watching larger descriptors
 after the largest one was removed and another added

---
 source/cyEvent/event/internal/cye_looper_select.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyEvent/event/internal/cye_looper_select.cpp b/source/cyEvent/event/internal/cye_looper_select.cpp
index 7b6340d..60a263b 100644
--- a/source/cyEvent/event/internal/cye_looper_select.cpp
+++ b/source/cyEvent/event/internal/cye_looper_select.cpp
@@ -193,7 +193,7 @@ void Looper_select::_update_channel_add_event(channel_s& channel, event_t event)
 		channel.event |= kRead;
 		_insert_to_active_list(channel);
 #ifndef CY_SYS_WINDOWS
-		if (m_max_fd == INVALID_SOCKET || m_max_fd < fd)  m_max_fd = fd;
+		if (m_max_fd != INVALID_SOCKET && m_max_fd < fd)  m_max_fd = fd; //otherwise recount it before next select
 #endif
 	}
 	
@@ -204,7 +204,7 @@ void Looper_select::_update_channel_add_event(channel_s& channel, event_t event)
 		channel.event |= kWrite;
 		_insert_to_active_list(channel);
 #ifndef CY_SYS_WINDOWS
-		if (m_max_fd == INVALID_SOCKET || m_max_fd < fd)  m_max_fd = fd;
+		if (m_max_fd != INVALID_SOCKET && m_max_fd < fd)  m_max_fd = fd; //otherwise recount it before next select
 #endif
 	}
 
-- 
2.43.0


From 654129c8aa319bd4c4e82acd073774aae5d819a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 19/73] fix: Looper_select wrote outside fd_set for descriptors
 not below FD_SETSIZE

---
 source/cyEvent/event/internal/cye_looper_select.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/cyEvent/event/internal/cye_looper_select.cpp b/source/cyEvent/event/internal/cye_looper_select.cpp
index 60a263b..a97af78 100644
--- a/source/cyEvent/event/internal/cye_looper_select.cpp
+++ b/source/cyEvent/event/internal/cye_looper_select.cpp
@@ -178,6 +178,15 @@ void Looper_select::_update_channel_add_event(channel_s& channel, event_t event)
 	if (channel.event == event || event == kNone) return;
 	socket_t fd = channel.fd;
 
+#ifndef CY_SYS_WINDOWS
+	if (fd < 0 || fd >= FD_SETSIZE)
+	{
+		//log error, descriptor out of the range of fd_set
+		CY_LOG(L_ERROR, "select() can't handle descriptor %d, it must be less than FD_SETSIZE(%d)", fd, FD_SETSIZE);
+		return;
+	}
+#endif
+
 	if (((event & kRead) && m_max_read_counts >= FD_SETSIZE)
 		|| ((event & kWrite) && m_max_write_counts >= FD_SETSIZE))
 	{
-- 
2.43.0


From 1d3d10dbb89c49580fcfbe5f478c441236dd0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 20/73] fix: TcpConnection counted failed writes in its write
 statistics

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index a310074..687a732 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -249,7 +249,7 @@ void TcpConnection::_on_socket_write(void)
 				//log error
 				CY_LOG(L_ERROR, "write socket error, err=%d", socket_api::get_lasterror());
 			}
-			if (m_write_statistics) {
+			else if (m_write_statistics) {
 				m_write_statistics->push(len);
 			}
 		}
-- 
2.43.0


From 25f60681e5c177cd4c95962b4323c6fc4466df52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 21/73] fix: TcpConnection closed a healthy connection when a
 read was interrupted or would block

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 687a732..43a50f9 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -209,6 +209,11 @@ void TcpConnection::_on_socket_read(void)
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 
 	ssize_t len = m_read_buf.read_socket(m_socket);
+#ifdef CY_SYS_WINDOWS
+	const bool would_block = (len < 0) && socket_api::is_lasterror_WOULDBLOCK();
+#else
+	const bool would_block = (len < 0) && (socket_api::is_lasterror_WOULDBLOCK() || socket_api::get_lasterror() == EINTR);
+#endif
 	m_readbuf_minmax_size.update(m_read_buf.size());
 	if (len > 0)
 	{
@@ -225,7 +230,7 @@ void TcpConnection::_on_socket_read(void)
 		//the connection was closed by peer, close now!
 		_on_socket_close();
 	}
-	else
+	else if (!would_block)
 	{
 		//error!
 		_on_socket_error();
-- 
2.43.0


From 1cf231e0213026718dc0e1c5785ce81363cf1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 22/73] fix: TcpConnection used its event and write buffer
 after close when other threads send

---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 43a50f9..2a70859 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -74,7 +74,10 @@ TcpConnection::~TcpConnection()
 	assert(get_state()==kDisconnected);
 	assert(m_socket == INVALID_SOCKET);
 	assert(m_event_id == Looper::INVALID_EVENT_ID);
-	assert(m_write_buf_lock == nullptr);
+
+	//destroy write buf lock
+	sys_api::mutex_destroy(m_write_buf_lock);
+	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
@@ -94,6 +97,10 @@ void TcpConnection::send(const char* buf, size_t len)
 	}
 	else
 	{
+		//write to output buf
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//check it with lock, the connection may be closed by work thread
 		if (get_state() != kConnected)
 		{
 			//log error, give up send message
@@ -101,9 +108,6 @@ void TcpConnection::send(const char* buf, size_t len)
 			return;
 		}
 
-		//write to output buf
-		sys_api::auto_mutex lock(m_write_buf_lock);
-
 		//write to write buffer
 		m_write_buf.memcpy_into(buf, len);
 
@@ -287,13 +291,18 @@ void TcpConnection::_on_socket_close(void)
 
 	TcpConnectionPtr thisPtr = shared_from_this();
 
-	//disable all event
-	m_state = kDisconnected;
+	{
+		//other thread may be sending message
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//disable all event
+		m_state = kDisconnected;
+
+		//delete looper event
+		m_looper->delete_event(m_event_id);
+		m_event_id = Looper::INVALID_EVENT_ID;
+	}
 
-	//delete looper event
-	m_looper->delete_event(m_event_id);
-	m_event_id = Looper::INVALID_EVENT_ID;
-	
 	//logic callback
 	if (m_on_close) {
 		m_on_close(thisPtr);
@@ -306,10 +315,6 @@ void TcpConnection::_on_socket_close(void)
 	//close socket
 	socket_api::close_socket(m_socket);
 	m_socket = INVALID_SOCKET;
-
-	//destroy write buf lock
-	sys_api::mutex_destroy(m_write_buf_lock);
-	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 650c953fa275d1ba73c67282e9dbb25eb22abb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 23/73] fix: TcpConnection::shutdown dropped a message sent by
 other thread at the same time

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 2a70859..f059ea6 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -196,12 +196,16 @@ void TcpConnection::shutdown(void)
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	assert(m_state == kConnected || m_state==kDisconnecting);
 
-	//set the state to disconnecting...
-	m_state = kDisconnecting;
+	{
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//set the state to disconnecting...
+		m_state = kDisconnecting;
+
+		//something still working? wait 
+		if (m_looper->is_write(m_event_id) && !m_write_buf.empty()) return;
+	}
 
-	//something still working? wait 
-	if (m_looper->is_write(m_event_id) && !_is_writeBuf_empty()) return;
-	
 	//ok, we can close the socket now
 	socket_api::shutdown(m_socket);
 	_on_socket_close();
-- 
2.43.0


From a3bea7b272ed97e4a530461f10edeac7ae5129b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 24/73] fix: TcpConnection mixed a message of the work thread
 with one sent by other thread

---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 61 +++++++++----------
 source/cyNetwork/network/cyn_tcp_connection.h |  3 -
 2 files changed, 29 insertions(+), 35 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index f059ea6..134c280 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -117,13 +117,6 @@ void TcpConnection::send(const char* buf, size_t len)
 	}
 }
 
-//-------------------------------------------------------------------------------------
-bool TcpConnection::_is_writeBuf_empty(void) const
-{
-	sys_api::auto_mutex lock(m_write_buf_lock);
-	return  m_write_buf.empty();
-}
-
 //-------------------------------------------------------------------------------------
 void TcpConnection::_send(const char* buf, size_t len)
 {
@@ -140,36 +133,46 @@ void TcpConnection::_send(const char* buf, size_t len)
 		return;
 	}
 
-	//nothing in write buf, send it directly
-	if (!(m_looper->is_write(m_event_id)) && _is_writeBuf_empty())
 	{
-		nwrote = socket_api::write(m_socket, buf, len);
-		if (nwrote >= 0)
+		//other threads must not put message into write buf until the whole message was sent or buffered
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//nothing in write buf, send it directly
+		if (!(m_looper->is_write(m_event_id)) && m_write_buf.empty())
 		{
-			if (m_write_statistics) {
-				m_write_statistics->push(nwrote);
+			nwrote = socket_api::write(m_socket, buf, len);
+			if (nwrote >= 0)
+			{
+				if (m_write_statistics) {
+					m_write_statistics->push(nwrote);
+				}
+				remaining = len - (size_t)nwrote;
 			}
-			remaining = len - (size_t)nwrote;
-		}
-		else
-		{
-			nwrote = 0;
-			int err = socket_api::get_lasterror();
-
-			if(!socket_api::is_lasterror_WOULDBLOCK())
+			else
 			{
-				CY_LOG(L_ERROR, "socket send error, err=%d", err);
+				nwrote = 0;
+				int err = socket_api::get_lasterror();
+
+				if(!socket_api::is_lasterror_WOULDBLOCK())
+				{
+					CY_LOG(L_ERROR, "socket send error, err=%d", err);
 
 #ifdef CY_SYS_WINDOWS
-				if (err == WSAESHUTDOWN || err == WSAENETRESET)
+					if (err == WSAESHUTDOWN || err == WSAENETRESET)
 #else
-				if (err == EPIPE || err == ECONNRESET)
+					if (err == EPIPE || err == ECONNRESET)
 #endif
-				{
-					faultError = true;
+					{
+						faultError = true;
+					}
 				}
 			}
 		}
+
+		if (!faultError && remaining > 0) {
+			//write to write buffer
+			m_write_buf.memcpy_into(buf + nwrote, remaining);
+		}
 	}
 
 	//shutdown if socket work with fault
@@ -180,12 +183,6 @@ void TcpConnection::_send(const char* buf, size_t len)
 		return;
 	}
 
-	if (remaining > 0) {
-		sys_api::auto_mutex lock(m_write_buf_lock);
-		//write to write buffer
-		m_write_buf.memcpy_into(buf + nwrote, remaining);
-	}
-
 	//enable write event, wait socket ready
 	m_looper->enable_write(m_event_id);
 }
diff --git a/source/cyNetwork/network/cyn_tcp_connection.h b/source/cyNetwork/network/cyn_tcp_connection.h
index 79bb791..691c4f3 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.h
+++ b/source/cyNetwork/network/cyn_tcp_connection.h
@@ -115,9 +115,6 @@ private:
 	/// send message (not thread safe, must int work thread)
 	void _send(const char* buf, size_t len);
 
-	//// is write buf empty(thread safe)
-	bool _is_writeBuf_empty(void) const;
-
 public:
 	// record the max size of read buf and write buf
 	size_t get_readebuf_max_size(void) const { return m_readbuf_minmax_size.max(); }
-- 
2.43.0


From 0786f2dbaf9fb949422f58994a0cce0a20da33a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 25/73] fix: TcpConnection::send closed a broken connection
 inside the call, even before its connected callback

---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 25 +++----------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 134c280..16a8e11 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -122,7 +122,6 @@ void TcpConnection::_send(const char* buf, size_t len)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 
-	bool faultError = false;
 	size_t remaining = len;
 	ssize_t nwrote = 0;
 
@@ -151,38 +150,20 @@ void TcpConnection::_send(const char* buf, size_t len)
 			else
 			{
 				nwrote = 0;
-				int err = socket_api::get_lasterror();
-
 				if(!socket_api::is_lasterror_WOULDBLOCK())
 				{
-					CY_LOG(L_ERROR, "socket send error, err=%d", err);
-
-#ifdef CY_SYS_WINDOWS
-					if (err == WSAESHUTDOWN || err == WSAENETRESET)
-#else
-					if (err == EPIPE || err == ECONNRESET)
-#endif
-					{
-						faultError = true;
-					}
+					//if the connection is broken, it will be closed by the next read event
+					CY_LOG(L_ERROR, "socket send error, err=%d", socket_api::get_lasterror());
 				}
 			}
 		}
 
-		if (!faultError && remaining > 0) {
+		if (remaining > 0) {
 			//write to write buffer
 			m_write_buf.memcpy_into(buf + nwrote, remaining);
 		}
 	}
 
-	//shutdown if socket work with fault
-	if (faultError) {
-		m_looper->disable_all(m_event_id);
-		shutdown();
-
-		return;
-	}
-
 	//enable write event, wait socket ready
 	m_looper->enable_write(m_event_id);
 }
-- 
2.43.0


From de0b46176f40a62c48f83367fb267e79a6bdc104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 26/73] fix: writing to a connection reset by its peer
 terminated the process with SIGPIPE

---
 source/cyCore/core/cyc_socket_api.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 26976dd..2db10c7 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -9,6 +9,7 @@ Copyright(C) thecodeway.com
 #else
 #include <netdb.h>
 #include <netinet/tcp.h>
+#include <signal.h>
 #endif
 #include <fcntl.h>
 
@@ -39,6 +40,24 @@ static const _auto_init_win_socke_s& AUTO_INIT_WIN_SOCKET()
 
 #endif
 
+#ifndef CY_SYS_WINDOWS
+//-------------------------------------------------------------------------------------
+//write to a socket closed by peer should return EPIPE, and not terminate the process
+class _ignore_sigpipe_s
+{
+public:
+	_ignore_sigpipe_s() {
+		struct sigaction action;
+		if (::sigaction(SIGPIPE, nullptr, &action) == 0 &&
+			(action.sa_flags & SA_SIGINFO) == 0 && action.sa_handler == SIG_DFL)
+		{
+			::signal(SIGPIPE, SIG_IGN);
+		}
+	}
+};
+static const _ignore_sigpipe_s s_ignore_sigpipe;
+#endif
+
 //-------------------------------------------------------------------------------------
 void global_init(void)
 {
-- 
2.43.0


From 6b76f54a30e4e9916bc6cd585e8e70e53d2545c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 27/73] fix: missing log arguments when setsockopt fails

---
 source/cyCore/core/cyc_socket_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 2db10c7..6cd8ed9 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -280,7 +280,7 @@ bool setsockopt(socket_t s, int level, int optname, const void *optval, size_t o
 {
 	if (0 != ::setsockopt(s, level, optname, (const char*)optval, (socklen_t)optlen))
 	{
-		CY_LOG(L_ERROR, "socket_api::setsockopt, level=%d, optname=%d, err=%d", get_lasterror());
+		CY_LOG(L_ERROR, "socket_api::setsockopt, level=%d, optname=%d, err=%d", level, optname, get_lasterror());
 		return false;
 	}
 	return true;
-- 
2.43.0


From 8c35859b2d741ccb96de4d5a8c45e6b5329899d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 28/73] fix: Address of a socket end had an undefined value
 when the look-up failed

---
 source/cyNetwork/network/cyn_address.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cyNetwork/network/cyn_address.cpp b/source/cyNetwork/network/cyn_address.cpp
index 8b7c56b..6d31e23 100644
--- a/source/cyNetwork/network/cyn_address.cpp
+++ b/source/cyNetwork/network/cyn_address.cpp
@@ -55,6 +55,8 @@ Address& Address::operator=(const Address& other)
 //-------------------------------------------------------------------------------------
 Address::Address(bool peer, socket_t sfd)
 {
+	memset(&m_address, 0, sizeof m_address);
+	m_address.sin_family = AF_INET;
 	if (peer)
 		socket_api::getpeername(sfd, m_address);
 	else
-- 
2.43.0


From 981fcb923d687983c8c5e6b38a25a21fdbfc0a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 29/73] fix: TcpServer::get_bind_address returned an undefined
 value for a port no longer listened to

---
 .../cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 84ab628..88de48d 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -110,7 +110,7 @@ Address TcpServerMasterThread::get_bind_address(size_t index)
 	if (index >= m_acceptor_sockets.size()) return address;
 
 	sockaddr_in addr;
-	socket_api::getsockname(std::get<0>(m_acceptor_sockets[index]), addr);
+	if (!socket_api::getsockname(std::get<0>(m_acceptor_sockets[index]), addr)) return address;
 
 	return Address(addr);
 }
-- 
2.43.0


From 7b9c7f31138cbea9bef242e4eb8a7897b84974e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 30/73] fix: Pipe used and closed undefined descriptors when it
 could not be created

---
 source/cyEvent/event/cye_pipe.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cyEvent/event/cye_pipe.cpp b/source/cyEvent/event/cye_pipe.cpp
index 9f9ffe0..5ba012e 100644
--- a/source/cyEvent/event/cye_pipe.cpp
+++ b/source/cyEvent/event/cye_pipe.cpp
@@ -83,6 +83,8 @@ void Pipe::destroy_socket_pipe(pipe_port_t handles[2])
 //-------------------------------------------------------------------------------------
 Pipe::Pipe()
 {
+	m_pipe_fd[0] = m_pipe_fd[1] = INVALID_SOCKET;
+
 #ifdef CY_SYS_WINDOWS
 	if (!construct_socket_pipe(m_pipe_fd))
 #else
@@ -105,8 +107,8 @@ Pipe::~Pipe()
 #ifdef CY_SYS_WINDOWS
 	destroy_socket_pipe(m_pipe_fd);
 #else
-	::close(m_pipe_fd[0]);
-	::close(m_pipe_fd[1]);
+	if (m_pipe_fd[0] != INVALID_SOCKET) ::close(m_pipe_fd[0]);
+	if (m_pipe_fd[1] != INVALID_SOCKET) ::close(m_pipe_fd[1]);
 #endif
 }
 
-- 
2.43.0


From 3babd5047984f65cc48aa466d043272cc30cdd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:14 +0000
Subject: [PATCH 31/73] fix: TcpServer::stop refused in a work thread made
 every later stop have no effect

---
 source/cyNetwork/network/cyn_tcp_server.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index b297889..ff53af7 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -105,8 +105,6 @@ void TcpServer::stop(void)
 {
 	//not running?
 	if (m_running == 0) return;
-	//is shutdown in processing?
-	if (m_shutdown_ing.exchange(1) > 0)return;
 
 	//this function can't run in work thread
 	for (auto work : m_work_thread_pool){
@@ -116,6 +114,9 @@ void TcpServer::stop(void)
 		}
 	}
 
+	//is shutdown in processing?
+	if (m_shutdown_ing.exchange(1) > 0)return;
+
 	//shutdown the the master thread
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
 	m_master_thread->send_thread_message(TcpServerMasterThread::ShutdownCmd::ID, sizeof(shutdownCmd), (const char*)&shutdownCmd);
-- 
2.43.0


From 5feaacbbca6011a655d634685ad689ed07e20a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:14 +0000
Subject: [PATCH 32/73] fix: TcpServer::stop used the looper of a work thread
 that may have finished

---
 source/cyEvent/event/cye_work_thread.cpp                      | 2 ++
 source/cyEvent/event/cye_work_thread.h                        | 4 ++++
 .../cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index e481134..97e8c42 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -50,6 +50,8 @@ void WorkThread::_work_thread(void* param)
 {
 	work_thread_param* thread_param = (work_thread_param*)param;
 
+	m_thread_id = sys_api::thread_get_current_id();
+
 	//create work event looper
 	m_looper = Looper::create_looper();
 
diff --git a/source/cyEvent/event/cye_work_thread.h b/source/cyEvent/event/cye_work_thread.h
index c091e02..ca27860 100644
--- a/source/cyEvent/event/cye_work_thread.h
+++ b/source/cyEvent/event/cye_work_thread.h
@@ -35,6 +35,9 @@ public:
 	//// get work thread looper (thread safe)
 	Looper* get_looper(void) const { return m_looper; }
 
+	//// get work thread id, after it was started (thread safe)
+	thread_id_t get_thread_id(void) const { return m_thread_id; }
+
 	//// get work thread name (thread safe)
 	const char* get_name(void) const { return m_name.c_str(); }
 
@@ -44,6 +47,7 @@ public:
 private:
 	std::string		m_name;
 	thread_t		m_thread;
+	thread_id_t		m_thread_id;
 	Looper*			m_looper;
 	atomic_bool_t	m_is_queue_empty;
 	Pipe			m_pipe;
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index 6165ca7..a2930ce 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -54,7 +54,7 @@ void TcpServerWorkThread::send_thread_message(const Packet** message, int32_t co
 //-------------------------------------------------------------------------------------
 bool TcpServerWorkThread::is_in_workthread(void) const
 {
-	return sys_api::thread_get_current_id() == m_work_thread->get_looper()->get_thread_id();
+	return sys_api::thread_get_current_id() == m_work_thread->get_thread_id();
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 4b7ef780d9588d066785e8984c399a36d729ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:14 +0000
Subject: [PATCH 33/73] fix: TcpServer::stop leaked a connection accepted while
 the work threads quit

---
 source/cyNetwork/network/cyn_tcp_server.cpp                 | 6 ++++++
 source/cyNetwork/network/cyn_tcp_server.h                   | 1 +
 .../network/internal/cyn_tcp_server_master_thread.cpp       | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index ff53af7..760a3c3 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -121,6 +121,12 @@ void TcpServer::stop(void)
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
 	m_master_thread->send_thread_message(TcpServerMasterThread::ShutdownCmd::ID, sizeof(shutdownCmd), (const char*)&shutdownCmd);
 
+	//the work threads are told by the master thread after the last connection was accepted
+}
+
+//-------------------------------------------------------------------------------------
+void TcpServer::_on_master_shutdown(void)
+{
 	//shutdown all connection
 	for (auto work : m_work_thread_pool){
 		work->send_thread_message(TcpServerWorkThread::ShutdownCmd::ID, 0, 0);
diff --git a/source/cyNetwork/network/cyn_tcp_server.h b/source/cyNetwork/network/cyn_tcp_server.h
index 0dc4c1c..106647a 100644
--- a/source/cyNetwork/network/cyn_tcp_server.h
+++ b/source/cyNetwork/network/cyn_tcp_server.h
@@ -102,6 +102,7 @@ private:
 private:
 	//called by master thread
 	void _on_accept_socket(socket_t fd);
+	void _on_master_shutdown(void);
 
 	friend class TcpServerMasterThread;
 private:
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 88de48d..ab5f042 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -171,6 +171,9 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 		}
 		m_acceptor_sockets.clear();
 
+		//no more connections, shutdown all work threads
+		m_server->_on_master_shutdown();
+
 		//stop looper
 		looper->push_stop_request();
 	}
-- 
2.43.0


From 01908757ab37dea2b562f38cb6fec26ed277e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:14 +0000
Subject: [PATCH 34/73] fix: TcpServer work thread never quit when its last
 connection closed just before the stop

---
 source/cyNetwork/network/cyn_tcp_server.cpp                  | 1 -
 .../network/internal/cyn_tcp_server_work_thread.cpp          | 5 ++++-
 .../cyNetwork/network/internal/cyn_tcp_server_work_thread.h  | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index 760a3c3..4be75d3 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -174,7 +174,6 @@ void TcpServer::shutdown_connection(TcpConnectionPtr conn)
 
 	TcpServerWorkThread::CloseConnectionCmd closeConnectionCmd;
 	closeConnectionCmd.conn_id = conn->get_id();
-	closeConnectionCmd.shutdown_ing = m_shutdown_ing;
 	work->send_thread_message(TcpServerWorkThread::CloseConnectionCmd::ID, sizeof(closeConnectionCmd), (const char*)&closeConnectionCmd);
 }
 
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index a2930ce..d9ef0a7 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -12,6 +12,7 @@ namespace cyclone
 TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	: m_server(server)
 	, m_index(index)
+	, m_shutdown_ing(false)
 {
 	//run work thread
 	m_work_thread = new WorkThread();
@@ -141,7 +142,7 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 		}
 
 		//if all connection is shutdown, and server is in shutdown process, quit the loop
-		if (m_connections.empty() && closeConnectionCmd.shutdown_ing > 0) {
+		if (m_connections.empty() && m_shutdown_ing) {
 			//push loop quit command
 			m_work_thread->get_looper()->push_stop_request();
 			return;
@@ -150,6 +151,8 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 	else if (msg_id == ShutdownCmd::ID)
 	{
 		CY_LOG(L_DEBUG, "receive shutdown cmd");
+		m_shutdown_ing = true;
+
 		//all connection is disconnect, just quit the loop
 		if (m_connections.empty()) {
 			//push loop request command
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index 39b0937..958d9c9 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -22,7 +22,6 @@ public:
 	{
 		enum { ID = kCloseConnectionCmdID };
 		int32_t conn_id;
-		int32_t shutdown_ing;
 	};
 
 	struct ShutdownCmd
@@ -51,6 +50,7 @@ private:
 	TcpServer*		m_server;
 	const int32_t	m_index;
 	WorkThread*		m_work_thread;
+	bool			m_shutdown_ing;		//used in work thread only
 
 	typedef std::unordered_map< int32_t, TcpConnectionPtr > ConnectionMap;
 	ConnectionMap	m_connections;
-- 
2.43.0


From 10381578ae358daf4c385a34ee439162b925476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:14 +0000
Subject: [PATCH 35/73] fix: TcpServer::stop_listen after stop used an index
 into the cleared listen table

---
 .../network/internal/cyn_tcp_server_master_thread.cpp      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index ab5f042..a0bba31 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -156,7 +156,7 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 		Looper* looper = m_master_thread.get_looper();
 
 		//close all listen socket(s)
-		for (auto listen_socket : m_acceptor_sockets) {
+		for (auto& listen_socket : m_acceptor_sockets) {
 			auto& sfd = std::get<0>(listen_socket);
 			auto& event_id = std::get<1>(listen_socket);
 
@@ -169,7 +169,6 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 				sfd = INVALID_SOCKET;
 			}
 		}
-		m_acceptor_sockets.clear();
 
 		//no more connections, shutdown all work threads
 		m_server->_on_master_shutdown();
@@ -230,7 +229,11 @@ void TcpServerMasterThread::_on_accept_event(Looper::event_id_t id, socket_t fd,
 //-------------------------------------------------------------------------------------
 void TcpServerMasterThread::join(void)
 {
+	if (!m_master_thread.is_running()) return;
 	m_master_thread.join();
+
+	//all of them were closed by the master thread
+	m_acceptor_sockets.clear();
 }
 
 }
-- 
2.43.0


From eecb4dbfd9cf613986f237eaf193030765f552a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:14 +0000
Subject: [PATCH 36/73] fix: TcpServer aborted and leaked its sockets when
 destroyed after bind without start

---
 .../network/internal/cyn_tcp_server_master_thread.cpp      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index a0bba31..7311b21 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -17,7 +17,12 @@ TcpServerMasterThread::TcpServerMasterThread(TcpServer* server)
 //-------------------------------------------------------------------------------------
 TcpServerMasterThread::~TcpServerMasterThread()
 {
-	assert(m_acceptor_sockets.empty());
+	//close the sockets binded but the server was never started
+	for (auto& listen_socket : m_acceptor_sockets) {
+		if (std::get<0>(listen_socket) != INVALID_SOCKET) {
+			socket_api::close_socket(std::get<0>(listen_socket));
+		}
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 4a4847a9dc464200b01ba4fc59fe83d82cd95b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:12 +0000
Subject: [PATCH 37/73] fix: TcpClient kept the socket and event of a connect
 that failed at once and could not connect again

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 3eccaf8..cceca4e 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -58,8 +58,12 @@ bool TcpClient::connect(const Address& addr)
 
 	sys_api::auto_mutex lock(m_connection_lock);
 
+	m_serverAddr = addr;
+
 	//create socket
 	m_socket = socket_api::create_socket();
+	if (m_socket == INVALID_SOCKET) return false;
+
 	//set socket to non-block and close-onexec
 	socket_api::set_nonblock(m_socket, true);
 	socket_api::set_close_onexec(m_socket, true);
@@ -67,8 +71,6 @@ bool TcpClient::connect(const Address& addr)
 	socket_api::set_keep_alive(m_socket, true);
 	socket_api::set_linger(m_socket, false, 0);
 
-	m_serverAddr = addr;
-
 	//set event callback
 	m_socket_event_id = m_looper->register_event(m_socket, Looper::kRead | Looper::kWrite, this,
 		std::bind(&TcpClient::_on_socket_read_write, this),
@@ -79,6 +81,10 @@ bool TcpClient::connect(const Address& addr)
 	if (!socket_api::connect(m_socket, addr.get_sockaddr_in()))
 	{
 		CY_LOG(L_ERROR, "connect to server error, errno=%d", socket_api::get_lasterror());
+
+		RELEASE_EVENT(m_looper, m_socket_event_id);
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
 		return false;
 	}
 
-- 
2.43.0


From ef05f0a17fdbea36afadc2145a2846ef3f4454b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:12 +0000
Subject: [PATCH 38/73] fix: TcpClient::disconnect did not cancel a pending
 retry and aborted when called in the connected callback

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 16 +++++++++++++---
 source/cyNetwork/network/cyn_tcp_client.h   |  1 +
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index cceca4e..d4b7643 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -23,6 +23,7 @@ TcpClient::TcpClient(Looper* looper, void* param, int id)
 	, m_looper(looper)
 	, m_param(param)
 	, m_connection(nullptr)
+	, m_connect_serial(0)
 {
 	//looper must be set
 	assert(looper);
@@ -108,10 +109,14 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 
 	if (timeout || socket_api::get_socket_error(m_socket) != 0) {
 		//logic callback
+		TcpClientPtr thisPtr = shared_from_this();
+		const uint32_t connect_serial = m_connect_serial;
 		uint32_t retry_sleep_ms = 0;
 		if (m_listener.on_connected) {
-			retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
+			retry_sleep_ms = m_listener.on_connected(thisPtr, nullptr, false);
 		}
+		if (connect_serial != m_connect_serial) return; //disconnect() was called in the callback
+
 		CY_LOG(L_DEBUG, "connect to %s:%d failed! ", m_serverAddr.get_ip(), m_serverAddr.get_port());
 		_abort_connect(retry_sleep_ms);
 	}
@@ -177,9 +182,12 @@ void TcpClient::disconnect(void)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	m_sendCache.reset();
+	m_connect_serial++; //the pending connect(or retry) is canceled
 	switch (get_connection_state())
 	{
 	case TcpConnection::kDisconnected:
+		//maybe waiting to retry
+		RELEASE_EVENT(m_looper, m_retry_timer_id);
 		break;
 
 	case TcpConnection::kConnecting:
@@ -206,10 +214,12 @@ void TcpClient::_on_retry_connect_timer(Looper::event_id_t id)
 	if (!connect(m_serverAddr)) {
 		//failed at once!, logic callback
 		if (m_listener.on_connected) {
-			uint32_t retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
+			TcpClientPtr thisPtr = shared_from_this();
+			const uint32_t connect_serial = m_connect_serial;
+			uint32_t retry_sleep_ms = m_listener.on_connected(thisPtr, nullptr, false);
 
 			//retry connection?
-			if (retry_sleep_ms>0) {
+			if (connect_serial == m_connect_serial && retry_sleep_ms>0) {
 				m_retry_timer_id = m_looper->register_timer_event(retry_sleep_ms, this,
 					std::bind(&TcpClient::_on_retry_connect_timer, this, std::placeholders::_1));
 			}
diff --git a/source/cyNetwork/network/cyn_tcp_client.h b/source/cyNetwork/network/cyn_tcp_client.h
index f84ed62..0e7f746 100644
--- a/source/cyNetwork/network/cyn_tcp_client.h
+++ b/source/cyNetwork/network/cyn_tcp_client.h
@@ -55,6 +55,7 @@ private:
 	TcpConnectionPtr m_connection;
 	sys_api::mutex_t m_connection_lock;
 	RingBuf m_sendCache;
+	uint32_t m_connect_serial;	//changed by disconnect()
 
 private:
 	/// on read/write callback function
-- 
2.43.0


From 9ec905a6e79c0cf171881bcbefa8f5ff68fa6076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:12 +0000
Subject: [PATCH 39/73] fix: TcpClient leaked its socket when destroyed while
 connecting

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index d4b7643..3785382 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -49,6 +49,11 @@ TcpClient::~TcpClient()
 	if (m_connection) {
 		assert(m_connection->get_state() == TcpConnection::kDisconnected);
 	}
+	else if (m_socket != INVALID_SOCKET) {
+		//still connecting
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From a90772075fb07eb8b119920d3a2983436f009bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:12 +0000
Subject: [PATCH 40/73] fix: TcpClient changed its connection without lock
 while other threads query or send

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 34 ++++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 3785382..6c5cd50 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -132,18 +132,18 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 		RELEASE_EVENT(m_looper, m_socket_event_id);
 
 		//established the connection
-		m_connection = std::make_shared<TcpConnection>(m_id, m_socket, m_looper, this);
+		TcpConnectionPtr connection = std::make_shared<TcpConnection>(m_id, m_socket, m_looper, this);
 		CY_LOG(L_DEBUG, "connect to %s:%d success", m_serverAddr.get_ip(), m_serverAddr.get_port());
 
 		//bind callback functions
 		if (m_listener.on_message) {
-			m_connection->set_on_message([this](TcpConnectionPtr conn) {
+			connection->set_on_message([this](TcpConnectionPtr conn) {
 				m_listener.on_message(shared_from_this(), conn);
 			});
 		}
 
 		if(m_listener.on_close) {
-			m_connection->set_on_close([this](TcpConnectionPtr conn) {
+			connection->set_on_close([this](TcpConnectionPtr conn) {
 				CY_LOG(L_DEBUG, "disconnect from %s:%d", m_serverAddr.get_ip(), m_serverAddr.get_port());
 				m_listener.on_close(shared_from_this(), conn);
 			});
@@ -151,9 +151,15 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 
 		//send cached message
 		if (!m_sendCache.empty()) {
-			m_connection->send((const char*)m_sendCache.normalize(), m_sendCache.size());
+			connection->send((const char*)m_sendCache.normalize(), m_sendCache.size());
 			m_sendCache.reset();
 		}
+		//other threads can use it from now on
+		{
+			sys_api::auto_mutex lock(m_connection_lock);
+			m_connection = connection;
+		}
+
 		//logic callback
 		if (m_listener.on_connected) {
 			m_listener.on_connected(shared_from_this(), m_connection, true);
@@ -171,8 +177,11 @@ void TcpClient::_abort_connect(uint32_t retry_sleep_ms)
 	RELEASE_EVENT(m_looper, m_retry_timer_id);
 
 	//close current socket
-	socket_api::close_socket(m_socket);
-	m_socket = INVALID_SOCKET;
+	{
+		sys_api::auto_mutex lock(m_connection_lock);
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
+	}
 
 	if (retry_sleep_ms>0) {
 		//retry connection? create retry the timer
@@ -243,7 +252,16 @@ void TcpClient::_on_socket_read_write(void)
 //-------------------------------------------------------------------------------------
 void TcpClient::send(const char* buf, size_t len)
 {
-	switch (get_connection_state())
+	TcpConnectionPtr connection;
+	TcpConnection::State state;
+	{
+		sys_api::auto_mutex lock(m_connection_lock);
+		connection = m_connection;
+		if (connection) state = connection->get_state();
+		else state = (m_socket == INVALID_SOCKET) ? TcpConnection::kDisconnected : TcpConnection::kConnecting;
+	}
+
+	switch (state)
 	{
 	case TcpConnection::kConnecting:
 	{
@@ -253,7 +271,7 @@ void TcpClient::send(const char* buf, size_t len)
 		break;
 	case TcpConnection::kConnected:
 	{
-		m_connection->send(buf, len);
+		connection->send(buf, len);
 	}
 		break;
 	default:
-- 
2.43.0


From 2c0a1d90f56c14dc17f98271aa5e3fbf0b38005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 41/73] fix: adler32 of an empty block lost the previous
 checksum

---
 source/cyCrypt/crypt/cyr_adler32.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cyCrypt/crypt/cyr_adler32.cpp b/source/cyCrypt/crypt/cyr_adler32.cpp
index e50c4d2..8c2d8b1 100644
--- a/source/cyCrypt/crypt/cyr_adler32.cpp
+++ b/source/cyCrypt/crypt/cyr_adler32.cpp
@@ -69,8 +69,12 @@ uint32_t adler32(uint32_t adler, const uint8_t* buf, size_t len)
     unsigned n;
 	
 	/* initial Adler-32 value */
-	if (buf == 0 || len == 0)
+	if (buf == 0)
 		return INITIAL_ADLER;
+
+	/* nothing to add */
+	if (len == 0)
+		return adler;
 	
 	/* split Adler-32 into component sums */
     sum2 = (adler >> 16) & 0xffff;
-- 
2.43.0


From a62e89fa04672716d922f261867fad42df60b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 42/73] fix: xorshift128 accessed unaligned memory as 64 bit
 integers

---
 source/cyCrypt/crypt/cyr_xorshift128.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/cyCrypt/crypt/cyr_xorshift128.cpp b/source/cyCrypt/crypt/cyr_xorshift128.cpp
index 86ba563..737562e 100644
--- a/source/cyCrypt/crypt/cyr_xorshift128.cpp
+++ b/source/cyCrypt/crypt/cyr_xorshift128.cpp
@@ -25,16 +25,19 @@ void xorshift128(uint8_t* buf, size_t byte_length, XorShift128& seed)
 	size_t i64_counts = (byte_length >> 3);// +((byte_length & 7) ? 1 : 0);
 	size_t tail_bytes = byte_length & 7;
 
-	uint64_t* input = (uint64_t*)buf;
-	for (size_t i = 0; i < i64_counts; i++, input++) {
-		(*input) ^= seed.next();
+	uint8_t* input = buf;
+	for (size_t i = 0; i < i64_counts; i++, input += sizeof(uint64_t)) {
+		uint64_t value;
+		memcpy(&value, input, sizeof(value)); //the buf may be not aligned
+		value ^= seed.next();
+		memcpy(input, &value, sizeof(value));
 	}
 	
 	if (tail_bytes == 0) return;
 	uint64_t last_seed = seed.next();
 
 	for (size_t t = 0; t < tail_bytes; t++) {
-		*(((uint8_t*)input) + t) ^= (uint8_t)((last_seed >> (t<<3)) & 0xFF);
+		*(input + t) ^= (uint8_t)((last_seed >> (t<<3)) & 0xFF);
 	}
 }
 
-- 
2.43.0


From a1609a252940287d96f13217e2bb31b92cdd2dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 43/73] fix: DH key exchange never terminated for a private key
 of zero

---
 source/cyCrypt/crypt/cyr_dhexchange.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/cyCrypt/crypt/cyr_dhexchange.cpp b/source/cyCrypt/crypt/cyr_dhexchange.cpp
index f4491fd..a94be4e 100644
--- a/source/cyCrypt/crypt/cyr_dhexchange.cpp
+++ b/source/cyCrypt/crypt/cyr_dhexchange.cpp
@@ -138,6 +138,12 @@ _powmodp_r(dhkey_t* r, const dhkey_t& a, const dhkey_t& b)
 	dhkey_t t;
 	dhkey_t half_b = b;
 
+	if (_u128_is_zero(b)) {
+		r->dq.low = 1;
+		r->dq.high = 0;
+		return;
+	}
+
 	if (b.dq.high == 0 && b.dq.low == 1) {
 		*r = a;
 		return;
@@ -159,7 +165,7 @@ _powmodp_r(dhkey_t* r, const dhkey_t& a, const dhkey_t& b)
 static void 
 _powmodp(dhkey_t* r, dhkey_t a, dhkey_t b)
 {
-	if (_u128_compare(a, P)>0)
+	if (_u128_compare(a, P)>=0)
 		_u128_sub(&a, a, P);
 
 	_powmodp_r(r, a, b);
-- 
2.43.0


From 2c875d8a08b621095fdd64ee06b0613ebfec6323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 44/73] fix: MinMaxValue reported a wrong maximum for negative
 floating point values

---
 source/cyUtility/utility/cyu_statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_statistics.h b/source/cyUtility/utility/cyu_statistics.h
index afe3892..0543d8a 100644
--- a/source/cyUtility/utility/cyu_statistics.h
+++ b/source/cyUtility/utility/cyu_statistics.h
@@ -35,7 +35,7 @@ public:
 	MinMaxValue() 
 	{
 		m_min = std::numeric_limits<T>::max();
-		m_max = std::numeric_limits<T>::min();
+		m_max = std::numeric_limits<T>::lowest();
 	}
 
 	MinMaxValue(const T& init) 
-- 
2.43.0


From 3e5a1968df9e57003c641c7d86bec10800f18735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 45/73] fix: SimpleOpt case-insensitive comparison matched any
 character with an upper case one

---
 source/cyUtility/utility/cyu_simple_opt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 2678a02..4d47c2f 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -983,7 +983,7 @@ CSimpleOptTempl<SOCHAR>::IsEqual(
     // if this matches then we are doing case-insensitive matching
     if (m_nFlags & a_nArgType) {
 		if (a_cLeft >= 'A' && a_cLeft <= 'Z') a_cLeft = (SOCHAR)tolower(a_cLeft);
-		if (a_cRight >= 'A' && a_cRight <= 'Z') a_cRight = (SOCHAR)tolower(a_cLeft);
+		if (a_cRight >= 'A' && a_cRight <= 'Z') a_cRight = (SOCHAR)tolower(a_cRight);
     }
     return a_cLeft == a_cRight;
 }
-- 
2.43.0


From b11ae5c2fb869ba2452363231b9d6108349ab5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 46/73] fix: RingQueue::push lost or read freed memory when
 growing for one of its own elements

---
 source/cyUtility/utility/cyu_ring_queue.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_ring_queue.h b/source/cyUtility/utility/cyu_ring_queue.h
index d0baa1b..b9c5098 100644
--- a/source/cyUtility/utility/cyu_ring_queue.h
+++ b/source/cyUtility/utility/cyu_ring_queue.h
@@ -37,9 +37,13 @@ public:
 
 	void push(const T& value) {
 		if (get_free_size() == 0) {
+			T copy(value); //the value may be an element of this queue
 			_auto_size((size_t)1);
+			m_vector[m_write] = std::move(copy);
+		}
+		else {
+			m_vector[m_write] = value;
 		}
-		m_vector[m_write] = value;
 		m_write = _next(m_write);
 	}
 
-- 
2.43.0


From 6ad7c54fd6f947a396113b086ba38bfd8225f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 47/73] fix: SimpleOpt moved overlapping argument ranges with
 memcpy

---
 source/cyUtility/utility/cyu_simple_opt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 4d47c2f..491f74d 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -188,7 +188,7 @@ ShowFiles(args.FileCount(), args.Files());
 # define SO_STATICBUF   SO_MAX_ARGS
 #else
 # include <stdlib.h>    // malloc, free
-# include <string.h>    // memcpy
+# include <string.h>    // memmove
 # define SO_STATICBUF   50
 #endif
 
@@ -517,7 +517,7 @@ private:
         // keep our promise of no CLIB usage
         while (nCount-- > 0) *ppDst++ = *ppSrc++;
 #else
-        memcpy(ppDst, ppSrc, (size_t)nCount * sizeof(SOCHAR*));
+        memmove(ppDst, ppSrc, (size_t)nCount * sizeof(SOCHAR*)); // may overlap
 #endif
     }
 
-- 
2.43.0


From 54c858a94e9bede5e85a1bcd592dbba7d638dd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:35 +0000
Subject: [PATCH 48/73] fix: SimpleOpt read past the end of an option that is
 only a hyphen

---
 source/cyUtility/utility/cyu_simple_opt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 491f74d..14801c0 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -929,7 +929,7 @@ CSimpleOptTempl<SOCHAR>::CalcMatch(
     if (a_pszSource[0] != '-') {
         nArgType = SO_O_ICASE_WORD;
     }
-    else if (a_pszSource[1] != '-' && !a_pszSource[2]) {
+    else if (!a_pszSource[1] || (a_pszSource[1] != '-' && !a_pszSource[2])) {
         nArgType = SO_O_ICASE_SHORT;
     }
 
-- 
2.43.0


From 79832667aba2cef4668ff334b36af90f37435365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 49/73] fix: SimpleOpt used its freed shuffle buffer when
 initialised again with fewer arguments

---
 source/cyUtility/utility/cyu_simple_opt.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 14801c0..314a47b 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -575,6 +575,7 @@ CSimpleOptTempl<SOCHAR>::Init(
 #else
     if (m_rgShuffleBuf) {
         free(m_rgShuffleBuf);
+        m_rgShuffleBuf = NULL;
     }
     if (m_argc > SO_STATICBUF) {
         m_rgShuffleBuf = (SOCHAR**) malloc(sizeof(SOCHAR*) * static_cast<unsigned int>(m_argc));
-- 
2.43.0


From 9e924e3cfbba50afe389ddc29662a47f9118a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:23 +0000
Subject: [PATCH 50/73] fix: SimpleOpt::MultiArg ran out of the argument array
 for a huge or negative count

---
 source/cyUtility/utility/cyu_simple_opt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index 314a47b..cefb731 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -998,7 +998,7 @@ CSimpleOptTempl<SOCHAR>::MultiArg(
     )
 {
     // ensure we have enough arguments
-    if (m_nNextOption + a_nCount > m_nLastArg) {
+    if (a_nCount < 0 || a_nCount > m_nLastArg - m_nNextOption) {
         m_nLastError = SO_ARG_MISSING;
         return NULL;
     }
-- 
2.43.0


From 1dc5ad6d2c9cb0f5588896967ffce094fd2d8c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 51/73] fix: SimpleOpt::Stop did not stop inside a clumped
 option string

---
 source/cyUtility/utility/cyu_simple_opt.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index cefb731..b2beefc 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -772,6 +772,7 @@ template<class SOCHAR>
 void
 CSimpleOptTempl<SOCHAR>::Stop()
 {
+    m_pszClump = NULL;  // drop the rest of a clumped option string
     if (m_nNextOption < m_nLastArg) {
         ShuffleArg(m_nNextOption, m_nLastArg - m_nNextOption);
     }
-- 
2.43.0


From 46d675833d72b99a54baab65d477d9b6ddb4d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:03 +0000
Subject: [PATCH 52/73] fix: SimpleOpt ignored case-insensitive matching inside
 clumped options

---
 source/cyUtility/utility/cyu_simple_opt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_simple_opt.h b/source/cyUtility/utility/cyu_simple_opt.h
index b2beefc..9f4fb57 100644
--- a/source/cyUtility/utility/cyu_simple_opt.h
+++ b/source/cyUtility/utility/cyu_simple_opt.h
@@ -814,7 +814,7 @@ CSimpleOptTempl<SOCHAR>::NextClumped()
 
     // lookup this option, ensure that we are using exact matching
     int nSavedFlags = m_nFlags;
-    m_nFlags = SO_O_EXACT;
+    m_nFlags = nSavedFlags | SO_O_EXACT;
     int nTableIdx = LookupOption(m_szShort);
     m_nFlags = nSavedFlags;
 
-- 
2.43.0


From 1d17a453afb6963635b23c43857f5ab430b7f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:17 +0000
Subject: [PATCH 53/73] fix: a failed attempt to open the log file truncated
 it, losing every earlier message

---
 source/cyCore/core/cyc_logger.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/source/cyCore/core/cyc_logger.cpp b/source/cyCore/core/cyc_logger.cpp
index d08e328..bd346f5 100644
--- a/source/cyCore/core/cyc_logger.cpp
+++ b/source/cyCore/core/cyc_logger.cpp
@@ -155,10 +155,6 @@ void disk_log(LOG_LEVEL level, const char* message, ...)
 	}
 
 	FILE* fp = fopen(thefile.file_path_name.c_str(), "a");
-	if (fp == 0) {
-		//create the log file first
-		fp = fopen(thefile.file_path_name.c_str(), "w");
-	}
 	if (fp == 0) return;
 
 	char timebuf[32] = { 0 };
-- 
2.43.0


From 887b1a2efb743aeaacfb8d95bcdb0f6153e0830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:03 +0000
Subject: [PATCH 54/73] fix: the start callback of a thread could run before
 the thread handle was saved

A message sent to the master thread (or a stop request) from its start callback
hit the is_running() assertion when the new thread was faster than its creator.
---
 source/cyEvent/event/cye_work_thread.cpp | 5 +++++
 source/cyEvent/event/cye_work_thread.h   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index 97e8c42..7fe04ba 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -34,12 +34,14 @@ void WorkThread::start(const char* name)
 
 	work_thread_param param;
 	param._this = this;
+	param._created = 0;
 	param._ready = 0;
 
 	//run the work thread
 	m_name = name ? name : "worker";
 	m_thread = sys_api::thread_create(
 		std::bind(&WorkThread::_work_thread, this, std::placeholders::_1), &param, m_name.c_str());
+	param._created = 1;
 
 	//wait work thread ready signal
 	while (param._ready == 0) sys_api::thread_yield();	//BUSY LOOP!
@@ -50,6 +52,9 @@ void WorkThread::_work_thread(void* param)
 {
 	work_thread_param* thread_param = (work_thread_param*)param;
 
+	//wait the thread handle was saved, it may be used in the callback functions
+	while (thread_param->_created == 0) sys_api::thread_yield();
+
 	m_thread_id = sys_api::thread_get_current_id();
 
 	//create work event looper
diff --git a/source/cyEvent/event/cye_work_thread.h b/source/cyEvent/event/cye_work_thread.h
index ca27860..00f496f 100644
--- a/source/cyEvent/event/cye_work_thread.h
+++ b/source/cyEvent/event/cye_work_thread.h
@@ -63,6 +63,7 @@ private:
 	struct work_thread_param
 	{
 		WorkThread*		_this;
+		atomic_int32_t	_created;
 		atomic_int32_t	_ready;
 	};
 	/// work thread function
-- 
2.43.0


From 1ef67e1ee8cf656a4288dfee3dbdf458531f6057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 55/73] fix: join() deleted work threads that other, still
 running work threads could use

A refused stop() or a message to another worker from a work thread callback
while the server was joined used a deleted TcpServerWorkThread.
---
 source/cyNetwork/network/cyn_tcp_server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index 4be75d3..c4d1cc9 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -159,6 +159,9 @@ void TcpServer::join(void)
 	//wait all thread quit
 	for (auto work : m_work_thread_pool) {
 		work->join();
+	}
+	//other work threads may use them until the last one quit
+	for (auto work : m_work_thread_pool) {
 		delete work;
 	}
 	m_work_thread_pool.clear();
-- 
2.43.0


From cd2bd06ad04162ba63c77e141d85b0ee8d2c7abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 56/73] fix: start callback of a work thread could use the work
 thread pool before it was complete

---
 source/cyNetwork/network/cyn_tcp_server.cpp        |  5 ++++-
 .../internal/cyn_tcp_server_work_thread.cpp        | 14 +++++++++-----
 .../network/internal/cyn_tcp_server_work_thread.h  |  2 ++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index c4d1cc9..ed8e0be 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -69,9 +69,12 @@ bool TcpServer::start(int32_t work_thread_counts)
 	//start work thread pool
 	m_workthread_counts = work_thread_counts;
 	for (int32_t i = 0; i < m_workthread_counts; i++) {
-		//run the thread
 		m_work_thread_pool.push_back(new TcpServerWorkThread(this, i));
 	}
+	//run the threads, the pool can be used by the start callback functions
+	for (auto work : m_work_thread_pool) {
+		work->start();
+	}
 
 	//start master thread
 	if (!m_master_thread->start()) {
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index d9ef0a7..2d30fa7 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -14,14 +14,9 @@ TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	, m_index(index)
 	, m_shutdown_ing(false)
 {
-	//run work thread
 	m_work_thread = new WorkThread();
 	m_work_thread->set_on_start(std::bind(&TcpServerWorkThread::_on_workthread_start, this));
 	m_work_thread->set_on_message(std::bind(&TcpServerWorkThread::_on_workthread_message, this, std::placeholders::_1));
-
-	char temp[MAX_PATH] = { 0 };
-	std::snprintf(temp, MAX_PATH, "tcp_work_%d", m_index);
-	m_work_thread->start(temp);
 }
 
 //-------------------------------------------------------------------------------------
@@ -30,6 +25,15 @@ TcpServerWorkThread::~TcpServerWorkThread()
 	delete m_work_thread;
 }
 
+//-------------------------------------------------------------------------------------
+void TcpServerWorkThread::start(void)
+{
+	//run work thread
+	char temp[MAX_PATH] = { 0 };
+	std::snprintf(temp, MAX_PATH, "tcp_work_%d", m_index);
+	m_work_thread->start(temp);
+}
+
 //-------------------------------------------------------------------------------------
 void TcpServerWorkThread::send_thread_message(uint16_t id, uint16_t size, const char* message)
 {
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index 958d9c9..71642b1 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -39,6 +39,8 @@ public: //call by TcpServer Only
 	int32_t get_index(void) const { return m_index; }
 	//// is current thread in work thread (thread safe)
 	bool is_in_workthread(void) const;
+	//// run work thread, call it after the work thread pool is completed
+	void start(void);
 	//// join work thread(thread safe)
 	void join(void);
 	//// get connection(NOT thread safe, MUST call in work thread)
-- 
2.43.0


From c101e24ae1819887305c83c646cfe91eba74dea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:04 +0000
Subject: [PATCH 57/73] fix: join() of a server made sending to the master
 thread fail while work threads were running

---
 source/cyNetwork/network/cyn_tcp_server.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index ed8e0be..8e4411d 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -154,15 +154,16 @@ void TcpServer::_on_accept_socket(socket_t fd)
 //-------------------------------------------------------------------------------------
 void TcpServer::join(void)
 {
-	//wait accept thread quit
-	if (m_master_thread) {
-		m_master_thread->join();
-	}
-
 	//wait all thread quit
 	for (auto work : m_work_thread_pool) {
 		work->join();
 	}
+
+	//wait accept thread quit, work threads may send message to it until the last one quit
+	if (m_master_thread) {
+		m_master_thread->join();
+	}
+
 	//other work threads may use them until the last one quit
 	for (auto work : m_work_thread_pool) {
 		delete work;
-- 
2.43.0


From 67bd05f6dde39169adcc7a2494a6bdcb1f4e6a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:08 +0000
Subject: [PATCH 58/73] fix: concurrent join() of a thread or server released
 it twice

---
 source/cyEvent/event/cye_work_thread.cpp    | 4 ++++
 source/cyEvent/event/cye_work_thread.h      | 2 ++
 source/cyNetwork/network/cyn_tcp_server.cpp | 4 ++++
 source/cyNetwork/network/cyn_tcp_server.h   | 2 ++
 4 files changed, 12 insertions(+)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index 7fe04ba..b38d5a0 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -16,6 +16,7 @@ WorkThread::WorkThread()
 	, m_is_queue_empty(true)
 	, m_on_start(nullptr)
 	, m_on_message(nullptr)
+	, m_join_lock(sys_api::mutex_create())
 {
 }
 
@@ -24,6 +25,7 @@ WorkThread::~WorkThread()
 {
 	//TODO: stop the thread
 	_free_messages();
+	sys_api::mutex_destroy(m_join_lock);
 }
 
 //-------------------------------------------------------------------------------------
@@ -143,6 +145,8 @@ void WorkThread::send_message(const Packet** message, int32_t counts)
 //-------------------------------------------------------------------------------------
 void WorkThread::join(void)
 {
+	sys_api::auto_mutex lock(m_join_lock);
+
 	if (m_thread != nullptr) {
 		sys_api::thread_join(m_thread);
 		m_thread = nullptr;
diff --git a/source/cyEvent/event/cye_work_thread.h b/source/cyEvent/event/cye_work_thread.h
index 00f496f..f091342 100644
--- a/source/cyEvent/event/cye_work_thread.h
+++ b/source/cyEvent/event/cye_work_thread.h
@@ -58,6 +58,8 @@ private:
 	StartCallback	m_on_start;
 	MessageCallback	m_on_message;
 
+	sys_api::mutex_t	m_join_lock;	//only one thread can join the thread really
+
 private:
 	/// work thread param
 	struct work_thread_param
diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index 8e4411d..1f9cf86 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -31,6 +31,7 @@ TcpServer::TcpServer()
 	m_listener.on_close = nullptr;
 
 	m_master_thread = new TcpServerMasterThread(this);
+	m_join_lock = sys_api::mutex_create();
 }
 
 //-------------------------------------------------------------------------------------
@@ -42,6 +43,7 @@ TcpServer::~TcpServer()
 		delete m_master_thread;
 		m_master_thread = nullptr;
 	}
+	sys_api::mutex_destroy(m_join_lock);
 }
 
 //-------------------------------------------------------------------------------------
@@ -154,6 +156,8 @@ void TcpServer::_on_accept_socket(socket_t fd)
 //-------------------------------------------------------------------------------------
 void TcpServer::join(void)
 {
+	sys_api::auto_mutex lock(m_join_lock);
+
 	//wait all thread quit
 	for (auto work : m_work_thread_pool) {
 		work->join();
diff --git a/source/cyNetwork/network/cyn_tcp_server.h b/source/cyNetwork/network/cyn_tcp_server.h
index 106647a..66cb2df 100644
--- a/source/cyNetwork/network/cyn_tcp_server.h
+++ b/source/cyNetwork/network/cyn_tcp_server.h
@@ -99,6 +99,8 @@ private:
 	enum { kStartConnectionID = 1 };
 	atomic_int32_t m_next_connection_id;
 
+	sys_api::mutex_t m_join_lock;
+
 private:
 	//called by master thread
 	void _on_accept_socket(socket_t fd);
-- 
2.43.0


From 7ef7c3617184ebaae157c8840fab7b6599ee794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:32 +0000
Subject: [PATCH 59/73] fix: send() of a closed connection used the looper of a
 finished work thread

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 5 +++--
 source/cyNetwork/network/cyn_tcp_connection.h   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index 16a8e11..daff729 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -15,6 +15,7 @@ TcpConnection::TcpConnection(int32_t id, socket_t sfd, Looper* looper, Owner* ow
 	, m_socket(sfd)
 	, m_state(kConnected)
 	, m_looper(looper)
+	, m_thread_id(looper->get_thread_id())
 	, m_event_id(Looper::INVALID_EVENT_ID)
 	, m_owner(owner)
 	, m_param(nullptr)
@@ -91,7 +92,7 @@ void TcpConnection::send(const char* buf, size_t len)
 {
 	if (buf == nullptr || len == 0) return;
 
-	if (sys_api::thread_get_current_id() == m_looper->get_thread_id())
+	if (sys_api::thread_get_current_id() == m_thread_id)
 	{
 		_send(buf, len);
 	}
@@ -120,7 +121,7 @@ void TcpConnection::send(const char* buf, size_t len)
 //-------------------------------------------------------------------------------------
 void TcpConnection::_send(const char* buf, size_t len)
 {
-	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
+	assert(sys_api::thread_get_current_id() == m_thread_id);
 
 	size_t remaining = len;
 	ssize_t nwrote = 0;
diff --git a/source/cyNetwork/network/cyn_tcp_connection.h b/source/cyNetwork/network/cyn_tcp_connection.h
index 691c4f3..76f8f69 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.h
+++ b/source/cyNetwork/network/cyn_tcp_connection.h
@@ -82,6 +82,7 @@ private:
 	Address m_local_addr;
 	Address m_peer_addr;
 	Looper* m_looper;
+	const thread_id_t m_thread_id;	//the looper may be destroyed after the connection was closed
 	Looper::event_id_t m_event_id;
 	Owner* m_owner;
 	void* m_param;
-- 
2.43.0


From 286b76f8a9f1f73381c4c9ce30fe61d7cb6f01c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:28 +0000
Subject: [PATCH 60/73] fix: push_stop_request used the looper after the
 looping thread had seen the request and destroyed it

---
 source/cyEvent/event/cye_looper.cpp                 | 4 ++--
 source/cyEvent/event/internal/cye_create_looper.cpp | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 44127df..c2f3c97 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -371,9 +371,9 @@ void Looper::step(void)
 //-------------------------------------------------------------------------------------
 void Looper::push_stop_request(void)
 {
-	m_quit_cmd = 1;
-
+	//the looper can be destroyed as soon as the request is seen, see destroy_looper
 	sys_api::auto_mutex lock(m_lock);
+	m_quit_cmd = 1;
 	_touch_inner_pipe();
 }
 
diff --git a/source/cyEvent/event/internal/cye_create_looper.cpp b/source/cyEvent/event/internal/cye_create_looper.cpp
index 0e11f13..96e5a74 100644
--- a/source/cyEvent/event/internal/cye_create_looper.cpp
+++ b/source/cyEvent/event/internal/cye_create_looper.cpp
@@ -26,6 +26,10 @@ Looper* Looper::create_looper(void)
 //-------------------------------------------------------------------------------------
 void Looper::destroy_looper(Looper* looper)
 {
+	if (looper) {
+		//other thread may be still in push_stop_request
+		sys_api::auto_mutex lock(looper->m_lock);
+	}
 	delete looper;
 }
 
-- 
2.43.0


From 88d11ed96ff2adb5fd42ee99a9ea819ebc9df9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:02 +0000
Subject: [PATCH 61/73] fix: check_connect overwrote its stack when the
 descriptor was larger than FD_SETSIZE

---
 source/cyCore/core/cyc_socket_api.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 6cd8ed9..a4c6603 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -8,6 +8,7 @@ Copyright(C) thecodeway.com
 #include <io.h>
 #else
 #include <netdb.h>
+#include <poll.h>
 #include <netinet/tcp.h>
 #include <signal.h>
 #endif
@@ -501,6 +502,7 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 	}
 
 	// wait connect result
+#ifdef CY_SYS_WINDOWS
 	fd_set set_write, set_err;
 
 	FD_ZERO(&set_write);
@@ -511,13 +513,12 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 
 	// check if the socket is ready
 	timeval time_out = { timeout_ms/1000, (timeout_ms%1000) * 1000};
-	int ret = ::select(
-#ifdef CY_SYS_WINDOWS
-		0, 
+	int ret = ::select(0, nullptr, &set_write, &set_err, timeout_ms<0 ? nullptr : &time_out);
 #else
-		s+1,
+	// the descriptor may be too large for select
+	struct pollfd pfd = { s, POLLOUT, 0 };
+	int ret = ::poll(&pfd, 1, timeout_ms < 0 ? -1 : timeout_ms);
 #endif
-		nullptr, &set_write, &set_err, timeout_ms<0 ? nullptr : &time_out);
 
 	if (ret <= 0) {
 		//time out or socket error
@@ -525,11 +526,13 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 		return false;
 	}
 
+#ifdef CY_SYS_WINDOWS
 	if (!FD_ISSET(s, &set_write)) {
 		//socket not ready
 		close_socket(s);
 		return false;
 	}
+#endif
 
 	int err = get_socket_error(s);
 	if (err != 0) {
-- 
2.43.0


From 498c72a3bcb8727972096b49dce4b79d4b0a7122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:03 +0000
Subject: [PATCH 62/73] fix: a signal during check_connect made it report an
 unreachable address

---
 source/cyCore/core/cyc_socket_api.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index a4c6603..143bfe7 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -517,7 +517,13 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 #else
 	// the descriptor may be too large for select
 	struct pollfd pfd = { s, POLLOUT, 0 };
-	int ret = ::poll(&pfd, 1, timeout_ms < 0 ? -1 : timeout_ms);
+	const int64_t time_limit = sys_api::performance_time_now() + timeout_ms * 1000ll;
+	int wait_ms = timeout_ms < 0 ? -1 : timeout_ms;
+	int ret;
+	while ((ret = ::poll(&pfd, 1, wait_ms)) < 0 && errno == EINTR) {
+		// interrupted by a signal, wait the rest of the time
+		if (timeout_ms >= 0) wait_ms = (int)(std::max)((int64_t)0, (time_limit - sys_api::performance_time_now() + 999) / 1000);
+	}
 #endif
 
 	if (ret <= 0) {
-- 
2.43.0


From c5604221b95b1df901703336bea9c168e7bcccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:04 +0000
Subject: [PATCH 63/73] fix: the socket was not closed when it could not be set
 to non-blocking mode

---
 source/cyCore/core/cyc_socket_api.cpp                        | 5 ++++-
 .../network/internal/cyn_tcp_server_master_thread.cpp        | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 143bfe7..7ccb9a9 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -492,7 +492,10 @@ bool check_connect(const struct sockaddr_in& addr, int timeout_ms)
 	if (s == INVALID_SOCKET) return false;
 
 	// set to non block mode
-	if (!set_nonblock(s, true)) return false;
+	if (!set_nonblock(s, true)) {
+		close_socket(s);
+		return false;
+	}
 
 	// begin connect...
 	if (!connect(s, addr)) {
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 7311b21..293f832 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -65,6 +65,7 @@ bool TcpServerMasterThread::bind_socket(const Address& bind_addr, bool enable_re
 	if (!socket_api::set_nonblock(sfd, true)) {
 		//the process should be stop		
 		CY_LOG(L_ERROR, "set socket to non block mode error");
+		socket_api::close_socket(sfd);
 		return false;
 	}
 
-- 
2.43.0


From 017ee30fa772564c9751dc9008622d60fc07b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:14 +0000
Subject: [PATCH 64/73] fix: set_nodelay returned the opposite of its result

IPPROTO_TCP is an enumerator of the global namespace, so argument-dependent
lookup preferred the system's setsockopt (0 means success) to socket_api's.
---
 source/cyCore/core/cyc_socket_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 7ccb9a9..69e22aa 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -320,7 +320,7 @@ bool set_keep_alive(socket_t s, bool on)
 bool set_nodelay(socket_t s, bool on)
 {
 	int optval = on ? 1 : 0;
-	return setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &optval, static_cast<socklen_t>(sizeof optval));
+	return socket_api::setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &optval, static_cast<socklen_t>(sizeof optval));
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 5a23f25bf097c327605c648d27ad19c86f8a330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:39 +0000
Subject: [PATCH 65/73] fix: the module name was wrong when the executable's
 path is longer than 255 bytes

---
 source/cyCore/core/cyc_system_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index 2cb7308..11a07c2 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -50,7 +50,7 @@ void process_get_module_name(char* module_name, size_t max_size)
 		char process_path_name[PROC_PIDPATHINFO_MAXSIZE] = { 0 };
 		proc_pidpath(process_get_id(), process_path_name, PROC_PIDPATHINFO_MAXSIZE);
 	#else
-		char process_path_name[256] = { 0 };
+		char process_path_name[4096] = { 0 };
 		if (readlink("/proc/self/exe", process_path_name, sizeof(process_path_name) - 1)<0) {
 			strncpy(process_path_name, "unknown", sizeof(process_path_name) - 1);
 		}
-- 
2.43.0


From 0e1269898ec0097a62f1a48220a0cfd15983d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:39 +0000
Subject: [PATCH 66/73] fix: local_time_now left an unterminated string when
 the time does not fit

---
 source/cyCore/core/cyc_system_api.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index 11a07c2..b9c04e2 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -460,7 +460,9 @@ void local_time_now(char* time_dest, size_t max_size, const char* format)
 #else
 	localtime_r(&local_time, &tm_now);
 #endif
-	strftime(time_dest, max_size, format, &tm_now);
+	if (0 == strftime(time_dest, max_size, format, &tm_now) && max_size > 0) {
+		time_dest[0] = 0;	//the content is undefined if it does not fit
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 2fbcd71ca628852c63e695756150e870f479d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:51 +0000
Subject: [PATCH 67/73] fix: echo sample handles all received data and outlives
 its stop thread

---
 samples/echo/echo_client.cpp |  8 ++++---
 samples/echo/echo_server.cpp | 44 +++++++++++++++++++++++-------------
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/samples/echo/echo_client.cpp b/samples/echo/echo_client.cpp
index 6e5141a..2033854 100644
--- a/samples/echo/echo_client.cpp
+++ b/samples/echo/echo_client.cpp
@@ -80,10 +80,12 @@ private:
 	{
 		RingBuf& buf = conn->get_input_buf();
 
-		char temp[MAX_ECHO_LENGTH +1] = { 0 };
-		buf.memcpy_out(temp, MAX_ECHO_LENGTH);
+		while (!buf.empty()) {
+			char temp[MAX_ECHO_LENGTH + 1] = { 0 };
+			buf.memcpy_out(temp, MAX_ECHO_LENGTH);
 
-		CY_LOG(L_INFO, "%s", temp);
+			CY_LOG(L_INFO, "%s", temp);
+		}
 	}
 
 	//-------------------------------------------------------------------------------------
diff --git a/samples/echo/echo_server.cpp b/samples/echo/echo_server.cpp
index d0952fa..f211cf6 100644
--- a/samples/echo/echo_server.cpp
+++ b/samples/echo/echo_server.cpp
@@ -18,6 +18,9 @@ CSimpleOptA::SOption g_rgOptions[] = {
 	SO_END_OF_OPTIONS                   // END
 };
 
+//notified when a client asks to shutdown the server
+static sys_api::signal_t g_shutdownSignal;
+
 //-------------------------------------------------------------------------------------
 void onPeerConnected(TcpServer* server, int32_t thread_index, TcpConnectionPtr conn)
 {
@@ -36,27 +39,26 @@ void onPeerMessage(TcpServer* server, int32_t thread_index, TcpConnectionPtr con
 {
 	RingBuf& buf = conn->get_input_buf();
 
-	char temp[MAX_ECHO_LENGTH + 1] = { 0 };
-	buf.memcpy_out(temp, MAX_ECHO_LENGTH);
+	while (!buf.empty()) {
+		char temp[MAX_ECHO_LENGTH + 1] = { 0 };
+		size_t len = buf.memcpy_out(temp, MAX_ECHO_LENGTH);
 
-	CY_LOG(L_INFO, "[T=%d]receive:%s", thread_index, temp);
+		CY_LOG(L_INFO, "[T=%d]receive:%s", thread_index, temp);
 
-	if (strcmp(temp, "exit") == 0) {
-		server->shutdown_connection(conn);
-		return;
-	}
+		if (strcmp(temp, "exit") == 0) {
+			server->shutdown_connection(conn);
+			return;
+		}
 
-	if (strcmp(temp, "shutdown") == 0) {
-		sys_api::thread_create_detached([server](void*) {
-			server->stop();
-		}, 0, nullptr);
-		return;
-	}
+		if (strcmp(temp, "shutdown") == 0) {
+			sys_api::signal_notify(g_shutdownSignal);
+			return;
+		}
 
-	size_t len = strlen(temp);
-	for (size_t i = 0; i < len; i++) temp[i] = (char)toupper(temp[i]);
+		for (size_t i = 0; i < len; i++) temp[i] = (char)toupper((unsigned char)temp[i]);
 
-	conn->send(temp, strlen(temp));
+		conn->send(temp, len);
+	}
 }
 
 //-------------------------------------------------------------------------------------
@@ -111,10 +113,20 @@ int main(int argc, char* argv[])
 	if (!server.bind(Address(server_port, false), true))
 		return 1;
 
+	g_shutdownSignal = sys_api::signal_create();
+
 	if (!server.start(sys_api::get_cpu_counts()))
 		return 1;
 
+	//the server can't be stopped in work thread
+	thread_t stopThread = sys_api::thread_create([&server](void*) {
+		sys_api::signal_wait(g_shutdownSignal);
+		server.stop();
+	}, nullptr, "stop");
+
 	server.join();
+	sys_api::thread_join(stopThread);
+	sys_api::signal_destroy(g_shutdownSignal);
 
 	return 0;
 }
\ No newline at end of file
-- 
2.43.0


From a9bbb6be260372e338f24d0ff18100c07da0dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:51 +0000
Subject: [PATCH 68/73] fix: chat client shows every packet, waits for
 incomplete ones, any size

---
 samples/chat/chat_client.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/samples/chat/chat_client.cpp b/samples/chat/chat_client.cpp
index ce2969d..ca6f4b7 100644
--- a/samples/chat/chat_client.cpp
+++ b/samples/chat/chat_client.cpp
@@ -81,13 +81,13 @@ public:
 	{
 		RingBuf& buf = conn->get_input_buf();
 
-		Packet packet;
-		packet.build_from_ringbuf(PACKET_HEAD_SIZE, buf);
-
-		char temp[1024] = { 0 };
-		memcpy(temp, packet.get_packet_content(), packet.get_packet_size());
+		for (;;)
+		{
+			Packet packet;
+			if (!packet.build_from_ringbuf(PACKET_HEAD_SIZE, buf)) return;
 
-		CY_LOG(L_INFO, "%s", temp);
+			CY_LOG(L_INFO, "%.*s", (int)packet.get_packet_size(), packet.get_packet_content());
+		}
 	}
 
 	//-------------------------------------------------------------------------------------
-- 
2.43.0


From 52d7b1171370500e534ca5946664075d462069e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:51 +0000
Subject: [PATCH 69/73] fix: relay_pipe delivers everything before it closes,
 ignores refused connections, outlives its stop thread

---
 samples/relay/relay_pipe.cpp | 66 ++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/samples/relay/relay_pipe.cpp b/samples/relay/relay_pipe.cpp
index 1e52941..88e3aca 100644
--- a/samples/relay/relay_pipe.cpp
+++ b/samples/relay/relay_pipe.cpp
@@ -71,14 +71,18 @@ public:
 		TcpServer server;
 		server.m_listener.on_connected = std::bind(&RelayPipe_DoubleIn::onConnected, this, _1, _3);
 		server.m_listener.on_message = std::bind(&RelayPipe_DoubleIn::onMessage, this, _3);
-		server.m_listener.on_close = std::bind(&RelayPipe_DoubleIn::onClose, this, _1);
+		server.m_listener.on_close = std::bind(&RelayPipe_DoubleIn::onClose, this, _1, _3);
 
 		server.bind(Address(m_port1=listen_port1, false), true);
 		server.bind(Address(m_port2=listen_port2, false), true);
 
+		m_stopThread = nullptr;
 		if (!server.start(1)) return;
 
 		server.join();
+
+		//the server must outlive the thread that stops it
+		if (m_stopThread) sys_api::thread_join(m_stopThread);
 	}
 
 private:
@@ -128,13 +132,17 @@ private:
 	}
 
 	//-------------------------------------------------------------------------------------
-	void onClose(TcpServer* server)
+	void onClose(TcpServer* server, TcpConnectionPtr conn)
 	{
+		//not a part of the pipe
+		if (conn != m_conn1 && conn != m_conn2) return;
+
         m_conn1 = nullptr;
         m_conn2 = nullptr;
         m_pipe = nullptr;
         
-		sys_api::thread_create_detached([server](void*) {
+		if (m_stopThread) return;
+		m_stopThread = sys_api::thread_create([server](void*) {
 			server->stop();
 		}, nullptr, nullptr);
 	}
@@ -145,6 +153,7 @@ private:
 	TcpConnectionPtr m_conn1;
 	TcpConnectionPtr m_conn2;
 	RelayPipePtr m_pipe;
+	thread_t m_stopThread;
 };
 
 ////////////////////////////////////////////////////////////////////////////////////////////
@@ -229,19 +238,22 @@ private:
 	//-------------------------------------------------------------------------------------
 	void onClose(TcpClientPtr client)
 	{
-        if(!m_pipe) return;
-        
-        m_pipe = nullptr;
-        m_connection1 = nullptr;
-        m_connection2 = nullptr;
-        if(client==m_client1 && m_client2) m_client2->disconnect();
-        if(client==m_client2 && m_client1) m_client1->disconnect();
-        m_client1 = nullptr;
-        m_client2 = nullptr;
-        
-        sys_api::thread_create_detached([this](void*) {
+        if(m_pipe) {
+            TcpClientPtr other = (client==m_client1) ? m_client2 : m_client1;
+
+            m_pipe = nullptr;
+            m_connection1 = nullptr;
+            m_connection2 = nullptr;
+            m_client1 = nullptr;
+            m_client2 = nullptr;
+
+            //everything forwarded so far must be sent before the other port is closed
+            m_closing = true;
+            other->disconnect();
+        }
+        else if(m_closing) {
             m_looper->push_stop_request();
-        }, nullptr, nullptr);
+        }
 	}
 private:
 	Address m_address1;
@@ -252,6 +264,7 @@ private:
     TcpConnectionPtr m_connection1;
     TcpConnectionPtr m_connection2;
 	RelayPipePtr m_pipe;
+    bool m_closing;
 
 public:
 	RelayPipe_DoubleOut()
@@ -261,6 +274,7 @@ public:
         , m_connection1(nullptr)
         , m_connection2(nullptr)
 		, m_pipe(nullptr)
+        , m_closing(false)
 	{
 
 	}
@@ -278,13 +292,16 @@ public:
         server.m_listener.on_work_thread_start = std::bind(&RelayPipe_InOut::onWorkthreadStart, this, _1, _3);
         server.m_listener.on_connected = std::bind(&RelayPipe_InOut::onConnectedIn, this, _1, _3);
         server.m_listener.on_message = std::bind(&RelayPipe_InOut::onMessageIn, this, _3);
-        server.m_listener.on_close = std::bind(&RelayPipe_InOut::onCloseIn, this);
+        server.m_listener.on_close = std::bind(&RelayPipe_InOut::onCloseIn, this, _3);
         
         server.bind(Address(m_bindPort=bindPort, false), true);
         
         if (!server.start(1)) return;
         
         server.join();
+
+        //the server must outlive the thread that stops it
+        if (m_stopThread) sys_api::thread_join(m_stopThread);
     }
     
 private:
@@ -327,13 +344,16 @@ private:
             m_pipe->forward1To2();
     }
     //-------------------------------------------------------------------------------------
-    void onCloseIn(void)
+    void onCloseIn(TcpConnectionPtr conn)
     {
+        //not a part of the pipe
+        if(conn != m_connIn) return;
+
         m_pipe = nullptr;
         m_connIn = nullptr;
-        m_connOut = nullptr;
-        if(m_client) m_client->disconnect();
-        m_client = nullptr;
+
+        //everything forwarded so far must be sent before the other port is closed
+        if(m_connOut) m_client->disconnect();
     }
     
 private:
@@ -366,7 +386,8 @@ private:
         m_connOut = nullptr;
         m_client = nullptr;
         
-        sys_api::thread_create_detached([this](void*){
+        if (m_stopThread) return;
+        m_stopThread = sys_api::thread_create([this](void*){
             m_server->stop();
         }, nullptr, nullptr);
     }
@@ -380,9 +401,10 @@ private:
     TcpConnectionPtr m_connIn;
     TcpConnectionPtr m_connOut;
     RelayPipePtr m_pipe;
+    thread_t m_stopThread;
     
 public:
-    RelayPipe_InOut() : m_server(nullptr), m_looper(nullptr), m_client(nullptr), m_pipe(nullptr)
+    RelayPipe_InOut() : m_server(nullptr), m_looper(nullptr), m_client(nullptr), m_pipe(nullptr), m_stopThread(nullptr)
     {
         
     }
-- 
2.43.0


From 60892e97ea0de869e2a98bd63f5288cf1932b199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:01 +0000
Subject: [PATCH 70/73] fix: socks5 sample accepts fragmented and pipelined
 requests, delivers everything before it closes

---
 samples/socks5/s5_main.cpp     | 38 +++++++++++++++++++++++++---------
 samples/socks5/s5_protocol.cpp |  5 +----
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/samples/socks5/s5_main.cpp b/samples/socks5/s5_main.cpp
index 325e8cf..0080de1 100644
--- a/samples/socks5/s5_main.cpp
+++ b/samples/socks5/s5_main.cpp
@@ -47,7 +47,10 @@ public:
 		m_remoteConnection->m_listener.on_message = std::bind(&S5Tunnel::onServerMessage, this, _2);
 		m_remoteConnection->m_listener.on_close = std::bind(&S5Tunnel::onServerClose, this);
 
-		m_remoteConnection->connect(address);
+		if (!m_remoteConnection->connect(address)) {
+			//failed at once
+			onServerConnected(nullptr, false);
+		}
 	}
 
 	void forword_up(RingBuf& inputBuf) {
@@ -55,9 +58,16 @@ public:
 		inputBuf.reset();
 	}
 
-	void disconnect(void) {
-		if (m_remoteConnection)
-			m_remoteConnection->disconnect();
+	//local connection has been closed, return true if the remote connection is closed too, otherwise onClosed will be called
+	bool close(const std::function<void(void)>& onClosed) {
+		if (!m_remoteConnection) return true;
+
+		m_remoteConnection->disconnect();
+		if (m_remoteConnection->get_connection_state() == TcpConnection::kDisconnected) return true;
+
+		//something is still on the way to remote server
+		m_onClosed = onClosed;
+		return false;
 	}
 private:
 	uint32_t onServerConnected(TcpConnectionPtr conn, bool success) 
@@ -94,6 +104,11 @@ private:
 	void onServerClose(void) 
 	{
 		m_state = S5_DISCONNECTED;
+		if (m_onClosed) {
+			std::function<void(void)> onClosed = m_onClosed;
+			onClosed(); //this tunnel is deleted
+			return;
+		}
 		m_localServer->shutdown_connection(m_localConnection);
 	}
 
@@ -104,6 +119,7 @@ private:
 	TcpClientPtr m_remoteConnection;
 	TcpConnectionPtr m_localConnection;
 	Address m_address;
+	std::function<void(void)> m_onClosed;
 
 public:
 	S5Tunnel(TcpServer* localServer, Looper* looper, TcpConnectionPtr localConnection)
@@ -115,10 +131,7 @@ public:
 	{
 	}
 	~S5Tunnel() {
-		if (m_remoteConnection) {
-            assert(m_remoteConnection.use_count()==1);
-			m_remoteConnection = nullptr;
-		}
+		m_remoteConnection = nullptr;
 	}
 };
 
@@ -143,8 +156,9 @@ public:
 		auto it = m_tunnelMap.find(conn_id);
 		if (it == m_tunnelMap.end()) return;
 
-		it->second.disconnect();
-		m_tunnelMap.erase(it);
+		if (it->second.close([this, conn_id]() { m_tunnelMap.erase(conn_id); })) {
+			m_tunnelMap.erase(conn_id);
+		}
 	}
 
 private:
@@ -216,11 +230,13 @@ private:
 		}
 
 		//switch state
+		while (!inputBuf.empty()) {
 		switch (tunnel->get_state()) {
 		case S5_OPENING:
 		{
 			//handshake
 			int32_t s5_ret = s5_get_handshake(inputBuf);
+			if (s5_ret == S5ERR_NEED_MORE_DATA) return;
 			if (s5_ret != S5ERR_SUCCESS) {
 				CY_LOG(L_WARN, "tunnel[%d]: handshake error, code=%d", conn->get_id(), s5_ret);
 				server->shutdown_connection(conn);
@@ -242,6 +258,7 @@ private:
 			Address address;
 			std::string domain;
 			int32_t s5_ret = s5_get_connect_request(inputBuf, address, domain);
+			if (s5_ret == S5ERR_NEED_MORE_DATA) return;
 			if (s5_ret != S5ERR_SUCCESS) {
 				CY_LOG(L_WARN, "get connect request error, code=%d", s5_ret);
 				server->shutdown_connection(conn);
@@ -265,6 +282,7 @@ private:
 		break;
 
 		}
+		}
 	}
 
 	//-------------------------------------------------------------------------------------
diff --git a/samples/socks5/s5_protocol.cpp b/samples/socks5/s5_protocol.cpp
index 17bd13a..a6ee9f5 100644
--- a/samples/socks5/s5_protocol.cpp
+++ b/samples/socks5/s5_protocol.cpp
@@ -38,12 +38,11 @@ int32_t s5_get_handshake(RingBuf& inputBuf)
 	//check methods
 	uint8_t nmethods = temp[1];
 	if (peek_size < (size_t)(nmethods + 2)) return S5ERR_NEED_MORE_DATA;
-	if (peek_size > (size_t)(nmethods + 2)) return S5ERR_PROTOCOL_ERR;
 
 	for (uint8_t i = 0; i < nmethods; i++) {
 		if (temp[i + 2] == S5_METHOD_NO_AUTH) {
 			//handshake ok
-			inputBuf.discard(peek_size);
+			inputBuf.discard((size_t)(nmethods + 2));
 			return S5ERR_SUCCESS;
 		}
 	}
@@ -67,7 +66,6 @@ int32_t s5_get_connect_request(RingBuf& inputBuf, Address& address, std::string&
 	case 0x01:	//IP V4 address: X'01'
 	{
 		if (inputBuf.size() < 10) return S5ERR_NEED_MORE_DATA;
-		if (inputBuf.size() > 10) return S5ERR_PROTOCOL_ERR;
 
 		inputBuf.discard(4);
 
@@ -88,7 +86,6 @@ int32_t s5_get_connect_request(RingBuf& inputBuf, Address& address, std::string&
 		uint8_t domain_length;
 		if (sizeof(uint8_t) != inputBuf.peek(4, &domain_length, sizeof(uint8_t))) return S5ERR_NEED_MORE_DATA;
 		if (inputBuf.size() < (size_t)(7 + domain_length)) return S5ERR_NEED_MORE_DATA;
-		if (inputBuf.size() > (size_t)(7 + domain_length)) return S5ERR_PROTOCOL_ERR;
 
 		inputBuf.discard(5);
 
-- 
2.43.0


From e821c9f97b448b29ffe498a4711fa6cde271f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:01 +0000
Subject: [PATCH 71/73] fix: relay samples deliver everything of a session
 before it closes, survive failed connects and dying partners

---
 samples/relay/relay_local.cpp  |  14 ++++-
 samples/relay/relay_server.cpp | 104 ++++++++++++++++++---------------
 2 files changed, 68 insertions(+), 50 deletions(-)

diff --git a/samples/relay/relay_local.cpp b/samples/relay/relay_local.cpp
index d99c5f6..cfbd0f5 100644
--- a/samples/relay/relay_local.cpp
+++ b/samples/relay/relay_local.cpp
@@ -242,9 +242,9 @@ private:
 
 		CY_LOG(L_INFO, "===UP:%s Speed:%s/s DOWN:%s Speed:%s/s",
 			string_util::size_to_string((size_t)m_up_total.load()).c_str(),
-			string_util::size_to_string((float)(up_statistics.first * 1000 / kSpeedTimePeriod)).c_str(),
+			string_util::size_to_string((float)up_statistics.first * 1000.f / (float)kSpeedTimePeriod).c_str(),
 			string_util::size_to_string((size_t)m_down_total.load()).c_str(),
-			string_util::size_to_string((float)(down_statistics.first * 1000 / kSpeedTimePeriod)).c_str()
+			string_util::size_to_string((float)down_statistics.first * 1000.f / (float)kSpeedTimePeriod).c_str()
 		);
 	}
 
@@ -406,8 +406,18 @@ private:
 				}
 				break;
 
+				default:
+					CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+					client->disconnect();
+					pipe->m_upState = kDisConnected;
+					return;
 				}
 			}
+			else {
+				//the pipe is closing
+				conn->get_input_buf().reset();
+				return;
+			}
 		}
 	}
 
diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index d966b73..2181bba 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -265,7 +265,7 @@ private:
 				//connect to up server
 				CY_LOG(L_TRACE, "Connect to up server %s:%d", m_upAddress.get_ip(), m_upAddress.get_port());
 				session->m_upClient = std::make_shared<TcpClient>(pipe->m_looper, pipe, newSessionMsg.id);
-				session->m_upClient->m_listener.on_connected = std::bind(&RelayServer::onServerConnected, this, _1, _2, _3);
+				session->m_upClient->m_listener.on_connected = std::bind(&RelayServer::onServerConnected, this, _1, newSessionMsg.id, _2, _3);
 				session->m_upClient->m_listener.on_message = std::bind(&RelayServer::onServerMessage, this, _1, _2);
 				session->m_upClient->m_listener.on_close = std::bind(&RelayServer::onServerClose, this, _1, _2);
 
@@ -288,11 +288,7 @@ private:
 				auto it = pipe->m_relaySessionMap.find(closeSessionMsg.id);
 				if (it == pipe->m_relaySessionMap.end()) break;
 
-				RelaySessionPtr session = it->second;
-				session->m_upState = RelaySession::kDisconnecting;
-				session->m_upClient->disconnect();
-				session->m_upState = RelaySession::kDisconnected;
-				pipe->m_relaySessionMap.erase(it);
+				_closeUpSession(pipe, it->second);
 
 				CY_LOG(L_INFO, "[%d]Receive close session message, close it", closeSessionMsg.id);
 			}
@@ -309,6 +305,14 @@ private:
 
 				int32_t id = forwardMsg.id;
 				auto it = pipe->m_relaySessionMap.find(id);
+
+				//decrypt(every message, the cipher blocks of a pipe are chained)
+				uint8_t* buf = (uint8_t*)packet.get_packet_content() + sizeof(RelayForwardMsg);
+				if (m_encryptMode)
+				{
+					pipe->m_decrypt->decrypt(buf, buf, packet.get_packet_size() - sizeof(RelayForwardMsg));
+				}
+
 				if (it == pipe->m_relaySessionMap.end()) {
 					//send close session msg to down client
 					_kickDownSession(pipe, id, nullptr);
@@ -322,13 +326,6 @@ private:
 					break;
 				}
 
-				//decrypt and send
-				uint8_t* buf = (uint8_t*)packet.get_packet_content() + sizeof(RelayForwardMsg);
-				if (m_encryptMode)
-				{
-					pipe->m_decrypt->decrypt(buf, buf, packet.get_packet_size() - sizeof(RelayForwardMsg));
-				}
-
 				if (m_enable_statistics) {
 					m_up_total += forwardMsg.size;
 					m_up_statistics.push(forwardMsg.size);
@@ -344,9 +341,15 @@ private:
 			default:
 				CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
 				server->shutdown_connection(conn);
-				break;
+				pipe->m_downState = kWaitConnecting;
+				return;
 			}
 		}
+		else {
+			//the pipe is closing
+			conn->get_input_buf().reset();
+			return;
+		}
 		}
 	}
 	//-------------------------------------------------------------------------------------
@@ -357,13 +360,10 @@ private:
 		pipe->m_downState = kDisconnected;
 
 		//close all tunnel
-		for (auto it = pipe->m_relaySessionMap.begin(); it != pipe->m_relaySessionMap.end(); it++) {
-			RelaySessionPtr session = it->second;
-
-			session->m_upClient->disconnect();
-			session->m_upState = RelaySession::kDisconnected;
+		RelaySessionMap sessions = pipe->m_relaySessionMap;
+		for (auto it = sessions.begin(); it != sessions.end(); it++) {
+			_closeUpSession(pipe, it->second);
 		}
-		pipe->m_relaySessionMap.clear();
 
 		pipe->m_downConnection.reset();
 
@@ -386,51 +386,41 @@ private:
 
 		CY_LOG(L_INFO, "===UP:%s Speed:%s/s DOWN:%s Speed:%s/s",
 			string_util::size_to_string((size_t)m_up_total.load()).c_str(),
-			string_util::size_to_string((float)(up_statistics.first * 1000 / kSpeedTimePeriod)).c_str(),
+			string_util::size_to_string((float)up_statistics.first * 1000.f / (float)kSpeedTimePeriod).c_str(),
 			string_util::size_to_string((size_t)m_down_total.load()).c_str(),
-			string_util::size_to_string((float)(down_statistics.first * 1000 / kSpeedTimePeriod)).c_str()
+			string_util::size_to_string((float)down_statistics.first * 1000.f / (float)kSpeedTimePeriod).c_str()
 		);
 	}
 private:
 	//-------------------------------------------------------------------------------------
-	uint32_t onServerConnected(TcpClientPtr client, TcpConnectionPtr conn, bool success)
+	uint32_t onServerConnected(TcpClientPtr client, int32_t id, TcpConnectionPtr conn, bool success)
 	{
 		RelayPipe* pipe = (RelayPipe*)(client->get_param());
-		if (pipe->m_downState != kHandshaked) return 0;
+
+		auto it = pipe->m_relaySessionMap.find(id);
+		if (it == pipe->m_relaySessionMap.end()) {
+			return 0;
+		}
+		RelaySessionPtr session = it->second;
 
 		if (success) {
-			int32_t id = conn->get_id();
-			auto it = pipe->m_relaySessionMap.find(id);
-			assert(it != pipe->m_relaySessionMap.end());
-			if (it == pipe->m_relaySessionMap.end()) {
+			if (session->m_upState == RelaySession::kDisconnecting) {
+				//down client has closed this session, close it when all the cached data has been sent
+				_closeUpSession(pipe, session);
 				return 0;
 			}
-			RelaySessionPtr session = it->second;
 			session->m_upState = RelaySession::kConnected;
 
 			CY_LOG(L_TRACE, "[%d]Connect to UP success(%s:%d)", id, conn->get_peer_addr().get_ip(), conn->get_peer_addr().get_port());
 		}else {
-			//send close session msg to down
-			int32_t id = conn->get_id();
-			auto it = pipe->m_relaySessionMap.find(id);
-			if (it == pipe->m_relaySessionMap.end()) {
-				return 0;
+			//the connecting is over, delete session and client
+			client->disconnect();
+			if (session->m_upState == RelaySession::kConnecting) {
+				//send close session msg to down
+				_kickDownSession(pipe, id, session);
 			}
-			RelaySessionPtr session = it->second;
-			assert(session->m_upState == RelaySession::kConnecting);
-
-			RelayCloseSessionMsg msg;
-			msg.id = session->m_id;
-
-			Packet packet;
-			packet.build_from_memory(RELAY_PACKET_HEADSIZE, RelayCloseSessionMsg::ID, (uint16_t)(sizeof(RelayCloseSessionMsg)), (const char*)&msg);
-
-			//send to down client
-			pipe->m_downConnection->send((const char*)packet.get_memory_buf(), packet.get_memory_size());
 			session->m_upState = RelaySession::kDisconnected;
-
-			//send to work thread to delete session and client
-			m_downServer->send_work_message(pipe->m_workthread_index, &packet);
+			pipe->m_relaySessionMap.erase(id);
 			CY_LOG(L_TRACE, "[%d]Connect to UP failed!", id);
 		}
 		return 0;
@@ -497,6 +487,8 @@ private:
 		if (session->m_upState == RelaySession::kConnected) {
 			_kickDownSession(pipe, session->m_id, session);
 		}
+		session->m_upState = RelaySession::kDisconnected;
+		pipe->m_relaySessionMap.erase(id);
 
 		CY_LOG(L_TRACE, "[%d]UP shutdown the client, send kick msg to DOWN", id);
 	}
@@ -507,6 +499,22 @@ private:
 		return ((size & 0xF) == 0) ? size : ((size & (size_t)(~0xF)) + 0x10);
 	}
 	
+	//-------------------------------------------------------------------------------------
+	void _closeUpSession(RelayPipe* pipe, RelaySessionPtr session) {
+		//wait the result of connecting first, data from down client is cached in up client
+		bool connecting = (session->m_upClient->get_connection_state() == TcpConnection::kConnecting);
+
+		session->m_upState = RelaySession::kDisconnecting;
+		if (connecting) return;
+
+		session->m_upClient->disconnect();
+		if (session->m_upClient->get_connection_state() == TcpConnection::kDisconnected) {
+			//closed at once, otherwise onServerClose will be called when all the data has been sent
+			session->m_upState = RelaySession::kDisconnected;
+			pipe->m_relaySessionMap.erase(session->m_id);
+		}
+	}
+
 	//-------------------------------------------------------------------------------------
 	void _kickDownSession(RelayPipe* pipe, int32_t session_id, RelaySessionPtr session) {
 		if (pipe->m_downState != kHandshaked) return;
-- 
2.43.0


From b39124b6497e452a555bd5bce84634b3fa03b352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:32 +0000
Subject: [PATCH 72/73] fix: filetransfer samples serve more than one client,
 small and big files

---
 samples/filetransfer/ft_client.cpp |  8 +--
 samples/filetransfer/ft_server.cpp | 81 +++++++++++++++---------------
 2 files changed, 45 insertions(+), 44 deletions(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 1d9d539..bb7bb06 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -254,7 +254,7 @@ public:
 				ctx->status = TS_Error;
 			}
 			else {
-				size_t speed = (size_t)(ctx->fragmentSize*1000*1000) / (size_t)(ctx->endTime - ctx->beginTime);
+				size_t speed = (size_t)ctx->fragmentSize*1000*1000 / (size_t)(ctx->endTime > ctx->beginTime ? ctx->endTime - ctx->beginTime : 1);
 				CY_LOG(L_INFO, "Download thread[%d] success, offset=%zd, fragment_size=%s, crc=0x%08x, speed=%s/s, readBufMaxSize=%s", 
 					ctx->index, ctx->fileOffset, string_util::size_to_string((float)ctx->fragmentSize).c_str(), ctx->fragmentCRC, string_util::size_to_string(speed).c_str(),
 					string_util::size_to_string(conn->get_readebuf_max_size()).c_str()
@@ -335,11 +335,12 @@ public:
 		if (m_fileSize < MIN_FRAMEMENT_SIZE*(size_t)m_threadTounts) {
 			//small file
 			fragmentCounts = (int32_t)(m_fileSize / MIN_FRAMEMENT_SIZE);
+			if (fragmentCounts < 1) fragmentCounts = 1;
 		}
 		else {
 			fragmentCounts = m_threadTounts;
 		}
-		fragmentSize = (int32_t)((int32_t)m_fileSize / fragmentCounts) & (~0xF);
+		fragmentSize = (int32_t)(m_fileSize / (size_t)fragmentCounts) & (~0xF);
 
 		m_beginDownloadTime = sys_api::performance_time_now();
 
@@ -379,7 +380,7 @@ public:
 			CY_LOG(L_INFO, "Download speed: %s/s, Size:%s Percent:[%.2f%%]", 
 				string_util::size_to_string(downloadSpeed.first / ((size_t)m_downloadSpeed.get_time_period()/ (size_t)1000)).c_str(),
 				string_util::size_to_string(totalDownloadSize).c_str(),
-				(float)(totalDownloadSize*100 / m_fileSize));
+				(m_fileSize>0) ? (float)(totalDownloadSize*100 / m_fileSize) : 100.f);
 
 			sys_api::thread_sleep(1000);
 		}
@@ -475,6 +476,7 @@ int main(int argc, char* argv[])
 	}
 
 	size_t downloadTime = (size_t)(client.m_endDownloadTime - client.m_beginDownloadTime)/(1000ll*1000ll);
+	if (downloadTime == 0) downloadTime = 1;
 	CY_LOG(L_INFO, "Download complete, time=%d(sec), speed=%s/s", downloadTime, string_util::size_to_string(client.m_fileSize/downloadTime).c_str());
 
 	//combine file
diff --git a/samples/filetransfer/ft_server.cpp b/samples/filetransfer/ft_server.cpp
index 4915319..d1bf4a2 100644
--- a/samples/filetransfer/ft_server.cpp
+++ b/samples/filetransfer/ft_server.cpp
@@ -7,6 +7,7 @@
 #include <utility/cyu_string_util.h>
 
 #include <fstream>
+#include <set>
 
 #include "ft_common.h"
 
@@ -40,16 +41,15 @@ static void printUsage(const char* moduleName)
 class FileTransferServer
 {
 private:
-	enum ThreadStatus
+	enum ConnectionStatus
 	{
-		TS_Idle,
 		TS_Connected,
 		TS_Sending,
 		TS_Completed,
 	};
-	struct ThreadContext
+	struct ConnectionContext
 	{
-		ThreadStatus status;
+		ConnectionStatus status;
 		std::ifstream fileHandle;
 		size_t offsetBegin;
 		size_t offsetNow;
@@ -57,14 +57,24 @@ private:
 		uint32_t fragmentCRC;
 		enum { BUFFER_SIZE = 64*1024 };
 		char* buffer;
-		TcpConnectionPtr conn;
-		std::atomic<float> sendSpeed;
 
-		ThreadContext() {
-			status = TS_Idle;
+		ConnectionContext() {
+			status = TS_Connected;
 			offsetBegin = offsetNow = offsetEnd = 0;
 			fragmentCRC = INITIAL_ADLER;
-			buffer = nullptr;
+			buffer = (char*)CY_MALLOC(BUFFER_SIZE);
+		}
+		~ConnectionContext() {
+			CY_FREE(buffer);
+		}
+	};
+
+	struct ThreadContext
+	{
+		std::set<TcpConnectionPtr> connections; //a new client maybe come before the last one is closed
+		std::atomic<float> sendSpeed;
+
+		ThreadContext() {
 			sendSpeed = 0.f;
 		}
 	};
@@ -106,13 +116,6 @@ private:
 	{
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 
-		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
-		ctx.status = TS_Idle;
-		ctx.buffer = (char*)CY_MALLOC(ThreadContext::BUFFER_SIZE);
-		ctx.offsetBegin = ctx.offsetEnd = ctx.offsetNow = 0;
-		ctx.fragmentCRC = INITIAL_ADLER;
-		ctx.sendSpeed = 0.f;
-
 		looper->register_timer_event(1000, nullptr, std::bind(&FileTransferServer::_onWorkThreadTimer, this, index));
 	}
 
@@ -121,10 +124,14 @@ private:
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 		ThreadContext& ctx = *(m_threadContext[index]);
 
-		if (ctx.status == TS_Sending && ctx.conn) {
-			const auto& writeStatistics = ctx.conn->get_write_statistics();
-			ctx.sendSpeed = (float)writeStatistics.first / (float)SEND_STATISTICS_TIME;
+		float sendSpeed = 0.f;
+		for (const auto& conn : ctx.connections) {
+			if (((ConnectionContext*)conn->get_param())->status != TS_Sending) continue;
+
+			const auto& writeStatistics = conn->get_write_statistics();
+			sendSpeed += (float)writeStatistics.first / (float)SEND_STATISTICS_TIME;
 		}
+		ctx.sendSpeed = sendSpeed;
 	}
 
 	void _onClientConnected(int32_t index, TcpConnectionPtr conn)
@@ -132,16 +139,11 @@ private:
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
 
-		if (ctx.status != TS_Idle) {
-			conn->shutdown();
-			return;
-		}
-		
-		ctx.status = TS_Connected;
-		ctx.conn = conn;
+		conn->set_param(new ConnectionContext);
+		ctx.connections.insert(conn);
 
 		//enable statistics
-		ctx.conn->start_write_statistics(SEND_STATISTICS_TIME*1000);
+		conn->start_write_statistics(SEND_STATISTICS_TIME*1000);
 
 		this->m_workingCounts += 1;
 	}
@@ -167,13 +169,13 @@ private:
 		CY_FREE(reply);
 	}
 
-	void _onSendReady(int32_t index, TcpConnectionPtr conn)
+	void _onSendReady(TcpConnectionPtr conn)
 	{
-		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
+		ConnectionContext& ctx = *((ConnectionContext*)conn->get_param());
 		assert(ctx.status == TS_Sending);
 
 		ctx.fileHandle.seekg((std::streamsize)ctx.offsetNow);
-		size_t readSize = (size_t)ctx.fileHandle.read(ctx.buffer, ThreadContext::BUFFER_SIZE).gcount();
+		size_t readSize = (size_t)ctx.fileHandle.read(ctx.buffer, ConnectionContext::BUFFER_SIZE).gcount();
 		if (ctx.offsetNow + readSize > ctx.offsetEnd) {
 			readSize = ctx.offsetEnd - ctx.offsetNow;
 		}
@@ -202,11 +204,11 @@ private:
 		}
 	}
 
-	void _onMessage_RequireFileFragment(int32_t index, const FT_Head& , TcpConnectionPtr conn)
+	void _onMessage_RequireFileFragment(int32_t , const FT_Head& , TcpConnectionPtr conn)
 	{
 		RingBuf& ringBuf = conn->get_input_buf();
 		FT_RequireFileFragment* require = (FT_RequireFileFragment*)ringBuf.normalize();
-		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
+		ConnectionContext& ctx = *((ConnectionContext*)conn->get_param());
 
 		if (require->fileOffset + (size_t)(require->fragmentSize) > m_fileSize) {
 			CY_LOG(L_INFO, "Receive invalid fragment download request, offset=%zd, size=%d", require->fileOffset, require->size);
@@ -226,7 +228,6 @@ private:
 		ctx.offsetNow = ctx.offsetBegin = require->fileOffset;
 		ctx.offsetEnd = ctx.offsetBegin + (size_t)(require->fragmentSize);
 		ctx.fragmentCRC = INITIAL_ADLER;
-		ctx.sendSpeed = 0.f;
 
 		//send fragment begin 
 		FT_ReplyFileFragment_Begin fileBegin;
@@ -235,7 +236,7 @@ private:
 		fileBegin.fileOffset = require->fileOffset;
 		fileBegin.fragmentSize = require->fragmentSize;
 
-		conn->set_on_send_complete(std::bind(&FileTransferServer::_onSendReady, this, index, _1));
+		conn->set_on_send_complete(std::bind(&FileTransferServer::_onSendReady, this, _1));
 		conn->send((const char*)&fileBegin, sizeof(fileBegin));
 	}
 
@@ -243,7 +244,7 @@ private:
 	{
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 
-		if (m_threadContext[(size_t)index]->status != TS_Connected) {
+		if (((ConnectionContext*)conn->get_param())->status != TS_Connected) {
 			conn->shutdown();
 			return;
 		}
@@ -272,12 +273,10 @@ private:
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
 
-		if (ctx.status == TS_Sending) {
-			ctx.fileHandle.close();
-		}
-		ctx.status = TS_Idle;
-		ctx.conn.reset();
-		ctx.sendSpeed = 0.f;
+		conn->set_on_send_complete(nullptr);
+		ctx.connections.erase(conn);
+		delete (ConnectionContext*)conn->get_param();
+		conn->set_param(nullptr);
 
 		this->m_workingCounts -= 1;
 	}
-- 
2.43.0


From 4c519f76c27c7225f06e198869935709286a6b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:57 +0000
Subject: [PATCH 73/73] fix: destroying an event loop releases the timers still
 registered on it

---
 source/cyEvent/event/cye_looper.cpp | 27 ++++++++++++++++++++-------
 source/cyEvent/event/cye_looper.h   |  1 +
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index c2f3c97..b2dced1 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -33,6 +33,10 @@ Looper::Looper()
 //-------------------------------------------------------------------------------------
 Looper::~Looper()
 {
+	//release the timers nobody deleted
+	for (channel_s& channel : m_channelBuffer) {
+		if (channel.timer) _release_timer(channel);
+	}
 	sys_api::mutex_destroy(m_lock);
 }
 
@@ -106,6 +110,7 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 		//error...
 		CY_LOG(L_FATAL, "CreateTimerQueueTimer Failed");
         delete timer;
+		channel.timer = false;
 		return INVALID_EVENT_ID;
 	}
 #elif defined(CY_HAVE_TIMERFD)
@@ -115,6 +120,7 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 		//error
         CY_LOG(L_FATAL, "call timerfd_create Failed");
         delete timer;
+        channel.timer = false;
         return INVALID_EVENT_ID;
 	}
 
@@ -161,13 +167,7 @@ void Looper::delete_event(event_id_t id)
 
 	//if timer event
 	if (channel.timer) {
-		timer_s* timer = (timer_s*)channel.param;
-#ifdef CY_SYS_WINDOWS
-		::DeleteTimerQueueTimer(0, timer->htimer, INVALID_HANDLE_VALUE);
-#elif defined(CY_HAVE_TIMERFD)
-		socket_api::close_socket(channel.fd);
-#endif
-		delete timer;
+		_release_timer(channel);
 	}
 	
 	//remove from active list to free list
@@ -175,6 +175,19 @@ void Looper::delete_event(event_id_t id)
 	m_free_head = id;
 }
 
+//-------------------------------------------------------------------------------------
+void Looper::_release_timer(channel_s& channel)
+{
+	timer_s* timer = (timer_s*)channel.param;
+#ifdef CY_SYS_WINDOWS
+	::DeleteTimerQueueTimer(0, timer->htimer, INVALID_HANDLE_VALUE);
+#elif defined(CY_HAVE_TIMERFD)
+	socket_api::close_socket(channel.fd);
+#endif
+	delete timer;
+	channel.timer = false;
+}
+
 //-------------------------------------------------------------------------------------
 void Looper::disable_read(event_id_t id)
 {
diff --git a/source/cyEvent/event/cye_looper.h b/source/cyEvent/event/cye_looper.h
index a97ee1c..7121c3f 100644
--- a/source/cyEvent/event/cye_looper.h
+++ b/source/cyEvent/event/cye_looper.h
@@ -142,6 +142,7 @@ protected:
 #endif
 	};
 	
+	static void _release_timer(channel_s& channel);
 	static void _on_timer_event_callback(event_id_t id, socket_t fd, event_t event, void* param);
 
 #ifdef CY_SYS_WINDOWS
-- 
2.43.0

