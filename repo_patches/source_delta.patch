From 85bfff0c3972f87bb12a8d7d68b7b9a4982418b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:44 +0000
Subject: [PATCH 01/23] fix: aligned timers with a zero interval divide by zero

---
 include/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/timer.h b/include/timer.h
index 65957c7..ca10887 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -182,7 +182,7 @@ protected:
 		{
 			unsigned elapsed_ms = (unsigned) boost::chrono::duration_cast<boost::chrono::milliseconds>(boost::chrono::system_clock::now() - begin_time).count();
 			if (elapsed_ms > ti.interval_ms)
-				elapsed_ms %= ti.interval_ms;
+				elapsed_ms = ti.interval_ms > 0 ? elapsed_ms % ti.interval_ms : 0; //a zero interval is legal
 
 			start_timer(ti, ti.interval_ms - elapsed_ms);
 		}
-- 
2.43.0


From 8ff352eef9717a52a4f7dbe8626119128b7cc27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:53 +0000
Subject: [PATCH 02/23] fix: TCP read and write handlers lost the strand they
 were bound to

boost::function hides the executor bound via bind_executor from asio, so recv_handler and send_handler (and the
intermediate steps of async_read and async_write) ran outside rw_strand, concurrently on the same socket.
---
 include/tcp/socket.h              |  9 ++++-----
 include/tcp/websocket/websocket.h | 12 +++++-------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 6452f5f..834b06b 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -23,10 +23,9 @@ public:
 	reader_writer(boost::asio::io_context& io_context_) : Socket(io_context_) {}
 	template<typename Arg> reader_writer(boost::asio::io_context& io_context_, Arg& arg) : Socket(io_context_, arg) {}
 
-	typedef boost::function<void(const boost::system::error_code& ec, size_t bytes_transferred)> ReadWriteCallBack;
-
 protected:
-	bool async_read(const ReadWriteCallBack& call_back)
+	//do not erase the type of call_back (via boost::function for example), otherwise the strand bound to it will be lost
+	template<typename CallBack> bool async_read(CallBack call_back)
 	{
 		BOOST_AUTO(recv_buff, ST_THIS unpacker()->prepare_next_recv());
 		assert(boost::asio::buffer_size(recv_buff) > 0);
@@ -50,8 +49,8 @@ protected:
 		return boost::asio::detail::default_max_transfer_size;
 #endif
 	}
-	template<typename Buffer>
-	void async_write(const Buffer& msg_can, const ReadWriteCallBack& call_back) {boost::asio::async_write(ST_THIS next_layer(), msg_can, call_back);}
+	template<typename Buffer, typename CallBack>
+	void async_write(const Buffer& msg_can, CallBack call_back) {boost::asio::async_write(ST_THIS next_layer(), msg_can, call_back);}
 
 private:
 	size_t completion_checker(const boost::system::error_code& ec, size_t bytes_transferred)
diff --git a/include/tcp/websocket/websocket.h b/include/tcp/websocket/websocket.h
index c6e13fa..4dfe59b 100644
--- a/include/tcp/websocket/websocket.h
+++ b/include/tcp/websocket/websocket.h
@@ -46,13 +46,11 @@ class stream : public LowestLayerGetter<boost::beast::websocket::stream<NextLaye
 private:
 	typedef LowestLayerGetter<boost::beast::websocket::stream<NextLayer>> super;
 
-public:
-	typedef boost::function<void(const boost::system::error_code& ec, size_t bytes_transferred)> ReadWriteCallBack;
-
 public:
 	template<class... Args> explicit stream(Args&&... args) : super(std::forward<Args>(args)...) {first_init();}
 
-	void async_read(const ReadWriteCallBack& call_back) {super::async_read(recv_buff, call_back);}
+	//do not erase the type of call_back (via boost::function for example), otherwise the strand bound to it will be lost
+	template<typename CallBack> void async_read(CallBack call_back) {super::async_read(recv_buff, call_back);}
 	template<typename OutMsgType> bool parse_msg(list<OutMsgType>& msg_can)
 	{
 #if BOOST_VERSION < 107000
@@ -65,7 +63,7 @@ public:
 
 		return re;
 	}
-	template<typename Buffer> void async_write(const Buffer& buff, const ReadWriteCallBack& call_back) {super::async_write(buff, call_back);}
+	template<typename Buffer, typename CallBack> void async_write(const Buffer& buff, CallBack call_back) {super::async_write(buff, call_back);}
 
 protected:
 	//helper function, just call it in constructor
@@ -82,11 +80,11 @@ public:
 	template<typename Arg> reader_writer(boost::asio::io_context& io_context_, Arg& arg) : Socket(io_context_, arg) {}
 
 protected:
-	template<typename CallBack> bool async_read(const CallBack& call_back) {this->next_layer().async_read(call_back); return true;}
+	template<typename CallBack> bool async_read(CallBack call_back) {this->next_layer().async_read(call_back); return true;}
 	bool parse_msg(size_t bytes_transferred, list<OutMsgType>& msg_can) {return this->next_layer().parse_msg(msg_can);}
 
 	size_t batch_msg_send_size() const {return 0;}
-	template<typename Buffer, typename CallBack> void async_write(const Buffer& msg_can, const CallBack& call_back) {this->next_layer().async_write(msg_can, call_back);}
+	template<typename Buffer, typename CallBack> void async_write(const Buffer& msg_can, CallBack call_back) {this->next_layer().async_write(msg_can, call_back);}
 };
 
 template<typename Socket> class socket : public Socket
-- 
2.43.0


From da3831c68aac6ccd81b17ae1156f459a50301607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:33 +0000
Subject: [PATCH 03/23] fix: SSL and websocket closing handshakes ran outside
 the IO strand

---
 include/tcp/socket.h              | 2 +-
 include/tcp/ssl/ssl.h             | 3 ++-
 include/tcp/websocket/websocket.h | 4 ++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 834b06b..1a1d73b 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -481,13 +481,13 @@ private:
 
 protected:
 	volatile link_status status;
+	using super::rw_strand;
 
 private:
 	using super::stat;
 	using super::temp_msg_can;
 
 	using super::send_buffer;
-	using super::rw_strand;
 
 	//although boost::container::list::size() has constant complexity, but user can use std::list via macro or template parameter,
 	//before gcc 5.0, std::list::size() has linear complexity, very embarrassing!
diff --git a/include/tcp/ssl/ssl.h b/include/tcp/ssl/ssl.h
index dc9c635..6310b51 100644
--- a/include/tcp/ssl/ssl.h
+++ b/include/tcp/ssl/ssl.h
@@ -50,7 +50,8 @@ private:
 	{
 		ST_THIS show_info("ssl link:", "been shutting down.");
 		ST_THIS start_graceful_shutdown_monitoring();
-		ST_THIS next_layer().async_shutdown(ST_THIS make_handler_error(boost::bind(&socket::shutdown_handler, this, boost::asio::placeholders::error)));
+		ST_THIS next_layer().async_shutdown(make_strand_handler(ST_THIS rw_strand,
+			ST_THIS make_handler_error(boost::bind(&socket::shutdown_handler, this, boost::asio::placeholders::error))));
 	}
 
 	//do not stop the shutdown monitoring at here, sometimes, this async_shutdown cannot trigger on_recv_error,
diff --git a/include/tcp/websocket/websocket.h b/include/tcp/websocket/websocket.h
index 4dfe59b..792b6f2 100644
--- a/include/tcp/websocket/websocket.h
+++ b/include/tcp/websocket/websocket.h
@@ -108,11 +108,11 @@ protected:
 		this->dispatch_in_io_strand([this]() {
 			this->show_info("websocket link:", "been shutting down.");
 			this->start_graceful_shutdown_monitoring();
-			this->next_layer().async_close(boost::beast::websocket::close_code::normal, this->make_handler_error([this](const boost::system::error_code& ec) {
+			this->next_layer().async_close(boost::beast::websocket::close_code::normal, make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {
 				this->stop_graceful_shutdown_monitoring();
 				if (ec)
 					this->show_info(ec, "websocket link", "async shutdown failed");
-			}));
+			})));
 		});
 	}
 };
-- 
2.43.0


From 1f64932856cf8b0ce27c7f095d64f5ad372c2629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 04/23] fix: a socket restarted by after_close (or later) is no
 longer marked obsolete

---
 include/socket.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/socket.h b/include/socket.h
index 7cb1e52..7c73099 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -153,7 +153,12 @@ public:
 		{
 			scope_atomic_lock lock(start_atomic);
 			if (!started_ && lock.locked())
-				started_ = do_start();
+			{
+				bool obsoleted = obsoleted_;
+				obsoleted_ = false; //a restarted (without being reset) socket must not be freed or reused by its owner
+				if (!(started_ = do_start()))
+					obsoleted_ = obsoleted;
+			}
 			else
 				unified_out::error_out(ST_ASIO_LLF " starting failed.", id());
 		}
@@ -806,8 +811,11 @@ private:
 			on_close();
 			change_timer_status(id, timer_info::TIMER_CANCELED);
 			after_close();
-			set_async_calling(false);
-			obsoleted_ = true;
+			if (!is_timer(id)) //after_close can restart this socket, then it even can be closed again
+			{
+				set_async_calling(false);
+				obsoleted_ = !started_;
+			}
 			break;
 		default:
 			assert(false);
-- 
2.43.0


From 95d4622d931a654331d7b6a77da5d09783d96a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:13 +0000
Subject: [PATCH 05/23] fix: in batch dispatching, messages that arrive while a
 re-dispatching finds the receive buffer emptied must not be stranded

---
 include/socket.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/socket.h b/include/socket.h
index 7c73099..8b9dde0 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -779,8 +779,11 @@ private:
 				post_in_dis_strand(boost::bind(&socket::do_dispatch_msg, this)); //dispatch msg in sequence
 			}
 		}
-		else
+		else if (dispatching) //the declined messages have been taken away by the user
+		{
 			dispatching = false;
+			post_in_dis_strand(boost::bind(&socket::do_dispatch_msg, this)); //messages arrived before the previous statement have not been dispatched
+		}
 	}
 
 	bool timer_handler(tid id)
-- 
2.43.0


From 3a17b1dc9c3a46be9cbfdc671aff1cc9463dc89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:30 +0000
Subject: [PATCH 06/23] fix: closing a socket must not lose the notification of
 sync_recv_msg

---
 include/socket.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/socket.h b/include/socket.h
index 8b9dde0..d99fe15 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -441,9 +441,14 @@ protected:
 		if (!started_)
 			return false;
 
-		started_ = false;
 #ifdef ST_ASIO_SYNC_RECV
+		boost::unique_lock<boost::mutex> sync_recv_lock(sync_recv_mutex); //otherwise, the notification can be lost between the checking and the waiting
+		started_ = false;
+		sync_recv_lock.unlock();
+
 		sync_recv_cv.notify_all();
+#else
+		started_ = false;
 #endif
 		stop_all_timer();
 
-- 
2.43.0


From 955fac598dfa59f701da5c361c56a64d8a13f99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 07/23] fix: answer the callers of sync sending whose messages
 are still queued when the link breaks

---
 include/socket.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/socket.h b/include/socket.h
index d99fe15..e40a8f5 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -344,7 +344,13 @@ protected:
 	// in this socket except this socket itself, because this socket maybe is being maintained by object_pool.
 	//otherwise (bigger than zero), socket simply call this callback ST_ASIO_DELAY_CLOSE seconds later after link down, no any guarantees.
 	//if you overwrote this callback, do not forget to call parent class' on_close at the end.
-	virtual void on_close() {unified_out::info_out(ST_ASIO_LLF " on_close()", id());}
+	virtual void on_close()
+	{
+#ifdef ST_ASIO_SYNC_SEND
+		send_buffer.do_something_to_all(boost::bind(&socket::abandon_sync_sending, boost::placeholders::_1)); //the link has broken, answer the callers
+#endif
+		unified_out::info_out(ST_ASIO_LLF " on_close()", id());
+	}
 	virtual void after_close() {} //a good case for using this is to reconnect the server, please refer to client_socket_base.
 
 #ifdef ST_ASIO_SYNC_DISPATCH
@@ -429,6 +435,11 @@ protected:
 	void clear_sending() {sending.store(0, boost::memory_order_release);}
 	bool test_and_set_sending() {return 1 == sending.exchange(1, boost::memory_order_acq_rel);}
 
+#ifdef ST_ASIO_SYNC_SEND
+	//the caller of the sync sending will not be answered again, no matter msg will be sent in the future or not.
+	static void abandon_sync_sending(in_msg& msg) {if (msg.p) {msg.p->set_value(NOT_APPLICABLE); msg.p.reset();}}
+#endif
+
 	//subclass notify shutdown event
 	bool close(bool use_close = false) //if not use_close, shutdown (both direction) will be used
 	{
-- 
2.43.0


From 3cad42433bb243e32adfc169d3c93e4fb37da6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 08/23] fix: answer the callers of sync sending whose messages
 are discarded by shrinking the send buffer

---
 include/socket.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/socket.h b/include/socket.h
index e40a8f5..e2a6d61 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -420,6 +420,10 @@ protected:
 		send_buffer.move_items_out_(size, msg_can);
 		send_buffer.unlock();
 
+#ifdef ST_ASIO_SYNC_SEND
+		for (BOOST_AUTO(iter, msg_can.begin()); iter != msg_can.end(); ++iter)
+			abandon_sync_sending(*iter);
+#endif
 		on_msg_discard(msg_can);
 		return true;
 	}
-- 
2.43.0


From 1eed54fec4adf4ec2d9cad52a9b63061335fd9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:44 +0000
Subject: [PATCH 09/23] fix: adding an empty statistic::duration clears the
 minimum gathered so far

---
 include/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/base.h b/include/base.h
index c6dbbd0..b1fd3c1 100644
--- a/include/base.h
+++ b/include/base.h
@@ -361,7 +361,7 @@ struct statistic
 
 			if (max_duration < other.max_duration)
 				max_duration = other.max_duration;
-			if (0 == min_duration.count() || min_duration > other.min_duration)
+			if (other.num > 0 && (0 == min_duration.count() || min_duration > other.min_duration)) //other can be empty
 				min_duration = other.min_duration;
 
 			return *this;
-- 
2.43.0


From cdba873dba89a88b0d0cc91c807b9669921e3fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:48 +0000
Subject: [PATCH 10/23] fix: callbacks::g_socket could not be used with udp
 sockets (on_send_error has a different parameter there)

---
 include/ext/callbacks.h | 4 ++--
 include/tcp/socket.h    | 2 ++
 include/udp/socket.h    | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ext/callbacks.h b/include/ext/callbacks.h
index 51b19bd..4c665fc 100644
--- a/include/ext/callbacks.h
+++ b/include/ext/callbacks.h
@@ -48,7 +48,7 @@ public:
 	typedef void fo_send_heartbeat(Socket*);
 	typedef void fo_reset(Socket*);
 	typedef bool fo_on_heartbeat_error(Socket*);
-	typedef void fo_on_send_error(Socket*, const boost::system::error_code&, typename Socket::in_container_type&);
+	typedef void fo_on_send_error(Socket*, const boost::system::error_code&, typename Socket::send_error_type&);
 	typedef void fo_on_recv_error(Socket*, const boost::system::error_code&);
 	typedef void fo_on_close(Socket*);
 	typedef void fo_after_close(Socket*);
@@ -110,7 +110,7 @@ private:
 	call_cb_combine(Socket, is_ready)
 	call_cb_void(Socket, send_heartbeat)
 	call_cb_combine(Socket, on_heartbeat_error)
-	virtual void on_send_error(const boost::system::error_code& ec, typename Socket::in_container_type& msg_can) call_cb_2_void(Socket, on_send_error, ec, msg_can)
+	virtual void on_send_error(const boost::system::error_code& ec, typename Socket::send_error_type& msg_can) call_cb_2_void(Socket, on_send_error, ec, msg_can)
 	virtual void on_recv_error(const boost::system::error_code& ec) call_cb_1_void(Socket, on_recv_error, ec)
 	call_cb_void(Socket, on_close)
 	call_cb_void(Socket, after_close)
diff --git a/include/tcp/socket.h b/include/tcp/socket.h
index 1a1d73b..49f0547 100644
--- a/include/tcp/socket.h
+++ b/include/tcp/socket.h
@@ -81,6 +81,8 @@ protected:
 	template<typename Arg> socket_base(boost::asio::io_context& io_context_, Arg& arg) : super(io_context_, arg), status(BROKEN) {}
 
 public:
+	typedef typename super::in_container_type send_error_type; //what on_send_error provides
+
 	static const typename super::tid TIMER_BEGIN = super::TIMER_END;
 	static const typename super::tid TIMER_ASYNC_SHUTDOWN = TIMER_BEGIN;
 	static const typename super::tid TIMER_END = TIMER_BEGIN + 5;
diff --git a/include/udp/socket.h b/include/udp/socket.h
index b615c46..5327a21 100644
--- a/include/udp/socket.h
+++ b/include/udp/socket.h
@@ -32,6 +32,8 @@ private:
 	typedef socket<Socket, Packer, Unpacker, in_msg_type, out_msg_type, InQueue, InContainer, OutQueue, OutContainer> super;
 
 public:
+	typedef typename super::in_msg send_error_type; //what on_send_error provides
+
 	static bool set_addr(boost::asio::ip::udp::endpoint& endpoint, unsigned short port, const std::string& ip)
 	{
 		if (ip.empty())
-- 
2.43.0


From 58bf9721fec36a0ddf09a43a518efc1e5760d50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:05 +0000
Subject: [PATCH 11/23] fix: restore_socket (init) brought a removed object
 back into object_can, so it was active and discarded at the same time

---
 include/object_pool.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/object_pool.h b/include/object_pool.h
index 25b7a84..5c62624 100644
--- a/include/object_pool.h
+++ b/include/object_pool.h
@@ -135,6 +135,9 @@ protected:
 			return true;
 
 		boost::lock_guard<ST_ASIO_SHARED_MUTEX_TYPE> lock(object_can_mutex);
+		BOOST_AUTO(iter, object_can.find(object_ptr->id()));
+		if (iter == object_can.end() || iter->second != object_ptr) //object_ptr has been removed (or not added yet), don't bring it in
+			return false;
 		if (!object_can.emplace(id, object_ptr).second)
 			return false;
 
-- 
2.43.0


From f89a14c899a2b05c71b2d7371480ee27605919b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:37 +0000
Subject: [PATCH 12/23] fix: a failed listen() left the server in listening
 state with a bound acceptor

---
 include/tcp/server.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/tcp/server.h b/include/tcp/server.h
index 141d288..42bb31b 100644
--- a/include/tcp/server.h
+++ b/include/tcp/server.h
@@ -118,7 +118,13 @@ public:
 #else
 		acceptor.listen(boost::asio::socket_base::max_connections, ec); assert(!ec);
 #endif
-		if (ec) {unified_out::error_out("listen failed."); return false;}
+		if (ec)
+		{
+			unified_out::error_out("listen failed.");
+			listening = false;
+			acceptor.close(ec); //it has been bound, so cannot be bound again
+			return false;
+		}
 
 		st_asio_wrapper::do_something_to_all(sockets, boost::bind(&generic_server::do_async_accept, this, boost::placeholders::_1));
 		return true;
-- 
2.43.0


From 44726fcf476628abce17cd9d72fbe98b546becf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:37 +0000
Subject: [PATCH 13/23] fix: a new accept could be started after the listening
 had been stopped

---
 include/tcp/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tcp/server.h b/include/tcp/server.h
index 42bb31b..dece944 100644
--- a/include/tcp/server.h
+++ b/include/tcp/server.h
@@ -209,7 +209,7 @@ protected:
 	virtual void uninit() {ST_THIS stop(); stop_listen(); force_shutdown();} //if you wanna graceful shutdown, call graceful_shutdown before service_pump::stop_service invocation.
 
 	virtual int async_accept_num() {return ST_ASIO_ASYNC_ACCEPT_NUM;}
-	virtual void start_next_accept() {boost::lock_guard<boost::mutex> lock(mutex); do_async_accept(create_object());}
+	virtual void start_next_accept() {boost::lock_guard<boost::mutex> lock(mutex); if (is_listening()) do_async_accept(create_object());}
 	virtual bool on_accept(typename Pool::object_ctype& socket_ptr) {return true;}
 
 	//if you want to ignore this error and continue to accept new connections immediately, return true in this virtual function;
-- 
2.43.0


From 9b1809d513dca84c3f4ddd7fd87416a113b1a1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:24 +0000
Subject: [PATCH 14/23] fix: an exception escaping calc_shrink_size() left the
 send buffer locked for ever

---
 include/socket.h | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/include/socket.h b/include/socket.h
index e2a6d61..507792a 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -403,22 +403,17 @@ protected:
 
 	bool shrink_send_buffer()
 	{
-		send_buffer.lock();
-		size_t size = send_buffer.size_in_byte();
-		if (size < send_buf_size_)
-		{
-			send_buffer.unlock();
-			return true;
-		}
-		else if (0 == (size = calc_shrink_size(size)))
+		in_container_type msg_can;
 		{
-			send_buffer.unlock();
-			return false;
-		}
+			typename in_queue_type::lock_guard lock(send_buffer); //calc_shrink_size and move_items_out_ can throw
+			size_t size = send_buffer.size_in_byte();
+			if (size < send_buf_size_)
+				return true;
+			else if (0 == (size = calc_shrink_size(size)))
+				return false;
 
-		in_container_type msg_can;
-		send_buffer.move_items_out_(size, msg_can);
-		send_buffer.unlock();
+			send_buffer.move_items_out_(size, msg_can);
+		}
 
 #ifdef ST_ASIO_SYNC_SEND
 		for (BOOST_AUTO(iter, msg_can.begin()); iter != msg_can.end(); ++iter)
-- 
2.43.0


From cd1484426640009d650e71d2733324b7ff386ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:50 +0000
Subject: [PATCH 15/23] fix: on_close and after_close ran with the start gate
 held when the service was stopped, closing again in them never returned

---
 include/socket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/socket.h b/include/socket.h
index 507792a..90962e2 100644
--- a/include/socket.h
+++ b/include/socket.h
@@ -472,6 +472,8 @@ protected:
 
 		if (stopped())
 		{
+			lock.unlock(); //otherwise, closing this socket again in following virtual functions will wait for ever
+
 			unpacker_->reset(); //very important, otherwise, the unpacker will never be able to parse any more messages if its buffer has legacy data
 			on_close();
 			after_close();
-- 
2.43.0


From 07f6ed71403b5dea3f356d7443e24d96c76ae204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:58 +0000
Subject: [PATCH 16/23] fix: reconnect again, or give up, when the local
 address cannot be bound for a reconnection

---
 include/tcp/client_socket.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tcp/client_socket.h b/include/tcp/client_socket.h
index 643a33d..56fc7db 100644
--- a/include/tcp/client_socket.h
+++ b/include/tcp/client_socket.h
@@ -185,7 +185,10 @@ private:
 	bool connect(bool first)
 	{
 		if (!first && !bind())
+		{
+			connect_handler(boost::asio::error::address_in_use); //try again later, or give up, as prepare_reconnect says
 			return false;
+		}
 
 		ST_THIS lowest_layer().async_connect(server_addr, ST_THIS make_handler_error(boost::bind(&generic_client_socket::connect_handler, this, boost::asio::placeholders::error)));
 		return true;
-- 
2.43.0


From 7f5106882b00aaf0f2569ce63cb7b6b497e3e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:08 +0000
Subject: [PATCH 17/23] fix: a graceful shutdown requested during the
 negotiation with a proxy is not undone when the negotiation succeeds

---
 include/tcp/client_socket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tcp/client_socket.h b/include/tcp/client_socket.h
index 56fc7db..d5affa5 100644
--- a/include/tcp/client_socket.h
+++ b/include/tcp/client_socket.h
@@ -130,7 +130,7 @@ protected:
 
 	virtual void connect_handler(const boost::system::error_code& ec)
 	{
-		if (!ec) //already started, so cannot call start()
+		if (!ec && !ST_THIS is_shutting_down()) //already started, so cannot call start(), maybe been shut down during the negotiation (with a proxy for example)
 			super::do_start();
 		else
 		{
-- 
2.43.0


From b7d795aea18c7dcb29fd1cb2584be044c8d32be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:04 +0000
Subject: [PATCH 18/23] fix: keep watching a websocket's graceful shutdown
 until the link is closed

---
 include/tcp/websocket/websocket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tcp/websocket/websocket.h b/include/tcp/websocket/websocket.h
index 792b6f2..12b11b4 100644
--- a/include/tcp/websocket/websocket.h
+++ b/include/tcp/websocket/websocket.h
@@ -109,7 +109,7 @@ protected:
 			this->show_info("websocket link:", "been shutting down.");
 			this->start_graceful_shutdown_monitoring();
 			this->next_layer().async_close(boost::beast::websocket::close_code::normal, make_strand_handler(this->rw_strand, this->make_handler_error([this](const boost::system::error_code& ec) {
-				this->stop_graceful_shutdown_monitoring();
+				//do not stop the shutdown monitoring at here, without a pending reading, nobody else will notice that the link has gone.
 				if (ec)
 					this->show_info(ec, "websocket link", "async shutdown failed");
 			})));
-- 
2.43.0


From 7ec090a3b14895486d7c7638eb0bf98148cb2663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:33 +0000
Subject: [PATCH 19/23] fix: a socks5 proxy set up with an ip address after a
 host name kept being asked for the host name

---
 include/tcp/proxy/socks.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index 8ce3e13..2c4a7f3 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -139,6 +139,8 @@ public:
 		}
 		else if (!target_addr.address().is_v4() && !target_addr.address().is_v6())
 			return false;
+		else
+			target_domain.clear();
 
 		step = 0;
 		return true;
-- 
2.43.0


From cee370e1eb52915b758ce5190a8d3efde903668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:33 +0000
Subject: [PATCH 20/23] fix: a socks5 reply with a bound host name longer than
 127 bytes was misread

---
 include/tcp/proxy/socks.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index 2c4a7f3..e68fed9 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -327,7 +327,7 @@ private:
 					if (1 == buff[3])
 						len += 4;
 					else if (3 == buff[3])
-						len += 1 + buff[4];
+						len += 1 + (unsigned char) buff[4];
 					else if (4 == buff[3])
 						len += 16;
 
-- 
2.43.0


From b03be5dd159256fec4b42ea7df5bd65c00c8af3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:33 +0000
Subject: [PATCH 21/23] fix: the reply of a socks4 proxy overwrote the request,
 so a reconnection sent a wrong request

---
 include/tcp/proxy/socks.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/tcp/proxy/socks.h b/include/tcp/proxy/socks.h
index e68fed9..c630e6d 100644
--- a/include/tcp/proxy/socks.h
+++ b/include/tcp/proxy/socks.h
@@ -75,20 +75,20 @@ private:
 			ST_THIS force_shutdown(false);
 		}
 		else
-			boost::asio::async_read(ST_THIS next_layer(), boost::asio::buffer(buff, 8),
+			boost::asio::async_read(ST_THIS next_layer(), boost::asio::buffer(res, sizeof(res)),
 				ST_THIS make_handler_error_size(boost::bind(&client_socket_base::recv_handler, this, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)));
 	}
 
 	void recv_handler(const boost::system::error_code& ec, size_t bytes_transferred)
 	{
-		if (ec || 8 != bytes_transferred)
+		if (ec || sizeof(res) != bytes_transferred)
 		{
 			unified_out::error_out(ST_ASIO_LLF " socks4 read error", ST_THIS id());
 			ST_THIS force_shutdown(false);
 		}
-		else if (90 != buff[1])
+		else if (90 != res[1])
 		{
-			unified_out::info_out(ST_ASIO_LLF " socks4 server error: %d", ST_THIS id(), (int) (unsigned char) buff[1]);
+			unified_out::info_out(ST_ASIO_LLF " socks4 server error: %d", ST_THIS id(), (int) (unsigned char) res[1]);
 			ST_THIS force_shutdown(false);
 		}
 		else
@@ -96,7 +96,8 @@ private:
 	}
 
 private:
-	char buff[16];
+	char buff[16]; //request, kept for reconnecting
+	char res[8];
 	size_t req_len;
 
 	boost::asio::ip::tcp::endpoint target_addr;
-- 
2.43.0


From 126e5e3bde93d97f2a4a09d17e1b0f03f7d9a1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:37 +0000
Subject: [PATCH 22/23] fix: references to contexts were not counted while the
 pump had a single context, so they underflowed when given back after more
 contexts were added

---
 include/service_pump.h | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index 59b0ddf..6a620ac 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -156,9 +156,6 @@ public:
 
 	boost::asio::io_context& assign_io_context(bool increase_ref = true) //pick the context which has the least references
 	{
-		if (single_ctx)
-			return context_can.front().io_context;
-
 		context* ctx = NULL;
 		unsigned refs = 0;
 
@@ -188,29 +185,23 @@ public:
 
 	void return_io_context(const boost::asio::execution_context& io_context, unsigned refs = 1)
 	{
-		if (!single_ctx)
-		{
-			boost::lock_guard<boost::mutex> lock(context_can_mutex);
-			for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
-				if (&io_context == &iter->io_context)
-				{
-					iter->refs -= refs;
-					break;
-				}
-		}
+		boost::lock_guard<boost::mutex> lock(context_can_mutex);
+		for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
+			if (&io_context == &iter->io_context)
+			{
+				iter->refs -= refs;
+				break;
+			}
 	}
 	void assign_io_context(const boost::asio::execution_context& io_context, unsigned refs = 1)
 	{
-		if (!single_ctx)
-		{
-			boost::lock_guard<boost::mutex> lock(context_can_mutex);
-			for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
-				if (&io_context == &iter->io_context)
-				{
-					iter->refs += refs;
-					break;
-				}
-		}
+		boost::lock_guard<boost::mutex> lock(context_can_mutex);
+		for (BOOST_AUTO(iter, context_can.begin()); iter != context_can.end(); ++iter)
+			if (&io_context == &iter->io_context)
+			{
+				iter->refs += refs;
+				break;
+			}
 	}
 
 	object_type find(int id)
-- 
2.43.0


From 09fe064b9b3158647d475da1e12dd8950b6ac0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:37 +0000
Subject: [PATCH 23/23] fix: with ST_ASIO_DECREASE_THREAD_AT_RUNTIME a thread
 ended although on_exception said to go on, and stayed counted when it said to
 end

---
 include/service_pump.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/service_pump.h b/include/service_pump.h
index 6a620ac..e41fa81 100644
--- a/include/service_pump.h
+++ b/include/service_pump.h
@@ -465,7 +465,15 @@ protected:
 #ifdef ST_ASIO_NO_TRY_CATCH
 			this_n = ctx->io_context.run_one();
 #else
-			try {this_n = ctx->io_context.run_one();} catch (const std::exception& e) {if (!on_exception(e)) break;}
+			try {this_n = ctx->io_context.run_one();}
+			catch (const std::exception& e)
+			{
+				if (on_exception(e))
+					continue;
+
+				--real_thread_num;
+				break;
+			}
 #endif
 			if (this_n > 0)
 				n += this_n; //n can overflow, please note.
-- 
2.43.0

