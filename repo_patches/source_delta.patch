From 47ea1a359c4eddb1ba2a386fb8058d6563616e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 01/49] Verification hooks for inline assembly atomics
 (SOFA_PBRPC_VERIF_HOOKS)

---
 src/sofa/pbrpc/atomic.h                       | 20 +++++++++++++++++++
 .../detail/sp_counted_base_gcc_x86.hpp        | 14 +++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/src/sofa/pbrpc/atomic.h b/src/sofa/pbrpc/atomic.h
index 85385a8..91d7086 100644
--- a/src/sofa/pbrpc/atomic.h
+++ b/src/sofa/pbrpc/atomic.h
@@ -11,22 +11,33 @@
 
 #include <stdint.h>
 
+// Verification builds report every inline assembly atomic operation, which compiler instrumentation cannot see.
+#ifdef SOFA_PBRPC_VERIF_HOOKS
+extern "C" void sofa_pbrpc_verif_atomic(const volatile void* addr);
+#define SOFA_PBRPC_VERIF_ATOMIC(addr) sofa_pbrpc_verif_atomic(addr)
+#else
+#define SOFA_PBRPC_VERIF_ATOMIC(addr) ((void)0)
+#endif
+
 namespace sofa {
 namespace pbrpc {
 
 template <typename T>
 inline void atomic_inc(volatile T* n)
 {
+    SOFA_PBRPC_VERIF_ATOMIC(n);
     asm volatile ("lock; incl %0;":"+m"(*n)::"cc");
 }
 template <typename T>
 inline void atomic_dec(volatile T* n)
 {
+    SOFA_PBRPC_VERIF_ATOMIC(n);
     asm volatile ("lock; decl %0;":"+m"(*n)::"cc");
 }
 template <typename T>
 inline T atomic_add_ret_old(volatile T* n, T v)
 {
+    SOFA_PBRPC_VERIF_ATOMIC(n);
     asm volatile ("lock; xaddl %1, %0;":"+m"(*n),"+r"(v)::"cc");
     return v;
 }
@@ -34,6 +45,7 @@ template <typename T>
 inline T atomic_inc_ret_old(volatile T* n)
 {
     T r = 1;
+    SOFA_PBRPC_VERIF_ATOMIC(n);
     asm volatile ("lock; xaddl %1, %0;":"+m"(*n), "+r"(r)::"cc");
     return r;
 }
@@ -41,12 +53,14 @@ template <typename T>
 inline T atomic_dec_ret_old(volatile T* n)
 {
     T r = (T)-1;
+    SOFA_PBRPC_VERIF_ATOMIC(n);
     asm volatile ("lock; xaddl %1, %0;":"+m"(*n), "+r"(r)::"cc");
     return r;
 }
 template <typename T>
 inline T atomic_add_ret_old64(volatile T* n, T v)
 {
+    SOFA_PBRPC_VERIF_ATOMIC(n);
     asm volatile ("lock; xaddq %1, %0;":"+m"(*n),"+r"(v)::"cc");
     return v;
 }
@@ -54,6 +68,7 @@ template <typename T>
 inline T atomic_inc_ret_old64(volatile T* n)
 {
     T r = 1;
+    SOFA_PBRPC_VERIF_ATOMIC(n);
     asm volatile ("lock; xaddq %1, %0;":"+m"(*n), "+r"(r)::"cc");
     return r;
 }
@@ -61,22 +76,26 @@ template <typename T>
 inline T atomic_dec_ret_old64(volatile T* n)
 {
     T r = (T)-1;
+    SOFA_PBRPC_VERIF_ATOMIC(n);
     asm volatile ("lock; xaddq %1, %0;":"+m"(*n), "+r"(r)::"cc");
     return r;
 }
 template <typename T>
 inline void atomic_add(volatile T* n, T v)
 {
+    SOFA_PBRPC_VERIF_ATOMIC(n);
     asm volatile ("lock; addl %1, %0;":"+m"(*n):"r"(v):"cc");
 }
 template <typename T>
 inline void atomic_sub(volatile T* n, T v)
 {
+    SOFA_PBRPC_VERIF_ATOMIC(n);
     asm volatile ("lock; subl %1, %0;":"+m"(*n):"r"(v):"cc");
 }
 template <typename T, typename C, typename D>
 inline T atomic_cmpxchg(volatile T* n, C cmp, D dest)
 {
+    SOFA_PBRPC_VERIF_ATOMIC(n);
     asm volatile ("lock; cmpxchgl %1, %0":"+m"(*n), "+r"(dest), "+a"(cmp)::"cc");
     return cmp;
 }
@@ -84,6 +103,7 @@ inline T atomic_cmpxchg(volatile T* n, C cmp, D dest)
 template <typename T>
 inline T atomic_swap(volatile T* lockword, T value)
 {
+    SOFA_PBRPC_VERIF_ATOMIC(lockword);
     asm volatile ("lock; xchg %0, %1;" : "+r"(value), "+m"(*lockword));
     return value;
 }
diff --git a/src/sofa/pbrpc/smart_ptr/detail/sp_counted_base_gcc_x86.hpp b/src/sofa/pbrpc/smart_ptr/detail/sp_counted_base_gcc_x86.hpp
index 11d4e95..31b87f1 100644
--- a/src/sofa/pbrpc/smart_ptr/detail/sp_counted_base_gcc_x86.hpp
+++ b/src/sofa/pbrpc/smart_ptr/detail/sp_counted_base_gcc_x86.hpp
@@ -15,6 +15,14 @@
 
 #include <typeinfo>
 
+// Verification builds report every inline assembly atomic operation, which compiler instrumentation cannot see.
+#ifdef SOFA_PBRPC_VERIF_HOOKS
+extern "C" void sofa_pbrpc_verif_refcount(const volatile void* addr);
+#define SOFA_PBRPC_VERIF_REFCOUNT(addr) sofa_pbrpc_verif_refcount(addr)
+#else
+#define SOFA_PBRPC_VERIF_REFCOUNT(addr) ((void)0)
+#endif
+
 namespace sofa {
 namespace pbrpc {
 namespace detail {
@@ -27,6 +35,8 @@ inline int atomic_exchange_and_add( int * pw, int dv )
 
     int r;
 
+    SOFA_PBRPC_VERIF_REFCOUNT( pw );
+
     __asm__ __volatile__
     (
         "lock\n\t"
@@ -43,6 +53,8 @@ inline void atomic_increment( int * pw )
 {
     //atomic_exchange_and_add( pw, 1 );
 
+    SOFA_PBRPC_VERIF_REFCOUNT( pw );
+
     __asm__
     (
         "lock\n\t"
@@ -61,6 +73,8 @@ inline int atomic_conditional_increment( int * pw )
 
     int rv, tmp;
 
+    SOFA_PBRPC_VERIF_REFCOUNT( pw );
+
     __asm__
     (
         "movl %0, %%eax\n\t"
-- 
2.43.0


From 5075e1d844fb1e52aaefd89dc5998f52368db221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 02/49] fix: do not overwrite the closed status of a stream
 closed while connecting

---
 src/sofa/pbrpc/rpc_byte_stream.h | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_byte_stream.h b/src/sofa/pbrpc/rpc_byte_stream.h
index a3b6dd7..159f50a 100644
--- a/src/sofa/pbrpc/rpc_byte_stream.h
+++ b/src/sofa/pbrpc/rpc_byte_stream.h
@@ -135,14 +135,25 @@ public:
 
         _last_rw_ticks = _ticks;
 
-        _status = STATUS_CONNECTING;
-        _socket.async_connect(_remote_endpoint,
-                boost::bind(&RpcByteStream::on_connect, shared_from_this(), _1));
+        // the stream may be closed concurrently, in which case the status must not be overwritten
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTING, (int)STATUS_INIT) != STATUS_INIT)
+        {
+            return;
+        }
+        // start the timer first, because on_connect() cancels it in another thread
         if (_connect_timeout > 0) 
         {
             _timer.expires_from_now(boost::posix_time::milliseconds(_connect_timeout));
             _timer.async_wait(boost::bind(&RpcByteStream::on_connect_timeout, shared_from_this(), _1));
         }
+        _socket.async_connect(_remote_endpoint,
+                boost::bind(&RpcByteStream::on_connect, shared_from_this(), _1));
+        if (is_closed())
+        {
+            // closed before the socket was opened, so close() could not abort the connecting
+            boost::system::error_code ec;
+            _socket.shutdown(tcp::socket::shutdown_both, ec);
+        }
     }
 
     // Update remote endpoint from socket.  Used by server.
@@ -218,7 +229,11 @@ public:
             return;
         }
 
-        _status = STATUS_CONNECTED;
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTED, (int)STATUS_INIT) != STATUS_INIT)
+        {
+            // already closed
+            return;
+        }
         trigger_receive();
         trigger_send();
     }
@@ -407,7 +422,11 @@ private:
                 RpcEndpointToString(_remote_endpoint).c_str());
 #endif
 
-        _status = STATUS_CONNECTED;
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTED, (int)STATUS_CONNECTING) != STATUS_CONNECTING)
+        {
+            // already closed
+            return;
+        }
         _timer.cancel();
 
         trigger_receive();
-- 
2.43.0


From 6dc151f33481251cabb17c1e9737fe4cdeaecee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 03/49] fix: calls racing with RpcClient::Shutdown() used
 released objects

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc |  2 +-
 src/sofa/pbrpc/rpc_client_impl.cc          | 53 +++++++++++++++++-----
 src/sofa/pbrpc/rpc_client_impl.h           | 12 ++++-
 src/sofa/pbrpc/simple_rpc_channel_impl.cc  |  2 +-
 4 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index 87be808..740da25 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -186,7 +186,7 @@ void DynamicRpcChannelImpl::CallMethod(
         cntl->SetFailed(choose_ret, "choose server failed in dynamic channel");
         CallDone(server, cntl);
         if (done != NULL) {
-            _client_impl->GetCallbackThreadGroup()->post(done);
+            _client_impl->RunCallback(done);
         }
         return;
     }
diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index ae08b10..22f592a 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -21,6 +21,7 @@ RpcClientImpl::RpcClientImpl(const RpcClientOptions& options)
     , _ticks_per_second(time_duration_seconds(1).ticks())
     , _last_maintain_ticks(0)
     , _last_print_connection_ticks(0)
+    , _callback_running(false)
 {
     _slice_count = std::max(1, 1000 / MAINTAIN_INTERVAL_IN_MS);
     _slice_quota_in = _options.max_throughput_in == -1 ?
@@ -74,6 +75,10 @@ void RpcClientImpl::Start()
     _callback_thread_group.reset(new ThreadGroupImpl(
                 _options.callback_thread_num, "sofa_pbrpc_client_callback_thread_group"));
     _callback_thread_group->start();
+    {
+        ScopedLocker<FastLock> _(_callback_lock);
+        _callback_running = true;
+    }
 
     _work_thread_group.reset(new ThreadGroupImpl(
                 _options.work_thread_num, "sofa_pbrpc_client_work_thread_group"));
@@ -103,21 +108,22 @@ void RpcClientImpl::Stop()
     if (!_is_running) return;
     _is_running = false;
 
+    // ATTENTION: calls may be running concurrently in CallMethod() and may complete
+    // at any time, so the objects they use are only stopped here, but not released.
     _timeout_manager->stop();
     _timer_worker->stop();
     StopStreams();
     _work_thread_group->stop();
-
-    _timeout_manager.reset();
+    _maintain_thread_group->stop();
     _timer_worker.reset();
     ClearStreams();
-    _callback_thread_group->stop();
-    _maintain_thread_group->stop();
 
-    _work_thread_group.reset();
-    _callback_thread_group.reset();
-    _maintain_thread_group.reset();
-    _flow_controller.reset();
+    // all pending calls are done now, wait for their callbacks
+    {
+        ScopedLocker<FastLock> _(_callback_lock);
+        _callback_running = false;
+    }
+    _callback_thread_group->stop();
 
 #if defined( LOG )
     LOG(INFO) << "Stop(): rpc client stopped";
@@ -351,9 +357,18 @@ void RpcClientImpl::CallMethod(const google::protobuf::Message* request,
     stream->call_method(cntl);
 }
 
-const ThreadGroupImplPtr& RpcClientImpl::GetCallbackThreadGroup() const
+void RpcClientImpl::RunCallback(google::protobuf::Closure* done)
 {
-    return _callback_thread_group;
+    {
+        ScopedLocker<FastLock> _(_callback_lock);
+        if (_callback_running)
+        {
+            _callback_thread_group->post(done);
+            return;
+        }
+    }
+    // client stopped, no callback thread any more
+    done->Run();
 }
 
 bool RpcClientImpl::ResolveAddress(const std::string& address,
@@ -368,6 +383,11 @@ RpcClientStreamPtr RpcClientImpl::FindOrCreateStream(const RpcEndpoint& remote_e
     bool create = false;
     {
         ScopedLocker<FastLock> _(_stream_map_lock);
+        if (!_is_running)
+        {
+            // stopped after checked in CallMethod(), should not create stream any more
+            return stream;
+        }
         StreamMap::iterator find = _stream_map.find(remote_endpoint);
         if (find != _stream_map.end() && !find->second->is_closed())
         {
@@ -381,7 +401,8 @@ RpcClientStreamPtr RpcClientImpl::FindOrCreateStream(const RpcEndpoint& remote_e
             stream->reset_ticks((ptime_now() - _epoch_time).ticks(), true);
             stream->set_connect_timeout(_options.connect_timeout);
             stream->set_closed_stream_callback(
-                    boost::bind(&RpcClientImpl::OnClosed, shared_from_this(), _1));
+                    boost::bind(&RpcClientImpl::OnStreamClosed,
+                        RpcClientImplWPtr(shared_from_this()), _1));
             stream->set_no_delay(_options.no_delay);
 
             _stream_map[remote_endpoint] = stream;
@@ -395,6 +416,16 @@ RpcClientStreamPtr RpcClientImpl::FindOrCreateStream(const RpcEndpoint& remote_e
     return stream;
 }
 
+void RpcClientImpl::OnStreamClosed(const RpcClientImplWPtr& weak_client,
+        const RpcClientStreamPtr& stream)
+{
+    RpcClientImplPtr client = weak_client.lock();
+    if (client)
+    {
+        client->OnClosed(stream);
+    }
+}
+
 void RpcClientImpl::OnClosed(const RpcClientStreamPtr& stream)
 {
     if (!_is_running)
diff --git a/src/sofa/pbrpc/rpc_client_impl.h b/src/sofa/pbrpc/rpc_client_impl.h
index b3307d5..e26d2b2 100644
--- a/src/sofa/pbrpc/rpc_client_impl.h
+++ b/src/sofa/pbrpc/rpc_client_impl.h
@@ -19,6 +19,9 @@
 namespace sofa {
 namespace pbrpc {
 
+class RpcClientImpl;
+typedef sofa::pbrpc::weak_ptr<RpcClientImpl> RpcClientImplWPtr;
+
 class RpcClientImpl: public sofa::pbrpc::enable_shared_from_this<RpcClientImpl>
 {
 public:
@@ -49,7 +52,9 @@ public:
             google::protobuf::Message* response,
             const RpcControllerImplPtr& cntl);
 
-    const ThreadGroupImplPtr& GetCallbackThreadGroup() const;
+    // Run "done" in the callback thread group.  If the callback thread group is not
+    // running any more, then run it directly.
+    void RunCallback(google::protobuf::Closure* done);
 
     bool ResolveAddress(const std::string& address,
             RpcEndpoint* endpoint);
@@ -60,6 +65,9 @@ private:
 
     void OnClosed(const RpcClientStreamPtr& stream);
 
+    static void OnStreamClosed(const RpcClientImplWPtr& weak_client,
+            const RpcClientStreamPtr& stream);
+
     void StopStreams();
 
     void ClearStreams();
@@ -109,6 +117,8 @@ private:
 
     ThreadGroupImplPtr _maintain_thread_group;
     ThreadGroupImplPtr _callback_thread_group;
+    bool _callback_running; // protected by _callback_lock
+    FastLock _callback_lock;
     ThreadGroupImplPtr _work_thread_group;
 
     TimerWorkerPtr _timer_worker;
diff --git a/src/sofa/pbrpc/simple_rpc_channel_impl.cc b/src/sofa/pbrpc/simple_rpc_channel_impl.cc
index 4d672ed..ceba44b 100644
--- a/src/sofa/pbrpc/simple_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/simple_rpc_channel_impl.cc
@@ -175,7 +175,7 @@ void SimpleRpcChannelImpl::DoneCallback(google::protobuf::Closure* done,
     else
     {
         SCHECK(done != NULL);
-        _client_impl->GetCallbackThreadGroup()->post(done);
+        _client_impl->RunCallback(done);
     }
 }
 
-- 
2.43.0


From 04c083487b633eaa1b1d5cd46faa717fe2a63812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 04/49] fix: do not close a connection as idle just when a long
 call on it completes

---
 src/sofa/pbrpc/rpc_client_impl.cc  | 5 +++--
 src/sofa/pbrpc/rpc_server_impl.cc  | 5 +++--
 src/sofa/pbrpc/rpc_server_stream.h | 2 ++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 22f592a..9c3eb0e 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -520,8 +520,9 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
                 {
                     continue;
                 }
-                if (now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks
-                        && stream->pending_process_count() == 0)
+                // check the count first, because last rw ticks is updated before it decreases
+                if (stream->pending_process_count() == 0
+                        && now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks)
                 {
                     stream->close("keep alive timeout: "
                                   + boost::lexical_cast<std::string>(_options.keep_alive_time)
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 16455fb..3081a75 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -508,8 +508,9 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
                 {
                     continue;
                 }
-                if (now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks
-                        && stream->pending_process_count() == 0)
+                // check the count first, because last rw ticks is updated before it decreases
+                if (stream->pending_process_count() == 0
+                        && now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks)
                 {
                     stream->close("keep alive timeout: "
                                   + boost::lexical_cast<std::string>(_options.keep_alive_time)
diff --git a/src/sofa/pbrpc/rpc_server_stream.h b/src/sofa/pbrpc/rpc_server_stream.h
index 6946a9b..8b58378 100644
--- a/src/sofa/pbrpc/rpc_server_stream.h
+++ b/src/sofa/pbrpc/rpc_server_stream.h
@@ -75,6 +75,8 @@ public:
     // Decrease pending process count.
     void decrease_pending_process_count()
     {
+        // a connection is not idle while processing, so idle time counts from now
+        _last_rw_ticks = _ticks;
         --_pending_process_count;
     }
 
-- 
2.43.0


From 6486000025a6e2302f082ce8adcf43fc7fc2b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 05/49] fix: stop all threads of an IOServicePool before
 destroying its io services

---
 src/sofa/pbrpc/io_service_pool.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sofa/pbrpc/io_service_pool.cc b/src/sofa/pbrpc/io_service_pool.cc
index 1b1aaaa..a968e4d 100644
--- a/src/sofa/pbrpc/io_service_pool.cc
+++ b/src/sofa/pbrpc/io_service_pool.cc
@@ -49,6 +49,10 @@ void IOServicePool::Stop()
     for (size_t i = 0; i < pool_size; ++i)
     {
         _pool[i]->stop();
+    }
+    // reset after all threads have finished, because they may use any of the io services
+    for (size_t i = 0; i < pool_size; ++i)
+    {
         _pool[i].reset();
     }
 }
-- 
2.43.0


From 35e5a88b71e64e59bdee5f1ba44b61d6197ad726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 06/49] fix: close a connection accepted while the server is
 being stopped

---
 src/sofa/pbrpc/rpc_server_impl.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 3081a75..2b8dd4d 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -417,8 +417,16 @@ void RpcServerImpl::OnAccepted(const RpcServerStreamPtr& stream)
     stream->set_max_pending_buffer_size(_max_pending_buffer_size);
     stream->reset_ticks((ptime_now() - _start_time).ticks(), true);
 
-    ScopedLocker<FastLock> _(_stream_set_lock);
-    _stream_set.insert(stream);
+    {
+        ScopedLocker<FastLock> _(_stream_set_lock);
+        if (_is_running)
+        {
+            _stream_set.insert(stream);
+            return;
+        }
+    }
+    // stopped meanwhile, and StopStreams() may have missed this stream
+    stream->close("server not running");
 }
 
 void RpcServerImpl::OnAcceptFailed(RpcErrorCode error_code, const std::string& error_text)
-- 
2.43.0


From c833c61f648e49726e45ecc82c3fe52afb82162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 07/49] fix: Stop() races with and deadlocks against the
 maintain thread restarting the listener

---
 src/sofa/pbrpc/rpc_server_impl.cc | 17 +++++++++++------
 src/sofa/pbrpc/rpc_server_impl.h  |  1 +
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 2b8dd4d..7cefa82 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -184,11 +184,15 @@ void RpcServerImpl::Stop()
     _is_running = false;
 
     _timer_worker->stop();
-    _listener->close();
+    {
+        // the maintain thread may be using or restarting the listener
+        ScopedLocker<MutexLock> _(_listener_lock);
+        _listener->close();
+        _listener.reset();
+    }
     StopStreams();
 
     _timer_worker.reset();
-    _listener.reset();
     ClearStreams();
     _io_service_pool->Stop();
     _maintain_thread_group->stop();
@@ -334,13 +338,14 @@ void RpcServerImpl::GetPendingStat(int64* pending_message_count,
 
 bool RpcServerImpl::IsListening()
 {
-    ScopedLocker<MutexLock> _(_start_stop_lock);
-    return _is_running && !_listener->is_closed();
+    ScopedLocker<MutexLock> _(_listener_lock);
+    return _is_running && _listener && !_listener->is_closed();
 }
 
 bool RpcServerImpl::RestartListen()
 {
-    ScopedLocker<MutexLock> _(_start_stop_lock);
+    // not take _start_stop_lock, because Stop() waits for the maintain thread with it held
+    ScopedLocker<MutexLock> _(_listener_lock);
     if (!_is_running)
     {
 #if defined( LOG )
@@ -490,7 +495,7 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
     int64 now_ticks = (now - _start_time).ticks();
 
     // check listener, if closed, then try to restart it every interval.
-    if (_listener->is_closed()
+    if (_is_running && !IsListening()
             && now_ticks - _last_restart_listen_ticks >= _restart_listen_interval_ticks)
     {
         _last_restart_listen_ticks = now_ticks;
diff --git a/src/sofa/pbrpc/rpc_server_impl.h b/src/sofa/pbrpc/rpc_server_impl.h
index 006d76b..bd24c5e 100644
--- a/src/sofa/pbrpc/rpc_server_impl.h
+++ b/src/sofa/pbrpc/rpc_server_impl.h
@@ -123,6 +123,7 @@ private:
     std::string _server_address;
     RpcEndpoint _listen_endpoint;
     RpcListenerPtr _listener;
+    MutexLock _listener_lock;
 
     TimerWorkerPtr _timer_worker;
 
-- 
2.43.0


From e645b1f38affa659d1e751a4285efc80f1ecee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 08/49] fix: RpcServer::Start() goes on after the maintain
 thread group failed to start

---
 src/sofa/pbrpc/rpc_server_impl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 7cefa82..cf32edc 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -96,6 +96,7 @@ bool RpcServerImpl::Start(const std::string& server_address)
 #endif
         _maintain_thread_group.reset();
         _flow_controller.reset();
+        return false;
     }
 
     _io_service_pool.reset(new IOServicePool(
-- 
2.43.0


From 7234e701cc387ee2f4a1445532159f1af26e7a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 09/49] fix: io services are destroyed while streams still use
 them

---
 src/sofa/pbrpc/io_service_pool.cc |  6 +-----
 src/sofa/pbrpc/rpc_listener.h     | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/sofa/pbrpc/io_service_pool.cc b/src/sofa/pbrpc/io_service_pool.cc
index a968e4d..462e3e9 100644
--- a/src/sofa/pbrpc/io_service_pool.cc
+++ b/src/sofa/pbrpc/io_service_pool.cc
@@ -50,11 +50,7 @@ void IOServicePool::Stop()
     {
         _pool[i]->stop();
     }
-    // reset after all threads have finished, because they may use any of the io services
-    for (size_t i = 0; i < pool_size; ++i)
-    {
-        _pool[i].reset();
-    }
+    // the io services are destroyed with this pool, because streams may still use them
 }
 
 IOService& IOServicePool::GetIOService()
diff --git a/src/sofa/pbrpc/rpc_listener.h b/src/sofa/pbrpc/rpc_listener.h
index 5f7557c..d119aeb 100644
--- a/src/sofa/pbrpc/rpc_listener.h
+++ b/src/sofa/pbrpc/rpc_listener.h
@@ -173,9 +173,23 @@ public:
     }
 
 private:
+    struct StreamDeleter
+    {
+        explicit StreamDeleter(const IOServicePoolPtr& io_service_pool)
+            : _io_service_pool(io_service_pool) {}
+        void operator()(RpcServerStream* stream) const
+        {
+            delete stream;
+        }
+        IOServicePoolPtr _io_service_pool;
+    };
+
     void async_accept()
     {
-        RpcServerStreamPtr stream(new RpcServerStream(_io_service_pool->GetIOService()));
+        // the stream may be released by a user's thread after the server stopped,
+        // so it keeps the io services alive
+        RpcServerStreamPtr stream(new RpcServerStream(_io_service_pool->GetIOService()),
+                StreamDeleter(_io_service_pool));
 
         if (_create_callback)
             _create_callback(stream);
-- 
2.43.0


From c51707a3901d704754c0ed18ba2f3c8688aacc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 10/49] fix: RpcListener starts accepting on an acceptor that
 is being closed

---
 src/sofa/pbrpc/rpc_listener.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_listener.h b/src/sofa/pbrpc/rpc_listener.h
index d119aeb..b715dc7 100644
--- a/src/sofa/pbrpc/rpc_listener.h
+++ b/src/sofa/pbrpc/rpc_listener.h
@@ -194,6 +194,9 @@ private:
         if (_create_callback)
             _create_callback(stream);
 
+        // the acceptor may be closed concurrently, which must not overlap with accepting
+        ScopedLocker<MutexLock> _(_close_lock);
+        if (_is_closed) return;
         _acceptor.async_accept(stream->socket(), boost::bind(
                     &RpcListener::on_accept, shared_from_this(), stream, _1));
     }
-- 
2.43.0


From 4aaf111aac48a290585a6da927f0a0ebe65b7705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 11/49] fix: ResetOptions() of throughput limits (client
 ignored them, waiting connections hung when a limit was removed, crash of a
 stopped server)

---
 src/sofa/pbrpc/rpc_client_impl.cc | 26 ++++++++++++++++++++------
 src/sofa/pbrpc/rpc_client_impl.h  |  2 ++
 src/sofa/pbrpc/rpc_server_impl.cc | 23 ++++++++++++++---------
 src/sofa/pbrpc/rpc_server_impl.h  |  2 ++
 4 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 9c3eb0e..236a978 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -28,6 +28,8 @@ RpcClientImpl::RpcClientImpl(const RpcClientOptions& options)
         -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
     _slice_quota_out = _options.max_throughput_out == -1 ?
         -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+    _throughput_in_limited = (_slice_quota_in != -1);
+    _throughput_out_limited = (_slice_quota_out != -1);
     _max_pending_buffer_size =
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -153,6 +155,8 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
         -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
     _slice_quota_out = _options.max_throughput_out == -1 ?
         -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+    if (_slice_quota_in != -1) _throughput_in_limited = true;
+    if (_slice_quota_out != -1) _throughput_out_limited = true;
     _max_pending_buffer_size =
         std::max(0L, options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -167,6 +171,16 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
         }
     }
 
+    if (_slice_quota_in != old_slice_quota_in)
+    {
+        _flow_controller->reset_read_quota(_slice_quota_in == -1, _slice_quota_in);
+    }
+
+    if (_slice_quota_out != old_slice_quota_out)
+    {
+        _flow_controller->reset_write_quota(_slice_quota_out == -1, _slice_quota_out);
+    }
+
 #if defined( LOG )
     LOG(INFO) << "ResetOptions(): quota_in="
               << (_slice_quota_in == -1 ? -1 : _slice_quota_in * _slice_count / (1024L * 1024L))
@@ -188,7 +202,7 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
 #else
     SLOG(INFO, "ResetOptions(): quota_in=%lldMB/s(old %lldMB/s)"
             ", quota_out=%lldMB/s(old %lldMB/s)"
-            ", max_pending_buffer_size=%lldMB(old %lldMB)",
+            ", max_pending_buffer_size=%lldMB(old %lldMB)"
             ", keep_alive_time=%lldseconds(old %lldseconds)",
             _slice_quota_in == -1 ? -1 : _slice_quota_in * _slice_count / (1024L * 1024L),
             old_slice_quota_in == -1 ? -1 : old_slice_quota_in * _slice_count / (1024L * 1024L),
@@ -502,7 +516,7 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
     int64 now_ticks = (now - _epoch_time).ticks();
 
     // checks which need iterator streams
-    if (_keep_alive_ticks != -1 || _slice_quota_in != -1 || _slice_quota_out != -1)
+    if (_keep_alive_ticks != -1 || _throughput_in_limited || _throughput_out_limited)
     {
         StreamMap streams;
         {
@@ -536,9 +550,9 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
         }
 
         // flow control in
-        if (_slice_quota_in != -1)
+        if (_throughput_in_limited)
         {
-            // recharge quota pool
+            // recharge quota pool, ignored if no limit now
             _flow_controller->recharge_read_quota(_slice_quota_in);
 
             // collect streams need to trigger
@@ -571,9 +585,9 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
         }
 
         // flow control out
-        if (_slice_quota_out != -1)
+        if (_throughput_out_limited)
         {
-            // recharge quota pool
+            // recharge quota pool, ignored if no limit now
             _flow_controller->recharge_write_quota(_slice_quota_out);
 
             // collect streams need to trigger
diff --git a/src/sofa/pbrpc/rpc_client_impl.h b/src/sofa/pbrpc/rpc_client_impl.h
index e26d2b2..004b91a 100644
--- a/src/sofa/pbrpc/rpc_client_impl.h
+++ b/src/sofa/pbrpc/rpc_client_impl.h
@@ -110,6 +110,8 @@ private:
     int64 _slice_count;
     int64 _slice_quota_in;
     int64 _slice_quota_out;
+    bool _throughput_in_limited; // if ever limited, streams may be waiting for quota
+    bool _throughput_out_limited;
     int64 _max_pending_buffer_size;
     int64 _keep_alive_ticks;
 
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index cf32edc..f67a01e 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -40,6 +40,8 @@ RpcServerImpl::RpcServerImpl(const RpcServerOptions& options,
         -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
     _slice_quota_out = _options.max_throughput_out == -1 ?
         -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+    _throughput_in_limited = (_slice_quota_in != -1);
+    _throughput_out_limited = (_slice_quota_out != -1);
     _max_pending_buffer_size =
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -237,6 +239,8 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
         -1 : std::max(0L, _options.max_throughput_in * 1024L * 1024L) / _slice_count;
     _slice_quota_out = _options.max_throughput_out == -1 ?
         -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
+    if (_slice_quota_in != -1) _throughput_in_limited = true;
+    if (_slice_quota_out != -1) _throughput_out_limited = true;
     _max_pending_buffer_size = 
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
@@ -251,14 +255,15 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
         }
     }
 
-    if (_slice_quota_in != old_slice_quota_in)
+    FlowControllerPtr flow_controller = _flow_controller;
+    if (flow_controller && _slice_quota_in != old_slice_quota_in)
     {
-        _flow_controller->reset_read_quota(_slice_quota_in == -1, _slice_quota_in);
+        flow_controller->reset_read_quota(_slice_quota_in == -1, _slice_quota_in);
     }
 
-    if (_slice_quota_out != old_slice_quota_out)
+    if (flow_controller && _slice_quota_out != old_slice_quota_out)
     {
-        _flow_controller->reset_write_quota(_slice_quota_out == -1, _slice_quota_out);
+        flow_controller->reset_write_quota(_slice_quota_out == -1, _slice_quota_out);
     }
 
 #if defined( LOG )
@@ -504,7 +509,7 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
     }
 
     // checks which need iterator streams
-    if (_keep_alive_ticks != -1 || _slice_quota_in != -1 || _slice_quota_out != -1)
+    if (_keep_alive_ticks != -1 || _throughput_in_limited || _throughput_out_limited)
     {
         StreamSet streams;
         {
@@ -538,9 +543,9 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
         }
 
         // flow control in
-        if (_slice_quota_in != -1)
+        if (_throughput_in_limited)
         {
-            // recharge quota pool
+            // recharge quota pool, ignored if no limit now
             _flow_controller->recharge_read_quota(_slice_quota_in);
 
             // collect streams need to trigger
@@ -573,9 +578,9 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
         }
 
         // flow control out
-        if (_slice_quota_out != -1)
+        if (_throughput_out_limited)
         {
-            // recharge quota pool
+            // recharge quota pool, ignored if no limit now
             _flow_controller->recharge_write_quota(_slice_quota_out);
 
             // collect streams need to trigger
diff --git a/src/sofa/pbrpc/rpc_server_impl.h b/src/sofa/pbrpc/rpc_server_impl.h
index bd24c5e..b774ada 100644
--- a/src/sofa/pbrpc/rpc_server_impl.h
+++ b/src/sofa/pbrpc/rpc_server_impl.h
@@ -109,6 +109,8 @@ private:
     int64 _slice_count;
     int64 _slice_quota_in;
     int64 _slice_quota_out;
+    bool _throughput_in_limited; // if ever limited, streams may be waiting for quota
+    bool _throughput_out_limited;
     int64 _max_pending_buffer_size;
     int64 _keep_alive_ticks;
     int64 _restart_listen_interval_ticks;
-- 
2.43.0


From 0b2ae445d488d17e2bdf4dc72833cd80b93be914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 12/49] fix: enabling keep alive at run time closed connections
 with recent traffic

---
 src/sofa/pbrpc/rpc_client_impl.cc | 10 ++++++++++
 src/sofa/pbrpc/rpc_server_impl.cc | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 236a978..a05a3d5 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -159,6 +159,16 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
     if (_slice_quota_out != -1) _throughput_out_limited = true;
     _max_pending_buffer_size =
         std::max(0L, options.max_pending_buffer_size * 1024L * 1024L);
+    if (old_keep_alive_ticks == -1 && _options.keep_alive_time != -1)
+    {
+        // ticks of streams are not maintained without keep alive, so idle time counts from now
+        int64 now_ticks = (ptime_now() - _epoch_time).ticks();
+        ScopedLocker<FastLock> _(_stream_map_lock);
+        for (StreamMap::iterator it = _stream_map.begin(); it != _stream_map.end(); ++it)
+        {
+            it->second->reset_ticks(now_ticks, true);
+        }
+    }
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
         -1 : std::max(1, _options.keep_alive_time) * _ticks_per_second;
 
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index f67a01e..8d2a297 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -243,6 +243,16 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
     if (_slice_quota_out != -1) _throughput_out_limited = true;
     _max_pending_buffer_size = 
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
+    if (old_keep_alive_ticks == -1 && _options.keep_alive_time != -1)
+    {
+        // ticks of streams are not maintained without keep alive, so idle time counts from now
+        int64 now_ticks = (ptime_now() - _start_time).ticks();
+        ScopedLocker<FastLock> _(_stream_set_lock);
+        for (StreamSet::iterator it = _stream_set.begin(); it != _stream_set.end(); ++it)
+        {
+            (*it)->reset_ticks(now_ticks, true);
+        }
+    }
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
         -1 : std::max(1, _options.keep_alive_time) * _ticks_per_second;
 
-- 
2.43.0


From 6bc0bc3653fdcb5ea4a1f3673cac1fa6302d5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:44 +0000
Subject: [PATCH 13/49] fix: do not scan JSON text with aligned SSE loads
 (reads past the end of the string)

---
 src/rapidjson/rapidjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rapidjson/rapidjson.h b/src/rapidjson/rapidjson.h
index cc467ba..7acb2aa 100644
--- a/src/rapidjson/rapidjson.h
+++ b/src/rapidjson/rapidjson.h
@@ -47,7 +47,7 @@ typedef unsigned __int64 uint64_t;
 // RAPIDJSON_SSE2/RAPIDJSON_SSE42/RAPIDJSON_SIMD
 
 // Enable SSE2 optimization.
-#define RAPIDJSON_SSE2
+//#define RAPIDJSON_SSE2
 
 // Enable SSE4.2 optimization.
 //#define RAPIDJSON_SSE42
-- 
2.43.0


From 652533af25dfb7614c3f8a6634a449b669548b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:32 +0000
Subject: [PATCH 14/49] fix: check the sizes in a message header before using
 them

---
 src/sofa/pbrpc/binary_rpc_request_parser.cc | 22 +++++++++++++++++++++
 src/sofa/pbrpc/rpc_message_stream.h         |  5 ++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/binary_rpc_request_parser.cc b/src/sofa/pbrpc/binary_rpc_request_parser.cc
index 879826c..77c55a7 100644
--- a/src/sofa/pbrpc/binary_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/binary_rpc_request_parser.cc
@@ -70,6 +70,28 @@ int BinaryRpcRequestParser::Parse(const char* buf,
                 // header not complete
                 return 0;
             }
+            if (_req->_req_header.meta_size < 0 || _req->_req_header.data_size < 0
+                    || _req->_req_header.message_size < 0
+                    || _req->_req_header.message_size > MAX_MESSAGE_SIZE
+                    || _req->_req_header.data_size != _req->_req_header.message_size
+                                                      - _req->_req_header.meta_size)
+            {
+#if defined( LOG )
+                LOG(ERROR) << "Parse(): " << RpcEndpointToString(_req->_remote_endpoint)
+                           << ": check size in header failed"
+                           << ": meta_size=" << _req->_req_header.meta_size
+                           << ", data_size=" << _req->_req_header.data_size
+                           << ", message_size=" << _req->_req_header.message_size;
+#else
+                SLOG(ERROR, "Parse(): %s: check size in header failed: "
+                        "meta_size=%d, data_size=%lld, message_size=%lld",
+                        RpcEndpointToString(_req->_remote_endpoint).c_str(),
+                        _req->_req_header.meta_size,
+                        _req->_req_header.data_size,
+                        _req->_req_header.message_size);
+#endif
+                return -1;
+            }
             if (_req->_req_header.message_size == 0)
             {
                 // all complete
diff --git a/src/sofa/pbrpc/rpc_message_stream.h b/src/sofa/pbrpc/rpc_message_stream.h
index 4e5ccb4..3781147 100644
--- a/src/sofa/pbrpc/rpc_message_stream.h
+++ b/src/sofa/pbrpc/rpc_message_stream.h
@@ -687,7 +687,10 @@ private:
 #endif
                 return -1;
             }
-            if (_receiving_header.meta_size + _receiving_header.data_size != _receiving_header.message_size)
+            if (_receiving_header.meta_size < 0 || _receiving_header.data_size < 0
+                    || _receiving_header.message_size < 0
+                    || _receiving_header.data_size != _receiving_header.message_size
+                                                      - _receiving_header.meta_size)
             {
 #if defined( LOG )
                 LOG(ERROR) << "identify_message_header(): " << RpcEndpointToString(_remote_endpoint)
-- 
2.43.0


From e11cb8801dbd5fd6f1b6ae51925e89a42303e1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:32 +0000
Subject: [PATCH 15/49] fix: client crashed on a failed reply whose error code
 says success

---
 src/sofa/pbrpc/rpc_client_stream.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_client_stream.h b/src/sofa/pbrpc/rpc_client_stream.h
index 4a80904..943fb45 100644
--- a/src/sofa/pbrpc/rpc_client_stream.h
+++ b/src/sofa/pbrpc/rpc_client_stream.h
@@ -271,6 +271,18 @@ private:
 #endif
                 cntl->Done(RPC_ERROR_PARSE_RESPONSE_MESSAGE, "rpc meta: \"reason\" field not set");
             }
+            else if (meta.error_code() == RPC_SUCCESS)
+            {
+#if defined( LOG )
+                LOG(ERROR) << "on_received(): " << RpcEndpointToString(_remote_endpoint)
+                           << " {" << meta.sequence_id() << "}"
+                           << ": bad rpc meta: \"error_code\" of failed response is success";
+#else
+                SLOG(ERROR,  "on_received(): %s {%lu}: bad rpc meta: \"error_code\" of failed response is success",
+                        RpcEndpointToString(_remote_endpoint).c_str(), meta.sequence_id());
+#endif
+                cntl->Done(RPC_ERROR_PARSE_RESPONSE_MESSAGE, "rpc meta: \"error_code\" of failed response is success");
+            }
             else
             {
                 cntl->Done(meta.error_code(), meta.reason());
-- 
2.43.0


From d465bb426fb5a7712d4fd6b52295de1684ca6dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:32 +0000
Subject: [PATCH 16/49] fix: malformed snappy or lz4 data aborted the process

---
 src/sofa/pbrpc/block_wrappers.cc | 31 +++++++++++++++++++++----------
 src/sofa/pbrpc/block_wrappers.h  |  7 ++++---
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/sofa/pbrpc/block_wrappers.cc b/src/sofa/pbrpc/block_wrappers.cc
index 465a78b..ce0046e 100644
--- a/src/sofa/pbrpc/block_wrappers.cc
+++ b/src/sofa/pbrpc/block_wrappers.cc
@@ -78,8 +78,12 @@ bool BlockCompressionInputStream::Next(const void** data, int* size) {
         return false;
     }
 
-    RawUncompress(tempbuffer, compressed_size);
+    bool success = RawUncompress(tempbuffer, compressed_size);
     delete[] tempbuffer;
+    if (!success) {
+        // malformed compressed data
+        return false;
+    }
 
     // TODO: probably call this only every Limit/BLOCKSIZE
     if (_sub_stream->BytesUntilLimit() < 1024*1024) reset_input_stream();
@@ -162,21 +166,23 @@ bool BlockCompressionOutputStream::Next(void** data, int* size) {
 
 /// Snappy implementation
 
-void SnappyInputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
+bool SnappyInputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
     size_t uncompressed_size;
-    bool success = ::snappy::GetUncompressedLength(
-        input_buffer, compressed_size, &uncompressed_size);
-    SCHECK(success);
-    
+    // validate before allocating: the length is an untrusted value
+    if (!::snappy::IsValidCompressedBuffer(input_buffer, compressed_size)
+            || !::snappy::GetUncompressedLength(
+                input_buffer, compressed_size, &uncompressed_size)) {
+        return false;
+    }
+
     if (uncompressed_size > _output_buffer_capacity) {
         delete[] _output_buffer;
         _output_buffer = new char[uncompressed_size];
         _output_buffer_capacity = uncompressed_size;
     }
     _output_buffer_size = uncompressed_size;
-    success = ::snappy::RawUncompress(input_buffer, compressed_size,
+    return ::snappy::RawUncompress(input_buffer, compressed_size,
         _output_buffer);
-    SCHECK(success);    
 }
 
 
@@ -199,13 +205,18 @@ uint32_t SnappyOutputStream::RawCompress(char* input_buffer, size_t input_size,
 
 /// LZ4 implementation
 
-void LZ4InputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
+bool LZ4InputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
     if (!_output_buffer) {
         _output_buffer = new char[BLOCKSIZE];
         _output_buffer_capacity = BLOCKSIZE;
     }
-    _output_buffer_size = LZ4_uncompress_unknownOutputSize(input_buffer,
+    int uncompressed_size = LZ4_uncompress_unknownOutputSize(input_buffer,
         _output_buffer, compressed_size, BLOCKSIZE);
+    if (uncompressed_size < 0) {
+        return false;
+    }
+    _output_buffer_size = uncompressed_size;
+    return true;
 }
 
 uint32_t LZ4OutputStream::MaxCompressedLength(size_t input_size)
diff --git a/src/sofa/pbrpc/block_wrappers.h b/src/sofa/pbrpc/block_wrappers.h
index 34637f5..df04500 100644
--- a/src/sofa/pbrpc/block_wrappers.h
+++ b/src/sofa/pbrpc/block_wrappers.h
@@ -36,7 +36,8 @@ class BlockCompressionInputStream : public AbstractCompressedInputStream {
   bool ExpectAtEnd() { return true; }
 
  protected:
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size) = 0;
+  // Returns false if the data is malformed.
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size) = 0;
   
   char* _output_buffer;
   size_t _output_buffer_size;
@@ -88,7 +89,7 @@ class SnappyInputStream : public BlockCompressionInputStream {
  public:
   explicit SnappyInputStream(ZeroCopyInputStream* sub_stream) : BlockCompressionInputStream(sub_stream) {};
 
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size);
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size);
   
   GOOGLE_DISALLOW_EVIL_CONSTRUCTORS(SnappyInputStream);
 };
@@ -110,7 +111,7 @@ class LZ4InputStream : public BlockCompressionInputStream {
 
   explicit LZ4InputStream(ZeroCopyInputStream* sub_stream) : BlockCompressionInputStream(sub_stream) {};
   
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size);
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size);
   
   GOOGLE_DISALLOW_EVIL_CONSTRUCTORS(LZ4InputStream);
 };
-- 
2.43.0


From e21e08c34e68f55a1cf643df5d498f485aa38426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:55 +0000
Subject: [PATCH 17/49] fix: deeply nested JSON overflowed the stack

---
 src/rapidjson/reader.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rapidjson/reader.h b/src/rapidjson/reader.h
index 25ef0e7..7848c85 100644
--- a/src/rapidjson/reader.h
+++ b/src/rapidjson/reader.h
@@ -207,7 +207,7 @@ public:
 	/*! \param allocator Optional allocator for allocating stack memory. (Only use for non-destructive parsing)
 		\param stackCapacity stack capacity in bytes for storing a single decoded string.  (Only use for non-destructive parsing)
 	*/
-	GenericReader(Allocator* allocator = 0, size_t stackCapacity = kDefaultStackCapacity) : stack_(allocator, stackCapacity), parseError_(0), errorOffset_(0) {}
+	GenericReader(Allocator* allocator = 0, size_t stackCapacity = kDefaultStackCapacity) : stack_(allocator, stackCapacity), parseError_(0), errorOffset_(0), depth_(0) {}
 
 	//! Parse JSON text.
 	/*! \tparam parseFlags Combination of ParseFlag. 
@@ -221,6 +221,7 @@ public:
 	bool Parse(Stream& stream, Handler& handler) {
 		parseError_ = 0;
 		errorOffset_ = 0;
+		depth_ = 0;
 
 #ifdef _MSC_VER
 #pragma warning(push)
@@ -654,6 +655,10 @@ private:
 	// Parse any JSON value
 	template<unsigned parseFlags, typename Stream, typename Handler>
 	void ParseValue(Stream& stream, Handler& handler) {
+		// Objects and arrays are parsed recursively: bound the recursion.
+		if (++depth_ > kMaxDepth) {
+			RAPIDJSON_PARSE_ERROR("Objects and arrays are nested too deeply", stream.Tell());
+		}
 		switch (stream.Peek()) {
 			case 'n': ParseNull  <parseFlags>(stream, handler); break;
 			case 't': ParseTrue  <parseFlags>(stream, handler); break;
@@ -663,13 +668,16 @@ private:
 			case '[': ParseArray <parseFlags>(stream, handler); break;
 			default : ParseNumber<parseFlags>(stream, handler);
 		}
+		--depth_;
 	}
 
+	static const size_t kMaxDepth = 1000;				//!< Maximum nesting depth of objects and arrays.
 	static const size_t kDefaultStackCapacity = 256;	//!< Default stack capacity in bytes for storing a single decoded string. 
 	internal::Stack<Allocator> stack_;	//!< A stack for storing decoded string temporarily during non-destructive parsing.
 	jmp_buf jmpbuf_;					//!< setjmp buffer for fast exit from nested parsing function calls.
 	const char* parseError_;
 	size_t errorOffset_;
+	size_t depth_;						//!< Current nesting depth.
 }; // class GenericReader
 
 //! Reader with UTF8 encoding and default allocator.
-- 
2.43.0


From 8c2b0aaca03fc48ed5b02899276c8073f7262d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:55 +0000
Subject: [PATCH 18/49] fix: json2pb aborted the process on numbers of the
 wrong kind and on invalid base64

---
 src/sofa/pbrpc/pbjson.cc | 45 +++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/sofa/pbrpc/pbjson.cc b/src/sofa/pbrpc/pbjson.cc
index 341a907..04cedf4 100644
--- a/src/sofa/pbrpc/pbjson.cc
+++ b/src/sofa/pbrpc/pbjson.cc
@@ -287,6 +287,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsInt())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Not an int32");
+                }
                 if (repeated)
                 {
                     ref->AddInt32(msg, field, (int32_t) json->GetInt());
@@ -303,6 +307,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsUint())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Not a uint32");
+                }
                 if (repeated)
                 {
                     ref->AddUInt32(msg, field, json->GetUint());
@@ -319,6 +327,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsInt64())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Not an int64");
+                }
                 if (repeated)
                 {
                     ref->AddInt64(msg, field, json->GetInt64());
@@ -335,6 +347,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsUint64())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Not a uint64");
+                }
                 if (repeated)
                 {
                     ref->AddUInt64(msg, field, json->GetUint64());
@@ -405,25 +421,22 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 std::string str_value(value, str_size);
                 if (field->type() == FieldDescriptor::TYPE_BYTES)
                 {
-                    if (repeated)
+                    try
                     {
-                        ref->AddString(msg, field, b64_decode(str_value));
+                        str_value = b64_decode(str_value);
                     }
-                    else
+                    catch (const std::exception&)
                     {
-                        ref->SetString(msg, field, b64_decode(str_value));
+                        RETURN_ERR(ERR_INVALID_JSON, "Not a base64 string");
                     }
                 }
+                if (repeated)
+                {
+                    ref->AddString(msg, field, str_value);
+                }
                 else
                 {
-                    if (repeated)
-                    {
-                        ref->AddString(msg, field, str_value);
-                    }
-                    else
-                    {
-                        ref->SetString(msg, field, str_value);
-                    }
+                    ref->SetString(msg, field, str_value);
                 }
                 break;
             }
@@ -438,11 +451,15 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 const EnumValueDescriptor *ev = 0;
                 if (json->GetType() == rapidjson::kNumberType)
                 {
+                    if (!json->IsInt())
+                    {
+                        RETURN_ERR(ERR_INVALID_JSON, "Not an integer or string");
+                    }
                     ev = ed->FindValueByNumber(json->GetInt());
                 }
                 else if (json->GetType() == rapidjson::kStringType)
                 {
-                    ev = ed->FindValueByName(json->GetString());
+                    ev = ed->FindValueByName(std::string(json->GetString(), json->GetStringLength()));
                 }
                 else
                     RETURN_ERR(ERR_INVALID_JSON, "Not an integer or string");
@@ -478,7 +495,7 @@ static int parse_json(const rapidjson::Value* json, Message* msg, std::string& e
     }
     for (rapidjson::Value::ConstMemberIterator itr = json->MemberBegin(); itr != json->MemberEnd(); ++itr)
     {
-        const char* name = itr->name.GetString();
+        const std::string name(itr->name.GetString(), itr->name.GetStringLength());
         const FieldDescriptor *field = d->FindFieldByName(name);
         if (!field)
             field = ref->FindKnownExtensionByName(name);
-- 
2.43.0


From e47a5492bf8160719f6ee55df276db76bebe29fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 19/49] fix: doubles lost precision when converted to and from
 JSON

---
 src/rapidjson/reader.h | 13 ++++++++++---
 src/rapidjson/writer.h |  4 ++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/rapidjson/reader.h b/src/rapidjson/reader.h
index 7848c85..9c79504 100644
--- a/src/rapidjson/reader.h
+++ b/src/rapidjson/reader.h
@@ -615,8 +615,12 @@ private:
 				while (s.Peek() >= '0' && s.Peek() <= '9') {
 					exp = exp * 10 + (s.Take() - '0');
 					if (exp > 308) {
-						RAPIDJSON_PARSE_ERROR("Number too big to store in double", stream.Tell());
-						return;
+						if (!expMinus) {
+							RAPIDJSON_PARSE_ERROR("Number too big to store in double", stream.Tell());
+							return;
+						}
+						if (exp > 1000)
+							exp = 1000; // too small for a double whatever the number is
 					}
 				}
 			}
@@ -631,7 +635,10 @@ private:
 
 		// Finish parsing, call event according to the type of number.
 		if (useDouble) {
-			d *= internal::Pow10(exp + expFrac);
+			int scale = exp + expFrac;
+			for (; scale < -308; scale += 308)
+				d *= internal::Pow10(-308);
+			d *= internal::Pow10(scale);
 			handler.Double(minus ? -d : d);
 		}
 		else {
diff --git a/src/rapidjson/writer.h b/src/rapidjson/writer.h
index 78d8cb1..130416c 100644
--- a/src/rapidjson/writer.h
+++ b/src/rapidjson/writer.h
@@ -160,9 +160,9 @@ protected:
 	void WriteDouble(double d) {
 		char buffer[100];
 #if _MSC_VER
-		int ret = sprintf_s(buffer, sizeof(buffer), "%g", d);
+		int ret = sprintf_s(buffer, sizeof(buffer), "%.17g", d);
 #else
-		int ret = snprintf(buffer, sizeof(buffer), "%g", d);
+		int ret = snprintf(buffer, sizeof(buffer), "%.17g", d);
 #endif
 		RAPIDJSON_ASSERT(ret >= 1);
 		for (int i = 0; i < ret; i++)
-- 
2.43.0


From b71b2c2e919a25dca54bc7b8a4f44942c3771c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 20/49] fix: hex2bin and bin2hex read outside their tables for
 bytes above 0x7f

---
 src/sofa/pbrpc/bin2ascii.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/bin2ascii.h b/src/sofa/pbrpc/bin2ascii.h
index 7284ba0..d127125 100644
--- a/src/sofa/pbrpc/bin2ascii.h
+++ b/src/sofa/pbrpc/bin2ascii.h
@@ -42,8 +42,8 @@ inline std::string hex2bin(const std::string &s)
 	std::string r;
 	r.reserve(s.size() / 2);
 	for (size_t i = 0; i < s.size(); i += 2) {
-		char hi = lookup[(size_t)s[i]];
-		char lo = lookup[(size_t)s[i+1]];
+		char hi = lookup[(unsigned char)s[i]];
+		char lo = lookup[(unsigned char)s[i+1]];
 		if (0x80 & (hi | lo))
 			throw std::runtime_error("Invalid hex data: " + s.substr(i, 6));
 		r.push_back((hi << 4) | lo);
@@ -57,7 +57,7 @@ inline std::string bin2hex(const std::string &s)
 	std::string r;
 	r.reserve(s.size() * 2);
 	for (size_t i = 0; i < s.size(); i++) {
-		char hi = s[i] >> 4;
+		char hi = (s[i] >> 4) & 0xf;
 		char lo = s[i] & 0xf;
 		r.push_back(lookup[(size_t)hi]);
 		r.push_back(lookup[(size_t)lo]);
-- 
2.43.0


From 72bcb6a8ab6ce68378b095576274435aec41d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 21/49] fix: length of an HTTP body was truncated to 32 bits

---
 src/sofa/pbrpc/http_rpc_request_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/http_rpc_request_parser.cc b/src/sofa/pbrpc/http_rpc_request_parser.cc
index b2fdf5a..75bee0d 100644
--- a/src/sofa/pbrpc/http_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/http_rpc_request_parser.cc
@@ -91,7 +91,7 @@ int HTTPRpcRequestParser::Parse(const char* buf,
     }
     if (_state == PS_BODY)
     {
-        int bytes_remain = _content_length - _req->_req_body->TotalCount();
+        int64 bytes_remain = _content_length - _req->_req_body->TotalCount();
         if (bytes_remain == 0)
         {
             return 1;
@@ -100,7 +100,7 @@ int HTTPRpcRequestParser::Parse(const char* buf,
         {
             return 0;
         }
-        int consume = std::min(data_size, bytes_remain);
+        int consume = static_cast<int>(std::min(static_cast<int64>(data_size), bytes_remain));
         _req->_req_body->Append(BufHandle(const_cast<char*>(buf), consume, offset));
         *bytes_consumed += consume;
         if (_content_length == _req->_req_body->TotalCount())
-- 
2.43.0


From 6ac2e19dc784676428e5f0f60949805bb149cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 22/49] fix: HTTP header names are case-insensitive

---
 src/sofa/pbrpc/http_rpc_request_parser.cc | 24 +++++++++++++++++++++--
 src/sofa/pbrpc/http_rpc_request_parser.h  |  3 +++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/http_rpc_request_parser.cc b/src/sofa/pbrpc/http_rpc_request_parser.cc
index 75bee0d..08d2fcf 100644
--- a/src/sofa/pbrpc/http_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/http_rpc_request_parser.cc
@@ -2,6 +2,8 @@
 // Use of this source code is governed by a BSD-style license that can be
 // found in the LICENSE file.
 
+#include <strings.h>
+
 #include <sofa/pbrpc/http_rpc_request_parser.h>
 
 namespace sofa {
@@ -117,6 +119,24 @@ RpcRequestPtr HTTPRpcRequestParser::GetRequest()
     return _req;
 }
 
+std::map<std::string, std::string>::const_iterator HTTPRpcRequestParser::FindHeader(
+        const std::string& name)
+{
+    std::map<std::string, std::string>::const_iterator it = _req->_headers.find(name);
+    if (it != _req->_headers.end())
+    {
+        return it;
+    }
+    for (it = _req->_headers.begin(); it != _req->_headers.end(); ++it)
+    {
+        if (strcasecmp(it->first.c_str(), name.c_str()) == 0)
+        {
+            return it;
+        }
+    }
+    return it;
+}
+
 int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
 {
     switch (_state)
@@ -201,7 +221,7 @@ int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
         if (c == '\n')
         {
             std::map<std::string, std::string>::const_iterator it =
-                _req->_headers.find(CONTENT_LENGTH);
+                FindHeader(CONTENT_LENGTH);
             if (it != _req->_headers.end())
             {
                 char* endptr = NULL;
@@ -213,7 +233,7 @@ int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
                 }
             }
 
-            it = _req->_headers.find(ACCEPT);
+            it = FindHeader(ACCEPT);
             if (it != _req->_headers.end())
             {
                 if (it->second == ACCEPT_PROTOBUF)
diff --git a/src/sofa/pbrpc/http_rpc_request_parser.h b/src/sofa/pbrpc/http_rpc_request_parser.h
index 692b879..6181ff7 100644
--- a/src/sofa/pbrpc/http_rpc_request_parser.h
+++ b/src/sofa/pbrpc/http_rpc_request_parser.h
@@ -35,6 +35,9 @@ private:
     // @retval -1  parse request fail, and the error message is returned by err.
     int ParseInternal(char c, std::string& err);
 
+    // Find a header; header names are case-insensitive.
+    std::map<std::string, std::string>::const_iterator FindHeader(const std::string& name);
+
 private:
     enum ParseState
     {
-- 
2.43.0


From 53273ca99b74f98b4c5588ed99b5ab2245dd5aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 23/49] fix: error replies to HTTP requests were not always
 valid JSON

---
 src/sofa/pbrpc/http_rpc_request.cc | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/http_rpc_request.cc b/src/sofa/pbrpc/http_rpc_request.cc
index 6286734..6e55173 100644
--- a/src/sofa/pbrpc/http_rpc_request.cc
+++ b/src/sofa/pbrpc/http_rpc_request.cc
@@ -23,6 +23,33 @@
 namespace sofa {
 namespace pbrpc {
 
+// Escape a string to be put into a JSON string.
+static std::string EscapeJsonString(const std::string& str)
+{
+    static const char hex[] = "0123456789abcdef";
+    std::string out;
+    for (size_t i = 0; i < str.size(); ++i)
+    {
+        unsigned char c = static_cast<unsigned char>(str[i]);
+        if (c == '"' || c == '\\')
+        {
+            out.push_back('\\');
+            out.push_back(c);
+        }
+        else if (c < 0x20)
+        {
+            out.append("\\u00");
+            out.push_back(hex[c >> 4]);
+            out.push_back(hex[c & 0xf]);
+        }
+        else
+        {
+            out.push_back(c);
+        }
+    }
+    return out;
+}
+
 HTTPRpcRequest::HTTPRpcRequest() :
     _type(GET),
     _req_body(new ReadBuffer()),
@@ -188,7 +215,7 @@ ReadBufferPtr HTTPRpcRequest::AssembleFailedResponse(
 {
     std::ostringstream oss;
     oss << "\"ERROR: " << error_code << ": "
-        << StringUtils::replace_all(reason, "\"", "\\\"") << "\"";
+        << EscapeJsonString(reason) << "\"";
 
     WriteBuffer write_buffer;
     if (!RenderResponse(&write_buffer, JSON, oss.str()))
-- 
2.43.0


From bae4214408e1663a69a591b10e4a841ad6ba042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 24/49] fix: servlets saw every HTTP request as GET

---
 src/sofa/pbrpc/web_service.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sofa/pbrpc/web_service.cc b/src/sofa/pbrpc/web_service.cc
index dc6e02f..8190672 100644
--- a/src/sofa/pbrpc/web_service.cc
+++ b/src/sofa/pbrpc/web_service.cc
@@ -212,6 +212,8 @@ bool WebService::RoutePage(
         static_cast<const HTTPRpcRequest*>(rpc_request.get());
 
     HTTPRequest request;
+    request.type = http_rpc_request->_type == HTTPRpcRequest::GET ?
+        HTTPRequest::GET : HTTPRequest::POST;
     request.path = http_rpc_request->_path;
     request.body = http_rpc_request->_req_body;
     request.headers = &http_rpc_request->_headers;
-- 
2.43.0


From 132caf1b7d7debfdcdfcd92bbaf8b4919218875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 25/49] fix: GzipInputStream inflated into its freed output
 buffer when destroyed before the end of the data

---
 src/sofa/pbrpc/gzip_stream.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/gzip_stream.cc b/src/sofa/pbrpc/gzip_stream.cc
index ebc5189..5533016 100644
--- a/src/sofa/pbrpc/gzip_stream.cc
+++ b/src/sofa/pbrpc/gzip_stream.cc
@@ -81,13 +81,14 @@ GzipInputStream::GzipInputStream(
 }
 
 GzipInputStream::~GzipInputStream() {
-  operator delete(output_buffer_);
   // Back up input stream if there are unused bytes
   if (ExpectAtEnd() && zcontext_.avail_in > 0) {
     sub_stream_->BackUp(zcontext_.avail_in);
     zcontext_.avail_in = 0;
   }
   zerror_ = inflateEnd(&zcontext_);
+  // ExpectAtEnd() above may still have written to the output buffer
+  operator delete(output_buffer_);
 }
 
 static inline int internalInflateInit2(
-- 
2.43.0


From 4261befcb6d57c184d6f4edeefbcb20b3d0533d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 26/49] fix: GzipInputStream read data following the end of a
 stream twice and could back up twice in a row (aborting the process)

---
 src/sofa/pbrpc/gzip_stream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sofa/pbrpc/gzip_stream.cc b/src/sofa/pbrpc/gzip_stream.cc
index 5533016..91fa61e 100644
--- a/src/sofa/pbrpc/gzip_stream.cc
+++ b/src/sofa/pbrpc/gzip_stream.cc
@@ -153,6 +153,7 @@ bool GzipInputStream::Next(const void** data, int* size) {
     // First backup stream
     if (zcontext_.avail_in) {
       sub_stream_->BackUp(zcontext_.avail_in);
+      zcontext_.avail_in = 0;
     }
     if (zcontext_.next_out != NULL) {
       // sub_stream_ may have concatenated streams to follow
-- 
2.43.0


From ad778dfc2caba43a0b699dfac8b91b0f4f55f6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:05 +0000
Subject: [PATCH 27/49] fix: GzipInputStream ByteCount and Skip were wrong
 after a back-up and at the end of a stream

---
 src/sofa/pbrpc/gzip_stream.cc | 25 +++++++++++++++----------
 src/sofa/pbrpc/gzip_stream.h  |  1 +
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/sofa/pbrpc/gzip_stream.cc b/src/sofa/pbrpc/gzip_stream.cc
index 91fa61e..3d1afcb 100644
--- a/src/sofa/pbrpc/gzip_stream.cc
+++ b/src/sofa/pbrpc/gzip_stream.cc
@@ -52,7 +52,7 @@ static const int kDefaultBufferSize = 65536;
 
 GzipInputStream::GzipInputStream(
     ZeroCopyInputStream* sub_stream, Format format, int buffer_size)
-    : format_(format), sub_stream_(sub_stream), zerror_(Z_OK) {
+    : format_(format), sub_stream_(sub_stream), zerror_(Z_OK), byte_count_(0) {
   zcontext_.next_in = NULL;
   zcontext_.avail_in = 0;
   zcontext_.total_in = 0;
@@ -158,6 +158,8 @@ bool GzipInputStream::Next(const void** data, int* size) {
     if (zcontext_.next_out != NULL) {
       // sub_stream_ may have concatenated streams to follow
       zerror_ = inflateEnd(&zcontext_);
+      byte_count_ += zcontext_.total_out;
+      zcontext_.total_out = 0;
       if (zerror_ != Z_OK) {
         return false;
       }
@@ -212,20 +214,23 @@ void GzipInputStream::BackUp(int count) {
 bool GzipInputStream::Skip(int count) {
   const void* data;
   int size;
-  bool ok = Next(&data, &size);
-  while (ok && (size < count)) {
+  while (count > 0 && Next(&data, &size)) {
+    if (size > count) {
+      BackUp(size - count);
+      size = count;
+    }
     count -= size;
-    ok = Next(&data, &size);
-  }
-  if (size > count) {
-    BackUp(size - count);
   }
-  return ok;
+  return count == 0;
 }
 
 int64 GzipInputStream::ByteCount() const {
-  return zcontext_.total_out +
-    (((uintptr_t)zcontext_.next_out) - ((uintptr_t)output_position_));
+  int64 ret = byte_count_ + zcontext_.total_out;
+  if (zcontext_.next_out != NULL) {
+    // not yet returned by Next()
+    ret -= ((uintptr_t)zcontext_.next_out) - ((uintptr_t)output_position_);
+  }
+  return ret;
 }
 
 // =========================================================================
diff --git a/src/sofa/pbrpc/gzip_stream.h b/src/sofa/pbrpc/gzip_stream.h
index e99d45c..58c5a65 100644
--- a/src/sofa/pbrpc/gzip_stream.h
+++ b/src/sofa/pbrpc/gzip_stream.h
@@ -113,6 +113,7 @@ class GzipInputStream : public AbstractCompressedInputStream {
 
   z_stream zcontext_;
   int zerror_;
+  int64 byte_count_;  // uncompressed size of the finished concatenated streams
 
   void* output_buffer_;
   void* output_position_;
-- 
2.43.0


From 72a02f75e387b0c6fda465ee7749e3afcfc0a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:05 +0000
Subject: [PATCH 28/49] fix: skipping in a snappy or lz4 stream aborted the
 process

---
 src/sofa/pbrpc/block_wrappers.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/block_wrappers.cc b/src/sofa/pbrpc/block_wrappers.cc
index ce0046e..809d183 100644
--- a/src/sofa/pbrpc/block_wrappers.cc
+++ b/src/sofa/pbrpc/block_wrappers.cc
@@ -38,9 +38,17 @@ BlockCompressionInputStream::~BlockCompressionInputStream() {
     delete[] _output_buffer;
 }
 
-bool BlockCompressionInputStream::Skip(int /*count*/) {
-    SCHECK(false);
-    return false;
+bool BlockCompressionInputStream::Skip(int count) {
+    const void* data = NULL;
+    int size = 0;
+    while (count > 0 && Next(&data, &size)) {
+        if (size > count) {
+            BackUp(size - count);
+            size = count;
+        }
+        count -= size;
+    }
+    return count == 0;
 };
 
 void BlockCompressionInputStream::BackUp(int count) {
-- 
2.43.0


From 33f7dfa85e9807a572f707fe662b31afb0145336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:05 +0000
Subject: [PATCH 29/49] fix: closing a snappy or lz4 output stream whose last
 block was all backed up aborted the process

---
 src/sofa/pbrpc/block_wrappers.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/block_wrappers.cc b/src/sofa/pbrpc/block_wrappers.cc
index 809d183..bfcc0d9 100644
--- a/src/sofa/pbrpc/block_wrappers.cc
+++ b/src/sofa/pbrpc/block_wrappers.cc
@@ -133,8 +133,15 @@ void BlockCompressionOutputStream::BackUp(int count) {
 bool BlockCompressionOutputStream::Flush()
 {
     size_t size = BLOCKSIZE - _backed_up_bytes;
-    if (!_input_buffer || size == 0) return true;
-    
+    if (!_input_buffer) return true;
+    if (size == 0) {
+        // everything was backed up, nothing to write
+        _backed_up_bytes = 0;
+        delete[] _input_buffer;
+        _input_buffer = 0;
+        return true;
+    }
+
     size_t compressed_size = 0;
     char * compressed_data = new char[MaxCompressedLength(size)];
     compressed_size = RawCompress(_input_buffer, size, compressed_data);
-- 
2.43.0


From 09fb58ce9e41d417032bbb5fafbbd5b66fabc43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 30/49] fix: a Stat request for a period above 2^31 seconds
 aborted the server

---
 src/sofa/pbrpc/service_pool.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/service_pool.h b/src/sofa/pbrpc/service_pool.h
index 66a1aa1..6e694d2 100644
--- a/src/sofa/pbrpc/service_pool.h
+++ b/src/sofa/pbrpc/service_pool.h
@@ -257,13 +257,14 @@ public:
 private:
     void GetRealPeriod(int64 expect_period, int64* real_period, int* slot_count)
     {
-        int sc = 1;
+        // period is given by client, maybe out of the range of int
+        int64 sc = 1;
         if (expect_period > 1) {
             sc = (expect_period - 1) / STAT_SLOT_SECONDS + 1;
         }
-        sc = std::min(sc, STAT_SLOT_COUNT - 2);
+        sc = std::min(sc, static_cast<int64>(STAT_SLOT_COUNT - 2));
         *real_period = sc * STAT_SLOT_SECONDS;
-        *slot_count = sc;
+        *slot_count = static_cast<int>(sc);
     }
 
 private:
-- 
2.43.0


From 829d05331a0ea3bf591a6fa70c516005b364001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 31/49] fix: statistics lost requests that finished
 concurrently on several work threads

---
 src/sofa/pbrpc/service_pool.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sofa/pbrpc/service_pool.h b/src/sofa/pbrpc/service_pool.h
index 6e694d2..d404307 100644
--- a/src/sofa/pbrpc/service_pool.h
+++ b/src/sofa/pbrpc/service_pool.h
@@ -76,6 +76,8 @@ public:
 
     void ReportProcessEnd(bool succeed, int64 time_in_us)
     {
+        // called by all work threads
+        ScopedLocker<FastLock> _(_stat_lock);
         volatile StatSlot* slot = &_stat_slots[_slot_index];
         if (succeed) {
             ++slot->succeed_count;
@@ -95,6 +97,7 @@ public:
 
     void NextSlot()
     {
+        ScopedLocker<FastLock> _(_stat_lock);
         int index = ((_slot_index + 1 == STAT_SLOT_COUNT) ?  0 : _slot_index + 1);
         memset(&_stat_slots[index], 0, sizeof(StatSlot));
         _slot_index = index;
@@ -106,6 +109,7 @@ public:
         SCHECK(slot_count > 0 && slot_count <= STAT_SLOT_COUNT);
         SCHECK(stat_out != NULL);
         memset(stat_out, 0, sizeof(StatSlot));
+        ScopedLocker<FastLock> _(_stat_lock);
         int index = (_slot_index == 0 ? STAT_SLOT_COUNT - 1 : _slot_index - 1);
         int64 slot_id = _slot_id - 1;
         while (slot_count > 0 && slot_id >= 0) {
@@ -151,6 +155,7 @@ private:
     StatSlot _stat_slots[STAT_SLOT_COUNT];
     volatile int _slot_index;
     volatile int64 _slot_id;
+    FastLock _stat_lock;
 };
 
 class ServiceBoard
-- 
2.43.0


From e7ba7e9d535227ec0cc824bc667f2770c26fb452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 32/49] fix: Health request served while the server is being
 destroyed dereferenced a null pointer

---
 src/sofa/pbrpc/builtin_service_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/builtin_service_impl.cc b/src/sofa/pbrpc/builtin_service_impl.cc
index 7e8904d..350edf5 100644
--- a/src/sofa/pbrpc/builtin_service_impl.cc
+++ b/src/sofa/pbrpc/builtin_service_impl.cc
@@ -51,7 +51,9 @@ void BuiltinServiceImpl::Health(::google::protobuf::RpcController* /* controller
         response->set_health("NotOK");
     }
     response->set_version(SOFA_PBRPC_VERSION);
-    response->set_start_time(ptime_to_string(server->GetStartTime()));
+    if (server) {
+        response->set_start_time(ptime_to_string(server->GetStartTime()));
+    }
     done->Run();
 }
 
-- 
2.43.0


From 59507f618e5c8d8baad0e5026824288ecf2d053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 33/49] fix: json_escape_string left control characters
 unescaped

---
 src/sofa/pbrpc/string_utils.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/string_utils.cc b/src/sofa/pbrpc/string_utils.cc
index 6fd569f..811aba4 100644
--- a/src/sofa/pbrpc/string_utils.cc
+++ b/src/sofa/pbrpc/string_utils.cc
@@ -341,7 +341,14 @@ void StringUtils::json_escape_string(std::ostream& os, const char* src, int src_
             case '\r': os << "\\r"; break;
             case '\t': os << "\\t"; break;
             case '\0': os << "\\u0000"; break;
-            default: os << c;
+            default:
+                if (c > '\0' && c < ' ') {
+                    // other control characters
+                    os << "\\u00" << "01"[c >> 4] << "0123456789abcdef"[c & 0xf];
+                }
+                else {
+                    os << c;
+                }
         }
     }
 }
-- 
2.43.0


From 95429f7112278a582723b56d66bc752fe48e5d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 34/49] fix: resize_uninitialized wrote in front of the buffer
 of strings of the C++11 ABI

---
 src/sofa/pbrpc/string_utils.h | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/sofa/pbrpc/string_utils.h b/src/sofa/pbrpc/string_utils.h
index 9bf8828..ef0ad73 100644
--- a/src/sofa/pbrpc/string_utils.h
+++ b/src/sofa/pbrpc/string_utils.h
@@ -74,21 +74,9 @@ public:
     // In some cases doing this can significantly improve performance. 
     static void resize_uninitialized(std::string* str, size_t new_size)
     {
-        struct Rep
-        {
-            std::string::size_type length;
-            std::string::size_type capacity;
-            int refcount; // _Atomic_word
-        };
-        // We need always call reserve() for two reasons:
-        //   - if new_size > capacity, to realloc space.
-        //   - if new_size <= capacity, to make data unshared.
-        // More, if new_size < capacity, we call reserve() with the old capacity
-        // to avoid unnecessary copies.
-        str->reserve(std::max(new_size, str->capacity()));
-        char* base = &*str->begin();
-        reinterpret_cast<Rep*>(base)[-1].length = new_size;
-        base[new_size] = '\0';
+        // The layout of std::string depends on the ABI of the standard library,
+        // so the length can only be changed by resize().
+        str->resize(new_size);
     }
 
     // Format uint64_t to string.
-- 
2.43.0


From fb59b28e1c32a2de4a8f09352a07fcbcc179e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:10 +0000
Subject: [PATCH 35/49] fix: HTTP header lines without a space after the colon
 were rejected

---
 src/sofa/pbrpc/http_rpc_request_parser.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/http_rpc_request_parser.cc b/src/sofa/pbrpc/http_rpc_request_parser.cc
index 08d2fcf..89d1a1c 100644
--- a/src/sofa/pbrpc/http_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/http_rpc_request_parser.cc
@@ -203,8 +203,9 @@ int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
             _state = PS_HEAD_VALUE;
             return 0;
         }
-        err = "expect space after \':\' in header key-value pair";
-        return -1;
+        // the space after ':' is optional
+        _state = PS_HEAD_VALUE;
+        return ParseInternal(c, err);
     case PS_HEAD_VALUE:
         if (c == '\r')
         {
-- 
2.43.0


From 5fc74a9042f12bdcf1993b86ea7efada75543ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:10 +0000
Subject: [PATCH 36/49] fix: malformed HTTP request and header lines were
 accepted (a header line without a colon swallowed the next line)

---
 src/sofa/pbrpc/http_rpc_request_parser.cc | 25 +++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/sofa/pbrpc/http_rpc_request_parser.cc b/src/sofa/pbrpc/http_rpc_request_parser.cc
index 89d1a1c..a861728 100644
--- a/src/sofa/pbrpc/http_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/http_rpc_request_parser.cc
@@ -160,6 +160,11 @@ int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
             _state = PS_HTTP_VERSION;
             return 0;
         }
+        if (c == '\r' || c == '\n')
+        {
+            err = "invalid request line";
+            return -1;
+        }
         _req->_original_path.push_back(c);
         return 0;
     case PS_HTTP_VERSION:
@@ -168,6 +173,11 @@ int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
             _state = PS_EXPECT_NEW_LINE1;
             return 0;
         }
+        if (c == '\n')
+        {
+            err = "invalid request line";
+            return -1;
+        }
         _req->_http_version.push_back(c);
         return 0;
     case PS_EXPECT_NEW_LINE1:
@@ -184,6 +194,11 @@ int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
             _state = PS_EXPECT_NEW_LINE2;
             return 0;
         }
+        if (c == ':' || c == '\n')
+        {
+            err = "empty header name";
+            return -1;
+        }
         _state = PS_HEAD_NAME;
         _header_name.clear();
         _header_value.clear();
@@ -195,6 +210,11 @@ int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
             _state = PS_HEAD_COLON;
             return 0;
         }
+        if (c == '\r' || c == '\n')
+        {
+            err = "expect \':\' in header line";
+            return -1;
+        }
         _header_name.push_back(c);
         return 0;
     case PS_HEAD_COLON:
@@ -216,6 +236,11 @@ int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
             _state = PS_EXPECT_NEW_LINE1;
             return 0;
         }
+        if (c == '\n')
+        {
+            err = "expect \'\\r\' before \'\\n\'";
+            return -1;
+        }
         _header_value.push_back(c);
         return 0;
     case PS_EXPECT_NEW_LINE2:
-- 
2.43.0


From 62ae624f118704c3bc965da842a1d2ceef190765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 37/49] fix: sending a message that serializes to nothing
 aborted the process

---
 src/sofa/pbrpc/buffer.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/buffer.cc b/src/sofa/pbrpc/buffer.cc
index 825aaae..46af9cc 100644
--- a/src/sofa/pbrpc/buffer.cc
+++ b/src/sofa/pbrpc/buffer.cc
@@ -279,14 +279,17 @@ bool WriteBuffer::Next(void** data, int* size)
     return true;
 }
 
-// BackUp() can only be called after a successful Next().
+// BackUp() can only be called after a successful Next(), except that backing up
+// nothing is always allowed: protobuf does so after serializing an empty message.
 // "count" should be greater than or equal to 0.
 void WriteBuffer::BackUp(int count)
 {
-    SCHECK_GT(_last_bytes, 0);
     SCHECK_GE(count, 0);
     SCHECK_LE(count, _last_bytes);
-    _buf_list.back().size -= count;
+    if (count > 0)
+    {
+        _buf_list.back().size -= count;
+    }
     _last_bytes = 0;
     _write_bytes -= count;
 }
-- 
2.43.0


From 04d5c8788c51510455b74796dc38610447634aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 38/49] fix: maintain stream ticks also without keep alive

Idle time of a connection was counted from the ticks reset in ResetOptions(),
but a concurrent read or write could store the stale ticks again, so that the
connection was closed as idle just after keep alive was set. The maintain thread
could also compare with -1 when keep alive was removed meanwhile.
---
 src/sofa/pbrpc/rpc_client_impl.cc | 51 ++++++++++++-------------------
 src/sofa/pbrpc/rpc_server_impl.cc | 51 ++++++++++++-------------------
 2 files changed, 40 insertions(+), 62 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index a05a3d5..7d38e72 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -159,16 +159,6 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
     if (_slice_quota_out != -1) _throughput_out_limited = true;
     _max_pending_buffer_size =
         std::max(0L, options.max_pending_buffer_size * 1024L * 1024L);
-    if (old_keep_alive_ticks == -1 && _options.keep_alive_time != -1)
-    {
-        // ticks of streams are not maintained without keep alive, so idle time counts from now
-        int64 now_ticks = (ptime_now() - _epoch_time).ticks();
-        ScopedLocker<FastLock> _(_stream_map_lock);
-        for (StreamMap::iterator it = _stream_map.begin(); it != _stream_map.end(); ++it)
-        {
-            it->second->reset_ticks(now_ticks, true);
-        }
-    }
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
         -1 : std::max(1, _options.keep_alive_time) * _ticks_per_second;
 
@@ -526,7 +516,6 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
     int64 now_ticks = (now - _epoch_time).ticks();
 
     // checks which need iterator streams
-    if (_keep_alive_ticks != -1 || _throughput_in_limited || _throughput_out_limited)
     {
         StreamMap streams;
         {
@@ -534,28 +523,28 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
             streams = _stream_map;
         }
 
-        // check keep alive time
-        if (_keep_alive_ticks != -1)
+        // check keep alive time, and maintain ticks of streams even without keep alive,
+        // because it may be set by ResetOptions() at any time
+        const int64 keep_alive_ticks = _keep_alive_ticks;
+        for (StreamMap::iterator it = streams.begin(); it != streams.end(); ++it)
         {
-            for (StreamMap::iterator it = streams.begin(); it != streams.end(); ++it)
+            const RpcClientStreamPtr& stream = it->second;
+            if (stream->is_closed())
             {
-                const RpcClientStreamPtr& stream = it->second;
-                if (stream->is_closed())
-                {
-                    continue;
-                }
-                // check the count first, because last rw ticks is updated before it decreases
-                if (stream->pending_process_count() == 0
-                        && now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks)
-                {
-                    stream->close("keep alive timeout: "
-                                  + boost::lexical_cast<std::string>(_options.keep_alive_time)
-                                  + " seconds");
-                }
-                else
-                {
-                    stream->reset_ticks(now_ticks, false);
-                }
+                continue;
+            }
+            // check the count first, because last rw ticks is updated before it decreases
+            if (keep_alive_ticks != -1
+                    && stream->pending_process_count() == 0
+                    && now_ticks - stream->last_rw_ticks() >= keep_alive_ticks)
+            {
+                stream->close("keep alive timeout: "
+                              + boost::lexical_cast<std::string>(_options.keep_alive_time)
+                              + " seconds");
+            }
+            else
+            {
+                stream->reset_ticks(now_ticks, false);
             }
         }
 
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 8d2a297..566741b 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -243,16 +243,6 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
     if (_slice_quota_out != -1) _throughput_out_limited = true;
     _max_pending_buffer_size = 
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
-    if (old_keep_alive_ticks == -1 && _options.keep_alive_time != -1)
-    {
-        // ticks of streams are not maintained without keep alive, so idle time counts from now
-        int64 now_ticks = (ptime_now() - _start_time).ticks();
-        ScopedLocker<FastLock> _(_stream_set_lock);
-        for (StreamSet::iterator it = _stream_set.begin(); it != _stream_set.end(); ++it)
-        {
-            (*it)->reset_ticks(now_ticks, true);
-        }
-    }
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
         -1 : std::max(1, _options.keep_alive_time) * _ticks_per_second;
 
@@ -519,7 +509,6 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
     }
 
     // checks which need iterator streams
-    if (_keep_alive_ticks != -1 || _throughput_in_limited || _throughput_out_limited)
     {
         StreamSet streams;
         {
@@ -527,28 +516,28 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
             streams = _stream_set;
         }
 
-        // check keep alive time
-        if (_keep_alive_ticks != -1)
+        // check keep alive time, and maintain ticks of streams even without keep alive,
+        // because it may be set by ResetOptions() at any time
+        const int64 keep_alive_ticks = _keep_alive_ticks;
+        for (StreamSet::iterator it = streams.begin(); it != streams.end(); ++it)
         {
-            for (StreamSet::iterator it = streams.begin(); it != streams.end(); ++it)
+            const RpcServerStreamPtr& stream = *it;
+            if (stream->is_closed())
             {
-                const RpcServerStreamPtr& stream = *it;
-                if (stream->is_closed())
-                {
-                    continue;
-                }
-                // check the count first, because last rw ticks is updated before it decreases
-                if (stream->pending_process_count() == 0
-                        && now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks)
-                {
-                    stream->close("keep alive timeout: "
-                                  + boost::lexical_cast<std::string>(_options.keep_alive_time)
-                                  + " seconds");
-                }
-                else
-                {
-                    stream->reset_ticks(now_ticks, false);
-                }
+                continue;
+            }
+            // check the count first, because last rw ticks is updated before it decreases
+            if (keep_alive_ticks != -1
+                    && stream->pending_process_count() == 0
+                    && now_ticks - stream->last_rw_ticks() >= keep_alive_ticks)
+            {
+                stream->close("keep alive timeout: "
+                              + boost::lexical_cast<std::string>(_options.keep_alive_time)
+                              + " seconds");
+            }
+            else
+            {
+                stream->reset_ticks(now_ticks, false);
             }
         }
 
-- 
2.43.0


From bc428aea970fc86d2411c9d5a74e2f4d905916b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:23 +0000
Subject: [PATCH 39/49] fix: timeout manager fires events early

The expiration was counted from the last run of the timer, which is stale
when the timer is late, and which is the time of construction until the timer
ran first, although starting the thread group takes up to 100 ms.
---
 src/sofa/pbrpc/timeout_manager_impl.cc | 3 ---
 src/sofa/pbrpc/timeout_manager_impl.h  | 4 +---
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sofa/pbrpc/timeout_manager_impl.cc b/src/sofa/pbrpc/timeout_manager_impl.cc
index 0a37d40..4a92c53 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.cc
+++ b/src/sofa/pbrpc/timeout_manager_impl.cc
@@ -10,8 +10,6 @@ namespace pbrpc {
 TimeoutManagerImpl::TimeoutManagerImpl()
     : _is_running(false)
     , _epoch_time(ptime_now())
-    , _last_ticks(0)
-    , _rectify_ticks(time_duration_milliseconds(kTimerGranularity).ticks())
     , _next_id(1)
 {
 }
@@ -118,7 +116,6 @@ void TimeoutManagerImpl::timer_run(const PTime& now)
 {
     if (!_is_running) return;
     int64 now_ticks = (now - _epoch_time).ticks();
-    _last_ticks = now_ticks;
 
     EventVec expired;
     {
diff --git a/src/sofa/pbrpc/timeout_manager_impl.h b/src/sofa/pbrpc/timeout_manager_impl.h
index af729dc..cae64e1 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.h
+++ b/src/sofa/pbrpc/timeout_manager_impl.h
@@ -57,7 +57,7 @@ private:
     // Given interval in milli-seconds, calculate expiration ticks.
     inline int64 calc_expiration(int64 interval)
     {
-        return _last_ticks + time_duration_milliseconds(interval).ticks() + _rectify_ticks;
+        return (ptime_now() - _epoch_time).ticks() + time_duration_milliseconds(interval).ticks();
     }
 
     void timer_run(const PTime& now);
@@ -96,8 +96,6 @@ private:
     volatile bool _is_running;
     MutexLock _start_stop_lock;
     PTime _epoch_time;
-    volatile int64 _last_ticks; 
-    int64 _rectify_ticks;
 
     ThreadGroupImplPtr _thread_group;
     TimerWorkerPtr _timer_worker;
-- 
2.43.0


From f355649730fca9edfc1c0c1271ad41cdd095c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:50 +0000
Subject: [PATCH 40/49] fix: erasing or clearing repeating events races with
 their firing

Between the expiration and the reinsertion of a repeating event, erase() and
clear() did not find it; after the reinsertion they deleted the callback which
the timer was about to run (also if done by another callback of the same run).
---
 src/sofa/pbrpc/timeout_manager_impl.cc | 69 +++++++++++++++++---------
 src/sofa/pbrpc/timeout_manager_impl.h  | 16 ++++++
 2 files changed, 61 insertions(+), 24 deletions(-)

diff --git a/src/sofa/pbrpc/timeout_manager_impl.cc b/src/sofa/pbrpc/timeout_manager_impl.cc
index 4a92c53..c0bf27d 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.cc
+++ b/src/sofa/pbrpc/timeout_manager_impl.cc
@@ -11,6 +11,8 @@ TimeoutManagerImpl::TimeoutManagerImpl()
     : _is_running(false)
     , _epoch_time(ptime_now())
     , _next_id(1)
+    , _firing_id(0)
+    , _firing_thread(pthread_self())
 {
 }
 
@@ -68,10 +70,7 @@ void TimeoutManagerImpl::clear()
         }
     }
     for (EventVec::iterator it = cleared.begin(); it != cleared.end(); ++it) {
-        Callback* callback = it->callback;
-        bool should_delete = !callback->IsSelfDelete();
-        callback->Run(it->id, TimeoutManager::CLEARED);
-        if (should_delete) delete callback;
+        run_removed(*it, TimeoutManager::CLEARED);
     }
 }
 
@@ -97,21 +96,37 @@ TimeoutManagerImpl::Id TimeoutManagerImpl::add_repeating(int64 interval, Callbac
 
 bool TimeoutManagerImpl::erase(Id id)
 {
-    Callback* callback = NULL;
+    EventVec erased;
     {
         ScopedLocker<MutexLock> _(_timeouts_lock);
         IdIndex& by_id = _timeouts.get<BY_ID>();
         IdIndex::iterator find = by_id.find(id);
         if (find == by_id.end()) return false;
-        callback = find->callback;
+        erased.push_back(*find);
         by_id.erase(find);
     }
-    bool should_delete = !callback->IsSelfDelete();
-    callback->Run(id, TimeoutManager::ERASED);
-    if (should_delete) delete callback;
+    run_removed(erased.front(), TimeoutManager::ERASED);
     return true;
 }
 
+void TimeoutManagerImpl::wait_not_firing(Id id)
+{
+    while (_firing_id == id && !pthread_equal(_firing_thread, pthread_self())) {
+        _firing_done.wait(_timeouts_lock);
+    }
+}
+
+void TimeoutManagerImpl::run_removed(const Event& event, Type type)
+{
+    if (event.repeat_interval >= 0) {
+        ScopedLocker<MutexLock> _(_timeouts_lock);
+        wait_not_firing(event.id);
+    }
+    bool should_delete = !event.callback->IsSelfDelete();
+    event.callback->Run(event.id, type);
+    if (should_delete) delete event.callback;
+}
+
 void TimeoutManagerImpl::timer_run(const PTime& now)
 {
     if (!_is_running) return;
@@ -125,28 +140,34 @@ void TimeoutManagerImpl::timer_run(const PTime& now)
             ExpirationIndex::iterator exp_end = by_expiration.upper_bound(now_ticks);
             expired.insert(expired.end(), by_expiration.begin(), exp_end);
             by_expiration.erase(by_expiration.begin(), exp_end);
-        }
-    }
 
-    if (expired.empty()) return;
-
-    // Reinsert if repeating, do this before executing callbacks
-    // so the callbacks have a chance to call erase
-    EventVec repeated;
-    for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
-        if (it->repeat_interval >= 0) {
-            repeated.push_back(Event(it->id, calc_expiration(it->repeat_interval),
-                        it->repeat_interval, it->callback));
+            // Reinsert if repeating, do this before releasing the lock
+            // so that erase and clear always find the repeating events
+            for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
+                if (it->repeat_interval >= 0) {
+                    _timeouts.insert(Event(it->id, calc_expiration(it->repeat_interval),
+                                it->repeat_interval, it->callback));
+                }
+            }
         }
     }
-    if (!repeated.empty()) {
-        ScopedLocker<MutexLock> _(_timeouts_lock);
-        _timeouts.insert(repeated.begin(), repeated.end());
-    }
 
     // Execute callbacks
     for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
+        if (it->repeat_interval >= 0) {
+            // the event may have been erased or cleared, and its callback deleted
+            ScopedLocker<MutexLock> _(_timeouts_lock);
+            IdIndex& by_id = _timeouts.get<BY_ID>();
+            if (by_id.find(it->id) == by_id.end()) continue;
+            _firing_id = it->id;
+            _firing_thread = pthread_self();
+        }
         it->callback->Run(it->id, TimeoutManager::TIMEOUTED);
+        if (it->repeat_interval >= 0) {
+            ScopedLocker<MutexLock> _(_timeouts_lock);
+            _firing_id = 0;
+            _firing_done.broadcast();
+        }
     }
 }
 
diff --git a/src/sofa/pbrpc/timeout_manager_impl.h b/src/sofa/pbrpc/timeout_manager_impl.h
index cae64e1..ccc6c4b 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.h
+++ b/src/sofa/pbrpc/timeout_manager_impl.h
@@ -5,6 +5,7 @@
 #ifndef _SOFA_PBRPC_TIMEOUT_MANAGER_IMPL_H_
 #define _SOFA_PBRPC_TIMEOUT_MANAGER_IMPL_H_
 
+#include <pthread.h>
 #include <vector>
 
 #include <boost/multi_index_container.hpp>
@@ -13,6 +14,7 @@
 #include <boost/multi_index/member.hpp>
 
 #include <sofa/pbrpc/common_internal.h>
+#include <sofa/pbrpc/condition_variable.h>
 #include <sofa/pbrpc/timeout_manager.h>
 #include <sofa/pbrpc/thread_group_impl.h>
 #include <sofa/pbrpc/timer_worker.h>
@@ -62,6 +64,17 @@ private:
 
     void timer_run(const PTime& now);
 
+private:
+    struct Event;
+
+    // Wait until the timer thread is not running the callback of the event, which
+    // has been removed.  Should hold "_timeouts_lock".
+    // Not wait if called in the callback itself.
+    void wait_not_firing(Id id);
+
+    // Run the callback of the removed event, and delete it if necessary.
+    void run_removed(const Event& event, Type type);
+
 private:
     struct Event {
         Id id;
@@ -102,7 +115,10 @@ private:
 
     Set _timeouts;
     Id _next_id;
+    Id _firing_id; // the repeating event whose callback is being run by timer, 0 if none
+    pthread_t _firing_thread;
     MutexLock _timeouts_lock;
+    ConditionVariable _firing_done;
 };
 
 } // namespace pbrpc
-- 
2.43.0


From 6f1255363486ad63fc4646364c80971edb8fd3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 41/49] fix: thread group runs no task after it is started
 again

---
 src/sofa/pbrpc/thread_group_impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sofa/pbrpc/thread_group_impl.h b/src/sofa/pbrpc/thread_group_impl.h
index 5a1e220..8f5262a 100644
--- a/src/sofa/pbrpc/thread_group_impl.h
+++ b/src/sofa/pbrpc/thread_group_impl.h
@@ -101,6 +101,8 @@ public:
 #else
         SLOG(INFO, "start(): starting thread group [%s], thread_num=%d", _name.c_str(), _thread_num);
 #endif
+        // run() returns at once if the io service ran out of work in the last stop
+        _io_service.reset();
         _io_service_work = new IOServiceWork(_io_service);
         _threads = new pthread_t[_thread_num];
         _thread_params = new ThreadParam[_thread_num];
-- 
2.43.0


From d17c8e96e552d77e844ca4c83e1ca2e94da3fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 42/49] fix: destroying a dynamic channel that was never inited
 dereferences null

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index 740da25..a619706 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -88,12 +88,14 @@ bool DynamicRpcChannelImpl::Init()
 void DynamicRpcChannelImpl::Stop()
 {
     // remove TimerDetect
-    _timeout_manager->erase(_timer_id);
-    {
-        ScopedLocker<LockType> _(_detect_lock);
-        _is_detect_disabled = true;
+    if (_timeout_manager) { // NULL if never inited
+        _timeout_manager->erase(_timer_id);
+        {
+            ScopedLocker<LockType> _(_detect_lock);
+            _is_detect_disabled = true;
+        }
+        _timeout_manager.reset();
     }
-    _timeout_manager.reset();
 
     // clear SimpleRpcChannelImpl
     {
-- 
2.43.0


From 5b39bcdfb955e8bcf4390ea886f74efb837afe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 43/49] fix: removing an address from a stopped dynamic channel
 aborts

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index a619706..098b368 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -117,6 +117,7 @@ void DynamicRpcChannelImpl::Stop()
         }
         _live_map.clear();
         _unlive_map.clear();
+        _added_set.clear();
     }
 
 #if defined( LOG )
-- 
2.43.0


From 05dc2c49680eedb2f918930f91023d1667f634f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 44/49] fix: dynamic channel prefers unresolvable addresses
 over real servers

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index 098b368..4042ee9 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -161,6 +161,9 @@ void DynamicRpcChannelImpl::CallMethod(
                 SLOG(ERROR, "CallMethod(): init channel failed: [%s]",
                         server->server_address.c_str());
 #endif
+                // treat as a failed request, so that other servers are preferred when retry
+                server->is_last_request_succeed = false;
+                server->last_request_seq = ++_request_count;
                 MoveToUnlive(server->server_address, "init channel failed");
                 choose_ret = RPC_ERROR_SERVER_UNAVAILABLE;
                 server.reset();
-- 
2.43.0


From 841564a8562033cfdc8286929bc38fbd41e4259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 45/49] fix: python client: the magic string is bytes, so that
 calls work on Python 3

---
 python/sofa/pbrpc/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/sofa/pbrpc/client.py b/python/sofa/pbrpc/client.py
index a3fb8fd..c27c0da 100644
--- a/python/sofa/pbrpc/client.py
+++ b/python/sofa/pbrpc/client.py
@@ -187,7 +187,7 @@ class Protocol(object):
   """Protocol wrapper. This is a internal class, not for user.
   """
 
-  MAGIC_STR = 'SOFA'
+  MAGIC_STR = b'SOFA'
   HEADER_SIZE = 24
 
   def __init__(self, address):
-- 
2.43.0


From 8528c1ecc74a698b1f315f68a2a8925afd2205bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 46/49] fix: python client: close the connection after a failed
 call, its leftovers were taken for the next reply

---
 python/sofa/pbrpc/client.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/sofa/pbrpc/client.py b/python/sofa/pbrpc/client.py
index c27c0da..e468253 100644
--- a/python/sofa/pbrpc/client.py
+++ b/python/sofa/pbrpc/client.py
@@ -266,10 +266,16 @@ class Channel(service.RpcChannel):
     else:
       deadline = time.time() + rpc_controller.timeout
     self.sequence_id += 1
-    self.protocol.SendRequest(
-        self.sequence_id, deadline, method_descriptor.full_name, request)
-    resp = self.protocol.ReceiveResponse(
-        self.sequence_id, deadline, response_class)
+    try:
+      self.protocol.SendRequest(
+          self.sequence_id, deadline, method_descriptor.full_name, request)
+      resp = self.protocol.ReceiveResponse(
+          self.sequence_id, deadline, response_class)
+    except:
+      # Do not reuse the connection, because what is left in it
+      # would be taken for the response of the next call.
+      self.protocol.connection.Close()
+      raise
     if resp[0]:
       return resp[1]
     else:
-- 
2.43.0


From 713f4a1fd3da671ed0a18c5dd1b2c3a48fcdf62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 47/49] fix: python client: connecting keeps to the deadline of
 the call

---
 python/sofa/pbrpc/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/sofa/pbrpc/client.py b/python/sofa/pbrpc/client.py
index e468253..b23b637 100644
--- a/python/sofa/pbrpc/client.py
+++ b/python/sofa/pbrpc/client.py
@@ -150,8 +150,12 @@ class Connection(object):
       except socket.error as err:
         self.Close()
         raise Error('Create connection fail: %s' % err)
+      self.UpdateTimeout(deadline)
       try:
         self.conn.connect((self.host, self.port))
+      except socket.timeout:
+        self.Close()
+        raise TimeoutError('Already timeout')
       except socket.error as err:
         self.Close()
         raise Error('Connect fail: %s' % err)
-- 
2.43.0


From 59b42005f3970cfda3f71634e988a743c5934cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 48/49] fix: keep the descriptors and message factory of the
 HTTP agent alive while its calls use them

UpdateServiceInfo() and the destructor deleted the descriptor pool and the
message factory under asynchronous calls in flight, whose messages were then
parsed through freed memory; the pool was deleted before the factory that
uses it; a failed update left the service map pointing into a deleted pool;
callbacks of calls that failed early ran with the descriptor lock held.
---
 src/sofa/pbrpc/http-agent/http_agent.cc | 93 ++++++++++++++-----------
 src/sofa/pbrpc/http-agent/http_agent.h  | 27 +++++--
 2 files changed, 72 insertions(+), 48 deletions(-)

diff --git a/src/sofa/pbrpc/http-agent/http_agent.cc b/src/sofa/pbrpc/http-agent/http_agent.cc
index 906da44..682b799 100644
--- a/src/sofa/pbrpc/http-agent/http_agent.cc
+++ b/src/sofa/pbrpc/http-agent/http_agent.cc
@@ -19,19 +19,34 @@ HttpAgent::HttpAgent(RpcClient* rpc_client)
     : _rpc_client(rpc_client)
     , _rpc_channel(NULL)
     , _stub(NULL)
-    , _desc_pool(NULL)
-    , _msg_factory(NULL)
 {
 }
 
 HttpAgent::~HttpAgent()
 {
-    delete _msg_factory;
-    delete _desc_pool;
     delete _stub;
     delete _rpc_channel;
 }
 
+HttpAgent::ServiceInfo::ServiceInfo()
+    : desc_pool(new ::google::protobuf::DescriptorPool())
+    , msg_factory(new ::google::protobuf::DynamicMessageFactory(desc_pool))
+{
+}
+
+HttpAgent::ServiceInfo::~ServiceInfo()
+{
+    // the factory uses the descriptors, so it has to go first
+    delete msg_factory;
+    delete desc_pool;
+}
+
+HttpAgent::ServiceInfoPtr HttpAgent::GetServiceInfo()
+{
+    ReadLocker _(&_info_lock);
+    return _info;
+}
+
 bool HttpAgent::Init(const std::string& server_address)
 {
     _server_address = server_address;
@@ -53,22 +68,12 @@ bool HttpAgent::UpdateServiceInfo()
         return false;
     }
 
-    WriteLocker _(&_desc_lock);
-    if (_desc_pool != NULL) {
-        delete _desc_pool;
-        _desc_pool = NULL;
-        delete _msg_factory;
-        _msg_factory = NULL;
-        _svc_desc_map.clear();
-    }
-    _desc_pool = new ::google::protobuf::DescriptorPool();
+    ServiceInfoPtr info(new ServiceInfo());
     for (int i = 0; i < response.files_size(); ++i) {
         const ::google::protobuf::FileDescriptorProto& d = response.files(i);
-        const ::google::protobuf::FileDescriptor* fd = _desc_pool->BuildFile(d);
+        const ::google::protobuf::FileDescriptor* fd = info->desc_pool->BuildFile(d);
         if (fd == NULL) {
             SLOG(ERROR, "UpdateServiceInfo(): build file descriptor failed: %s", d.name().c_str());
-            delete _desc_pool;
-            _desc_pool = NULL;
             return false;
         }
         SLOG(INFO, "UpdateServiceInfo(): add file [%s]", d.name().c_str());
@@ -76,29 +81,29 @@ bool HttpAgent::UpdateServiceInfo()
     for (int j = 0; j < response.services_size(); ++j) {
         const std::string& s = response.services(j);
         SLOG(INFO, "UpdateServiceInfo(): add service [%s]", s.c_str());
-        const ::google::protobuf::ServiceDescriptor* sd = _desc_pool->FindServiceByName(s);
+        const ::google::protobuf::ServiceDescriptor* sd = info->desc_pool->FindServiceByName(s);
         if (sd == NULL) {
             SLOG(ERROR, "UpdateServiceInfo(): find service descriptor failed: %s", s.c_str());
-            delete _desc_pool;
-            _desc_pool = NULL;
             return false;
         }
-        _svc_desc_map[s] = sd;
+        info->svc_desc_map[s] = sd;
     }
-    _msg_factory = new ::google::protobuf::DynamicMessageFactory(_desc_pool);
+
+    WriteLocker _(&_info_lock);
+    _info.swap(info);
     return true;
 }
 
 bool HttpAgent::ListService(std::map<std::string, ::google::protobuf::ServiceDescriptorProto>* service_map)
 {
-    ReadLocker _(&_desc_lock);
-    if (_desc_pool == NULL) {
+    ServiceInfoPtr info = GetServiceInfo();
+    if (!info) {
         SLOG(ERROR, "ListService(): descriptor pool not exist");
         return false;
     }
 
-    for (ServiceDescriptorMap::iterator it = _svc_desc_map.begin();
-            it != _svc_desc_map.end(); ++it) {
+    for (ServiceDescriptorMap::iterator it = info->svc_desc_map.begin();
+            it != info->svc_desc_map.end(); ++it) {
         const ::google::protobuf::ServiceDescriptor* sd = it->second;
         ::google::protobuf::ServiceDescriptorProto& sdp = (*service_map)[sd->full_name()];
         sd->CopyTo(&sdp);
@@ -108,14 +113,14 @@ bool HttpAgent::ListService(std::map<std::string, ::google::protobuf::ServiceDes
 
 bool HttpAgent::ListService(std::map<std::string, std::string>* desc_map)
 {
-    ReadLocker _(&_desc_lock);
-    if (_desc_pool == NULL) {
+    ServiceInfoPtr info = GetServiceInfo();
+    if (!info) {
         SLOG(ERROR, "ListService(): descriptor pool not exist");
         return false;
     }
 
-    for (ServiceDescriptorMap::iterator it = _svc_desc_map.begin();
-            it != _svc_desc_map.end(); ++it) {
+    for (ServiceDescriptorMap::iterator it = info->svc_desc_map.begin();
+            it != info->svc_desc_map.end(); ++it) {
         const ::google::protobuf::ServiceDescriptor* sd = it->second;
         (*desc_map)[sd->full_name()] = sd->DebugString();
     }
@@ -124,27 +129,27 @@ bool HttpAgent::ListService(std::map<std::string, std::string>* desc_map)
 
 bool HttpAgent::GetDescriptor(const std::string& name, ProtobufType* type, std::string* desc)
 {
-    ReadLocker _(&_desc_lock);
-    if (_desc_pool == NULL) {
+    ServiceInfoPtr info = GetServiceInfo();
+    if (!info) {
         SLOG(ERROR, "GetDescriptor(): descriptor pool not exist");
         return false;
     }
 
-    const ::google::protobuf::ServiceDescriptor* sd = _desc_pool->FindServiceByName(name);
+    const ::google::protobuf::ServiceDescriptor* sd = info->desc_pool->FindServiceByName(name);
     if (sd != NULL) {
         *type = PT_SERVICE;
         *desc = sd->DebugString();
         return true;
     }
 
-    const ::google::protobuf::Descriptor* d = _desc_pool->FindMessageTypeByName(name);
+    const ::google::protobuf::Descriptor* d = info->desc_pool->FindMessageTypeByName(name);
     if (d != NULL) {
         *type = PT_MESSAGE;
         *desc = d->DebugString();
         return true;
     }
 
-    const ::google::protobuf::EnumDescriptor* ed = _desc_pool->FindEnumTypeByName(name);
+    const ::google::protobuf::EnumDescriptor* ed = info->desc_pool->FindEnumTypeByName(name);
     if (ed != NULL) {
         *type = PT_ENUM;
         *desc = ed->DebugString();
@@ -176,7 +181,11 @@ void HttpAgent::CallMethod(const std::string& method_full_name,
         return;
     }
 
-    if (_desc_pool == NULL && !UpdateServiceInfo()) {
+    ServiceInfoPtr info = GetServiceInfo();
+    if (!info && UpdateServiceInfo()) {
+        info = GetServiceInfo();
+    }
+    if (!info) {
         SLOG(ERROR, "CallMethod(): fetch service descriptor from server failed");
         cntl->SetFailed(RPC_ERROR_CREATE_STREAM, "fetch service descriptor from server failed");
         if (done != NULL) done->Run();
@@ -192,9 +201,8 @@ void HttpAgent::CallMethod(const std::string& method_full_name,
         return;
     }
 
-    ReadLocker _(&_desc_lock);
-    ServiceDescriptorMap::iterator find = _svc_desc_map.find(service_full_name);
-    if (find ==  _svc_desc_map.end()) {
+    ServiceDescriptorMap::iterator find = info->svc_desc_map.find(service_full_name);
+    if (find ==  info->svc_desc_map.end()) {
         SLOG(ERROR, "CallMethod(): service not found: %s", service_full_name.c_str());
         cntl->SetFailed(RPC_ERROR_FOUND_SERVICE, "service not found");
         if (done != NULL) done->Run();
@@ -210,7 +218,7 @@ void HttpAgent::CallMethod(const std::string& method_full_name,
     }
     const ::google::protobuf::Descriptor* id = md->input_type();
     const ::google::protobuf::Descriptor* od = md->output_type();
-    ::google::protobuf::Message* request_message = _msg_factory->GetPrototype(id)->New();
+    ::google::protobuf::Message* request_message = info->msg_factory->GetPrototype(id)->New();
     std::string request_str = StringUtils::trim(*request);
     bool parse_failed = false;
     if (request_str.size() > 0 && request_str[0] == '{') {
@@ -243,7 +251,7 @@ void HttpAgent::CallMethod(const std::string& method_full_name,
         if (done != NULL) done->Run();
         return;
     }
-    ::google::protobuf::Message* response_message = _msg_factory->GetPrototype(od)->New();
+    ::google::protobuf::Message* response_message = info->msg_factory->GetPrototype(od)->New();
     ::google::protobuf::Closure* real_done = NULL;
     if (done == NULL) {
         // sync call
@@ -252,7 +260,7 @@ void HttpAgent::CallMethod(const std::string& method_full_name,
     else {
         // async call
         real_done = NewClosure(&HttpAgent::CallMethodDone,
-                cntl, response, request_message, response_message, done);
+                info, cntl, response, request_message, response_message, done);
     }
     _rpc_channel->CallMethod(md, controller, request_message, response_message, real_done);
     if (done == NULL) {
@@ -268,7 +276,8 @@ void HttpAgent::CallMethod(const std::string& method_full_name,
     }
 }
 
-void HttpAgent::CallMethodDone(const RpcControllerImplPtr& cntl,
+void HttpAgent::CallMethodDone(ServiceInfoPtr /* info */,
+                               const RpcControllerImplPtr& cntl,
                                std::string* response,
                                ::google::protobuf::Message* request_message,
                                ::google::protobuf::Message* response_message,
diff --git a/src/sofa/pbrpc/http-agent/http_agent.h b/src/sofa/pbrpc/http-agent/http_agent.h
index 8c46c3a..97308c6 100644
--- a/src/sofa/pbrpc/http-agent/http_agent.h
+++ b/src/sofa/pbrpc/http-agent/http_agent.h
@@ -54,7 +54,25 @@ public:
                     ::google::protobuf::Closure* done);
 
 private:
-    static void CallMethodDone(const sofa::pbrpc::shared_ptr<RpcControllerImpl>& cntl,
+    typedef std::map<std::string, const ::google::protobuf::ServiceDescriptor*> ServiceDescriptorMap;
+
+    // Descriptors fetched by one update, and the factory of the messages described by
+    // them.  Calls in progress hold a reference, because their messages depend on it.
+    struct ServiceInfo
+    {
+        ServiceInfo();
+        ~ServiceInfo();
+
+        ::google::protobuf::DescriptorPool* desc_pool;
+        ::google::protobuf::MessageFactory* msg_factory;
+        ServiceDescriptorMap svc_desc_map;
+    };
+    typedef sofa::pbrpc::shared_ptr<ServiceInfo> ServiceInfoPtr;
+
+    ServiceInfoPtr GetServiceInfo();
+
+    static void CallMethodDone(ServiceInfoPtr info,
+                               const sofa::pbrpc::shared_ptr<RpcControllerImpl>& cntl,
                                std::string* response,
                                ::google::protobuf::Message* request_message,
                                ::google::protobuf::Message* response_message,
@@ -69,11 +87,8 @@ private:
     sofa::pbrpc::builtin::BuiltinService_Stub* _stub;
     std::string _server_address;
 
-    RWLock _desc_lock;
-    ::google::protobuf::DescriptorPool* _desc_pool;
-    ::google::protobuf::MessageFactory* _msg_factory;
-    typedef std::map<std::string, const ::google::protobuf::ServiceDescriptor*> ServiceDescriptorMap;
-    ServiceDescriptorMap _svc_desc_map;
+    RWLock _info_lock;
+    ServiceInfoPtr _info; // NULL if no update succeeded yet
 };
 
 } // namespace http_agent
-- 
2.43.0


From d1cdf68da32cbd43746b2869f8c5703114f2571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 49/49] fix: the HTTP agent rejects JSON requests without
 required fields

Text requests without required fields were rejected, but JSON ones were passed
on to be serialized, which aborts the process in protobuf's own check.
---
 src/sofa/pbrpc/http-agent/http_agent.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sofa/pbrpc/http-agent/http_agent.cc b/src/sofa/pbrpc/http-agent/http_agent.cc
index 682b799..23866ec 100644
--- a/src/sofa/pbrpc/http-agent/http_agent.cc
+++ b/src/sofa/pbrpc/http-agent/http_agent.cc
@@ -233,6 +233,11 @@ void HttpAgent::CallMethod(const std::string& method_full_name,
         else if (jsonobject2pb(doc, request_message, err) < 0) {
             parse_failed = true;
         }
+        else if (!request_message->IsInitialized()) {
+            // as for text format, required fields must be set
+            err = "missing required fields: " + request_message->InitializationErrorString();
+            parse_failed = true;
+        }
         delete doc;
         if (parse_failed) {
             SLOG(ERROR, "Error parsing json-format %s: %s", id->full_name().c_str(), err.c_str());
-- 
2.43.0

