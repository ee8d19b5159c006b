From c4f7de60dd00d478832aa8cc014f3ec31eefa8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:50 +0000
Subject: [PATCH 01/78] fix: link addresses with bytes above 127 are sign
 extended to a wrong address or port

---
 src/app/common/reactor/types/LinkAddr.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/common/reactor/types/LinkAddr.hpp b/src/app/common/reactor/types/LinkAddr.hpp
index 989f54a..f8a8c48 100644
--- a/src/app/common/reactor/types/LinkAddr.hpp
+++ b/src/app/common/reactor/types/LinkAddr.hpp
@@ -17,17 +17,17 @@ struct LinkAddr
 
 inline std::uint16_t ipv4port(LinkAddr const& addr)
 {
-    std::uint16_t a = addr.data[4];
-    std::uint16_t b = addr.data[5];
+    std::uint16_t a = static_cast<std::uint8_t>(addr.data[4]);
+    std::uint16_t b = static_cast<std::uint8_t>(addr.data[5]);
     return a << 8 | b;
 }
 
 inline std::uint32_t ipv4addr(LinkAddr const& addr)
 {
-    std::uint32_t a = addr.data[0];
-    std::uint32_t b = addr.data[1];
-    std::uint32_t c = addr.data[2];
-    std::uint32_t d = addr.data[3];
+    std::uint32_t a = static_cast<std::uint8_t>(addr.data[0]);
+    std::uint32_t b = static_cast<std::uint8_t>(addr.data[1]);
+    std::uint32_t c = static_cast<std::uint8_t>(addr.data[2]);
+    std::uint32_t d = static_cast<std::uint8_t>(addr.data[3]);
     return a << 24 | b << 16 | c << 8 | d;
 }
 
-- 
2.43.0


From 3b4ea378037e8963e0e6e02c2ae64778e07409b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:50 +0000
Subject: [PATCH 02/78] fix: end of stream is reported as received data

---
 src/app/common/reactor/Link.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 3b25bc3..53866b8 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -129,6 +129,11 @@ LinkResult Link::receive(std::uint8_t* data, std::size_t len)
         LM(GEN, LI, "Link(%d) read rc: %d errno: %d", fd, rc, errno);
         return {LinkResult::error, 0};
     }
+    else if (0 == rc)
+    {
+        LM(GEN, LI, "Link(%d) closed by peer", fd);
+        return {LinkResult::closed, 0};
+    }
     return {LinkResult::ok, rc};
 }
 
-- 
2.43.0


From aff67d089e4af758921cfcc1e03b2c7ee4a5f97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:50 +0000
Subject: [PATCH 03/78] fix: sending to a closed peer kills the process by
 SIGPIPE and a short write is reported as success

---
 src/app/common/reactor/Link.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 53866b8..f6f8a92 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -104,11 +104,17 @@ int Link::send(void const* data, std::size_t len)
     {
         return -1;
     }
-    if (-1 == ::write(fd, data, len))
+    ssize_t const rc = ::send(fd, data, len, MSG_NOSIGNAL);
+    if (-1 == rc)
     {
         LM(GEN, LE, "write errno: %d", errno);
         return -1;
     }
+    if (static_cast<std::size_t>(rc) != len)
+    {
+        LM(GEN, LE, "write is incomplete: %zd of %zu", rc, len);
+        return -1;
+    }
     return 1;
 }
 
-- 
2.43.0


From da1f430310c2cd4ceb2240efb67db2270c8a3d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:50 +0000
Subject: [PATCH 04/78] fix: a connection that becomes writable and readable at
 once is treated as failed

---
 src/app/common/reactor/Link.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index f6f8a92..ba5d440 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -155,15 +155,14 @@ void Link::onFileDescriptorEvent(int events)
         LM(GEN, LE, "Handler is undefined");
         return;
     }
-    switch (events)
+    if (events & (EPOLLERR | EPOLLHUP))
     {
-    case EPOLLIN:
-    {
-        handler(LinkEvent::data);
+        close();
+        handler(LinkEvent::error);
     }
-    break;
-    case EPOLLOUT:
+    else if (events & EPOLLOUT)
     {
+        // pending input is reported again after the modification
         if (-1 == epoll.mod(*this, EPOLLIN | EPOLLET))
         {
             LM(GEN, LE, "fd mod");
@@ -175,14 +174,15 @@ void Link::onFileDescriptorEvent(int events)
             handler(LinkEvent::connected);
         }
     }
-    break;
-    default:
+    else if (events & EPOLLIN)
+    {
+        handler(LinkEvent::data);
+    }
+    else
     {
         close();
         handler(LinkEvent::error);
     }
-    break;
-    }
 }
 
 int Link::fileDescriptor() const
-- 
2.43.0


From af390a3ad7367c75ac7fb088601a951e2b936ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:12 +0000
Subject: [PATCH 05/78] fix: an exception in a message handler loses the
 messages queued behind it

---
 src/app/common/reactor/Reactor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index b0909cc..f11282a 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -153,7 +153,14 @@ void Reactor::onFdEvent(uint64_t val)
         MsgHandler& handler = handlers[msg.getMsgId()];
         if (handler)
         {
-            handler(msg);
+            try
+            {
+                handler(msg);
+            }
+            catch (std::exception const& e)
+            {
+                LM(GEN, LE, "Handler of msgId=%zu failed: %s", msg.getMsgId(), e.what());
+            }
         }
         else
         {
-- 
2.43.0


From d95170249fb037ecfb16dcfe199641b4fe4bcdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:12 +0000
Subject: [PATCH 06/78] fix: an exception in an event handler loses the other
 events of the same wake-up

---
 src/app/common/reactor/Epoll.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Epoll.cpp b/src/app/common/reactor/Epoll.cpp
index 22ca688..3506dd7 100644
--- a/src/app/common/reactor/Epoll.cpp
+++ b/src/app/common/reactor/Epoll.cpp
@@ -68,7 +68,14 @@ void Epoll::wait()
             throw std::runtime_error("invalid ptr");
         }
         FileDescriptorInterface& fd = *static_cast<FileDescriptorInterface*>(events[n].data.ptr);
-        fd.onFileDescriptorEvent(events[n].events);
+        try
+        {
+            fd.onFileDescriptorEvent(events[n].events);
+        }
+        catch (std::exception const& e)
+        {
+            LM(GEN, LE, "event handler failed: %s", e.what());
+        }
     }
 }
 
-- 
2.43.0


From 019e426c24588ca8d42cd7e0aa0fdc05df0097c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:39 +0000
Subject: [PATCH 07/78] fix: events of a resource closed earlier in the same
 wake-up are still dispatched

---
 src/app/common/reactor/Epoll.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Epoll.cpp b/src/app/common/reactor/Epoll.cpp
index 3506dd7..dbe3c7b 100644
--- a/src/app/common/reactor/Epoll.cpp
+++ b/src/app/common/reactor/Epoll.cpp
@@ -11,6 +11,13 @@
 namespace app::reactor
 {
 
+namespace
+{
+// wake-up the calling thread is dispatching
+thread_local struct epoll_event* pendingEvents = nullptr;
+thread_local int numPendingEvents = 0;
+}
+
 Epoll::Epoll(unsigned id_)
     : id(id_)
 {
@@ -44,6 +51,14 @@ int Epoll::mod(FileDescriptorInterface& fd, int events)
 
 int Epoll::del(FileDescriptorInterface& fd)
 {
+    // events of this wake-up that are not dispatched yet are obsolete
+    for (int n = 0; n < numPendingEvents; ++n)
+    {
+        if (pendingEvents[n].data.ptr == &fd)
+        {
+            pendingEvents[n].data.ptr = nullptr;
+        }
+    }
     struct epoll_event ev;
     ev.events = 0;
     ev.data.ptr = &fd;
@@ -61,11 +76,13 @@ void Epoll::wait()
         throw std::runtime_error("epoll_wait");
     }
 
+    pendingEvents = events;
+    numPendingEvents = nfds;
     for (int n = 0; n < nfds; ++n)
     {
         if (events[n].data.ptr == nullptr)
         {
-            throw std::runtime_error("invalid ptr");
+            continue;
         }
         FileDescriptorInterface& fd = *static_cast<FileDescriptorInterface*>(events[n].data.ptr);
         try
@@ -77,6 +94,7 @@ void Epoll::wait()
             LM(GEN, LE, "event handler failed: %s", e.what());
         }
     }
+    numPendingEvents = 0;
 }
 
 } // namespace app::reactor
-- 
2.43.0


From c77e3a8d4d6116a43b55e8e31dc5005cab99450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:39 +0000
Subject: [PATCH 08/78] fix: a timer that can not be created leaks its slot and
 keeps a stale descriptor

---
 src/app/common/reactor/Reactor.cpp | 10 +++++++++-
 src/app/common/reactor/Timer.cpp   |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index f11282a..370e804 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -62,7 +62,15 @@ TimerPtr Reactor::createTimer(TimerHandler handler)
         throw std::runtime_error("timerPool alloc");
     }
     Timer& timer = timerPool.get(uid);
-    timer.create();
+    try
+    {
+        timer.create();
+    }
+    catch (...)
+    {
+        timerPool.release(uid);
+        throw;
+    }
     timer.setHandler(handler);
     TimerPtr timerPtr(&timer, [this, uid](auto* timer)
     {
diff --git a/src/app/common/reactor/Timer.cpp b/src/app/common/reactor/Timer.cpp
index 09d3fd8..db62d8b 100644
--- a/src/app/common/reactor/Timer.cpp
+++ b/src/app/common/reactor/Timer.cpp
@@ -40,6 +40,7 @@ void Timer::create()
     if (-1 == epoll.add(*this, EPOLLIN | EPOLLET))
     {
         ::close(fd);
+        fd = -1;
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From 0030f6874c7cd9f1c7f060682b8d8331acd50ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:39 +0000
Subject: [PATCH 09/78] fix: a failing call while a timer is released
 terminates the process

---
 src/app/common/reactor/Timer.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/app/common/reactor/Timer.cpp b/src/app/common/reactor/Timer.cpp
index db62d8b..6c8a563 100644
--- a/src/app/common/reactor/Timer.cpp
+++ b/src/app/common/reactor/Timer.cpp
@@ -104,7 +104,6 @@ void Timer::stop()
 
 void Timer::release()
 {
-    stop();
     close();
     handler = {};
 }
-- 
2.43.0


From cb9876bd16f99894ad3cb7daaad1cbed7d0882af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:39 +0000
Subject: [PATCH 10/78] fix: releasing a listener that could not be opened
 terminates the process

---
 src/app/common/reactor/Acceptor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index ea8651e..d76b200 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -82,7 +82,8 @@ void Acceptor::close()
 {
     if (-1 == sfd)
     {
-        throw std::runtime_error("invalid sfd");
+        LM(GEN, LI, "sfd is closed");
+        return;
     }
     LM(GEN, LD, "Close");
     if (-1 == epoll.del(*this))
-- 
2.43.0


From aa55bb9060b6d3d2eaa125d958bbf460b0550ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:39 +0000
Subject: [PATCH 11/78] fix: a connection that can not be watched after accept
 keeps a closed descriptor

---
 src/app/common/reactor/Acceptor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index d76b200..78c897f 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -133,8 +133,7 @@ void Acceptor::accept(LinkInterface& link)
 
     if (-1 == epoll.add(link, EPOLLIN | EPOLLET))
     {
-        ::close(fd);
-        link.setFileDescriptor(-1);
+        link.close();
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From c46fdb22c2efced0f66980ab6aef12d71587ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:39 +0000
Subject: [PATCH 12/78] fix: a message larger than a slot overwrites the
 messages in the neighbouring slots

---
 src/app/common/reactor/MsgMemStorage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app/common/reactor/MsgMemStorage.cpp b/src/app/common/reactor/MsgMemStorage.cpp
index 8fa30a8..791c715 100644
--- a/src/app/common/reactor/MsgMemStorage.cpp
+++ b/src/app/common/reactor/MsgMemStorage.cpp
@@ -32,6 +32,10 @@ bool MsgMemStorage::push(const void* data, std::uint64_t len)
 {
     std::lock_guard<std::mutex> guard(mutex);
 
+    if (len > chunkSize - sizeof(Item))
+    {
+        return false;
+    }
     if (freeIds.empty())
     {
         return false;
-- 
2.43.0


From 28bbf4cd4a32097c69c335cbc0aa261548910916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:39 +0000
Subject: [PATCH 13/78] fix: a Modbus frame received in pieces is rejected
 before it is complete

---
 src/app/modbus/ModbusCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index ad35108..3a832ec 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -51,7 +51,7 @@ bool ModbusCodec::isAduHdrReceived() const
 
 bool ModbusCodec::isAduReceived() const
 {
-    return buf.size() >= aduPktLen();
+    return buf.size() >= aduPktLen() + aduHdrLen;
 }
 
 bool ModbusCodec::isAduDataLenValid() const
-- 
2.43.0


From 2861095d7d822a1e10870d2129ac681c42f5dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:22 +0000
Subject: [PATCH 14/78] fix: a Modbus reply with an invalid length loses the
 request without a response

---
 src/app/modbus/client/ModbusClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index b0f86a2..00d310d 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -117,6 +117,7 @@ Status ModbusClient::receive()
     if (not codec.isAduDataLenValid())
     {
         LM(MODBUS, LW, "Client-%u, ADU data len is invalid", uid);
+        provideRspError(aduStorage.front());
         return Status::done;
     }
 
-- 
2.43.0


From a556e36c24b40d84eb5fbc79d1945cd1efe48454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:22 +0000
Subject: [PATCH 15/78] fix: late or unsolicited data on a Modbus client
 connection answers a request that is sent afterwards

---
 src/app/modbus/client/ModbusClient.cpp        | 27 +++++++++++++++++++
 src/app/modbus/client/ModbusClient.hpp        |  2 ++
 .../modbus/client/ModbusClientConnected.cpp   |  3 +--
 src/app/modbus/client/ModbusClientSend.cpp    |  3 +--
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index 00d310d..33eec73 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -65,6 +65,12 @@ Status ModbusClient::send()
 
     LM(MODBUS, LD, "Client-%u, TX ADU %s", uid, buf.toString().c_str());
 
+    if (Status::error == discard())
+    {
+        LM(MODBUS, LI, "Client-%u, connection is lost", uid);
+        return Status::error;
+    }
+
     int rc = link->send(buf.begin(), buf.size());
     if (rc <= 0)
     {
@@ -186,6 +192,27 @@ Status ModbusClient::receive()
     return Status::done;
 }
 
+Status ModbusClient::discard()
+{
+    // nothing is expected now: late or unsolicited data must not be taken for the next reply
+    PduBuffer buf;
+    while (true)
+    {
+        auto const& result = link->receive(buf.begin(), buf.capacity());
+        switch (result.status)
+        {
+        case reactor::LinkResult::ok:
+            LM(MODBUS, LW, "Client-%u, received data is unexpected", uid);
+        break;
+        case reactor::LinkResult::na:
+            return Status::noerror;
+        case reactor::LinkResult::closed:
+        case reactor::LinkResult::error:
+            return Status::error;
+        }
+    }
+}
+
 void ModbusClient::receivePostaction()
 {
     if (aduStorage.empty())
diff --git a/src/app/modbus/client/ModbusClient.hpp b/src/app/modbus/client/ModbusClient.hpp
index b8782ac..b4bb010 100644
--- a/src/app/modbus/client/ModbusClient.hpp
+++ b/src/app/modbus/client/ModbusClient.hpp
@@ -57,6 +57,8 @@ public:
 
     Status receive();
 
+    Status discard();
+
     void receivePostaction();
 
     void provideRspTimeout();
diff --git a/src/app/modbus/client/ModbusClientConnected.cpp b/src/app/modbus/client/ModbusClientConnected.cpp
index 6315cd6..c505633 100644
--- a/src/app/modbus/client/ModbusClientConnected.cpp
+++ b/src/app/modbus/client/ModbusClientConnected.cpp
@@ -15,7 +15,7 @@ void ModbusClientConnected::onReceiveTransactionReq(ModbusClientFsm& fsm)
 
 void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().discard())
     {
     case Status::error:
     {
@@ -26,7 +26,6 @@ void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
     break;
     default:
     {
-        LM(MODBUS, LE, "Unexpected");
     }
     break;
     }
diff --git a/src/app/modbus/client/ModbusClientSend.cpp b/src/app/modbus/client/ModbusClientSend.cpp
index 28deaac..42f35b7 100644
--- a/src/app/modbus/client/ModbusClientSend.cpp
+++ b/src/app/modbus/client/ModbusClientSend.cpp
@@ -19,7 +19,7 @@ void ModbusClientSend::onReceiveTransactionReq(ModbusClientFsm&)
 
 void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().discard())
     {
     case Status::error:
     {
@@ -30,7 +30,6 @@ void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
     break;
     default:
     {
-        LM(MODBUS, LE, "Unexpected");
     }
     break;
     }
-- 
2.43.0


From 8f60d07b40e14c43ba896ffe08df6310a0ca895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:22 +0000
Subject: [PATCH 16/78] fix: a Modbus client does not reconnect after its
 connection is reset

---
 src/app/modbus/client/ModbusClientConnected.cpp | 7 +++++++
 src/app/modbus/client/ModbusClientConnected.hpp | 2 ++
 src/app/modbus/client/ModbusClientReceive.cpp   | 7 +++++++
 src/app/modbus/client/ModbusClientReceive.hpp   | 2 ++
 src/app/modbus/client/ModbusClientSend.cpp      | 7 +++++++
 src/app/modbus/client/ModbusClientSend.hpp      | 2 ++
 6 files changed, 27 insertions(+)

diff --git a/src/app/modbus/client/ModbusClientConnected.cpp b/src/app/modbus/client/ModbusClientConnected.cpp
index c505633..462c1cb 100644
--- a/src/app/modbus/client/ModbusClientConnected.cpp
+++ b/src/app/modbus/client/ModbusClientConnected.cpp
@@ -31,4 +31,11 @@ void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientConnected::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 } // namespace app::modbus
diff --git a/src/app/modbus/client/ModbusClientConnected.hpp b/src/app/modbus/client/ModbusClientConnected.hpp
index a5d1594..b8a9da3 100644
--- a/src/app/modbus/client/ModbusClientConnected.hpp
+++ b/src/app/modbus/client/ModbusClientConnected.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
 private:
 
 };
diff --git a/src/app/modbus/client/ModbusClientReceive.cpp b/src/app/modbus/client/ModbusClientReceive.cpp
index ce289d2..b3793dd 100644
--- a/src/app/modbus/client/ModbusClientReceive.cpp
+++ b/src/app/modbus/client/ModbusClientReceive.cpp
@@ -45,6 +45,13 @@ void ModbusClientReceive::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientReceive::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientReceive::onTimer(ModbusClientFsm& fsm)
 {
     LM(MODBUS, LI, "onTimer");
diff --git a/src/app/modbus/client/ModbusClientReceive.hpp b/src/app/modbus/client/ModbusClientReceive.hpp
index 5fbcb19..5f6a649 100644
--- a/src/app/modbus/client/ModbusClientReceive.hpp
+++ b/src/app/modbus/client/ModbusClientReceive.hpp
@@ -18,6 +18,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
     void onTimer(ModbusClientFsm&) final;
 
     void onExit(ModbusClientFsm&) final;
diff --git a/src/app/modbus/client/ModbusClientSend.cpp b/src/app/modbus/client/ModbusClientSend.cpp
index 42f35b7..13be8bd 100644
--- a/src/app/modbus/client/ModbusClientSend.cpp
+++ b/src/app/modbus/client/ModbusClientSend.cpp
@@ -35,6 +35,13 @@ void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientSend::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientSend::onTimer(ModbusClientFsm& fsm)
 {
     switch (fsm.getEntity().send())
diff --git a/src/app/modbus/client/ModbusClientSend.hpp b/src/app/modbus/client/ModbusClientSend.hpp
index 55ef2f9..51bada2 100644
--- a/src/app/modbus/client/ModbusClientSend.hpp
+++ b/src/app/modbus/client/ModbusClientSend.hpp
@@ -18,6 +18,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
     void onTimer(ModbusClientFsm&) final;
 
     void onExit(ModbusClientFsm&) final;
-- 
2.43.0


From ac57de669059916ddccddd5497f363942212fa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:22 +0000
Subject: [PATCH 17/78] fix: a connection attempt that fails at once prevents
 the Modbus configuration from being completed

---
 src/app/modbus/client/ModbusClient.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index 33eec73..ed979a6 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -28,7 +28,15 @@ ModbusClient::~ModbusClient()
 
 void ModbusClient::connect()
 {
-    link->connect(addr);
+    try
+    {
+        link->connect(addr);
+    }
+    catch (std::exception const& e)
+    {
+        // the connect timer leads to the next attempt
+        LM(MODBUS, LE, "Client-%u, connect failed: %s", uid, e.what());
+    }
 }
 
 void ModbusClient::close()
-- 
2.43.0


From 5a931319d89a670c0eba85f0960bd7e72469084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:49 +0000
Subject: [PATCH 18/78] fix: a close that arrives together with a Modbus reply
 is noticed only by the next request

---
 src/app/modbus/client/ModbusClient.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index ed979a6..124f032 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -56,6 +56,12 @@ void ModbusClient::stopTimer()
 
 Status ModbusClient::send()
 {
+    if (Status::error == discard())
+    {
+        LM(MODBUS, LI, "Client-%u, connection is lost", uid);
+        return Status::error;
+    }
+
     if (aduStorage.empty())
     {
         return Status::noerror;
@@ -73,12 +79,6 @@ Status ModbusClient::send()
 
     LM(MODBUS, LD, "Client-%u, TX ADU %s", uid, buf.toString().c_str());
 
-    if (Status::error == discard())
-    {
-        LM(MODBUS, LI, "Client-%u, connection is lost", uid);
-        return Status::error;
-    }
-
     int rc = link->send(buf.begin(), buf.size());
     if (rc <= 0)
     {
-- 
2.43.0


From 5926643ee7989efe32b38709df27fe55038fb1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:42 +0000
Subject: [PATCH 19/78] fix: a decoded Modbus request carries the item count or
 data of the request before it

---
 src/app/modbus/ModbusCodec.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 3a832ec..ec84c79 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -191,6 +191,7 @@ bool ModbusCodec::decode(AduRequest& adu)
         }
         adu.startItem = buf.readBe();
         adu.numItems = buf.readBe();
+        adu.numBytes = 0;
         if (pduLen(adu.func, adu.numItems) > maxPduLen)
         {
             LM(MODBUS, LE, "ADU decode, unexpected number of items(%u) in request", adu.numItems);
@@ -207,6 +208,7 @@ bool ModbusCodec::decode(AduRequest& adu)
             return false;
         }
         adu.startItem = buf.readBe();
+        adu.numItems = 0;
         adu.numBytes = 2;
         adu.data[1] = buf.read();
         adu.data[0] = buf.read();
-- 
2.43.0


From 20676fdb75349c2a843eca1486e782cceec332c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:42 +0000
Subject: [PATCH 20/78] fix: a late response to an earlier Modbus request ends
 the waiting for the response to the current one

---
 src/app/modbus/server/session/ModbusSession.cpp               | 2 +-
 .../modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index d34c798..5cfaee0 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -159,7 +159,7 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
     {
         LM(MODBUS, LE, "Session-%u, transactId is unexpected %u vs %u"
             , uid, storedAdu.transactId, rsp.transactId);
-        return Result::done;
+        return Result::noerror;
     }
 
     if (rsp.status != MsgStatus::success)
diff --git a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
index 1f87949..20aa9e7 100644
--- a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
+++ b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
@@ -43,6 +43,10 @@ void ModbusSessionWaitModbusAduRsp::onModbusAduRspReceive(ModbusSessionFsm& fsm,
         fsm.transit<ModbusSessionConnected>();
     }
     break;
+    case Result::noerror:
+    {
+    }
+    break;
     default:
     {
         LM(MODBUS, LE, "Unexpected");
-- 
2.43.0


From 47a2399da17e664f75b516c72d48835d31457225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:42 +0000
Subject: [PATCH 21/78] fix: a Modbus response with an invalid session id is
 taken to a session outside of the pool

---
 src/app/modbus/server/ModbusServer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app/modbus/server/ModbusServer.cpp b/src/app/modbus/server/ModbusServer.cpp
index a2f4e22..32eace8 100644
--- a/src/app/modbus/server/ModbusServer.cpp
+++ b/src/app/modbus/server/ModbusServer.cpp
@@ -39,6 +39,12 @@ void ModbusServer::receive(MsgModbusAduRsp const& rsp)
 {
     LM(MODBUS, LD, "Server-%u, ModbusAduRsp received", id);
 
+    if (rsp.sessionId >= maxNumSession)
+    {
+        LM(MODBUS, LE, "Server-%u, invalid sessionId, %u", id, rsp.sessionId);
+        return;
+    }
+
     sessionPool.get(rsp.sessionId).receive(rsp);
 }
 
-- 
2.43.0


From 736570134c2ad9689403ba79319bb95d2e48cfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:42 +0000
Subject: [PATCH 22/78] fix: a Modbus response with too much data overflows the
 buffers of the session

---
 src/app/modbus/server/session/ModbusSession.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index 5cfaee0..f7591d1 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -168,6 +168,12 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
         return Result::done;
     }
 
+    if (rsp.numBytes > pduMaxDataLen)
+    {
+        LM(MODBUS, LE, "Session-%u, modbusAduRsp is too long %u", uid, rsp.numBytes);
+        return Result::done;
+    }
+
     AduRespond aduRsp;
     aduRsp.transactId = rsp.transactId;
     aduRsp.func = (rsp.error != ModbusError::noerror) ? ModbusFunction::modbusError : storedAdu.func;
-- 
2.43.0


From 380b673453ff9f726a2c3dc32ee4cf363856b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:42 +0000
Subject: [PATCH 23/78] fix: a Modbus session is kept after its connection is
 broken

---
 src/app/modbus/server/session/ModbusSession.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index f7591d1..d99a3e5 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -52,8 +52,11 @@ void ModbusSession::onLinkEvent(reactor::LinkEvent ev)
     case reactor::LinkEvent::data:
         fsm.getState().onDataReceived(fsm);
     break;
-    case reactor::LinkEvent::connected:
     case reactor::LinkEvent::error:
+        // the link is closed, which is found by the receiving
+        fsm.getState().onDataReceived(fsm);
+    break;
+    case reactor::LinkEvent::connected:
         LM(MODBUS, LE, "Session-%u, unexpected", uid);
     break;
     }
-- 
2.43.0


From 87a1f019aa92c355a5dd3dd2b28ebf7016f23bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:02 +0000
Subject: [PATCH 24/78] fix: a Modbus session is deaf for the response timeout
 after an invalid request

---
 src/app/modbus/server/session/ModbusSession.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index d99a3e5..cb3ce0e 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -89,7 +89,8 @@ Result ModbusSession::receive()
     if (pduBuf.size() > maxAduLen)
     {
         LM(MODBUS, LW, "Client-%u, received ADU is invalid", uid);
-        return Result::done;
+        pduBuf.reset();
+        return Result::noerror;
     }
 
     auto const& result = link->receive(pduBuf.end(), pduBuf.capacity());
@@ -127,7 +128,8 @@ Result ModbusSession::receive()
     {
         LM(MODBUS, LW, "Session-%u, PDU is invalid", uid);
         // TODO provide error to client
-        return Result::done;
+        pduBuf.reset();
+        return Result::noerror;
     }
 
     LM(MODBUS, LD, "Session-%u, RX PDU %s", uid, pduBuf.toString().c_str());
@@ -136,7 +138,8 @@ Result ModbusSession::receive()
     {
         LM(MODBUS, LW, "Session-%u, ADU decode error", uid);
         // TODO provide error to client
-        return Result::done;
+        pduBuf.reset();
+        return Result::noerror;
     }
 
     reactor::MsgStore<MsgModbusAduReq> msgStore;
-- 
2.43.0


From 7085e6c222b1b2166a7a1b1832640835e99f9bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:02 +0000
Subject: [PATCH 25/78] fix: a Modbus client that closes its connection while
 its request is processed is not noticed

---
 .../modbus/server/session/ModbusSession.cpp   | 20 +++++++++++++++++++
 .../modbus/server/session/ModbusSession.hpp   |  2 ++
 .../server/session/ModbusSessionConnected.cpp |  2 ++
 .../session/ModbusSessionWaitModbusAduRsp.cpp |  6 +++++-
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index cb3ce0e..243bc9c 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -159,6 +159,26 @@ Result ModbusSession::receive()
     return Result::done;
 }
 
+Result ModbusSession::discard()
+{
+    PduBuffer buf;
+    while (true)
+    {
+        auto const& result = link->receive(buf.begin(), buf.capacity());
+        switch (result.status)
+        {
+        case reactor::LinkResult::ok:
+            LM(MODBUS, LW, "Session-%u, received data is unexpected", uid);
+        break;
+        case reactor::LinkResult::na:
+            return Result::noerror;
+        case reactor::LinkResult::closed:
+        case reactor::LinkResult::error:
+            return Result::error;
+        }
+    }
+}
+
 Result ModbusSession::send(MsgModbusAduRsp const& rsp)
 {
     if (rsp.transactId != storedAdu.transactId)
diff --git a/src/app/modbus/server/session/ModbusSession.hpp b/src/app/modbus/server/session/ModbusSession.hpp
index b9bd1f8..04a7b90 100644
--- a/src/app/modbus/server/session/ModbusSession.hpp
+++ b/src/app/modbus/server/session/ModbusSession.hpp
@@ -54,6 +54,8 @@ public:
 
     Result receive();
 
+    Result discard();
+
     Result send(MsgModbusAduRsp const&);
 
     void releaseSession();
diff --git a/src/app/modbus/server/session/ModbusSessionConnected.cpp b/src/app/modbus/server/session/ModbusSessionConnected.cpp
index f80e526..df9eca0 100644
--- a/src/app/modbus/server/session/ModbusSessionConnected.cpp
+++ b/src/app/modbus/server/session/ModbusSessionConnected.cpp
@@ -26,6 +26,8 @@ void ModbusSessionConnected::onDataReceived(ModbusSessionFsm& fsm)
     case Result::done:
     {
         fsm.transit<ModbusSessionWaitModbusAduRsp>();
+        // the client may already have closed the connection
+        fsm.getState().onDataReceived(fsm);
     }
     break;
     case Result::noerror:
diff --git a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
index 20aa9e7..c0081aa 100644
--- a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
+++ b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
@@ -14,13 +14,17 @@ void ModbusSessionWaitModbusAduRsp::onEnter(ModbusSessionFsm& fsm)
 
 void ModbusSessionWaitModbusAduRsp::onDataReceived(ModbusSessionFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().discard())
     {
     case Result::error:
     {
         fsm.transit<ModbusSessionInit>();
     }
     break;
+    case Result::noerror:
+    {
+    }
+    break;
     default:
     {
         LM(MODBUS, LE, "Unexpected");
-- 
2.43.0


From 1ba31accc5358a499894ade0921f2cd6fd1555b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:29 +0000
Subject: [PATCH 26/78] fix: input of a Modbus session beyond its buffer, or a
 close behind it, is left unread

---
 src/app/modbus/server/session/ModbusSession.cpp        | 10 +++++-----
 src/app/modbus/server/session/ModbusSession.hpp        |  1 +
 .../modbus/server/session/ModbusSessionConnected.cpp   | 10 +++++++++-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index 243bc9c..a75cde3 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -90,7 +90,7 @@ Result ModbusSession::receive()
     {
         LM(MODBUS, LW, "Client-%u, received ADU is invalid", uid);
         pduBuf.reset();
-        return Result::noerror;
+        return Result::more;
     }
 
     auto const& result = link->receive(pduBuf.end(), pduBuf.capacity());
@@ -111,7 +111,7 @@ Result ModbusSession::receive()
 
     if (not codec.isAduHdrReceived())
     {
-        return Result::noerror;
+        return Result::more;
     }
 
     if (not codec.isAduDataLenValid())
@@ -121,7 +121,7 @@ Result ModbusSession::receive()
 
     if (not codec.isAduReceived())
     {
-        return Result::noerror;
+        return Result::more;
     }
 
     if (not codec.isAduValid())
@@ -129,7 +129,7 @@ Result ModbusSession::receive()
         LM(MODBUS, LW, "Session-%u, PDU is invalid", uid);
         // TODO provide error to client
         pduBuf.reset();
-        return Result::noerror;
+        return Result::more;
     }
 
     LM(MODBUS, LD, "Session-%u, RX PDU %s", uid, pduBuf.toString().c_str());
@@ -139,7 +139,7 @@ Result ModbusSession::receive()
         LM(MODBUS, LW, "Session-%u, ADU decode error", uid);
         // TODO provide error to client
         pduBuf.reset();
-        return Result::noerror;
+        return Result::more;
     }
 
     reactor::MsgStore<MsgModbusAduReq> msgStore;
diff --git a/src/app/modbus/server/session/ModbusSession.hpp b/src/app/modbus/server/session/ModbusSession.hpp
index 04a7b90..9aac889 100644
--- a/src/app/modbus/server/session/ModbusSession.hpp
+++ b/src/app/modbus/server/session/ModbusSession.hpp
@@ -19,6 +19,7 @@ namespace app::modbus
 enum class Result
 {
       noerror
+    , more
     , done
     , error
     , codecError
diff --git a/src/app/modbus/server/session/ModbusSessionConnected.cpp b/src/app/modbus/server/session/ModbusSessionConnected.cpp
index df9eca0..ad9ccb7 100644
--- a/src/app/modbus/server/session/ModbusSessionConnected.cpp
+++ b/src/app/modbus/server/session/ModbusSessionConnected.cpp
@@ -16,7 +16,15 @@ void ModbusSessionConnected::onEnter(ModbusSessionFsm& fsm)
 
 void ModbusSessionConnected::onDataReceived(ModbusSessionFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    // the link is edge triggered: everything that has arrived is to be read
+    Result result;
+    do
+    {
+        result = fsm.getEntity().receive();
+    }
+    while (result == Result::more);
+
+    switch (result)
     {
     case Result::error:
     {
-- 
2.43.0


From 86c53b6226a43476dac357e857fbea120ae2dddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:29 +0000
Subject: [PATCH 27/78] fix: a connection that can not be accepted loses a
 Modbus session for good

---
 src/app/modbus/server/ModbusServer.cpp            | 15 ++++++++++++---
 src/app/modbus/server/session/ModbusSession.cpp   |  6 ++++++
 src/app/modbus/server/session/ModbusSession.hpp   |  2 ++
 .../modbus/server/session/ModbusSessionFsm.cpp    |  5 +++++
 .../modbus/server/session/ModbusSessionFsm.hpp    |  2 ++
 5 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/app/modbus/server/ModbusServer.cpp b/src/app/modbus/server/ModbusServer.cpp
index 32eace8..2960b79 100644
--- a/src/app/modbus/server/ModbusServer.cpp
+++ b/src/app/modbus/server/ModbusServer.cpp
@@ -58,9 +58,18 @@ void ModbusServer::onAcceptEvent()
     }
 
     ModbusSession& session = sessionPool.get(uid);
-    session.prepare(id);
-    acceptor->accept(session.getLink());
-    session.start();
+    try
+    {
+        session.prepare(id);
+        acceptor->accept(session.getLink());
+        session.start();
+    }
+    catch (...)
+    {
+        LM(MODBUS, LE, "Server-%u, can not start session-%u", id, uid);
+        session.abort();
+        throw;
+    }
 }
 
 void ModbusServer::onReleaseSession(ModbusSession::Uid sessionUid)
diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index a75cde3..f2cce51 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -40,6 +40,12 @@ void ModbusSession::start()
     fsm.getState().onStart(fsm);
 }
 
+void ModbusSession::abort()
+{
+    fsm.reset();
+    releaseSession();
+}
+
 void ModbusSession::receive(MsgModbusAduRsp const& rsp)
 {
     fsm.getState().onModbusAduRspReceive(fsm, rsp);
diff --git a/src/app/modbus/server/session/ModbusSession.hpp b/src/app/modbus/server/session/ModbusSession.hpp
index 9aac889..dcd5b31 100644
--- a/src/app/modbus/server/session/ModbusSession.hpp
+++ b/src/app/modbus/server/session/ModbusSession.hpp
@@ -43,6 +43,8 @@ public:
 
     void start();
 
+    void abort();
+
     void receive(MsgModbusAduRsp const&);
 
 
diff --git a/src/app/modbus/server/session/ModbusSessionFsm.cpp b/src/app/modbus/server/session/ModbusSessionFsm.cpp
index 90200b5..6a09f08 100644
--- a/src/app/modbus/server/session/ModbusSessionFsm.cpp
+++ b/src/app/modbus/server/session/ModbusSessionFsm.cpp
@@ -20,6 +20,11 @@ ModbusSessionState& ModbusSessionFsm::getState()
     return *state;
 }
 
+void ModbusSessionFsm::reset()
+{
+    state = &getSingleton<ModbusSessionInit>();
+}
+
 ModbusSession& ModbusSessionFsm::getEntity()
 {
     return entity;
diff --git a/src/app/modbus/server/session/ModbusSessionFsm.hpp b/src/app/modbus/server/session/ModbusSessionFsm.hpp
index 72b0602..23145e1 100644
--- a/src/app/modbus/server/session/ModbusSessionFsm.hpp
+++ b/src/app/modbus/server/session/ModbusSessionFsm.hpp
@@ -21,6 +21,8 @@ public:
 
     ModbusSession& getEntity();
 
+    void reset();
+
 private:
     ModbusSessionState* state;
     ModbusSession& entity;
-- 
2.43.0


From c46f99ed09c2b57356c75b01d327f5f53cb197b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:17 +0000
Subject: [PATCH 28/78] fix: a coil is switched on with the value 0x00FF
 instead of 0xFF00, which is refused

---
 src/app/modbus/ModbusCodec.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index ec84c79..ef4be30 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -107,10 +107,10 @@ bool ModbusCodec::encode(AduRequest const& adu)
         }
         if (adu.func == ModbusFunction::forceSingleCoil)
         {
-            if ((adu.data[1] != 0x0) || (adu.data[0] != 0x0 && adu.data[0] != 0xFF))
+            if ((adu.data[0] != 0x0) || (adu.data[1] != 0x0 && adu.data[1] != 0xFF))
             {
-                unsigned hh = adu.data[0];
-                unsigned ll = adu.data[1];
+                unsigned hh = adu.data[1];
+                unsigned ll = adu.data[0];
                 LM(MODBUS, LW, "ADU encode, expected value is 0xFF00 | 0x0000, but given %u", (hh << 8) | ll);
                 return false;
             }
@@ -291,10 +291,10 @@ bool ModbusCodec::encode(AduRespond const& adu)
         }
         if (adu.func == ModbusFunction::forceSingleCoil)
         {
-            if ((adu.data[1] != 0x0) || (adu.data[0] != 0x0 && adu.data[0] != 0xFF))
+            if ((adu.data[0] != 0x0) || (adu.data[1] != 0x0 && adu.data[1] != 0xFF))
             {
-                unsigned hh = adu.data[0];
-                unsigned ll = adu.data[1];
+                unsigned hh = adu.data[1];
+                unsigned ll = adu.data[0];
                 LM(MODBUS, LW, "ADU encode, expected value is 0xFF00 | 0x0000, but given %u", (hh << 8) | ll);
                 return false;
             }
-- 
2.43.0


From d4fd228398ff88f25c15f20f0ac744e7e8f2b381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:47 +0000
Subject: [PATCH 29/78] fix: an exception reply without or with a longer
 content than its code is taken for valid

---
 src/app/modbus/ModbusCodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index ef4be30..4b96084 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -351,6 +351,11 @@ bool ModbusCodec::decode(AduRespond& adu)
     {
     case ModbusFunction::modbusError:
     {
+        if (pktLen != 3)
+        {
+            LM(MODBUS, LW, "ADU decode, unexpected length of packet %u", pktLen);
+            return false;
+        }
         adu.error = fromUint8<ModbusError>(buf.read());
     }
     break;
-- 
2.43.0


From 31da37d535fc980d99d373bca32adeb4dbd66ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:44 +0000
Subject: [PATCH 30/78] fix: encoding a Modbus frame with too much data writes
 behind the buffer

---
 src/app/modbus/ModbusCodec.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 4b96084..6b86685 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -127,7 +127,7 @@ bool ModbusCodec::encode(AduRequest const& adu)
     break;
     case ModbusFunction::presetMultipleRegisters:
     {
-        if (adu.numBytes != adu.numItems * 2)
+        if (adu.numBytes != adu.numItems * 2 || adu.numBytes > pduMaxDataLen)
         {
             LM(MODBUS, LE, "ADU encode, unexpected number of bytes");
             return false;
@@ -263,17 +263,17 @@ bool ModbusCodec::encode(AduRespond const& adu)
     case ModbusFunction::readHoldingRegisters:
     case ModbusFunction::readInputRegisters:
     {
+        if (adu.numBytes % 2 || adu.numBytes > pduMaxDataLen)
+        {
+            LM(MODBUS, LW, "ADU encode, unexpected number of bytes: %u", adu.numBytes);
+            return false;
+        }
         buf.writeBe(adu.transactId);
         buf.writeBe(modbusProtocolId);
         buf.writeBe(1 + 1 + 1 + adu.numBytes);
         buf.write(adu.addr);
         buf.write(toUint8(adu.func));
         buf.write(adu.numBytes);
-        if (adu.numBytes % 2)
-        {
-            LM(MODBUS, LW, "ADU encode, unexpected number of bytes: %u", adu.numBytes);
-            return false;
-        }
         for (unsigned i = 0; i < adu.numBytes; i += 2)
         {
             buf.write(adu.data[i + 1]);
-- 
2.43.0


From 8e6e7c2d89ff617e07f8804f9014f349621b112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:41 +0000
Subject: [PATCH 31/78] fix: decoding or encoding OPC UA data behind the end of
 the buffer is not refused

---
 src/app/common/ua/common/OpcUaSduBuffer.cpp | 24 ++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaSduBuffer.cpp b/src/app/common/ua/common/OpcUaSduBuffer.cpp
index d22456f..f2dd0d0 100644
--- a/src/app/common/ua/common/OpcUaSduBuffer.cpp
+++ b/src/app/common/ua/common/OpcUaSduBuffer.cpp
@@ -1,6 +1,8 @@
 #include "OpcUaSduBuffer.hpp"
 #include "Logger.hpp"
 
+#include <stdexcept>
+
 namespace app::ua
 {
 
@@ -17,11 +19,19 @@ OpcUaSduBuffer::~OpcUaSduBuffer()
 void OpcUaSduBuffer::write(std::uint8_t val)
 {
     //LM(GEN, LE, "end: %u, wr: %d", head, (int)val);
+    if (head >= maxPacketLen)
+    {
+        throw std::runtime_error("sdu buffer overflow");
+    }
     packet[head++] = val;
 }
 
 std::uint8_t OpcUaSduBuffer::read()
 {
+    if (tail >= head)
+    {
+        throw std::runtime_error("sdu buffer underflow");
+    }
     auto const& rd = packet[tail];
     //LM(GEN, LE, "tail: %u, rd: %d", tail, (int)rd);
     tail++;
@@ -30,27 +40,27 @@ std::uint8_t OpcUaSduBuffer::read()
 
 std::uint8_t const* OpcUaSduBuffer::begin() const
 {
-    return &packet[tail];
+    return packet.data() + tail;
 }
 
 std::uint8_t* OpcUaSduBuffer::begin()
 {
-    return &packet[tail];
+    return packet.data() + tail;
 }
 
 std::uint8_t* OpcUaSduBuffer::end()
 {
-    return &packet[head];
+    return packet.data() + head;
 }
 
 std::uint8_t const* OpcUaSduBuffer::end() const
 {
-    return &packet[head];
+    return packet.data() + head;
 }
 
 std::uint32_t OpcUaSduBuffer::size() const
 {
-    return head;
+    return head - tail;
 }
 
 std::uint32_t OpcUaSduBuffer::capacity() const
@@ -60,6 +70,10 @@ std::uint32_t OpcUaSduBuffer::capacity() const
 
 void OpcUaSduBuffer::seek(std::uint32_t val)
 {
+    if (val > capacity())
+    {
+        throw std::runtime_error("sdu buffer overflow");
+    }
     head += val;
 }
 
-- 
2.43.0


From 1cb96deadb7c648dae404e497f76c922cb6605a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:14 +0000
Subject: [PATCH 32/78] fix: null, negative and too large lengths of OPC UA
 strings and arrays are not handled

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 35 +++++++++++--------
 src/app/common/ua/common/OpcUaBinaryCodec.hpp |  8 +++--
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 3b0efa0..dced503 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -2,6 +2,7 @@
 #include "Logger.hpp"
 
 #include <cstring>
+#include <stdexcept>
 
 namespace app::ua
 {
@@ -35,6 +36,21 @@ OpcUaSduBuffer const& OpcUaBinaryCodec::buf() const
     return buffer;
 }
 
+std::uint32_t OpcUaBinaryCodec::readLength()
+{
+    Int32 len;
+    *this >> len;
+    if (len == -1)
+    {
+        return 0;
+    }
+    if (len < 0 || static_cast<std::uint32_t>(len) > buffer.size())
+    {
+        throw std::runtime_error("invalid length");
+    }
+    return len;
+}
+
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Boolean& val)
 {
     val = s.read() ? true : false;
@@ -253,14 +269,9 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, Double const& val)
 
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, String& val)
 {
-    Int32 len;
-    s >> len;
-    if (len == -1)
-    {
-        return s;
-    }
+    std::uint32_t const len = s.readLength();
     val.resize(len);
-    for (std::int32_t i = 0; i < len; ++i)
+    for (std::uint32_t i = 0; i < len; ++i)
     {
         val[i] = s.read();
     }
@@ -320,15 +331,9 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, Guid const& val)
 
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ByteString& val)
 {
-    Int32 len;
-    s >> len;
-    if (len == -1)
-    {
-        val.clear();
-        return s;
-    }
+    std::uint32_t const len = s.readLength();
     val.resize(len);
-    for (std::int32_t i = 0; i < len; ++i)
+    for (std::uint32_t i = 0; i < len; ++i)
     {
         val[i] = s.read();
     }
diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.hpp b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
index 5a0b704..f6e4d27 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.hpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
@@ -69,6 +69,9 @@ public:
 
     std::uint8_t read();
 
+    // Length of a string or an array, 0 for a null one, can not exceed the rest of the buffer
+    std::uint32_t readLength();
+
     OpcUaSduBuffer& buf();
 
     OpcUaSduBuffer const& buf() const;
@@ -239,9 +242,8 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, StaticArray<T, SIZE> const& ar
 template <typename T>
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DynamicArray<T>& arr)
 {
-    Int32 arrayLength;
-    s >> arrayLength;
-    arr.resize(arrayLength);
+    arr.clear();
+    arr.resize(s.readLength());
     for (auto& it : arr)
     {
         s >> it;
-- 
2.43.0


From 26a506f33ccb8e80b85169c7c1e442e736bf52d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:14 +0000
Subject: [PATCH 33/78] fix: unsupported OPC UA encodings terminate the
 application or are taken for valid

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index dced503..8dc98f8 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -403,7 +403,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, NodeId& nodeId)
     }
     break;
     default:
-        throw;
+        throw std::runtime_error("unexpected node id encoding");
     }
     return s;
 }
@@ -449,7 +449,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, NodeId const& nodeId)
     }
     else
     {
-        throw;
+        throw std::runtime_error("unexpected node id");
     }
     return s;
 }
@@ -582,14 +582,14 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, LocalizedText const& lt)
     return s;
 }
 
-OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, XmlElement&)
+OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec&, XmlElement&)
 {
-    return s;
+    throw std::runtime_error("xml element is not supported");
 }
 
-OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, XmlElement const&)
+OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec&, XmlElement const&)
 {
-    return s;
+    throw std::runtime_error("xml element is not supported");
 }
 
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ExpandedNodeId& data)
@@ -639,8 +639,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ExtensionObject& data)
         s >> data.byteString;
     break;
     default:
-        LM(GEN, LE, "Unexpected, %u", (int)encodingMask);
-        break;
+        throw std::runtime_error("unexpected extension object encoding");
     }
     return s;
 }
@@ -777,7 +776,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         }
         break;
         default:
-            throw;
+            throw std::runtime_error("unexpected variant type");
         }
         return s;
     }
@@ -895,11 +894,8 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
             s >> variant.emplace<ExtensionObject>();
         }
         break;
-        case DataTypeId::DataValue:
-        case DataTypeId::Variant:
-        case DataTypeId::DiagnosticInfo:
-            LM(GEN, LE, "Unexpected");
-        break;
+        default:
+            throw std::runtime_error("unexpected variant type");
         };
     }
     return s;
-- 
2.43.0


From 908659378ae94869b5b1b0983d87746cf79a22b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:14 +0000
Subject: [PATCH 34/78] fix: absent optional parts of a decoded OPC UA value
 keep what the target held before

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 8dc98f8..ea9eb29 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -370,6 +370,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, NodeId& nodeId)
 
         Byte identifier;
         s >> identifier;
+        nodeId.namespaceIndex = 0;
         emplace<UInt32>(nodeId.value) = identifier;
     }
     break;
@@ -471,6 +472,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, StatusCode const& statusCode)
 
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DiagnosticInfo& diagInfo)
 {
+    diagInfo = {};
     Byte encodingMask;
     s >> encodingMask;
     if (encodingMask & 0x1)
@@ -553,6 +555,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, QualifiedName const& qn)
 
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, LocalizedText& lt)
 {
+    lt = {};
     Byte encodingMask;
     s >> encodingMask;
     if (encodingMask & 0x1)
@@ -594,6 +597,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec&, XmlElement const&)
 
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ExpandedNodeId& data)
 {
+    data = {};
     uint8_t const& encodingMask = *s.buf().begin();
     s >> data.nodeId;
     if (encodingMask & 0x80)
@@ -626,6 +630,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, ExpandedNodeId const& data)
 
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ExtensionObject& data)
 {
+    data = {};
     Byte encodingMask;
     s >> data.nodeId >> encodingMask;
     switch (encodingMask)
@@ -667,6 +672,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, ExtensionObject const& data)
 
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DataValue& data)
 {
+    data = {};
     Byte encodingMask;
     s >> encodingMask;
     if (encodingMask & 0x1)
@@ -729,6 +735,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, DataValue const& data)
 
 OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
 {
+    variant = {};
     Byte encodingMask;
     s >> encodingMask;
     if (0 == encodingMask)
-- 
2.43.0


From 772b3367d0205a3e2ccd8c620830c347682a0c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:14 +0000
Subject: [PATCH 35/78] fix: an expanded node id behind other data in a message
 is encoded with wrong flags

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index ea9eb29..70674b3 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -613,7 +613,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ExpandedNodeId& data)
 
 OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, ExpandedNodeId const& data)
 {
-    uint8_t& encodingMask = *s.buf().begin();
+    uint8_t& encodingMask = *s.buf().end();
     s << data.nodeId;
     if (data.encodingMask() & 0x1)
     {
-- 
2.43.0


From 9c3dbf70133f159e0c883cc431a371b0b4d701ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:37 +0000
Subject: [PATCH 36/78] fix: the encoding mask of a data value exchanges the
 server timestamp and the source picoseconds

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 8 ++++----
 src/app/common/ua/common/types/DataValue.hpp  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 70674b3..66f91ed 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -687,11 +687,11 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DataValue& data)
     {
         s >> data.sourceTimestampt;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x10)
     {
         s >> data.sourcePicoSeconds;
     }
-    if (encodingMask & 0x10)
+    if (encodingMask & 0x8)
     {
         s >> data.serverTimeStampt;
     }
@@ -718,11 +718,11 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, DataValue const& data)
     {
         s << data.sourceTimestampt;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x10)
     {
         s << data.sourcePicoSeconds;
     }
-    if (encodingMask & 0x10)
+    if (encodingMask & 0x8)
     {
         s << data.serverTimeStampt;
     }
diff --git a/src/app/common/ua/common/types/DataValue.hpp b/src/app/common/ua/common/types/DataValue.hpp
index 3e42eb2..66e73cb 100644
--- a/src/app/common/ua/common/types/DataValue.hpp
+++ b/src/app/common/ua/common/types/DataValue.hpp
@@ -31,8 +31,8 @@ struct DataValue : public StructType<DataTypeId::DataValue>
               value.value
             , status
             , sourceTimestampt
-            , sourcePicoSeconds
             , serverTimeStampt
+            , sourcePicoSeconds
             , serverPicoSeconds
         );
     }
-- 
2.43.0


From 66518d844e4f16b0b6ce94fc82ea3af2484c4d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:37 +0000
Subject: [PATCH 37/78] fix: the encoding mask of a diagnostic info exchanges
 the locale and the localized text

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp     | 8 ++++----
 src/app/common/ua/common/types/DiagnosticInfo.hpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 66f91ed..4f92599 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -483,11 +483,11 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DiagnosticInfo& diagInfo)
     {
         s >> diagInfo.namespaceUri;
     }
-    if (encodingMask & 0x4)
+    if (encodingMask & 0x8)
     {
         s >> diagInfo.locale;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x4)
     {
         s >> diagInfo.localizedText;
     }
@@ -518,11 +518,11 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, DiagnosticInfo const& diagInfo
     {
         s << diagInfo.namespaceUri;
     }
-    if (encodingMask & 0x4)
+    if (encodingMask & 0x8)
     {
         s << diagInfo.locale;
     }
-    if (encodingMask & 0x8)
+    if (encodingMask & 0x4)
     {
         s << diagInfo.localizedText;
     }
diff --git a/src/app/common/ua/common/types/DiagnosticInfo.hpp b/src/app/common/ua/common/types/DiagnosticInfo.hpp
index bc81eb1..7e7b8ff 100644
--- a/src/app/common/ua/common/types/DiagnosticInfo.hpp
+++ b/src/app/common/ua/common/types/DiagnosticInfo.hpp
@@ -45,8 +45,8 @@ struct DiagnosticInfo : public StructType<DataTypeId::DiagnosticInfo>
         (
               symbolicId
             , namespaceUri
-            , locale
             , localizedText
+            , locale
             , additionalInfo
             , innerStatusCode
             , innerDiagnosticInfo
-- 
2.43.0


From c00263efeebbaa7d7b6c0723eaa72f6acf1b30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:01 +0000
Subject: [PATCH 38/78] fix: a deeply nested OPC UA diagnostic info exhausts
 the stack

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 4f92599..6e9b224 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -470,8 +470,17 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, StatusCode const& statusCode)
     return s;
 }
 
-OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DiagnosticInfo& diagInfo)
+namespace
+{
+
+constexpr unsigned maxNestingLevel = 100;
+
+void decode(OpcUaBinaryCodec& s, DiagnosticInfo& diagInfo, unsigned nestingLevel)
 {
+    if (nestingLevel > maxNestingLevel)
+    {
+        throw std::runtime_error("diagnostic info is nested too deep");
+    }
     diagInfo = {};
     Byte encodingMask;
     s >> encodingMask;
@@ -501,8 +510,16 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DiagnosticInfo& diagInfo)
     }
     if (encodingMask & 0x40)
     {
-        s >> diagInfo.innerDiagnosticInfo;
+        diagInfo.innerDiagnosticInfo = std::make_unique<DiagnosticInfo>();
+        decode(s, *diagInfo.innerDiagnosticInfo, nestingLevel + 1);
     }
+}
+
+} // namespace
+
+OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DiagnosticInfo& diagInfo)
+{
+    decode(s, diagInfo, 0);
     return s;
 }
 
-- 
2.43.0


From 78843ac364a31b047698311055398aa363293a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:01 +0000
Subject: [PATCH 39/78] fix: variants with arrays of most types can be encoded
 but not decoded

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 70 +++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 6e9b224..23cdfee 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -799,6 +799,76 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
             s >> variant.emplace<DynamicArray<UInt32>>();
         }
         break;
+        case DataTypeId::Int64:
+        {
+            s >> variant.emplace<DynamicArray<Int64>>();
+        }
+        break;
+        case DataTypeId::UInt64:
+        {
+            s >> variant.emplace<DynamicArray<UInt64>>();
+        }
+        break;
+        case DataTypeId::Float:
+        {
+            s >> variant.emplace<DynamicArray<Float>>();
+        }
+        break;
+        case DataTypeId::Double:
+        {
+            s >> variant.emplace<DynamicArray<Double>>();
+        }
+        break;
+        case DataTypeId::String:
+        {
+            s >> variant.emplace<DynamicArray<String>>();
+        }
+        break;
+        case DataTypeId::DateTime:
+        {
+            s >> variant.emplace<DynamicArray<DateTime>>();
+        }
+        break;
+        case DataTypeId::Guid:
+        {
+            s >> variant.emplace<DynamicArray<Guid>>();
+        }
+        break;
+        case DataTypeId::ByteString:
+        {
+            s >> variant.emplace<DynamicArray<ByteString>>();
+        }
+        break;
+        case DataTypeId::NodeId:
+        {
+            s >> variant.emplace<DynamicArray<NodeId>>();
+        }
+        break;
+        case DataTypeId::ExpandedNodeId:
+        {
+            s >> variant.emplace<DynamicArray<ExpandedNodeId>>();
+        }
+        break;
+        case DataTypeId::StatusCode:
+        {
+            s >> variant.emplace<DynamicArray<StatusCode>>();
+        }
+        break;
+        case DataTypeId::QualifiedName:
+        {
+            s >> variant.emplace<DynamicArray<QualifiedName>>();
+        }
+        break;
+        case DataTypeId::LocalizedText:
+        {
+            s >> variant.emplace<DynamicArray<LocalizedText>>();
+        }
+        break;
+        case DataTypeId::ExtensionObject:
+        {
+            s >> variant.emplace<DynamicArray<ExtensionObject>>();
+        }
+        break;
         default:
             throw std::runtime_error("unexpected variant type");
         }
-- 
2.43.0


From 9521af3b95d103cb2f784cf45d94c0e88ad10ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:36 +0000
Subject: [PATCH 40/78] fix: the array dimensions of a variant are neither
 encoded nor decoded

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 12 ++++++++++++
 src/app/common/ua/common/types/Variant.hpp    |  5 +++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 23cdfee..866c49a 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -872,8 +872,16 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         default:
             throw std::runtime_error("unexpected variant type");
         }
+        if (encodingMask & 0x40)
+        {
+            s >> variant.arrayDimensions;
+        }
         return s;
     }
+    else if (encodingMask & 0x40)
+    {
+        throw std::runtime_error("unexpected array dimensions");
+    }
     else
     {
         switch (typeId)
@@ -1007,6 +1015,10 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, Variant const& variant)
     {
         s << arg;
     }, *variant.value);
+    if (encodingMask & 0x40)
+    {
+        s << variant.arrayDimensions;
+    }
     return s;
 }
 
diff --git a/src/app/common/ua/common/types/Variant.hpp b/src/app/common/ua/common/types/Variant.hpp
index 9db8968..e7964e0 100644
--- a/src/app/common/ua/common/types/Variant.hpp
+++ b/src/app/common/ua/common/types/Variant.hpp
@@ -92,14 +92,15 @@ struct Variant : public StructType<DataTypeId::Variant>
         {
             cmpValue = not (this->value || rhs.value);
         }
-        bool cmpArrayDimensions = *this->arrayDimensions == *rhs.arrayDimensions;
+        bool cmpArrayDimensions = this->arrayDimensions == rhs.arrayDimensions;
         return cmpValue && cmpArrayDimensions;
     }
     std::uint8_t encodingMask() const
     {
         // see type Value
         auto toDataTypeId = [](auto val) { return val < 22 ? val + 1 : ((val - 21) | 0x80); };
-        return value ? toDataTypeId(value->index()) : 0;
+        auto dimensionsMask = [this](auto mask) { return (mask & 0x80) && arrayDimensions ? mask | 0x40 : mask; };
+        return value ? dimensionsMask(toDataTypeId(value->index())) : 0;
     }
     template <typename T, typename...ARGS>
     T& emplace(ARGS...args)
-- 
2.43.0


From 08ce6a0f9decf4143203bb0a609dc6335c8d57d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:38 +0000
Subject: [PATCH 41/78] fix: an OPC UA id outside of the pool, like an
 arbitrary session token, accesses memory outside of it

---
 src/app/common/ua/common/UaEntityPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/UaEntityPool.hpp b/src/app/common/ua/common/UaEntityPool.hpp
index 3442a3f..557f3d1 100644
--- a/src/app/common/ua/common/UaEntityPool.hpp
+++ b/src/app/common/ua/common/UaEntityPool.hpp
@@ -52,7 +52,7 @@ public:
 
     ENTITY& get(EntityId uid)
     {
-        return *(pool[uid - 1]);
+        return *pool.at(uid - 1);
     }
 
 private:
-- 
2.43.0


From bc027e28cde4982d54191f2b1571981141171829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:11 +0000
Subject: [PATCH 42/78] fix: OPC UA messages longer than 1024 bytes or received
 together with others are not processed

---
 .../ua/transport/server/UaTcpConnection.cpp   | 114 ++++++++++--------
 .../ua/transport/server/UaTcpConnection.hpp   |   6 +-
 .../server/UaTcpConnectionConnected.cpp       |  14 ++-
 src/app/ua/transport/server/UaTcpDefs.hpp     |   2 +
 4 files changed, 82 insertions(+), 54 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 5d705b3..9eb3d97 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -171,53 +171,75 @@ void UaTcpConnection::stopTimer()
 void UaTcpConnection::receivePreaction()
 {
     rxBuffer.reset();
+    receivePending = false;
 }
 
-UaTcpConnection::Result UaTcpConnection::receive()
+void UaTcpConnection::continueReceive()
 {
-    // TODO REMOVE MN
-    if (rxBuffer.size() > 1024)
-    {
-        LM(UATL, LE, "Uid-%u, received packet is invalid", connectionId);
-        return Result::error;
-    }
+    // messages are taken one by one, so that a client that sends many at once does not displace the messages of others
+    receivePending = true;
+    startTimer(opcUaTcpContinueDelay);
+}
 
-    auto const& result = link->receive(rxBuffer.end(), rxBuffer.capacity());
-    switch (result.status)
+void UaTcpConnection::waitForData()
+{
+    if (receivePending)
     {
-    case reactor::LinkResult::ok:
-    break;
-    case reactor::LinkResult::na:
-        return Result::noerror;
-    case reactor::LinkResult::closed:
-    case reactor::LinkResult::error:
-        return Result::error;
+        receivePending = false;
+        startTimer(opcUaTcpReceiveTimeout);
     }
+}
 
-    rxBuffer.seek(result.len);
-
-    if (rxBuffer.size() < messageHeaderSize)
-    {
-        return Result::noerror;
-    }
+bool UaTcpConnection::isReceivePending() const
+{
+    return receivePending;
+}
 
-    if (rxBuffer.size() < getMsgSizeFromHdr(rxBuffer.begin()))
+UaTcpConnection::Result UaTcpConnection::receive(OpcUaSduBuffer& rx)
+{
+    for (;;)
     {
-        return Result::noerror;
-    }
+        if (rxBuffer.size() >= messageHeaderSize)
+        {
+            auto const msgSize = getMsgSizeFromHdr(rxBuffer.begin());
+            if (msgSize < messageHeaderSize || msgSize > opcUaTcpMaxChunkSize)
+            {
+                LM(UATL, LE, "Uid-%u, packet has invalid size", connectionId);
+                return Result::error;
+            }
+            if (rxBuffer.size() >= msgSize)
+            {
+                std::memcpy(rx.end(), rxBuffer.begin(), msgSize);
+                rx.seek(msgSize);
+
+                auto const rest = rxBuffer.size() - msgSize;
+                auto const* restBegin = rxBuffer.begin() + msgSize;
+                rxBuffer.reset();
+                std::memmove(rxBuffer.end(), restBegin, rest);
+                rxBuffer.seek(rest);
+                return Result::done;
+            }
+        }
 
-    if (rxBuffer.size() != getMsgSizeFromHdr(rxBuffer.begin()))
-    {
-        LM(UATL, LE, "Uid-%u, packet has invalid size", connectionId);
-        return Result::error;
+        auto const& result = link->receive(rxBuffer.end(), rxBuffer.capacity());
+        switch (result.status)
+        {
+        case reactor::LinkResult::ok:
+            rxBuffer.seek(result.len);
+        break;
+        case reactor::LinkResult::na:
+            return Result::noerror;
+        case reactor::LinkResult::closed:
+        case reactor::LinkResult::error:
+            return Result::error;
+        }
     }
-
-    return Result::done;
 }
 
 UaTcpConnection::Result UaTcpConnection::receiveHello()
 {
-    switch (receive())
+    OpcUaSduBuffer rx;
+    switch (receive(rx))
     {
     case UaTcpConnection::Result::noerror:
         return UaTcpConnection::Result::noerror;
@@ -227,14 +249,7 @@ UaTcpConnection::Result UaTcpConnection::receiveHello()
         return UaTcpConnection::Result::error;
     }
 
-/*
-    if (UaSecMsgType::opn != fromString(rxBuffer.begin()))
-    {
-        LM(UATL, LE, "Uid-%u, unexpected packet type", connectionId);
-        return Result::error;
-    }
-*/
-    OpcUaBinaryCodec codec(rxBuffer);
+    OpcUaBinaryCodec codec(rx);
 
     MessageHeader hdr;
     HelloMessage hello;
@@ -280,7 +295,8 @@ UaTcpConnection::Result UaTcpConnection::sendAcknowledge()
 
 UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
 {
-    switch (receive())
+    OpcUaSduBuffer rx;
+    switch (receive(rx))
     {
     case UaTcpConnection::Result::noerror:
         return UaTcpConnection::Result::noerror;
@@ -289,9 +305,9 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
     case UaTcpConnection::Result::error:
         return UaTcpConnection::Result::error;
     }
-    auto msgType = fromString(rxBuffer.begin());
+    auto msgType = fromString(rx.begin());
 
-    OpcUaBinaryCodec codec(rxBuffer);
+    OpcUaBinaryCodec codec(rx);
     UaMessageHeader hdr;
     codec >> hdr;
 
@@ -311,8 +327,8 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
         msg.connectionId = connectionId;
         msg.secureChannelId = hdr.secureChannelId;
         msg.chunkType = UaChunkType::fromUint8(hdr.isFinal);
-        msg.length = rxBuffer.size();
-        std::memcpy(msg.data, rxBuffer.begin(), rxBuffer.size());
+        msg.length = rx.size();
+        std::memcpy(msg.data, rx.begin(), rx.size());
         Sender::sendMsg(msgStore);
     }
     break;
@@ -323,8 +339,8 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
         msg.connectionId = connectionId;
         msg.secureChannelId = hdr.secureChannelId;
         msg.chunkType = UaChunkType::fromUint8(hdr.isFinal);
-        msg.length = rxBuffer.size();
-        std::memcpy(msg.data, rxBuffer.begin(), rxBuffer.size());
+        msg.length = rx.size();
+        std::memcpy(msg.data, rx.begin(), rx.size());
         Sender::sendMsg(msgStore);
     }
     break;
@@ -340,8 +356,8 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
         msg.connectionId = connectionId;
         msg.secureChannelId = hdr.secureChannelId;
         msg.chunkType = UaChunkType::fromUint8(hdr.isFinal);
-        msg.length = rxBuffer.size();
-        std::memcpy(msg.data, rxBuffer.begin(), rxBuffer.size());
+        msg.length = rx.size();
+        std::memcpy(msg.data, rx.begin(), rx.size());
         Sender::sendMsg(msgStore);
     }
     break;
diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index 742faef..f3f1639 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -46,12 +46,15 @@ public:
     void startTimer(long);
     void stopTimer();
     void receivePreaction();
-    Result receive();
+    void continueReceive();
+    void waitForData();
+    bool isReceivePending() const;
     Result receiveHello();
     Result sendAcknowledge();
     Result receiveSecuredMessage();
     void sendUaConnectionReleaseInd();
 private:
+    Result receive(OpcUaSduBuffer&);
 
     UaConnectionId const connectionId;
     reactor::ReactorInterface& reactor;
@@ -59,6 +62,7 @@ private:
     reactor::LinkPtr link;
     reactor::TimerPtr timer;
     OpcUaSduBuffer rxBuffer;
+    bool receivePending{false};
     std::optional<UaSecureChannelId> associatedSecureChannelId;
 };
 
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index 0157c5c..b82a331 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -8,8 +8,7 @@ namespace app::ua::transport
 
 void UaTcpConnectionConnected::onEnter(UaTcpConnection& fsm)
 {
-    fsm.startTimer(opcUaTcpReceiveTimeout);
-    fsm.receivePreaction();
+    fsm.continueReceive();
 }
 
 void UaTcpConnectionConnected::onDataReceived(UaTcpConnection& fsm)
@@ -17,11 +16,13 @@ void UaTcpConnectionConnected::onDataReceived(UaTcpConnection& fsm)
     switch (fsm.receiveSecuredMessage())
     {
     case UaTcpConnection::Result::noerror:
+    {
+        fsm.waitForData();
+    }
     break;
     case UaTcpConnection::Result::done:
     {
-        fsm.startTimer(opcUaTcpReceiveTimeout);
-        fsm.receivePreaction();
+        fsm.continueReceive();
     }
     break;
     case UaTcpConnection::Result::error:
@@ -91,6 +92,11 @@ void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionRe
 
 void UaTcpConnectionConnected::onTimer(UaTcpConnection& fsm)
 {
+    if (fsm.isReceivePending())
+    {
+        onDataReceived(fsm);
+        return;
+    }
     fsm.sendUaConnectionReleaseInd();
     fsm.transit<UaTcpConnectionInit>();
 }
diff --git a/src/app/ua/transport/server/UaTcpDefs.hpp b/src/app/ua/transport/server/UaTcpDefs.hpp
index bd47aba..f05a26c 100644
--- a/src/app/ua/transport/server/UaTcpDefs.hpp
+++ b/src/app/ua/transport/server/UaTcpDefs.hpp
@@ -10,5 +10,7 @@ static constexpr std::uint32_t opcUaSendBufferSize = 65536;
 static constexpr std::uint32_t opcUaReceiveBufferSize = 65536;
 static constexpr std::uint32_t opcUaMaxChunkCount = 5000;
 static constexpr std::uint32_t opcUaTcpReceiveTimeout = 30000000;
+static constexpr std::uint32_t opcUaTcpContinueDelay = 1;
+static constexpr std::uint32_t opcUaTcpMaxChunkSize = 4000;
 
 } // namespace app::ua::transport
-- 
2.43.0


From 7bfbf78299b18091a12877e0f6ad99db26ae3a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:11 +0000
Subject: [PATCH 43/78] fix: a message other than a Hello, incomplete or
 malformed, is answered as a Hello or blocks the OPC UA connection

---
 .../ua/common/types/UaMessageHeader.hpp       |  2 +
 .../ua/transport/server/UaTcpConnection.cpp   | 40 +++++++++++++++++--
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/app/common/ua/common/types/UaMessageHeader.hpp b/src/app/common/ua/common/types/UaMessageHeader.hpp
index 2866820..6aea1e8 100644
--- a/src/app/common/ua/common/types/UaMessageHeader.hpp
+++ b/src/app/common/ua/common/types/UaMessageHeader.hpp
@@ -6,6 +6,8 @@
 namespace app::ua
 {
 
+static constexpr std::uint32_t secureMessageHeaderSize = 12;
+
 struct UaMessageHeader : public MessageHeader
 {
     UInt32                  secureChannelId;
diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 9eb3d97..2f8c565 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -249,11 +249,31 @@ UaTcpConnection::Result UaTcpConnection::receiveHello()
         return UaTcpConnection::Result::error;
     }
 
-    OpcUaBinaryCodec codec(rx);
+    if (not isMsgHello(rx.begin()))
+    {
+        LM(UATL, LE, "Uid-%u, unexpected packet type", connectionId);
+        return Result::error;
+    }
 
-    MessageHeader hdr;
-    HelloMessage hello;
-    codec >> hdr >> hello;
+    try
+    {
+        OpcUaBinaryCodec codec(rx);
+
+        MessageHeader hdr;
+        HelloMessage hello;
+        codec >> hdr >> hello;
+
+        if (hdr.isFinal != 'F')
+        {
+            LM(UATL, LE, "Uid-%u, unexpected chunk type", connectionId);
+            return Result::error;
+        }
+    }
+    catch (std::exception const& e)
+    {
+        LM(UATL, LE, "Uid-%u, invalid HelloMessage: %s", connectionId, e.what());
+        return Result::error;
+    }
 
     LM(UATL, LD, "Uid-%u, received HelloMessage", connectionId);
 
@@ -305,12 +325,24 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
     case UaTcpConnection::Result::error:
         return UaTcpConnection::Result::error;
     }
+    if (rx.size() < secureMessageHeaderSize)
+    {
+        LM(UATL, LE, "Uid-%u, packet has invalid size", connectionId);
+        return Result::error;
+    }
+
     auto msgType = fromString(rx.begin());
 
     OpcUaBinaryCodec codec(rx);
     UaMessageHeader hdr;
     codec >> hdr;
 
+    if (hdr.isFinal != 'F')
+    {
+        LM(UATL, LE, "Uid-%u, messages of several chunks are not supported", connectionId);
+        return Result::error;
+    }
+
     LM(UATL, LD, "Uid-%u, receiveSecuredMessage: %s", connectionId, toString(msgType).c_str());
 
     switch (msgType)
-- 
2.43.0


From a29ae9762853df6dda0cabb42dcd35e90cf81a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:47 +0000
Subject: [PATCH 44/78] fix: an OPC UA connection is kept after it was reset

---
 src/app/ua/transport/server/UaTcpConnectionConnected.cpp    | 6 ++++++
 src/app/ua/transport/server/UaTcpConnectionConnected.hpp    | 2 ++
 src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp | 5 +++++
 src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp | 2 ++
 4 files changed, 15 insertions(+)

diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index b82a331..27151c9 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -90,6 +90,12 @@ void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionRe
     fsm.transit<UaTcpConnectionInit>();
 }
 
+void UaTcpConnectionConnected::onError(UaTcpConnection& fsm)
+{
+    fsm.sendUaConnectionReleaseInd();
+    fsm.transit<UaTcpConnectionInit>();
+}
+
 void UaTcpConnectionConnected::onTimer(UaTcpConnection& fsm)
 {
     if (fsm.isReceivePending())
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.hpp b/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
index 2147924..cd71e85 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
@@ -24,6 +24,8 @@ public:
 
     void onReceive(UaTcpConnection&, MsgUaConnectionReleaseReq const&) final;
 
+    void onError(UaTcpConnection&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index 216340d..ef99a73 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -32,6 +32,11 @@ void UaTcpConnectionReceiveHello::onDataReceived(UaTcpConnection& fsm)
     }
 }
 
+void UaTcpConnectionReceiveHello::onError(UaTcpConnection& fsm)
+{
+    fsm.transit<UaTcpConnectionInit>();
+}
+
 void UaTcpConnectionReceiveHello::onTimer(UaTcpConnection& fsm)
 {
     fsm.transit<UaTcpConnectionInit>();
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
index 9f372a4..f100976 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(UaTcpConnection&) final;
 
+    void onError(UaTcpConnection&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
-- 
2.43.0


From af82f75d2a21239b99567563106873a925c45cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:47 +0000
Subject: [PATCH 45/78] fix: an accepted OPC UA connection that can not be
 started is lost for good

---
 src/app/ua/transport/server/UaTcpServer.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/app/ua/transport/server/UaTcpServer.cpp b/src/app/ua/transport/server/UaTcpServer.cpp
index 926c0d9..f1933ca 100644
--- a/src/app/ua/transport/server/UaTcpServer.cpp
+++ b/src/app/ua/transport/server/UaTcpServer.cpp
@@ -64,7 +64,16 @@ void UaTcpServer::onAcceptEvent()
         return;
     }
     auto& connection = connectionPool.get(connectionId);
-    connection.getState().onAcceptLink(connection, link);
+    try
+    {
+        connection.getState().onAcceptLink(connection, link);
+    }
+    catch (...)
+    {
+        LM(UATL, LE, "Uid=%u, Can not start connection-%u", uid, connectionId);
+        connection.release();
+        throw;
+    }
 }
 
 } // namespace app::ua::transport
-- 
2.43.0


From 84527dbc3c4dc16a5c648976ae2d2c6be250174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:47 +0000
Subject: [PATCH 46/78] fix: messages for a closed OPC UA connection are taken
 for the one that got its id

---
 .../ua/transport/server/UaTcpConnection.cpp   | 16 ++++++++++++-
 .../ua/transport/server/UaTcpConnection.hpp   |  7 +++++-
 src/app/ua/transport/server/UaTcpServer.cpp   | 24 ++++++++++++-------
 src/app/ua/transport/server/UaTcpServer.hpp   |  3 +++
 4 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 2f8c565..66211b4 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -8,8 +8,11 @@
 namespace app::ua::transport
 {
 
+static constexpr UaConnectionId connectionIdStep = 256;
+
 UaTcpConnection::UaTcpConnection(EntityId uid_, reactor::ReactorInterface& r, ReleaserInterface& releaser_)
     : FsmBase(&app::getSingleton<UaTcpConnectionInit>(), "UaTcpConnection")
+    , uid(uid_)
     , connectionId(uid_)
     , reactor(r)
     , releaser(releaser_)
@@ -20,6 +23,16 @@ UaTcpConnection::~UaTcpConnection()
 {
 }
 
+EntityId UaTcpConnection::toUid(UaConnectionId connectionId)
+{
+    return connectionId % connectionIdStep;
+}
+
+UaConnectionId UaTcpConnection::getConnectionId() const
+{
+    return connectionId;
+}
+
 void UaTcpConnection::sendUaConnectionReleaseInd()
 {
     if (not associatedSecureChannelId)
@@ -150,7 +163,8 @@ void UaTcpConnection::release()
     associatedSecureChannelId = {};
     link.reset();
     timer.reset();
-    releaser.release(connectionId);
+    connectionId += connectionIdStep;
+    releaser.release(uid);
 }
 
 void UaTcpConnection::allocTimer()
diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index f3f1639..984d484 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -34,6 +34,10 @@ public:
 
     ~UaTcpConnection();
 
+    // the id is unique for each accepted connection, the uid for each entry of the pool
+    static EntityId toUid(UaConnectionId);
+    UaConnectionId getConnectionId() const;
+
     Result receive(MsgUaOpenSecureChannelRsp const&);
     Result receive(MsgUaCloseSecureChannelRsp const&);
     Result receive(MsgUaSecuredMessageSendReq const&);
@@ -56,7 +60,8 @@ public:
 private:
     Result receive(OpcUaSduBuffer&);
 
-    UaConnectionId const connectionId;
+    UaConnectionId const uid;
+    UaConnectionId connectionId;
     reactor::ReactorInterface& reactor;
     ReleaserInterface& releaser;
     reactor::LinkPtr link;
diff --git a/src/app/ua/transport/server/UaTcpServer.cpp b/src/app/ua/transport/server/UaTcpServer.cpp
index f1933ca..e1047fa 100644
--- a/src/app/ua/transport/server/UaTcpServer.cpp
+++ b/src/app/ua/transport/server/UaTcpServer.cpp
@@ -15,28 +15,36 @@ UaTcpServer::~UaTcpServer()
 {
 }
 
-void UaTcpServer::receive(MsgUaOpenSecureChannelRsp const& msg)
+template <typename MSG>
+void UaTcpServer::dispatch(MSG const& msg)
 {
-    auto& connection = connectionPool.get(msg.connectionId);
+    auto& connection = connectionPool.get(UaTcpConnection::toUid(msg.connectionId));
+    if (connection.getConnectionId() != msg.connectionId)
+    {
+        LM(UATL, LD, "Uid=%u, message for a closed connection", uid);
+        return;
+    }
     connection.getState().onReceive(connection, msg);
 }
 
+void UaTcpServer::receive(MsgUaOpenSecureChannelRsp const& msg)
+{
+    dispatch(msg);
+}
+
 void UaTcpServer::receive(MsgUaCloseSecureChannelRsp const& msg)
 {
-    auto& connection = connectionPool.get(msg.connectionId);
-    connection.getState().onReceive(connection, msg);
+    dispatch(msg);
 }
 
 void UaTcpServer::receive(MsgUaSecuredMessageSendReq const& msg)
 {
-    auto& connection = connectionPool.get(msg.connectionId);
-    connection.getState().onReceive(connection, msg);
+    dispatch(msg);
 }
 
 void UaTcpServer::receive(MsgUaConnectionReleaseReq const& msg)
 {
-    auto& connection = connectionPool.get(msg.connectionId);
-    connection.getState().onReceive(connection, msg);
+    dispatch(msg);
 }
 
 void UaTcpServer::listen(reactor::LinkAddr const& addr)
diff --git a/src/app/ua/transport/server/UaTcpServer.hpp b/src/app/ua/transport/server/UaTcpServer.hpp
index a905cfb..09b9c85 100644
--- a/src/app/ua/transport/server/UaTcpServer.hpp
+++ b/src/app/ua/transport/server/UaTcpServer.hpp
@@ -26,6 +26,9 @@ public:
     void listen(reactor::LinkAddr const& addr);
 
 private:
+    template <typename MSG>
+    void dispatch(MSG const&);
+
     void release(UaConnectionId) final;
 
     void onAcceptEvent();
-- 
2.43.0


From 472816a7fd1109da3bcda04cad26cb4ddbf41a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:47 +0000
Subject: [PATCH 47/78] fix: a secure channel is lost for good when its
 connection is closed while it is opened, or opens another one

---
 src/app/ua/transport/server/UaTcpConnection.cpp | 12 +++++++++++-
 src/app/ua/transport/server/UaTcpConnection.hpp |  1 +
 src/app/ua/transport/server/UaTcpServer.cpp     | 10 +++++++---
 src/app/ua/transport/server/UaTcpServer.hpp     |  2 +-
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 66211b4..ac75b1d 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -40,9 +40,14 @@ void UaTcpConnection::sendUaConnectionReleaseInd()
         LM(UATL, LE, "Uid-%u, Can not send UaConnectionReleaseInd, secure channel id is undefined", connectionId);
         return;
     }
+    sendUaConnectionReleaseInd(connectionId, *associatedSecureChannelId);
+}
+
+void UaTcpConnection::sendUaConnectionReleaseInd(UaConnectionId connectionId, UaSecureChannelId secureChannelId)
+{
     reactor::MsgStore<MsgUaConnectionReleaseInd> msgStore;
     msgStore.getMsg().connectionId = connectionId;
-    msgStore.getMsg().secureChannelId = *associatedSecureChannelId;
+    msgStore.getMsg().secureChannelId = secureChannelId;
     Sender::sendMsg(msgStore);
 }
 
@@ -80,6 +85,11 @@ UaTcpConnection::Result UaTcpConnection::receive(MsgUaSecuredMessageSendReq cons
 
 UaTcpConnection::Result UaTcpConnection::receive(MsgUaOpenSecureChannelRsp const& msg)
 {
+    if (associatedSecureChannelId && *associatedSecureChannelId != msg.secureChannelId)
+    {
+        LM(UATL, LD, "Uid-%u, secure channel is replaced", connectionId);
+        sendUaConnectionReleaseInd();
+    }
     associatedSecureChannelId = msg.secureChannelId;
 
     OpcUaSduBuffer tx;
diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index 984d484..89a1d81 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -57,6 +57,7 @@ public:
     Result sendAcknowledge();
     Result receiveSecuredMessage();
     void sendUaConnectionReleaseInd();
+    static void sendUaConnectionReleaseInd(UaConnectionId, UaSecureChannelId);
 private:
     Result receive(OpcUaSduBuffer&);
 
diff --git a/src/app/ua/transport/server/UaTcpServer.cpp b/src/app/ua/transport/server/UaTcpServer.cpp
index e1047fa..1bb2222 100644
--- a/src/app/ua/transport/server/UaTcpServer.cpp
+++ b/src/app/ua/transport/server/UaTcpServer.cpp
@@ -16,20 +16,24 @@ UaTcpServer::~UaTcpServer()
 }
 
 template <typename MSG>
-void UaTcpServer::dispatch(MSG const& msg)
+bool UaTcpServer::dispatch(MSG const& msg)
 {
     auto& connection = connectionPool.get(UaTcpConnection::toUid(msg.connectionId));
     if (connection.getConnectionId() != msg.connectionId)
     {
         LM(UATL, LD, "Uid=%u, message for a closed connection", uid);
-        return;
+        return false;
     }
     connection.getState().onReceive(connection, msg);
+    return true;
 }
 
 void UaTcpServer::receive(MsgUaOpenSecureChannelRsp const& msg)
 {
-    dispatch(msg);
+    if (not dispatch(msg))
+    {
+        UaTcpConnection::sendUaConnectionReleaseInd(msg.connectionId, msg.secureChannelId);
+    }
 }
 
 void UaTcpServer::receive(MsgUaCloseSecureChannelRsp const& msg)
diff --git a/src/app/ua/transport/server/UaTcpServer.hpp b/src/app/ua/transport/server/UaTcpServer.hpp
index 09b9c85..234529b 100644
--- a/src/app/ua/transport/server/UaTcpServer.hpp
+++ b/src/app/ua/transport/server/UaTcpServer.hpp
@@ -27,7 +27,7 @@ public:
 
 private:
     template <typename MSG>
-    void dispatch(MSG const&);
+    bool dispatch(MSG const&);
 
     void release(UaConnectionId) final;
 
-- 
2.43.0


From b77f1550d25821db528804b71e34f58af60ac386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:47 +0000
Subject: [PATCH 48/78] fix: a reused secure channel starts with another
 sequence number

---
 src/app/ua/securechannel/channel/UaServerSecureChannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index fb461e9..bc90e42 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -22,7 +22,7 @@ UaServerSecureChannel::~UaServerSecureChannel()
 
 void UaServerSecureChannel::release()
 {
-    sequenceNumberTx = 0;
+    sequenceNumberTx = 1;
     connectionId = {};
     sessionId = {};
     releaser.release(secureChannelId);
-- 
2.43.0


From cad785d640b90a8e629246d4d8774aa680e0bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:47 +0000
Subject: [PATCH 49/78] fix: a secure channel is lost for good when the message
 to open it is malformed

---
 src/app/ua/securechannel/UaSecureChannel.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/app/ua/securechannel/UaSecureChannel.cpp b/src/app/ua/securechannel/UaSecureChannel.cpp
index 3742022..96fc123 100644
--- a/src/app/ua/securechannel/UaSecureChannel.cpp
+++ b/src/app/ua/securechannel/UaSecureChannel.cpp
@@ -32,7 +32,17 @@ void UaSecureChannel::receive(MsgUaOpenSecureChannelReq const& msg)
         return;
     }
     auto& channel = serverSecureChannelPool.get(uid);
-    channel.getState().onReceive(channel, msg);
+    try
+    {
+        channel.getState().onReceive(channel, msg);
+    }
+    catch (...)
+    {
+        LM(UASC, LE, "Uid-%u, invalid OpenSecureChannelReq", uid);
+        channel.sendUaConnectionReleaseReq(msg.connectionId);
+        channel.release();
+        throw;
+    }
 }
 
 void UaSecureChannel::receive(MsgUaCloseSecureChannelReq const& msg)
-- 
2.43.0


From 2c406c9498ac74287684ece6f562639326a6bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:25 +0000
Subject: [PATCH 50/78] fix: a late message of an earlier connection closes the
 secure channel that got the same id

---
 .../channel/UaServerSecureChannel.cpp              | 10 ++++++++++
 .../channel/UaServerSecureChannel.hpp              |  1 +
 .../channel/UaServerSecureChannelEstablished.cpp   | 14 +++++++++++++-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index bc90e42..152751c 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -20,6 +20,16 @@ UaServerSecureChannel::~UaServerSecureChannel()
 {
 }
 
+bool UaServerSecureChannel::isConnected(UaConnectionId id) const
+{
+    if (not connectionId || *connectionId != id)
+    {
+        LM(UASC, LE, "Uid-%u, unexpected connectionId", secureChannelId);
+        return false;
+    }
+    return true;
+}
+
 void UaServerSecureChannel::release()
 {
     sequenceNumberTx = 1;
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
index 736eae6..e2550d6 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
@@ -34,6 +34,7 @@ public:
     Result receive(MsgUaSecuredMessageReceiveInd const&);
     Result receive(MsgUaEncodedMessageSendReq const&);
 
+    bool   isConnected(UaConnectionId) const;
     void   release();
     void   sendUaConnectionReleaseReq(UaConnectionId);
 
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
index 1bdaf2c..449cc53 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
@@ -7,6 +7,10 @@ namespace app::ua::securechannel
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaCloseSecureChannelReq const& msg)
 {
+    if (not fsm.isConnected(msg.connectionId))
+    {
+        return;
+    }
     fsm.receive(msg);
     fsm.sendUaConnectionReleaseReq(msg.connectionId);
     fsm.transit<UaServerSecureChannelInit>();
@@ -17,8 +21,12 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
     fsm.receive(msg);
 }
 
-void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const&)
+void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const& msg)
 {
+    if (not fsm.isConnected(msg.connectionId))
+    {
+        return;
+    }
     fsm.transit<UaServerSecureChannelInit>();
 }
 
@@ -29,6 +37,10 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaSecuredMessageReceiveInd const& msg)
 {
+    if (not fsm.isConnected(msg.connectionId))
+    {
+        return;
+    }
     if (UaServerSecureChannel::Result::done != fsm.receive(msg))
     {
         fsm.sendUaConnectionReleaseReq(msg.connectionId);
-- 
2.43.0


From 90c46abfa6c4e5ca0e5b3aae9b4b7cc6bb8d1f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:25 +0000
Subject: [PATCH 51/78] fix: the responses to requests sent along with the
 activation of a session are lost

---
 src/app/ua/securechannel/channel/UaServerSecureChannel.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index 152751c..b6d4745 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -229,11 +229,6 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaEncodedMessage
         LM(UASC, LE, "Uid-%u, unexpected connectionId", secureChannelId);
         return Result::error;
     }
-    if (sessionId && *sessionId != msgReq.hdr.sessionId)
-    {
-        LM(UASC, LE, "Uid-%u, unexpected sessionId", secureChannelId);
-        return Result::error;
-    }
 
     OpcUaSduBuffer tx;
 
-- 
2.43.0


From 9bdbc902db28fe78e6388b35fe03d34ec47d973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:25 +0000
Subject: [PATCH 52/78] fix: unknown OPC UA service ids are taken for known
 ones or kept for good

---
 src/app/ua/service/UaService.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/ua/service/UaService.cpp b/src/app/ua/service/UaService.cpp
index f7edc3b..be93eda 100644
--- a/src/app/ua/service/UaService.cpp
+++ b/src/app/ua/service/UaService.cpp
@@ -49,14 +49,14 @@ void UaService::receive(MsgUaEncodedMessageReceiveInd const& msgReq)
 
     UaServiceId serviceId = std::get<UInt32>(eNodeId.nodeId.value);
 
-    auto& serv = services[static_cast<DataTypeId>(serviceId)];
-    if (not serv)
+    auto it = services.find(static_cast<DataTypeId>(serviceId));
+    if (it == services.end() || static_cast<UaServiceId>(it->first) != serviceId || eNodeId.nodeId.namespaceIndex != 0)
     {
         LM(UASRV, LE, "Unexpected service id(%u)", serviceId);
         return;
     }
 
-    serv->receive(msgReq.hdr, rx);
+    it->second->receive(msgReq.hdr, rx);
 }
 
 } // namespace app::ua::service
-- 
2.43.0


From 60dbbcdc9446bf4a6627c06c730c925f0924307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:25 +0000
Subject: [PATCH 53/78] fix: a session can be taken over, closed or used with
 the token of another one

---
 src/app/ua/service/attribute/UaRead.cpp       |  2 +-
 src/app/ua/service/session/UaSession.cpp      | 20 ++++++---
 src/app/ua/service/session/UaSession.hpp      |  2 +
 .../ua/service/session/UaSessionService.cpp   | 42 ++++++++-----------
 .../ua/service/session/UaSessionService.hpp   |  4 +-
 5 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/src/app/ua/service/attribute/UaRead.cpp b/src/app/ua/service/attribute/UaRead.cpp
index abbcf90..a440572 100644
--- a/src/app/ua/service/attribute/UaRead.cpp
+++ b/src/app/ua/service/attribute/UaRead.cpp
@@ -23,7 +23,7 @@ void UaRead::receive(UaEncodedMessageHdr const& hdr, OpcUaSduBuffer& rx)
     UaReadReq req;
     codec >> req;
 
-    sessionService.receive(hdr, [&]()
+    sessionService.receive(hdr, req.requestHdr.authentificationToken, [&]()
     {
         attributeService.receive(hdr, req);
     });
diff --git a/src/app/ua/service/session/UaSession.cpp b/src/app/ua/service/session/UaSession.cpp
index f963565..16c3e8e 100644
--- a/src/app/ua/service/session/UaSession.cpp
+++ b/src/app/ua/service/session/UaSession.cpp
@@ -20,14 +20,28 @@ UaSession::~UaSession()
 {
 }
 
+bool UaSession::isOwnedBy(UaConnectionId connectionId_, UaSecureChannelId secureChannelId_) const
+{
+    if (not connectionId || *connectionId != connectionId_ || not secureChannelId || *secureChannelId != secureChannelId_)
+    {
+        LM(UASRV, LE, "Uid=%u, unexpected secure channel Id", sessionId);
+        return false;
+    }
+    return true;
+}
+
 void UaSession::release()
 {
+    connectionId = {};
     secureChannelId = {};
     sessionReleaser.release(sessionId);
 }
 
 UaSession::Result UaSession::receive(UaEncodedMessageHdr const& hdr, UaCreateSessionReq const& req)
 {
+    connectionId = hdr.connectionId;
+    secureChannelId = hdr.secureChannelId;
+
     UaCreateSessionRspCont rsp;
     rsp.msg.responseHdr.timestamp = utils::getCurrentDateTime();
     rsp.msg.responseHdr.requestHandle = req.requestHdr.requestHandle;
@@ -62,7 +76,6 @@ UaSession::Result UaSession::receive(UaEncodedMessageHdr const& hdr, UaActivateS
     rsp.msg.responseHdr.requestHandle = req.requestHdr.requestHandle;
 
     {
-        secureChannelId = hdr.secureChannelId;
         reactor::MsgStore<MsgUaAssociateSecureChannelReq> msgStore;
         auto& msgRsp = msgStore.getMsg();
         msgRsp.hdr = hdr;
@@ -105,11 +118,6 @@ UaSession::Result UaSession::receive(UaEncodedMessageHdr const& hdr, UaCloseSess
 
 UaSession::Result UaSession::receive(UaEncodedMessageHdr const& hdr, UaServiceHandler const& handler)
 {
-    if (not secureChannelId || *secureChannelId != hdr.secureChannelId)
-    {
-        LM(UASRV, LE, "Uid=%u, unexpected secure channel Id", sessionId);
-        return Result::fail;
-    }
     handler();
     return Result::sucess;
 }
diff --git a/src/app/ua/service/session/UaSession.hpp b/src/app/ua/service/session/UaSession.hpp
index d9b0d0e..5fb42a8 100644
--- a/src/app/ua/service/session/UaSession.hpp
+++ b/src/app/ua/service/session/UaSession.hpp
@@ -23,6 +23,7 @@ public:
 
     ~UaSession();
 
+    bool isOwnedBy(UaConnectionId, UaSecureChannelId) const;
     void release();
 
     Result receive(UaEncodedMessageHdr const&, UaCreateSessionReq const&);
@@ -33,6 +34,7 @@ public:
 private:
 
     UaSessionId const sessionId;
+    std::optional<UaConnectionId> connectionId;
     std::optional<UaSecureChannelId> secureChannelId;
     ReleaserInterface& sessionReleaser;
 };
diff --git a/src/app/ua/service/session/UaSessionService.cpp b/src/app/ua/service/session/UaSessionService.cpp
index b3432e9..0c54f93 100644
--- a/src/app/ua/service/session/UaSessionService.cpp
+++ b/src/app/ua/service/session/UaSessionService.cpp
@@ -29,6 +29,17 @@ void UaSessionService::release(UaSessionId uid)
     sessionPool.release(uid);
 }
 
+UaSession* UaSessionService::find(UaEncodedMessageHdr const& hdr, UaSessionAuthentificationToken const& token)
+{
+    if (token.namespaceIndex != 0 || not std::holds_alternative<UInt32>(token.value))
+    {
+        LM(UASRV, LE, "Unexpected nodeId format");
+        return nullptr;
+    }
+    auto& session = sessionPool.get(std::get<UInt32>(token.value));
+    return session.isOwnedBy(hdr.connectionId, hdr.secureChannelId) ? &session : nullptr;
+}
+
 void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaCreateSessionReq const& msg)
 {
     UaSessionId uid;
@@ -43,43 +54,26 @@ void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaCreateSessionRe
 
 void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaActivateSessionReq const& msg)
 {
-    auto& nodeId = msg.requestHdr.authentificationToken;
-    if (std::holds_alternative<UInt32>(nodeId.value))
+    if (auto* session = find(hdr, msg.requestHdr.authentificationToken))
     {
-        EntityId uid = (std::get<UInt32>(nodeId.value));
-        auto& session = sessionPool.get(uid);
-        session.getState().onReceive(session, hdr, msg);
-    }
-    else
-    {
-        LM(UASRV, LE, "Unexpected nodeId format");
+        session->getState().onReceive(*session, hdr, msg);
     }
 }
 
 void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaCloseSessionReq const& msg)
 {
-    auto& nodeId = msg.requestHdr.authentificationToken;
-    if (std::holds_alternative<UInt32>(nodeId.value))
-    {
-        EntityId uid = (std::get<UInt32>(nodeId.value));
-        auto& session = sessionPool.get(uid);
-        session.getState().onReceive(session, hdr, msg);
-    }
-    else
+    if (auto* session = find(hdr, msg.requestHdr.authentificationToken))
     {
-        LM(UASRV, LE, "Unexpected nodeId format");
+        session->getState().onReceive(*session, hdr, msg);
     }
 }
 
-void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaServiceHandler const& handler)
+void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaSessionAuthentificationToken const& token, UaServiceHandler const& handler)
 {
-    if (invalidSuid == hdr.sessionId)
+    if (auto* session = find(hdr, token))
     {
-        LM(UASRV, LE, "Unexpected sessionId");
-        return;
+        session->getState().onReceive(*session, hdr, handler);
     }
-    auto& session = sessionPool.get(hdr.sessionId);
-    session.getState().onReceive(session, hdr, handler);
 }
 
 
diff --git a/src/app/ua/service/session/UaSessionService.hpp b/src/app/ua/service/session/UaSessionService.hpp
index 60c1b0b..1304b6c 100644
--- a/src/app/ua/service/session/UaSessionService.hpp
+++ b/src/app/ua/service/session/UaSessionService.hpp
@@ -26,9 +26,11 @@ public:
     void receive(UaEncodedMessageHdr const&, UaCreateSessionReq const&);
     void receive(UaEncodedMessageHdr const&, UaActivateSessionReq const&);
     void receive(UaEncodedMessageHdr const&, UaCloseSessionReq const&);
-    void receive(UaEncodedMessageHdr const&, UaServiceHandler const&);
+    void receive(UaEncodedMessageHdr const&, UaSessionAuthentificationToken const&, UaServiceHandler const&);
 
 private:
+    UaSession* find(UaEncodedMessageHdr const&, UaSessionAuthentificationToken const&);
+
     void release(UaSessionId) final;
 
     UaEntityPool<UaSession> sessionPool;
-- 
2.43.0


From cdd6b79ee51a17a320537ad62c2ac7814b570d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:06 +0000
Subject: [PATCH 54/78] fix: the sessions of a closed secure channel are lost
 for good

---
 src/app/common/MsgDefs.hpp                     |  1 +
 .../common/msg/MsgUaSecureChannelClosedInd.hpp | 18 ++++++++++++++++++
 src/app/common/ua/common/UaEntityPool.hpp      |  9 +++++++++
 .../securechannel/UaSecureChannelComponent.hpp |  1 +
 .../ua/securechannel/UaSecureChannelSender.hpp |  2 ++
 .../channel/UaServerSecureChannel.cpp          |  9 +++++++++
 .../channel/UaServerSecureChannel.hpp          |  1 +
 .../UaServerSecureChannelEstablished.cpp       |  5 +++++
 .../UaServerSecureChannelEstablished.hpp       |  2 ++
 src/app/ua/service/UaService.cpp               |  5 +++++
 src/app/ua/service/UaService.hpp               |  2 ++
 src/app/ua/service/UaServiceComponent.cpp      |  9 +++++++++
 src/app/ua/service/UaServiceComponent.hpp      |  2 ++
 src/app/ua/service/session/UaSession.cpp       |  7 +------
 .../ua/service/session/UaSessionActivated.cpp  |  8 ++++++++
 .../ua/service/session/UaSessionActivated.hpp  |  2 ++
 .../ua/service/session/UaSessionCreated.cpp    |  8 ++++++++
 .../ua/service/session/UaSessionCreated.hpp    |  2 ++
 .../ua/service/session/UaSessionService.cpp    | 15 ++++++++++++++-
 .../ua/service/session/UaSessionService.hpp    |  2 ++
 src/app/ua/service/session/UaSessionState.hpp  |  3 +++
 21 files changed, 106 insertions(+), 7 deletions(-)
 create mode 100644 src/app/common/msg/MsgUaSecureChannelClosedInd.hpp

diff --git a/src/app/common/MsgDefs.hpp b/src/app/common/MsgDefs.hpp
index 13c0d8f..e4c0a10 100644
--- a/src/app/common/MsgDefs.hpp
+++ b/src/app/common/MsgDefs.hpp
@@ -58,6 +58,7 @@ enum MsgIds : reactor::MsgId
     , uaServiceConfigRsp
     , uaEncodedMessageSendReq
     , uaEncodedMessageReceiveInd
+    , uaSecureChannelClosedInd
 
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelClosedInd.hpp b/src/app/common/msg/MsgUaSecureChannelClosedInd.hpp
new file mode 100644
index 0000000..0855a7c
--- /dev/null
+++ b/src/app/common/msg/MsgUaSecureChannelClosedInd.hpp
@@ -0,0 +1,18 @@
+#pragma once
+
+#include "CompDefs.hpp"
+#include "MsgDefs.hpp"
+#include "MsgBase.hpp"
+#include "UaConnectionId.hpp"
+#include "UaSecureChannelId.hpp"
+
+namespace app
+{
+
+struct MsgUaSecureChannelClosedInd : public reactor::MsgBase<MsgUaSecureChannelClosedInd, CompIds::compUaService, MsgIds::uaSecureChannelClosedInd>
+{
+    UaConnectionId    connectionId;
+    UaSecureChannelId secureChannelId;
+};
+
+} // namespace app
diff --git a/src/app/common/ua/common/UaEntityPool.hpp b/src/app/common/ua/common/UaEntityPool.hpp
index 557f3d1..663e8bd 100644
--- a/src/app/common/ua/common/UaEntityPool.hpp
+++ b/src/app/common/ua/common/UaEntityPool.hpp
@@ -55,6 +55,15 @@ public:
         return *pool.at(uid - 1);
     }
 
+    template <typename HANDLER>
+    void forEach(HANDLER&& handler)
+    {
+        for (auto& entity : pool)
+        {
+            handler(*entity);
+        }
+    }
+
 private:
     const char* name;
     std::vector<std::unique_ptr<ENTITY>> pool;
diff --git a/src/app/ua/securechannel/UaSecureChannelComponent.hpp b/src/app/ua/securechannel/UaSecureChannelComponent.hpp
index 0bfde78..5a09e91 100644
--- a/src/app/ua/securechannel/UaSecureChannelComponent.hpp
+++ b/src/app/ua/securechannel/UaSecureChannelComponent.hpp
@@ -54,6 +54,7 @@ private:
         void send(MsgUaSecuredMessageSendReq const& msg) final { comp.getSender().send(msg); }
         void send(MsgUaConnectionReleaseReq const& msg) final { comp.getSender().send(msg); }
         void send(MsgUaEncodedMessageReceiveInd const& msg) final { comp.getSender().send(msg); }
+        void send(MsgUaSecureChannelClosedInd const& msg) final { comp.getSender().send(msg); }
         void send(MsgUaSecureChannelReleaseRsp const& msg) final { comp.getSender().send(msg); }
     private:
         UaSecureChannelComponent& comp;
diff --git a/src/app/ua/securechannel/UaSecureChannelSender.hpp b/src/app/ua/securechannel/UaSecureChannelSender.hpp
index 6267801..92a7826 100644
--- a/src/app/ua/securechannel/UaSecureChannelSender.hpp
+++ b/src/app/ua/securechannel/UaSecureChannelSender.hpp
@@ -9,6 +9,7 @@
 #include "MsgUaSecuredMessageSendReq.hpp"
 #include "MsgUaConnectionReleaseReq.hpp"
 #include "MsgUaEncodedMessageReceiveInd.hpp"
+#include "MsgUaSecureChannelClosedInd.hpp"
 #include "MsgUaSecureChannelReleaseRsp.hpp"
 
 namespace app::ua::securechannel
@@ -26,6 +27,7 @@ public:
     virtual void send(MsgUaSecuredMessageSendReq const&) = 0;
     virtual void send(MsgUaConnectionReleaseReq const&) = 0;
     virtual void send(MsgUaEncodedMessageReceiveInd const&) = 0;
+    virtual void send(MsgUaSecureChannelClosedInd const&) = 0;
     virtual void send(MsgUaSecureChannelReleaseRsp const&) = 0;
 };
 
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index b6d4745..d7f28a0 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -30,6 +30,15 @@ bool UaServerSecureChannel::isConnected(UaConnectionId id) const
     return true;
 }
 
+void UaServerSecureChannel::sendUaSecureChannelClosedInd()
+{
+    reactor::MsgStore<MsgUaSecureChannelClosedInd> msgStore;
+    auto& msg = msgStore.getMsg();
+    msg.connectionId = *connectionId;
+    msg.secureChannelId = secureChannelId;
+    Sender::sendMsg(msgStore);
+}
+
 void UaServerSecureChannel::release()
 {
     sequenceNumberTx = 1;
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
index e2550d6..a141f2b 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
@@ -36,6 +36,7 @@ public:
 
     bool   isConnected(UaConnectionId) const;
     void   release();
+    void   sendUaSecureChannelClosedInd();
     void   sendUaConnectionReleaseReq(UaConnectionId);
 
 private:
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
index 449cc53..95c684c 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
@@ -48,4 +48,9 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
     }
 }
 
+void UaServerSecureChannelEstablished::onExit(UaServerSecureChannel& fsm)
+{
+    fsm.sendUaSecureChannelClosedInd();
+}
+
 } // namespace app::ua::securechannel
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.hpp
index 2138d7a..a02fe7f 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.hpp
@@ -17,6 +17,8 @@ public:
     void onReceive(UaServerSecureChannel&, MsgUaConnectionReleaseInd const&) final;
     void onReceive(UaServerSecureChannel&, MsgUaSecuredMessageReceiveInd const&) final;
     void onReceive(UaServerSecureChannel&, MsgUaEncodedMessageSendReq const&) final;
+
+    void onExit(UaServerSecureChannel&) final;
 };
 
 } // namespace app::ua::securechannel
diff --git a/src/app/ua/service/UaService.cpp b/src/app/ua/service/UaService.cpp
index be93eda..60cedbf 100644
--- a/src/app/ua/service/UaService.cpp
+++ b/src/app/ua/service/UaService.cpp
@@ -59,4 +59,9 @@ void UaService::receive(MsgUaEncodedMessageReceiveInd const& msgReq)
     it->second->receive(msgReq.hdr, rx);
 }
 
+void UaService::receive(MsgUaSecureChannelClosedInd const& msg)
+{
+    sessionSrv.receive(msg);
+}
+
 } // namespace app::ua::service
diff --git a/src/app/ua/service/UaService.hpp b/src/app/ua/service/UaService.hpp
index 3d4ee95..b3e9ac3 100644
--- a/src/app/ua/service/UaService.hpp
+++ b/src/app/ua/service/UaService.hpp
@@ -10,6 +10,7 @@
 
 #include "MsgUaServiceConfigReq.hpp"
 #include "MsgUaEncodedMessageReceiveInd.hpp"
+#include "MsgUaSecureChannelClosedInd.hpp"
 
 namespace app::ua::service
 {
@@ -23,6 +24,7 @@ public:
 
     void receive(MsgUaServiceConfigReq const&);
     void receive(MsgUaEncodedMessageReceiveInd const&);
+    void receive(MsgUaSecureChannelClosedInd const&);
 
     void subscribeService(DataTypeId, UaServiceInterfacePtr&&);
 
diff --git a/src/app/ua/service/UaServiceComponent.cpp b/src/app/ua/service/UaServiceComponent.cpp
index 1445e37..8f74875 100644
--- a/src/app/ua/service/UaServiceComponent.cpp
+++ b/src/app/ua/service/UaServiceComponent.cpp
@@ -21,6 +21,7 @@ void UaServiceComponent::registerComponent()
           { MsgUaServiceInitReq::msgId(), [this](auto const& msg){ receive(static_cast<MsgUaServiceInitReq const&>(msg)); }}
         , { MsgUaServiceConfigReq::msgId(), [this](auto const& msg){ receive(static_cast<MsgUaServiceConfigReq const&>(msg)); }}
         , { MsgUaEncodedMessageReceiveInd::msgId(), [this](auto const& msg){ receive(static_cast<MsgUaEncodedMessageReceiveInd const&>(msg)); } }
+        , { MsgUaSecureChannelClosedInd::msgId(), [this](auto const& msg){ receive(static_cast<MsgUaSecureChannelClosedInd const&>(msg)); } }
         , { MsgUaServiceReleaseReq::msgId(), [this](auto const& msg){ receive(static_cast<MsgUaServiceReleaseReq const&>(msg)); }}
     });
 }
@@ -61,4 +62,12 @@ void UaServiceComponent::receive(MsgUaEncodedMessageReceiveInd const& req)
         service->receive(req);
 }
 
+void UaServiceComponent::receive(MsgUaSecureChannelClosedInd const& ind)
+{
+    LM(UASRV, LD, "UaSecureChannelClosedInd received");
+
+    if (service)
+        service->receive(ind);
+}
+
 } // namespace app::ua::service
diff --git a/src/app/ua/service/UaServiceComponent.hpp b/src/app/ua/service/UaServiceComponent.hpp
index 01dd54c..cc3edd9 100644
--- a/src/app/ua/service/UaServiceComponent.hpp
+++ b/src/app/ua/service/UaServiceComponent.hpp
@@ -9,6 +9,7 @@
 #include "MsgUaServiceConfigReq.hpp"
 #include "MsgUaServiceReleaseReq.hpp"
 #include "MsgUaEncodedMessageReceiveInd.hpp"
+#include "MsgUaSecureChannelClosedInd.hpp"
 
 #include <vector>
 #include <memory>
@@ -26,6 +27,7 @@ public:
     void receive(MsgUaServiceInitReq const&);
     void receive(MsgUaServiceConfigReq const&);
     void receive(MsgUaEncodedMessageReceiveInd const&);
+    void receive(MsgUaSecureChannelClosedInd const&);
     void receive(MsgUaServiceReleaseReq const&);
 
 private:
diff --git a/src/app/ua/service/session/UaSession.cpp b/src/app/ua/service/session/UaSession.cpp
index 16c3e8e..39e06d1 100644
--- a/src/app/ua/service/session/UaSession.cpp
+++ b/src/app/ua/service/session/UaSession.cpp
@@ -22,12 +22,7 @@ UaSession::~UaSession()
 
 bool UaSession::isOwnedBy(UaConnectionId connectionId_, UaSecureChannelId secureChannelId_) const
 {
-    if (not connectionId || *connectionId != connectionId_ || not secureChannelId || *secureChannelId != secureChannelId_)
-    {
-        LM(UASRV, LE, "Uid=%u, unexpected secure channel Id", sessionId);
-        return false;
-    }
-    return true;
+    return connectionId && *connectionId == connectionId_ && secureChannelId && *secureChannelId == secureChannelId_;
 }
 
 void UaSession::release()
diff --git a/src/app/ua/service/session/UaSessionActivated.cpp b/src/app/ua/service/session/UaSessionActivated.cpp
index 51027ee..bfba27f 100644
--- a/src/app/ua/service/session/UaSessionActivated.cpp
+++ b/src/app/ua/service/session/UaSessionActivated.cpp
@@ -21,4 +21,12 @@ void UaSessionActivated::onReceive(UaSession& fsm, UaEncodedMessageHdr const& hd
     fsm.receive(hdr, handler);
 }
 
+void UaSessionActivated::onReceive(UaSession& fsm, MsgUaSecureChannelClosedInd const& msg)
+{
+    if (fsm.isOwnedBy(msg.connectionId, msg.secureChannelId))
+    {
+        fsm.transit<UaSessionInit>();
+    }
+}
+
 } // namespace app::ua::service
diff --git a/src/app/ua/service/session/UaSessionActivated.hpp b/src/app/ua/service/session/UaSessionActivated.hpp
index 6f2a236..ab05aa2 100644
--- a/src/app/ua/service/session/UaSessionActivated.hpp
+++ b/src/app/ua/service/session/UaSessionActivated.hpp
@@ -17,6 +17,8 @@ public:
     void onReceive(UaSession&, UaEncodedMessageHdr const&, UaCloseSessionReq const&) final;
 
     void onReceive(UaSession&, UaEncodedMessageHdr const&, UaServiceHandler const&) final;
+
+    void onReceive(UaSession&, MsgUaSecureChannelClosedInd const&) final;
 };
 
 } // namespace app::ua::service
diff --git a/src/app/ua/service/session/UaSessionCreated.cpp b/src/app/ua/service/session/UaSessionCreated.cpp
index b50b1fe..1b1be46 100644
--- a/src/app/ua/service/session/UaSessionCreated.cpp
+++ b/src/app/ua/service/session/UaSessionCreated.cpp
@@ -18,4 +18,12 @@ void UaSessionCreated::onReceive(UaSession& fsm, UaEncodedMessageHdr const& hdr,
     fsm.transit<UaSessionInit>();
 }
 
+void UaSessionCreated::onReceive(UaSession& fsm, MsgUaSecureChannelClosedInd const& msg)
+{
+    if (fsm.isOwnedBy(msg.connectionId, msg.secureChannelId))
+    {
+        fsm.transit<UaSessionInit>();
+    }
+}
+
 } // namespace app::ua::service
diff --git a/src/app/ua/service/session/UaSessionCreated.hpp b/src/app/ua/service/session/UaSessionCreated.hpp
index bce8b2c..69d45b2 100644
--- a/src/app/ua/service/session/UaSessionCreated.hpp
+++ b/src/app/ua/service/session/UaSessionCreated.hpp
@@ -15,6 +15,8 @@ public:
     void onReceive(UaSession&, UaEncodedMessageHdr const&, UaActivateSessionReq const&) final;
 
     void onReceive(UaSession&, UaEncodedMessageHdr const&, UaCloseSessionReq const&) final;
+
+    void onReceive(UaSession&, MsgUaSecureChannelClosedInd const&) final;
 };
 
 } // namespace app::ua::service
diff --git a/src/app/ua/service/session/UaSessionService.cpp b/src/app/ua/service/session/UaSessionService.cpp
index 0c54f93..c17ef1f 100644
--- a/src/app/ua/service/session/UaSessionService.cpp
+++ b/src/app/ua/service/session/UaSessionService.cpp
@@ -29,6 +29,14 @@ void UaSessionService::release(UaSessionId uid)
     sessionPool.release(uid);
 }
 
+void UaSessionService::receive(MsgUaSecureChannelClosedInd const& msg)
+{
+    sessionPool.forEach([&](UaSession& session)
+    {
+        session.getState().onReceive(session, msg);
+    });
+}
+
 UaSession* UaSessionService::find(UaEncodedMessageHdr const& hdr, UaSessionAuthentificationToken const& token)
 {
     if (token.namespaceIndex != 0 || not std::holds_alternative<UInt32>(token.value))
@@ -37,7 +45,12 @@ UaSession* UaSessionService::find(UaEncodedMessageHdr const& hdr, UaSessionAuthe
         return nullptr;
     }
     auto& session = sessionPool.get(std::get<UInt32>(token.value));
-    return session.isOwnedBy(hdr.connectionId, hdr.secureChannelId) ? &session : nullptr;
+    if (not session.isOwnedBy(hdr.connectionId, hdr.secureChannelId))
+    {
+        LM(UASRV, LE, "Unexpected secure channel Id");
+        return nullptr;
+    }
+    return &session;
 }
 
 void UaSessionService::receive(UaEncodedMessageHdr const& hdr, UaCreateSessionReq const& msg)
diff --git a/src/app/ua/service/session/UaSessionService.hpp b/src/app/ua/service/session/UaSessionService.hpp
index 1304b6c..ef2fe96 100644
--- a/src/app/ua/service/session/UaSessionService.hpp
+++ b/src/app/ua/service/session/UaSessionService.hpp
@@ -9,6 +9,7 @@
 #include "UaSession.hpp"
 #include "UaEntityPool.hpp"
 #include "UaSessionId.hpp"
+#include "MsgUaSecureChannelClosedInd.hpp"
 
 namespace app::ua::service
 {
@@ -23,6 +24,7 @@ public:
 
     void subscribe(UaService&);
 
+    void receive(MsgUaSecureChannelClosedInd const&);
     void receive(UaEncodedMessageHdr const&, UaCreateSessionReq const&);
     void receive(UaEncodedMessageHdr const&, UaActivateSessionReq const&);
     void receive(UaEncodedMessageHdr const&, UaCloseSessionReq const&);
diff --git a/src/app/ua/service/session/UaSessionState.hpp b/src/app/ua/service/session/UaSessionState.hpp
index 9827b87..a43d344 100644
--- a/src/app/ua/service/session/UaSessionState.hpp
+++ b/src/app/ua/service/session/UaSessionState.hpp
@@ -6,6 +6,7 @@
 #include "UaActivateSessionReq.hpp"
 #include "UaServiceInterface.hpp"
 #include "UaServiceHandler.hpp"
+#include "MsgUaSecureChannelClosedInd.hpp"
 
 namespace app::ua::service
 {
@@ -27,6 +28,8 @@ public:
 
     virtual void onReceive(UaSession&, UaEncodedMessageHdr const&, UaServiceHandler const&) { LM(UASRV, LE, "Unexpected"); }
 
+    virtual void onReceive(UaSession&, MsgUaSecureChannelClosedInd const&) {}
+
     virtual void onEnter(UaSession&) {}
 
     virtual void onExit(UaSession&) {}
-- 
2.43.0


From a64cb1a9b71e89ebdf0a618f99623d4d027ff949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:11 +0000
Subject: [PATCH 55/78] fix: a secure channel is lost for good when a second
 one of its connection is refused

---
 src/app/ua/transport/server/UaTcpConnectionConnected.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index 27151c9..935ac5c 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -87,6 +87,7 @@ void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaSecuredMessa
 
 void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionReleaseReq const&)
 {
+    fsm.sendUaConnectionReleaseInd();
     fsm.transit<UaTcpConnectionInit>();
 }
 
-- 
2.43.0


From e93fffeb15f205f3283eceaf7f1ba210545e56a4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:11:04 +0000
Subject: [PATCH 56/78] fix: sending to an unknown component changes the
 component table

ReactorManager::send() is called by all reactor threads without a lock, but
looked the receiver up with operator[], which inserts an entry for a component
that is not deployed. Concurrent senders then corrupt the table.
---
 src/app/common/reactor/ReactorManager.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/app/common/reactor/ReactorManager.cpp b/src/app/common/reactor/ReactorManager.cpp
index a3454bd..d704ff8 100644
--- a/src/app/common/reactor/ReactorManager.cpp
+++ b/src/app/common/reactor/ReactorManager.cpp
@@ -22,13 +22,14 @@ ReactorManager::~ReactorManager()
 
 void ReactorManager::send(MsgInterface const& msg)
 {
-    auto& comp = components[msg.getCompId()];
-    if (nullptr == comp)
+    // called by all threads: the table must not be changed
+    auto it = components.find(msg.getCompId());
+    if (it == components.end())
     {
         LM(GEN, LE, "Can not find component, compId=%zu", msg.getCompId());
         return;
     }
-    comp->getReactor().send(msg);
+    it->second->getReactor().send(msg);
 }
 
 void ReactorManager::addComponent(std::unique_ptr<ComponentInterface> comp)
-- 
2.43.0


From 4e4523e82eef1a50bc28b54b695875e08075b6ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:11:04 +0000
Subject: [PATCH 57/78] fix: a reactor that was never started joins a thread
 that does not exist

~Thread() joined an uninitialised thread id when start() was not called or
could not create the thread, e.g. after a failure to set up the deployment.
---
 src/app/common/reactor/Thread.cpp | 6 ++++++
 src/app/common/reactor/Thread.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/app/common/reactor/Thread.cpp b/src/app/common/reactor/Thread.cpp
index 14d05be..a40afe8 100644
--- a/src/app/common/reactor/Thread.cpp
+++ b/src/app/common/reactor/Thread.cpp
@@ -23,6 +23,7 @@ static void* executer(void* args)
 Thread::Thread(uint64_t cpuMask_, ThreadHandler& handler_)
     : cpuMask(cpuMask_)
     , handler(handler_)
+    , started(false)
 {
     int result = pthread_attr_init(&attr);
     if (result != 0)
@@ -39,6 +40,10 @@ Thread::~Thread()
         LM(GEN, LE, "pthread_attr_destroy");
     }
 
+    if (not started)
+    {
+        return;
+    }
     result = pthread_join(tid, nullptr);
     if (result != 0)
     {
@@ -60,6 +65,7 @@ void Thread::start()
     {
         throw std::runtime_error("pthread_create");
     }
+    started = true;
 
     if (0 == cpuMask)
     {
diff --git a/src/app/common/reactor/Thread.hpp b/src/app/common/reactor/Thread.hpp
index b35edf8..532fead 100644
--- a/src/app/common/reactor/Thread.hpp
+++ b/src/app/common/reactor/Thread.hpp
@@ -21,6 +21,7 @@ public:
 private:
     uint64_t const cpuMask;
     ThreadHandler& handler;
+    bool started;
     pthread_t tid;
     pthread_attr_t attr;
 };
-- 
2.43.0


From 913a57d8d1b17148ac957b6f396a4aedb5d7bedb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:11:04 +0000
Subject: [PATCH 58/78] fix: components are destroyed while reactor threads
 still use them

ReactorManager::stop() only gave the threads 100 ms to notice the request, but
a loop waits up to 1 s for events and a handler may take longer. The components
and the members of the reactor were then destroyed under the running thread,
and without stop(), e.g. when start() throws, the threads were joined without
ever being told to end. Wake the loop up and wait for its end.
---
 src/app/common/reactor/Reactor.cpp        | 6 ++++++
 src/app/common/reactor/ReactorManager.cpp | 4 ++++
 src/app/common/reactor/Thread.cpp         | 8 +++++++-
 src/app/common/reactor/Thread.hpp         | 2 ++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index 370e804..410e0e9 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -39,6 +39,7 @@ Reactor::Reactor(Init const& init)
 
 Reactor::~Reactor()
 {
+    stop();
 }
 
 void Reactor::registerHandler(MsgId id, MsgHandler handler)
@@ -136,6 +137,11 @@ void Reactor::start()
 void Reactor::stop()
 {
     stopped = true;
+    event->send();
+    for (auto& thread : threads)
+    {
+        thread->join();
+    }
 }
 
 void Reactor::onFdEvent(uint64_t val)
diff --git a/src/app/common/reactor/ReactorManager.cpp b/src/app/common/reactor/ReactorManager.cpp
index d704ff8..c1d3eae 100644
--- a/src/app/common/reactor/ReactorManager.cpp
+++ b/src/app/common/reactor/ReactorManager.cpp
@@ -18,6 +18,10 @@ ReactorManager::ReactorManager()
 
 ReactorManager::~ReactorManager()
 {
+    for (auto& reactor : reactors)
+    {
+        reactor->stop();
+    }
 }
 
 void ReactorManager::send(MsgInterface const& msg)
diff --git a/src/app/common/reactor/Thread.cpp b/src/app/common/reactor/Thread.cpp
index a40afe8..45ab957 100644
--- a/src/app/common/reactor/Thread.cpp
+++ b/src/app/common/reactor/Thread.cpp
@@ -40,15 +40,21 @@ Thread::~Thread()
         LM(GEN, LE, "pthread_attr_destroy");
     }
 
+    join();
+}
+
+void Thread::join()
+{
     if (not started)
     {
         return;
     }
-    result = pthread_join(tid, nullptr);
+    int result = pthread_join(tid, nullptr);
     if (result != 0)
     {
         LM(GEN, LE, "pthread_join");
     }
+    started = false;
 }
 
 void Thread::start()
diff --git a/src/app/common/reactor/Thread.hpp b/src/app/common/reactor/Thread.hpp
index 532fead..0e73c5c 100644
--- a/src/app/common/reactor/Thread.hpp
+++ b/src/app/common/reactor/Thread.hpp
@@ -18,6 +18,8 @@ public:
 
     void start();
 
+    void join();
+
 private:
     uint64_t const cpuMask;
     ThreadHandler& handler;
-- 
2.43.0


From 9a1a1b34b0e116d1f5d5c2b7945722e51c41f67b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:11:22 +0000
Subject: [PATCH 59/78] fix: a stop request crashes the controller when it is
 not running

A stop request before the first start request, or a second one, dereferenced
the controllers that do not exist.
---
 src/app/controller/ControllerComponent.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/app/controller/ControllerComponent.cpp b/src/app/controller/ControllerComponent.cpp
index cd46b0c..a3d8fc0 100644
--- a/src/app/controller/ControllerComponent.cpp
+++ b/src/app/controller/ControllerComponent.cpp
@@ -49,9 +49,11 @@ void ControllerComponent::receive(MsgControllerStartReq const& req)
 void ControllerComponent::receive(MsgControllerStopReq const& req)
 {
     LM(CTRL, LD, "ControllerStopReq received");
-    modbus->receive(req);
+    if (modbus)
+        modbus->receive(req);
     modbus.reset();
-    opcUa->getState().onReceive(*opcUa, req);
+    if (opcUa)
+        opcUa->getState().onReceive(*opcUa, req);
     opcUa.reset();
 }
 
-- 
2.43.0


From b34483b709d75f1be841a120d9844a5d8f151a1b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:11:22 +0000
Subject: [PATCH 60/78] fix: a stop request during the modbus configuration
 releases nothing

The state ignored the request, so the modbus servers and clients stayed up
after the stop.
---
 src/app/controller/modbus/ModbusTestConfigure.cpp | 6 ++++++
 src/app/controller/modbus/ModbusTestConfigure.hpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestConfigure.cpp b/src/app/controller/modbus/ModbusTestConfigure.cpp
index 4e2b6cb..ef382bd 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.cpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.cpp
@@ -1,6 +1,7 @@
 #include "ModbusTestConfigure.hpp"
 #include "ModbusTestFsm.hpp"
 #include "ModbusTestController.hpp"
+#include "ModbusTestInit.hpp"
 #include "ModbusTestRun.hpp"
 
 namespace app::controller
@@ -17,4 +18,9 @@ void ModbusTestConfigure::onModbusConfigRspReceive(ModbusTestFsm& fsm, MsgModbus
     fsm.transit<ModbusTestRun>();
 }
 
+void ModbusTestConfigure::onStop(ModbusTestFsm& fsm)
+{
+    fsm.transit<ModbusTestInit>();
+}
+
 } // namespace app::controller
diff --git a/src/app/controller/modbus/ModbusTestConfigure.hpp b/src/app/controller/modbus/ModbusTestConfigure.hpp
index 2a90bb8..2fc21af 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.hpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.hpp
@@ -16,6 +16,8 @@ public:
 
     void onModbusConfigRspReceive(ModbusTestFsm&, MsgModbusConfigRsp const&) final;
 
+    void onStop(ModbusTestFsm&) final;
+
 private:
     /* data */
 };
-- 
2.43.0


From f032ace25729cf4c574ee63a669f1b853c93a5ee Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:11:22 +0000
Subject: [PATCH 61/78] fix: responses of the UA channel and service components
 never reach the controller

They were addressed to the secure channel component, which has no handler for
them, so that the controller never configured these components.
---
 src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp  | 2 +-
 src/app/common/msg/MsgUaSecureChannelInitRsp.hpp    | 2 +-
 src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp | 2 +-
 src/app/common/msg/MsgUaServiceConfigRsp.hpp        | 2 +-
 src/app/common/msg/MsgUaServiceInitRsp.hpp          | 2 +-
 src/app/common/msg/MsgUaServiceReleaseRsp.hpp       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp b/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
index 95d09c2..820267b 100644
--- a/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelConfigRsp : public reactor::MsgBase<MsgUaSecureChannelConfigRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelConfigRsp>
+struct MsgUaSecureChannelConfigRsp : public reactor::MsgBase<MsgUaSecureChannelConfigRsp, CompIds::compController, MsgIds::uaSecureChannelConfigRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp b/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
index 7ea60c3..fcc92e8 100644
--- a/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelInitRsp : public reactor::MsgBase<MsgUaSecureChannelInitRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelInitRsp>
+struct MsgUaSecureChannelInitRsp : public reactor::MsgBase<MsgUaSecureChannelInitRsp, CompIds::compController, MsgIds::uaSecureChannelInitRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp b/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
index a71c126..1fde3df 100644
--- a/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelReleaseRsp : public reactor::MsgBase<MsgUaSecureChannelReleaseRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelReleaseRsp>
+struct MsgUaSecureChannelReleaseRsp : public reactor::MsgBase<MsgUaSecureChannelReleaseRsp, CompIds::compController, MsgIds::uaSecureChannelReleaseRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceConfigRsp.hpp b/src/app/common/msg/MsgUaServiceConfigRsp.hpp
index b325533..119a477 100644
--- a/src/app/common/msg/MsgUaServiceConfigRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceConfigRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceConfigRsp : public reactor::MsgBase<MsgUaServiceConfigRsp, CompIds::compUaSecChannel, MsgIds::uaServiceConfigRsp>
+struct MsgUaServiceConfigRsp : public reactor::MsgBase<MsgUaServiceConfigRsp, CompIds::compController, MsgIds::uaServiceConfigRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceInitRsp.hpp b/src/app/common/msg/MsgUaServiceInitRsp.hpp
index 928aada..92c45c9 100644
--- a/src/app/common/msg/MsgUaServiceInitRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceInitRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceInitRsp : public reactor::MsgBase<MsgUaServiceInitRsp, CompIds::compUaSecChannel, MsgIds::uaServiceInitRsp>
+struct MsgUaServiceInitRsp : public reactor::MsgBase<MsgUaServiceInitRsp, CompIds::compController, MsgIds::uaServiceInitRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceReleaseRsp.hpp b/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
index bdacea3..412c9ba 100644
--- a/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceReleaseRsp : public reactor::MsgBase<MsgUaServiceReleaseRsp, CompIds::compUaSecChannel, MsgIds::uaServiceReleaseRsp>
+struct MsgUaServiceReleaseRsp : public reactor::MsgBase<MsgUaServiceReleaseRsp, CompIds::compController, MsgIds::uaServiceReleaseRsp>
 {
 };
 
-- 
2.43.0


From 45a1a48f330fea3f6603487dfced2db2b017ef03 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:11:58 +0000
Subject: [PATCH 62/78] fix: modbus does not answer a configuration request
 when a server can not listen

The exception of the failed item left the handler: the remaining items were not
configured and no response was sent, so that the controller waited for ever.
Items that could not be configured were otherwise reported as successful.
---
 src/app/modbus/Modbus.cpp | 69 ++++++++++++++++++++++-----------------
 src/app/modbus/Modbus.hpp |  3 ++
 2 files changed, 42 insertions(+), 30 deletions(-)

diff --git a/src/app/modbus/Modbus.cpp b/src/app/modbus/Modbus.cpp
index c0e1e62..47ef4b3 100644
--- a/src/app/modbus/Modbus.cpp
+++ b/src/app/modbus/Modbus.cpp
@@ -19,47 +19,56 @@ Modbus::~Modbus()
 
 void Modbus::receive(MsgModbusConfigReq const& req)
 {
+    reactor::MsgStore<MsgModbusConfigRsp> msgStore;
+    MsgModbusConfigRsp& rsp = msgStore.getMsg();
+    rsp.numItems = req.numItems;
     for (unsigned i = 0; i < req.numItems; ++i)
     {
         ModbusConfig const& item = req.items[i];
-        switch (item.mode)
+        rsp.items[i].id = item.id;
+        try
         {
-        case ModbusConfig::Mode::server:
-        {
-            if (item.id >= servers.size())
-            {
-                LM(MODBUS, LE, "Invalid serverId, %u", item.id);
-                continue;
-            }
-            ModbusServer::Init init{item.id, item.addr};
-            servers[item.id] = std::make_unique<ModbusServer>(init);
-            servers[item.id]->start();
+            rsp.items[i].status = configure(item);
         }
-        break;
-        case ModbusConfig::Mode::client:
+        catch (std::exception const& e)
         {
-            if (item.id >= clients.size())
-            {
-                LM(MODBUS, LE, "Invalid clientId, %u", item.id);
-                continue;
-            }
-            ModbusClient::Init init{item.id, item.addr};
-            clients[item.id] = std::make_unique<ModbusClient>(init);
-            clients[item.id]->start();
-        }
-        break;
+            LM(MODBUS, LE, "Can not configure id %u: %s", item.id, e.what());
+            rsp.items[i].status = MsgStatus::error;
         }
     }
+    Sender::sendMsg(msgStore);
+}
 
-    reactor::MsgStore<MsgModbusConfigRsp> msgStore;
-    MsgModbusConfigRsp& rsp = msgStore.getMsg();
-    rsp.numItems = req.numItems;
-    for (unsigned i = 0; i < req.numItems; ++i)
+MsgStatus Modbus::configure(ModbusConfig const& item)
+{
+    switch (item.mode)
+    {
+    case ModbusConfig::Mode::server:
     {
-        rsp.items[i].id = req.items[i].id;
-        rsp.items[i].status = MsgStatus::success;
+        if (item.id >= servers.size())
+        {
+            LM(MODBUS, LE, "Invalid serverId, %u", item.id);
+            return MsgStatus::error;
+        }
+        ModbusServer::Init init{item.id, item.addr};
+        servers[item.id] = std::make_unique<ModbusServer>(init);
+        servers[item.id]->start();
+        return MsgStatus::success;
     }
-    Sender::sendMsg(msgStore);
+    case ModbusConfig::Mode::client:
+    {
+        if (item.id >= clients.size())
+        {
+            LM(MODBUS, LE, "Invalid clientId, %u", item.id);
+            return MsgStatus::error;
+        }
+        ModbusClient::Init init{item.id, item.addr};
+        clients[item.id] = std::make_unique<ModbusClient>(init);
+        clients[item.id]->start();
+        return MsgStatus::success;
+    }
+    }
+    return MsgStatus::error;
 }
 
 void Modbus::receive(MsgModbusClientAduReq const& req)
diff --git a/src/app/modbus/Modbus.hpp b/src/app/modbus/Modbus.hpp
index 2a95b47..c038878 100644
--- a/src/app/modbus/Modbus.hpp
+++ b/src/app/modbus/Modbus.hpp
@@ -4,6 +4,7 @@
 #include <memory>
 
 #include "MsgModbusConfigReq.hpp"
+#include "MsgModbusConfigRsp.hpp"
 #include "MsgModbusClientAduReq.hpp"
 #include "MsgModbusAduRsp.hpp"
 
@@ -32,6 +33,8 @@ public:
     void receive(MsgModbusAduRsp const&);
 
 private:
+    MsgStatus configure(ModbusConfig const&);
+
     std::vector<std::unique_ptr<ModbusServer>> servers;
     std::vector<std::unique_ptr<ModbusClient>> clients;
 };
-- 
2.43.0


From 51b685d7c0d03a116a17fec71b84d32e0312f8e5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:11:58 +0000
Subject: [PATCH 63/78] fix: modbus requests from the network access memory
 outside the controller's data

The transaction id and the register range of a request were used as indices
without a check.
---
 .../modbus/ModbusTestController.cpp           | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestController.cpp b/src/app/controller/modbus/ModbusTestController.cpp
index 6997c8b..348360c 100644
--- a/src/app/controller/modbus/ModbusTestController.cpp
+++ b/src/app/controller/modbus/ModbusTestController.cpp
@@ -341,6 +341,26 @@ void ModbusTestController::process(MsgModbusConfigRsp const&)
 
 Result ModbusTestController::process(MsgModbusAduReq const& req)
 {
+    // the request comes from the network
+    std::size_t const begin = req.startItem * 2;
+    std::size_t const length = req.func == ModbusFunction::readHoldingRegisters || req.func == ModbusFunction::readInputRegisters
+        ? req.numItems * 2
+        : req.numBytes;
+    if (req.transactId >= testCases.size() || begin + length > testCases[req.transactId].rsp.data.size())
+    {
+        LM(CTRL, LE, "Request is out of range, transactId-%u, startItem-%u, numItems-%u", req.transactId, req.startItem, req.numItems);
+        reactor::MsgStore<MsgModbusAduRsp> msgStore;
+        MsgModbusAduRsp& rsp = msgStore.getMsg();
+        rsp.serverId = req.serverId;
+        rsp.sessionId = req.sessionId;
+        rsp.transactId = req.transactId;
+        rsp.error = ModbusError::illegalDataAddress;
+        rsp.status = MsgStatus::success;
+        rsp.numBytes = 0;
+        Sender::sendMsg(msgStore);
+        return Result::done;
+    }
+
     auto& it = testCases[req.transactId];
 
     switch (req.func)
-- 
2.43.0


From f0082f3cd68d023e454fa3f06f462912d9d49aa1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:11:58 +0000
Subject: [PATCH 64/78] fix: a server can not be restarted for a minute after
 it closed a connection

The closed connection occupies the port in TIME_WAIT, and bind() failed with
EADDRINUSE because SO_REUSEADDR was not set.
---
 src/app/common/reactor/Acceptor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index 78c897f..b95872f 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -50,6 +50,14 @@ void Acceptor::listen(LinkAddr const& address)
     {
         throw std::runtime_error("socket");
     }
+    // connections of a previous run that linger in TIME_WAIT must not prevent the restart
+    int const reuse = 1;
+    if (-1 == ::setsockopt(sfd, SOL_SOCKET, SO_REUSEADDR, &reuse, sizeof(reuse)))
+    {
+        ::close(sfd);
+        sfd = -1;
+        throw std::runtime_error("setsockopt");
+    }
     struct sockaddr_in addr;
     addr.sin_family = AF_INET;
     addr.sin_port = htons(ipv4port(address));
-- 
2.43.0


From 8f89a9d33906044cf37892f3c0cf7ec313900d03 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:11:58 +0000
Subject: [PATCH 65/78] fix: an accepted descriptor leaks when the link is in
 use

Link::setFileDescriptor() throws for a link that is connected already.
---
 src/app/common/reactor/Acceptor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index b95872f..56bad43 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -137,7 +137,15 @@ void Acceptor::accept(LinkInterface& link)
         throw std::runtime_error("fcntl");
     }
 
-    link.setFileDescriptor(fd);
+    try
+    {
+        link.setFileDescriptor(fd);
+    }
+    catch (...)
+    {
+        ::close(fd);
+        throw;
+    }
 
     if (-1 == epoll.add(link, EPOLLIN | EPOLLET))
     {
-- 
2.43.0


From b209ae2ce95d1fd9dba146ae41ebf9d2a8d3b8f4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:12:18 +0000
Subject: [PATCH 66/78] fix: a handler is destroyed while it runs when it
 releases its own timer or link

Releasing clears the stored handler, and with it the captured variables that
the running handler still uses.
---
 src/app/common/reactor/Acceptor.cpp |  4 +++-
 src/app/common/reactor/Link.cpp     | 12 +++++++-----
 src/app/common/reactor/Timer.cpp    |  6 ++++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index 56bad43..5294d8b 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -117,7 +117,9 @@ void Acceptor::onFileDescriptorEvent(int)
         LM(GEN, LW, "Handler is undefined");
         return;
     }
-    handler();
+    // the handler may release the acceptor
+    AcceptorHandler const callee = handler;
+    callee();
 }
 
 void Acceptor::accept(LinkInterface& link)
diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index ba5d440..f50420f 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -155,10 +155,12 @@ void Link::onFileDescriptorEvent(int events)
         LM(GEN, LE, "Handler is undefined");
         return;
     }
+    // the handler may release the link
+    LinkHandler const callee = handler;
     if (events & (EPOLLERR | EPOLLHUP))
     {
         close();
-        handler(LinkEvent::error);
+        callee(LinkEvent::error);
     }
     else if (events & EPOLLOUT)
     {
@@ -167,21 +169,21 @@ void Link::onFileDescriptorEvent(int events)
         {
             LM(GEN, LE, "fd mod");
             close();
-            handler(LinkEvent::error);
+            callee(LinkEvent::error);
         }
         else
         {
-            handler(LinkEvent::connected);
+            callee(LinkEvent::connected);
         }
     }
     else if (events & EPOLLIN)
     {
-        handler(LinkEvent::data);
+        callee(LinkEvent::data);
     }
     else
     {
         close();
-        handler(LinkEvent::error);
+        callee(LinkEvent::error);
     }
 }
 
diff --git a/src/app/common/reactor/Timer.cpp b/src/app/common/reactor/Timer.cpp
index 6c8a563..0609dfe 100644
--- a/src/app/common/reactor/Timer.cpp
+++ b/src/app/common/reactor/Timer.cpp
@@ -126,9 +126,11 @@ void Timer::onFileDescriptorEvent(int)
         LM(GEN, LE, "Timer(%d) read rc: %d, errno: %d", fd, rc, errno);
         throw std::runtime_error("timer read");
     }
-    if (handler)
+    // the handler may release the timer
+    TimerHandler const callee = handler;
+    if (callee)
     {
-        handler();
+        callee();
     }
 }
 
-- 
2.43.0


From e40726283450de5c2f29738a29c3079dd8847bbf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:03:57 +0000
Subject: [PATCH 67/78] fix: a failing link is not reported by an OPC UA
 connection behind the connect phase

---
 .../ua/protocols/connection/ClientConnectionConnected.cpp  | 7 +++++++
 .../ua/protocols/connection/ClientConnectionConnected.hpp  | 2 ++
 .../ua/protocols/connection/ClientConnectionReceiveAck.cpp | 7 +++++++
 .../ua/protocols/connection/ClientConnectionReceiveAck.hpp | 2 ++
 .../ua/protocols/connection/ServerConnectionConnected.cpp  | 7 +++++++
 .../ua/protocols/connection/ServerConnectionConnected.hpp  | 2 ++
 .../protocols/connection/ServerConnectionReceiveHello.cpp  | 7 +++++++
 .../protocols/connection/ServerConnectionReceiveHello.hpp  | 2 ++
 8 files changed, 36 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index 0353470..4159ec4 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -40,6 +40,13 @@ void ClientConnectionConnected::onClose(ClientConnection& fsm)
     fsm.transit<ClientConnectionInit>();
 }
 
+void ClientConnectionConnected::onError(ClientConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.notifyError();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionConnected::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
index 7429905..5a98495 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
@@ -18,6 +18,8 @@ public:
 
     void onClose(ClientConnection&) final;
 
+    void onError(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index 8bc6483..9529372 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -33,6 +33,13 @@ void ClientConnectionReceiveAck::onDataReceived(ClientConnection& fsm)
     }
 }
 
+void ClientConnectionReceiveAck::onError(ClientConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.notifyError();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionReceiveAck::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
index 3e11196..5dcb312 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ClientConnection&) final;
 
+    void onError(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index a48e05f..5ef7dab 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -40,6 +40,13 @@ void ServerConnectionConnected::onClose(ServerConnection& fsm)
     fsm.transit<ServerConnectionInit>();
 }
 
+void ServerConnectionConnected::onError(ServerConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.notifyError();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionConnected::onTimer(ServerConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
index 4e8cdec..16af096 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
@@ -18,6 +18,8 @@ public:
 
     void onClose(ServerConnection&) final;
 
+    void onError(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index d000581..acf45da 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -52,6 +52,13 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
     }
 }
 
+void ServerConnectionReceiveHello::onError(ServerConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.notifyError();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionReceiveHello::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
index 827c39b..e45c686 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ServerConnection&) final;
 
+    void onError(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
-- 
2.43.0


From 6bc32e2ea3142ba614c812b597b45df8e0fd5542 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:03:58 +0000
Subject: [PATCH 68/78] fix: close of an OPC UA connection is ignored while it
 is being established

---
 .../ua/protocols/connection/ClientConnectionConnecting.cpp  | 6 ++++++
 .../ua/protocols/connection/ClientConnectionConnecting.hpp  | 2 ++
 .../ua/protocols/connection/ClientConnectionReceiveAck.cpp  | 6 ++++++
 .../ua/protocols/connection/ClientConnectionReceiveAck.hpp  | 2 ++
 .../ua/protocols/connection/ServerConnectionConnecting.cpp  | 6 ++++++
 .../ua/protocols/connection/ServerConnectionConnecting.hpp  | 2 ++
 .../protocols/connection/ServerConnectionReceiveHello.cpp   | 6 ++++++
 .../protocols/connection/ServerConnectionReceiveHello.hpp   | 2 ++
 8 files changed, 32 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
index c4a38e6..693c816 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
@@ -44,6 +44,12 @@ void ClientConnectionConnecting::onError(ClientConnection& fsm)
     fsm.transit<ClientConnectionInit>();
 }
 
+void ClientConnectionConnecting::onClose(ClientConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionConnecting::onTimer(ClientConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp
index b2690a3..24731d6 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.hpp
@@ -18,6 +18,8 @@ public:
 
     void onConnected(ClientConnection&) final;
 
+    void onClose(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index 9529372..5a1f08d 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -40,6 +40,12 @@ void ClientConnectionReceiveAck::onError(ClientConnection& fsm)
     fsm.transit<ClientConnectionInit>();
 }
 
+void ClientConnectionReceiveAck::onClose(ClientConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionReceiveAck::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
index 5dcb312..9628454 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
@@ -18,6 +18,8 @@ public:
 
     void onError(ClientConnection&) final;
 
+    void onClose(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
index 7390b3c..e0d4de2 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
@@ -43,6 +43,12 @@ void ServerConnectionConnecting::onError(ServerConnection& fsm)
     fsm.transit<ServerConnectionInit>();
 }
 
+void ServerConnectionConnecting::onClose(ServerConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionConnecting::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp
index dcb1a11..527d58d 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.hpp
@@ -18,6 +18,8 @@ public:
 
     void onConnected(ServerConnection&) final;
 
+    void onClose(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index acf45da..2473c49 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -59,6 +59,12 @@ void ServerConnectionReceiveHello::onError(ServerConnection& fsm)
     fsm.transit<ServerConnectionInit>();
 }
 
+void ServerConnectionReceiveHello::onClose(ServerConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionReceiveHello::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
index e45c686..02db3f5 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
@@ -18,6 +18,8 @@ public:
 
     void onError(ServerConnection&) final;
 
+    void onClose(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
-- 
2.43.0


From 7bc0228e396f9027b6e096d4975a71358ead006c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:03:58 +0000
Subject: [PATCH 69/78] fix: the handler of an OPC UA connection can not close
 or reconnect it

---
 .../ua/protocols/connection/ClientConnectionConnected.cpp | 8 ++++----
 .../protocols/connection/ClientConnectionConnecting.cpp   | 6 +++---
 .../protocols/connection/ClientConnectionReceiveAck.cpp   | 6 +++---
 .../common/ua/protocols/connection/OpcUaConnection.cpp    | 5 +++++
 .../ua/protocols/connection/ServerConnectionConnected.cpp | 8 ++++----
 .../protocols/connection/ServerConnectionConnecting.cpp   | 6 +++---
 .../protocols/connection/ServerConnectionReceiveHello.cpp | 8 ++++----
 7 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index 4159ec4..b959886 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ClientConnectionConnected::onEnter(ClientConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ClientConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ClientConnectionConnected::onDataReceived(ClientConnection& fsm)
@@ -27,8 +27,8 @@ void ClientConnectionConnected::onDataReceived(ClientConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ClientConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -43,15 +43,15 @@ void ClientConnectionConnected::onClose(ClientConnection& fsm)
 void ClientConnectionConnected::onError(ClientConnection& fsm)
 {
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionConnected::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
-    fsm.notifyClosed();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyClosed();
 }
 
 void ClientConnectionConnected::onExit(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
index 693c816..27b149a 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
@@ -30,8 +30,8 @@ void ClientConnectionConnecting::onConnected(ClientConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ClientConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -40,8 +40,8 @@ void ClientConnectionConnecting::onConnected(ClientConnection& fsm)
 void ClientConnectionConnecting::onError(ClientConnection& fsm)
 {
     LM(UA, LW, "onError");
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionConnecting::onClose(ClientConnection& fsm)
@@ -54,8 +54,8 @@ void ClientConnectionConnecting::onTimer(ClientConnection& fsm)
 {
     LM(UA, LW, "onTimer");
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionConnecting::onExit(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index 5a1f08d..50333b6 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -26,8 +26,8 @@ void ClientConnectionReceiveAck::onDataReceived(ClientConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ClientConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -36,8 +36,8 @@ void ClientConnectionReceiveAck::onDataReceived(ClientConnection& fsm)
 void ClientConnectionReceiveAck::onError(ClientConnection& fsm)
 {
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionReceiveAck::onClose(ClientConnection& fsm)
@@ -49,8 +49,8 @@ void ClientConnectionReceiveAck::onClose(ClientConnection& fsm)
 void ClientConnectionReceiveAck::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ClientConnectionInit>();
+    fsm.notifyError();
 }
 
 void ClientConnectionReceiveAck::onExit(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
index b98e635..33b988c 100644
--- a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
+++ b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
@@ -54,6 +54,11 @@ void OpcUaConnection::closeLink()
 
 OpcUaConnection::Result OpcUaConnection::send(OpcUaSduBuffer const& tx)
 {
+    if (not link)
+    {
+        LM(UA, LI, "send without a link");
+        return Result::error;
+    }
     int rc = link->send(tx.begin(), tx.size());
     if (rc <= 0)
     {
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index 5ef7dab..d4f5016 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ServerConnectionConnected::onEnter(ServerConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ServerConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ServerConnectionConnected::onDataReceived(ServerConnection& fsm)
@@ -27,8 +27,8 @@ void ServerConnectionConnected::onDataReceived(ServerConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ServerConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -43,15 +43,15 @@ void ServerConnectionConnected::onClose(ServerConnection& fsm)
 void ServerConnectionConnected::onError(ServerConnection& fsm)
 {
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionConnected::onTimer(ServerConnection& fsm)
 {
     fsm.closeLink();
-    fsm.notifyClosed();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyClosed();
 }
 
 void ServerConnectionConnected::onExit(ServerConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
index e0d4de2..6c83683 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
@@ -29,8 +29,8 @@ void ServerConnectionConnecting::onConnected(ServerConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ServerConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -39,8 +39,8 @@ void ServerConnectionConnecting::onConnected(ServerConnection& fsm)
 void ServerConnectionConnecting::onError(ServerConnection& fsm)
 {
     LM(UA, LW, "onError");
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionConnecting::onClose(ServerConnection& fsm)
@@ -53,8 +53,8 @@ void ServerConnectionConnecting::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionConnecting::onExit(ServerConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index 2473c49..ece7a10 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -35,8 +35,8 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
         case OpcUaConnection::Result::error:
         {
             fsm.closeLink();
-            fsm.notifyError();
             fsm.transit<ServerConnectionInit>();
+            fsm.notifyError();
         }
         break;
         }
@@ -45,8 +45,8 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
     case OpcUaConnection::Result::error:
     {
         fsm.closeLink();
-        fsm.notifyError();
         fsm.transit<ServerConnectionInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -55,8 +55,8 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
 void ServerConnectionReceiveHello::onError(ServerConnection& fsm)
 {
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionReceiveHello::onClose(ServerConnection& fsm)
@@ -69,8 +69,8 @@ void ServerConnectionReceiveHello::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
     fsm.closeLink();
-    fsm.notifyError();
     fsm.transit<ServerConnectionInit>();
+    fsm.notifyError();
 }
 
 void ServerConnectionReceiveHello::onExit(ServerConnection& fsm)
-- 
2.43.0


From d58181aba8a7a0a38950c90f61aea84ed8932cfe Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:03:58 +0000
Subject: [PATCH 70/78] fix: a malformed Hello or Acknowledge leaves an OPC UA
 connection in the handshake

---
 .../protocols/connection/ClientConnection.cpp | 22 +++++++++++++++----
 .../protocols/connection/ServerConnection.cpp | 22 +++++++++++++++----
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnection.cpp b/src/app/common/ua/protocols/connection/ClientConnection.cpp
index f5f274a..30e5139 100644
--- a/src/app/common/ua/protocols/connection/ClientConnection.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnection.cpp
@@ -74,11 +74,25 @@ OpcUaConnection::Result ClientConnection::receiveAck()
 
     }
 
-    OpcUaBinaryCodec codec(getRxBuffer());
+    try
+    {
+        OpcUaBinaryCodec codec(getRxBuffer());
 
-    MessageHeader hdr;
-    AcknowledgeMessage hello;
-    codec >> hdr >> hello;
+        MessageHeader hdr;
+        AcknowledgeMessage hello;
+        codec >> hdr >> hello;
+
+        if (hdr.isFinal != 'F')
+        {
+            LM(UA, LW, "ClientConnection-0, unexpected chunk type");
+            return OpcUaConnection::Result::error;
+        }
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LW, "ClientConnection-0, invalid AcknowledgeMessage: %s", e.what());
+        return OpcUaConnection::Result::error;
+    }
 
     LM(UA, LD, "ClientConnection-0, received AcknowledgeMessage");
 
diff --git a/src/app/common/ua/protocols/connection/ServerConnection.cpp b/src/app/common/ua/protocols/connection/ServerConnection.cpp
index 3c91233..919652f 100644
--- a/src/app/common/ua/protocols/connection/ServerConnection.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnection.cpp
@@ -99,11 +99,25 @@ OpcUaConnection::Result ServerConnection::receiveHello()
         return Result::error;
     }
 
-    OpcUaBinaryCodec codec(getRxBuffer());
+    try
+    {
+        OpcUaBinaryCodec codec(getRxBuffer());
 
-    MessageHeader hdr;
-    HelloMessage hello;
-    codec >> hdr >> hello;
+        MessageHeader hdr;
+        HelloMessage hello;
+        codec >> hdr >> hello;
+
+        if (hdr.isFinal != 'F')
+        {
+            LM(UA, LW, "ServerConnection-0, unexpected chunk type");
+            return OpcUaConnection::Result::error;
+        }
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LW, "ServerConnection-0, invalid HelloMessage: %s", e.what());
+        return OpcUaConnection::Result::error;
+    }
 
     return OpcUaConnection::Result::done;
 }
-- 
2.43.0


From 892270863c70246061d5dd45931d93bc0fca0110 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:03:58 +0000
Subject: [PATCH 71/78] fix: an OPC UA connection hangs when the link can not
 be connected

---
 .../ua/protocols/connection/ClientConnectionInit.cpp   | 10 +++++++++-
 .../ua/protocols/connection/ServerConnectionInit.cpp   | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp b/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
index b02911e..49a51fb 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionInit.cpp
@@ -15,7 +15,15 @@ void ClientConnectionInit::onConnect(ClientConnection& fsm, reactor::LinkAddr co
     fsm.setLinkAddr(addr);
     fsm.allocLink();
     fsm.allocTimer();
-    fsm.transit<ClientConnectionConnecting>();
+    try
+    {
+        fsm.transit<ClientConnectionConnecting>();
+    }
+    catch (...)
+    {
+        fsm.transit<ClientConnectionInit>();
+        throw;
+    }
 }
 
 void ClientConnectionInit::onExit(ClientConnection&)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
index e1b0626..8d48fac 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
@@ -16,7 +16,15 @@ void ServerConnectionInit::onConnect(ServerConnection& fsm, reactor::LinkAddr co
     fsm.setLinkAddr(addr);
     fsm.allocLink();
     fsm.allocTimer();
-    fsm.transit<ServerConnectionConnecting>();
+    try
+    {
+        fsm.transit<ServerConnectionConnecting>();
+    }
+    catch (...)
+    {
+        fsm.transit<ServerConnectionInit>();
+        throw;
+    }
 }
 
 void ServerConnectionInit::onAccept(ServerConnection& fsm, reactor::LinkPtr& link)
-- 
2.43.0


From fd6d3474f3231585808f0b501edb987f66d55c09 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:03:58 +0000
Subject: [PATCH 72/78] fix: OPC UA messages that arrive together break the
 connection

---
 .../connection/ClientConnectionConnected.cpp  | 48 +++++++-----
 .../protocols/connection/OpcUaConnection.cpp  | 76 ++++++++++---------
 .../protocols/connection/OpcUaConnection.hpp  |  7 ++
 .../connection/ServerConnectionConnected.cpp  | 48 +++++++-----
 4 files changed, 110 insertions(+), 69 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index b959886..1b5d63f 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -8,29 +8,36 @@ namespace app::ua
 void ClientConnectionConnected::onEnter(ClientConnection& fsm)
 {
     fsm.receivePreaction();
-    fsm.startTimer(ClientConnection::establishTimeout);
+    fsm.continueReceive();
     fsm.notifyConnected();
 }
 
 void ClientConnectionConnected::onDataReceived(ClientConnection& fsm)
 {
-    switch (fsm.receive())
+    for (;;)
     {
-    case OpcUaConnection::Result::noerror:
-    break;
-    case OpcUaConnection::Result::done:
-    {
-        fsm.notifyDataReceived();
-        fsm.receivePreaction();
-    }
-    break;
-    case OpcUaConnection::Result::error:
-    {
-        fsm.closeLink();
-        fsm.transit<ClientConnectionInit>();
-        fsm.notifyError();
-    }
-    break;
+        switch (fsm.receive())
+        {
+        case OpcUaConnection::Result::noerror:
+            return;
+        case OpcUaConnection::Result::done:
+        {
+            fsm.notifyDataReceived();
+            if (&fsm.getState() != this)
+            {
+                return;
+            }
+            fsm.receivePreaction();
+        }
+        break;
+        case OpcUaConnection::Result::error:
+        {
+            fsm.closeLink();
+            fsm.transit<ClientConnectionInit>();
+            fsm.notifyError();
+        }
+        return;
+        }
     }
 }
 
@@ -49,6 +56,13 @@ void ClientConnectionConnected::onError(ClientConnection& fsm)
 
 void ClientConnectionConnected::onTimer(ClientConnection& fsm)
 {
+    if (fsm.takeReceivePending())
+    {
+        // input behind the handshake is not signalled again
+        fsm.startTimer(ClientConnection::establishTimeout);
+        onDataReceived(fsm);
+        return;
+    }
     fsm.closeLink();
     fsm.transit<ClientConnectionInit>();
     fsm.notifyClosed();
diff --git a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
index 33b988c..b8a88a0 100644
--- a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
+++ b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
@@ -2,6 +2,8 @@
 #include "MessageHeader.hpp"
 #include "Logger.hpp"
 
+#include <utility>
+
 namespace app::ua
 {
 
@@ -73,46 +75,50 @@ void OpcUaConnection::receivePreaction()
     rx.reset();
 }
 
-OpcUaConnection::Result OpcUaConnection::receive()
+void OpcUaConnection::continueReceive()
 {
-    // TODO REMOVE MN
-    if (rx.size() > 1024)
-    {
-        LM(UA, LW, "Received packet is invalid");
-        return Result::error;
-    }
-
-    auto const& result = link->receive(rx.end(), rx.capacity());
-    switch (result.status)
-    {
-    case reactor::LinkResult::ok:
-    break;
-    case reactor::LinkResult::na:
-        return Result::noerror;
-    case reactor::LinkResult::closed:
-    case reactor::LinkResult::error:
-        return Result::error;
-    }
-
-    rx.seek(result.len);
-
-    if (rx.size() < messageHeaderSize)
-    {
-        return Result::noerror;
-    }
+    receivePending = true;
+    startTimer(continueDelay);
+}
 
-    if (rx.size() < getMsgSizeFromHdr(rx.begin()))
-    {
-        return Result::noerror;
-    }
+bool OpcUaConnection::takeReceivePending()
+{
+    return std::exchange(receivePending, false);
+}
 
-    if (rx.size() != getMsgSizeFromHdr(rx.begin()))
+OpcUaConnection::Result OpcUaConnection::receive()
+{
+    for (;;)
     {
-        LM(UA, LW, "Packet has invalid size");
-        return Result::error;
+        std::uint32_t msgSize = messageHeaderSize;
+        if (rx.size() >= messageHeaderSize)
+        {
+            msgSize = getMsgSizeFromHdr(rx.begin());
+            if (msgSize < rx.size() || msgSize - rx.size() > rx.capacity())
+            {
+                LM(UA, LW, "Packet has invalid size");
+                return Result::error;
+            }
+            if (rx.size() == msgSize)
+            {
+                return Result::done;
+            }
+        }
+
+        // not more than the message: the rest belongs to the next one
+        auto const& result = link->receive(rx.end(), msgSize - rx.size());
+        switch (result.status)
+        {
+        case reactor::LinkResult::ok:
+            rx.seek(result.len);
+        break;
+        case reactor::LinkResult::na:
+            return Result::noerror;
+        case reactor::LinkResult::closed:
+        case reactor::LinkResult::error:
+            return Result::error;
+        }
     }
-
-    return Result::done;
 }
 
 void OpcUaConnection::startTimer(long timeout)
diff --git a/src/app/common/ua/protocols/connection/OpcUaConnection.hpp b/src/app/common/ua/protocols/connection/OpcUaConnection.hpp
index 8fa1162..948617f 100644
--- a/src/app/common/ua/protocols/connection/OpcUaConnection.hpp
+++ b/src/app/common/ua/protocols/connection/OpcUaConnection.hpp
@@ -84,6 +84,10 @@ protected:
 
     void receivePreaction();
 
+    void continueReceive();
+
+    bool takeReceivePending();
+
     Result receive();
 
     void startTimer(long);
@@ -99,11 +103,14 @@ protected:
     void notifyError();
 
 private:
+    static constexpr long continueDelay = 1;
+
     reactor::ReactorInterface& reactor;
     reactor::LinkAddr addr;
     reactor::LinkPtr link;
     reactor::TimerPtr timer;
     OpcUaSduBuffer rx;
+    bool receivePending{false};
     OpcUaConnectionHandler& handler;
 };
 
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index d4f5016..a37d859 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -8,29 +8,36 @@ namespace app::ua
 void ServerConnectionConnected::onEnter(ServerConnection& fsm)
 {
     fsm.receivePreaction();
-    fsm.startTimer(ServerConnection::establishTimeout);
+    fsm.continueReceive();
     fsm.notifyConnected();
 }
 
 void ServerConnectionConnected::onDataReceived(ServerConnection& fsm)
 {
-    switch (fsm.receive())
+    for (;;)
     {
-    case OpcUaConnection::Result::noerror:
-    break;
-    case OpcUaConnection::Result::done:
-    {
-        fsm.notifyDataReceived();
-        fsm.receivePreaction();
-    }
-    break;
-    case OpcUaConnection::Result::error:
-    {
-        fsm.closeLink();
-        fsm.transit<ServerConnectionInit>();
-        fsm.notifyError();
-    }
-    break;
+        switch (fsm.receive())
+        {
+        case OpcUaConnection::Result::noerror:
+            return;
+        case OpcUaConnection::Result::done:
+        {
+            fsm.notifyDataReceived();
+            if (&fsm.getState() != this)
+            {
+                return;
+            }
+            fsm.receivePreaction();
+        }
+        break;
+        case OpcUaConnection::Result::error:
+        {
+            fsm.closeLink();
+            fsm.transit<ServerConnectionInit>();
+            fsm.notifyError();
+        }
+        return;
+        }
     }
 }
 
@@ -49,6 +56,13 @@ void ServerConnectionConnected::onError(ServerConnection& fsm)
 
 void ServerConnectionConnected::onTimer(ServerConnection& fsm)
 {
+    if (fsm.takeReceivePending())
+    {
+        // input behind the handshake is not signalled again
+        fsm.startTimer(ServerConnection::establishTimeout);
+        onDataReceived(fsm);
+        return;
+    }
     fsm.closeLink();
     fsm.transit<ServerConnectionInit>();
     fsm.notifyClosed();
-- 
2.43.0


From 353177af8293834ce970840b6f1e0ae10a86a427 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:04:15 +0000
Subject: [PATCH 73/78] fix: an OPC UA server connection without a timer keeps
 the accepted link open

---
 src/app/common/ua/protocols/connection/ServerConnectionInit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
index 8d48fac..73c9314 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
@@ -29,8 +29,8 @@ void ServerConnectionInit::onConnect(ServerConnection& fsm, reactor::LinkAddr co
 
 void ServerConnectionInit::onAccept(ServerConnection& fsm, reactor::LinkPtr& link)
 {
-    fsm.setLink(link);
     fsm.allocTimer();
+    fsm.setLink(link);
     fsm.transit<ServerConnectionReceiveHello>();
 }
 
-- 
2.43.0


From 5d4c35989d6fb57bfb13d0ce7e09ea9679922942 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:07:29 +0000
Subject: [PATCH 74/78] fix: an OPC UA server secure channel does not report
 that it is established, nor can it be reopened on a failure

---
 .../secure/OpcUaServerSecureChannelConnecting.cpp  |  4 ++--
 .../secure/OpcUaServerSecureChannelEstablished.cpp | 14 +++++++-------
 .../OpcUaServerSecureChannelReceiveOpenReq.cpp     |  9 +++++----
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelConnecting.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelConnecting.cpp
index bd593e7..328b468 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelConnecting.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelConnecting.cpp
@@ -13,14 +13,14 @@ void OpcUaServerSecureChannelConnecting::onConnected(OpcUaServerSecureChannel& f
 
 void OpcUaServerSecureChannelConnecting::onClosed(OpcUaServerSecureChannel& fsm)
 {
-    fsm.notifyClosed();
     fsm.transit<OpcUaServerSecureChannelInit>();
+    fsm.notifyClosed();
 }
 
 void OpcUaServerSecureChannelConnecting::onError(OpcUaServerSecureChannel& fsm)
 {
-    fsm.notifyError();
     fsm.transit<OpcUaServerSecureChannelInit>();
+    fsm.notifyError();
 }
 
 } // namespace app::ua
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp
index 2c10e61..872ce1a 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp
@@ -22,9 +22,9 @@ void OpcUaServerSecureChannelEstablished::onOpenSecureChannelReq(OpcUaServerSecu
         case OpcUaSecureChannel::Result::noerror:
         case OpcUaSecureChannel::Result::error:
         {
-            fsm.notifyError();
             fsm.closeConnection();
             fsm.transit<OpcUaServerSecureChannelInit>();
+            fsm.notifyError();
         }
         break;
         }
@@ -32,9 +32,9 @@ void OpcUaServerSecureChannelEstablished::onOpenSecureChannelReq(OpcUaServerSecu
     break;
     case OpcUaSecureChannel::Result::error:
     {
-        fsm.notifyError();
         fsm.closeConnection();
         fsm.transit<OpcUaServerSecureChannelInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -48,16 +48,16 @@ void OpcUaServerSecureChannelEstablished::onCloseSecureChannelReq(OpcUaServerSec
     break;
     case OpcUaSecureChannel::Result::done:
     {
-        fsm.notifyClosed();
         fsm.closeConnection();
         fsm.transit<OpcUaServerSecureChannelInit>();
+        fsm.notifyClosed();
     }
     break;
     case OpcUaSecureChannel::Result::error:
     {
-        fsm.notifyError();
         fsm.closeConnection();
         fsm.transit<OpcUaServerSecureChannelInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -76,9 +76,9 @@ void OpcUaServerSecureChannelEstablished::onSecureChannelReq(OpcUaServerSecureCh
     break;
     case OpcUaSecureChannel::Result::error:
     {
-        fsm.notifyError();
         fsm.closeConnection();
         fsm.transit<OpcUaServerSecureChannelInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -86,14 +86,14 @@ void OpcUaServerSecureChannelEstablished::onSecureChannelReq(OpcUaServerSecureCh
 
 void OpcUaServerSecureChannelEstablished::onClosed(OpcUaServerSecureChannel& fsm)
 {
-    fsm.notifyClosed();
     fsm.transit<OpcUaServerSecureChannelInit>();
+    fsm.notifyClosed();
 }
 
 void OpcUaServerSecureChannelEstablished::onError(OpcUaServerSecureChannel& fsm)
 {
-    fsm.notifyError();
     fsm.transit<OpcUaServerSecureChannelInit>();
+    fsm.notifyError();
 }
 
 } // namespace app::ua
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
index ec44244..566708d 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
@@ -19,14 +19,15 @@ void OpcUaServerSecureChannelReceiveOpenReq::onOpenSecureChannelReq(OpcUaServerS
         case OpcUaSecureChannel::Result::done:
         {
             fsm.transit<OpcUaServerSecureChannelEstablished>();
+            fsm.notifyEstablished();
         }
         break;
         case OpcUaSecureChannel::Result::noerror:
         case OpcUaSecureChannel::Result::error:
         {
-            fsm.notifyError();
             fsm.closeConnection();
             fsm.transit<OpcUaServerSecureChannelInit>();
+            fsm.notifyError();
         }
         break;
         }
@@ -34,9 +35,9 @@ void OpcUaServerSecureChannelReceiveOpenReq::onOpenSecureChannelReq(OpcUaServerS
     break;
     case OpcUaSecureChannel::Result::error:
     {
-        fsm.notifyError();
         fsm.closeConnection();
         fsm.transit<OpcUaServerSecureChannelInit>();
+        fsm.notifyError();
     }
     break;
     }
@@ -44,14 +45,14 @@ void OpcUaServerSecureChannelReceiveOpenReq::onOpenSecureChannelReq(OpcUaServerS
 
 void OpcUaServerSecureChannelReceiveOpenReq::onClosed(OpcUaServerSecureChannel& fsm)
 {
-    fsm.notifyClosed();
     fsm.transit<OpcUaServerSecureChannelInit>();
+    fsm.notifyClosed();
 }
 
 void OpcUaServerSecureChannelReceiveOpenReq::onError(OpcUaServerSecureChannel& fsm)
 {
-    fsm.notifyError();
     fsm.transit<OpcUaServerSecureChannelInit>();
+    fsm.notifyError();
 }
 
 } // namespace app::ua
-- 
2.43.0


From 53a268ca32196ca7b0e60474fbdb9370098476b2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:07:29 +0000
Subject: [PATCH 75/78] fix: close of an OPC UA server secure channel does
 nothing

---
 .../common/ua/protocols/secure/OpcUaServerSecureChannel.cpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index 06f022c..8dd3997 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -60,7 +60,8 @@ void OpcUaServerSecureChannel::open(reactor::LinkPtr& link)
 
 void OpcUaServerSecureChannel::close()
 {
-    //getState().onClosed(*this);
+    closeConnection();
+    transit<OpcUaServerSecureChannelInit>();
 }
 
 OpcUaSduBuffer& OpcUaServerSecureChannel::getRxBuffer()
-- 
2.43.0


From 587ee892e31c4cfecce469d97de3fcb960632570 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:07:29 +0000
Subject: [PATCH 76/78] fix: an OPC UA server secure channel writes beyond its
 buffer and hides that it could not send

---
 .../protocols/secure/OpcUaServerSecureChannel.cpp   | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index 8dd3997..95e6d1a 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -181,12 +181,18 @@ void OpcUaServerSecureChannel::send(OpcUaSduBuffer const& buf)
     codec << secHdr;
 
     UaSequenceHeader seqHdr;
-    seqHdr.sequenceNumber = sequenceNumberTx++;
+    seqHdr.sequenceNumber = sequenceNumberTx;
     seqHdr.requestId = storedRequestId;
     codec << seqHdr;
 
+    if (buf.size() > tx.capacity())
+    {
+        LM(UA, LE, "OpcUaServerSecureChannel-0, message is too long");
+        return;
+    }
     std::memcpy(tx.end(), buf.begin(), buf.size());
     tx.seek(buf.size());
+    ++sequenceNumberTx;
 
     setPayloadSizeToHdr(tx.begin(), tx.size());
 
@@ -196,7 +202,10 @@ void OpcUaServerSecureChannel::send(OpcUaSduBuffer const& buf)
     break;
     case OpcUaConnection::Result::noerror:
     case OpcUaConnection::Result::error:
-    {}
+    {
+        closeConnection();
+        getState().onError(*this);
+    }
     break;
     }
 }
-- 
2.43.0


From 631f659b044dae443100bfebc827539367ebd068 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:07:29 +0000
Subject: [PATCH 77/78] fix: an OPC UA server secure channel accepts messages
 of other channels and survives malformed ones

---
 .../secure/OpcUaServerSecureChannel.cpp       | 26 +++++++++++++++++++
 .../secure/OpcUaServerSecureChannel.hpp       |  1 +
 2 files changed, 27 insertions(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index 95e6d1a..f4c899b 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -24,6 +24,20 @@ void OpcUaServerSecureChannel::onConnectionConnectedEvent()
 }
 
 void OpcUaServerSecureChannel::onConnectionDataReceivedEvent()
+{
+    try
+    {
+        dispatch();
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LE, "OpcUaServerSecureChannel-0, invalid message: %s", e.what());
+        closeConnection();
+        getState().onError(*this);
+    }
+}
+
+void OpcUaServerSecureChannel::dispatch()
 {
     if (isOpnMsg(connection.getRxBuffer().begin()))
     {
@@ -112,6 +126,12 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveCloseSecureChannelRe
     UaMessageHeader hdr;
     codec >> hdr;
 
+    if (hdr.secureChannelId != secureChannelId)
+    {
+        LM(UA, LE, "OpcUaServerSecureChannel-0, unexpected secureChannelId");
+        return Result::error;
+    }
+
     UaSecurityTokenHeader secHdr;
     codec >> secHdr;
 
@@ -140,6 +160,12 @@ OpcUaSecureChannel::Result OpcUaServerSecureChannel::receiveSecureChannelReq()
     UaMessageHeader hdr;
     codec >> hdr;
 
+    if (hdr.secureChannelId != secureChannelId)
+    {
+        LM(UA, LE, "OpcUaServerSecureChannel-0, unexpected secureChannelId");
+        return Result::error;
+    }
+
     UaSecurityTokenHeader secHdr;
     codec >> secHdr;
 
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
index c56c24a..e8ede34 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.hpp
@@ -43,6 +43,7 @@ private:
     void onConnectionErrorEvent() final;
     void onConnectionClosedEvent() final;
 
+    void dispatch();
     void acceptConnection(reactor::LinkPtr&);
     void closeConnection();
     Result receiveOpenSecureChannelReq();
-- 
2.43.0


From 6b046f1b412c0e5a0d6327ec3d45d8df4199e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:13 +0000
Subject: [PATCH 78/78] fix: the descriptor of a reactor's event leaks when it
 can not be watched

---
 src/app/common/reactor/Event.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/common/reactor/Event.cpp b/src/app/common/reactor/Event.cpp
index b8a70ba..0d6393c 100644
--- a/src/app/common/reactor/Event.cpp
+++ b/src/app/common/reactor/Event.cpp
@@ -27,6 +27,7 @@ Event::Event(EpollInterface& epoll_, EventHandler& handler_)
     }
     if (-1 == epoll.add(*this, EPOLLIN | EPOLLET))
     {
+        ::close(fd);
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0

