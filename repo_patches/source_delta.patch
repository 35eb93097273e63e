From f1036f5c67d26b22e9a9665cc3603fd7045344e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 01/16] fix: keep Rc/Arc identity when shared pointers are
 nested

The serializer numbers shared objects before their contents, while the
deserializer numbered them after, so a back-reference to an outer Rc/Arc
resolved to a different object (or panicked) when the contents held shared
pointers themselves.
---
 src/builtins.rs |  6 ++++--
 src/serde.rs    | 44 +++++++++++++++++++++++++++++++++-----------
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 026655f..648025b 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -180,8 +180,9 @@ unsafe impl<T: 'static + Object> NonTrivialObject for Rc<T> {
         let id = d.deserialize::<usize>()?;
         match std::num::NonZeroUsize::new(id) {
             None => {
+                let id = d.reserve_cyclic();
                 let rc = Self::new(d.deserialize()?);
-                d.learn_cyclic(rc.clone());
+                d.set_cyclic(id, rc.clone());
                 Ok(rc)
             }
             Some(id) => Ok(d.get_cyclic::<Rc<T>>(id).clone()),
@@ -205,8 +206,9 @@ unsafe impl<T: 'static + Object> NonTrivialObject for Arc<T> {
         let id = d.deserialize::<usize>()?;
         match std::num::NonZeroUsize::new(id) {
             None => {
+                let id = d.reserve_cyclic();
                 let rc = Self::new(d.deserialize()?);
-                d.learn_cyclic(rc.clone());
+                d.set_cyclic(id, rc.clone());
                 Ok(rc)
             }
             Some(id) => Ok(d.get_cyclic::<Arc<T>>(id).clone()),
diff --git a/src/serde.rs b/src/serde.rs
index 516fd33..dcaf92b 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -117,7 +117,7 @@ pub struct Deserializer {
     data: Vec<u8>,
     pub(crate) handles: std::vec::IntoIter<OwnedHandle>,
     pos: usize,
-    cyclics: Vec<Box<dyn Any>>,
+    cyclics: Vec<Option<Box<dyn Any>>>,
 }
 
 impl Deserializer {
@@ -186,13 +186,33 @@ impl Deserializer {
     }
 
     /// Store a reference to a newly built potentially cyclic object.
+    ///
+    /// If the contents of the object may themselves contain potentially cyclic objects, use
+    /// [`Deserializer::reserve_cyclic`] and [`Deserializer::set_cyclic`] instead.
     pub fn learn_cyclic<T: 'static>(&mut self, obj: T) {
-        self.cyclics.push(Box::new(obj));
+        self.cyclics.push(Some(Box::new(obj)));
+    }
+
+    /// Allocate an ID for a potentially cyclic object that is about to be built.
+    ///
+    /// The serializer numbers objects before serializing their contents, so this must be called
+    /// before the contents of the object are deserialized.
+    pub fn reserve_cyclic(&mut self) -> NonZeroUsize {
+        self.cyclics.push(None);
+        NonZeroUsize::new(self.cyclics.len()).unwrap()
+    }
+
+    /// Store a reference to a newly built potentially cyclic object under an ID obtained from
+    /// [`Deserializer::reserve_cyclic`].
+    pub fn set_cyclic<T: 'static>(&mut self, id: NonZeroUsize, obj: T) {
+        self.cyclics[id.get() - 1] = Some(Box::new(obj));
     }
 
     /// Get a reference to an object built earlier.
     pub fn get_cyclic<T: 'static>(&self, id: NonZeroUsize) -> &T {
         self.cyclics[id.get() - 1]
+            .as_ref()
+            .expect("The cyclic object has not been built yet")
             .downcast_ref()
             .expect("The cyclic object is of unexpected type")
     }
@@ -280,18 +300,20 @@ impl fmt::Debug for Deserializer {
 ///         let id = d.deserialize::<usize>()?;
 ///         match std::num::NonZeroUsize::new(id) {
 ///             None => {
-///                 // If 0 is stored, this is the first time we see this object -- decode its
-///                 // contents
+///                 // If 0 is stored, this is the first time we see this object. Allocate an ID
+///                 // for it before decoding the contents. Note that you don't specify the ID:
+///                 // reserve_cyclic infers it automatically. To make sure numeration is consistent
+///                 // with the serializer, call reserve_cyclic in the same order in which
+///                 // learn_cyclic is called by the serializer, i.e. before the contents are
+///                 // handled. For instance, when encoding a set, make sure that data is serialized
+///                 // in the same order as it is deserialized. This should already be the case
+///                 // unless you serialize data in a very bizarre way.
+///                 let id = d.reserve_cyclic();
 ///                 let rc = Rc::<T>::new(d.deserialize()?);
-///                 // Tell the deserializer about this object. Note that you don't specify the ID:
-///                 // learn_cyclic infers it automatically. To make sure numeration is consistent
-///                 // with the serializer, call learn_cyclic in the same order in both. For
-///                 // instance, when encoding a set, make sure that data is serialized in the same
-///                 // order as it is deserialized. This should already be the case unless you
-///                 // serialize data in a very bizarre way. Also, notice that learn_cyclic does not
+///                 // Tell the deserializer about this object. Notice that set_cyclic does not
 ///                 // have to store the exact object you are deserializing in: in this case, we
 ///                 // store the Rc itself, not CustomRc.
-///                 d.learn_cyclic(rc.clone());
+///                 d.set_cyclic(id, rc.clone());
 ///                 Ok(Self(rc))
 ///             }
 ///             Some(id) => {
-- 
2.43.0


From 994676b1e787c7274bffa163fc45128a12fd65e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 02/16] fix: keep shared pointer numbering consistent across
 serialize_temporary

Objects met inside a temporary were numbered from scratch by the serializer,
but not by the deserializer, so later back-references resolved to a wrong
object.
---
 src/serde.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index dcaf92b..f3223f2 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -22,6 +22,7 @@ pub struct Serializer<'fd> {
     data: Vec<u8>,
     handles: Vec<BorrowedHandle<'fd>>,
     cyclic_ids: HashMap<*const c_void, NonZeroUsize>,
+    cyclic_count: usize,
 }
 
 impl<'fd> Serializer<'fd> {
@@ -31,6 +32,7 @@ impl<'fd> Serializer<'fd> {
             data: Vec::new(),
             handles: Vec::new(),
             cyclic_ids: HashMap::new(),
+            cyclic_count: 0,
         }
     }
 
@@ -54,12 +56,24 @@ impl<'fd> Serializer<'fd> {
     ///
     /// Panics if the object contains file handles.
     pub fn serialize_temporary<T: Object>(&mut self, data: T) {
+        // The deserializer numbers cyclic objects inside the temporary along with the others, so the
+        // numeration has to be shared.
         let mut s1 = Serializer::new();
+        s1.cyclic_ids = std::mem::take(&mut self.cyclic_ids);
+        s1.cyclic_count = self.cyclic_count;
         s1.serialize(&data);
         assert!(
             s1.handles.is_empty(),
             "serialize_temporary invoked with an object containing file handles"
         );
+        self.cyclic_ids = std::mem::take(&mut s1.cyclic_ids);
+        if s1.cyclic_count != self.cyclic_count {
+            // The temporary is about to be dropped, so the addresses of the objects that were first
+            // met in it may be reused by unrelated objects.
+            let known = self.cyclic_count;
+            self.cyclic_ids.retain(|_, id| id.get() <= known);
+            self.cyclic_count = s1.cyclic_count;
+        }
         self.write(&s1.into_vec());
     }
 
@@ -75,11 +89,11 @@ impl<'fd> Serializer<'fd> {
 
     /// Check if an object has already been serialized in this session and return its index.
     pub fn learn_cyclic(&mut self, ptr: *const c_void) -> Option<NonZeroUsize> {
-        let len_before = self.cyclic_ids.len();
         match self.cyclic_ids.entry(ptr) {
             hash_map::Entry::Occupied(occupied) => Some(*occupied.get()),
             hash_map::Entry::Vacant(vacant) => {
-                vacant.insert(NonZeroUsize::new(len_before + 1).expect("Too many cyclic objects"));
+                self.cyclic_count += 1;
+                vacant.insert(NonZeroUsize::new(self.cyclic_count).unwrap());
                 None
             }
         }
-- 
2.43.0


From 163134ae1970ec46a84573c1126dec83b57205ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 03/16] fix: retry channel operations and waitpid interrupted
 by signals

EINTR was reported to the user, and, if it occurred in the middle of a large
object, left the stream out of sync.
---
 src/asynchronous.rs            | 10 ++++++----
 src/platform/unix/internals.rs | 35 +++++++++++++++++++---------------
 2 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index 9eadaed..2f489c1 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -531,10 +531,12 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
         // This is synchronous, but should be really fast
         #[cfg(unix)]
         {
-            let status = rustix::process::waitpid(
-                Some(self.proc_handle),
-                rustix::process::WaitOptions::empty(),
-            )?
+            let status = rustix::io::retry_on_intr(|| {
+                rustix::process::waitpid(
+                    Some(self.proc_handle),
+                    rustix::process::WaitOptions::empty(),
+                )
+            })?
             .unwrap();
             if status.exit_status() == Some(0) {
                 value.ok_or_else(|| {
diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index 6ed9670..9157d45 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -1,6 +1,7 @@
 use crate::{imp::implements, pod::PlainOldData, Deserializer, Object, Serializer};
 use rustix::{
     cmsg_space,
+    io::retry_on_intr,
     net::{
         self, recvmsg, sendmsg, AddressFamily, RecvAncillaryBuffer, RecvAncillaryMessage,
         RecvFlags, SendAncillaryBuffer, SendAncillaryMessage, SendFlags, SocketFlags, SocketType,
@@ -86,15 +87,17 @@ impl<'a> SingleObjectSender<'a> {
                 &self.fds[self.fds_pos..fds_end],
             )));
 
-            let n_written = sendmsg(
-                self.socket_fd,
-                &[
-                    IoSlice::new(&[is_last as u8]),
-                    IoSlice::new(&self.data()[self.data_pos..buffer_end]),
-                ],
-                &mut cmsg_buffer,
-                self.flags,
-            )?;
+            let n_written = retry_on_intr(|| {
+                sendmsg(
+                    self.socket_fd,
+                    &[
+                        IoSlice::new(&[is_last as u8]),
+                        IoSlice::new(&self.data()[self.data_pos..buffer_end]),
+                    ],
+                    &mut cmsg_buffer,
+                    self.flags,
+                )
+            })?;
 
             self.data_pos += n_written - 1;
             self.fds_pos = fds_end;
@@ -176,12 +179,14 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 IoSliceMut::new(&mut data[self.data_pos..]),
             ];
 
-            let message = recvmsg(
-                self.socket_fd,
-                &mut iovecs,
-                &mut cmsg_buffer,
-                self.flags | RecvFlags::CMSG_CLOEXEC,
-            )?;
+            let message = retry_on_intr(|| {
+                recvmsg(
+                    self.socket_fd,
+                    &mut iovecs,
+                    &mut cmsg_buffer,
+                    self.flags | RecvFlags::CMSG_CLOEXEC,
+                )
+            })?;
 
             for cmsg in cmsg_buffer.drain() {
                 let RecvAncillaryMessage::ScmRights(rights) = cmsg else {
-- 
2.43.0


From b7563782cc3cbb73034f7f67c938d7d3b9018699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 04/16] fix: deliver queued messages after the other side was
 closed with unread data

If the other side of a duplex was closed before reading everything sent to it,
recv failed with ECONNRESET instead of returning the messages it had sent, or
None.
---
 src/platform/unix/internals.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index 9157d45..cb1f85c 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -1,7 +1,7 @@
 use crate::{imp::implements, pod::PlainOldData, Deserializer, Object, Serializer};
 use rustix::{
     cmsg_space,
-    io::retry_on_intr,
+    io::{retry_on_intr, Errno},
     net::{
         self, recvmsg, sendmsg, AddressFamily, RecvAncillaryBuffer, RecvAncillaryMessage,
         RecvFlags, SendAncillaryBuffer, SendAncillaryMessage, SendFlags, SocketFlags, SocketType,
@@ -179,14 +179,19 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 IoSliceMut::new(&mut data[self.data_pos..]),
             ];
 
-            let message = retry_on_intr(|| {
+            let message = match retry_on_intr(|| {
                 recvmsg(
                     self.socket_fd,
                     &mut iovecs,
                     &mut cmsg_buffer,
                     self.flags | RecvFlags::CMSG_CLOEXEC,
                 )
-            })?;
+            }) {
+                // This is reported once if the other side was closed before reading everything we
+                // have sent to it. It does not affect the data sent in the opposite direction.
+                Err(Errno::CONNRESET) => continue,
+                result => result?,
+            };
 
             for cmsg in cmsg_buffer.drain() {
                 let RecvAncillaryMessage::ScmRights(rights) = cmsg else {
-- 
2.43.0


From bafa1f14607ff24687846618e1fbdaa9381dd273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 05/16] fix: report file descriptors lost on reception

If the receiver was out of file descriptors, some of the handles in a message
were silently dropped, which made the rest be assigned to wrong objects or
deserialization panic.
---
 src/platform/unix/internals.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index cb1f85c..c310f64 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -123,6 +123,7 @@ pub(crate) struct SingleObjectReceiver<'a, T: Object> {
     data_pos: usize,
     value: MaybeUninit<T>,
     fds: Vec<OwnedFd>,
+    fds_truncated: bool,
     flags: RecvFlags,
     terminated: bool,
     marker: PhantomData<fn() -> T>,
@@ -138,6 +139,7 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
             data_pos: 0,
             value: MaybeUninit::zeroed(),
             fds: Vec::new(),
+            fds_truncated: false,
             flags: if blocking {
                 RecvFlags::empty()
             } else {
@@ -202,9 +204,12 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 };
                 self.fds.extend(rights);
             }
+            if message.flags.bits() & libc::MSG_CTRUNC as u32 != 0 {
+                self.fds_truncated = true;
+            }
 
             if message.bytes == 0 {
-                if self.data_pos == 0 && self.fds.is_empty() {
+                if self.data_pos == 0 && self.fds.is_empty() && !self.fds_truncated {
                     return Ok(None);
                 } else {
                     return Err(Error::new(ErrorKind::Other, "Unterminated data on stream"));
@@ -225,6 +230,13 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
 
             self.terminated = true;
 
+            if self.fds_truncated {
+                return Err(Error::new(
+                    ErrorKind::Other,
+                    "Failed to receive file descriptors, the limit is likely exceeded",
+                ));
+            }
+
             if implements!(T: PlainOldData) {
                 return Ok(Some(unsafe { self.value.assume_init_read() }));
             }
-- 
2.43.0


From 050227ef1bb9ca84f9e9f61f7341a63197782117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 06/16] fix: don't let a partially sent object corrupt later
 ones

If sending an object consisting of several packets failed or was cancelled
halfway, the next object sent was appended to the partial one, and the receiver
obtained garbage.
---
 src/platform/unix/internals.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index c310f64..773fc29 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -3,8 +3,9 @@ use rustix::{
     cmsg_space,
     io::{retry_on_intr, Errno},
     net::{
-        self, recvmsg, sendmsg, AddressFamily, RecvAncillaryBuffer, RecvAncillaryMessage,
-        RecvFlags, SendAncillaryBuffer, SendAncillaryMessage, SendFlags, SocketFlags, SocketType,
+        self, recvmsg, sendmsg, shutdown, AddressFamily, RecvAncillaryBuffer, RecvAncillaryMessage,
+        RecvFlags, SendAncillaryBuffer, SendAncillaryMessage, SendFlags, Shutdown, SocketFlags,
+        SocketType,
     },
 };
 use std::io::{Error, ErrorKind, IoSlice, IoSliceMut, Result};
@@ -36,6 +37,7 @@ pub(crate) struct SingleObjectSender<'a> {
     buffer: Vec<u8>,
     data_pos: usize,
     fds_pos: usize,
+    finished: bool,
     flags: SendFlags,
 }
 
@@ -64,6 +66,7 @@ impl<'a> SingleObjectSender<'a> {
             buffer,
             data_pos: 0,
             fds_pos: 0,
+            finished: false,
             flags: if blocking {
                 SendFlags::empty()
             } else {
@@ -103,6 +106,7 @@ impl<'a> SingleObjectSender<'a> {
             self.fds_pos = fds_end;
 
             if is_last {
+                self.finished = true;
                 return Ok(());
             }
         }
@@ -117,6 +121,17 @@ impl<'a> SingleObjectSender<'a> {
     }
 }
 
+impl Drop for SingleObjectSender<'_> {
+    fn drop(&mut self) {
+        if !self.finished && (self.data_pos > 0 || self.fds_pos > 0) {
+            // The object has only been sent partially, either because of an error or because the
+            // future was dropped. The other side would interpret the next object as a continuation
+            // of this one, so don't let anything else be sent.
+            let _ = shutdown(self.socket_fd, Shutdown::Write);
+        }
+    }
+}
+
 pub(crate) struct SingleObjectReceiver<'a, T: Object> {
     socket_fd: BorrowedFd<'a>,
     buffer: Vec<u8>,
-- 
2.43.0


From 7dd4a9da47e26493ae18f1af916437053c678be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 07/16] fix: reap the child when receiving its return value
 fails

join returned early in this case, leaving a zombie behind and the kill handle
enabled.
---
 src/asynchronous.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index 2f489c1..f9e7c59 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -521,10 +521,12 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
     /// it exits via [`std::process::exit`] or alike instead of returning a value, unless the return
     /// type is `()`. In that case, `Ok(())` is returned.
     pub async fn join(mut self) -> Result<T> {
-        let mut value = self.output_rx.recv().await?;
-        if let Some(void) = imp::if_void::<T>() {
-            // The value should be None at this moment
-            value = Some(void);
+        let value = self.output_rx.recv().await;
+        #[cfg(unix)]
+        {
+            // If receiving the value failed, the child might still be sending it. Don't make it wait
+            // for us, as we are going to wait for it.
+            drop(self.output_rx);
         }
         let mut guard = self.may_kill.lock().expect("Kill mutex is poisoned");
         *guard = false;
@@ -539,7 +541,8 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
             })?
             .unwrap();
             if status.exit_status() == Some(0) {
-                value.ok_or_else(|| {
+                // The received value should be None at this moment for void
+                imp::if_void::<T>().or(value?).ok_or_else(|| {
                     Error::new(
                         ErrorKind::Other,
                         "The subprocess terminated without returning a value",
@@ -575,7 +578,8 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
                 .ok()?;
             }
             if code == 0 {
-                value.ok_or_else(|| {
+                // The received value should be None at this moment for void
+                imp::if_void::<T>().or(value?).ok_or_else(|| {
                     Error::new(
                         ErrorKind::Other,
                         "The subprocess terminated without returning a value",
-- 
2.43.0


From be524741ea46363a5c1ad6ac55eab5201c75a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 08/16] fix: let the child be killed while it is being joined

join held the kill lock while waiting for the process to terminate, so killing
a process that had closed its side of the channel but kept running blocked till
it terminated on its own.
---
 src/asynchronous.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index f9e7c59..a09ed19 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -527,6 +527,16 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
             // If receiving the value failed, the child might still be sending it. Don't make it wait
             // for us, as we are going to wait for it.
             drop(self.output_rx);
+            // Wait for the process to terminate without reaping it. The lock must not be taken yet,
+            // as it has to be possible to kill the process until it has terminated, e.g. if it
+            // hangs after closing its side of the channel.
+            rustix::io::retry_on_intr(|| {
+                rustix::process::waitid(
+                    rustix::process::WaitId::Pid(self.proc_handle),
+                    rustix::process::WaitidOptions::EXITED
+                        | rustix::process::WaitidOptions::NOWAIT,
+                )
+            })?;
         }
         let mut guard = self.may_kill.lock().expect("Kill mutex is poisoned");
         *guard = false;
-- 
2.43.0


From c50a1c1dafeec501fd5800a14aaeed0b62b8854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 09/16] fix: report exec failure from spawn instead of aborting
 in the child

The child formatted the error and aborted on a one-page stack shared with the
parent's address space, and the parent got either EPIPE or a dead Child and
left a zombie behind.
---
 src/platform/unix/subprocess.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/platform/unix/subprocess.rs b/src/platform/unix/subprocess.rs
index c49fb2b..807af5a 100644
--- a/src/platform/unix/subprocess.rs
+++ b/src/platform/unix/subprocess.rs
@@ -1,6 +1,8 @@
 use crate::{asynchronous::AsyncStream, entry, Duplex, Object};
 use libc::{c_char, c_int, c_void};
-use rustix::process::Pid;
+use rustix::io::retry_on_intr;
+use rustix::process::{waitpid, Pid, WaitOptions};
+use std::cell::Cell;
 use std::ffi::{CStr, CString};
 use std::io::Result;
 use std::os::unix::io::{AsRawFd, BorrowedFd};
@@ -9,6 +11,8 @@ struct CloneArg<'a> {
     child_fd: BorrowedFd<'a>,
     child_fd_str: &'a CStr,
     inherited_fds: &'a [BorrowedFd<'a>],
+    // Written by the child, which shares memory with the parent till it calls exec
+    error: Cell<Option<i32>>,
 }
 
 pub(crate) unsafe fn _spawn_child<S: Object, R: Object>(
@@ -20,6 +24,7 @@ pub(crate) unsafe fn _spawn_child<S: Object, R: Object>(
         child_fd: child_fd.0.fd.as_handle(),
         child_fd_str: &child_fd_str,
         inherited_fds,
+        error: Cell::new(None),
     };
 
     let mut stack = [0u8; 4096];
@@ -31,23 +36,30 @@ pub(crate) unsafe fn _spawn_child<S: Object, R: Object>(
     );
 
     if result < 0 {
-        Err(std::io::Error::last_os_error())
-    } else {
-        Ok(Pid::from_raw(result as i32).unwrap())
+        return Err(std::io::Error::last_os_error());
     }
+
+    let pid = Pid::from_raw(result as i32).unwrap();
+    if let Some(error) = clone_arg.error.get() {
+        let _ = retry_on_intr(|| waitpid(Some(pid), WaitOptions::empty()));
+        return Err(std::io::Error::from_raw_os_error(error));
+    }
+    Ok(pid)
 }
 
 // XXX: The signature of libc::clone forces this function to be safe when in reality it isn't
 // (calling it with an arbitrary arg may be unsound). libc 1.0 is going to fix that, see
 // https://github.com/rust-lang/libc/issues/2198.
 extern "C" fn clone_callback(arg: *mut c_void) -> c_int {
-    // Use abort() instead of panic!() to prevent stack unwinding, as unwinding in the fork child
-    // may free resources that would later be freed in the original process
-    match fork_child_main(unsafe { &*(arg as *mut CloneArg) }) {
+    let arg = unsafe { &*(arg as *mut CloneArg) };
+    match fork_child_main(arg) {
         Ok(()) => unreachable!(),
         Err(e) => {
-            eprintln!("{e}");
-            std::process::abort();
+            // Let the parent report the error. Use _exit() instead of panic!() to prevent stack
+            // unwinding, as unwinding in the fork child may free resources that would later be
+            // freed in the original process
+            arg.error.set(Some(e.raw_os_error().unwrap_or(libc::EINVAL)));
+            unsafe { libc::_exit(127) }
         }
     }
 }
-- 
2.43.0


From 6385c2827d568158e5ef07f192b9e265269cb83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 10/16] fix: don't leave a process behind when spawn fails

If the entry could not be delivered to the child, or the future was dropped
before that, the child was neither terminated nor reaped.
---
 src/asynchronous.rs             |  4 ++++
 src/platform/unix/subprocess.rs | 12 +++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index a09ed19..929a0d4 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -664,7 +664,11 @@ pub(crate) async unsafe fn spawn<Stream: AsyncStream, T: Object>(
     #[cfg(unix)]
     {
         process_handle = subprocess::_spawn_child(child, &handles)?;
+        // If the entry cannot be delivered or the future is dropped, nobody is going to wait for the
+        // child
+        let guard = subprocess::KillOnDrop(process_handle);
         local.send(&(s.into_vec(), raw_handles)).await?;
+        std::mem::forget(guard);
         receiver = Receiver::from_stream(local.fd);
     }
 
diff --git a/src/platform/unix/subprocess.rs b/src/platform/unix/subprocess.rs
index 807af5a..20ed328 100644
--- a/src/platform/unix/subprocess.rs
+++ b/src/platform/unix/subprocess.rs
@@ -1,7 +1,7 @@
 use crate::{asynchronous::AsyncStream, entry, Duplex, Object};
 use libc::{c_char, c_int, c_void};
 use rustix::io::retry_on_intr;
-use rustix::process::{waitpid, Pid, WaitOptions};
+use rustix::process::{kill_process, waitpid, Pid, Signal, WaitOptions};
 use std::cell::Cell;
 use std::ffi::{CStr, CString};
 use std::io::Result;
@@ -15,6 +15,16 @@ struct CloneArg<'a> {
     error: Cell<Option<i32>>,
 }
 
+/// Terminates and reaps a child process when dropped.
+pub(crate) struct KillOnDrop(pub(crate) Pid);
+
+impl Drop for KillOnDrop {
+    fn drop(&mut self) {
+        let _ = kill_process(self.0, Signal::Kill);
+        let _ = retry_on_intr(|| waitpid(Some(self.0), WaitOptions::empty()));
+    }
+}
+
 pub(crate) unsafe fn _spawn_child<S: Object, R: Object>(
     child_fd: Duplex<S, R>,
     inherited_fds: &[BorrowedFd<'_>],
-- 
2.43.0


From d3d0d2b3dbd5b178427e4652cf5ea8e56f9ad149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 11/16] fix: accept more enums and generic parameters in
 derive(Object)

A variant field named 's' shadowed the serializer, empty enums failed the
exhaustiveness check, and default type parameters ended up in the impl header.
---
 crossmist-derive/src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crossmist-derive/src/lib.rs b/crossmist-derive/src/lib.rs
index 6e88a70..1777f6d 100644
--- a/crossmist-derive/src/lib.rs
+++ b/crossmist-derive/src/lib.rs
@@ -333,10 +333,10 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
         quote! { <#(#params,)*> }
     };
 
-    let generic_params = &input.generics.params;
-    let generics_impl = quote! { <#generic_params> };
+    // Default values of parameters are not allowed in impl blocks
+    let (generics_impl, _, _) = input.generics.split_for_impl();
 
-    let generics_where = input.generics.where_clause;
+    let generics_where = &input.generics.where_clause;
 
     let expanded = match input.data {
         syn::Data::Struct(struct_) => {
@@ -423,12 +423,15 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                 let ident = &variant.ident;
                 match &variant.fields {
                     syn::Fields::Named(fields) => {
+                        // Don't use the field name for the binding, as it might shadow `s`
                         let (refs, sers): (Vec<_>, Vec<_>) = fields
                             .named
                             .iter()
-                            .map(|field| {
+                            .enumerate()
+                            .map(|(i, field)| {
                                 let ident = &field.ident;
-                                (quote! { ref #ident }, quote! { s.serialize(#ident); })
+                                let binding = format_ident!("a{}", i);
+                                (quote! { #ident: ref #binding }, quote! { s.serialize(#binding); })
                             })
                             .unzip();
                         quote! {
@@ -502,7 +505,7 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
             quote! {
                 unsafe impl #generics_impl ::crossmist::NonTrivialObject for #ident #generics #generics_where {
                     fn serialize_self_non_trivial<'serde>(&'serde self, s: &mut ::crossmist::Serializer<'serde>) {
-                        match self {
+                        match *self {
                             #(#serialize_variants,)*
                         }
                     }
-- 
2.43.0


From 6fbe3cf09e9c7084f5b12a5c47213f54beb27b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 12/16] fix: don't share a descriptor passed to a child several
 times

If the same file was mentioned several times in the arguments of a child
process, the child wrapped one descriptor into several owners, so dropping one
of them closed the others.
---
 src/platform/unix/entry.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/platform/unix/entry.rs b/src/platform/unix/entry.rs
index 584d531..9376565 100644
--- a/src/platform/unix/entry.rs
+++ b/src/platform/unix/entry.rs
@@ -3,6 +3,7 @@ use crate::{
     Deserializer, FnOnceObject, Receiver,
 };
 use rustix::io::{fcntl_setfd, FdFlags};
+use std::collections::HashSet;
 
 pub(crate) fn start_root() {}
 
@@ -27,9 +28,19 @@ pub(crate) fn crossmist_main(mut args: std::env::Args) -> ! {
 
     std::mem::forget(entry_rx);
 
+    // The same descriptor may be mentioned several times, but each OwnedHandle needs its own one
+    let mut seen_handles = HashSet::new();
     let entry_handles = entry_handles
         .into_iter()
-        .map(|handle| unsafe { OwnedHandle::from_raw_handle(handle) })
+        .map(|handle| unsafe {
+            if seen_handles.insert(handle) {
+                OwnedHandle::from_raw_handle(handle)
+            } else {
+                BorrowedHandle::borrow_raw(handle)
+                    .try_clone_to_owned()
+                    .expect("Failed to duplicate the file descriptor")
+            }
+        })
         .collect::<Vec<_>>();
 
     for handle in &entry_handles {
-- 
2.43.0


From 631306434b2a8fc81929fa6fe6974329ad5b57ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 13/16] fix: don't lose the beginning of an object when recv is
 cancelled

If the future returned by recv was dropped after a part of a large object had
been received, the next call interpreted the rest of it as a new object.
---
 src/asynchronous.rs            | 32 +++++++++++++++----
 src/platform/unix/internals.rs | 58 ++++++++++++++++++++++++++++++----
 2 files changed, 78 insertions(+), 12 deletions(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index 929a0d4..1243470 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -42,7 +42,7 @@
 //! ```
 
 #[cfg(unix)]
-use crate::internals::{socketpair, SingleObjectReceiver, SingleObjectSender};
+use crate::internals::{socketpair, PartialObject, SingleObjectReceiver, SingleObjectSender};
 use crate::{
     handles::{AsRawHandle, BorrowedHandle, FromRawHandle, IntoRawHandle, RawHandle},
     imp, subprocess, FnOnceObject, Object, Serializer,
@@ -125,6 +125,8 @@ pub struct Sender<Stream: AsyncStream, T: Object> {
 #[derive(Object)]
 pub struct Receiver<Stream: AsyncStream, T: Object> {
     pub(crate) fd: Stream,
+    #[cfg(unix)]
+    partial: PartialObject,
     marker: PhantomData<fn() -> T>,
 }
 
@@ -137,6 +139,8 @@ pub struct Duplex<Stream: AsyncStream, S: Object, R: Object> {
     #[cfg(unix)]
     pub(crate) fd: Stream,
     #[cfg(unix)]
+    partial: PartialObject,
+    #[cfg(unix)]
     marker: PhantomData<fn(S) -> R>,
     #[cfg(windows)]
     pub(crate) sender: Sender<Stream, S>,
@@ -273,6 +277,8 @@ impl<Stream: AsyncStream, T: Object> Receiver<Stream, T> {
     pub(crate) unsafe fn from_stream(fd: Stream) -> Self {
         Receiver {
             fd,
+            #[cfg(unix)]
+            partial: PartialObject::default(),
             marker: PhantomData,
         }
     }
@@ -283,8 +289,13 @@ impl<Stream: AsyncStream, T: Object> Receiver<Stream, T> {
     pub async fn recv(&mut self) -> Result<Option<T>> {
         #[cfg(unix)]
         {
-            let mut receiver =
-                unsafe { SingleObjectReceiver::new(self.fd.as_handle(), Stream::IS_BLOCKING) };
+            let mut receiver = unsafe {
+                SingleObjectReceiver::new(
+                    self.fd.as_handle(),
+                    &mut self.partial,
+                    Stream::IS_BLOCKING,
+                )
+            };
             self.fd.blocking_read(|| receiver.recv_next()).await
         }
         #[cfg(windows)]
@@ -355,6 +366,7 @@ impl<Stream: AsyncStream, S: Object, R: Object> Duplex<Stream, S, R> {
     pub(crate) unsafe fn from_stream(fd: Stream) -> Self {
         Duplex {
             fd,
+            partial: PartialObject::default(),
             marker: PhantomData,
         }
     }
@@ -377,8 +389,13 @@ impl<Stream: AsyncStream, S: Object, R: Object> Duplex<Stream, S, R> {
     pub async fn recv(&mut self) -> Result<Option<R>> {
         #[cfg(unix)]
         {
-            let mut receiver =
-                unsafe { SingleObjectReceiver::new(self.fd.as_handle(), Stream::IS_BLOCKING) };
+            let mut receiver = unsafe {
+                SingleObjectReceiver::new(
+                    self.fd.as_handle(),
+                    &mut self.partial,
+                    Stream::IS_BLOCKING,
+                )
+            };
             self.fd.blocking_read(|| receiver.recv_next()).await
         }
         #[cfg(windows)]
@@ -410,7 +427,10 @@ impl<Stream: AsyncStream, S: Object, R: Object> Duplex<Stream, S, R> {
     pub fn into_receiver(self) -> Receiver<Stream, R> {
         #[cfg(unix)]
         unsafe {
-            Receiver::from_stream(self.fd)
+            Receiver {
+                partial: self.partial,
+                ..Receiver::from_stream(self.fd)
+            }
         }
         #[cfg(windows)]
         self.receiver
diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index 773fc29..613772c 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -132,8 +132,18 @@ impl Drop for SingleObjectSender<'_> {
     }
 }
 
+/// The beginning of an object that has not been received completely yet, because the future was
+/// dropped or an error has occurred.
+#[derive(Debug, Default, Object)]
+pub struct PartialObject {
+    data: Vec<u8>,
+    fds: Vec<OwnedFd>,
+    fds_truncated: bool,
+}
+
 pub(crate) struct SingleObjectReceiver<'a, T: Object> {
     socket_fd: BorrowedFd<'a>,
+    partial: &'a mut PartialObject,
     buffer: Vec<u8>,
     data_pos: usize,
     value: MaybeUninit<T>,
@@ -147,14 +157,28 @@ pub(crate) struct SingleObjectReceiver<'a, T: Object> {
 unsafe impl<T: Object> Send for SingleObjectReceiver<'_, T> {}
 
 impl<'a, T: Object> SingleObjectReceiver<'a, T> {
-    pub(crate) unsafe fn new(socket_fd: BorrowedFd<'a>, blocking: bool) -> Self {
+    pub(crate) unsafe fn new(
+        socket_fd: BorrowedFd<'a>,
+        partial: &'a mut PartialObject,
+        blocking: bool,
+    ) -> Self {
+        let PartialObject {
+            data: buffer,
+            fds,
+            fds_truncated,
+        } = std::mem::take(partial);
+        let mut value = MaybeUninit::zeroed();
+        if implements!(T: PlainOldData) {
+            (value.as_mut_ptr() as *mut u8).copy_from(buffer.as_ptr(), buffer.len());
+        }
         Self {
             socket_fd,
-            buffer: Vec::new(),
-            data_pos: 0,
-            value: MaybeUninit::zeroed(),
-            fds: Vec::new(),
-            fds_truncated: false,
+            partial,
+            data_pos: buffer.len(),
+            buffer,
+            value,
+            fds,
+            fds_truncated,
             flags: if blocking {
                 RecvFlags::empty()
             } else {
@@ -227,6 +251,7 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 if self.data_pos == 0 && self.fds.is_empty() && !self.fds_truncated {
                     return Ok(None);
                 } else {
+                    self.terminated = true;
                     return Err(Error::new(ErrorKind::Other, "Unterminated data on stream"));
                 }
             }
@@ -271,3 +296,24 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
         }
     }
 }
+
+impl<T: Object> Drop for SingleObjectReceiver<'_, T> {
+    fn drop(&mut self) {
+        if !self.terminated {
+            // Let the next call pick up from here
+            if implements!(T: PlainOldData) {
+                self.buffer = unsafe {
+                    std::slice::from_raw_parts(self.value.as_ptr() as *const u8, self.data_pos)
+                }
+                .to_vec();
+            } else {
+                self.buffer.truncate(self.data_pos);
+            }
+            *self.partial = PartialObject {
+                data: std::mem::take(&mut self.buffer),
+                fds: std::mem::take(&mut self.fds),
+                fds_truncated: self.fds_truncated,
+            };
+        }
+    }
+}
-- 
2.43.0


From 76c5e10333bd73463afbc2604d4b1da319fed212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:38 +0000
Subject: [PATCH 14/16] fix: keep the beginning of an object when converting a
 blocking endpoint

If receiving failed in the middle of an object, what had been received was dropped on conversion,
and the rest of the object was deserialized as if it was an object.
---
 src/asynchronous.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index 1243470..578153d 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -339,11 +339,17 @@ impl<Stream: AsyncStream + fmt::Debug, T: Object> fmt::Debug for Receiver<Stream
 
 impl<Stream: AsyncStream, T: Object> TryFrom<crate::Receiver<T>> for Receiver<Stream, T> {
     type Error = Error;
-    fn try_from(value: crate::Receiver<T>) -> Result<Self> {
+    fn try_from(
+        #[cfg_attr(windows, allow(unused_mut))] mut value: crate::Receiver<T>,
+    ) -> Result<Self> {
         unsafe {
-            Ok(Self::from_stream(Stream::try_new(
-                SyncStream::from_raw_handle(value.into_raw_handle()),
-            )?))
+            Ok(Self {
+                #[cfg(unix)]
+                partial: std::mem::take(&mut value.0.partial),
+                ..Self::from_stream(Stream::try_new(SyncStream::from_raw_handle(
+                    value.into_raw_handle(),
+                ))?)
+            })
         }
     }
 }
@@ -457,12 +463,17 @@ impl<Stream: AsyncStream, S: Object, R: Object> TryFrom<crate::Duplex<S, R>>
     for Duplex<Stream, S, R>
 {
     type Error = Error;
-    fn try_from(value: crate::Duplex<S, R>) -> Result<Self> {
+    fn try_from(
+        #[cfg_attr(windows, allow(unused_mut))] mut value: crate::Duplex<S, R>,
+    ) -> Result<Self> {
         #[cfg(unix)]
         unsafe {
-            Ok(Self::from_stream(Stream::try_new(
-                SyncStream::from_raw_handle(value.into_raw_handle()),
-            )?))
+            Ok(Self {
+                partial: std::mem::take(&mut value.0.partial),
+                ..Self::from_stream(Stream::try_new(SyncStream::from_raw_handle(
+                    value.into_raw_handle(),
+                ))?)
+            })
         }
         #[cfg(windows)]
         {
-- 
2.43.0


From 7d92d85b8618fa2b6c269be2529c6bd3067aae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:44 +0000
Subject: [PATCH 15/16] fix: don't require the name of the program to be valid
 Unicode

---
 src/imp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/imp.rs b/src/imp.rs
index fef3932..70bcb8d 100644
--- a/src/imp.rs
+++ b/src/imp.rs
@@ -100,9 +100,11 @@ pub fn init() {
         return;
     }
 
-    let mut args = std::env::args();
-    if let Some(s) = args.next() {
+    // The name of the program is not necessarily valid Unicode
+    if let Some(s) = std::env::args_os().next() {
         if s == "_crossmist_" {
+            let mut args = std::env::args();
+            args.next();
             entry::crossmist_main(args);
         }
     }
-- 
2.43.0


From 93eabae47bbc3d5f5aacb1cd9bb156ab68782a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:44 +0000
Subject: [PATCH 16/16] fix: don't run signal handlers in a child that shares
 memory with its parent

---
 src/platform/unix/subprocess.rs | 56 +++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/src/platform/unix/subprocess.rs b/src/platform/unix/subprocess.rs
index 20ed328..c27352c 100644
--- a/src/platform/unix/subprocess.rs
+++ b/src/platform/unix/subprocess.rs
@@ -5,12 +5,14 @@ use rustix::process::{kill_process, waitpid, Pid, Signal, WaitOptions};
 use std::cell::Cell;
 use std::ffi::{CStr, CString};
 use std::io::Result;
+use std::mem::MaybeUninit;
 use std::os::unix::io::{AsRawFd, BorrowedFd};
 
 struct CloneArg<'a> {
     child_fd: BorrowedFd<'a>,
     child_fd_str: &'a CStr,
     inherited_fds: &'a [BorrowedFd<'a>],
+    signal_mask: libc::sigset_t,
     // Written by the child, which shares memory with the parent till it calls exec
     error: Cell<Option<i32>>,
 }
@@ -30,10 +32,26 @@ pub(crate) unsafe fn _spawn_child<S: Object, R: Object>(
     inherited_fds: &[BorrowedFd<'_>],
 ) -> Result<Pid> {
     let child_fd_str = CString::new(child_fd.as_raw_fd().to_string()).unwrap();
+
+    // The child shares memory with us till it calls exec, so our signal handlers must not be
+    // executed in it, much less on its tiny stack
+    let mut all_signals = MaybeUninit::uninit();
+    libc::sigfillset(all_signals.as_mut_ptr());
+    let mut signal_mask = MaybeUninit::uninit();
+    let error = libc::pthread_sigmask(
+        libc::SIG_BLOCK,
+        all_signals.as_ptr(),
+        signal_mask.as_mut_ptr(),
+    );
+    if error != 0 {
+        return Err(std::io::Error::from_raw_os_error(error));
+    }
+
     let clone_arg = CloneArg {
         child_fd: child_fd.0.fd.as_handle(),
         child_fd_str: &child_fd_str,
         inherited_fds,
+        signal_mask: signal_mask.assume_init(),
         error: Cell::new(None),
     };
 
@@ -45,9 +63,19 @@ pub(crate) unsafe fn _spawn_child<S: Object, R: Object>(
         &clone_arg as *const CloneArg as *mut c_void,
     );
 
-    if result < 0 {
-        return Err(std::io::Error::last_os_error());
-    }
+    let result = if result < 0 {
+        Err(std::io::Error::last_os_error())
+    } else {
+        Ok(result)
+    };
+
+    libc::pthread_sigmask(
+        libc::SIG_SETMASK,
+        &clone_arg.signal_mask,
+        std::ptr::null_mut(),
+    );
+
+    let result = result?;
 
     let pid = Pid::from_raw(result as i32).unwrap();
     if let Some(error) = clone_arg.error.get() {
@@ -82,6 +110,8 @@ fn fork_child_main(arg: &CloneArg) -> Result<()> {
     }
 
     unsafe {
+        reset_signals(&arg.signal_mask);
+
         libc::execv(
             c"/proc/self/exe".as_ptr(),
             &[
@@ -94,3 +124,23 @@ fn fork_child_main(arg: &CloneArg) -> Result<()> {
 
     Err(std::io::Error::last_os_error())
 }
+
+/// Replaces the signal handlers with the default ones, just like exec does, and then unblocks the
+/// signals.
+unsafe fn reset_signals(signal_mask: &libc::sigset_t) {
+    for signal in 1..=libc::SIGRTMAX() {
+        // This fails for the signals reserved by libc
+        let mut action = MaybeUninit::<libc::sigaction>::uninit();
+        if libc::sigaction(signal, std::ptr::null(), action.as_mut_ptr()) == -1 {
+            continue;
+        }
+
+        let mut action = action.assume_init();
+        if action.sa_sigaction != libc::SIG_DFL && action.sa_sigaction != libc::SIG_IGN {
+            action.sa_sigaction = libc::SIG_DFL;
+            libc::sigaction(signal, &action, std::ptr::null_mut());
+        }
+    }
+
+    libc::pthread_sigmask(libc::SIG_SETMASK, signal_mask, std::ptr::null_mut());
+}
-- 
2.43.0

