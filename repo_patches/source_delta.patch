From 083603d782e0560d561e5ba3c68868c2383d1fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 01/50] fix: shift the tail the right way in
 basic_linear_buffer::insert()

With enough spare capacity insert() moved [before_this + n, ...) on top of
[before_this, ...): the old tail was lost and bytes past size() were read.
---
 include/asioext/impl/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 5153cf3..6492b11 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -88,8 +88,8 @@ void basic_linear_buffer<Allocator>::insert(std::size_t before_this,
                   size_ - before_this);
     });
   } else {
-    std::memmove(rep_.data_ + before_this,
-                 rep_.data_ + before_this + n,
+    std::memmove(rep_.data_ + before_this + n,
+                 rep_.data_ + before_this,
                  size_ - before_this);
     std::memcpy(rep_.data_ + before_this, data, n);
   }
-- 
2.43.0


From 75928edf6ba1c0a47afefbec06b55a693ab984da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 02/50] fix: free the old storage in basic_linear_buffer's move
 assignment

The previous allocation was overwritten without being deallocated.
---
 include/asioext/impl/linear_buffer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 6492b11..b00750d 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -171,6 +171,12 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
                                                  std::true_type)
   ASIOEXT_NOEXCEPT_IF(std::is_nothrow_move_assignable<allocator_type>::value)
 {
+  if (this == &other)
+    return;
+
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+
   static_cast<allocator_type&>(rep_) =
       std::move(static_cast<allocator_type&>(other.rep_));
   rep_.data_ = other.rep_.data_;
-- 
2.43.0


From 4eb2ff7e17072a6bb8a954dc71427f33162629e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 03/50] fix: finish basic_linear_buffer's non-propagating move
 assignment

With equal allocators it called itself until the stack overflowed; with
unequal ones the source kept its contents although it is documented to be
empty afterwards.
---
 include/asioext/impl/linear_buffer.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index b00750d..5a0ba4d 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -152,18 +152,32 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
   ASIOEXT_NOEXCEPT_IF(allocator_traits_type::is_always_equal::value)
 #endif
 {
+  if (this == &other)
+    return;
+
   if (static_cast<allocator_type&>(rep_) !=
       static_cast<allocator_type&>(other.rep_)) {
+    // Storage can't be transferred, so copy it.
+    if (other.size_ > capacity_)
+      reallocate(other.size_, [] (uint8_t*) {});
+
+    std::memcpy(rep_.data_, other.rep_.data_, other.size_);
+
+    if (other.rep_.data_)
+      allocator_traits_type::deallocate(other.rep_, other.rep_.data_,
+                                        other.capacity_);
+  } else {
     if (rep_.data_)
       allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
 
+    rep_.data_ = other.rep_.data_;
     capacity_ = other.capacity_;
-    size_ = other.size_;
-    rep_.data_ = allocator_traits_type::allocate(rep_, capacity_);
-    std::memcpy(rep_.data_, other.rep_.data_, size_);
-  } else {
-    move_assign(other, std::false_type());
   }
+
+  size_ = other.size_;
+  max_size_ = other.max_size_;
+  other.rep_.data_ = nullptr;
+  other.capacity_ = other.size_ = 0;
 }
 
 template <typename Allocator>
-- 
2.43.0


From 0bde4320f3c228f272689e4502143a28f530be87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 04/50] fix: let dynamic_linear_buffer::data() work before the
 first prepare()

size_ is a sentinel until prepare() is called, so data() returned a buffer
of SIZE_MAX bytes.
---
 include/asioext/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 89139b2..a57d091 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -522,7 +522,7 @@ public:
   /// member function that modifies the input sequence or output sequence.
   mutable_buffers_type data() ASIOEXT_NOEXCEPT
   {
-    return mutable_buffers_type(data_.data(), size_);
+    return mutable_buffers_type(data_.data(), size());
   }
 
   /// Get a list of buffers that represents the input sequence.
@@ -535,7 +535,7 @@ public:
   /// member function that modifies the input sequence or output sequence.
   const_buffers_type data() const ASIOEXT_NOEXCEPT
   {
-    return const_buffers_type(data_.data(), size_);
+    return const_buffers_type(data_.data(), size());
   }
 #endif
 
-- 
2.43.0


From 62c9c99ed116730d28c1903628f8eb4fc3299790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 05/50] fix: don't overflow in dynamic_linear_buffer::data(pos,
 n)

pos + n wrapped around for large n and the bounds check was skipped.
---
 include/asioext/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index a57d091..6f32c67 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -558,7 +558,7 @@ public:
     const std::size_t siz = data_.size();
     if (pos > siz)
       pos = siz;
-    if (pos + n > siz)
+    if (n > siz - pos)
       n = siz - pos;
     return mutable_buffers_type(data_.data() + pos, n);
   }
@@ -579,7 +579,7 @@ public:
     const std::size_t siz = data_.size();
     if (pos > siz)
       pos = siz;
-    if (pos + n > siz)
+    if (n > siz - pos)
       n = siz - pos;
     return const_buffers_type(data_.data() + pos, n);
   }
-- 
2.43.0


From f4c66bdeb395753b49acf7ec441c48d5bd316ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 06/50] fix: accept negative seconds in compose_time()

The lower bound was taken from min_second(), a small positive number, so
every time before 1970 was rejected and file_handle::times() failed with
value_too_large.
---
 include/asioext/detail/impl/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index ccd4d19..1ec1a35 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -161,7 +161,7 @@ bool compose_time(const FirstDuration& first, const SecondDuration& second,
       first.count() == values_type::min_first() - 1) {
     if (second.count() < values_type::min_second())
       return false;
-  } else if (first.count() < values_type::min_second()) {
+  } else if (first.count() < values_type::min_first()) {
     return false;
   }
 
-- 
2.43.0


From 9654b7514903905b494ee4388886c6e677bf21a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 07/50] fix: detect overflow for arbitrary ratios in
 safe_duration_cast()

No value is below the minimum and above the maximum at the same time, so
the check never triggered and the multiplication overflowed.
---
 include/asioext/detail/impl/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index 1ec1a35..1817eba 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -50,7 +50,7 @@ ASIOEXT_CONSTEXPR14 bool safe_duration_cast(
       return true;
     }
   } else {
-    if (in.count() < (conv_limit::min)() / result_ratio::num &&
+    if (in.count() < (conv_limit::min)() / result_ratio::num ||
         in.count() > (conv_limit::max)() / result_ratio::num)
       return false;
     const conv_type temp = static_cast<conv_type>(in.count()) *
-- 
2.43.0


From 4d80e2c9bd88d30f35ecc08891d36dac46542817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 08/50] fix: reject invalid open_args in open()

Invalid arguments (e.g. two creation dispositions) were forwarded to the
system as flags == -1, which Linux treats as O_PATH | O_DIRECTORY: opening
a directory with mutually exclusive flags succeeded.
---
 include/asioext/detail/impl/posix_file_ops.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 3a036df..11ccbb7 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -240,6 +240,11 @@ int parse_open_flags(open_flags flags) ASIOEXT_NOEXCEPT
 handle_type open(const char* path, const open_args& args,
                  error_code& ec) ASIOEXT_NOEXCEPT
 {
+  if (!args.is_valid()) {
+    set_error(ec, EINVAL);
+    return -1;
+  }
+
   mode_t mode = static_cast<mode_t>(args.mode());
   while (true) {
     handle_type fd = ::open(path, O_CLOEXEC | args.native_flags(), mode);
-- 
2.43.0


From 1e9fc3cc6321bb36a1f1175db2c933f919c4190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 09/50] fix: reset ec in get_stdin(), get_stdout() and
 get_stderr()

ec is documented to be reset if no error occurred, but was left untouched.
---
 include/asioext/detail/impl/posix_file_ops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 11ccbb7..bfd1ab8 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -304,16 +304,19 @@ handle_type duplicate(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
 
 handle_type get_stdin(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDIN_FILENO;
 }
 
 handle_type get_stdout(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDOUT_FILENO;
 }
 
 handle_type get_stderr(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDERR_FILENO;
 }
 
-- 
2.43.0


From 50347582e5bffa96cd9791858ed5ec98a3dbd3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 10/50] fix: make io_object_holder's move assignment compile

---
 include/asioext/io_object_holder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/io_object_holder.hpp b/include/asioext/io_object_holder.hpp
index 9a2d25f..d7e622b 100644
--- a/include/asioext/io_object_holder.hpp
+++ b/include/asioext/io_object_holder.hpp
@@ -107,6 +107,7 @@ public:
   // Move-assign an I/O object.
   io_object_holder& operator=(io_object_holder&& other)
       noexcept(noexcept(std::declval<IoObjectService>().move_assign(std::declval<implementation_type&>(),
+                                                                    std::declval<IoObjectService&>(),
                                                                     std::declval<implementation_type&>())))
   {
     if (this != &other)
-- 
2.43.0


From e8b002906cde5ec837a183ebc4d2d1038e9b2d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 11/50] fix: keep a usable cancellation token source when
 moving files

---
 include/asioext/impl/thread_pool_file_service.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 0906740..c721a94 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -8,6 +8,8 @@
 
 #include "asioext/detail/error.hpp"
 
+#include <utility>
+
 ASIOEXT_NS_BEGIN
 
 thread_pool_file_service::thread_pool_file_service(
@@ -48,8 +50,9 @@ void thread_pool_file_service::move_construct(
   impl.handle_ = other_impl.handle_;
   other_impl.handle_.clear();
 
-  impl.cancel_token_ =
-      ASIOEXT_MOVE_CAST(cancellation_token_source)(other_impl.cancel_token_);
+  // Outstanding operations stay associated with the moved handle, while both
+  // objects must be left with a token source that can issue new tokens.
+  std::swap(impl.cancel_token_, other_impl.cancel_token_);
 
   // Insert implementation into linked list of all implementations.
   detail::mutex::scoped_lock lock(mutex_);
@@ -82,6 +85,10 @@ void thread_pool_file_service::move_assign(
   impl.handle_ = other_impl.handle_;
   other_impl.handle_.clear();
 
+  // close_for_destruction() destroyed our source. See move_construct()
+  impl.cancel_token_.reset();
+  std::swap(impl.cancel_token_, other_impl.cancel_token_);
+
   if (this != &other_service) {
     // Insert implementation into linked list of all implementations.
     detail::mutex::scoped_lock lock(other_service.mutex_);
-- 
2.43.0


From cfcf07422a88f7d53f9eeb64b714473ff058d35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 12/50] fix: reset ec in basic_file's cancel()

---
 include/asioext/impl/thread_pool_file_service.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index c721a94..911acdb 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -265,6 +265,7 @@ void thread_pool_file_service::cancel(implementation_type& impl,
   }
 
   impl.cancel_token_.cancel();
+  ec = error_code();
   // TODO(tim): log handler operation
 }
 
-- 
2.43.0


From bd3b12cace6ed28fd92d53008b3906b713dadba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 13/50] fix: cancel queued operations in basic_file's close()

---
 include/asioext/impl/thread_pool_file_service.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 911acdb..5c62b2d 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -173,6 +173,11 @@ void thread_pool_file_service::assign(implementation_type& impl,
 void thread_pool_file_service::close(implementation_type& impl,
                                      error_code& ec) ASIOEXT_NOEXCEPT
 {
+  // The native handle might be reused as soon as it's closed, so operations
+  // that haven't started yet must not get to use it.
+  if (impl.handle_.is_open())
+    impl.cancel_token_.cancel();
+
   impl.handle_.close(ec);
 }
 
-- 
2.43.0


From 27ef6735511338cfa2fde537dac522fcfb412bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 14/50] fix: make unique_handler's handler assignment compile

---
 include/asioext/unique_handler.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/asioext/unique_handler.hpp b/include/asioext/unique_handler.hpp
index 07445ca..b2b1654 100644
--- a/include/asioext/unique_handler.hpp
+++ b/include/asioext/unique_handler.hpp
@@ -139,13 +139,9 @@ public:
   template <typename Handler>
   unique_handler& operator=(Handler&& handler)
   {
-    if (storage_)
-      storage_->abort(storage_);
-
-    storage_ = new (detail::allocate_operation<storage_impl<std::decay_t<Handler>>,
-                                               Handler>(handler))
-        storage_impl<std::decay_t<Handler>>(std::move(handler));
-    return *this;
+    // Only replace the current handler once we've got storage for the new one.
+    unique_handler temp(std::forward<Handler>(handler));
+    return *this = std::move(temp);
   }
 
   /// @brief Complete the stored handler.
-- 
2.43.0


From 9b9a737b7d22e0b4f8adf4049e474bbdaaa60981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 15/50] fix: release a bound handler's work after the handler
 was invoked

---
 include/asioext/detail/bound_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/bound_handler.hpp b/include/asioext/detail/bound_handler.hpp
index 3215d3e..e357a14 100644
--- a/include/asioext/detail/bound_handler.hpp
+++ b/include/asioext/detail/bound_handler.hpp
@@ -121,8 +121,8 @@ public:
     ASIOEXT_NOEXCEPT_IF(noexcept(asioext::detail::invoke(
           handler_, args_, args_indices_type{})))
   {
-    this->reset(); // defined in Work
     asioext::detail::invoke(handler_, args_, args_indices_type{});
+    this->reset(); // defined in Work
   }
 };
 
-- 
2.43.0


From 3bb683c549427eb180501e4f127a6aac2df49b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 16/50] fix: tell destroyed and live cancellation token sources
 apart

---
 include/asioext/impl/cancellation_token.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/cancellation_token.cpp b/include/asioext/impl/cancellation_token.cpp
index 250ea19..8bf7be8 100644
--- a/include/asioext/impl/cancellation_token.cpp
+++ b/include/asioext/impl/cancellation_token.cpp
@@ -45,7 +45,9 @@ cancellation_token_source& cancellation_token_source::operator=(
 
 void cancellation_token_source::cancel()
 {
-  ptr_.reset(static_cast<void*>(0), detail::null_deleter());
+  // A destroyed source stays destroyed until reset() is called.
+  if (ptr_.use_count() != 0)
+    ptr_.reset(static_cast<void*>(0), detail::null_deleter());
 }
 
 void cancellation_token_source::destroy() ASIOEXT_NOEXCEPT
@@ -55,7 +57,8 @@ void cancellation_token_source::destroy() ASIOEXT_NOEXCEPT
 
 void cancellation_token_source::reset()
 {
-  if (!ptr_)
+  // get() is always null, so we can't use operator bool to check this.
+  if (ptr_.use_count() == 0)
     ptr_.reset(static_cast<void*>(0), detail::null_deleter());
 }
 
-- 
2.43.0


From 4e1bad9a4bf6b1eae1e0866e4709b2435b410ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 17/50] fix: don't leak the new handle if
 unique_file_handle::reset() fails

---
 include/asioext/impl/unique_file_handle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/unique_file_handle.cpp b/include/asioext/impl/unique_file_handle.cpp
index 2a53dae..1ed0467 100644
--- a/include/asioext/impl/unique_file_handle.cpp
+++ b/include/asioext/impl/unique_file_handle.cpp
@@ -67,9 +67,9 @@ void unique_file_handle::reset(file_handle handle)
 void unique_file_handle::reset(file_handle handle,
                                error_code& ec) ASIOEXT_NOEXCEPT
 {
+  // Even if close() fails, the old handle is gone and we own the new one.
   close(ec);
-  if (!ec)
-    handle_ = handle;
+  handle_ = handle;
 }
 
 ASIOEXT_NS_END
-- 
2.43.0


From f241361d6be51c2a2877177b7c8d2f000b82d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 18/50] fix: encode SOCKS4 requests in the SOCKS4
 async_execute()

---
 include/asioext/socks/detail/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 2677119..e7729ac 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -52,7 +52,7 @@ public:
 
     if (0 != size) {
       asio::mutable_buffer buf = buffer_.prepare(size);
-      encode_exec_packet(cmd, remote, remote_host, port,
+      encode_exec_packet(cmd, remote, remote_host, port, user_id,
                          static_cast<uint8_t*>(buf.data()));
       buffer_.commit(size);
     }
-- 
2.43.0


From e5d3eb14b1f17e1e7015dc890892ce9252e404fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 19/50] fix: send the port in SOCKS4 requests

---
 include/asioext/socks/impl/client.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/socks/impl/client.hpp b/include/asioext/socks/impl/client.hpp
index ccc6d1b..db8966d 100644
--- a/include/asioext/socks/impl/client.hpp
+++ b/include/asioext/socks/impl/client.hpp
@@ -25,7 +25,7 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, remote, std::string(), 0, user_id, buffer),
+          socket, cmd, remote, std::string(), remote.port(), user_id, buffer),
       handler, socket
   );
 }
@@ -40,7 +40,7 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, asio::ip::tcp::endpoint(), remote, 0, user_id, buffer),
+          socket, cmd, asio::ip::tcp::endpoint(), remote, port, user_id, buffer),
       handler, socket
   );
 }
-- 
2.43.0


From b28770dc7736cbec9742d0ff71f375a70d88483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 20/50] fix: fail on unknown SOCKS status codes

---
 include/asioext/socks/detail/client.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index e7729ac..028318e 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -110,6 +110,7 @@ void v4_exec_op<Socket, DynamicBuffer>::operator()(
       case 0x5b: ec = error::generic; break;
       case 0x5c: ec = error::identd_not_reachable; break;
       case 0x5d: ec = error::login_failed; break;
+      default: ec = error::generic; break;
     }
 
     self.complete(ec);
@@ -358,6 +359,7 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
           case 6: ec = asio::error::timed_out; break;
           case 7: ec = error::command_not_supported; break;
           case 8: ec = asio::error::address_family_not_supported; break;
+          default: ec = error::generic; break;
         }
         self.complete(ec);
         return;
-- 
2.43.0


From 8a84861ce991832427db0e17491ef2a194f757a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 21/50] fix: reject SOCKS5 replies with an unknown address type

---
 include/asioext/socks/detail/client.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 028318e..ab14ef7 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -382,6 +382,11 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
         size = 16 - 1;
         break;
       }
+      // We can't tell how long the address is.
+      default: {
+        self.complete(error::generic);
+        return;
+      }
     }
 
     ASIOEXT_CORO_YIELD asio::async_read(socket_, buffer_.prepare(size + 2),
-- 
2.43.0


From 76af8c2954fb0d75f1e9e096dd8ef634ea866c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 22/50] fix: reject unterminated IP literals in URLs

---
 include/asioext/detail/impl/url_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index d67c6c5..8ab6cae 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -237,6 +237,12 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
       return;
     }
 
+    if (first[-1] != ']') {
+      // unterminated IP literal
+      ec = make_error_code(url_error::invalid_character);
+      return;
+    }
+
     out.host = std::string_view(start, first - start);
   } else {
     auto start = first;
-- 
2.43.0


From 364ae39cd970d61533989fbe3d597d962a45a8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 23/50] fix: don't drop the path of URLs like 'scheme:/'

---
 include/asioext/detail/impl/url_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index 8ab6cae..eb8b117 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -464,6 +464,11 @@ void parse_url(const char* first, const char* last, parsed_url& out,
   if (current_part)
     *current_part = std::string_view(first, it - first);
 
+  // The URL ended before we knew whether the '/' following 'scheme:' belongs to
+  // an authority prefix or to the path. Turns out it's the latter.
+  if (s == url_state::scheme_suffix_slash)
+    out.path = std::string_view(last - 1, 1);
+
   ec = error_code();
   if (!out.host.empty()) {
     // until this point the entire authority section is stored in |host|
-- 
2.43.0


From ce69bda26b4dd84edc4549b2679f59ee0c1b5e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 24/50] fix: make buffered_stream compile with standalone Asio

---
 include/asioext/experimental/buffered_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 5fc9ea8..d637651 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -325,7 +325,7 @@ buffered_stream<Stream, Allocator>::async_fill(ReadHandler&& handler)
 
 template <typename Stream, typename Allocator>
 typename buffered_stream<Stream, Allocator>::buffer_type*
-buffered_stream<Stream, Allocator>::lock_write_buffers(boost::system::error_code& ec)
+buffered_stream<Stream, Allocator>::lock_write_buffers(error_code& ec)
 {
   if (flush_pending_) {
     ec = asio::error::already_started;
-- 
2.43.0


From 503bbe450a4b254471870f9636ea511552a1dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 25/50] fix: reset ec in buffered_stream's flush()

---
 include/asioext/experimental/buffered_stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index d637651..3964eae 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -342,6 +342,7 @@ buffered_stream<Stream, Allocator>::lock_write_buffers(error_code& ec)
     }
   }
 
+  ec = error_code();
   flush_pending_ = true;
   return &write_buffer_locked_;
 }
-- 
2.43.0


From cf63b52265f23be63323ed46f0c2042f5116ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 26/50] fix: report not_found if connect() has no endpoints to
 try

---
 include/asioext/impl/connect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/impl/connect.cpp b/include/asioext/impl/connect.cpp
index 387eb97..f69f599 100644
--- a/include/asioext/impl/connect.cpp
+++ b/include/asioext/impl/connect.cpp
@@ -33,7 +33,7 @@ void connect(asio::ip::tcp::socket::lowest_layer_type& socket,
     return;
 
   // Try each endpoint until we successfully establish a connection.
-  ec = asio::error::host_not_found;
+  ec = asio::error::not_found;
   for (const auto& entry : results) {
     socket.close(ec);
     socket.connect(entry, ec);
-- 
2.43.0


From e297497272729a7fdf6077532f111e5d0d19826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 27/50] fix: accept '?' and '#' after an empty path in URLs

---
 include/asioext/detail/impl/url_parser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index eb8b117..3cfe7d6 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -318,12 +318,20 @@ ASIOEXT_CONSTEXPR14 url_state get_state_for(url_state s,
         return url_state::scheme_suffix_slash;
       if (is_url_char(ch))
         return url_state::path;
+
+      // the path may be empty
+      switch (ch) {
+        case '?':
+          return url_state::query_string_start;
+        case '#':
+          return url_state::fragment_start;
+      }
       break;
 
     case url_state::scheme_suffix_slash:
       if (ch == '/')
         return url_state::authority_start;
-      if (is_url_char(ch))
+      if (is_url_char(ch) || ch == '?' || ch == '#')
         return url_state::path_after_scheme;
       break;
 
@@ -340,6 +348,8 @@ ASIOEXT_CONSTEXPR14 url_state get_state_for(url_state s,
           return url_state::path;
         case '?':
           return url_state::query_string_start;
+        case '#':
+          return url_state::fragment_start;
         case '@':
           return url_state::authority_with_at;
         case '[':
-- 
2.43.0


From 2e37fd588295a6e762624debc9a6e9abad551f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 28/50] fix: define url_view's member functions in header-only
 mode

---
 include/asioext/url_view.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/url_view.hpp b/include/asioext/url_view.hpp
index 613c9dd..852f747 100644
--- a/include/asioext/url_view.hpp
+++ b/include/asioext/url_view.hpp
@@ -52,4 +52,8 @@ private:
 
 ASIOEXT_NS_END
 
+#if defined(ASIOEXT_HEADER_ONLY)
+# include "asioext/impl/url_view.cpp"
+#endif
+
 #endif
-- 
2.43.0


From 63548d8ca15a6c08ed35387a993523b16b3044fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 29/50] fix: let read_file() report allocation failures of the
 container

The error_code overload for file_handles was noexcept, so a container that
could not be resized to the file's size terminated the program (in all
container overloads, as they are implemented in terms of this one).
---
 include/asioext/impl/read_file.hpp | 3 +--
 include/asioext/read_file.hpp      | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/asioext/impl/read_file.hpp b/include/asioext/impl/read_file.hpp
index 0b572fa..5e32555 100644
--- a/include/asioext/impl/read_file.hpp
+++ b/include/asioext/impl/read_file.hpp
@@ -99,8 +99,7 @@ ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
 
 template <class RawByteContainer>
 ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
-    read_file(file_handle file, RawByteContainer& c,
-              error_code& ec) ASIOEXT_NOEXCEPT
+    read_file(file_handle file, RawByteContainer& c, error_code& ec)
 {
   const uint64_t size = file.size(ec);
   if (ec) return;
diff --git a/include/asioext/read_file.hpp b/include/asioext/read_file.hpp
index 1e00625..9756022 100644
--- a/include/asioext/read_file.hpp
+++ b/include/asioext/read_file.hpp
@@ -151,8 +151,7 @@ ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
 /// the object is reset.
 template <class RawByteContainer>
 ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
-    read_file(file_handle file, RawByteContainer& c,
-              error_code& ec) ASIOEXT_NOEXCEPT;
+    read_file(file_handle file, RawByteContainer& c, error_code& ec);
 
 /// @}
 
-- 
2.43.0


From 1537dcbed9d7348d6f39a390bb59e7349c0f5da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 30/50] fix: don't terminate if closing a file fails while it's
 destroyed

close_for_destruction() used the throwing close(), although it's called from
destructors and while shutting down the service.
---
 include/asioext/impl/thread_pool_file_service.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 5c62b2d..bbbacb9 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -279,7 +279,11 @@ void thread_pool_file_service::close_for_destruction(implementation_type& impl)
   if (impl.handle_.is_open()) {
     // TODO(tim): log handler operation
     impl.cancel_token_.destroy();
-    impl.handle_.close();
+
+    // There's no one we could report an error to. (We're mostly called from
+    // destructors, so throwing isn't an option, either)
+    error_code ec;
+    impl.handle_.close(ec);
   }
 }
 
-- 
2.43.0


From 40c25ad12b6fca1f09f77f85b1f0f9d70bdce919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 31/50] fix: compute time limits in a type that can hold them

time_pair_values cast the limits of the combined duration to FirstDuration, so
they were garbage if FirstDuration's representation was narrower (e.g. 32-bit
seconds).
---
 include/asioext/detail/impl/chrono.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index 1817eba..e467e4d 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -75,6 +75,12 @@ struct time_pair_values
     intmax_t
   >::type common_type;
 
+  // FirstDuration and SecondDuration might be too small for the limits.
+  typedef chrono::duration<common_type, typename FirstDuration::period>
+      first_type;
+  typedef chrono::duration<common_type, typename SecondDuration::period>
+      second_type;
+
   static ASIOEXT_CONSTEXPR typename FirstDuration::rep first_rep_min()
       ASIOEXT_NOEXCEPT
   { return (std::numeric_limits<typename FirstDuration::rep>::min)(); }
@@ -84,15 +90,15 @@ struct time_pair_values
   { return (std::numeric_limits<typename SecondDuration::rep>::min)(); }
 
   static ASIOEXT_CONSTEXPR common_type max_first() ASIOEXT_NOEXCEPT
-  { return chrono::duration_cast<FirstDuration>((Duration::max)()).count(); }
+  { return chrono::duration_cast<first_type>((Duration::max)()).count(); }
 
   static ASIOEXT_CONSTEXPR common_type min_first() ASIOEXT_NOEXCEPT
-  { return chrono::duration_cast<FirstDuration>((Duration::min)()).count(); }
+  { return chrono::duration_cast<first_type>((Duration::min)()).count(); }
 
   static ASIOEXT_CONSTEXPR common_type max_second() ASIOEXT_NOEXCEPT
   {
-    return chrono::duration_cast<SecondDuration>(
-        (Duration::max)() - FirstDuration(max_first())).count();
+    return chrono::duration_cast<second_type>(
+        (Duration::max)() - first_type(max_first())).count();
   }
 
   static ASIOEXT_CONSTEXPR common_type min_second() ASIOEXT_NOEXCEPT
@@ -100,9 +106,9 @@ struct time_pair_values
     // For negative |first|s, we use (first + 1f) - (1f - |second|)
     // so the smallest |second| we can accept for |min_f - 1| is
     // 1f + clock_min - min_f
-    return chrono::duration_cast<SecondDuration>(
-        (Duration::min)() - FirstDuration(min_first()) +
-        FirstDuration(1)).count();
+    return chrono::duration_cast<second_type>(
+        (Duration::min)() - first_type(min_first()) +
+        first_type(1)).count();
   }
 };
 
-- 
2.43.0


From c35c459bbfa1972b029091a94ee124738239a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 32/50] fix: move unique_handler's old handler out before
 destroying it

Its destructor might use or destroy the unique_handler that's being assigned to.
---
 include/asioext/unique_handler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/asioext/unique_handler.hpp b/include/asioext/unique_handler.hpp
index b2b1654..607d4b4 100644
--- a/include/asioext/unique_handler.hpp
+++ b/include/asioext/unique_handler.hpp
@@ -119,9 +119,9 @@ public:
   /// constructed using the @c unique_handler() constructor.
   unique_handler& operator=(unique_handler&& other) ASIOEXT_NOEXCEPT
   {
-    if (storage_)
-      storage_->abort(storage_);
-
+    // Like in reset(), the current handler's destructor might run user-code
+    // that uses (or destroys) us. So it has to be the last thing that happens.
+    unique_handler temp(std::move(*this));
     storage_ = other.storage_;
     other.storage_ = nullptr;
     return *this;
-- 
2.43.0


From f29d4bdc6c1feabd0bf89a90f8d8804d922e5d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:57 +0000
Subject: [PATCH 33/50] fix: let buffered_stream flush again what a failed
 flush has left

---
 include/asioext/experimental/buffered_stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 3964eae..ce10520 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -132,7 +132,9 @@ public:
 
   bool can_flush() const ASIOEXT_NOEXCEPT
   {
-    return !flush_pending_ && !write_buffer_.empty();
+    // A flush that failed might have left data behind.
+    return !flush_pending_ &&
+           !(write_buffer_.empty() && write_buffer_locked_.empty());
   }
 
   bool flush_pending() const ASIOEXT_NOEXCEPT { return flush_pending_; }
-- 
2.43.0


From 0a97252c6573091d30621e74d8efe7c261a19864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 34/50] fix: finish file operations before destroying
 thread_pool_file_service's state

---
 include/asioext/impl/thread_pool_file_service.cpp | 12 ++++++++----
 include/asioext/thread_pool_file_service.hpp      |  7 ++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index bbbacb9..23d5454 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -15,19 +15,23 @@ ASIOEXT_NS_BEGIN
 thread_pool_file_service::thread_pool_file_service(
     asio::io_context& owner, std::size_t num_threads)
   : io_context_service_base(owner)
-  , pool_(num_threads)
   , impl_list_(0)
+  , pool_(num_threads)
 {
 }
 
 void thread_pool_file_service::shutdown_service()
 {
-  // Close all implementations, causing all operations to complete.
+  // Wait for running operations: they still use the native handles, and their
+  // handlers might own files, so they mustn't be handed over to the execution
+  // context later on. (it destroys its handlers after this service)
+  pool_.stop();
+  pool_.join();
+
+  // Close all implementations.
   detail::mutex::scoped_lock lock(mutex_);
   for (implementation_type* cur = impl_list_; cur; cur = cur->next_)
     close_for_destruction(*cur);
-
-  pool_.stop();
 }
 
 void thread_pool_file_service::construct(implementation_type& impl)
diff --git a/include/asioext/thread_pool_file_service.hpp b/include/asioext/thread_pool_file_service.hpp
index 817d32f..d9586ca 100644
--- a/include/asioext/thread_pool_file_service.hpp
+++ b/include/asioext/thread_pool_file_service.hpp
@@ -294,14 +294,15 @@ private:
   // destroyed.
   ASIOEXT_DECL void close_for_destruction(implementation_type& impl);
 
-  // The thread pool.
-  asio::thread_pool pool_;
-
   // Mutex to protect access to the linked list of implementations.
   detail::mutex mutex_;
 
   // The head of a linked list of all implementations.
   implementation_type* impl_list_;
+
+  // The thread pool. Destroys the pending handlers, which might own files, so
+  // it must be destroyed before all other members.
+  asio::thread_pool pool_;
 };
 
 ASIOEXT_NS_END
-- 
2.43.0


From cc98af8b64858b071556414f117063e44259c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 35/50] fix: let basic_file's native handle constructors
 compile

native_handle_type has no native_handle() member.
---
 include/asioext/basic_file.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/basic_file.hpp b/include/asioext/basic_file.hpp
index f139c04..742377d 100644
--- a/include/asioext/basic_file.hpp
+++ b/include/asioext/basic_file.hpp
@@ -149,7 +149,7 @@ public:
     : holder_(ex)
   {
     error_code ec;
-    holder_.get_service().assign(holder_.get_implementation(), handle.native_handle(), ec);
+    holder_.get_service().assign(holder_.get_implementation(), handle, ec);
     detail::throw_error(ec, "basic_file construct");
   }
 
@@ -168,7 +168,7 @@ public:
     : holder_(context)
   {
     error_code ec;
-    holder_.get_service().assign(holder_.get_implementation(), handle.native_handle(), ec);
+    holder_.get_service().assign(holder_.get_implementation(), handle, ec);
     detail::throw_error(ec, "basic_file construct");
   }
 
-- 
2.43.0


From cf33a63c60dfa678db2817159533cc3ef2d1458a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 36/50] fix: refuse SOCKS4 user ids and host names that contain
 zero bytes

Both are sent null-terminated, so the server would take what follows the
zero byte for the next string, or for data sent through the tunnel.
---
 include/asioext/socks/detail/impl/protocol.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/socks/detail/impl/protocol.cpp b/include/asioext/socks/detail/impl/protocol.cpp
index 008834e..3474740 100644
--- a/include/asioext/socks/detail/impl/protocol.cpp
+++ b/include/asioext/socks/detail/impl/protocol.cpp
@@ -19,6 +19,11 @@ std::size_t get_exec_packet_size(const asio::ip::tcp::endpoint& remote,
   if (remote_host.empty() && remote.protocol() != asio::ip::tcp::v4())
     return 0;
 
+  // Both strings are null-terminated.
+  if (user_id.find('\0') != std::string::npos ||
+      remote_host.find('\0') != std::string::npos)
+    return 0;
+
   std::size_t size = 1 + 1 + 2 + 4;
   size += user_id.size() + 1;
 
-- 
2.43.0


From a4933a3ed6cd91bd9ceae98284e759d087f8b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:00 +0000
Subject: [PATCH 37/50] fix: don't deallocate null when basic_linear_buffer
 allocates for the first time

---
 include/asioext/impl/linear_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 5a0ba4d..ff6efdf 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -207,7 +207,8 @@ void basic_linear_buffer<Allocator>::reallocate(std::size_t cap, Function&& fn)
 {
   uint8_t* new_buffer = allocator_traits_type::allocate(rep_, cap);
   fn(new_buffer);
-  allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
   rep_.data_ = new_buffer;
   capacity_ = cap;
 }
-- 
2.43.0


From ec868d28a1aac6a497629dad3ed133dded2c9242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:07 +0000
Subject: [PATCH 38/50] fix: Reset the error code after successful file
 operations on Windows

Reads, writes, seeks and changes of permissions and attributes left
whatever error the caller's object held.
---
 include/asioext/detail/impl/win_file_ops.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/asioext/detail/impl/win_file_ops.cpp b/include/asioext/detail/impl/win_file_ops.cpp
index a22f90c..7758ffe 100644
--- a/include/asioext/detail/impl/win_file_ops.cpp
+++ b/include/asioext/detail/impl/win_file_ops.cpp
@@ -317,8 +317,10 @@ uint64_t seek(handle_type fd, seek_origin origin, int64_t offset,
   LARGE_INTEGER pos, res;
   pos.QuadPart = offset;
 
-  if (::SetFilePointerEx(fd, pos, &res, static_cast<DWORD>(origin)))
+  if (::SetFilePointerEx(fd, pos, &res, static_cast<DWORD>(origin))) {
+    ec = error_code();
     return res.QuadPart;
+  }
 
   set_error(ec);
   return 0;
@@ -384,8 +386,9 @@ void permissions(handle_type fd, file_perms perms, file_perm_options opts,
   info.ChangeTime.QuadPart = 0;
 
   if (::SetFileInformationByHandle(fd, FileBasicInfo, &info, sizeof(info)))
-    return;
-  set_error(ec);
+    ec = error_code();
+  else
+    set_error(ec);
 #else
   ec = asio::error::operation_not_supported;
 #endif
@@ -441,8 +444,9 @@ void attributes(handle_type fd, file_attrs attrs, file_attr_options opts,
   info.ChangeTime.QuadPart = 0;
 
   if (::SetFileInformationByHandle(fd, FileBasicInfo, &info, sizeof(info)))
-    return;
-  set_error(ec);
+    ec = error_code();
+  else
+    set_error(ec);
 #else
   ec = asio::error::operation_not_supported;
 #endif
@@ -486,6 +490,8 @@ uint32_t read(handle_type fd, void* buffer, uint32_t size,
 
   if (bytesRead == 0 && size != 0)
     ec = asio::error::eof;
+  else
+    ec = error_code();
 
   return bytesRead;
 }
@@ -499,6 +505,7 @@ uint32_t write(handle_type fd, const void* buffer, uint32_t size,
     return 0;
   }
 
+  ec = error_code();
   return bytesWritten;
 }
 
@@ -520,6 +527,8 @@ uint32_t pread(handle_type fd, void* buffer, uint32_t size, uint64_t offset,
 
   if (bytesRead == 0 && size != 0)
     ec = asio::error::eof;
+  else
+    ec = error_code();
 
   return bytesRead;
 }
@@ -540,6 +549,7 @@ uint32_t pwrite(handle_type fd, const void* buffer, uint32_t size,
     return 0;
   }
 
+  ec = error_code();
   return bytesWritten;
 }
 
-- 
2.43.0


From 73698edf8b4c004c82c16a81eba61ae496b8753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:27 +0000
Subject: [PATCH 39/50] fix: Don't wrap the sizes of large buffers on Windows

Sizes of 4 GiB and more were cut to their lower 32 bits, so reads and
writes with such buffers transferred next to nothing, or nothing at all
without an error.
---
 include/asioext/impl/file_handle_win.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/asioext/impl/file_handle_win.hpp b/include/asioext/impl/file_handle_win.hpp
index 7ded9d0..089cfdd 100644
--- a/include/asioext/impl/file_handle_win.hpp
+++ b/include/asioext/impl/file_handle_win.hpp
@@ -20,13 +20,24 @@ ASIOEXT_NS_BEGIN
 // but they impose very strict alignment and size requirements and are thus
 // unusable here.
 
+namespace detail {
+
+// ReadFile() and WriteFile() take 32-bit sizes, so larger buffers are only
+// transferred in part.
+inline uint32_t win_transfer_size(std::size_t size) ASIOEXT_NOEXCEPT
+{
+  return size <= 0xffffffffu ? static_cast<uint32_t>(size) : 0xffffffffu;
+}
+
+}
+
 template <typename MutableBufferSequence>
 std::size_t file_handle::read_some(const MutableBufferSequence& buffers,
                                    error_code& ec) ASIOEXT_NOEXCEPT
 {
   const asio::mutable_buffer buf = asioext::first_mutable_buffer(buffers);
   return detail::win_file_ops::read(
-      handle_, buf.data(), static_cast<uint32_t>(buf.size()), ec);
+      handle_, buf.data(), detail::win_transfer_size(buf.size()), ec);
 }
 
 template <typename ConstBufferSequence>
@@ -35,7 +46,7 @@ std::size_t file_handle::write_some(const ConstBufferSequence& buffers,
 {
   const asio::const_buffer buf = asioext::first_const_buffer(buffers);
   return detail::win_file_ops::write(
-      handle_, buf.data(), static_cast<uint32_t>(buf.size()), ec);
+      handle_, buf.data(), detail::win_transfer_size(buf.size()), ec);
 }
 
 template <typename MutableBufferSequence>
@@ -45,7 +56,7 @@ std::size_t file_handle::read_some_at(uint64_t offset,
 {
   const asio::mutable_buffer buf = asioext::first_mutable_buffer(buffers);
   return detail::win_file_ops::pread(
-      handle_, buf.data(), static_cast<uint32_t>(buf.size()), offset, ec);
+      handle_, buf.data(), detail::win_transfer_size(buf.size()), offset, ec);
 }
 
 template <typename ConstBufferSequence>
@@ -55,7 +66,7 @@ std::size_t file_handle::write_some_at(uint64_t offset,
 {
   const asio::const_buffer buf = asioext::first_const_buffer(buffers);
   return detail::win_file_ops::pwrite(
-      handle_, buf.data(), static_cast<uint32_t>(buf.size()), offset, ec);
+      handle_, buf.data(), detail::win_transfer_size(buf.size()), offset, ec);
 }
 
 ASIOEXT_NS_END
-- 
2.43.0


From 32b9e3c07d3701dbed905169fbac3d65f5270a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:48 +0000
Subject: [PATCH 40/50] fix: Report the end of the file as eof from positional
 reads on Windows

ReadFile() with an offset fails with ERROR_HANDLE_EOF there.
---
 include/asioext/detail/impl/win_file_ops.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/win_file_ops.cpp b/include/asioext/detail/impl/win_file_ops.cpp
index 7758ffe..c22f0d7 100644
--- a/include/asioext/detail/impl/win_file_ops.cpp
+++ b/include/asioext/detail/impl/win_file_ops.cpp
@@ -521,7 +521,11 @@ uint32_t pread(handle_type fd, void* buffer, uint32_t size, uint64_t offset,
 
   DWORD bytesRead = 0;
   if (!::ReadFile(fd, buffer, size, &bytesRead, &overlapped)) {
-    set_error(ec);
+    // Unlike reads at the file pointer, these fail at the end of the file.
+    if (::GetLastError() == ERROR_HANDLE_EOF)
+      ec = asio::error::eof;
+    else
+      set_error(ec);
     return 0;
   }
 
-- 
2.43.0


From 261f8b7386d6dce3880ca5b21d5995c6f992ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:54 +0000
Subject: [PATCH 41/50] fix: Report why the size couldn't be set on Windows XP

Resetting the file pointer afterwards may replace the last error.
---
 include/asioext/detail/impl/win_file_ops.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asioext/detail/impl/win_file_ops.cpp b/include/asioext/detail/impl/win_file_ops.cpp
index c22f0d7..bd1febb 100644
--- a/include/asioext/detail/impl/win_file_ops.cpp
+++ b/include/asioext/detail/impl/win_file_ops.cpp
@@ -298,7 +298,9 @@ void size(handle_type fd, uint64_t new_size, error_code& ec) ASIOEXT_NOEXCEPT
     } else {
       // We failed to set the new size, but we can still reset the file
       // pointer to avoid surprising the user.
+      set_error(ec);
       ::SetFilePointerEx(fd, old_pointer, NULL, FILE_BEGIN);
+      return;
     }
   }
   set_error(ec);
-- 
2.43.0


From 7aab1c08d60b7baa3a978ee6f308b72c5561f428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:45 +0000
Subject: [PATCH 42/50] fix: Throw when a standard stream isn't available

The overloads without an error_code parameter discarded the error although
they are documented to throw asio::system_error on failure.
---
 include/asioext/impl/standard_streams.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/impl/standard_streams.cpp b/include/asioext/impl/standard_streams.cpp
index 38eeaf8..94f3192 100644
--- a/include/asioext/impl/standard_streams.cpp
+++ b/include/asioext/impl/standard_streams.cpp
@@ -18,6 +18,7 @@ file_handle get_stdin()
 {
   error_code ec;
   const file_handle h = get_stdin(ec);
+  detail::throw_error(ec, "get_stdin");
   return h;
 }
 
@@ -34,6 +35,7 @@ file_handle get_stdout()
 {
   error_code ec;
   const file_handle h = get_stdout(ec);
+  detail::throw_error(ec, "get_stdout");
   return h;
 }
 
@@ -50,6 +52,7 @@ file_handle get_stderr()
 {
   error_code ec;
   const file_handle h = get_stderr(ec);
+  detail::throw_error(ec, "get_stderr");
   return h;
 }
 
-- 
2.43.0


From a7be46c219c5991f8897c0c4e974981eb09637ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:29 +0000
Subject: [PATCH 43/50] fix: Handle failures to determine the length of a
 converted path

With an empty buffer, the second call returned the needed length again (if
it succeeded), and the terminator was written past the end of the buffer.
---
 include/asioext/detail/impl/win_path.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/detail/impl/win_path.cpp b/include/asioext/detail/impl/win_path.cpp
index d65467a..1820302 100644
--- a/include/asioext/detail/impl/win_path.cpp
+++ b/include/asioext/detail/impl/win_path.cpp
@@ -18,6 +18,10 @@ win_path::win_path(const char* s, std::size_t len,
   std::size_t new_length;
   if (len >= kMaxPath) {
     new_length = ::MultiByteToWideChar(CP_UTF8, 0, s, len, nullptr, 0);
+    if (new_length == 0) {
+      ec.assign(::GetLastError(), asio::error::get_system_category());
+      return;
+    }
     heap_memory_ = new (std::nothrow) wchar_t[new_length + 1];
     if (!heap_memory_) {
       ec = asio::error::no_memory;
-- 
2.43.0


From 3d74b207df506d81d4ced3dab18cf04d3c5e5fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:41 +0000
Subject: [PATCH 44/50] fix: Initialize all members of open_args when the flags
 are invalid

Opening with such arguments read the uninitialized members, and compilers
may (and clang does) conclude that flags are always valid.
---
 include/asioext/impl/open_args.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/asioext/impl/open_args.hpp b/include/asioext/impl/open_args.hpp
index fb6fd43..24520df 100644
--- a/include/asioext/impl/open_args.hpp
+++ b/include/asioext/impl/open_args.hpp
@@ -31,6 +31,17 @@ inline ASIOEXT_CONSTEXPR open_args::open_args() ASIOEXT_NOEXCEPT
 
 inline open_args::open_args(open_flags flags, file_perms perms,
                             file_attrs attrs) ASIOEXT_NOEXCEPT
+#if defined(ASIOEXT_WINDOWS)
+  : creation_disposition_(0xffffffff)
+  , desired_access_(0)
+  , share_mode_(0)
+  , attrs_(0)
+  , flags_(0)
+#else
+  : native_flags_(-1)
+  , mode_(0)
+  , attrs_(0)
+#endif
 {
   if (asioext::is_valid(flags)) {
 #if defined(ASIOEXT_WINDOWS)
@@ -39,12 +50,6 @@ inline open_args::open_args(open_flags flags, file_perms perms,
     native_flags_ = detail::posix_file_ops::parse_open_flags(flags);
     mode_ = static_cast<uint32_t>(perms & file_perms::all);
     attrs_ = detail::posix_file_ops::file_attrs_to_native(attrs);
-#endif
-  } else {
-#if defined(ASIOEXT_WINDOWS)
-    creation_disposition_ = 0xffffffff;
-#else
-    native_flags_ = -1;
 #endif
   }
 }
-- 
2.43.0


From 6d2bb07e8cfb713f078844ff1571874dfcfcee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:09 +0000
Subject: [PATCH 45/50] fix: Don't make files writable when replacing their
 attributes on Windows

FILE_ATTRIBUTE_READONLY stores the file's permissions and isn't one of
file_attrs' attributes.
---
 include/asioext/detail/impl/win_file_ops.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/win_file_ops.cpp b/include/asioext/detail/impl/win_file_ops.cpp
index bd1febb..8cc21d7 100644
--- a/include/asioext/detail/impl/win_file_ops.cpp
+++ b/include/asioext/detail/impl/win_file_ops.cpp
@@ -429,7 +429,9 @@ void attributes(handle_type fd, file_attrs attrs, file_attr_options opts,
     else
       info.FileAttributes &= ~new_attrs;
   } else {
-    info.FileAttributes = new_attrs;
+    // This one belongs to the file's permissions.
+    info.FileAttributes &= FILE_ATTRIBUTE_READONLY;
+    info.FileAttributes |= new_attrs;
   }
 
   // 0 means "don't change any attributes" and not "no attributes set"
-- 
2.43.0


From fa3318f1dffb431527e57dfde9a9fb7fed44653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:34 +0000
Subject: [PATCH 46/50] fix: Make read-only files without other attributes
 writable on Windows

If FILE_ATTRIBUTE_READONLY is a file's only attribute, removing it left
zero, which means that the attributes aren't changed.
---
 include/asioext/detail/impl/win_file_ops.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/detail/impl/win_file_ops.cpp b/include/asioext/detail/impl/win_file_ops.cpp
index 8cc21d7..53d2744 100644
--- a/include/asioext/detail/impl/win_file_ops.cpp
+++ b/include/asioext/detail/impl/win_file_ops.cpp
@@ -379,6 +379,11 @@ void permissions(handle_type fd, file_perms perms, file_perm_options opts,
     return;
   }
 
+  // 0 means "don't change any attributes" and not "no attributes set"
+  // as one might expect.
+  if (info.FileAttributes == 0)
+    info.FileAttributes = FILE_ATTRIBUTE_NORMAL;
+
   // We deliberately set all the other fields (i.e. file times) to zero,
   // so they are ignored by the kernel. Otherwise we'd risk overwriting
   // changes that happened in the meantime.
-- 
2.43.0


From e0c696cc71f6eea8ae8d79506d7916e2051d80cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:37 +0000
Subject: [PATCH 47/50] fix: opening an existing file must not change its
 attributes

The attributes given to open() are for newly created files only, as
documented. They were set on existing files as well where the system has
file flags.
---
 .../asioext/detail/impl/posix_file_ops.cpp    | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index bfd1ab8..6a10a2f 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -246,15 +246,23 @@ handle_type open(const char* path, const open_args& args,
   }
 
   mode_t mode = static_cast<mode_t>(args.mode());
+  int flags = O_CLOEXEC | args.native_flags();
+#if ASIOEXT_HAS_FILE_FLAGS
+  // The attributes are for new files only, so we have to know whether
+  // it is us who create the file.
+  if (args.attrs() != 0 && (flags & O_CREAT))
+    flags |= O_EXCL;
+#endif
   while (true) {
-    handle_type fd = ::open(path, O_CLOEXEC | args.native_flags(), mode);
+    handle_type fd = ::open(path, flags, mode);
     if (fd != -1) {
       // Skip calling set_attributes() in case we don't support
       // attributes at all. TODO(tim): Fail in case attrs were requested?
 #if ASIOEXT_HAS_FILE_FLAGS
       // Unfortunately there's no way to atomically set file
       // flags as part of the open() call.
-      if (args.attrs() != 0 && ::fchflags(fd, args.attrs()) != 0) {
+      if (args.attrs() != 0 && (flags & O_CREAT) && (flags & O_EXCL) &&
+          ::fchflags(fd, args.attrs()) != 0) {
         set_error(ec, errno);
         ::close(fd);
         return -1;
@@ -269,6 +277,13 @@ handle_type open(const char* path, const open_args& args,
     if (e == EINTR)
       continue;
 
+#if ASIOEXT_HAS_FILE_FLAGS
+    if (e == EEXIST && flags != (O_CLOEXEC | args.native_flags())) {
+      flags = O_CLOEXEC | args.native_flags();
+      continue;
+    }
+#endif
+
     set_error(ec, e);
     return -1;
   }
-- 
2.43.0


From eed2ef824d43479c930e3fbb9f266885edff6964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:01 +0000
Subject: [PATCH 48/50] fix: asynchronous file operations couldn't be awaited

The completion token's initiation keeps copies of its arguments until the
operation is started, but a cancellation_token_source can't be copied.
---
 .../asioext/impl/thread_pool_file_service.hpp    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.hpp b/include/asioext/impl/thread_pool_file_service.hpp
index bdfa471..428500e 100644
--- a/include/asioext/impl/thread_pool_file_service.hpp
+++ b/include/asioext/impl/thread_pool_file_service.hpp
@@ -28,10 +28,10 @@ template <typename OperationImpl>
 class thread_pool_fs_op
 {
 public:
-  thread_pool_fs_op(const cancellation_token_source& source,
+  thread_pool_fs_op(const cancellation_token& cancel_token,
                     OperationImpl& impl,
                     thread_pool_file_service* svc)
-    : cancel_token_(source)
+    : cancel_token_(cancel_token)
     , impl_(std::move(impl))
     , svc_(svc)
   {
@@ -63,12 +63,12 @@ struct thread_pool_fs_init
   template <typename Handler, typename Implementation>
   void operator()(Handler&& handler,
                   Implementation&& impl,
-                  const cancellation_token_source& source,
+                  const cancellation_token& cancel_token,
                   thread_pool_file_service* svc)
   {
     auto ex = get_associated_executor(handler, svc->get_io_context().get_executor());
     auto op = make_composed_operation(
-        thread_pool_fs_op<Implementation>(source, impl, svc),
+        thread_pool_fs_op<Implementation>(cancel_token, impl, svc),
         std::move(handler), ex);
 
     asio::post(asio::bind_executor(svc->get_thread_pool(), std::move(op)));
@@ -168,7 +168,7 @@ thread_pool_file_service::async_read_some(implementation_type& impl,
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_read<MutableBufferSequence>{impl.handle_, buffers},
-      impl.cancel_token_, this);
+      cancellation_token(impl.cancel_token_), this);
 }
 
 template <typename ConstBufferSequence, typename CompletionToken>
@@ -180,7 +180,7 @@ thread_pool_file_service::async_write_some(implementation_type& impl,
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_write<ConstBufferSequence>{impl.handle_, buffers},
-      impl.cancel_token_, this);
+      cancellation_token(impl.cancel_token_), this);
 }
 
 template <typename MutableBufferSequence, typename CompletionToken>
@@ -193,7 +193,7 @@ thread_pool_file_service::async_read_some_at(
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_read_at<MutableBufferSequence>{impl.handle_, offset, buffers},
-      impl.cancel_token_, this);
+      cancellation_token(impl.cancel_token_), this);
 }
 
 template <typename ConstBufferSequence, typename CompletionToken>
@@ -205,7 +205,7 @@ thread_pool_file_service::async_write_some_at(
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_write_at<ConstBufferSequence>{impl.handle_, offset, buffers},
-      impl.cancel_token_, this);
+      cancellation_token(impl.cancel_token_), this);
 }
 
 ASIOEXT_NS_END
-- 
2.43.0


From 88ff907d88aa01efc200e5b406eff6697e8b034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:10 +0000
Subject: [PATCH 49/50] fix: async_connect() used its names after they were
 gone

With tokens such as use_awaitable the operation is started after the
initiating function has returned, and the names passed to it may be gone.
---
 include/asioext/connect.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/asioext/connect.hpp b/include/asioext/connect.hpp
index 2068a80..8a914eb 100644
--- a/include/asioext/connect.hpp
+++ b/include/asioext/connect.hpp
@@ -27,6 +27,8 @@
 #  include <asio/connect.hpp>
 #endif
 
+#include <string>
+
 ASIOEXT_NS_BEGIN
 
 namespace detail {
@@ -73,9 +75,9 @@ public:
 private:
   asio::basic_socket<Protocol, Executor>& socket_;
   asio::ip::basic_resolver<Protocol>& resolver_;
-  // These are only valid during the initial no-args operator() call!
-  std::string_view host_;
-  std::string_view service_;
+  // The operation might be started after async_connect() has returned.
+  std::string host_;
+  std::string service_;
   asio::ip::resolver_base::flags resolve_flags_;
 };
 
-- 
2.43.0


From 98f224255809b0a0201392311bbc338e584d57f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:10 +0000
Subject: [PATCH 50/50] fix: async_connect() didn't compile for sockets with a
 default token

asio::async_connect() is ambiguous then, unless it's given a condition.
---
 include/asioext/connect.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/asioext/connect.hpp b/include/asioext/connect.hpp
index 8a914eb..ec5ac4c 100644
--- a/include/asioext/connect.hpp
+++ b/include/asioext/connect.hpp
@@ -60,7 +60,12 @@ public:
   void operator()(Self& self, error_code ec, asio::ip::tcp::resolver::results_type results)
   {
     if (!ec) {
-      asio::async_connect(socket_, std::move(results), std::move(self));
+      // Passing a condition keeps this call from being ambiguous for sockets
+      // whose executor has a default completion token.
+      auto any = [](const error_code&, const typename Protocol::endpoint&) {
+        return true;
+      };
+      asio::async_connect(socket_, std::move(results), any, std::move(self));
     } else {
       self.complete(ec, typename Protocol::endpoint{});
     }
-- 
2.43.0

