#!/usr/bin/env python3
"""Development aid: rewrites the library in ways that keep its behaviour, to see
that the checks stay quiet.

  refactor.py DIR   (a copy of /repo; run the checks with VERIF_REPO=DIR)"""
import re, sys
D = sys.argv[1] + '/include/asioext/'
def edit(f, *pairs):
    s = open(D + f).read()
    for a, b in pairs:
        n = s.count(a)
        if n == 0: raise SystemExit(f'{f}: not found: {a[:80]}')
        s = s.replace(a, b)
    open(D + f, 'w').write(s)

# -- linear buffer: shared growth helper, assignment through it
edit('impl/linear_buffer.hpp',
 ('''  if (size_ + n > capacity_) {
    reallocate(calculate_capacity(size_ + n), [this] (uint8_t* new_buffer) {
      std::memcpy(new_buffer, rep_.data_, size_);
    });
  }

  std::memcpy(rep_.data_ + size_, data, n);
  size_ += n;
}''', '''  const std::size_t new_size = n + size_;
  if (!(new_size <= capacity_)) {
    const std::size_t old_size = size_;
    const uint8_t* old = rep_.data_;
    reallocate(calculate_capacity(new_size), [old, old_size] (uint8_t* p) {
      std::copy(old, old + old_size, p);
    });
  }

  const uint8_t* src = static_cast<const uint8_t*>(data);
  uint8_t* dst = rep_.data_ + size_;
  for (std::size_t i = 0; i != n; ++i)
    dst[i] = src[i];
  size_ = new_size;
}'''),
 ('''    std::memmove(rep_.data_ + before_this + n,
                 rep_.data_ + before_this,
                 size_ - before_this);
    std::memcpy(rep_.data_ + before_this, data, n);''',
  '''    uint8_t* const where = rep_.data_ + before_this;
    const std::size_t tail = size_ - before_this;
    if (tail != 0 && n != 0)
      std::memmove(where + n, where, tail);
    if (n != 0)
      std::memcpy(where, data, n);'''),
 ('''  std::memmove(rep_.data_ + pos, rep_.data_ + pos + 1, size_ - pos - 1);
  --size_;''', '''  erase(pos, pos + 1);'''),
 ('''  const std::size_t n = last - first;
  std::memmove(rep_.data_ + first, rep_.data_ + last, size_ - first - n);
  size_ -= n;''', '''  if (first == last)
    return;
  std::memmove(rep_.data_ + first, rep_.data_ + last, size_ - last);
  size_ -= last - first;'''),
 ('''  ec = error_code();

  size_ = siz;
  data_.resize(siz + n);''', '''  data_.resize(siz + n);
  size_ = siz;
  ec.clear();'''),
 ('''    rep_.data_ = other.rep_.data_;
    capacity_ = other.capacity_;
  }

  size_ = other.size_;
  max_size_ = other.max_size_;
  other.rep_.data_ = nullptr;
  other.capacity_ = other.size_ = 0;''', '''    capacity_ = other.capacity_;
    rep_.data_ = other.rep_.data_;
  }

  other.rep_.data_ = nullptr;
  other.capacity_ = 0;
  size_ = std::exchange(other.size_, 0);
  max_size_ = other.max_size_;'''),
)
s = open(D + 'impl/linear_buffer.hpp').read()
s = s.replace('#include <cstring>', '#include <algorithm>\n#include <cstring>\n#include <utility>', 1) if '#include <cstring>' in s else '#include <algorithm>\n#include <cstring>\n#include <utility>\n' + s
open(D + 'impl/linear_buffer.hpp', 'w').write(s)

# -- cancellation: explicit flag behind the shared pointer, helper
edit('impl/cancellation_token.cpp',
 ('''  // A destroyed source stays destroyed until reset() is called.
  if (ptr_.use_count() != 0)
    ptr_.reset(static_cast<void*>(0), detail::null_deleter());''',
  '''  if (ptr_.use_count() == 0)
    return; // A destroyed source stays destroyed until reset() is called.
  detail::shared_ptr<void> fresh(static_cast<void*>(0), detail::null_deleter());
  ptr_.swap(fresh);'''),
 ('  return ptr_.expired();', '  return ptr_.use_count() == 0;'))

# -- unique handler
edit('unique_handler.hpp',
 ('''    // Reset storage_ before invoking user-code - we might get a new handler.
    auto storage = storage_;
    if (storage) {
      storage_ = nullptr;
      storage->complete(storage, std::forward<Args>(args)...);
    } else {
      detail::throw_bad_function_call();
    }''', '''    if (storage_ == nullptr)
      detail::throw_bad_function_call();
    storage_base* const storage = release();
    storage->complete(storage, std::forward<Args>(args)...);'''),
 ('''    if (storage_) {
      auto storage = storage_;
      storage_ = nullptr;
      storage->abort(storage);
    }''', '''    if (storage_base* const storage = release())
      storage->abort(storage);'''),
 ('''  {
    if (storage_)
      storage_->abort(storage_);
  }''', '''  {
    reset();
  }'''),
 ('''      Handler handler(std::move(self_impl->handler_));
      self_impl->~storage_impl();
      detail::deallocate_operation(self_impl, handler);
      handler(std::forward<Args>(args)...);''', '''      Handler handler(take(self_impl));
      std::move(handler)(std::forward<Args>(args)...);'''
  if False else '''      Handler handler(take(self_impl));
      handler(std::forward<Args>(args)...);'''),
 ('''    static void do_abort(storage_base* self)''', '''    static Handler take(storage_impl* self_impl)
    {
      Handler handler(std::move(self_impl->handler_));
      self_impl->~storage_impl();
      detail::deallocate_operation(self_impl, handler);
      return handler;
    }

    static void do_abort(storage_base* self)'''),
 ('''  storage_base* storage_;
};''', '''  storage_base* release() ASIOEXT_NOEXCEPT
  {
    storage_base* const storage = storage_;
    storage_ = nullptr;
    return storage;
  }

  storage_base* storage_;
};'''))

# -- thread pool service: list helpers, reordered statements
edit('impl/thread_pool_file_service.cpp',
 ('''  // Remove implementation from linked list of all implementations.
  detail::mutex::scoped_lock lock(mutex_);
  if (impl_list_ == &impl)
    impl_list_ = impl.next_;
  if (impl.prev_)
    impl.prev_->next_ = impl.next_;
  if (impl.next_)
    impl.next_->prev_= impl.prev_;
  impl.next_ = 0;
  impl.prev_ = 0;
}''', '''  // Remove implementation from linked list of all implementations.
  mutex_.lock();
  implementation_type* const next = impl.next_;
  implementation_type* const prev = impl.prev_;
  if (next)
    next->prev_ = prev;
  if (prev)
    prev->next_ = next;
  else
    impl_list_ = next;
  impl.next_ = impl.prev_ = 0;
  mutex_.unlock();
}'''),
 ('''  impl.cancel_token_.reset();

  // Insert implementation into linked list of all implementations.
  detail::mutex::scoped_lock lock(mutex_);
  impl.next_ = impl_list_;''', '''  // Insert implementation into linked list of all implementations.
  detail::mutex::scoped_lock lock(mutex_);
  impl.cancel_token_.reset();
  impl.next_ = impl_list_;'''),
 ('''  impl.handle_ = other_impl.handle_;
  other_impl.handle_.clear();

  // close_for''', '''  std::swap(impl.handle_, other_impl.handle_);

  // close_for'''),
 ('''  if (!impl.handle_.is_open()) {
    ec = asio::error::bad_descriptor;
    return;
  }

  impl.cancel_token_.cancel();
  ec = error_code();''', '''  if (impl.handle_.is_open()) {
    ec = error_code();
    impl.cancel_token_.cancel();
  } else {
    ec = asio::error::bad_descriptor;
  }'''))
edit('impl/thread_pool_file_service.hpp',
 ('''    error_code ec;
    std::size_t bytes_transferred = 0;
    if (cancel_token_.cancelled()) {
      ec = asio::error::operation_aborted;
    } else {
      bytes_transferred = impl_(ec);
    }
    auto ex = get_associated_executor(self, svc_->get_io_context().get_executor());''',
  '''    auto ex = get_associated_executor(self, svc_->get_io_context().get_executor());
    std::size_t bytes_transferred = 0;
    error_code ec = asio::error::operation_aborted;
    if (!cancel_token_.cancelled())
      bytes_transferred = impl_(ec);'''))

# -- POSIX: one retry helper, single buffers through read()/write()
edit('detail/impl/posix_file_ops.cpp',
 ('''  while (true) {
    const ssize_t r = ::writev(fd, bufs, count);
    if (r != -1) {
      ec = error_code();
      return static_cast<std::size_t>(r);
    }

    const int e = errno;
    if (e == EINTR)
      continue;

    set_error(ec, e);
    return 0;
  }''', '''  return retry(ec, [&] {
    return count == 1 ? ::write(fd, bufs->iov_base, bufs->iov_len)
                      : ::writev(fd, bufs, count);
  });'''),
 ('''  while (true) {
    const ssize_t r = ::pwrite(fd, buffer, size,
                               static_cast<off_t>(offset));
    if (r != -1) {
      ec = error_code();
      return static_cast<std::size_t>(r);
    }

    const int e = errno;
    if (e == EINTR)
      continue;

    set_error(ec, e);
    return 0;
  }''', '''  return retry(ec, [&] {
    return ::pwrite(fd, buffer, size, static_cast<off_t>(offset));
  });'''),
 ('''  while (true) {
    const ssize_t r = ::pwritev(fd, bufs, count, static_cast<off_t>(offset));
    if (r != -1) {
      ec = error_code();
      return static_cast<std::size_t>(r);
    }

    const int e = errno;
    if (e == EINTR)
      continue;

    set_error(ec, e);
    return 0;
  }''', '''  return retry(ec, [&] {
    return count == 1
        ? ::pwrite(fd, bufs->iov_base, bufs->iov_len, static_cast<off_t>(offset))
        : ::pwritev(fd, bufs, count, static_cast<off_t>(offset));
  });'''),
 ('''  while (true) {
    const ssize_t r = ::readv(fd, bufs, count);
    if (r != 0) {
      if (r != -1) {
        ec = error_code();
        return static_cast<std::size_t>(r);
      }

      const int e = errno;
      if (e == EINTR)
        continue;

      set_error(ec, e);
      return 0;
    }
    break;
  }

  for (int i = 0; i != count; ++i) {
    if (bufs[i].iov_len != 0) {
      ec = asio::error::eof;
      return 0;
    }
  }

  ec = error_code();
  return 0;''', '''  const std::size_t n = retry(ec, [&] {
    return count == 1 ? ::read(fd, bufs->iov_base, bufs->iov_len)
                      : ::readv(fd, bufs, count);
  });
  if (n == 0 && !ec && !all_empty(bufs, count))
    ec = asio::error::eof;
  return n;'''),
 ('''  while (true) {
    const ssize_t r = ::preadv(fd, bufs, count, static_cast<off_t>(offset));
    if (r != 0) {
      if (r != -1) {
        ec = error_code();
        return static_cast<std::size_t>(r);
      }

      const int e = errno;
      if (e == EINTR)
        continue;

      set_error(ec, e);
      return 0;
    }
    break;
  }

  for (int i = 0; i != count; ++i) {
    if (bufs[i].iov_len != 0) {
      ec = asio::error::eof;
      return 0;
    }
  }

  ec = error_code();
  return 0;''', '''  const std::size_t n = retry(ec, [&] {
    return ::preadv(fd, bufs, count, static_cast<off_t>(offset));
  });
  if (n == 0 && !ec && !all_empty(bufs, count))
    ec = asio::error::eof;
  return n;'''),
 ('''std::size_t readv(handle_type fd, iovec* bufs, int count,''', '''template <typename Call>
inline std::size_t retry(error_code& ec, Call call) ASIOEXT_NOEXCEPT
{
  ssize_t r;
  do {
    r = call();
  } while (r == -1 && errno == EINTR);
  if (r == -1) {
    set_error(ec, errno);
    return 0;
  }
  ec = error_code();
  return static_cast<std::size_t>(r);
}

inline bool all_empty(const iovec* bufs, int count) ASIOEXT_NOEXCEPT
{
  std::size_t total = 0;
  for (; count > 0; --count, ++bufs)
    total |= bufs->iov_len;
  return total == 0;
}

std::size_t readv(handle_type fd, iovec* bufs, int count,'''),
 ('''    if ((opts & file_perm_options::add) != static_cast<file_perm_options>(0))
      mode |= st.st_mode;
    else
      mode = st.st_mode & ~mode;''', '''    const mode_t current = st.st_mode & 07777;
    mode = (opts & file_perm_options::add) != static_cast<file_perm_options>(0)
        ? current | mode : current & ~mode;'''),
 ('''  const int new_fd = ::dup(fd);
  if (new_fd != -1) {
    ec = error_code();
    return new_fd;
  }

  set_error(ec, errno);
  return -1;''', '''  const int new_fd = ::fcntl(fd, F_DUPFD, 0);
  if (new_fd == -1)
    set_error(ec, errno);
  else
    ec = error_code();
  return new_fd;'''),
 ('''  mode_t mode = static_cast<mode_t>(args.mode());
  while (true) {
    handle_type fd = ::open(path, O_CLOEXEC | args.native_flags(), mode);
    if (fd != -1) {''', '''  const mode_t mode = static_cast<mode_t>(args.mode());
  const int flags = args.native_flags() | O_CLOEXEC;
  for (;;) {
    const handle_type fd = ::openat(AT_FDCWD, path, flags, mode);
    if (fd >= 0) {'''),
 ('''  switch (rw_flags) {
    case open_flags::access_read_write: native_flags |= O_RDWR; break;
    case open_flags::access_read: native_flags |= O_RDONLY; break;
    case open_flags::access_write: native_flags |= O_WRONLY; break;
    default: break; // silence warning
  }''', '''  if (rw_flags == open_flags::access_read_write)
    native_flags |= O_RDWR;
  else if (rw_flags == open_flags::access_write)
    native_flags |= O_WRONLY;'''),
)
# -- chrono
edit('detail/impl/chrono.hpp',
 ('''  const Duration adjust = chrono::duration_cast<Duration>(
      FirstDuration(1) - second);
  out = Duration(first + FirstDuration(1)) - adjust;
  return true;''', '''  const Duration whole(first + FirstDuration(1));
  out = whole - chrono::duration_cast<Duration>(FirstDuration(1) - second);
  return true;'''))
# -- connect
edit('impl/connect.cpp',
 ('''  for (const auto& entry : results) {
    socket.close(ec);
    socket.connect(entry, ec);
    if (!ec)
      return;
  }''', '''  auto it = results.begin();
  while (it != results.end()) {
    error_code ignored;
    socket.close(ignored);
    ec = error_code();
    socket.connect(it->endpoint(), ec);
    if (!ec)
      break;
    ++it;
  }'''))
# -- buffered stream
edit('experimental/buffered_stream.hpp',
 ('''  if (write_buffer_locked_.size() == 0) {
    // Don't swap if there's nothing in either buffer (we'll do a zero-sized
    // write in this case, which doesn't hurt us and simplifies the call-site).
    if (write_buffer_.size() != 0) {
      // Swap send buffers so clients can continue to enqueue data while
      // this buffer is being flushed.
      std::swap(write_buffer_, write_buffer_locked_);
    }
  }

  ec = error_code();
  flush_pending_ = true;
  return''', '''  flush_pending_ = true;
  if (write_buffer_locked_.empty() && !write_buffer_.empty())
    write_buffer_.swap(write_buffer_locked_);

  ec.clear();
  return''') if 'void swap(' in open(D + 'linear_buffer.hpp').read() else
 ('''  ec = error_code();
  flush_pending_ = true;
  return''', '''  flush_pending_ = true;
  ec.clear();
  return'''),
 ('''  const auto buffer = lock_write_buffers(ec);
  if (ec) return 0;

  const std::size_t r = asio::write(stream_, asio::dynamic_buffer(*buffer),
                                    ec);
  unlock_write_buffers(r);
  return r;''', '''  std::size_t r = 0;
  if (buffer_type* const buffer = lock_write_buffers(ec)) {
    r = asio::write(stream_, asio::dynamic_buffer(*buffer),
                    asio::transfer_all(), ec);
    unlock_write_buffers(r);
  }
  return r;'''))
# -- unique file handle
edit('impl/unique_file_handle.cpp',
 ('''  file_handle handle = handle_;
  handle_.clear();
  return handle;''', '''  file_handle handle;
  std::swap(handle, handle_);
  return handle;'''),
 ('''  : handle_(other.handle_)
{
  other.handle_.clear();
}''', '''  : handle_(other.release())
{
}'''))
# -- read_file
edit('impl/read_file.hpp',
 ('''  if (size != 0) {
    c.resize(static_cast<typename RawByteContainer::size_type>(size));
    asio::read(file, asio::buffer(&c[0], c.size()), ec);
  } else {
    c.clear();
  }''', '''  if (size == 0) {
    c.clear();
    return;
  }

  const auto n = static_cast<typename RawByteContainer::size_type>(size);
  c.resize(n);
  asio::read(file, asio::buffer(&c[0], n), asio::transfer_exactly(n), ec);'''))
# -- SOCKS
edit('socks/detail/client.hpp',
 ('''    const uint8_t null_byte = data[0];
    const uint8_t status_code = data[1];

    buffer_.consume(1 + 1 + 2 + 4);

    if (null_byte != 0) {
      self.complete(error::invalid_version);
      return;
    }

    switch (status_code) {
      case 0x5a: /* no error */ break;
      case 0x5b: ec = error::generic; break;
      case 0x5c: ec = error::identd_not_reachable; break;
      case 0x5d: ec = error::login_failed; break;
      default: ec = error::generic; break;
    }
''', '''    if (data[0] != 0)
      ec = error::invalid_version;
    else if (data[1] == 0x5c)
      ec = error::identd_not_reachable;
    else if (data[1] == 0x5d)
      ec = error::login_failed;
    else if (data[1] != 0x5a)
      ec = error::generic;

    buffer_.consume(1 + 1 + 2 + 4);
'''),
 ('''    const uint8_t version = data[0];
    const auth_method chosen_method = static_cast<auth_method>(data[1]);

    buffer_.consume(2);

    if (version != 5) {
      self.complete(error::invalid_version, auth_method::no_acceptable);
      return;
    }

    if (chosen_method == auth_method::no_acceptable) {
      self.complete(error::no_acceptable_auth_method,
                    auth_method::no_acceptable);
      return;
    }

    self.complete(ec, chosen_method);''', '''    const uint8_t version = data[0];
    auth_method chosen_method = static_cast<auth_method>(data[1]);
    buffer_.consume(buffer_.size());

    if (version != 5) {
      ec = error::invalid_version;
      chosen_method = auth_method::no_acceptable;
    } else if (chosen_method == auth_method::no_acceptable) {
      ec = error::no_acceptable_auth_method;
    }

    self.complete(ec, chosen_method);'''))
# -- URL
edit('detail/impl/url_parser.cpp',
 ('''  const auto ch_lower = ch | 32; // convert to lowercase
  return (ch >= '0' && ch <= '9') || (ch_lower >= 'a' && ch_lower <= 'f');''',
  '''  if ('0' <= ch && ch <= '9')
    return true;
  return ('a' <= ch && ch <= 'f') || ('A' <= ch && ch <= 'F');'''))
s = open(D + 'detail/impl/url_parser.cpp').read()
i = s.index('ASIOEXT_CONSTEXPR14 bool is_url_char'); i = s.index('{', i); j = s.index('\n}\n', i)
s = s[:i] + '''{
  if (ch == 9 || ch == 12)
    return true;
  return 33 <= ch && ch <= 126 && ch != '#' && ch != '?';''' + s[j:]
open(D + 'detail/impl/url_parser.cpp', 'w').write(s)
# -- io_object_holder
edit('io_object_holder.hpp',
 ('''    if (this != &other)
    {
      service_->move_assign(implementation_,
          *other.service_, other.implementation_);
      executor_.~executor_type();
      new (&executor_) executor_type(other.executor_);
      service_ = other.service_;
    }
    return *this;''', '''    if (this == &other)
      return *this;
    service_type& target = *other.service_;
    service_->move_assign(implementation_, target, other.implementation_);
    service_ = &target;
    executor_.~executor_type();
    new (static_cast<void*>(std::addressof(executor_)))
        executor_type(other.get_executor());
    return *this;'''))
