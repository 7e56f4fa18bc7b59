#!/usr/bin/env python3
"""Development aid: the second batch of behaviour-preserving rewrites. (see
refactor.py)

  refactor2.py DIR   (a copy of /repo; run the checks with VERIF_REPO=DIR)"""
import sys
D = sys.argv[1] + '/include/asioext/'
def edit(f, *pairs):
    s = open(D + f).read()
    for a, b in pairs:
        n = s.count(a)
        if n == 0: raise SystemExit(f'{f}: not found: {a[:120]}')
        s = s.replace(a, b)
    open(D + f, 'w').write(s)

# -- linear buffer: other growth factor; copying through the primitives
edit('linear_buffer.hpp',
 ('return (capacity_ * 2) < max_size_ ? (std::max)(n, capacity_ * 2) : max_size_;',
  '''return capacity_ <= max_size_ - capacity_ / 2 - 1
        ? (std::min)((std::max)(n, capacity_ + capacity_ / 2 + 1), max_size_)
        : max_size_;'''),
 ('''    const std::size_t siz = data_.size();
    if (pos > siz)
      pos = siz;
    if (n > siz - pos)
      n = siz - pos;
    return mutable''', '''    const std::size_t siz = data_.size();
    pos = (std::min)(pos, siz);
    n = (std::min)(n, siz - pos);
    return mutable'''),
 ('''    size_ += (std::min)(n, data_.size() - size_);
    data_.resize(size_);''', '''    const std::size_t prepared = data_.size() - size_;
    if (n < prepared)
      data_.resize(size_ + n);
    size_ = data_.size();'''),
 ('''    const std::size_t siz = size();
    data_.resize(siz - (std::min)(siz, n));''', '''    const std::size_t siz = size();
    data_.resize(n < siz ? siz - n : 0);'''),
 ('''  explicit basic_linear_buffer(const Allocator& a) ASIOEXT_NOEXCEPT
    : rep_(a)''', '''  explicit basic_linear_buffer(const Allocator& alloc) ASIOEXT_NOEXCEPT
    : rep_(alloc)'''),
)
edit('impl/linear_buffer.hpp',
 ('''  if (n > capacity_)
    reallocate(calculate_capacity(n), [this] (uint8_t* new_buffer) {});

  std::memcpy(rep_.data_, other.rep_.data_, n);
  size_ = n;
  return *this;''', '''  if (this == &other)
    return *this;

  if (n > capacity_)
    reallocate(n, [] (uint8_t*) {});

  if (n != 0)
    std::memcpy(rep_.data_, other.rep_.data_, n);
  size_ = n;
  return *this;'''),
 ('''  if (new_size > capacity_) {
    reallocate(calculate_capacity(new_size), [this] (uint8_t* new_buffer) {
      std::memcpy(new_buffer, rep_.data_, size_);
    });
  }

  size_ = new_size;''', '''  if (new_size > capacity_)
    reserve(calculate_capacity(new_size));

  size_ = new_size;'''),
 ('''  , capacity_(other.size_)
  , size_(other.size_)
  , max_size_(other.max_size_)
{
  rep_.data_ = allocator_traits_type::allocate(rep_, other.size_);
  std::memcpy(rep_.data_, other.rep_.data_, size_);
}''', '''  , capacity_(0)
  , size_(0)
  , max_size_(other.max_size_)
{
  if (other.size_ != 0)
    reallocate(other.size_, [&other] (uint8_t* p) {
      std::memcpy(p, other.rep_.data_, other.size_);
    });
  size_ = other.size_;
}'''),
 ('''  uint8_t* new_buffer = allocator_traits_type::allocate(rep_, cap);
  fn(new_buffer);
  if (rep_.data_)
    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
  rep_.data_ = new_buffer;
  capacity_ = cap;''', '''  uint8_t* const new_buffer = allocator_traits_type::allocate(rep_, cap);
  std::forward<Function>(fn)(new_buffer);
  uint8_t* const old_buffer = rep_.data_;
  const std::size_t old_capacity = capacity_;
  rep_.data_ = new_buffer;
  capacity_ = cap;
  if (old_buffer != nullptr)
    allocator_traits_type::deallocate(rep_, old_buffer, old_capacity);'''),
 ('''  const std::size_t siz = size();
  if (siz > max_size_ || max_size_ - siz < n) {
    std::length_error ex("dynamic_linear_buffer too long");
    detail::throw_exception(ex);
  }
  data_.resize(siz + n);
}''', '''  const std::size_t old_size = size();
  const std::size_t room = old_size > max_size_ ? 0 : max_size_ - old_size;
  if (n > room || old_size > max_size_) {
    std::length_error ex("the dynamic_linear_buffer would be too long");
    detail::throw_exception(ex);
  }
  data_.resize(old_size + n);
}'''),
)

# -- URLs: the parts of the authority, the state machine's loop
edit('detail/impl/url_parser.cpp',
 ('''    for (bool is_zone_spec = false; first != last; ++first) {
      const char ch = *first;

      if (is_zone_spec) {
        // RFC 6874 Zone ID consists of 1*(unreserved / pct-encoded)
        if (isalnum_ascii(ch) || ch == '%' || ch == '.' || ch == '-' ||
            ch == '_' || ch == '~')
          continue;
      } else {
        if (is_hex(ch) || ch == ':' || ch == '.')
          continue;
      }

      // Zone ID must start with encoded '%' -> %25
      if (ch == '%' && last - first > 3 &&
          first[1] == '2' && first[2] == '5') {
        first += 2;
        is_zone_spec = true;
        continue;
      }

      if (ch == ']') {
        ++first;
        break;
      }

      // unrecognized -> fail
      ec = make_error_code(url_error::invalid_character);
      return;
    }

    if (first[-1] != ']') {
      // unterminated IP literal
      ec = make_error_code(url_error::invalid_character);
      return;
    }
''', '''    while (first != last && (is_hex(*first) || *first == ':' || *first == '.'))
      ++first;

    // Zone ID must start with encoded '%' -> %25
    if (last - first > 3 && first[0] == '%' && first[1] == '2' &&
        first[2] == '5') {
      first += 3;
      // RFC 6874 Zone ID consists of 1*(unreserved / pct-encoded)
      while (first != last &&
             (isalnum_ascii(*first) || *first == '%' || *first == '.' ||
              *first == '-' || *first == '_' || *first == '~'))
        ++first;
    }

    if (first == last || *first != ']') {
      // unterminated IP literal or some other character
      ec = make_error_code(url_error::invalid_character);
      return;
    }
    ++first;
'''),
 ('''    std::uint32_t port = 0;
    for (int num_digits = 0; first != last &&
         num_digits < max_port_digits; ++num_digits) {
      const unsigned char ch = *first++;
      if (ch < '0' || ch > '9') {
        ec = make_error_code(url_error::invalid_character);
        return;
      }
      port = port * 10 + (ch - '0');
    }
    if (port > 0xffff || first != last) {
      ec = make_error_code(url_error::port_overflow);
      return;
    }
    out.port = std::string_view(start, first - start);''',
  '''    unsigned long port = 0;
    int left = max_port_digits;
    while (left-- != 0 && first != last) {
      const int digit = *first - '0';
      if (digit < 0 || digit >= 10) {
        ec = make_error_code(url_error::invalid_character);
        return;
      }
      ++first;
      port *= 10;
      port += digit;
    }
    const bool leftover = first != last;
    if (leftover || port >= 0x10000) {
      ec = make_error_code(url_error::port_overflow);
      return;
    }
    out.port = std::string_view(start, last - start);'''),
 ('''    auto start = first;
    while (first != last && is_user_char(*first))
      ++first;

    if (first == last || *first != '@') {
      ec = make_error_code(url_error::invalid_character);
      return;
    }

    out.userinfo = std::string_view(start, first - start);
    ++first; // skip '@'
''', '''    const char* at = first;
    for (; at != last && *at != '@'; ++at) {
      if (!is_user_char(*at)) {
        ec = make_error_code(url_error::invalid_character);
        return;
      }
    }

    if (at == last) {
      ec = make_error_code(url_error::invalid_character);
      return;
    }

    out.userinfo = std::string_view(first, at - first);
    first = at + 1;
'''),
 ('''    case url_state::path_after_scheme:
    case url_state::path:
      if (is_url_char(ch))
        return url_state::path;

      switch (ch) {
        case '?':
          return url_state::query_string_start;
        case '#':
          return url_state::fragment_start;
      }
      break;
''', '''    case url_state::path_after_scheme:
    case url_state::path:
      if (ch == '?')
        return url_state::query_string_start;
      if (ch == '#')
        return url_state::fragment_start;
      return is_url_char(ch) ? url_state::path : url_state::invalid;
'''),
 ('''    case url_state::query_string_start:
    case url_state::query_string:
      if (is_url_char(ch))
        return url_state::query_string;

      switch (ch) {
        case '?':
          // allow extra '?' in query string
          return url_state::query_string;
        case '#':
          return url_state::fragment_start;
      }
      break;
''', '''    case url_state::query_string_start:
    case url_state::query_string:
      if (ch == '#')
        return url_state::fragment_start;
      // allow extra '?' in query string
      if (ch == '?' || is_url_char(ch))
        return url_state::query_string;
      return url_state::invalid;
'''),
 ('''  const char* it = first;
  for ( ; it != last; ++it) {
    s = get_state_for(s, *it);
''', '''  const char* it = first;
  for (; it < last; ++it) {
    const unsigned char c = static_cast<unsigned char>(*it);
    s = get_state_for(s, c);
'''),
)

# -- chrono: the conversion in a wider type
edit('detail/impl/chrono.hpp',
 ('''  if (result_ratio::num == 1 && result_ratio::den == 1) {
    if (in.count() >= (result_limit::min)() &&
        in.count() <= (result_limit::max)()) {
      out = chrono::duration<RepOut, PeriodOut>(static_cast<RepOut>(
          in.count()));
      return true;
    }
  } else if''', '''  const auto ticks = in.count();
  if (result_ratio::num == result_ratio::den) {
    if (ticks < (result_limit::min)() || ticks > (result_limit::max)())
      return false;
    out = chrono::duration<RepOut, PeriodOut>(static_cast<RepOut>(ticks));
    return true;
  }

  if'''),
 ('''  // Ensure |second_temp| is not negative
  if (second_temp.count() < 0) {
    if (first_temp.count() > values_type::min_first() ||
        (values_type::first_rep_min() != values_type::min_first() &&
         first_temp.count() == values_type::min_first())) {
      first_temp -= FirstDuration(1);
      second_temp += FirstDuration(1);
    } else {
      return false;
    }
  }

  return safe_duration_cast(first_temp, first) &&
         safe_duration_cast(second_temp, second);''',
  '''  // Ensure |second_temp| is not negative
  if (second_temp.count() < 0) {
    const bool at_min = first_temp.count() <= values_type::min_first();
    const bool fits = values_type::first_rep_min() != values_type::min_first();
    if (at_min && !(fits && first_temp.count() == values_type::min_first()))
      return false;
    first_temp -= FirstDuration(1);
    second_temp += FirstDuration(1);
  }

  FirstDuration f;
  if (!safe_duration_cast(first_temp, f))
    return false;
  SecondDuration s;
  if (!safe_duration_cast(second_temp, s))
    return false;
  first = f;
  second = s;
  return true;'''),
)

# -- SOCKS: helpers for the encoders, replies handled in other orders
edit('socks/detail/impl/protocol.cpp',
 ('''// SOCKS v4a
''', '''namespace {

inline uint8_t* put_port(uint8_t* out, uint16_t port) ASIOEXT_NOEXCEPT
{
  out[0] = static_cast<uint8_t>(port / 256);
  out[1] = static_cast<uint8_t>(port % 256);
  return out + 2;
}

inline uint8_t* put_bytes(uint8_t* out, const void* data,
                          std::size_t n) ASIOEXT_NOEXCEPT
{
  const uint8_t* in = static_cast<const uint8_t*>(data);
  while (n-- != 0)
    *out++ = *in++;
  return out;
}

}

// SOCKS v4a
'''),
 ('''  *out++ = static_cast<uint8_t>((port >> 8) & 0xff);
  *out++ = static_cast<uint8_t>((port >> 0) & 0xff);

  if (remote_host.empty()) {
    const asio::ip::address_v4::bytes_type addr =
        remote.address().to_v4().to_bytes();
    for (std::size_t i = 0; i != addr.size(); ++i)
      *out++ = addr[i];
  } else {
    // 0.0.0.1 - an invalid IP
    *out++ = 0;
    *out++ = 0;
    *out++ = 0;
    *out++ = 1;
  }

  std::memcpy(out, user_id.data(), user_id.size());
  out += user_id.size();
  *out++ = '\\0';

  if (!remote_host.empty()) {
    std::memcpy(out, remote_host.data(), remote_host.size());
    out += remote_host.size();
    *out++ = '\\0';
  }''', '''  out = put_port(out, port);

  const bool by_name = !remote_host.empty();
  // 0.0.0.1 - an invalid IP
  const asio::ip::address_v4 addr =
      by_name ? asio::ip::address_v4(1) : remote.address().to_v4();
  out = put_bytes(out, addr.to_bytes().data(), 4);
  out = put_bytes(out, user_id.c_str(), user_id.size() + 1);
  if (by_name)
    put_bytes(out, remote_host.c_str(), remote_host.size() + 1);'''),
 ('''  *out++ = static_cast<uint8_t>(username_size);
  std::memcpy(out, username.data(), username_size);
  out += username_size;

  *out++ = static_cast<uint8_t>(password_size);
  std::memcpy(out, password.data(), password_size);
  out += password_size;''', '''  out[0] = static_cast<uint8_t>(username_size);
  out = put_bytes(out + 1, username.data(), username_size);
  out[0] = static_cast<uint8_t>(password_size);
  put_bytes(out + 1, password.data(), password_size);'''),
 ('''    *out++ = static_cast<uint8_t>(remote_host_size);
    std::memcpy(out, remote_host.data(), remote_host_size);
    out += remote_host_size;

    *out++ = static_cast<uint8_t>((port >> 8) & 0xff);
    *out++ = static_cast<uint8_t>((port >> 0) & 0xff);
  } else {''', '''    *out++ = static_cast<uint8_t>(remote_host_size);
    out = put_bytes(out, remote_host.data(), remote_host_size);
    put_port(out, port);
  } else {'''),
 ('''    *out++ = is_v4 ? 1 : 4;
    if (is_v4) {
      const asio::ip::address_v4::bytes_type addr =
          remote.address().to_v4().to_bytes();
      for (std::size_t i = 0; i != addr.size(); ++i)
        *out++ = addr[i];
    } else {
      const asio::ip::address_v6::bytes_type addr =
          remote.address().to_v6().to_bytes();
      for (std::size_t i = 0; i != addr.size(); ++i)
        *out++ = addr[i];
    }
    *out++ = static_cast<uint8_t>((rport >> 8) & 0xff);
    *out++ = static_cast<uint8_t>((rport >> 0) & 0xff);''', '''    if (remote.address().is_v6()) {
      *out++ = 4;
      out = put_bytes(out, remote.address().to_v6().to_bytes().data(), 16);
    } else {
      *out++ = 1;
      out = put_bytes(out, remote.address().to_v4().to_bytes().data(), 4);
    }
    put_port(out, rport);'''),
 ('''  const bool is_v4 = remote.protocol() == asio::ip::tcp::v4();

  std::size_t size = 6;
  if (!remote_host.empty())
    size += remote_host_size + 1;
  else if (is_v4)
    size += 4;
  else
    size += 16;

  *out++ = 5;''', '''  *out++ = 5;'''),
)
edit('socks/detail/client.hpp',
 ('''    switch (status_code) {
      case 0x5a: /* no error */ break;
      case 0x5b: ec = error::generic; break;
      case 0x5c: ec = error::identd_not_reachable; break;
      case 0x5d: ec = error::login_failed; break;
      default: ec = error::generic; break;
    }

    self.complete(ec);''', '''    if (status_code == 0x5a)
      ec = error_code();
    else if (status_code == 0x5c)
      ec = error::identd_not_reachable;
    else if (status_code == 0x5d)
      ec = error::login_failed;
    else
      ec = error::generic;

    self.complete(ec);'''),
 ('''    if (version != 1) {
      self.complete(error::invalid_auth_version);
      return;
    }

    if (status_code != 0) {
      self.complete(error::login_failed);
      return;
    }

    self.complete(ec);''', '''    if (version != 1)
      ec = error::invalid_auth_version;
    else if (status_code != 0)
      ec = error::login_failed;

    self.complete(ec);'''),
 ('''    ASIOEXT_CORO_YIELD asio::async_read(socket_, buffer_.prepare(5),
                                        std::move(self));

    {
      buffer_.commit(5);
''', '''    ASIOEXT_CORO_YIELD asio::async_read(socket_, buffer_.prepare(4 + 1),
                                        std::move(self));

    {
      buffer_.commit(size);
'''),
 ('''    ASIOEXT_CORO_YIELD asio::async_read(socket_, buffer_.prepare(size + 2),
                                        std::move(self));

    // TODO: should we return the actual target endpoint to the user?
    buffer_.commit(size);
    buffer_.consume(size);
''', '''    buffer_.prepare(size += 2);
    ASIOEXT_CORO_YIELD asio::async_read(socket_, buffer_.prepare(size),
                                        std::move(self));

    // TODO: should we return the actual target endpoint to the user?
    buffer_.commit(size);
    buffer_.consume(buffer_.size());
'''),
)

# -- composed operations and bound handlers
edit('detail/bound_handler.hpp',
 ('''    asioext::detail::invoke(handler_, args_, args_indices_type{});
    this->reset(); // defined in Work''', '''    Work& work = *this;
    std::apply([this] (const auto&... args) { handler_(args...); }, args_);
    work.reset();'''))
edit('compose.hpp',
 ('''    return bind_handler(std::move(handler_), std::move(work_),
                        std::forward<Args>(args)...);''', '''    Handler handler(std::move(handler_));
    return bind_handler(std::move(handler), std::move(work_),
                        std::forward<Args>(args)...);'''),
 ('''    if (state_ < 2)
      ++state_;
    impl_(''', '''    state_ = state_ == 0 ? 1 : 2;
    impl_('''))

# -- read_file/write_file: helpers, reading in pieces
edit('impl/read_file.hpp',
 ('''  // rather easy, right?
  asio::read(file, buffers, ec);''', '''  std::size_t left = asio::buffer_size(buffers);
  ec = error_code();
  std::size_t done = 0;
  while (left != 0 && !ec) {
    std::size_t skip = done, n = 0;
    for (auto it = asio::buffer_sequence_begin(buffers),
              end = asio::buffer_sequence_end(buffers); it != end; ++it) {
      const asio::mutable_buffer whole(*it);
      if (skip >= whole.size()) {
        skip -= whole.size();
        continue;
      }
      n = file.read_some(asio::buffer(whole + skip), ec);
      break;
    }
    done += n;
    left -= n;
  }'''),
)
edit('impl/write_file.hpp',
 ('''ASIOEXT_NS_BEGIN

template''', '''ASIOEXT_NS_BEGIN

namespace detail {

template <class ConstBufferSequence>
inline void write_new_file(unique_file_handle file,
                           const ConstBufferSequence& buffers,
                           error_code& ec) ASIOEXT_NOEXCEPT
{
  if (file.is_open())
    asio::write(file, buffers, asio::transfer_all(), ec);
}

}

template'''),
 ('''  unique_file_handle file = open(filename,
                                 open_flags::access_write |
                                 open_flags::create_always, ec);
  if (!ec)
    asio::write(file, buffers, ec);''', '''  detail::write_new_file(open(filename, open_flags::create_always |
                                        open_flags::access_write, ec),
                         buffers, ec);'''))

# -- the file service: opening through a temporary, other ways to post
edit('impl/thread_pool_file_service.cpp',
 ('''  if (impl.handle_.is_open()) {
    ec = asio::error::already_open;
    return;
  }
  impl.handle_ = asioext::open(filename, args, ec).release();''', '''  if (impl.handle_.is_open()) {
    ec = asio::error::already_open;
  } else {
    unique_file_handle file = asioext::open(filename, args, ec);
    if (!ec)
      impl.handle_ = file.release();
  }'''),
 ('''  if (impl.handle_.is_open()) {
    ec = asio::error::already_open;
    return;
  }

  impl.handle_ = handle;
  ec = error_code();''', '''  const bool was_open = impl.handle_.is_open();
  ec = was_open ? error_code(asio::error::already_open) : error_code();
  if (!was_open)
    impl.handle_ = handle;'''),
 ('''  if (impl.handle_.is_open())
    impl.cancel_token_.cancel();

  impl.handle_.close(ec);''', '''  if (impl.handle_.is_open()) {
    file_handle h = impl.handle_;
    impl.handle_.clear();
    impl.cancel_token_.cancel();
    h.close(ec);
  } else {
    file_handle().close(ec);
  }'''),
)
edit('impl/thread_pool_file_service.hpp',
 ('''    asio::post(asio::bind_executor(svc->get_thread_pool(), std::move(op)));''',
  '''    asio::defer(asio::bind_executor(svc->get_thread_pool().get_executor(),
                                    std::move(op)));'''),
 ('''# include <asio/post.hpp>''', '''# include <asio/post.hpp>
# include <asio/defer.hpp>'''),
 ('''# include <boost/asio/post.hpp>''', '''# include <boost/asio/post.hpp>
# include <boost/asio/defer.hpp>'''),
 ('''    error_code ec;
    std::size_t bytes_transferred = 0;
    if (cancel_token_.cancelled()) {
      ec = asio::error::operation_aborted;
    } else {
      bytes_transferred = impl_(ec);
    }
    auto ex''', '''    error_code ec = asio::error::operation_aborted;
    const std::size_t bytes_transferred =
        cancel_token_.cancelled() ? 0 : impl_(ec);
    auto ex'''),
)

# -- buffered stream
edit('experimental/buffered_stream.hpp',
 ('''    return !flush_pending_ &&
           !(write_buffer_.empty() && write_buffer_locked_.empty());''',
  '''    if (flush_pending_)
      return false;
    return write_buffer_.size() + write_buffer_locked_.size() != 0;'''),
 ('''  void close()
  {
    write_buffer_.clear();
    write_buffer_locked_.clear();
    read_buffer_.clear();
    stream_.close();
  }''', '''  void close()
  {
    clear_buffers();
    stream_.close();
  }'''),
 ('''    write_buffer_.clear();
    write_buffer_locked_.clear();
    read_buffer_.clear();
    stream_.close(ec);''', '''    clear_buffers();
    stream_.close(ec);'''),
 ('''private:
  buffer_type* lock''', '''private:
  void clear_buffers() ASIOEXT_NOEXCEPT
  {
    for (buffer_type* b : {&read_buffer_, &write_buffer_,
                           &write_buffer_locked_})
      b->clear();
  }

  buffer_type* lock'''),
 ('''  return asio::read(stream_, asio::dynamic_buffer(read_buffer_),
                    asio::transfer_at_least(1), ec);''', '''  auto dynamic = asio::dynamic_buffer(read_buffer_);
  auto done = asio::transfer_at_least(1);
  return asio::read(stream_, std::move(dynamic), done, ec);'''),
)

# -- unique handler
edit('unique_handler.hpp',
 ('''    unique_handler temp(std::move(*this));
    storage_ = other.storage_;
    other.storage_ = nullptr;
    return *this;''', '''    storage_base* const incoming = std::exchange(other.storage_, nullptr);
    unique_handler old;
    old.storage_ = std::exchange(storage_, incoming);
    return *this;'''),
 ('''    if (storage_) {
      auto storage = storage_;
      storage_ = nullptr;
      storage->abort(storage);
    }''', '''    unique_handler old(std::move(*this));'''),
)

# -- holders
edit('io_object_holder.hpp',
 ('''    if (this != &other)
    {
      service_->move_assign(implementation_,
          *other.service_, other.implementation_);
      executor_.~executor_type();
      new (&executor_) executor_type(other.executor_);
      service_ = other.service_;
    }
    return *this;''', '''    if (this == &other)
      return *this;

    service_type& other_service = other.get_service();
    service_->move_assign(implementation_, other_service,
                          other.get_implementation());
    service_ = &other_service;
    executor_.~executor_type();
    ::new (static_cast<void*>(&executor_)) executor_type(other.get_executor());
    return *this;'''),
)

# -- posix: errors through errno first, truncate, seek, times
edit('detail/impl/posix_file_ops.cpp',
 ('''  const off_t res = ::lseek(fd, static_cast<off_t>(offset),
                            static_cast<int>(origin));
  if (res != -1) {
    ec = error_code();
    return static_cast<uint64_t>(res);
  }

  set_error(ec, errno);
  return 0;''', '''  int whence = SEEK_SET;
  switch (origin) {
    case seek_origin::from_begin: whence = SEEK_SET; break;
    case seek_origin::from_current: whence = SEEK_CUR; break;
    case seek_origin::from_end: whence = SEEK_END; break;
  }
  const off_t res = ::lseek(fd, offset, whence);
  if (res == -1) {
    set_error(ec, errno);
    return 0;
  }
  ec.clear();
  return res;'''),
 ('''  struct stat st;
  if (::fstat(fd, &st) == 0) {
    ec = error_code();
    return st.st_size;
  }

  set_error(ec, errno);
  return 0;''', '''  struct stat st;
  const int r = ::fstatat(fd, "", &st, AT_EMPTY_PATH);
  if (r != 0)
    set_error(ec, errno);
  else
    ec = error_code();
  return r == 0 ? st.st_size : 0;'''),
 ('''  if (atime.time_since_epoch().count() != 0) {
    if (!to_timespec(atime, ts[0].tv_sec, ts[0].tv_nsec)) {
      ec = make_error_code(errc::value_too_large);
      return;
    }
  } else {
    ts[0].tv_sec = 0;
    ts[0].tv_nsec = UTIME_OMIT;
  }

  if (mtime.time_since_epoch().count() != 0) {
    if (!to_timespec(mtime, ts[1].tv_sec, ts[1].tv_nsec)) {
      ec = make_error_code(errc::value_too_large);
      return;
    }
  } else {
    ts[1].tv_sec = 0;
    ts[1].tv_nsec = UTIME_OMIT;
  }
''', '''  const file_time_type from[2] = {atime, mtime};
  for (int i = 0; i != 2; ++i) {
    ts[i].tv_sec = 0;
    ts[i].tv_nsec = UTIME_OMIT;
    if (from[i] == file_time_type())
      continue;
    if (!to_timespec(from[i], ts[i].tv_sec, ts[i].tv_nsec)) {
      ec = make_error_code(errc::value_too_large);
      return;
    }
  }
'''),
 ('''    if (size == 0) {
      ec = error_code();
      return 0;
    }
    ec = asio::error::eof;
    return 0;''', '''    ec = size != 0 ? error_code(asio::error::eof) : error_code();
    return 0;'''),
 ('''    const ssize_t r = ::writev(fd, bufs, count);''', '''    const ssize_t r = count == 1 ? ::write(fd, bufs->iov_base, bufs->iov_len)
                                 : ::writev(fd, bufs, count);'''),
)

# -- connecting
edit('connect.hpp',
 ('''    if (!ec) {
      asio::async_connect(socket_, std::move(results), std::move(self));
    } else {
      self.complete(ec, typename Protocol::endpoint{});
    }''', '''    if (ec)
      return self.complete(ec, typename Protocol::endpoint());

    asio::async_connect(socket_, results, std::move(self));'''))
