#!/usr/bin/env python3
"""Development aid: behaviour-preserving rewrites of the code for Windows, BSD
and macOS. (see refactor.py)

  refactor3.py DIR   (a copy of /repo; run the checks with VERIF_REPO=DIR)"""
import sys
D = sys.argv[1] + '/include/asioext/'
def edit(f, *pairs):
    s = open(D + f, newline='').read()
    crlf = '\r\n' in s
    s = s.replace('\r\n', '\n')
    for a, b in pairs:
        n = s.count(a)
        if n == 0: raise SystemExit(f'{f}: not found: {a[:120]}')
        s = s.replace(a, b)
    open(D + f, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)

edit('detail/impl/win_file_ops.cpp',
 ('''  ULARGE_INTEGER temp;
  temp.LowPart = ft.dwLowDateTime;
  temp.HighPart = ft.dwHighDateTime;
  return file_time_type(file_clock::duration(temp.QuadPart));''',
  '''  const uint64_t ticks = static_cast<uint64_t>(ft.dwHighDateTime) << 32 |
                         ft.dwLowDateTime;
  return file_time_type(file_clock::duration(ticks));'''),
 ('''  ULARGE_INTEGER temp;
  temp.QuadPart = t.time_since_epoch().count();

  FILETIME ft;
  ft.dwLowDateTime = temp.LowPart;
  ft.dwHighDateTime = temp.HighPart;''',
  '''  const uint64_t ticks = static_cast<uint64_t>(t.time_since_epoch().count());
  FILETIME ft = {};
  ft.dwHighDateTime = static_cast<DWORD>(ticks >> 32);
  ft.dwLowDateTime = static_cast<DWORD>(ticks & 0xffffffffu);'''),
 ('''void set_error(error_code& ec) ASIOEXT_NOEXCEPT
{
  ec = error_code(::GetLastError(), asio::error::get_system_category());
}
''', '''void set_error(error_code& ec) ASIOEXT_NOEXCEPT
{
  const DWORD last_error = ::GetLastError();
  ec.assign(static_cast<int>(last_error), asio::error::get_system_category());
}

inline bool check(BOOL result, error_code& ec) ASIOEXT_NOEXCEPT
{
  if (!result) {
    set_error(ec);
    return false;
  }
  ec = error_code();
  return true;
}

#if !defined(ASIOEXT_WINDOWS_APP)
inline HANDLE std_handle(DWORD which, error_code& ec) ASIOEXT_NOEXCEPT
{
  const HANDLE h = ::GetStdHandle(which);
  check(h != INVALID_HANDLE_VALUE, ec);
  return h;
}
#endif

#if (_WIN32_WINNT >= 0x0600)
// Changes nothing but the attributes: the times are ignored if they are zero.
inline void set_native_attributes(HANDLE fd, DWORD attrs,
                                  error_code& ec) ASIOEXT_NOEXCEPT
{
  FILE_BASIC_INFO info;
  info.CreationTime.QuadPart = info.LastAccessTime.QuadPart = 0;
  info.LastWriteTime.QuadPart = info.ChangeTime.QuadPart = 0;
  info.FileAttributes = attrs != 0 ? attrs : FILE_ATTRIBUTE_NORMAL;
  check(::SetFileInformationByHandle(fd, FileBasicInfo, &info, sizeof(info)), ec);
}
#endif
'''),
 ('''  const handle_type h = ::GetStdHandle(STD_INPUT_HANDLE);
  if (h != INVALID_HANDLE_VALUE)
    ec = error_code();
  else
    set_error(ec);

  return h;''', '  return std_handle(STD_INPUT_HANDLE, ec);'),
 ('''  const handle_type h = ::GetStdHandle(STD_OUTPUT_HANDLE);
  if (h != INVALID_HANDLE_VALUE)
    ec = error_code();
  else
    set_error(ec);

  return h;''', '  return std_handle(STD_OUTPUT_HANDLE, ec);'),
 ('''  // 0 means "don't change any attributes" and not "no attributes set"
  // as one might expect.
  if (info.FileAttributes == 0)
    info.FileAttributes = FILE_ATTRIBUTE_NORMAL;

  // We deliberately set all the other fields (i.e. file times) to zero,
  // so they are ignored by the kernel. Otherwise we'd risk overwriting
  // changes that happened in the meantime.
  info.CreationTime.QuadPart = 0;
  info.LastAccessTime.QuadPart = 0;
  info.LastWriteTime.QuadPart = 0;
  info.ChangeTime.QuadPart = 0;

  if (::SetFileInformationByHandle(fd, FileBasicInfo, &info, sizeof(info)))
    ec = error_code();
  else
    set_error(ec);''', '  set_native_attributes(fd, info.FileAttributes, ec);'),
 ('''  // 0 means "don't change any attributes" and not "no attributes set"
  // as one might expect.
  if (info.FileAttributes == 0)
    info.FileAttributes = FILE_ATTRIBUTE_NORMAL;

  // We deliberately set all the other fields (file times) to zero,
  // so they are ignored by the kernel. Otherwise we'd risk overwriting
  // changes that happened in the meantime.
  info.CreationTime.QuadPart = 0;
  info.LastAccessTime.QuadPart = 0;
  info.LastWriteTime.QuadPart = 0;
  info.ChangeTime.QuadPart = 0;

  if (::SetFileInformationByHandle(fd, FileBasicInfo, &info, sizeof(info)))
    ec = error_code();
  else
    set_error(ec);''', '  set_native_attributes(fd, info.FileAttributes, ec);'),
 ('''  LARGE_INTEGER size;
  if (::GetFileSizeEx(fd, &size)) {
    ec = error_code();
    return static_cast<uint64_t>(size.QuadPart);
  }

  set_error(ec);
  return 0;''', '''#if (_WIN32_WINNT >= 0x0600)
  FILE_STANDARD_INFO info;
  return check(::GetFileInformationByHandleEx(fd, FileStandardInfo, &info, sizeof(info)), ec) ?
      static_cast<uint64_t>(info.EndOfFile.QuadPart) : 0;
#else
  LARGE_INTEGER size;
  return check(::GetFileSizeEx(fd, &size), ec) ?
      static_cast<uint64_t>(size.QuadPart) : 0;
#endif'''),
 ('''  FILE_ALLOCATION_INFO ai;
  FILE_END_OF_FILE_INFO ei;

  ai.AllocationSize.QuadPart = new_size;
  ei.EndOfFile.QuadPart = new_size;

  if (::SetFileInformationByHandle(fd, FileEndOfFileInfo, &ei, sizeof(ei)) &&
      // Explicitly deallocate space for |new_size| < |old size|
      ::SetFileInformationByHandle(fd, FileAllocationInfo, &ai, sizeof(ai))) {
    ec = error_code();
  } else {
    set_error(ec);
  }''', '''  FILE_END_OF_FILE_INFO ei = {};
  ei.EndOfFile.QuadPart = new_size;
  if (!check(::SetFileInformationByHandle(fd, FileEndOfFileInfo, &ei, sizeof(ei)), ec))
    return;

  // Explicitly deallocate space for |new_size| < |old size|
  FILE_ALLOCATION_INFO ai = {};
  ai.AllocationSize.QuadPart = new_size;
  check(::SetFileInformationByHandle(fd, FileAllocationInfo, &ai, sizeof(ai)), ec);'''),
 ('''  if (::SetFilePointerEx(fd, zero, &old_pointer, FILE_CURRENT) &&
      ::SetFilePointerEx(fd, size, NULL, FILE_BEGIN)) {
    if (::SetEndOfFile(fd)) {
      if (::SetFilePointerEx(fd, old_pointer, NULL, FILE_BEGIN)) {
        ec = error_code();
        return;
      }
    } else {
      // We failed to set the new size, but we can still reset the file
      // pointer to avoid surprising the user.
      set_error(ec);
      ::SetFilePointerEx(fd, old_pointer, NULL, FILE_BEGIN);
      return;
    }
  }
  set_error(ec);''', '''  if (!check(::SetFilePointerEx(fd, zero, &old_pointer, FILE_CURRENT), ec))
    return;
  if (!check(::SetFilePointerEx(fd, size, NULL, FILE_BEGIN), ec))
    return;

  const bool resized = check(::SetEndOfFile(fd), ec);
  const BOOL restored = ::SetFilePointerEx(fd, old_pointer, NULL, FILE_BEGIN);
  if (resized)
    check(restored, ec);'''),
 ('''  LARGE_INTEGER pos, res;
  pos.QuadPart = offset;

  if (::SetFilePointerEx(fd, pos, &res, static_cast<DWORD>(origin))) {
    ec = error_code();
    return res.QuadPart;
  }

  set_error(ec);
  return 0;''', '''  LARGE_INTEGER pos, res;
  pos.QuadPart = offset;
  res.QuadPart = 0;
  check(::SetFilePointerEx(fd, pos, &res, static_cast<DWORD>(origin)), ec);
  return ec ? 0 : res.QuadPart;'''),
 ('''  LARGE_INTEGER offset2;
  offset2.QuadPart = offset;

  OVERLAPPED overlapped = {0};
  overlapped.Offset = offset2.LowPart;
  overlapped.OffsetHigh = offset2.HighPart;''', '''  OVERLAPPED overlapped = {0};
  overlapped.OffsetHigh = static_cast<DWORD>(offset >> 32);
  overlapped.Offset = static_cast<DWORD>(offset);'''),
 ('''  FILETIME cft, mft, aft;
  if (::GetFileTime(fd, &cft, &aft, &mft)) {
    ctime = filetime_to_chrono(cft);
    atime = filetime_to_chrono(aft);
    mtime = filetime_to_chrono(mft);
    ec = error_code();
    return;
  }
  set_error(ec);''', '''#if (_WIN32_WINNT >= 0x0600)
  FILE_BASIC_INFO info;
  if (!check(::GetFileInformationByHandleEx(fd, FileBasicInfo, &info, sizeof(info)), ec))
    return;
  ctime = file_time_type(file_clock::duration(info.CreationTime.QuadPart));
  atime = file_time_type(file_clock::duration(info.LastAccessTime.QuadPart));
  mtime = file_time_type(file_clock::duration(info.LastWriteTime.QuadPart));
#else
  FILETIME cft, mft, aft;
  if (!check(::GetFileTime(fd, &cft, &aft, &mft), ec))
    return;
  ctime = filetime_to_chrono(cft);
  atime = filetime_to_chrono(aft);
  mtime = filetime_to_chrono(mft);
#endif'''),
 ('''  if ((flags & open_flags::create_new) != open_flags::none)
    creation_disposition = CREATE_NEW;
  else if ((flags & open_flags::create_always) != open_flags::none)
    creation_disposition = CREATE_ALWAYS;
  else if ((flags & open_flags::open_existing) != open_flags::none)
    creation_disposition = OPEN_EXISTING;
  else if ((flags & open_flags::open_always) != open_flags::none)
    creation_disposition = OPEN_ALWAYS;
  else if ((flags & open_flags::truncate_existing) != open_flags::none)
    creation_disposition = TRUNCATE_EXISTING;
  else
    creation_disposition = 0;''', '''  static const struct { open_flags flag; uint32_t native; } dispositions[] = {
    { open_flags::create_new, CREATE_NEW },
    { open_flags::create_always, CREATE_ALWAYS },
    { open_flags::open_existing, OPEN_EXISTING },
    { open_flags::open_always, OPEN_ALWAYS },
    { open_flags::truncate_existing, TRUNCATE_EXISTING }
  };
  creation_disposition = 0;
  for (const auto& d : dispositions) {
    if ((flags & d.flag) != open_flags::none) {
      creation_disposition = d.native;
      break;
    }
  }'''),
 ('''  uint32_t share_mode = FILE_SHARE_READ | FILE_SHARE_WRITE;
  if ((flags & open_flags::exclusive_read) != open_flags::none)
    share_mode &= ~FILE_SHARE_READ;
  if ((flags & open_flags::exclusive_write) != open_flags::none)
    share_mode &= ~FILE_SHARE_WRITE;''', '''  uint32_t share_mode = 0;
  if ((flags & open_flags::exclusive_read) == open_flags::none)
    share_mode |= FILE_SHARE_READ;
  if ((flags & open_flags::exclusive_write) == open_flags::none)
    share_mode |= FILE_SHARE_WRITE;'''),
 ('''  DWORD bytesRead = 0;
  if (!::ReadFile(fd, buffer, size, &bytesRead, NULL)) {
    set_error(ec);
    return 0;
  }

  if (bytesRead == 0 && size != 0)
    ec = asio::error::eof;
  else
    ec = error_code();

  return bytesRead;''', '''  DWORD bytesRead = 0;
  if (!check(::ReadFile(fd, buffer, size, &bytesRead, NULL), ec))
    return 0;
  if (size != 0 && bytesRead == 0)
    ec = asio::error::eof;
  return bytesRead;'''),
 ('''    if ((opts & file_attr_options::add) != static_cast<file_attr_options>(0))
      info.FileAttributes |= new_attrs;
    else
      info.FileAttributes &= ~new_attrs;''', '''    const bool add = (opts & file_attr_options::add) !=
                     static_cast<file_attr_options>(0);
    info.FileAttributes = add ? (info.FileAttributes | new_attrs)
                              : (info.FileAttributes & ~new_attrs);'''),
)
edit('detail/impl/win_path.cpp',
 ('''    new_length = ::MultiByteToWideChar(CP_UTF8, 0, s, len, buffer_, kMaxPath);
    buffer_[new_length] = L'\\0';
''', '''    wchar_t* const out = buffer_;
    new_length = ::MultiByteToWideChar(CP_UTF8, 0, s, len, out, kMaxPath);
    *(out + new_length) = L'\\0';
'''))
edit('impl/file_handle_win.hpp',
 ('  return size <= 0xffffffffu ? static_cast<uint32_t>(size) : 0xffffffffu;',
  '''  const std::size_t limit = 0x7ffff000u; // more than enough at once
  return static_cast<uint32_t>((std::min)(size, limit));'''),
 ('  const asio::mutable_buffer buf = asioext::first_mutable_buffer(buffers);', '  const auto buf = asioext::first_mutable_buffer(buffers);'))
edit('impl/file_handle_win.cpp',
 ('''  if (handle_ == INVALID_HANDLE_VALUE) {
    ec = error_code();
    return;
  }

  detail::win_file_ops::close(handle_, ec);
  handle_ = INVALID_HANDLE_VALUE;''', '''  if (is_open()) {
    const native_handle_type h = handle_;
    clear();
    detail::win_file_ops::close(h, ec);
  } else {
    ec = error_code();
  }'''),
 ('  return seek(seek_origin::from_current, 0, ec);', '''  return detail::win_file_ops::seek(handle_, seek_origin::from_current, 0, ec);'''))

# -- BSD and macOS
edit('detail/impl/posix_file_ops.cpp',
 ('''  uint32_t new_attrs = file_attrs_to_native(attrs);
  if ((opts & (file_attr_options::add | file_attr_options::remove)) !=
      static_cast<file_attr_options>(0)) {
    struct stat st;
    if (::fstat(fd, &st) != 0) {
      set_error(ec, errno);
      return;
    }
    if ((opts & file_attr_options::add) != static_cast<file_attr_options>(0))
      new_attrs = st.st_flags | new_attrs;
    else
      new_attrs = st.st_flags & ~new_attrs;
  }

  if (::fchflags(fd, new_attrs) == 0)
    ec = error_code();
  else
    set_error(ec, errno);''', '''  const uint32_t requested = file_attrs_to_native(attrs);
  const auto zero = static_cast<file_attr_options>(0);
  const bool add = (opts & file_attr_options::add) != zero;
  const bool remove = (opts & file_attr_options::remove) != zero;
  uint32_t current = 0;
  if (add || remove) {
    struct stat st;
    const int r = ::fstat(fd, &st);
    if (r == -1) {
      ec.assign(errno, asio::error::get_system_category());
      return;
    }
    current = st.st_flags;
  }

  if (::fchflags(fd, remove && !add ? current & ~requested : current | requested) == -1) {
    set_error(ec, errno);
    return;
  }
  ec = error_code();'''),
 ('''  if (args.attrs() != 0 && (flags & O_CREAT))
    flags |= O_EXCL;
#endif''', '''  const bool creates = (flags & O_CREAT) == O_CREAT;
  if (creates && args.attrs())
    flags = flags | O_EXCL;
#endif'''),
)
