// Implements fakewin/windows.h: a file system in memory that behaves as
// Microsoft documents theirs to. Every function may be made to fail.
#ifndef VERIF_WIN_MODEL_HPP
#define VERIF_WIN_MODEL_HPP
#include <windows.h>
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

namespace fw {

const std::uint64_t max_file = (1ull << 44) - 65536; // NTFS
const DWORD settable = FILE_ATTRIBUTE_READONLY | FILE_ATTRIBUTE_HIDDEN | FILE_ATTRIBUTE_SYSTEM | FILE_ATTRIBUTE_ARCHIVE | FILE_ATTRIBUTE_TEMPORARY |
                       FILE_ATTRIBUTE_OFFLINE | FILE_ATTRIBUTE_NOT_CONTENT_INDEXED;

struct Node
{
  std::map<std::uint64_t, unsigned char> data; // bytes other than zero may be absent
  std::uint64_t size = 0;
  DWORD attrs = FILE_ATTRIBUTE_ARCHIVE;
  std::uint64_t c = 0, a = 0, m = 0; // times, in 100 ns since 1601
  void resize(std::uint64_t n) { size = n; data.erase(data.lower_bound(n), data.end()); }
};

struct Open
{
  std::shared_ptr<Node> node;
  DWORD access, share, flags;
  std::uint64_t pos = 0;
  DWORD transferred = 0; // by the last transfer
};

typedef std::u32string Name; // UTF-16 code units

struct World
{
  std::recursive_mutex mutex;
  std::map<Name, std::shared_ptr<Node>> names;
  std::map<std::uintptr_t, std::shared_ptr<Open>> handles;
  std::uintptr_t next_handle = 4;
  HANDLE std_handles[3] = {INVALID_HANDLE_VALUE, INVALID_HANDLE_VALUE, INVALID_HANDLE_VALUE};
  DWORD std_errors[3] = {0, 0, 0};
  std::uint64_t clock = 1000;
  std::uint64_t max_transfer = ~0ull;  // transfers are cut to this size
  int fault_at = 0;                    // the call that fails (1: the next)
  DWORD fault_error = 0;
  DWORD stale = 0;                     // the last error left by successful calls
  int calls = 0;
  bool fired = false;
  std::vector<DWORD> failures;         // errors reported
  std::string api;                     // the last one to fail

  void arm(int at, DWORD e) { calls = 0; fault_at = at; fault_error = e; fired = false; failures.clear(); api.clear(); }
};

World* world; // per case
inline thread_local DWORD last_error;

inline BOOL fail(DWORD e, const char* api)
{
  world->failures.push_back(e);
  world->api = api;
  last_error = e;
  return FALSE;
}
inline bool faulty(const char* api)
{
  if (++world->calls != world->fault_at) return false;
  world->fired = true;
  fail(world->fault_error, api);
  return true;
}
inline BOOL done() { last_error = world->stale; return TRUE; }
inline std::shared_ptr<Open> get(HANDLE h)
{
  auto it = world->handles.find(reinterpret_cast<std::uintptr_t>(h));
  return it == world->handles.end() ? nullptr : it->second;
}
inline HANDLE put(std::shared_ptr<Open> o)
{
  const std::uintptr_t v = world->next_handle;
  world->next_handle += 4;
  world->handles[v] = std::move(o);
  return reinterpret_cast<HANDLE>(v);
}
inline bool can_read(const Open& o) { return o.access & (GENERIC_READ | GENERIC_ALL | FILE_READ_DATA); }
inline bool can_write(const Open& o) { return o.access & (GENERIC_WRITE | GENERIC_ALL | FILE_WRITE_DATA); }
inline bool can_set(const Open& o) { return o.access & (GENERIC_WRITE | GENERIC_ALL | FILE_WRITE_ATTRIBUTES); }
inline DWORD shown(DWORD attrs) { return attrs ? attrs : FILE_ATTRIBUTE_NORMAL; }
inline std::uint64_t join(const FILETIME& f) { return (std::uint64_t)f.dwHighDateTime << 32 | f.dwLowDateTime; }
inline FILETIME split(std::uint64_t t) { FILETIME f; f.dwLowDateTime = (DWORD)t; f.dwHighDateTime = (DWORD)(t >> 32); return f; }

inline HANDLE create(const Name& name, DWORD access, DWORD share, DWORD disposition, DWORD attrs, DWORD flags, const char* api)
{
  if (faulty(api)) return INVALID_HANDLE_VALUE;
  auto no = [&](DWORD e) { fail(e, api); return INVALID_HANDLE_VALUE; };
  if (disposition < CREATE_NEW || disposition > TRUNCATE_EXISTING) return no(ERROR_INVALID_PARAMETER);
  if (share & ~7u) return no(ERROR_INVALID_PARAMETER);
  if (name.empty()) return no(ERROR_PATH_NOT_FOUND);
  auto it = world->names.find(name);
  std::shared_ptr<Node> n = it == world->names.end() ? nullptr : it->second;
  if (disposition == TRUNCATE_EXISTING && !(access & GENERIC_WRITE)) return no(ERROR_INVALID_PARAMETER);
  if (!n && (disposition == OPEN_EXISTING || disposition == TRUNCATE_EXISTING)) return no(ERROR_FILE_NOT_FOUND);
  if (n && disposition == CREATE_NEW) return no(ERROR_FILE_EXISTS);
  attrs &= settable;
  bool existed = false;
  if (n) {
    const bool replaces = disposition == CREATE_ALWAYS || disposition == TRUNCATE_EXISTING;
    if ((n->attrs & FILE_ATTRIBUTE_READONLY) && ((access & GENERIC_WRITE) || replaces)) return no(ERROR_ACCESS_DENIED);
    if (disposition == CREATE_ALWAYS && (n->attrs & ~attrs & (FILE_ATTRIBUTE_HIDDEN | FILE_ATTRIBUTE_SYSTEM))) return no(ERROR_ACCESS_DENIED);
    const DWORD wanted = access | (replaces ? GENERIC_WRITE : 0u);
    for (auto& h : world->handles) {
      const Open& o = *h.second;
      if (o.node != n) continue;
      if (((wanted & GENERIC_READ) && !(o.share & FILE_SHARE_READ) && (o.access & (GENERIC_READ | GENERIC_WRITE))) ||
          ((wanted & GENERIC_WRITE) && !(o.share & FILE_SHARE_WRITE) && (o.access & (GENERIC_READ | GENERIC_WRITE))) ||
          ((wanted & (GENERIC_READ | GENERIC_WRITE)) && can_read(o) && !(share & FILE_SHARE_READ)) ||
          ((wanted & (GENERIC_READ | GENERIC_WRITE)) && can_write(o) && !(share & FILE_SHARE_WRITE)))
        return no(ERROR_SHARING_VIOLATION);
    }
    if (replaces) { n->resize(0); n->m = ++world->clock; }
    if (disposition == CREATE_ALWAYS) n->attrs = (n->attrs & ~settable) | attrs | FILE_ATTRIBUTE_ARCHIVE;
    existed = disposition == CREATE_ALWAYS || disposition == OPEN_ALWAYS;
  } else {
    n = std::make_shared<Node>();
    n->attrs = attrs | FILE_ATTRIBUTE_ARCHIVE;
    n->c = n->a = n->m = ++world->clock;
    world->names[name] = n;
  }
  auto o = std::make_shared<Open>();
  o->node = n;
  o->access = access;
  o->share = share;
  o->flags = flags;
  const HANDLE h = put(o);
  done();
  if (existed) last_error = ERROR_ALREADY_EXISTS;
  return h;
}

inline Name units(const wchar_t* s) { Name r; while (*s) r += (char32_t)*s++; return r; }

} // namespace fw

#define FW_ENTER(api, ret) std::lock_guard<std::recursive_mutex> fw_lock(fw::world->mutex); if (fw::faulty(api)) return ret
#define FW_HANDLE(api) FW_ENTER(api, FALSE); const std::shared_ptr<fw::Open> o = fw::get(h); if (!o) return fw::fail(ERROR_INVALID_HANDLE, api); \
  fw::Node& n = *o->node; (void)n

DWORD GetLastError() { return fw::last_error; }
void SetLastError(DWORD e) { fw::last_error = e; }

HANDLE CreateFileW(LPCWSTR name, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES, DWORD disposition, DWORD fa, HANDLE)
{
  std::lock_guard<std::recursive_mutex> lock(fw::world->mutex);
  return fw::create(fw::units(name), access, share, disposition, fa & 0xffffu, fa & 0xffff0000u, "CreateFileW");
}
HANDLE CreateFileA(LPCSTR name, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES, DWORD disposition, DWORD fa, HANDLE)
{
  std::lock_guard<std::recursive_mutex> lock(fw::world->mutex);
  fw::Name n;
  for (; *name; ++name) n += (char32_t)(unsigned char)*name; // the code page is Latin-1
  return fw::create(n, access, share, disposition, fa & 0xffffu, fa & 0xffff0000u, "CreateFileA");
}
HANDLE CreateFile2(LPCWSTR name, DWORD access, DWORD share, DWORD disposition, LPCREATEFILE2_EXTENDED_PARAMETERS p)
{
  std::lock_guard<std::recursive_mutex> lock(fw::world->mutex);
  if (p && p->dwSize != sizeof(*p)) { fw::fail(ERROR_INVALID_PARAMETER, "CreateFile2"); return INVALID_HANDLE_VALUE; }
  return fw::create(fw::units(name), access, share, disposition, p ? p->dwFileAttributes : 0, p ? p->dwFileFlags : 0, "CreateFile2");
}
BOOL CloseHandle(HANDLE h)
{
  FW_HANDLE("CloseHandle");
  fw::world->handles.erase(reinterpret_cast<std::uintptr_t>(h));
  return fw::done();
}
HANDLE GetCurrentProcess() { return (HANDLE)(intptr_t)-1; }
BOOL DuplicateHandle(HANDLE sp, HANDLE h, HANDLE tp, LPHANDLE target, DWORD access, BOOL, DWORD options)
{
  FW_HANDLE("DuplicateHandle");
  if (sp != GetCurrentProcess() || tp != GetCurrentProcess()) return fw::fail(ERROR_INVALID_HANDLE, "DuplicateHandle");
  std::shared_ptr<fw::Open> d = o;
  if (!(options & DUPLICATE_SAME_ACCESS) && access != o->access) { d = std::make_shared<fw::Open>(*o); d->access = access; } // its position is then separate (an approximation)
  *target = fw::put(d);
  if (options & DUPLICATE_CLOSE_SOURCE) fw::world->handles.erase(reinterpret_cast<std::uintptr_t>(h));
  return fw::done();
}
HANDLE GetStdHandle(DWORD which)
{
  FW_ENTER("GetStdHandle", INVALID_HANDLE_VALUE);
  const DWORD i = (DWORD)-10 - which;
  if (i > 2) { fw::fail(ERROR_INVALID_HANDLE, "GetStdHandle"); return INVALID_HANDLE_VALUE; }
  if (fw::world->std_handles[i] == INVALID_HANDLE_VALUE) fw::fail(fw::world->std_errors[i], "GetStdHandle");
  else fw::done();
  return fw::world->std_handles[i];
}
DWORD GetFileType(HANDLE h)
{
  FW_ENTER("GetFileType", FILE_TYPE_UNKNOWN);
  if (!fw::get(h)) { fw::fail(ERROR_INVALID_HANDLE, "GetFileType"); return FILE_TYPE_UNKNOWN; }
  fw::done();
  return FILE_TYPE_DISK;
}
BOOL GetFileSizeEx(HANDLE h, PLARGE_INTEGER size)
{
  FW_HANDLE("GetFileSizeEx");
  size->QuadPart = (LONGLONG)n.size;
  return fw::done();
}
BOOL SetFilePointerEx(HANDLE h, LARGE_INTEGER distance, PLARGE_INTEGER result, DWORD method)
{
  FW_HANDLE("SetFilePointerEx");
  if (method > FILE_END) return fw::fail(ERROR_INVALID_PARAMETER, "SetFilePointerEx");
  const LONGLONG base = method == FILE_BEGIN ? 0 : (LONGLONG)(method == FILE_CURRENT ? o->pos : n.size);
  LONGLONG r;
  if (__builtin_add_overflow(base, distance.QuadPart, &r)) return fw::fail(ERROR_INVALID_PARAMETER, "SetFilePointerEx");
  if (r < 0) return fw::fail(ERROR_NEGATIVE_SEEK, "SetFilePointerEx");
  o->pos = (std::uint64_t)r;
  if (result) result->QuadPart = r;
  return fw::done();
}
DWORD SetFilePointer(HANDLE h, LONG distance, LONG* distance_high, DWORD method)
{
  LARGE_INTEGER d, r;
  if (distance_high) { d.LowPart = (DWORD)distance; d.HighPart = *distance_high; }
  else {
    d.QuadPart = distance;
    std::lock_guard<std::recursive_mutex> lock(fw::world->mutex);
    if (auto o = fw::get(h)) { // the result must fit into 32 bits
      const LONGLONG base = method == FILE_CURRENT ? (LONGLONG)o->pos : method == FILE_END ? (LONGLONG)o->node->size : 0;
      if (base + d.QuadPart > 0xfffffffell) { fw::fail(ERROR_INVALID_PARAMETER, "SetFilePointer"); return INVALID_SET_FILE_POINTER; }
    }
  }
  if (!SetFilePointerEx(h, d, &r, method)) return INVALID_SET_FILE_POINTER;
  if (distance_high) *distance_high = r.HighPart;
  if (r.LowPart == INVALID_SET_FILE_POINTER) SetLastError(NO_ERROR);
  return r.LowPart;
}
DWORD GetFileSize(HANDLE h, LPDWORD high)
{
  LARGE_INTEGER r;
  if (!GetFileSizeEx(h, &r)) return INVALID_FILE_SIZE;
  if (high) *high = (DWORD)r.HighPart;
  if (r.LowPart == INVALID_FILE_SIZE) SetLastError(NO_ERROR);
  return r.LowPart;
}
int lstrlenA(LPCSTR s) { return s ? (int)std::strlen(s) : 0; }
int lstrlenW(LPCWSTR s) { int n = 0; while (s && s[n]) ++n; return n; }
LONG CompareFileTime(const FILETIME* a, const FILETIME* b) { return fw::join(*a) < fw::join(*b) ? -1 : fw::join(*b) < fw::join(*a); }
static BOOL fw_set_size(fw::Open& o, std::uint64_t size, const char* api)
{
  if (!fw::can_write(o)) return fw::fail(ERROR_ACCESS_DENIED, api);
  if (size >> 63) return fw::fail(ERROR_INVALID_PARAMETER, api);
  if (size > fw::max_file) return fw::fail(ERROR_DISK_FULL, api);
  o.node->resize(size);
  return fw::done();
}
BOOL SetEndOfFile(HANDLE h) { FW_HANDLE("SetEndOfFile"); return fw_set_size(*o, o->pos, "SetEndOfFile"); }
BOOL FlushFileBuffers(HANDLE h) { FW_HANDLE("FlushFileBuffers"); return fw::done(); }
BOOL GetFileInformationByHandle(HANDLE h, LPBY_HANDLE_FILE_INFORMATION info)
{
  FW_HANDLE("GetFileInformationByHandle");
  std::memset(info, 0, sizeof(*info));
  info->dwFileAttributes = fw::shown(n.attrs);
  info->ftCreationTime = fw::split(n.c);
  info->ftLastAccessTime = fw::split(n.a);
  info->ftLastWriteTime = fw::split(n.m);
  info->nFileSizeHigh = (DWORD)(n.size >> 32);
  info->nFileSizeLow = (DWORD)n.size;
  info->nNumberOfLinks = 1;
  return fw::done();
}
BOOL GetFileInformationByHandleEx(HANDLE h, FILE_INFO_BY_HANDLE_CLASS what, LPVOID info, DWORD size)
{
  const char* const api = "GetFileInformationByHandleEx";
  FW_HANDLE(api);
  if (what == FileBasicInfo && size >= sizeof(FILE_BASIC_INFO)) {
    FILE_BASIC_INFO b{};
    b.CreationTime.QuadPart = (LONGLONG)n.c;
    b.LastAccessTime.QuadPart = (LONGLONG)n.a;
    b.LastWriteTime.QuadPart = (LONGLONG)n.m;
    b.ChangeTime.QuadPart = (LONGLONG)n.m;
    b.FileAttributes = fw::shown(n.attrs);
    std::memcpy(info, &b, sizeof(b));
    return fw::done();
  }
  if (what == FileStandardInfo && size >= sizeof(FILE_STANDARD_INFO)) {
    FILE_STANDARD_INFO s{};
    s.AllocationSize.QuadPart = (LONGLONG)((n.size + 4095) & ~4095ull);
    s.EndOfFile.QuadPart = (LONGLONG)n.size;
    s.NumberOfLinks = 1;
    std::memcpy(info, &s, sizeof(s));
    return fw::done();
  }
  return fw::fail(ERROR_INVALID_PARAMETER, api);
}
BOOL SetFileInformationByHandle(HANDLE h, FILE_INFO_BY_HANDLE_CLASS what, LPVOID info, DWORD size)
{
  const char* const api = "SetFileInformationByHandle";
  FW_HANDLE(api);
  if (what == FileEndOfFileInfo && size >= sizeof(FILE_END_OF_FILE_INFO))
    return fw_set_size(*o, (std::uint64_t)static_cast<FILE_END_OF_FILE_INFO*>(info)->EndOfFile.QuadPart, api);
  if (what == FileAllocationInfo && size >= sizeof(FILE_ALLOCATION_INFO)) {
    const std::uint64_t a = (std::uint64_t)static_cast<FILE_ALLOCATION_INFO*>(info)->AllocationSize.QuadPart;
    if (!fw::can_write(*o)) return fw::fail(ERROR_ACCESS_DENIED, api);
    if (a >> 63) return fw::fail(ERROR_INVALID_PARAMETER, api);
    if (a > fw::max_file) return fw::fail(ERROR_DISK_FULL, api);
    if (a < n.size) n.resize(a);
    return fw::done();
  }
  if (what == FileBasicInfo && size >= sizeof(FILE_BASIC_INFO)) {
    const FILE_BASIC_INFO& b = *static_cast<FILE_BASIC_INFO*>(info);
    if (!fw::can_set(*o)) return fw::fail(ERROR_ACCESS_DENIED, api);
    for (LONGLONG t : {b.CreationTime.QuadPart, b.LastAccessTime.QuadPart, b.LastWriteTime.QuadPart, b.ChangeTime.QuadPart})
      if (t < -2) return fw::fail(ERROR_INVALID_PARAMETER, api);
    if (b.FileAttributes & FILE_ATTRIBUTE_DIRECTORY) return fw::fail(ERROR_INVALID_PARAMETER, api);
    if (b.CreationTime.QuadPart > 0) n.c = (std::uint64_t)b.CreationTime.QuadPart;
    if (b.LastAccessTime.QuadPart > 0) n.a = (std::uint64_t)b.LastAccessTime.QuadPart;
    if (b.LastWriteTime.QuadPart > 0) n.m = (std::uint64_t)b.LastWriteTime.QuadPart;
    if (b.FileAttributes) n.attrs = (n.attrs & ~fw::settable) | (b.FileAttributes & fw::settable); // 0: unchanged
    return fw::done();
  }
  return fw::fail(ERROR_INVALID_PARAMETER, api);
}
BOOL GetFileTime(HANDLE h, LPFILETIME c, LPFILETIME a, LPFILETIME m)
{
  FW_HANDLE("GetFileTime");
  if (c) *c = fw::split(n.c);
  if (a) *a = fw::split(n.a);
  if (m) *m = fw::split(n.m);
  return fw::done();
}
BOOL SetFileTime(HANDLE h, const FILETIME* c, const FILETIME* a, const FILETIME* m)
{
  FW_HANDLE("SetFileTime");
  if (!fw::can_set(*o)) return fw::fail(ERROR_ACCESS_DENIED, "SetFileTime");
  const FILETIME* const given[] = {c, a, m};
  std::uint64_t* const to[] = {&n.c, &n.a, &n.m};
  for (const FILETIME* f : given)
    if (f && fw::join(*f) >> 63 && ~fw::join(*f) > 1) return fw::fail(ERROR_INVALID_PARAMETER, "SetFileTime");
  for (int i = 0; i != 3; ++i) // 0: unchanged; -1, -2: about the updates by later operations
    if (given[i] && fw::join(*given[i]) != 0 && !(fw::join(*given[i]) >> 63)) *to[i] = fw::join(*given[i]);
  return fw::done();
}
// Where a transfer starts, or a failure.
static bool fw_start(fw::Open& o, LPOVERLAPPED ov, bool append, std::uint64_t& at, const char* api)
{
  if (!ov) {
    if (o.flags & FILE_FLAG_OVERLAPPED) return fw::fail(ERROR_INVALID_PARAMETER, api);
    at = o.pos;
    return true;
  }
  at = (std::uint64_t)ov->OffsetHigh << 32 | ov->Offset;
  if (append && at == ~0ull) at = o.node->size;
  if (at >> 63) return fw::fail(ERROR_INVALID_PARAMETER, api);
  return true;
}
BOOL ReadFile(HANDLE h, LPVOID data, DWORD size, LPDWORD transferred, LPOVERLAPPED ov)
{
  if (transferred) *transferred = 0;
  FW_HANDLE("ReadFile");
  if (!fw::can_read(*o)) return fw::fail(ERROR_ACCESS_DENIED, "ReadFile");
  if (!transferred && !ov) return fw::fail(ERROR_INVALID_PARAMETER, "ReadFile");
  std::uint64_t at;
  if (!fw_start(*o, ov, false, at, "ReadFile")) return FALSE;
  if (size != 0 && at >= n.size) return ov ? fw::fail(ERROR_HANDLE_EOF, "ReadFile") : fw::done(); // reported in two ways
  const std::uint64_t k = size == 0 ? 0 : std::min({(std::uint64_t)size, n.size - at, fw::world->max_transfer});
  for (std::uint64_t i = 0; i != k; ++i) {
    auto it = n.data.find(at + i);
    static_cast<unsigned char*>(data)[i] = it == n.data.end() ? 0 : it->second;
  }
  o->pos = at + k; // also by transfers at an offset
  o->transferred = (DWORD)k;
  if (transferred) *transferred = (DWORD)k;
  return fw::done();
}
BOOL WriteFile(HANDLE h, LPCVOID data, DWORD size, LPDWORD transferred, LPOVERLAPPED ov)
{
  if (transferred) *transferred = 0;
  FW_HANDLE("WriteFile");
  if (!fw::can_write(*o)) return fw::fail(ERROR_ACCESS_DENIED, "WriteFile");
  if (!transferred && !ov) return fw::fail(ERROR_INVALID_PARAMETER, "WriteFile");
  std::uint64_t at;
  if (!fw_start(*o, ov, true, at, "WriteFile")) return FALSE;
  const std::uint64_t k = std::min((std::uint64_t)size, fw::world->max_transfer);
  if (k && (at > fw::max_file || k > fw::max_file - at)) return fw::fail(ERROR_DISK_FULL, "WriteFile");
  for (std::uint64_t i = 0; i != k; ++i) n.data[at + i] = static_cast<const unsigned char*>(data)[i];
  if (k) { n.size = std::max(n.size, at + k); n.m = ++fw::world->clock; n.attrs |= FILE_ATTRIBUTE_ARCHIVE; }
  o->pos = at + k;
  o->transferred = (DWORD)k;
  if (transferred) *transferred = (DWORD)k;
  return fw::done();
}
// The transfers end at once, so there is nothing to wait for.
BOOL GetOverlappedResult(HANDLE h, LPOVERLAPPED, LPDWORD transferred, BOOL)
{
  FW_HANDLE("GetOverlappedResult");
  if (transferred) *transferred = o->transferred;
  return fw::done();
}
int MultiByteToWideChar(UINT page, DWORD flags, LPCSTR s, int len, LPWSTR out, int room)
{
  FW_ENTER("MultiByteToWideChar", 0);
  if (len == 0 || len < -1 || room < 0 || !s || (room && !out)) return fw::fail(ERROR_INVALID_PARAMETER, "MultiByteToWideChar");
  std::size_t n = len == -1 ? std::strlen(s) + 1 : (std::size_t)len;
  std::vector<wchar_t> r;
  for (std::size_t i = 0; i < n;) {
    const unsigned char b = (unsigned char)s[i];
    if (page != CP_UTF8 || b < 0x80) { r.push_back(b); ++i; continue; }
    const int extra = b >= 0xf0 && b < 0xf5 ? 3 : b >= 0xe0 && b < 0xf0 ? 2 : b >= 0xc2 && b < 0xe0 ? 1 : 0;
    std::uint32_t v = extra == 3 ? b & 7 : extra == 2 ? b & 15 : b & 31;
    int k = 0;
    while (k != extra && i + 1 + k < n && ((unsigned char)s[i + 1 + k] & 0xc0) == 0x80) v = v << 6 | ((unsigned char)s[i + 1 + k++] & 0x3f);
    const bool ok = extra && k == extra && (extra != 2 || (v >= 0x800 && (v < 0xd800 || v > 0xdfff))) && (extra != 3 || (v >= 0x10000 && v <= 0x10ffff));
    if (!ok) {
      if (flags & MB_ERR_INVALID_CHARS) return fw::fail(ERROR_NO_UNICODE_TRANSLATION, "MultiByteToWideChar");
      r.push_back(0xfffd);
      ++i;
      continue;
    }
    i += 1 + extra;
    if (v < 0x10000) r.push_back((wchar_t)v);
    else { r.push_back((wchar_t)(0xd800 + ((v - 0x10000) >> 10))); r.push_back((wchar_t)(0xdc00 + ((v - 0x10000) & 0x3ff))); }
  }
  if (room == 0) { fw::done(); return (int)r.size(); }
  if ((std::size_t)room < r.size()) return fw::fail(ERROR_INSUFFICIENT_BUFFER, "MultiByteToWideChar");
  std::copy(r.begin(), r.end(), out);
  fw::done();
  return (int)r.size();
}
void GetSystemTimeAsFileTime(LPFILETIME t) { std::lock_guard<std::recursive_mutex> lock(fw::world->mutex); *t = fw::split(++fw::world->clock); }
void GetSystemTimePreciseAsFileTime(LPFILETIME t) { GetSystemTimeAsFileTime(t); }
#endif
