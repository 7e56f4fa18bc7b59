// Lets the library's code for FreeBSD (-DVERIF_FREEBSD) and macOS (-DVERIF_MACOS)
// be built and checked here: files are real ones, except that their flags and
// creation times are kept in a table. Must be the first header included.
#ifndef VERIF_BSD_MODEL_HPP
#define VERIF_BSD_MODEL_HPP
#include <bits/stdc++.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/poll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <asio.hpp>
#if !defined(VERIF_BSD_ALONE)
# include "../engine/pbt.hpp"
#endif

#undef st_atime
#undef st_mtime
#undef st_ctime

// The members of both systems' struct stat that matter.
struct bsd_stat
{
  dev_t st_dev;
  ino_t st_ino;
  mode_t st_mode;
  nlink_t st_nlink;
  uid_t st_uid;
  gid_t st_gid;
  dev_t st_rdev;
#if defined(VERIF_MACOS)
  struct timespec st_atimespec, st_mtimespec, st_ctimespec, st_birthtimespec;
#else
  struct timespec st_atim, st_mtim, st_ctim, st_birthtim;
#endif
  off_t st_size;
  blkcnt_t st_blocks;
  blksize_t st_blksize;
  std::uint32_t st_flags;
  std::uint32_t st_gen;
};

namespace bsd {

struct Node { std::uint32_t flags = 0; struct timespec birth = {0, 0}; };

struct World
{
  std::map<std::pair<std::uint64_t, std::uint64_t>, Node> nodes; // by device and inode
  int countdown = 0, fault = 0; // the countdown-th call fails
  bool fired = false;
  std::uint64_t calls = 0;

  void arm(int n, int e) { countdown = n; fault = e; fired = false; calls = 0; }
  bool fails()
  {
    ++calls;
    if (countdown == 0 || --countdown != 0) return false;
    fired = true;
    errno = fault;
    return true;
  }
};
inline World& world() { static World* const w = new World; return *w; }
inline Node& node(const struct stat& s) { return world().nodes[{(std::uint64_t)s.st_dev, (std::uint64_t)s.st_ino}]; }
inline Node& node(int fd)
{
  struct stat s;
  if (::fstat(fd, &s) != 0) { std::perror("fstat"); std::abort(); }
  return node(s);
}
inline int convert(int r, const struct stat& s, struct bsd_stat* out)
{
  if (r != 0) return r;
  std::memset(out, 0, sizeof(*out));
  out->st_dev = s.st_dev;
  out->st_ino = s.st_ino;
  out->st_mode = s.st_mode;
  out->st_nlink = s.st_nlink;
  out->st_uid = s.st_uid;
  out->st_gid = s.st_gid;
  out->st_rdev = s.st_rdev;
  out->st_size = s.st_size;
  out->st_blocks = s.st_blocks;
  out->st_blksize = s.st_blksize;
#if defined(VERIF_MACOS)
  out->st_atimespec = s.st_atim;
  out->st_mtimespec = s.st_mtim;
  out->st_ctimespec = s.st_ctim;
  out->st_birthtimespec = node(s).birth;
#else
  out->st_atim = s.st_atim;
  out->st_mtim = s.st_mtim;
  out->st_ctim = s.st_ctim;
  out->st_birthtim = node(s).birth;
#endif
  out->st_flags = node(s).flags;
  return 0;
}

} // namespace bsd

inline int bsd_fstat(int fd, struct bsd_stat* out)
{
  if (bsd::world().fails()) return -1;
  struct stat s;
  return bsd::convert(::fstat(fd, &s), s, out);
}
inline int bsd_stat(const char* path, struct bsd_stat* out)
{
  if (bsd::world().fails()) return -1;
  struct stat s;
  return bsd::convert(::stat(path, &s), s, out);
}
inline int bsd_lstat(const char* path, struct bsd_stat* out)
{
  if (bsd::world().fails()) return -1;
  struct stat s;
  return bsd::convert(::lstat(path, &s), s, out);
}
inline int fchflags(int fd, unsigned long flags)
{
  if (bsd::world().fails()) return -1;
  struct stat s;
  if (::fstat(fd, &s) != 0) return -1;
  bsd::node(s).flags = (std::uint32_t)flags;
  return 0;
}
inline int chflags(const char* path, unsigned long flags)
{
  if (bsd::world().fails()) return -1;
  struct stat s;
  if (::stat(path, &s) != 0) return -1;
  bsd::node(s).flags = (std::uint32_t)flags;
  return 0;
}
#define stat bsd_stat
#define fstat bsd_fstat
#define lstat bsd_lstat

#define UF_SETTABLE 0x0000ffff
#define UF_NODUMP 0x00000001
#define UF_IMMUTABLE 0x00000002
#define UF_APPEND 0x00000004
#define UF_OPAQUE 0x00000008
#define SF_SETTABLE 0xffff0000
#define SF_ARCHIVED 0x00010000
#define SF_IMMUTABLE 0x00020000
#define SF_APPEND 0x00040000
#define UF_HIDDEN 0x00008000
#undef __linux__
#undef linux
#undef _POSIX_SOURCE
#if defined(VERIF_MACOS)
# define UF_COMPRESSED 0x00000020
# define UF_TRACKED 0x00000040
# define SF_RESTRICTED 0x00080000
# define __APPLE__ 1
# define __MACH__ 1
#else
# define UF_NOUNLINK 0x00000010
# define UF_SYSTEM 0x00000080
# define UF_SPARSE 0x00000100
# define UF_OFFLINE 0x00000200
# define UF_REPARSE 0x00000400
# define UF_ARCHIVE 0x00000800
# define UF_READONLY 0x00001000
# define SF_NOUNLINK 0x00100000
# define SF_SNAPSHOT 0x00200000
# define __FreeBSD__ 13
#endif
#endif
