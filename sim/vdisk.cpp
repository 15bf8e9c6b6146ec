#include "vdisk.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
namespace vdisk {

Shared *shared = nullptr;
bool active = false;

namespace {

constexpr int BASE = 100000;
constexpr size_t FDS = 16;

struct Open {
  bool used;
  bool writable;
  bool readable;
  bool append;
  int number; // among the files opened for writing
  File *file;
  size_t offset;
  FILE *stream;
};

Open fds[FDS];
size_t opened_for_writing = 0;

void
trace(uint64_t tag, uint64_t a, uint64_t b)
{
  for (uint64_t v : { tag, a, b }) {
    shared->hash ^= v;
    shared->hash *= 0x100000001b3ULL;
    shared->hash ^= shared->hash >> 29;
  }
}

Open *
get(int fd)
{
  if (fd < BASE || fd >= BASE + static_cast<int>(FDS) || !fds[fd - BASE].used) {
    return nullptr;
  }
  return &fds[fd - BASE];
}

int
open_file(const char *path, int flags)
{
  shared->opens++;
  trace(1, shared->opens, static_cast<uint64_t>(flags));
  if (shared->open_fail == shared->opens) {
    shared->fired_open++;
    errno = shared->open_errno;
    return -1;
  }
  File *file = find(path);
  if (file == nullptr) {
    if ((flags & O_CREAT) == 0) {
      errno = ENOENT;
      return -1;
    }
    file = create(path);
    if (file == nullptr) {
      errno = ENOSPC;
      return -1;
    }
  } else if ((flags & O_EXCL) != 0) {
    errno = EEXIST;
    return -1;
  }
  int mode = flags & O_ACCMODE;
  if ((flags & O_TRUNC) != 0 && mode != O_RDONLY) {
    file->size = 0;
  }
  for (size_t i = 0; i < FDS; i++) {
    if (!fds[i].used) {
      fds[i] = Open();
      fds[i].used = true;
      fds[i].readable = mode != O_WRONLY;
      fds[i].writable = mode != O_RDONLY;
      fds[i].append = (flags & O_APPEND) != 0;
      fds[i].file = file;
      if (fds[i].writable) {
        fds[i].number = static_cast<int>(++opened_for_writing);
      }
      return BASE + static_cast<int>(i);
    }
  }
  errno = EMFILE;
  return -1;
}

ssize_t
do_read(Open *o, void *data, size_t size)
{
  size_t n = shared->reads++;
  uint8_t f = n < PLAN ? shared->read_plan[n] : static_cast<uint8_t>(NONE);
  trace(2, n, size);
  if (!o->readable) {
    errno = EBADF;
    return -1;
  }
  if (f == EINTR_) {
    shared->fired_eintr++;
    errno = EINTR;
    return -1;
  }
  if (f == HARD) {
    shared->fired_read++;
    errno = EIO;
    return -1;
  }
  size_t left = o->offset < o->file->size ? o->file->size - o->offset : 0;
  size_t take = size < left ? size : left;
  if (f == SHORT && take > 1) {
    shared->fired_short++;
    take = 1 + shared->size_plan[n] % take;
  }
  memcpy(data, o->file->data + o->offset, take);
  o->offset += take;
  trace(2, n, take);
  return static_cast<ssize_t>(take);
}

ssize_t
do_write(Open *o, const void *data, size_t size)
{
  size_t n = shared->writes++;
  uint8_t f = n < PLAN ? shared->write_plan[n] : static_cast<uint8_t>(NONE);
  trace(3, n, size);
  if (!o->writable) {
    errno = EBADF;
    return -1;
  }
  if (f == EINTR_) {
    shared->fired_eintr++;
    errno = EINTR;
    return -1;
  }
  if (f == HARD) {
    shared->fired_write++;
    errno = EIO;
    return -1;
  }
  size_t take = size;
  if (f == SHORT && take > 1) {
    shared->fired_short++;
    take = 1 + shared->size_plan[n] % take;
  }
  if (take > shared->disk_left) {
    take = shared->disk_left;
    shared->fired_full++;
    if (take == 0) {
      errno = ENOSPC;
      return -1;
    }
  }
  if (o->append) {
    o->offset = o->file->size;
  }
  if (o->offset + take > CAPACITY) {
    errno = EFBIG;
    return -1;
  }
  if (o->offset > o->file->size) {
    memset(o->file->data + o->file->size, 0, o->offset - o->file->size);
  }
  memcpy(o->file->data + o->offset, data, take);
  o->offset += take;
  shared->disk_left -= take;
  if (o->offset > o->file->size) {
    o->file->size = o->offset;
  }
  trace(3, n, take);
  return static_cast<ssize_t>(take);
}

off_t
do_seek(Open *o, off_t offset, int whence)
{
  shared->seeks++;
  trace(4, shared->seeks, static_cast<uint64_t>(offset) * 4 + static_cast<uint64_t>(whence));
  if (shared->seek_fail != 0 && shared->seeks >= shared->seek_fail) {
    shared->fired_seek++;
    errno = ESPIPE;
    return -1;
  }
  off_t base = whence == SEEK_SET ? 0
                                  : whence == SEEK_CUR ? static_cast<off_t>(o->offset)
                                                       : static_cast<off_t>(o->file->size);
  if (base + offset < 0) {
    errno = EINVAL;
    return -1;
  }
  o->offset = static_cast<size_t>(base + offset);
  return static_cast<off_t>(o->offset);
}

int
do_close(Open *o)
{
  shared->closes++;
  trace(5, shared->closes, o->writable);
  bool fail = o->writable && o->number == shared->close_fail;
  if (fail) {
    // What had not reached the disk is lost: the last part of the file.
    shared->fired_close++;
    o->file->size -= o->file->size / 2 + (o->file->size & 1U);
  }
  o->used = false;
  if (fail) {
    errno = EIO;
    return -1;
  }
  return 0;
}

void
do_stat(File *file, struct stat *st)
{
  memset(st, 0, sizeof(*st));
  st->st_mode = S_IFREG | 0644;
  st->st_size = static_cast<off_t>(file->size);
  st->st_nlink = 1;
  st->st_blksize = 4096;
}

// fopencookie, for a FILE that glibc itself reads or writes.
ssize_t
cookie_read(void *c, char *data, size_t size)
{
  return do_read(static_cast<Open *>(c), data, size);
}

ssize_t
cookie_write(void *c, const char *data, size_t size)
{
  ssize_t r = do_write(static_cast<Open *>(c), data, size);
  return r < 0 ? 0 : r;
}

int
cookie_seek(void *c, off64_t *offset, int whence)
{
  off_t r = do_seek(static_cast<Open *>(c), *offset, whence);
  if (r < 0) {
    return -1;
  }
  *offset = r;
  return 0;
}

int
cookie_close(void *c)
{
  return do_close(static_cast<Open *>(c));
}

FILE *
open_stream(int fd, const char *mode)
{
  Open *o = get(fd);
  cookie_io_functions_t io = { cookie_read, cookie_write, cookie_seek, cookie_close };
  o->stream = fopencookie(o, mode, io);
  return o->stream;
}

int
mode_flags(const char *mode)
{
  bool plus = strchr(mode, '+') != nullptr;
  switch (mode[0]) {
    case 'r':
      return plus ? O_RDWR : O_RDONLY;
    case 'w':
      return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    default:
      return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  }
}

template<typename F>
F
real(const char *name)
{
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

}

File *
find(const char *name)
{
  for (File &f : shared->files) {
    if (f.exists && strcmp(f.name, name) == 0) {
      return &f;
    }
  }
  return nullptr;
}

File *
create(const char *name)
{
  if (strlen(name) >= sizeof(File::name)) {
    return nullptr;
  }
  for (File &f : shared->files) {
    if (!f.exists) {
      f.exists = true;
      f.size = 0;
      strcpy(f.name, name);
      return &f;
    }
  }
  return nullptr;
}

}
}

using namespace sim::vdisk;

// ------------------------------------------------- the calls, as libc has them
#pragma GCC visibility push(default)

extern "C" {

FILE *
fopen(const char *path, const char *mode)
{
  if (!active) {
    return real<FILE *(*) (const char *, const char *)>("fopen")(path, mode);
  }
  int fd = open_file(path, mode_flags(mode));
  return fd < 0 ? nullptr : open_stream(fd, mode);
}

FILE *
fopen64(const char *path, const char *mode)
{
  return fopen(path, mode);
}

FILE *
fdopen(int fd, const char *mode)
{
  if (get(fd) == nullptr) {
    return real<FILE *(*) (int, const char *)>("fdopen")(fd, mode);
  }
  return open_stream(fd, mode);
}

int
fileno(FILE *stream)
{
  if (active) {
    for (size_t i = 0; i < FDS; i++) {
      if (fds[i].used && fds[i].stream == stream) {
        return BASE + static_cast<int>(i);
      }
    }
  }
  return real<int (*)(FILE *)>("fileno")(stream);
}

int
open(const char *path, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  int mode = (flags & (O_CREAT | __O_TMPFILE)) != 0 ? va_arg(ap, int) : 0;
  va_end(ap);
  if (active) {
    return open_file(path, flags);
  }
  return static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}

int
open64(const char *path, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  int mode = (flags & (O_CREAT | __O_TMPFILE)) != 0 ? va_arg(ap, int) : 0;
  va_end(ap);
  return open(path, flags, mode);
}

int
openat(int dir, const char *path, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  int mode = (flags & (O_CREAT | __O_TMPFILE)) != 0 ? va_arg(ap, int) : 0;
  va_end(ap);
  if (active) {
    return open_file(path, flags);
  }
  return static_cast<int>(syscall(SYS_openat, dir, path, flags, mode));
}

int
creat(const char *path, mode_t mode)
{
  return open(path, O_WRONLY | O_CREAT | O_TRUNC, mode);
}

int
close(int fd)
{
  Open *o = get(fd);
  if (o != nullptr) {
    return do_close(o);
  }
  return static_cast<int>(syscall(SYS_close, fd));
}

ssize_t
read(int fd, void *data, size_t size)
{
  Open *o = get(fd);
  if (o != nullptr) {
    return do_read(o, data, size);
  }
  return syscall(SYS_read, fd, data, size);
}

ssize_t
write(int fd, const void *data, size_t size)
{
  Open *o = get(fd);
  if (o != nullptr) {
    return do_write(o, data, size);
  }
  return syscall(SYS_write, fd, data, size);
}

ssize_t
writev(int fd, const struct iovec *iov, int count)
{
  Open *o = get(fd);
  if (o == nullptr) {
    return syscall(SYS_writev, fd, iov, count);
  }
  size_t total = 0;
  for (int i = 0; i < count; i++) {
    total += iov[i].iov_len;
  }
  char *all = new char[total + 1];
  size_t at = 0;
  for (int i = 0; i < count; i++) {
    memcpy(all + at, iov[i].iov_base, iov[i].iov_len);
    at += iov[i].iov_len;
  }
  ssize_t r = do_write(o, all, total);
  delete[] all;
  return r;
}

off_t
lseek(int fd, off_t offset, int whence) noexcept
{
  Open *o = get(fd);
  if (o != nullptr) {
    return do_seek(o, offset, whence);
  }
  return syscall(SYS_lseek, fd, offset, whence);
}

off64_t
lseek64(int fd, off64_t offset, int whence) noexcept
{
  return lseek(fd, offset, whence);
}

int
ioctl(int fd, unsigned long request, ...) noexcept
{
  va_list ap;
  va_start(ap, request);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (get(fd) != nullptr) {
    errno = ENOTTY;
    return -1;
  }
  return static_cast<int>(syscall(SYS_ioctl, fd, request, arg));
}

int
fstat(int fd, struct stat *st) noexcept
{
  Open *o = get(fd);
  if (o != nullptr) {
    do_stat(o->file, st);
    return 0;
  }
  return static_cast<int>(syscall(SYS_fstat, fd, st));
}

int
stat(const char *path, struct stat *st) noexcept
{
  if (active) {
    File *f = find(path);
    if (f == nullptr) {
      errno = ENOENT;
      return -1;
    }
    do_stat(f, st);
    return 0;
  }
  return static_cast<int>(syscall(SYS_stat, path, st));
}

int
unlink(const char *path) noexcept
{
  if (active) {
    File *f = find(path);
    if (f == nullptr) {
      errno = ENOENT;
      return -1;
    }
    f->exists = false;
    return 0;
  }
  return static_cast<int>(syscall(SYS_unlink, path));
}

int
remove(const char *path) noexcept
{
  if (active) {
    return unlink(path);
  }
  return real<int (*)(const char *)>("remove")(path);
}

int
rename(const char *from, const char *to) noexcept
{
  if (active) {
    File *f = find(from);
    if (f == nullptr) {
      errno = ENOENT;
      return -1;
    }
    File *t = find(to);
    if (t != nullptr && t != f) {
      t->exists = false;
    }
    strncpy(f->name, to, sizeof(f->name) - 1);
    return 0;
  }
  return static_cast<int>(syscall(SYS_rename, from, to));
}

int
fsync(int fd)
{
  if (get(fd) != nullptr) {
    return 0;
  }
  return static_cast<int>(syscall(SYS_fsync, fd));
}

int
ftruncate(int fd, off_t size) noexcept
{
  Open *o = get(fd);
  if (o != nullptr) {
    if (size < 0 || static_cast<size_t>(size) > CAPACITY) {
      errno = EINVAL;
      return -1;
    }
    if (static_cast<size_t>(size) > o->file->size) {
      memset(o->file->data + o->file->size, 0, static_cast<size_t>(size) - o->file->size);
    }
    o->file->size = static_cast<size_t>(size);
    return 0;
  }
  return static_cast<int>(syscall(SYS_ftruncate, fd, size));
}

int
poll(struct pollfd *p, nfds_t n, int timeout)
{
  if (n == 1 && get(p->fd) != nullptr) {
    p->revents = p->events;
    return 1;
  }
  return static_cast<int>(syscall(SYS_poll, p, n, timeout));
}

}

#pragma GCC visibility pop
