// A small virtual file system behind libc's file calls.  While it is active
// (only in the child process that runs one of the interop programs) every path
// resolves here and never on the real disk; faults come from a plan drawn
// beforehand by the choice source.
#pragma once

#include <cstddef>
#include <cstdint>
#include <string>

namespace sim {
namespace vdisk {

enum fault : uint8_t {
  NONE = 0,
  SHORT,  // fewer bytes than asked for
  EINTR_, // interrupted before anything happened
  HARD,   // EIO / ENOSPC
};

constexpr size_t FILES = 4;
constexpr size_t CAPACITY = 1U << 19;
constexpr size_t PLAN = 96;

struct File {
  bool exists;
  char name[128];
  size_t size;
  uint8_t data[CAPACITY];
};

struct Shared {
  // plan
  uint8_t read_plan[PLAN];
  uint8_t write_plan[PLAN];
  uint8_t size_plan[PLAN]; // how short is short
  uint8_t open_fail;       // 1 based call that fails, 0 none
  uint8_t close_fail;      // fail closing the nth file opened for writing
  uint8_t seek_fail;       // seeking fails from the nth call on
  uint8_t open_errno;
  size_t disk_left;        // bytes that may still be written
  // what happened
  size_t reads, writes, opens, closes, seeks;
  size_t fired_short, fired_eintr, fired_read, fired_write, fired_full;
  size_t fired_open, fired_close, fired_seek;
  uint64_t hash;           // over every call, its arguments and result
  bool returned;
  int code;
  bool threw;
  char what[160];
  File files[FILES];
};

extern Shared *shared; // set while active
extern bool active;

File *
find(const char *name);
File *
create(const char *name);

}
}
