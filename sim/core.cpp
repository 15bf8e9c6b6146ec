#include "core.hpp"

#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>

namespace sim {

void
Choices::sink(uint64_t v)
{
  ssize_t r = ::write(sink_, &v, sizeof(v));
  (void) r;
}

std::vector<uint64_t> counters;
std::vector<std::string> counter_names;

int
counter_id(const char *name)
{
  for (size_t i = 0; i < counter_names.size(); i++) {
    if (counter_names[i] == name) {
      return static_cast<int>(i);
    }
  }
  counter_names.emplace_back(name);
  counters.push_back(0);
  return static_cast<int>(counters.size() - 1);
}

void
Ctx::note(const char *format, ...)
{
  if (!verbose) {
    return;
  }
  char line[1024];
  va_list args;
  va_start(args, format);
  vsnprintf(line, sizeof(line), format, args);
  va_end(args);
  log.emplace_back(std::string("    ") + line);
}

void
fail(const char *cls, const char *format, ...)
{
  char line[2048];
  va_list args;
  va_start(args, format);
  vsnprintf(line, sizeof(line), format, args);
  va_end(args);
  throw Violation{ cls, line };
}

Alloc alloc;

// Open-addressing table of live code-under-test blocks.  Uses malloc directly
// so that it never re-enters operator new.
namespace {

struct Entry {
  void *ptr;
  size_t size;
};

constexpr uintptr_t TOMB = 1;

Entry *table = nullptr;
size_t table_size = 0;
size_t table_used = 0; // live + tombs

size_t
slot_of(void *p, size_t mask)
{
  uint64_t h = reinterpret_cast<uintptr_t>(p) * 0x9e3779b97f4a7c15ULL;
  return (h >> 20) & mask;
}

void
table_insert_raw(Entry *t, size_t size, Entry e)
{
  size_t mask = size - 1;
  size_t i = slot_of(e.ptr, mask);
  while (t[i].ptr != nullptr) {
    i = (i + 1) & mask;
  }
  t[i] = e;
}

void
table_grow()
{
  size_t live = alloc.live;
  size_t size = 1024;
  while (size < live * 4) {
    size *= 2;
  }
  Entry *fresh = static_cast<Entry *>(calloc(size, sizeof(Entry)));
  for (size_t i = 0; i < table_size; i++) {
    if (reinterpret_cast<uintptr_t>(table[i].ptr) > TOMB) {
      table_insert_raw(fresh, size, table[i]);
    }
  }
  free(table);
  table = fresh;
  table_size = size;
  table_used = live;
}

void
ledger_add(void *p, size_t size)
{
  if (table_size == 0 || table_used * 2 >= table_size) {
    table_grow();
  }
  table_insert_raw(table, table_size, Entry{ p, size });
  table_used++;
  alloc.live++;
  alloc.live_bytes += size;
  alloc.made++;
  if (alloc.live_bytes > alloc.peak) {
    alloc.peak = alloc.live_bytes;
  }
}

void
ledger_remove(void *p)
{
  if (alloc.live == 0) {
    return;
  }
  size_t mask = table_size - 1;
  size_t i = slot_of(p, mask);
  while (table[i].ptr != nullptr) {
    if (table[i].ptr == p) {
      table[i].ptr = reinterpret_cast<void *>(TOMB);
      alloc.live--;
      alloc.live_bytes -= table[i].size;
      return;
    }
    i = (i + 1) & mask;
  }
}

// A run that needs more than this is broken (runs allocate a few MB at most).
constexpr uint64_t LIVE_LIMIT = 1ULL << 30;

void *
allocate(size_t size)
{
  if (alloc.in_lib) {
    if (alloc.armed) {
      if (alloc.countdown == 0) {
        alloc.armed = false;
        alloc.fired = true;
        throw std::bad_alloc();
      }
      alloc.countdown--;
    }
    if (size > LIVE_LIMIT || alloc.live_bytes + size > LIVE_LIMIT) {
      fprintf(stderr, "SIM-CRASH memory-explosion: allocation of %zu\n", size);
      fflush(stderr);
      abort();
    }
  }
  void *p = malloc(size == 0 ? 1 : size);
  if (p == nullptr) {
    abort();
  }
  if (alloc.in_lib) {
    ledger_add(p, size);
  }
  return p;
}

void
deallocate(void *p)
{
  if (p != nullptr) {
    ledger_remove(p);
    free(p);
  }
}

}

void
alloc_reset()
{
  if (table != nullptr) {
    memset(table, 0, table_size * sizeof(Entry));
  }
  table_used = 0;
  alloc = Alloc();
}

void *
sim_allocate(size_t size)
{
  return allocate(size);
}

void
sim_deallocate(void *p)
{
  deallocate(p);
}

}

void *
operator new(size_t size)
{
  return sim::sim_allocate(size);
}
void *
operator new[](size_t size)
{
  return sim::sim_allocate(size);
}
void *
operator new(size_t size, const std::nothrow_t &) noexcept
{
  try {
    return sim::sim_allocate(size);
  } catch (const std::bad_alloc &) {
    return nullptr;
  }
}
void *
operator new[](size_t size, const std::nothrow_t &) noexcept
{
  try {
    return sim::sim_allocate(size);
  } catch (const std::bad_alloc &) {
    return nullptr;
  }
}
void
operator delete(void *p) noexcept
{
  sim::sim_deallocate(p);
}
void
operator delete[](void *p) noexcept
{
  sim::sim_deallocate(p);
}
void
operator delete(void *p, size_t) noexcept
{
  sim::sim_deallocate(p);
}
void
operator delete[](void *p, size_t) noexcept
{
  sim::sim_deallocate(p);
}
void
operator delete(void *p, const std::nothrow_t &) noexcept
{
  sim::sim_deallocate(p);
}
void
operator delete[](void *p, const std::nothrow_t &) noexcept
{
  sim::sim_deallocate(p);
}
