#include "tools.hpp"

#include "gen.hpp"
#include "ref.hpp"
#include "vdisk.hpp"

#include <cerrno>
#include <cstring>
#include <exception>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" int
tool_encode_main(int argc, char **argv);
extern "C" int
tool_decode_main(int argc, char **argv);

namespace sim {

namespace {

using lists_t = std::vector<std::vector<ref::Header>>;

class Tools {
public:
  Tools(Ctx &ctx, const ToolsProfile &profile)
    : ctx_(ctx)
    , p_(profile)
  {}

  void run()
  {
    if (vdisk::shared == nullptr) {
      void *m = mmap(nullptr,
                     sizeof(vdisk::Shared),
                     PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_ANONYMOUS,
                     -1,
                     0);
      if (m == MAP_FAILED) {
        fprintf(stderr, "mmap failed\n");
        _exit(2);
      }
      vdisk::shared = static_cast<vdisk::Shared *>(m);
    }
    reset();
    decode_ = ctx_.pick(2) != 0;
    invalid_ = ctx_.chance(p_.invalid);
    switch (ctx_.pick(40)) {
      case 1: // too few arguments
        run_tool(static_cast<int>(ctx_.range(1, 2)));
        SIM_CHECK(code_ != 0, "tool-success", "%s succeeded without its arguments", name());
        return;
      case 2: // no such input
        run_tool(3);
        SIM_CHECK(code_ != 0, "tool-success", "%s succeeded without an input file", name());
        return;
      default:
        break;
    }
    if (decode_) {
      run_decode();
    } else {
      run_encode();
    }
    ctx_.nontrivial = true;
    SIM_COUNT("probe.tool_run");
    if (code_ == 0) {
      SIM_COUNT("probe.tool_success");
    } else {
      SIM_COUNT("probe.tool_failure");
    }
  }

private:
  const char *name() const { return decode_ ? "qpack-interop-decode" : "qpack-interop-encode"; }

  void reset()
  {
    vdisk::Shared &s = *vdisk::shared;
    for (vdisk::File &f : s.files) {
      f.exists = false;
      f.size = 0;
    }
    memset(static_cast<void *>(&s), 0, offsetof(vdisk::Shared, files));
    s.disk_left = SIZE_MAX;
  }

  lists_t random_lists()
  {
    lists_t lists;
    size_t n = ctx_.pick(12) == 0 ? 0 : ctx_.range(1, ctx_.tier == 1 ? 12 : 6);
    bool big = ctx_.pick(4) == 3;
    bool huge = n != 0 && ctx_.pick(32) == 31;
    if (n != 0 && !huge && ctx_.pick(32) == 31) { // list numbers beyond a byte
      n = ctx_.range(200, 400);
      SIM_COUNT("probe.many_lists");
      for (size_t i = 0; i < n; i++) {
        lists.push_back({ ref::Header{ "n", std::string(1, static_cast<char>('a' + i % 26)) } });
      }
      return lists;
    }
    for (size_t i = 0; i < n; i++) {
      std::vector<ref::Header> list;
      size_t m = ctx_.range(1, 5);
      for (size_t j = 0; j < m; j++) {
        ref::Header h = random_header(ctx_, 1);
        if (huge && i == 0 && j == 0) { // a block beyond 16 bits
          SIM_COUNT("probe.huge_list");
          h.value = std::string(heavy_size(ctx_, 150000), static_cast<char>('!' + ctx_.pick(90)));
        }
        if (big && ctx_.pick(3) == 0) {
          h.value = random_bytes(ctx_, random_size(ctx_, 20000), 4);
        }
        list.push_back(h);
      }
      lists.push_back(list);
    }
    return lists;
  }

  static void clean(std::string &s, const char *without)
  {
    for (char &c : s) {
      if (c != 0 && strchr(without, c) != nullptr) {
        c = '_';
      }
    }
  }

  void put(const char *file, const std::string &data)
  {
    vdisk::File *f = vdisk::create(file);
    size_t n = std::min(data.size(), vdisk::CAPACITY);
    memcpy(f->data, data.data(), n);
    f->size = n;
  }

  // ------------------------------------------------------------- encode ---
  void run_encode()
  {
    lists_t lists = random_lists();
    std::string in;
    size_t spoil = SIZE_MAX; // list with an invalid line
    if (invalid_ && !lists.empty()) {
      spoil = ctx_.pick(lists.size());
    } else {
      invalid_ = false;
    }
    auto comment = [&] {
      if (ctx_.pick(8) == 7) {
        std::string c = random_bytes(ctx_, ctx_.pick(30), 1);
        in += "#" + c + (ctx_.pick(2) != 0 ? "\tx" : "") + "\n";
      }
    };
    for (size_t i = 0; i < lists.size(); i++) {
      size_t bad = i == spoil ? ctx_.pick(lists[i].size()) : SIZE_MAX;
      for (size_t j = 0; j < lists[i].size(); j++) {
        ref::Header &h = lists[i][j];
        clean(h.name, "\t\n");
        clean(h.value, "\n");
        if (!h.name.empty() && h.name[0] == '#') {
          h.name[0] = 'n';
        }
        comment();
        if (j == bad) {
          SIM_COUNT("fault.invalid_input");
          if (ctx_.pick(2) != 0) {
            in += "no tab here\n";
          } else {
            std::string n = "x" + random_bytes(ctx_, ctx_.pick(5), 0);
            n.insert(ctx_.pick(n.size() + 1), 1, static_cast<char>('A' + ctx_.pick(26)));
            in += n + "\tv\n";
          }
        }
        in += h.name + "\t" + h.value + "\n";
      }
      comment();
      in += "\n";
      while (ctx_.pick(6) == 5) {
        in += "\n";
      }
    }
    if (!lists.empty()) {
      switch (ctx_.pick(3)) { // how the file ends
        case 1:
          while (in.size() > 1 && in[in.size() - 1] == '\n' && in[in.size() - 2] == '\n') {
            in.pop_back();
          }
          break;
        case 2:
          while (in.size() > 1 && in.back() == '\n') {
            in.pop_back();
          }
          // an empty value would end in the tab that is needed
          break;
        default:
          break;
      }
    }
    if (in.size() > vdisk::CAPACITY / 2) {
      return;
    }
    put("in", in);
    run_tool(3);
    if (code_ == 0) {
      SIM_CHECK(!invalid_, "tool-success", "qpack-interop-encode succeeded on invalid input");
      std::string e = compare_encoded(lists, false);
      SIM_CHECK(e.empty(), "tool-output", "qpack-interop-encode succeeded but %s", e.c_str());
    } else {
      SIM_CHECK(invalid_ || hard(), "tool-failure",
                "qpack-interop-encode failed on valid input without any I/O error");
      if (!write_fault()) {
        std::string e = compare_encoded(lists, true);
        SIM_CHECK(e.empty(), "tool-output", "qpack-interop-encode left output in which %s",
                  e.c_str());
      }
    }
  }

  std::string compare_encoded(const lists_t &lists, bool partial)
  {
    vdisk::File *f = vdisk::find("out");
    if (f == nullptr) {
      return partial ? "" : "there is no output";
    }
    std::string out(reinterpret_cast<char *>(f->data), f->size);
    size_t pos = 0;
    size_t k = 0;
    char text[160];
    while (pos < out.size()) {
      if (out.size() - pos < 12) {
        return partial ? "" : "the output ends inside a list header";
      }
      uint64_t id = big_endian(out, pos, 8);
      uint64_t size = big_endian(out, pos + 8, 4);
      pos += 12;
      if (k >= lists.size()) {
        return "there are more lists than in the input";
      }
      if (id != k + 1) {
        snprintf(text, sizeof(text), "list %zu has id %llu", k + 1,
                 static_cast<unsigned long long>(id));
        return text;
      }
      if (out.size() - pos < size) {
        return partial ? "" : "the output ends inside a list";
      }
      std::vector<ref::Header> got;
      std::string e = ref::block_parse(out.substr(pos, size), got);
      if (!e.empty()) {
        return "a list does not decode: " + e;
      }
      if (got != lists[k]) {
        snprintf(text, sizeof(text), "list %zu decodes to other fields", k + 1);
        return text;
      }
      pos += size;
      k++;
    }
    if (k != lists.size() && !partial) {
      snprintf(text, sizeof(text), "%zu of %zu lists are there", k, lists.size());
      return text;
    }
    return "";
  }

  static uint64_t big_endian(const std::string &s, size_t pos, size_t n)
  {
    uint64_t v = 0;
    for (size_t i = 0; i < n; i++) {
      v = v << 8U | static_cast<uint8_t>(s[pos + i]);
    }
    return v;
  }

  static std::string big_endian_bytes(uint64_t v, size_t n)
  {
    std::string s;
    for (size_t i = n; i > 0; i--) {
      s.push_back(static_cast<char>(v >> (8 * (i - 1))));
    }
    return s;
  }

  // ------------------------------------------------------------- decode ---
  void run_decode()
  {
    lists_t lists = random_lists();
    std::string in;
    size_t spoil = SIZE_MAX;
    if (invalid_ && !lists.empty()) {
      SIM_COUNT("fault.invalid_input");
      spoil = ctx_.pick(lists.size());
    }
    for (size_t i = 0; i < lists.size(); i++) {
      std::string block = section_prefix(ctx_);
      for (const ref::Header &h : lists[i]) {
        block += ref::field(h, random_field_options(ctx_));
      }
      uint64_t size = block.size();
      if (i == spoil) {
        switch (ctx_.pick(5)) {
          case 4:
            block = dynamic_prefix(ctx_) + block.substr(2);
            size = block.size();
            break;
          case 0:
            block[2 + ctx_.pick(block.size() - 2)] ^= static_cast<char>(1U << ctx_.pick(8));
            break;
          case 1: // the size says less
            size = ctx_.pick(size);
            break;
          case 2: // ... or more
            size += ctx_.pick(3) == 0 ? (1ULL << 31) : ctx_.range(1, 40);
            break;
          case 3:
            block += std::string(1, static_cast<char>(ctx_.range(0x80, 0xbf)));
            size++;
            break;
        }
      }
      in += big_endian_bytes(ctx_.pick(3) == 0 ? ctx_.pick(1ULL << 62) : i + 1, 8);
      in += big_endian_bytes(size, 4) + block;
    }
    if (invalid_ && ctx_.pick(2) != 0 && !in.empty()) { // cut off
      SIM_COUNT("fault.truncated_file");
      in.resize(ctx_.pick(in.size()));
    }
    if (in.size() > vdisk::CAPACITY / 2) {
      return;
    }
    // What the whole file means.
    std::string expect;
    bool valid = true;
    bool unspecified = false;
    size_t pos = 0;
    while (pos < in.size() && valid) {
      if (in.size() - pos < 12) {
        valid = false;
        break;
      }
      uint64_t size = big_endian(in, pos + 8, 4);
      pos += 12;
      if (in.size() - pos < size) {
        valid = false;
        break;
      }
      std::vector<ref::Header> got;
      std::string block = in.substr(pos, size);
      if (size == 0) {
        unspecified = true; // not even a field section prefix
        break;
      }
      uint64_t base = 0;
      size_t at = 1;
      bool prefixed = ref::prefix_int_parse(block, at, 7, base) == 0;
      if ((block.size() > 1 && (static_cast<uint8_t>(block[1]) & 0x80U) != 0) ||
          (block[0] == 0 && prefixed && (at == block.size() || at > 11))) {
        unspecified = true; // a base below zero, or no field at all
        break;
      }
      valid = ref::block_parse(block, got).empty();
      for (const ref::Header &h : got) {
        for (char c : h.name) {
          valid = valid && !(c >= 'A' && c <= 'Z');
        }
      }
      if (valid) {
        for (const ref::Header &h : got) {
          expect += h.name + "\t" + h.value + "\n";
        }
        expect += "\n";
      }
      pos += size;
    }
    put("in", in);
    run_tool(3);
    vdisk::File *f = vdisk::find("out");
    std::string out = f == nullptr ? std::string()
                                   : std::string(reinterpret_cast<char *>(f->data), f->size);
    if (code_ == 0) {
      if (unspecified) {
        SIM_CHECK(out.compare(0, expect.size(), expect) == 0, "tool-output",
                  "qpack-interop-decode succeeded but its output does not start with the "
                  "lists before the odd one");
        return;
      }
      SIM_CHECK(valid, "tool-success", "qpack-interop-decode succeeded on invalid input");
      SIM_CHECK(f != nullptr, "tool-output", "qpack-interop-decode left no output");
      SIM_CHECK(out == expect, "tool-output",
                "qpack-interop-decode succeeded but its output (%zu bytes) differs from what "
                "its input says (%zu bytes)",
                out.size(), expect.size());
    } else {
      SIM_CHECK(!valid || unspecified || hard(), "tool-failure",
                "qpack-interop-decode failed on valid input without any I/O error");
      if (!write_fault() && !unspecified) {
        SIM_CHECK(out.size() <= expect.size() && expect.compare(0, out.size(), out) == 0,
                  "tool-output",
                  "qpack-interop-decode failed and left output that its input does not say");
      }
    }
  }

  // ---------------------------------------------------------------- run ---
  bool hard() const
  {
    vdisk::Shared &s = *vdisk::shared;
    return s.fired_read + s.fired_write + s.fired_full + s.fired_open + s.fired_close +
             s.fired_seek !=
           0;
  }

  bool write_fault() const
  {
    vdisk::Shared &s = *vdisk::shared;
    return s.fired_write + s.fired_full + s.fired_close != 0;
  }

  void plan()
  {
    vdisk::Shared &s = *vdisk::shared;
    if (ctx_.pick(3) != 0) {
      for (size_t i = 0; i < vdisk::PLAN; i++) {
        auto soft = [&]() -> uint8_t {
          return ctx_.chance(p_.soft) ? static_cast<uint8_t>(ctx_.range(1, 2)) : 0;
        };
        s.read_plan[i] = soft();
        s.write_plan[i] = soft();
        s.size_plan[i] = (s.read_plan[i] == vdisk::SHORT || s.write_plan[i] == vdisk::SHORT)
                           ? static_cast<uint8_t>(ctx_.pick(256))
                           : 0;
      }
    }
    if (ctx_.chance(p_.hard)) {
      switch (ctx_.pick(6)) {
        case 0:
          s.read_plan[ctx_.pick(4)] = vdisk::HARD;
          break;
        case 1: {
          size_t from = ctx_.pick(4);
          bool sticky = ctx_.pick(2) != 0;
          for (size_t i = from; i < (sticky ? vdisk::PLAN : from + 1); i++) {
            s.write_plan[i] = vdisk::HARD;
          }
          break;
        }
        case 2:
          s.disk_left = random_size(ctx_, 20000);
          break;
        case 3: {
          static const uint8_t errors[] = { ENOENT, EACCES, EMFILE, ENOSPC };
          s.open_fail = static_cast<uint8_t>(ctx_.range(1, 2));
          s.open_errno = errors[ctx_.pick(4)];
          break;
        }
        case 4:
          s.close_fail = 1;
          break;
        case 5:
          s.seek_fail = static_cast<uint8_t>(ctx_.range(1, 3));
          break;
      }
    }
  }

  void run_tool(int argc)
  {
    plan();
    vdisk::Shared &s = *vdisk::shared;
    bool decode = decode_;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
      perror("fork");
      _exit(2);
    }
    if (pid == 0) {
      itimerval t{};
      t.it_value.tv_sec = 20;
      setitimer(ITIMER_PROF, &t, nullptr);
      static char a0[] = "tool", a1[] = "in", a2[] = "out";
      char *argv[] = { a0, a1, a2, nullptr };
      argv[argc] = nullptr;
      vdisk::active = true;
      try {
        int code = decode ? tool_decode_main(argc, argv) : tool_encode_main(argc, argv);
        s.code = code;
        s.returned = true;
      } catch (const std::exception &e) {
        snprintf(s.what, sizeof(s.what), "%s", e.what());
        s.threw = true;
      } catch (...) {
        snprintf(s.what, sizeof(s.what), "unknown");
        s.threw = true;
      }
      if (s.returned) {
        fflush(nullptr); // as exit() would
      }
      vdisk::active = false;
      _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
    }
    SIM_CHECK(!s.threw, "tool-crash", "%s ended by an exception: %s", name(), s.what);
    if (s.returned) {
      code_ = s.code & 0xff;
    } else {
      // 77 is the sanitizers' exit code.
      SIM_CHECK(WIFEXITED(status) && WEXITSTATUS(status) != 77, "tool-crash",
                "%s ended abnormally: %s %d", name(),
                WIFSIGNALED(status) ? "signal" : "sanitizer report",
                WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status));
      code_ = WEXITSTATUS(status);
    }
    ctx_.steps += s.reads + s.writes + s.opens + s.closes + s.seeks;
    ctx_.mix(s.hash);
    ctx_.mix_schedule(s.hash);
    ctx_.ev(decode ? "tool.decode" : "tool.encode", static_cast<uint64_t>(code_), s.reads,
            s.writes);
    SIM_COUNT_N("fault.short_io", s.fired_short);
    SIM_COUNT_N("fault.eintr", s.fired_eintr);
    SIM_COUNT_N("fault.read_error", s.fired_read);
    SIM_COUNT_N("fault.write_error", s.fired_write);
    SIM_COUNT_N("fault.disk_full", s.fired_full);
    SIM_COUNT_N("fault.open_error", s.fired_open);
    SIM_COUNT_N("fault.close_error", s.fired_close);
    SIM_COUNT_N("fault.seek_error", s.fired_seek);
  }

  Ctx &ctx_;
  const ToolsProfile &p_;
  bool decode_ = false;
  bool invalid_ = false;
  int code_ = 0;
};

}

void
run_tools(Ctx &ctx, const ToolsProfile &profile)
{
  Tools(ctx, profile).run();
}

}
