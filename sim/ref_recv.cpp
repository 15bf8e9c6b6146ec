#include "ref_recv.hpp"

namespace ref {

namespace {

// Parse the fixed fields of a frame payload starting at `pos`, wherever the
// declared size says it ends.  1: incomplete, 0: done.
int
fields(uint64_t type, uint64_t size, const bytes &in, size_t &pos)
{
  uint64_t v = 0;
  switch (type) {
    case PRIORITY:
      if (pos >= in.size()) {
        return 1;
      }
      pos++;
      if (!varint_parse(in, pos, v) || !varint_parse(in, pos, v) ||
          pos >= in.size()) {
        return 1;
      }
      pos++;
      return 0;
    case SETTINGS: {
      size_t begin = pos;
      while (pos - begin < size) {
        if (!varint_parse(in, pos, v) || !varint_parse(in, pos, v)) {
          return 1;
        }
      }
      return 0;
    }
    case CANCEL_PUSH:
    case PUSH_PROMISE:
    case GOAWAY:
    case MAX_PUSH_ID:
    case DUPLICATE_PUSH:
      return varint_parse(in, pos, v) ? 0 : 1;
    default:
      return 0;
  }
}

// 0: parsed (or judged): 1: frame payload incomplete.
bool
size_matches(uint64_t type, uint64_t size, size_t used)
{
  if (type == PUSH_PROMISE) {
    return used <= size;
  }
  return used == size;
}

}

void
Receiver::doom(const char *reason, std::set<std::string> c)
{
  if (state == verdict::fine) {
    state = verdict::doomed;
    why = reason;
    codes = std::move(c);
  } else if (state == verdict::doomed && !codes.empty()) {
    if (c.empty()) {
      codes.clear();
    } else {
      codes.insert(c.begin(), c.end());
    }
  }
}

void
Receiver::fail(const char *reason, std::set<std::string> c)
{
  if (state == verdict::bad) {
    return;
  }
  state = verdict::bad;
  why = reason;
  codes = std::move(c);
}

const char *
Receiver::forbidden_code(uint64_t type) const
{
  switch (type) {
    case SETTINGS:
    case MAX_PUSH_ID:
    case CANCEL_PUSH:
    case GOAWAY:
      return "wrong_stream";
    case PUSH_PROMISE:
    case DUPLICATE_PUSH:
      return server_ ? "unexpected_frame" : "not_implemented";
    case PRIORITY:
      return server_ && in_headers_ ? "not_implemented" : "unexpected_frame";
    default:
      return "unexpected_frame";
  }
}

void
Receiver::feed(const bytes &in)
{
  buf_ += in;
  run();
}

void
Receiver::run()
{
  while (state != verdict::bad && !unspecified && step()) {
  }
}

bool
Receiver::forbidden(uint64_t type, uint64_t size, size_t at, const char *code)
{
  size_t pos = at;
  doom("forbidden frame", { code, "malformed_frame" });
  if (fields(type, size, buf_, pos) != 0) {
    if (buf_.size() - at >= size) {
      fail("mis-sized frame", { code, "malformed_frame" });
    }
    return false;
  }
  if (size_matches(type, size, pos - at)) {
    fail("forbidden frame", { code });
  } else {
    fail("mis-sized frame", { code, "malformed_frame" });
  }
  return false;
}

bool
Receiver::step()
{
  switch (stage_) {
    case stage::head: {
      size_t pos = 0;
      uint64_t type = 0;
      uint64_t size = 0;
      if (!varint_parse(buf_, pos, type)) {
        return false;
      }
      bool expected = !known_frame(type) || (type == HEADERS && !trailers_) ||
                      (type == DATA && !in_headers_ && !trailers_);
      const char *code = forbidden_code(type);
      if (!expected) {
        doom("forbidden frame", { code, "malformed_frame" });
      }
      if (!varint_parse(buf_, pos, size)) {
        return false;
      }
      if (!known_frame(type)) {
        buf_.erase(0, pos);
        left_ = size;
        stage_ = stage::skip;
        return true;
      }
      if (type == DATA && expected) {
        buf_.erase(0, pos);
        left_ = size;
        stage_ = left_ == 0 ? stage::head : stage::data;
        return true;
      }
      if (type == HEADERS && expected) {
        buf_.erase(0, pos);
        left_ = size;
        if (!in_headers_) {
          trailers_ = true;
          stage_ = stage::skip;
          return true;
        }
        in_headers_ = false;
        stage_ = stage::block;
        if (size == 0) {
          fail("empty HEADERS frame", { "malformed_frame" });
          return false;
        }
        if (size <= 2) {
          doom("HEADERS frame without a field line", {});
        }
        return true;
      }
      return forbidden(type, size, pos, code);
    }

    case stage::skip:
    case stage::data: {
      uint64_t n = buf_.size() < left_ ? buf_.size() : left_;
      if (stage_ == stage::data) {
        body += buf_.substr(0, static_cast<size_t>(n));
      }
      buf_.erase(0, static_cast<size_t>(n));
      left_ -= n;
      if (left_ != 0) {
        return false;
      }
      stage_ = stage::head;
      return true;
    }

    case stage::block:
      return line();
  }
  return false;
}

namespace {

enum class part { ok, incomplete, invalid, overlong };

// One string literal; `need` is where the line would have to end at least.
part
literal_at(const bytes &in, size_t &pos, unsigned prefix, bytes &out, uint64_t &need)
{
  if (pos >= in.size()) {
    need = pos + 1;
    return part::incomplete;
  }
  bool huff = ((static_cast<uint8_t>(in[pos]) >> prefix) & 1U) != 0;
  uint64_t size = 0;
  size_t before = pos;
  int r = prefix_int_parse(in, pos, prefix, size);
  if (r == 1) {
    need = in.size() + 1;
    return in.size() - before > 10 ? part::overlong : part::incomplete;
  }
  if (r == 2 || pos - before > 10) {
    return part::overlong;
  }
  need = size > UINT64_MAX - pos ? UINT64_MAX : pos + size;
  if (size > in.size() - pos) {
    return part::incomplete;
  }
  bytes raw = in.substr(pos, static_cast<size_t>(size));
  pos += static_cast<size_t>(size);
  if (!huff) {
    out = raw;
    return part::ok;
  }
  return huffman_parse(raw, out) ? part::ok : part::invalid;
}

}

bool
Receiver::line()
{
  static const char *const qpack = "qpack_decompression_failed";
  if (!prefix_) {
    if (buf_.empty()) {
      return false;
    }
    uint64_t value = 0;
    size_t pos = 0;
    if (buf_[0] != 0) {
      // A nonzero required insert count needs a dynamic table.
      doom("dynamic field section", { qpack, "malformed_frame" });
      int r = prefix_int_parse(buf_, pos, 8, value);
      if (r == 2 || pos > 10 || (r == 1 && buf_.size() > 10)) {
        unspecified = true;
      } else if (r == 0 && pos > left_) {
        fail("dynamic field section", { qpack, "malformed_frame" });
      } else if (r == 0) {
        fail("dynamic field section", { qpack });
      }
      return false;
    }
    pos = 1;
    if (left_ == 1) {
      fail("HEADERS frame without a field line", {}); // what follows may be read as one
      return false;
    }
    if (buf_.size() < 2) {
      return false;
    }
    if ((static_cast<uint8_t>(buf_[1]) & 0x80U) != 0) {
      unspecified = true; // a base below zero
      return false;
    }
    int r = prefix_int_parse(buf_, pos, 7, value);
    if (r == 2 || pos > 11 || (r == 1 && buf_.size() > 11)) {
      unspecified = true;
      return false;
    }
    if (left_ < pos || (r == 1 && left_ < buf_.size() + 1)) {
      unspecified = true; // doomed; how the next bytes are read is open
      return false;
    }
    if (r == 1) {
      return false;
    }
    buf_.erase(0, pos);
    left_ -= pos;
    prefix_ = true;
    if (left_ == 0) {
      fail("HEADERS frame without a field line", {}); // what follows may be read as one
      return false;
    }
    return true;
  }
  if (buf_.empty()) {
    return false;
  }
  uint8_t first = static_cast<uint8_t>(buf_[0]);
  size_t pos = 0;
  uint64_t need = 1;
  Header h;
  part p = part::ok;
  if ((first & 0xf0U) == 0 || ((first & 0xc0U) == 0x80U) ||
      ((first & 0xd0U) == 0x40U) || (first & 0xe0U) == 0) {
    fail("dynamic table reference", { qpack });
    return false;
  }
  if ((first & 0x80U) != 0 || (first & 0x40U) != 0) {
    bool indexed = (first & 0x80U) != 0;
    uint64_t index = 0;
    int r = prefix_int_parse(buf_, pos, indexed ? 6 : 4, index);
    if (r == 2 || pos > 10 || (r == 1 && buf_.size() > 10)) {
      doom("oversized integer", { qpack, "malformed_frame" });
      unspecified = true;
      return false;
    }
    if (r == 1) {
      if (buf_.size() > 3) {
        // Too long already for any static index unless zero-padded.
        unspecified = true;
      }
      need = buf_.size() + 1;
      p = part::incomplete;
    } else if (index >= static_size()) {
      fail("static index out of range", { qpack });
      return false;
    } else {
      h = static_entry(static_cast<size_t>(index));
      if (!indexed) {
        p = literal_at(buf_, pos, 7, h.value, need);
      }
    }
  } else {
    p = literal_at(buf_, pos, 3, h.name, need);
    if (p == part::ok) {
      bool upper = false;
      for (char c : h.name) {
        upper = upper || (c >= 'A' && c <= 'Z');
      }
      if (upper) {
        doom("uppercase header name", { "malformed_header", qpack, "malformed_frame" });
      }
      p = literal_at(buf_, pos, 7, h.value, need);
      if (p == part::ok && upper) {
        if (pos > left_) {
          fail("uppercase header name", { "malformed_header", "malformed_frame" });
        } else {
          fail("uppercase header name", { "malformed_header" });
        }
        return false;
      }
    }
  }
  switch (p) {
    case part::overlong:
      doom("oversized integer", {});
      unspecified = true;
      return false;
    case part::invalid:
      fail("invalid huffman", { qpack, "malformed_frame" });
      return false;
    case part::incomplete:
      if (need > left_ && buf_.size() >= left_) {
        // Nothing that arrives later can make it fit.
        std::set<std::string> any = { "malformed_frame", qpack };
        if (state == verdict::doomed) {
          any.insert(codes.begin(), codes.end()); // an uppercase name too
        }
        fail("field line overruns its frame", any);
      } else if (need > left_) {
        doom("field line overruns its frame", {});
      }
      return false;
    case part::ok:
      break;
  }
  if (pos > left_) {
    fail("field line overruns its frame", { "malformed_frame", qpack });
    return false;
  }
  headers.push_back(h);
  buf_.erase(0, pos);
  left_ -= pos;
  if (left_ == 0) {
    headers_done = true;
    stage_ = stage::head;
  }
  return true;
}

void
Receiver::fin()
{
  fin_seen = true;
  if (state == verdict::bad || unspecified) {
    return;
  }
  if (stage_ == stage::head && buf_.empty() && headers_done) {
    finished = true;
    return;
  }
  fail("ended inside the message", {});
}

// ----------------------------------------------------------------- control --
void
Control::doom(const char *reason, std::set<std::string> c)
{
  if (state == verdict::fine) {
    state = verdict::doomed;
    why = reason;
    codes = std::move(c);
  }
}

void
Control::fail(const char *reason, std::set<std::string> c)
{
  if (state != verdict::bad) {
    state = verdict::bad;
    why = reason;
    codes = std::move(c);
  }
}

void
Control::feed(const bytes &in)
{
  buf_ += in;
  while (state != verdict::bad && !unspecified && step()) {
  }
}

bool
Control::step()
{
  if (skip_ != 0) {
    uint64_t n = buf_.size() < skip_ ? buf_.size() : skip_;
    buf_.erase(0, static_cast<size_t>(n));
    skip_ -= n;
    return skip_ == 0;
  }
  size_t pos = 0;
  uint64_t type = 0;
  uint64_t size = 0;
  if (!varint_parse(buf_, pos, type)) {
    return false;
  }
  if (!typed_) {
    if (type != 0) {
      fail("not a control stream", {});
      return false;
    }
    typed_ = true;
    buf_.erase(0, pos);
    return true;
  }
  const char *code = nullptr;
  if (known_frame(type)) {
    if (!settings_seen) {
      if (type != SETTINGS) {
        code = "missing_settings";
      }
    } else {
      switch (type) {
        case HEADERS:
        case DATA:
        case PUSH_PROMISE:
        case DUPLICATE_PUSH:
          code = "wrong_stream";
          break;
        case SETTINGS:
          code = "unexpected_frame";
          break;
        case CANCEL_PUSH:
          code = "not_implemented";
          break;
        case GOAWAY:
          code = server_ ? "unexpected_frame" : "not_implemented";
          break;
        case MAX_PUSH_ID:
        case PRIORITY:
          code = server_ ? "not_implemented" : "unexpected_frame";
          break;
        default:
          break;
      }
    }
  }
  if (code != nullptr) {
    doom("forbidden frame", { code, "malformed_frame" });
  }
  if (!varint_parse(buf_, pos, size)) {
    return false;
  }
  if (!known_frame(type)) {
    if (!settings_seen) {
      // Strictly an error, but tolerated by lenient receivers.
      unspecified = true;
      return false;
    }
    buf_.erase(0, pos);
    skip_ = size;
    return true;
  }
  size_t at = pos;
  if (fields(type, size, buf_, pos) != 0) {
    if (buf_.size() - at >= size) {
      if (code != nullptr) {
        fail("mis-sized frame", { code, "malformed_frame" });
      } else {
        fail("mis-sized frame", { "malformed_frame" });
      }
    }
    return false;
  }
  bool matches = type == DATA || type == HEADERS || size_matches(type, size, pos - at);
  if (code != nullptr) {
    if (matches) {
      fail("forbidden frame", { code });
    } else {
      fail("mis-sized frame", { code, "malformed_frame" });
    }
    return false;
  }
  if (!matches) {
    fail("mis-sized SETTINGS", { "malformed_frame" });
    return false;
  }
  std::string e = settings_parse(buf_.substr(at, static_cast<size_t>(size)), settings);
  if (!e.empty()) {
    unspecified = true; // duplicate identifiers
    return false;
  }
  settings_seen = true;
  buf_.erase(0, pos);
  return true;
}

}
