#include "codec.hpp"
#include "gen.hpp"
#include "h3.hpp"
#include "ref.hpp"

#include <bnl/base/buffer.hpp>
#include <bnl/base/buffers.hpp>
#include <bnl/http3/codec/body.hpp>
#include <bnl/http3/codec/frame.hpp>
#include <bnl/http3/codec/headers.hpp>
#include <bnl/http3/codec/qpack.hpp>
#include <bnl/http3/codec/qpack/huffman.hpp>
#include <bnl/http3/codec/qpack/literal.hpp>
#include <bnl/http3/codec/qpack/prefix_int.hpp>
#include <bnl/http3/codec/varint.hpp>

#include <functional>
#include <new>

namespace sim {

namespace {

using bnl::base::buffers;
using bnl::base::string_view;
using h3::frame;

string_view
view(const std::string &s)
{
  return { s.data(), s.size() };
}

// The sequence under the decoder: one contiguous buffer that is replaced when
// more arrives, or a chain of the pieces.
struct OneBuffer {
  using type = buffer;
  static constexpr const char *name = "buffer";
  static void append(Ctx &ctx, buffer &seq, const std::string &s)
  {
    buffer piece = make_buffer(ctx, s, ctx.pick(3) == 0);
    LibScope scope;
    seq = buffer::concat(seq, piece);
  }
};

struct Chain {
  using type = buffers;
  static constexpr const char *name = "chain";
  static void append(Ctx &ctx, buffers &seq, const std::string &s)
  {
    buffer piece = make_buffer(ctx, s, ctx.pick(3) == 0);
    LibScope scope;
    seq.push(std::move(piece));
  }
};

template<typename Seq>
std::string
content(const Seq &seq)
{
  std::string out;
  size_t n = seq.size();
  out.reserve(n);
  for (size_t i = 0; i < n; i++) {
    out.push_back(static_cast<char>(seq[i]));
  }
  return out;
}

enum class want { value, incomplete, error, any, not_value, incomplete_or_error };

class Codec {
public:
  Codec(Ctx &ctx, const CodecProfile &profile)
    : ctx_(ctx)
    , p_(profile)
  {}

  void run()
  {
    std::vector<unsigned> kinds;
    for (unsigned k = 1; k <= CODEC_ENCODERS; k <<= 1) {
      if ((p_.kinds & k) != 0) {
        kinds.push_back(k);
      }
    }
    unsigned kind = kinds[ctx_.pick(kinds.size())];
    bool chain = ctx_.pick(3) != 0;
    faults_ = p_.alloc_fault != 0 && ctx_.pick(2) != 0;
    ctx_.ev("codec", kind, chain, faults_);
    ctx_.mix_schedule(kind * 2 + (chain ? 1 : 0));
    ctx_.nontrivial = true;
    if (kind == CODEC_ENCODERS) {
      encoders();
    } else if (chain) {
      dispatch<Chain>(kind);
    } else {
      dispatch<OneBuffer>(kind);
    }
  }

private:
  template<typename S>
  void dispatch(unsigned kind)
  {
    switch (kind) {
      case CODEC_VARINT:
        varints<S>();
        break;
      case CODEC_PREFIX_INT:
        prefix_ints<S>();
        break;
      case CODEC_LITERAL:
        literals<S>();
        break;
      case CODEC_HUFFMAN:
        huffmans<S>();
        break;
      case CODEC_FRAME:
        frames<S>();
        break;
      case CODEC_QPACK:
        qpacks<S>();
        break;
      case CODEC_HEADERS:
        headerses<S>();
        break;
      case CODEC_BODY:
        bodies<S>();
        break;
    }
  }

  // ---------------------------------------------------------------- feeding --
  // Hands `wire` to `step` in pieces. `step` decodes what it can.
  template<typename S>
  void feed(const std::string &wire, typename S::type &seq, const std::function<bool()> &step)
  {
    static const uint64_t maxes[] = { 1, 2, 3, 7, 40, 100000 };
    uint64_t max = maxes[ctx_.pick(6)];
    if (wire.size() > 20000) {
      max = std::max<uint64_t>(max, wire.size() / 16);
      SIM_COUNT("probe.large_input");
    }
    size_t at = 0;
    uint64_t pieces = 0;
    uint64_t base = alloc.live_bytes;
    alloc.peak = base;
    auto memory = [&] {
      SIM_CHECK(alloc.peak - base <= 16384 + 24 * static_cast<uint64_t>(at), "memory-out-of-proportion",
                "%llu bytes allocated for %zu bytes of input",
                static_cast<unsigned long long>(alloc.peak - base), at);
    };
    while (at < wire.size()) {
      size_t left = wire.size() - at;
      size_t n = static_cast<size_t>(ctx_.range(1, std::min<uint64_t>(left, max)));
      if (++pieces > 300) {
        n = std::max(n, std::min(left, at / 4));
      }
      if (ctx_.pick(12) == 11) {
        S::append(ctx_, seq, ""); // an empty piece
        SIM_COUNT("fault.empty_piece");
      }
      S::append(ctx_, seq, wire.substr(at, n));
      at += n;
      ctx_.steps++;
      ctx_.sim_us++;
      ctx_.mix_schedule(n);
      ctx_.ev("piece", n);
      SIM_COUNT("net.delivered_chunk");
      if (at < wire.size()) {
        SIM_COUNT("fault.split");
        if (ctx_.pick(4) == 3) {
          continue;
        }
      }
      bool more = step();
      memory();
      if (!more) {
        return;
      }
    }
    step();
    memory();
  }

  // Call `f`, sometimes with an allocation that fails; then nothing may have
  // changed and the same call must work when repeated.
  template<typename Seq, typename F>
  auto call(Seq &seq, const char *what, bool may_throw, F f) -> decltype(f())
  {
    if (may_throw && faults_ && ctx_.chance(p_.alloc_fault)) {
      std::string before = content(seq);
      uint64_t countdown = ctx_.pick(4);
      bool threw = false;
      alloc.fired = false;
      alloc.countdown = countdown;
      alloc.armed = true;
      try {
        LibScope scope;
        auto r = f();
        alloc.armed = false;
        SIM_CHECK(!alloc.fired, "alloc-swallowed", "%s: an allocation failure was swallowed", what);
        return r;
      } catch (const std::bad_alloc &) {
        threw = true;
      }
      alloc.armed = false;
      SIM_CHECK(threw && alloc.fired, "spurious-bad-alloc", "%s threw bad_alloc", what);
      alloc.fired = false;
      SIM_COUNT("fault.alloc");
      ctx_.ev("alloc-failed", countdown);
      check_after_throw(content(seq), before, what);
    }
    LibScope scope;
    return f();
  }

  // The decoder may have taken in what it has already accounted for (frame
  // headers, complete unknown frames), but it may not lose anything else; the
  // caller's next comparison settles that.
  static void check_after_throw(const std::string &after, const std::string &before,
                                const char *what)
  {
    SIM_CHECK(after.size() <= before.size() &&
                before.compare(before.size() - after.size(), after.size(), after) == 0,
              "alloc-corrupts", "%s: a failed allocation changed the input", what);
  }

  template<typename Seq>
  void same(const Seq &seq, const std::string &rest, const char *what)
  {
    std::string c = content(seq);
    SIM_CHECK(c == rest, "consumed-wrong",
              "%s: %zu bytes left (%s), expected %zu (%s)", what, c.size(), hex(c, 24).c_str(),
              rest.size(), hex(rest, 24).c_str());
  }

  void judge(want w, bool ok, h3::error e, const char *what)
  {
    bool incomplete = !ok && e == h3::error::incomplete;
    bool error = !ok && !incomplete;
    bool good = false;
    const char *expected = "";
    switch (w) {
      case want::value:
        good = ok;
        expected = "a value";
        break;
      case want::incomplete:
        good = incomplete;
        expected = "incomplete";
        break;
      case want::error:
        good = error;
        expected = "an error";
        break;
      case want::not_value:
      case want::incomplete_or_error:
        good = !ok;
        expected = "no value";
        break;
      case want::any:
        good = true;
        break;
    }
    SIM_CHECK(good, "wrong-verdict", "%s: got %s, expected %s", what,
              ok ? "a value" : error_name(e), expected);
    if (incomplete) {
      SIM_COUNT("probe.incomplete");
    } else if (error) {
      SIM_COUNT("probe.rejected");
    } else {
      SIM_COUNT("probe.decoded");
    }
  }

  uint64_t number(uint64_t max)
  {
    unsigned bits = static_cast<unsigned>(ctx_.range(0, 62));
    uint64_t v = ctx_.pick(1ULL << 32) | (ctx_.pick(1ULL << 32) << 32);
    v = bits >= 64 ? v : v & ((1ULL << bits) - 1);
    switch (ctx_.pick(4)) {
      case 0:
        v = (1ULL << bits) - 1;
        break;
      case 1:
        v = 1ULL << bits;
        break;
      case 2:
        v = ctx_.pick(300);
        break;
      default:
        break;
    }
    return std::min(v, max);
  }

  unsigned width()
  {
    static const unsigned widths[] = { 0, 0, 1, 2, 4, 8 };
    unsigned w = widths[ctx_.pick(6)];
    if (w > 0) {
      SIM_COUNT("fault.wide_varint");
    }
    return w;
  }

  // Decode through a lookahead first: same answer, nothing consumed below.
  template<typename Seq, typename F>
  void peeked(const Seq &seq, const std::string &rest, const char *what, F f)
  {
    if (ctx_.pick(3) != 0) {
      return;
    }
    typename Seq::lookahead_type look(seq);
    f(look);
    same(seq, rest, what);
    SIM_COUNT("probe.through_lookahead");
  }

  // ---------------------------------------------------------------- varint ---
  template<typename S>
  void varints()
  {
    std::vector<uint64_t> values;
    std::string wire;
    size_t n = ctx_.range(1, 8);
    for (size_t i = 0; i < n; i++) {
      values.push_back(number(ref::VARINT_MAX));
      wire += ref::varint(values.back(), width());
    }
    typename S::type seq;
    std::string rest;
    size_t fed = 0;
    size_t got = 0;
    (void) fed;
    std::string all = wire;
    size_t used = 0;
    feed<S>(wire, seq, [&] {
      while (true) {
        rest = all.substr(used, seq.size());
        size_t pos = 0;
        uint64_t v = 0;
        bool have = ref::varint_parse(rest, pos, v);
        peeked(seq, rest, "varint", [&](auto &look) {
          auto r = h3::varint::decode(look);
          judge(have ? want::value : want::incomplete, r.has_value(), err(r), "varint (lookahead)");
          SIM_CHECK(!have || (r.value() == v && look.consumed() == pos), "wrong-value",
                    "varint through a lookahead");
          SIM_CHECK(have || look.consumed() == 0, "consumed-wrong",
                    "incomplete varint consumed %zu bytes of the lookahead", look.consumed());
        });
        auto r = h3::varint::decode(seq);
        judge(have ? want::value : want::incomplete, r.has_value(), err(r), "varint");
        if (!have) {
          same(seq, rest, "incomplete varint");
          return true;
        }
        ctx_.ev("value", r.value());
        SIM_CHECK(r.value() == v && v == values[got], "wrong-value",
                  "varint %zu decoded as %llu, sent %llu", got,
                  static_cast<unsigned long long>(r.value()),
                  static_cast<unsigned long long>(values[got]));
        got++;
        used += pos;
        same(seq, rest.substr(pos), "varint");
        if (seq.empty()) {
          return true;
        }
      }
    });
    SIM_CHECK(got == n, "missing-value", "%zu of %zu varints decoded", got, n);
  }

  template<typename R>
  static h3::error err(const R &r)
  {
    return r.has_value() ? h3::error::no_error : r.error();
  }

  // ------------------------------------------------------------ prefix int ---
  // What may come out of the given bytes.
  static want prefix_verdict(const std::string &in, unsigned prefix, uint64_t &v, size_t &pos)
  {
    pos = 0;
    int r = ref::prefix_int_parse(in, pos, prefix, v);
    size_t run = 0; // bytes after the first
    if (r == 0) {
      run = pos - 1;
    } else if (!in.empty()) {
      run = in.size() - 1;
    }
    // Integers of up to 62 bits in their shortest form must be understood.
    if (r == 0) {
      return run <= 9 && v <= ref::VARINT_MAX ? want::value : want::any;
    }
    if (r == 1) {
      return run <= 8 ? want::incomplete : want::incomplete_or_error;
    }
    return want::not_value;
  }

  template<typename S>
  void prefix_ints()
  {
    unsigned prefix = static_cast<unsigned>(ctx_.range(1, 8));
    std::string wire;
    std::vector<uint64_t> values;
    size_t n = ctx_.range(1, 6);
    bool damaged = false;
    for (size_t i = 0; i < n && !damaged; i++) {
      uint8_t first = prefix == 8 ? 0 : static_cast<uint8_t>(ctx_.pick(1ULL << (8 - prefix)) << prefix);
      if (ctx_.chance(p_.damage / 4)) {
        SIM_COUNT("fault.huge_integer");
        damaged = true;
        wire += static_cast<char>(first | ((1U << prefix) - 1));
        size_t len = ctx_.range(6, 14);
        for (size_t k = 0; k < len; k++) {
          wire += static_cast<char>(0x80 | ctx_.pick(128));
        }
        wire += static_cast<char>(ctx_.pick(128));
        break;
      }
      values.push_back(number(ref::VARINT_MAX));
      wire += ref::prefix_int(values.back(), prefix, first);
    }
    typename S::type seq;
    size_t used = 0;
    size_t got = 0;
    feed<S>(wire, seq, [&] {
      while (true) {
        std::string rest = wire.substr(used, seq.size());
        uint64_t v = 0;
        size_t pos = 0;
        want w = prefix_verdict(rest, prefix, v, pos);
        uint8_t p8 = static_cast<uint8_t>(prefix);
        peeked(seq, rest, "prefixed integer", [&](auto &look) {
          auto r = h3::qpack::prefix_int::decode(look, p8);
          judge(w, r.has_value(), err(r), "prefixed integer (lookahead)");
          SIM_CHECK(!r || (r.value() == v && look.consumed() == pos), "wrong-value",
                    "prefixed integer through a lookahead");
          SIM_CHECK(r || look.consumed() == 0, "consumed-wrong",
                    "undecodable prefixed integer consumed lookahead");
        });
        auto r = h3::qpack::prefix_int::decode(seq, p8);
        judge(w, r.has_value(), err(r), "prefixed integer");
        if (!r) {
          if (r.error() == h3::error::incomplete) {
            same(seq, rest, "incomplete prefixed integer");
            return true;
          }
          return false;
        }
        ctx_.ev("value", r.value());
        SIM_CHECK(r.value() == v, "wrong-value", "prefixed integer decoded as %llu, is %llu",
                  static_cast<unsigned long long>(r.value()), static_cast<unsigned long long>(v));
        SIM_CHECK(got >= values.size() || values[got] == v, "wrong-value", "oracle out of step");
        got++;
        used += pos;
        same(seq, rest.substr(pos), "prefixed integer");
        if (seq.empty()) {
          return true;
        }
      }
    });
    SIM_CHECK(damaged || got == n, "missing-value", "%zu of %zu integers decoded", got, n);
  }

  // --------------------------------------------------------------- literal ---
  std::string text()
  {
    if (ctx_.pick(100) == 99) {
      return random_bytes(ctx_, heavy_size(ctx_, 40000), ctx_.pick(2) != 0 ? 4 : 2);
    }
    switch (ctx_.pick(4)) {
      case 0:
        return random_bytes(ctx_, random_size(ctx_, 300), 4);
      case 1:
        return random_bytes(ctx_, random_size(ctx_, 130), 3);
      case 2:
        return random_bytes(ctx_, random_size(ctx_, 130), 2);
      default:
        return random_header(ctx_, 1).value.substr(0, 2000);
    }
  }

  // Huffman coded bytes that are not valid.
  std::string bad_huffman()
  {
    SIM_COUNT("fault.bad_huffman");
    for (int tries = 0; tries < 20; tries++) {
      std::string s = ref::huffman(text().substr(0, 40));
      switch (ctx_.pick(4)) {
        case 0:
          s += "\xff"; // padding of a whole byte
          break;
        case 1:
          if (!s.empty()) {
            s.back() = static_cast<char>(s.back() & ~1); // padding not ones
          }
          break;
        case 2:
          s.insert(static_cast<size_t>(ctx_.pick(s.size() + 1)), "\xff\xff\xff\xff", 4); // EOS
          break;
        default:
          s += random_bytes(ctx_, ctx_.range(1, 6), 2);
          break;
      }
      std::string out;
      if (!ref::huffman_parse(s, out)) {
        return s;
      }
    }
    return "\xff\xff\xff\xff";
  }

  template<typename S>
  void literals()
  {
    static const unsigned prefixes[] = { 3, 5, 7 };
    unsigned prefix = prefixes[ctx_.pick(3)];
    std::string wire;
    std::vector<std::string> values;
    std::vector<size_t> ends;
    size_t n = ctx_.range(1, 4);
    bool damaged = false;
    for (size_t i = 0; i < n && !damaged; i++) {
      unsigned top = 8 - prefix - 1;
      uint8_t first = static_cast<uint8_t>(ctx_.pick(1ULL << top) << (prefix + 1));
      if (ctx_.chance(p_.damage / 6)) { // promises more than ever arrives
        SIM_COUNT("fault.length_lie");
        std::string h = random_bytes(ctx_, ctx_.range(0, 30), 2);
        unsigned flag = ctx_.pick(2) != 0 ? 1U << prefix : 0;
        wire += ref::prefix_int(h.size() + (ctx_.pick(4) == 0 ? ctx_.range(1, 9) : alias_amount(ctx_)),
                                prefix, static_cast<uint8_t>(first | flag)) +
                h;
        break;
      }
      if (ctx_.chance(p_.damage / 3)) {
        damaged = true;
        std::string h = bad_huffman();
        wire += ref::prefix_int(h.size(), prefix, static_cast<uint8_t>(first | (1U << prefix))) + h;
        break;
      }
      values.push_back(text());
      wire += ref::literal(values.back(), prefix, first, ctx_.pick(2) != 0);
      ends.push_back(wire.size());
    }
    typename S::type seq;
    size_t used = 0;
    size_t got = 0;
    feed<S>(wire, seq, [&] {
      while (true) {
        size_t have = used + seq.size();
        std::string rest = wire.substr(used, seq.size());
        want w = got < ends.size() ? (have >= ends[got] ? want::value : want::incomplete)
                 : !damaged || rest.empty() ? want::incomplete
                 : have == wire.size()      ? want::error
                                            : want::incomplete_or_error;
        uint8_t p8 = static_cast<uint8_t>(prefix);
        peeked(seq, rest, "literal", [&](auto &look) {
          LibScope scope;
          auto r = h3::qpack::literal::decode(look, p8);
          judge(w, r.has_value(), err(r), "literal (lookahead)");
          SIM_CHECK(!r || str(string_view(r.value())) == values[got], "wrong-value",
                    "literal through a lookahead");
          SIM_CHECK(r || look.consumed() == 0, "consumed-wrong",
                    "undecodable literal consumed lookahead");
        });
        auto r = call(seq, "literal", true, [&] { return h3::qpack::literal::decode(seq, p8); });
        judge(w, r.has_value(), err(r), "literal");
        if (!r) {
          if (r.error() == h3::error::incomplete) {
            same(seq, rest, "incomplete literal");
            return true;
          }
          return false;
        }
        std::string s = str(string_view(r.value()));
        ctx_.mix_bytes(s.data(), s.size());
        SIM_CHECK(s == values[got], "wrong-value", "literal %zu: %s, sent %s", got, hex(s).c_str(),
                  hex(values[got]).c_str());
        same(seq, wire.substr(ends[got], have - ends[got]), "literal");
        used = ends[got];
        got++;
        if (seq.empty()) {
          return true;
        }
      }
    });
    SIM_CHECK(damaged || got == values.size(), "missing-value", "%zu of %zu literals decoded", got,
              values.size());

  }

  template<typename S>
  void huffmans()
  {
    bool damaged = ctx_.chance(p_.damage);
    std::string value = text();
    std::string wire = damaged ? bad_huffman() : ref::huffman(value);
    if (!damaged) {
      LibScope scope;
      size_t size = h3::qpack::huffman::encoded_size(view(value));
      SIM_CHECK(size == wire.size(), "wrong-size", "huffman size of %s is %zu, expected %zu",
                hex(value).c_str(), size, wire.size());
      buffer b = h3::qpack::huffman::encode(view(value));
      SIM_CHECK(str(b) == wire, "wrong-encoding", "huffman(%s) = %s, expected %s",
                hex(value).c_str(), hex(str(b)).c_str(), hex(wire).c_str());
    }
    std::string tail = random_bytes(ctx_, ctx_.range(0, 5), 2);
    typename S::type seq;
    std::string all = wire + tail;
    bool done = false;
    feed<S>(all, seq, [&] {
      if (done) {
        return true;
      }
      std::string rest = content(seq);
      want w = rest.size() < wire.size() ? (damaged ? want::incomplete_or_error : want::incomplete)
               : damaged                 ? want::error
                                         : want::value;
      auto r = call(seq, "huffman", true,
                    [&] { return h3::qpack::huffman::decode(seq, wire.size()); });
      judge(w, r.has_value(), err(r), "huffman");
      if (!r) {
        if (r.error() == h3::error::incomplete) {
          same(seq, rest, "incomplete huffman");
        }
        done = r.error() != h3::error::incomplete;
        return true;
      }
      SIM_CHECK(str(string_view(r.value())) == value, "wrong-value", "huffman: %s, sent %s",
                hex(str(string_view(r.value()))).c_str(), hex(value).c_str());
      same(seq, rest.substr(wire.size()), "huffman");
      done = true;
      return true;
    });
    SIM_CHECK(done || all.empty(), "missing-value", "huffman string not decoded");
  }

  // ----------------------------------------------------------------- frame ---
  struct Item {
    uint64_t type = 0;
    std::vector<uint64_t> fields;
    size_t begin = 0; // of the frame
    size_t head = 0;  // end of its type
    size_t end = 0;   // of what frame::decode consumes
    uint64_t due = 0; // when all of the payload it claims is there
    bool known = true;
    bool bad = false;
  };

  static uint8_t byte_of(uint64_t v) { return static_cast<uint8_t>(v); }

  Item make_item(std::string &wire, bool allow_bad)
  {
    static const uint64_t types[] = { ref::DATA,         ref::HEADERS,     ref::SETTINGS,
                                      ref::PRIORITY,     ref::CANCEL_PUSH, ref::PUSH_PROMISE,
                                      ref::GOAWAY,       ref::MAX_PUSH_ID, ref::DUPLICATE_PUSH };
    Item f;
    f.begin = wire.size();
    if (ctx_.pick(4) == 0) {
      SIM_COUNT("fault.unknown_frame");
      f.known = false;
      do {
        f.type = ctx_.pick(3) == 0 ? 0x21 + 0x1f * ctx_.pick(1000) : number(ref::VARINT_MAX);
      } while (ref::known_frame(f.type));
      std::string payload = ctx_.pick(60) == 59 ? body_bytes(1, 0, heavy_size(ctx_, 70000))
                                                : random_bytes(ctx_, random_size(ctx_, 200), 2);
      wire += ref::varint(f.type, width());
      f.head = wire.size();
      wire += ref::varint(payload.size(), width()) + payload;
      f.end = wire.size();
      return f;
    }
    f.type = types[ctx_.pick(9)];
    std::string payload;
    uint64_t size = 0;
    auto id = [&] {
      f.fields.push_back(number(ref::VARINT_MAX));
      return ref::varint(f.fields.back(), width());
    };
    switch (f.type) {
      case ref::DATA:
      case ref::HEADERS:
        size = number(ref::VARINT_MAX);
        f.fields.push_back(size);
        break;
      case ref::SETTINGS: {
        uint64_t v[4] = { ref::VARINT_MAX, 0, 0, 0 };
        static const uint64_t ids[] = { 0x6, 0x9, 0x1, 0x7 };
        for (size_t i = 0; i < 4; i++) {
          if (ctx_.pick(3) != 0) {
            v[i] = number(ref::VARINT_MAX);
            payload += ref::varint(ids[i], width()) + ref::varint(v[i], width());
          }
          if (ctx_.pick(6) == 5) {
            SIM_COUNT("fault.unknown_setting");
            payload += ref::varint(0x21 + 0x1f * ctx_.pick(1000), width()) +
                       ref::varint(number(ref::VARINT_MAX), width());
          }
        }
        f.fields.assign(v, v + 4);
        break;
      }
      case ref::PRIORITY: {
        // The two element types, the ids, the weight.
        uint64_t pt = ctx_.pick(4);
        uint64_t dt = ctx_.pick(4);
        f.fields = { pt, dt };
        payload.push_back(static_cast<char>((pt << 6) | (dt << 4)));
        payload += id();
        payload += id();
        f.fields.push_back(ctx_.pick(256));
        payload.push_back(static_cast<char>(f.fields.back()));
        break;
      }
      case ref::PUSH_PROMISE: {
        payload = id();
        uint64_t extra = number(ref::VARINT_MAX / 2);
        f.fields.push_back(extra);
        size = payload.size() + extra;
        break;
      }
      default:
        payload = id();
        break;
    }
    if (f.type != ref::DATA && f.type != ref::HEADERS && f.type != ref::PUSH_PROMISE) {
      size = payload.size();
      if (allow_bad && ctx_.chance(p_.damage)) {
        // The payload is longer or shorter than its contents. A SETTINGS frame
        // of another length can be a different valid one, so it is left alone.
        if (f.type != ref::SETTINGS) {
          SIM_COUNT("fault.length_lie");
          uint64_t extra = ctx_.range(1, 20);
          if (ctx_.pick(2) == 0 && size > 1) {
            size = ctx_.pick(size);
          } else if (ctx_.pick(3) == 0) {
            size += alias_amount(ctx_);
          } else {
            size += extra;
          }
          f.bad = true;
        }
      }
    }
    wire += ref::varint(f.type, width());
    f.head = wire.size();
    wire += ref::varint(size, width());
    f.due = wire.size() + size;
    wire += payload;
    f.end = wire.size();
    return f;
  }

  static std::vector<uint64_t> fields_of(const frame &f)
  {
    switch (f) {
      case frame::type::data:
        return { f.data.size };
      case frame::type::headers:
        return { f.headers.size };
      case frame::type::priority:
        return { static_cast<uint64_t>(f.priority.prioritized_element_type),
                 static_cast<uint64_t>(f.priority.element_dependency_type),
                 f.priority.prioritized_element_id, f.priority.element_dependency_id,
                 f.priority.weight };
      case frame::type::cancel_push:
        return { f.cancel_push.push_id };
      case frame::type::settings:
        return { f.settings.max_header_list_size, f.settings.num_placeholders,
                 f.settings.qpack_max_table_capacity, f.settings.qpack_blocked_streams };
      case frame::type::push_promise:
        return { f.push_promise.push_id, f.push_promise.size };
      case frame::type::goaway:
        return { f.goaway.stream_id };
      case frame::type::max_push_id:
        return { f.max_push_id.push_id };
      case frame::type::duplicate_push:
        return { f.duplicate_push.push_id };
    }
    return {};
  }

  template<typename S>
  void frames()
  {
    std::string wire;
    std::vector<Item> items;
    size_t n = ctx_.range(1, 7);
    bool bad = false;
    for (size_t i = 0; i < n && !bad; i++) {
      items.push_back(make_item(wire, true));
      bad = items.back().bad;
    }
    if (bad) {
      wire += std::string(64, '\x07');
    }
    typename S::type seq;
    size_t used = 0; // bytes consumed so far
    size_t at = 0;   // next item
    feed<S>(wire, seq, [&] {
      while (true) {
        size_t have = used + seq.size();
        std::string rest = wire.substr(used, seq.size());
        // The next frame that is not unknown, and where it starts.
        size_t k = at;
        size_t skip = used;
        bool skipped = true;
        while (k < items.size() && !items[k].known) {
          if (items[k].end > have) {
            skipped = false;
            break;
          }
          skip = items[k].end;
          k++;
        }
        const Item *next = skipped && k < items.size() ? &items[k] : nullptr;
        { // peek
          const typename S::type &constant = seq;
          auto r = frame::peek(constant);
          want w = next == nullptr || have < next->head ? want::incomplete
                   : have >= next->end || next->bad      ? want::value
                                                         : want::any;
          if (next != nullptr && next->bad) {
            w = have >= next->head + 8 ? want::any : have >= next->head ? want::any : w;
          }
          judge(w, r.has_value(), err(r), "frame peek");
          SIM_CHECK(!r || (next != nullptr && static_cast<uint64_t>(r.value()) == next->type),
                    "wrong-value", "peek sees frame type %llu",
                    static_cast<unsigned long long>(r ? static_cast<uint64_t>(r.value()) : 0));
          same(seq, rest, "peek");
        }
        want w = next == nullptr                     ? want::incomplete
                 : next->bad && (have == wire.size() || have >= next->due) ? want::error
                 : next->bad                         ? want::not_value
                 : have >= next->end                 ? want::value
                                                     : want::incomplete;
        auto r = frame::decode(seq);
        judge(w, r.has_value(), err(r), "frame");
        if (!r) {
          if (r.error() != h3::error::incomplete) {
            return false;
          }
          // Complete unknown frames may be gone; nothing else.
          size_t left = seq.size();
          bool fine = left == rest.size();
          size_t cut = used;
          for (size_t j = at; j < k && !fine; j++) {
            cut = items[j].end;
            if (have - cut == left) {
              fine = true;
              at = j + 1;
            }
          }
          SIM_CHECK(fine, "consumed-wrong", "incomplete frame: %zu of %zu bytes left", left,
                    rest.size());
          used = have - left;
          same(seq, wire.substr(used, left), "incomplete frame");
          return true;
        }
        ctx_.ev("frame", next->type);
        SIM_CHECK(static_cast<uint64_t>(static_cast<frame::type>(r.value())) == next->type &&
                    fields_of(r.value()) == next->fields,
                  "wrong-value", "frame of type %llu decoded with other contents",
                  static_cast<unsigned long long>(next->type));
        round_trip(r.value(), *next);
        used = next->end;
        at = k + 1;
        same(seq, wire.substr(used, have - used), "frame");
        if (seq.empty()) {
          return true;
        }
      }
    });
    bool trailing = !items.empty() && !items.back().known;
    SIM_CHECK(bad || at == items.size() || trailing, "missing-value",
              "%zu of %zu frames decoded", at, items.size());
  }

  void round_trip(const frame &f, const Item &item)
  {
    LibScope scope;
    auto size = frame::encoded_size(f);
    auto b = frame::encode(f);
    SIM_CHECK(size.has_value() && b.has_value(), "not-encodable", "frame type %llu is rejected",
              static_cast<unsigned long long>(item.type));
    SIM_CHECK(b.value().size() == size.value(), "wrong-size", "frame type %llu: %zu bytes, said %zu",
              static_cast<unsigned long long>(item.type), b.value().size(), size.value());
    buffer bytes = std::move(b).value();
    auto again = frame::decode(bytes);
    SIM_CHECK(again.has_value() && bytes.empty() && fields_of(again.value()) == item.fields &&
                again.value() == f && !(again.value() != f),
              "round-trip", "frame type %llu does not survive encoding",
              static_cast<unsigned long long>(item.type));
  }

  // ----------------------------------------------------------------- qpack ---
  struct Line {
    ref::Header header;
    size_t end;
  };

  size_t prefix_ = 0; // of the last field section

  // A field section; an invalid line (if any) is the last.
  std::string block(std::vector<Line> &lines, bool damage, bool &bad)
  {
    std::string wire = section_prefix(ctx_);
    prefix_ = wire.size();
    size_t n = ctx_.range(1, 5);
    if (damage && ctx_.pick(8) == 7) {
      bad = true;
      wire = dynamic_prefix(ctx_);
      prefix_ = wire.size();
      return wire + ref::field(random_header(ctx_, 0), random_field_options(ctx_));
    }
    for (size_t i = 0; i < n; i++) {
      if (damage && i + 1 == n) {
        bad = true;
        wire += bad_line();
        break;
      }
      ref::Header h = random_header(ctx_, p_.header_weight);
      h.value = h.value.substr(0, 3000);
      if (ctx_.pick(300) == 299) {
        h.value = random_bytes(ctx_, heavy_size(ctx_, 40000), ctx_.pick(2) != 0 ? 4 : 2);
      }
      wire += ref::field(h, random_field_options(ctx_));
      lines.push_back({ h, wire.size() });
    }
    return wire;
  }

  std::string bad_line()
  {
    SIM_COUNT("fault.bad_field_line");
    switch (ctx_.pick(7)) {
      case 0:
        return ref::prefix_int(99 + ctx_.pick(400), 6, 0xc0);
      case 1:
        return ref::prefix_int(ctx_.pick(90), 6, 0x80);
      case 2:
        return ref::prefix_int(99 + ctx_.pick(400), 4, 0x50) + ref::literal("v", 7, 0, false);
      case 3:
        return ref::prefix_int(ctx_.pick(90), 4, 0x40) + ref::literal("v", 7, 0, false);
      case 4:
        return ref::literal("Upper", 3, 0x20, ctx_.pick(2) != 0) + ref::literal("v", 7, 0, false);
      case 5:
        return std::string(1, static_cast<char>(ctx_.pick(32)));
      default: {
        std::string h = bad_huffman();
        return ref::prefix_int(1, 4, 0x50) + ref::prefix_int(h.size(), 7, 0x80) + h;
      }
    }
  }

  template<typename S>
  void qpacks()
  {
    std::vector<Line> lines;
    bool bad = false;
    bool damage = ctx_.chance(p_.damage);
    std::string wire = block(lines, damage, bad);
    if (bad) {
      wire += "\xd1"; // complete beyond doubt
    }
    typename S::type seq;
    h3::qpack::decoder decoder;
    size_t got = 0;
    size_t fed_total = 0;
    feed<S>(wire, seq, [&] {
      while (true) {
        if (ctx_.pick(8) == 7) {
          LibScope scope;
          h3::qpack::decoder moved(std::move(decoder));
          decoder = std::move(moved);
        }
        size_t have = static_cast<size_t>(decoder.count()) + seq.size();
        want w = got < lines.size() ? (have >= lines[got].end ? want::value : want::incomplete)
                 : !bad             ? want::incomplete
                 : have == wire.size() ? want::error
                                       : want::not_value;
        fed_total = have;
        uint64_t before = decoder.count();
        auto r = call(seq, "qpack", true, [&] { return decoder.decode(seq); });
        judge(w, r.has_value(), err(r), "field line");
        if (!r && r.error() != h3::error::incomplete) {
          return false;
        }
        SIM_CHECK(decoder.count() + seq.size() == have, "count-wrong",
                  "decoder counts %llu bytes and left %zu of %zu",
                  static_cast<unsigned long long>(decoder.count()), seq.size(), have);
        same(seq, wire.substr(static_cast<size_t>(decoder.count()), seq.size()), "qpack");
        if (!r) {
          SIM_CHECK(decoder.count() == before || (before == 0 && decoder.count() == prefix_),
                    "consumed-wrong", "incomplete field line consumed bytes");
          return true;
        }
        check_header(r.value(), lines[got].header);
        SIM_CHECK(decoder.count() == lines[got].end, "consumed-wrong",
                  "field line %zu ends at %llu, not %zu", got,
                  static_cast<unsigned long long>(decoder.count()), lines[got].end);
        got++;
        if (seq.empty()) {
          return true;
        }
      }
    });
    SIM_CHECK(bad || got == lines.size(), "missing-value", "%zu of %zu field lines decoded", got,
              lines.size());
  }

  void check_header(const h3::header &h, const ref::Header &want)
  {
    std::string name = str(h.name());
    std::string value = str(h.value());
    ctx_.mix_bytes(name.data(), name.size());
    ctx_.mix_bytes(value.data(), value.size());
    SIM_CHECK(name == want.name && value == want.value, "wrong-header",
              "field line decoded as {%s: %s}, is {%s: %s}", hex(name).c_str(), hex(value).c_str(),
              hex(want.name).c_str(), hex(want.value).c_str());
  }

  // --------------------------------------------------------------- headers ---
  std::string grease()
  {
    std::string out;
    while (ctx_.pick(4) == 0) {
      SIM_COUNT("fault.unknown_frame");
      out += ref::frame(0x21 + 0x1f * ctx_.pick(1000),
                        ctx_.pick(60) == 59 ? body_bytes(1, 0, heavy_size(ctx_, 70000))
                                            : random_bytes(ctx_, random_size(ctx_, 100), 2),
                        width(), width());
    }
    return out;
  }

  template<typename S>
  void headerses()
  {
    std::vector<Line> lines;
    bool bad = false;
    bool damage = ctx_.chance(p_.damage);
    std::string section = block(lines, damage && ctx_.pick(2) == 0, bad);
    std::string wire = grease();
    size_t head = wire.size();
    bool other = ctx_.chance(p_.damage / 3);
    if (other) { // another frame comes first: not for this decoder
      wire += ref::frame(ctx_.pick(2) == 0 ? ref::DATA : ref::GOAWAY, std::string("\x01", 1));
    }
    bool overrun = !other && !bad && damage;
    uint64_t declared = section.size() + (bad ? 1 : 0);
    if (overrun) { // the frame ends inside its last field line
      SIM_COUNT("fault.length_lie");
      size_t start = lines.size() < 2 ? prefix_ : lines[lines.size() - 2].end;
      uint64_t cut = ctx_.range(1, lines.back().end - start);
      declared = lines.back().end - cut;
      overrun = cut < lines.back().end - start; // else it just ends one line earlier
      if (!overrun) {
        lines.pop_back();
      }
      if (declared == prefix_) {
        // A prefix and nothing else: no line can be in it.
        overrun = true;
      }
    }
    wire += ref::frame_header(ref::HEADERS, declared, width(), width());
    size_t base = wire.size();
    wire += section;
    if (bad) {
      wire += "\xd1";
    }
    std::string tail = random_bytes(ctx_, ctx_.range(0, 6), 2);
    wire += tail;
    std::string after = overrun || bad ? "" : wire.substr(base + declared);
    typename S::type seq;
    h3::headers::decoder decoder;
    size_t got = 0;
    size_t valid = overrun ? (lines.empty() ? 0 : lines.size() - 1) : lines.size();
    size_t used = 0;
    feed<S>(wire, seq, [&] {
      while (!decoder.finished()) {
        std::string rest = content(seq);
        auto r = call(seq, "headers", true, [&] { return decoder.decode(seq); });
        size_t have = used + rest.size();
        used = have - seq.size();
        if (other) {
          // Told apart as soon as its type is there; never decoded.
          SIM_CHECK(!r && (r.error() == h3::error::incomplete || r.error() == h3::error::delegate),
                    "wrong-verdict", "headers decoder accepts another frame: %s",
                    error_name(err(r)));
          SIM_CHECK(!decoder.started(), "wrong-state", "headers decoder started without HEADERS");
          if (r.error() == h3::error::delegate) {
            SIM_CHECK(content(seq).size() + head >= rest.size(), "consumed-wrong",
                      "delegated frame lost bytes");
            return false;
          }
          return true;
        }
        if (got < valid) {
          if (!r) {
            judge(want::incomplete, false, r.error(), "headers");
            return true;
          }
          check_header(r.value(), lines[got].header);
          got++;
          bool last = got == lines.size() && !bad && !overrun;
          SIM_CHECK(decoder.finished() == last, "wrong-finished",
                    "headers decoder finished=%d after line %zu of %zu", decoder.finished(), got,
                    lines.size());
          SIM_CHECK(decoder.started(), "wrong-state", "headers decoder not started");
          continue;
        }
        // No more input can make a line fit that does not end in its frame.
        judge(overrun && have >= base + declared ? want::error : want::not_value, r.has_value(),
              err(r), "invalid field section");
        if (r.error() != h3::error::incomplete) {
          got = SIZE_MAX;
          return false;
        }
        return true;
      }
      // What follows the frame belongs to somebody else.
      std::string left = content(seq);
      SIM_CHECK(left.size() <= after.size() && after.compare(0, left.size(), left) == 0,
                "consumed-wrong", "headers decoder left %zu bytes of %zu behind it", left.size(),
                after.size());
      return true;
    });
    if (!other && !bad && !overrun) {
      SIM_CHECK(decoder.finished() && got == lines.size(), "missing-value",
                "%zu of %zu headers decoded, finished=%d", got, lines.size(), decoder.finished());
      same(seq, after, "headers");
      auto r = call(seq, "headers", false, [&] { return decoder.decode(seq); });
      SIM_CHECK(!r && r.error() == h3::error::internal, "wrong-verdict",
                "a finished headers decoder gives %s", error_name(err(r)));
    }
    if (bad && !other) {
      SIM_CHECK(got == SIZE_MAX, "missing-error", "invalid field section was not rejected");
    }
  }

  // ------------------------------------------------------------------ body ---
  template<typename S>
  void bodies()
  {
    std::string wire;
    std::string body;
    size_t n = ctx_.range(1, 5);
    if (ctx_.pick(50) == 49) {
      n = ctx_.range(20, 300);
    }
    for (size_t i = 0; i < n; i++) {
      wire += grease();
      size_t size = ctx_.pick(60) == 59 ? heavy_size(ctx_, 140000)
                                        : random_size(ctx_, n > 5 ? 30 : 700);
      if (size == 0) {
        SIM_COUNT("fault.zero_length_data");
      }
      std::string part = body_bytes(7 + i, body.size(), size);
      body += part;
      wire += ref::frame(ref::DATA, part, width(), width());
    }
    bool other = ctx_.chance(p_.damage);
    std::string tail;
    if (other) {
      tail = ref::frame(ref::HEADERS, "abc", width(), width());
    }
    size_t end = wire.size();
    wire += tail;
    typename S::type seq;
    h3::body::decoder decoder;
    std::string seen;
    bool delegated = false;
    feed<S>(wire, seq, [&] {
      while (true) {
        if (ctx_.pick(8) == 7) {
          h3::body::decoder moved(std::move(decoder));
          decoder = std::move(moved);
        }
        auto r = call(seq, "body", true, [&] { return decoder.decode(seq); });
        if (r) {
          std::string part = str(r.value());
          ctx_.ev("part", part.size());
          SIM_COUNT("probe.decoded");
          seen += part;
          SIM_CHECK(seen.size() <= body.size() && body.compare(0, seen.size(), seen) == 0,
                    "wrong-body", "body differs after %zu of %zu bytes", seen.size(), body.size());
          LibScope scope;
          buffer drop = std::move(r).value();
          continue;
        }
        if (r.error() == h3::error::delegate) {
          SIM_CHECK(other && seen == body && !decoder.in_progress(), "wrong-verdict",
                    "body decoder hands a DATA frame on");
          delegated = true;
          return false;
        }
        judge(want::incomplete, false, r.error(), "body");
        return true;
      }
    });
    (void) end;
    SIM_CHECK(seen == body, "missing-value", "%zu of %zu body bytes decoded", seen.size(),
              body.size());
    SIM_CHECK(delegated == other, "wrong-verdict", "frame after the body: delegated=%d", delegated);
    SIM_CHECK(!decoder.in_progress(), "wrong-state", "body decoder in progress at the end");
    if (delegated) {
      SIM_CHECK(content(seq).size() <= tail.size() &&
                  wire.compare(wire.size() - tail.size(), content(seq).size(), content(seq)) == 0,
                "consumed-wrong", "delegated frame lost bytes");
    }
  }

  // --------------------------------------------------------------- encoders --
  void encoders()
  {
    switch (ctx_.pick(5)) {
      case 0:
        encode_numbers();
        break;
      case 1:
        encode_qpack();
        break;
      case 2:
        encode_headers();
        break;
      case 3:
        encode_body();
        break;
      default:
        encode_frames();
        break;
    }
  }

  void encode_numbers()
  {
    for (unsigned i = 0; i < 12; i++) {
      ctx_.steps++;
      uint64_t v = number(ref::VARINT_MAX);
      std::string got;
      {
        LibScope scope;
        auto size = h3::varint::encoded_size(v);
        auto b = h3::varint::encode(v);
        SIM_CHECK(b.has_value() && size.has_value() && size.value() == b.value().size(),
                  "wrong-size", "varint %llu", static_cast<unsigned long long>(v));
        got = str(b.value());
      }
      size_t pos = 0;
      uint64_t back = 0;
      SIM_CHECK(ref::varint_parse(got, pos, back) && pos == got.size() && back == v,
                "wrong-encoding", "varint %llu is encoded as %s",
                static_cast<unsigned long long>(v), hex(got).c_str());
      // Too large for a varint: refused.
      uint64_t big = ref::VARINT_MAX + 1 + number(ref::VARINT_MAX);
      {
        LibScope scope;
        auto size = h3::varint::encoded_size(big);
        auto b = h3::varint::encode(big);
        SIM_CHECK(!size && size.error() == h3::error::varint_overflow && !b &&
                    b.error() == h3::error::varint_overflow,
                  "overflow-accepted", "varint %llu is not refused",
                  static_cast<unsigned long long>(big));
      }
      unsigned prefix = static_cast<unsigned>(ctx_.range(1, 8));
      uint8_t p8 = static_cast<uint8_t>(prefix);
      uint8_t bytes[16] = { 0 };
      size_t size = h3::qpack::prefix_int::encoded_size(v, p8);
      SIM_CHECK(size <= 12, "wrong-size", "prefixed integer of %zu bytes", size);
      uint8_t first = prefix == 8 ? 0 : static_cast<uint8_t>(ctx_.pick(1ULL << (8 - prefix)) << prefix);
      bytes[0] = first;
      bytes[size] = 0xee;
      size_t wrote = h3::qpack::prefix_int::encode(bytes, v, p8);
      std::string s(reinterpret_cast<char *>(bytes), wrote);
      SIM_CHECK(wrote == size && bytes[size] == 0xee, "wrong-size",
                "prefixed integer %llu/%u: wrote %zu, said %zu", static_cast<unsigned long long>(v),
                prefix, wrote, size);
      pos = 0;
      SIM_CHECK(ref::prefix_int_parse(s, pos, prefix, back) == 0 && pos == s.size() && back == v &&
                  (static_cast<uint8_t>(s[0]) >> prefix) == (first >> prefix % 8),
                "wrong-encoding", "prefixed integer %llu/%u is encoded as %s",
                static_cast<unsigned long long>(v), prefix, hex(s).c_str());
      std::string number_alone = attempt("prefixed integer encode", [&] {
        return str(h3::qpack::prefix_int::encode(v, p8));
      });
      SIM_CHECK(number_alone == ref::prefix_int(v, prefix), "wrong-encoding",
                "prefixed integer %llu/%u is encoded as %s", static_cast<unsigned long long>(v),
                prefix, hex(number_alone).c_str());
      std::string t = text();
      unsigned lp = prefix == 8 ? 7 : prefix;
      std::string literal_alone = attempt("literal encode", [&] {
        return str(h3::qpack::literal::encode(view(t), static_cast<uint8_t>(lp)));
      });
      SIM_CHECK(literal_alone == ref::literal(t, lp, 0, false) ||
                  literal_alone == ref::literal(t, lp, 0, true),
                "wrong-encoding", "literal %s is encoded as %s", hex(t).c_str(),
                hex(literal_alone).c_str());
    }
  }

  void encode_frames()
  {
    for (unsigned i = 0; i < 6; i++) {
      ctx_.steps++;
      std::string wire;
      Item item = make_item(wire, false);
      if (!item.known) {
        continue;
      }
      LibScope scope;
      buffer b(reinterpret_cast<const uint8_t *>(wire.data()), wire.size());
      auto f = frame::decode(b);
      SIM_CHECK(f.has_value(), "wrong-verdict", "valid frame rejected");
      round_trip(f.value(), item);
      // An id that does not fit: refused, both when measured and encoded.
      frame big = frame::payload::goaway{ ref::VARINT_MAX + 1 + item.begin };
      auto r = frame::encode(big);
      auto s = frame::encoded_size(big);
      SIM_CHECK(!r && !s && r.error() == h3::error::varint_overflow, "overflow-accepted",
                "goaway with a 63-bit id is encoded");
    }
  }

  void encode_qpack()
  {
    h3::qpack::encoder encoder;
    std::string wire;
    std::vector<ref::Header> sent;
    size_t n = ctx_.range(1, 6);
    if (ctx_.pick(50) == 49) {
      n = ctx_.range(50, 400);
    }
    for (size_t i = 0; i < n; i++) {
      ctx_.steps++;
      ref::Header h = random_header(ctx_, n > 6 ? 0 : p_.header_weight);
      if (ctx_.pick(200) == 199) {
        (ctx_.pick(3) == 0 ? h.name : h.value) =
          random_bytes(ctx_, heavy_size(ctx_, 70000), ctx_.pick(2) != 0 ? 4 : 0);
      }
      if (ctx_.pick(8) == 7) {
        SIM_COUNT("fault.uppercase_header");
        ref::Header u = h;
        u.name.insert(static_cast<size_t>(ctx_.pick(u.name.size() + 1)), 1,
                      static_cast<char>('A' + ctx_.pick(26)));
        LibScope scope;
        uint64_t before = encoder.count();
        auto r = encoder.encode(h3::header_view(view(u.name), view(u.value)));
        SIM_CHECK(!r && r.error() == h3::error::malformed_header && encoder.count() == before,
                  "uppercase-accepted", "header %s is encoded", hex(u.name).c_str());
      }
      std::string bytes = attempt("qpack encode", [&] {
        auto size = encoder.encoded_size(h3::header_view(view(h.name), view(h.value)));
        auto r = encoder.encode(h3::header_view(view(h.name), view(h.value)));
        alloc.armed = false;
        SIM_CHECK(size.has_value() && r.has_value() && r.value().size() == size.value(),
                  "wrong-size", "header {%s: %s}", hex(h.name).c_str(), hex(h.value).c_str());
        return str(r.value());
      });
      wire += bytes;
      sent.push_back(h);
      SIM_CHECK(encoder.count() == wire.size(), "count-wrong", "encoder counts %llu of %zu bytes",
                static_cast<unsigned long long>(encoder.count()), wire.size());
    }
    std::vector<ref::Header> back;
    std::string e = ref::block_parse(wire, back);
    SIM_CHECK(e.empty() && back == sent, "wrong-encoding", "field section %s: %s",
              hex(wire, 80).c_str(), e.empty() ? "other headers" : e.c_str());
    SIM_COUNT("probe.encoded");
  }

  template<typename F>
  std::string attempt(const char *what, F f)
  {
    if (faults_ && ctx_.chance(p_.alloc_fault)) {
      uint64_t countdown = ctx_.pick(4);
      alloc.fired = false;
      alloc.countdown = countdown;
      alloc.armed = true;
      try {
        LibScope scope;
        std::string s = f();
        alloc.armed = false;
        return s;
      } catch (const std::bad_alloc &) {
      }
      alloc.armed = false;
      SIM_CHECK(alloc.fired, "spurious-bad-alloc", "%s threw bad_alloc", what);
      alloc.fired = false;
      SIM_COUNT("fault.alloc");
    }
    LibScope scope;
    return f();
  }

  void encode_headers()
  {
    h3::headers::encoder encoder;
    std::vector<ref::Header> sent;
    std::string wire;
    bool ended = false;
    for (unsigned i = 0; i < 30 && !encoder.finished(); i++) {
      ctx_.steps++;
      LibScope scope;
      alloc.in_lib = false;
      uint64_t op = ctx_.pick(4);
      if (i > 12) {
        op = sent.empty() ? 0 : 2 + i % 2;
      }
      ctx_.ev("headers-encoder", op, ended);
      switch (op) {
        case 0:
        case 1: {
          ref::Header h = random_header(ctx_, p_.header_weight);
          bool upper = ctx_.pick(8) == 7;
          if (upper) {
            h.name += "Q";
          }
          alloc.in_lib = true;
          auto r = encoder.add(h3::header_view(view(h.name), view(h.value)));
          alloc.in_lib = false;
          if (ended) {
            SIM_CHECK(!r && r.error() == h3::error::internal, "misuse-accepted",
                      "header added after the end");
          } else if (upper) {
            SIM_CHECK(!r && r.error() == h3::error::malformed_header, "uppercase-accepted",
                      "uppercase header added");
          } else {
            SIM_CHECK(r.has_value(), "api-rejected", "header rejected");
            sent.push_back(h);
          }
          break;
        }
        case 2: {
          alloc.in_lib = true;
          auto r = encoder.fin();
          alloc.in_lib = false;
          SIM_CHECK(r.has_value() == (!ended && !sent.empty()), "misuse-accepted",
                    "fin() with %zu headers, ended=%d: %d", sent.size(), ended, r.has_value());
          ended = ended || r.has_value();
          break;
        }
        default: {
          alloc.in_lib = true;
          auto r = encoder.encode();
          alloc.in_lib = false;
          if (!ended) {
            SIM_CHECK(!r && r.error() == h3::error::idle, "wrong-verdict",
                      "encode() before fin() gives %s", error_name(err(r)));
            break;
          }
          SIM_CHECK(r.has_value(), "wrong-verdict", "encode() gives %s", error_name(err(r)));
          wire += str(r.value());
          break;
        }
      }
    }
    if (!ended) {
      return;
    }
    LibScope scope;
    while (!encoder.finished()) {
      auto r = encoder.encode();
      SIM_CHECK(r.has_value(), "wrong-verdict", "encode() gives %s", error_name(err(r)));
      wire += str(r.value());
    }
    auto r = encoder.encode();
    SIM_CHECK(!r && r.error() == h3::error::internal, "wrong-verdict",
              "encode() after the end gives %s", error_name(err(r)));
    size_t rest = 0;
    auto fs = ref::frames_parse(wire, 0, rest);
    std::vector<ref::Header> back;
    SIM_CHECK(fs.size() == 1 && rest == 0 && fs[0].type == ref::HEADERS && fs[0].complete &&
                ref::block_parse(fs[0].payload, back).empty() && back == sent,
              "wrong-encoding", "HEADERS frame %s", hex(wire, 80).c_str());
    SIM_COUNT("probe.encoded");
  }

  void encode_body()
  {
    h3::body::encoder encoder;
    std::string body;
    std::string wire;
    bool ended = false;
    unsigned empties = 0;
    auto pull = [&] {
      LibScope scope;
      auto r = encoder.encode();
      if (r) {
        wire += str(r.value());
        return true;
      }
      SIM_CHECK(r.error() == (encoder.finished() ? h3::error::internal : h3::error::idle),
                "wrong-verdict", "encode() gives %s", error_name(r.error()));
      return false;
    };
    for (unsigned i = 0; i < 24; i++) {
      ctx_.steps++;
      uint64_t op = ctx_.pick(5);
      ctx_.ev("body-encoder", op, ended);
      if (op < 2) {
        size_t size = ctx_.pick(60) == 59 ? heavy_size(ctx_, 140000) : random_size(ctx_, 600);
        std::string part = body_bytes(3, body.size(), size);
        buffer b = make_buffer(ctx_, part, ctx_.pick(3) == 0);
        LibScope scope;
        auto r = encoder.add(std::move(b));
        SIM_CHECK(r.has_value() == !ended, "misuse-accepted", "add() with ended=%d: %d", ended,
                  r.has_value());
        if (!ended) {
          body += part;
          empties += size == 0;
        }
      } else if (op < 4) {
        pull();
      } else if (i > 6) {
        bool was = encoder.finished();
        auto r = encoder.fin();
        SIM_CHECK(r.has_value() || was, "api-rejected", "fin() rejected");
        ended = true;
      }
    }
    if (!ended) {
      auto r = encoder.fin();
      SIM_CHECK(r.has_value(), "api-rejected", "fin() rejected");
    }
    while (pull()) {
    }
    SIM_CHECK(encoder.finished(), "wrong-state", "body encoder not finished");
    size_t rest = 0;
    std::string back;
    auto fs = ref::frames_parse(wire, 0, rest);
    for (const ref::Frame &f : fs) {
      SIM_CHECK(f.type == ref::DATA && f.complete, "wrong-encoding", "body frame of type %llu",
                static_cast<unsigned long long>(f.type));
      back += f.payload;
    }
    SIM_CHECK(rest == 0 && back == body, "wrong-encoding", "%zu body bytes encoded, %zu added",
              back.size(), body.size());
    SIM_COUNT("probe.encoded");
  }

  Ctx &ctx_;
  const CodecProfile &p_;
  bool faults_ = false;
};

}

void
run_codec(Ctx &ctx, const CodecProfile &profile)
{
  Codec codec(ctx, profile);
  codec.run();
}

}
