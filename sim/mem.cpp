#include "mem.hpp"
#include "gen.hpp"

#include <bnl/base/buffer.hpp>
#include <bnl/base/buffer_view.hpp>
#include <bnl/base/buffers.hpp>
#include <bnl/base/string_view.hpp>

#include <deque>
#include <memory>
#include <new>

namespace sim {

namespace {

using bnl::base::buffer;
using bnl::base::buffer_view;
using bnl::base::buffers;

struct Buf {
  std::unique_ptr<buffer> real;
  std::string model;
  bool known = true; // false: moved from, only fit for assignment or the end
};

struct Chain {
  std::unique_ptr<buffers> real;
  std::deque<std::string> model;
  bool known = true;
  std::string flat() const
  {
    std::string out;
    for (const std::string &s : model) {
      out += s;
    }
    return out;
  }
};

class Mem {
public:
  Mem(Ctx &ctx, const MemProfile &profile)
    : ctx_(ctx)
    , p_(profile)
  {}

  void run()
  {
    unsigned steps = static_cast<unsigned>(ctx_.range(10, p_.steps));
    if (ctx_.chance(ctx_.tier != 0 ? 30 : 12)) {
      many_slices();
    }
    if (ctx_.chance(ctx_.tier != 0 ? 30 : 12)) {
      long_chain();
    }
    if (ctx_.chance(ctx_.tier != 0 ? 30 : 12)) {
      large_look();
    }
    heavy_ = ctx_.chance(30);
    for (unsigned i = 0; i < steps; i++) {
      ctx_.steps++;
      ctx_.sim_us++;
      if (bufs_.empty() || ctx_.chance(60)) {
        create();
      } else if (ctx_.chance(p_.buffers)) {
        chain_step();
      } else {
        buffer_step();
      }
      if (ctx_.chance(p_.lookahead)) {
        look();
      }
      verify();
    }
    ctx_.nontrivial = ctx_.steps > 20;
    // Destroy in a random order; whoever is left must stay intact.
    while (!bufs_.empty() || !chains_.empty()) {
      uint64_t i = ctx_.pick(bufs_.size() + chains_.size());
      ctx_.ev("destroy", i);
      if (i < bufs_.size()) {
        bufs_.erase(bufs_.begin() + static_cast<std::ptrdiff_t>(i));
      } else {
        chains_.erase(chains_.begin() + static_cast<std::ptrdiff_t>(i - bufs_.size()));
      }
      verify();
    }
  }

private:
  using Bufs = std::vector<Buf>;

  // Run a call that may allocate, sometimes with a failing allocation.
  template<typename F>
  bool attempt(F f)
  {
    bool arm = ctx_.chance(p_.alloc_fault);
    uint64_t countdown = arm ? ctx_.pick(3) : 0;
    bool threw = false;
    {
      LibScope scope;
      alloc.fired = false;
      alloc.countdown = countdown;
      alloc.armed = arm;
      try {
        f();
      } catch (const std::bad_alloc &) {
        threw = true;
      }
      alloc.armed = false;
    }
    SIM_CHECK(threw == alloc.fired, "alloc-swallowed",
              "an allocation failure was %s", threw ? "invented" : "swallowed");
    if (threw) {
      SIM_COUNT("fault.alloc");
      ctx_.ev("alloc-failed", countdown);
    }
    alloc.fired = false;
    return !threw;
  }

  size_t size()
  {
    if (heavy_ && ctx_.pick(4) == 0) {
      return heavy_size(ctx_, 5000);
    }
    static const size_t edges[] = { 0, 1, 2, 19, 20, 21, 22, 23, 24, 25, 40, 41, 64, 300 };
    return ctx_.pick(3) != 0 ? edges[ctx_.pick(sizeof(edges) / sizeof(edges[0]))]
                             : static_cast<size_t>(ctx_.range(0, 80));
  }

  std::string fresh(size_t n)
  {
    std::string s(n, '\0');
    for (size_t i = 0; i < n; i++) {
      s[i] = static_cast<char>(next_byte_++ * 37 + 11);
    }
    return s;
  }

  // Any part of [0, n], with a bias to the edges and the small-size limit.
  size_t part(size_t n)
  {
    switch (ctx_.pick(5)) {
      case 0:
        return 0;
      case 1:
        return n;
      case 2:
        return std::min<size_t>(n, 19 + ctx_.pick(4));
      default:
        return static_cast<size_t>(ctx_.pick(n + 1));
    }
  }

  void create()
  {
    Buf b;
    std::string s = fresh(size());
    uint64_t how = ctx_.pick(6);
    ctx_.ev("create", s.size(), how);
    if (how == 5) { // from a view; cannot report a failed allocation
      LibScope scope;
      b.real = std::make_unique<buffer>(
        buffer_view(reinterpret_cast<const uint8_t *>(s.data()), s.size()));
      b.model = s;
      store(std::move(b));
      return;
    }
    bool ok = attempt([&] {
      switch (how) {
        case 0:
          b.real = std::make_unique<buffer>(reinterpret_cast<const uint8_t *>(s.data()), s.size());
          break;
        case 1:
          b.real = std::make_unique<buffer>(s.data(), s.size());
          break;
        case 2: {
          b.real = std::make_unique<buffer>(s.size());
          for (size_t i = 0; i < s.size(); i++) {
            (*b.real)[i] = static_cast<uint8_t>(s[i]);
          }
          break;
        }
        case 3:
          b.real = std::make_unique<buffer>();
          *b.real = buffer(reinterpret_cast<const uint8_t *>(s.data()), s.size());
          break;
        default:
          b.real = std::make_unique<buffer>(buffer(s.data(), s.size()));
          break;
      }
    });
    if (!ok) {
      LibScope scope;
      b.real.reset();
      return;
    }
    b.model = s;
    store(std::move(b));
  }

  // Vector growth also moves the owners around, not the buffers themselves;
  // buffers move through explicit steps.
  void store(Buf b)
  {
    if (bufs_.size() < p_.max_objects) {
      bufs_.push_back(std::move(b));
      return;
    }
    size_t i = static_cast<size_t>(ctx_.pick(bufs_.size()));
    LibScope scope;
    bufs_[i] = std::move(b);
  }

  size_t some(bool known = true)
  {
    std::vector<size_t> ok;
    for (size_t i = 0; i < bufs_.size(); i++) {
      if (bufs_[i].known || !known) {
        ok.push_back(i);
      }
    }
    return ok.empty() ? SIZE_MAX : ok[ctx_.pick(ok.size())];
  }

  void buffer_step()
  {
    size_t i = some();
    if (i == SIZE_MAX) {
      create();
      return;
    }
    Buf &b = bufs_[i];
    uint64_t op = ctx_.pick(9);
    ctx_.ev("buffer", op, i, b.model.size());
    ctx_.mix_schedule(op * 8 + i);
    switch (op) {
      case 0:
      case 1: { // slice
        size_t n = part(b.model.size());
        Buf out;
        {
          LibScope scope;
          out.real = std::make_unique<buffer>(b.real->slice(n));
        }
        out.model = b.model.substr(0, n);
        b.model.erase(0, n);
        SIM_COUNT("probe.slice");
        if (n > 20) {
          SIM_COUNT("probe.shared_slice");
        }
        store(std::move(out));
        break;
      }
      case 2: { // consume
        size_t n = part(b.model.size());
        b.real->consume(n);
        b.model.erase(0, n);
        break;
      }
      case 3: { // write in place
        if (b.model.empty()) {
          break;
        }
        size_t at = static_cast<size_t>(ctx_.pick(b.model.size()));
        uint8_t v = static_cast<uint8_t>(ctx_.pick(256));
        switch (ctx_.pick(4)) {
          case 0:
            (*b.real)[at] = v;
            break;
          case 1:
            b.real->data()[at] = v;
            break;
          case 2:
            *(b.real->begin() + at) = v;
            break;
          default:
            at = 0;
            **b.real = v;
            break;
        }
        b.model[at] = static_cast<char>(v);
        SIM_COUNT("probe.write");
        break;
      }
      case 4: { // move construct
        LibScope scope;
        auto fresh = std::make_unique<buffer>(std::move(*b.real));
        b.real = std::move(fresh);
        break;
      }
      case 5: { // move assign over another (or itself)
        size_t k = some(false);
        LibScope scope;
        if (k == i) {
          buffer &same = *b.real;
          *b.real = std::move(same);
          SIM_COUNT("probe.self_move");
          break;
        }
        *bufs_[k].real = std::move(*b.real);
        bufs_[k].model = b.model;
        bufs_[k].known = true;
        b.model.clear(); // moved from: a valid empty buffer
        break;
      }
      case 6: { // concat
        size_t k = some();
        Buf out;
        bool ok = attempt([&] {
          out.real = std::make_unique<buffer>(buffer::concat(*b.real, *bufs_[k].real));
        });
        if (ok) {
          out.model = b.model + bufs_[k].model;
          store(std::move(out));
        }
        break;
      }
      case 7: { // destroy
        LibScope scope;
        bufs_.erase(bufs_.begin() + static_cast<std::ptrdiff_t>(i));
        break;
      }
      default: { // view
        buffer_view view = *b.real;
        SIM_CHECK(view.size() == b.model.size() && view.empty() == b.model.empty(), "view",
                  "view of %zu bytes has %zu", b.model.size(), view.size());
        for (size_t k = 0; k < view.size(); k++) {
          SIM_CHECK(view[k] == static_cast<uint8_t>(b.model[k]), "view", "view differs at %zu", k);
        }
        views(b.model);
        break;
      }
    }
  }

  // Views compare as the byte sequences they show.
  void views(const std::string &model)
  {
    std::string copy = model;
    uint64_t how = ctx_.pick(4);
    if (how == 1 && !copy.empty()) {
      copy[ctx_.pick(copy.size())] ^= static_cast<char>(1U << ctx_.pick(8));
    } else if (how == 2 && !copy.empty()) {
      copy.pop_back();
    } else if (how == 3) {
      copy.push_back('x');
    }
    bool same = copy == model;
    buffer_view a(reinterpret_cast<const uint8_t *>(model.data()), model.size());
    buffer_view b(reinterpret_cast<const uint8_t *>(copy.data()), copy.size());
    bnl::base::string_view c(model);
    bnl::base::string_view d(copy.data(), copy.size());
    SIM_CHECK((a == b) == same && (b == a) == same && (a != b) != same && (c == d) == same &&
                (d == c) == same && (c != d) != same,
              "view", "views of %zu and %zu bytes compare wrongly (%s)", model.size(), copy.size(),
              same ? "same content" : "different content");
    SIM_CHECK(std::string(d.begin(), d.end()) == copy && d.size() == copy.size() &&
                d.empty() == copy.empty() && (copy.empty() || (*d == copy[0] &&
                d[copy.size() - 1] == copy.back())),
              "view", "string view of %zu bytes differs", copy.size());
    SIM_COUNT("probe.view");
  }

  // One large block cut into very many buffers that go away in any order.
  void many_slices()
  {
    static const size_t counts[] = { 100, 255, 256, 257, 1000, 65535, 65536, 65537 };
    size_t n = counts[ctx_.pick(ctx_.pick(4) == 0 ? 8 : 5)];
    size_t piece = 21 + static_cast<size_t>(ctx_.pick(4));
    std::string all = body_bytes(77, 0, n * piece + 30);
    ctx_.ev("many-slices", n, piece);
    SIM_COUNT("probe.many_slices");
    std::vector<buffer> cut;
    cut.reserve(n);
    std::unique_ptr<buffer> whole;
    {
      LibScope scope;
      whole.reset(new buffer(all.data(), all.size()));
      for (size_t i = 0; i < n; i++) {
        cut.push_back(whole->slice(piece));
      }
    }
    if (ctx_.pick(2) == 0) {
      LibScope scope;
      whole.reset();
    }
    for (unsigned round = 0; round < 3; round++) {
      size_t stride = 2 + static_cast<size_t>(ctx_.pick(5));
      for (size_t i = 0; i < n; i++) {
        if (cut[i].empty()) {
          continue;
        }
        SIM_CHECK(cut[i].size() == piece &&
                    all.compare(i * piece, piece, reinterpret_cast<const char *>(cut[i].data()),
                                piece) == 0,
                  "buffer-content", "slice %zu of %zu differs", i, n);
        if (i % stride != 0) {
          LibScope scope;
          cut[i] = buffer();
        }
      }
      if (round == 1) {
        LibScope scope;
        whole.reset();
      }
    }
    LibScope scope;
    cut.clear();
  }

  // A chain of very many pieces reads as their concatenation.
  void long_chain()
  {
    size_t n = static_cast<size_t>(ctx_.range(60, 600));
    std::string flat;
    ctx_.ev("long-chain", n);
    SIM_COUNT("probe.long_chain");
    buffers chain;
    for (size_t i = 0; i < n; i++) {
      std::string s = body_bytes(78, flat.size(), ctx_.pick(8) == 0 ? 25 : ctx_.pick(4));
      LibScope scope;
      chain.push(buffer(s.data(), s.size()));
      flat += s;
    }
    size_t at = 0;
    while (at < flat.size()) {
      SIM_CHECK(chain.size() == flat.size() - at && !chain.empty(), "chain-size",
                "chain of %zu pieces holds %zu bytes, expected %zu", n, chain.size(),
                flat.size() - at);
      size_t take = ctx_.pick(4) == 0 ? static_cast<size_t>(ctx_.range(1, flat.size() - at))
                                      : std::min<size_t>(1 + ctx_.pick(40), flat.size() - at);
      size_t look = static_cast<size_t>(ctx_.pick(flat.size() - at));
      SIM_CHECK(chain[look] == static_cast<uint8_t>(flat[at + look]) &&
                  *chain == static_cast<uint8_t>(flat[at]),
                "chain-content", "byte %zu of a chain of %zu pieces differs", at + look, n);
      if (ctx_.pick(2) == 0) {
        LibScope scope;
        chain.consume(take);
      } else {
        LibScope scope;
        buffer b = chain.slice(take);
        SIM_CHECK(b.size() == take &&
                    flat.compare(at, take, reinterpret_cast<const char *>(b.data()), take) == 0,
                  "chain-content", "slice of %zu at %zu of a chain of %zu pieces differs", take, at,
                  n);
      }
      at += take;
    }
    SIM_CHECK(chain.empty() && chain.size() == 0, "chain-size", "emptied chain holds %zu bytes",
              chain.size());
  }

  // Looking far ahead, over pieces that are large themselves.
  void large_look()
  {
    size_t n = static_cast<size_t>(ctx_.range(1, 8));
    std::string flat;
    ctx_.ev("large-look", n);
    SIM_COUNT("probe.large_look");
    buffers chain;
    for (size_t i = 0; i < n; i++) {
      std::string s = body_bytes(79, flat.size(), ctx_.pick(4) == 0 ? 3 : heavy_size(ctx_, 70000));
      LibScope scope;
      chain.push(buffer(s.data(), s.size()));
      flat += s;
    }
    buffer whole(flat.data(), flat.size());
    {
      buffers::lookahead look(chain);
      look_at(look, flat, 0, 0);
    }
    {
      buffer::lookahead look(whole);
      look_at(look, flat, 0, 0);
    }
    size_t gone = part(flat.size());
    {
      LibScope scope;
      chain.consume(gone);
      whole.consume(gone);
    }
    buffers::lookahead look(chain);
    look_at(look, flat, gone, 0);
    buffer::lookahead look_whole(whole);
    look_at(look_whole, flat, gone, 0);
    if (gone == flat.size()) {
      return; // nothing to slice from
    }
    size_t take = part(flat.size() - gone);
    LibScope scope;
    buffer a = chain.slice(take);
    buffer b = whole.slice(take);
    SIM_CHECK(a.size() == take && b.size() == take &&
                flat.compare(gone, take, reinterpret_cast<const char *>(a.data()), take) == 0 &&
                flat.compare(gone, take, reinterpret_cast<const char *>(b.data()), take) == 0,
              "chain-content", "slice of %zu at %zu of %zu bytes differs", take, gone, flat.size());
  }

  Chain *some_chain()
  {
    std::vector<size_t> ok;
    for (size_t i = 0; i < chains_.size(); i++) {
      if (chains_[i].known) {
        ok.push_back(i);
      }
    }
    return ok.empty() ? nullptr : &chains_[ok[ctx_.pick(ok.size())]];
  }

  void chain_step()
  {
    Chain *c = some_chain();
    if (c == nullptr || (chains_.size() < 3 && ctx_.chance(50))) {
      if (chains_.size() >= 4) {
        LibScope scope;
        chains_.clear();
      }
      Chain fresh;
      LibScope scope;
      fresh.real = std::make_unique<buffers>();
      chains_.push_back(std::move(fresh));
      return;
    }
    std::string flat = c->flat();
    uint64_t op = ctx_.pick(10);
    ctx_.ev("chain", op, c->model.size(), flat.size());
    ctx_.mix_schedule(100 + op);
    switch (op) {
      case 0:
      case 1:
      case 2: { // push one of the buffers
        size_t i = some();
        if (i == SIZE_MAX) {
          break;
        }
        Buf &b = bufs_[i];
        std::string s = b.model;
        b.model.clear();
        bool ok = attempt([&] { c->real->push(std::move(*b.real)); });
        b.known = ok;
        if (ok) {
          c->model.push_back(s);
        }
        break;
      }
      case 3:
      case 4: { // slice
        if (flat.empty()) {
          break;
        }
        size_t n = part(flat.size());
        Buf out;
        bool ok = attempt([&] { out.real = std::make_unique<buffer>(c->real->slice(n)); });
        if (ok) {
          out.model = flat.substr(0, n);
          drop(*c, n);
          SIM_COUNT("probe.chain_slice");
          store(std::move(out));
        }
        // A failure in the holder's own allocation comes after the slice.
        else if (c->real->size() != flat.size()) {
          SIM_CHECK(c->real->size() == flat.size() - n, "chain-size",
                    "failed slice of %zu left %zu of %zu bytes", n, c->real->size(), flat.size());
          drop(*c, n);
        }
        break;
      }
      case 5:
      case 6: { // consume
        size_t n = part(flat.size());
        c->real->consume(n);
        drop(*c, n);
        break;
      }
      case 7: { // pop
        // Which buffer is first is only defined while no empty one leads.
        while (!c->model.empty() && c->model.front().empty()) {
          c->model.pop_front();
        }
        if (flat.empty()) {
          break;
        }
        Buf out;
        {
          LibScope scope;
          out.real = std::make_unique<buffer>(c->real->pop());
          while (out.real->empty()) {
            *out.real = c->real->pop();
          }
        }
        out.model = c->model.front();
        c->model.pop_front();
        store(std::move(out));
        break;
      }
      case 8: { // move the chain
        LibScope scope;
        if (ctx_.pick(2) == 0) {
          c->real = std::make_unique<buffers>(std::move(*c->real));
        } else {
          auto fresh = std::make_unique<buffers>();
          *fresh = std::move(*c->real);
          c->real = std::move(fresh);
        }
        break;
      }
      default: { // write through back()
        if (c->model.empty() || c->model.back().empty()) {
          break;
        }
        size_t at = static_cast<size_t>(ctx_.pick(c->model.back().size()));
        uint8_t v = static_cast<uint8_t>(ctx_.pick(256));
        if (write_back(*c->real, at, v, c->model.back().size(), 0)) {
          c->model.back()[at] = static_cast<char>(v);
        }
        break;
      }
    }
  }

  // Only where the last buffer of a chain can be written to.
  template<typename B>
  static auto write_back(B &b, size_t at, uint8_t v, size_t size, int)
    -> decltype(b.back()[at] = v, bool())
  {
    if (b.back().size() != size) {
      return false;
    }
    b.back()[at] = v;
    return true;
  }

  template<typename B>
  static bool write_back(B &, size_t, uint8_t, size_t, long)
  {
    return false;
  }

  static void drop(Chain &c, size_t n)
  {
    while (n > 0) {
      size_t k = std::min(n, c.model.front().size());
      c.model.front().erase(0, k);
      n -= k;
      if (c.model.front().empty()) {
        c.model.pop_front();
      }
    }
  }

  // Looking ahead, nested, over whatever is there; the sequence stays as it is.
  template<typename Look>
  void look_at(Look &look, const std::string &flat, size_t base, unsigned depth)
  {
    size_t consumed = 0;
    for (unsigned k = 0; k < 6; k++) {
      size_t left = flat.size() - base - consumed;
      SIM_CHECK(look.size() == left && look.empty() == (left == 0) && look.consumed() == consumed,
                "lookahead", "size %zu (want %zu), consumed %zu (want %zu)", look.size(), left,
                look.consumed(), consumed);
      if (left > 0) {
        size_t at = static_cast<size_t>(ctx_.pick(left));
        SIM_CHECK(look[at] == static_cast<uint8_t>(flat[base + consumed + at]) &&
                    *look == static_cast<uint8_t>(flat[base + consumed]),
                  "lookahead", "byte %zu after %zu differs", at, base + consumed);
      }
      if (depth < 3 && ctx_.pick(3) == 0) {
        Look inner(look);
        look_at(inner, flat, base + consumed, depth + 1);
      }
      size_t n = part(left);
      look.consume(n);
      consumed += n;
    }
    SIM_COUNT("probe.lookahead");
  }

  void look()
  {
    if (ctx_.pick(2) == 0) {
      size_t i = some();
      if (i != SIZE_MAX) {
        ctx_.ev("look-buffer", i);
        buffer::lookahead look(*bufs_[i].real);
        look_at(look, bufs_[i].model, 0, 0);
      }
    } else if (Chain *c = some_chain()) {
      ctx_.ev("look-chain");
      buffers::lookahead look(*c->real);
      look_at(look, c->flat(), 0, 0);
    }
  }

  void verify()
  {
    for (size_t i = 0; i < bufs_.size(); i++) {
      const Buf &b = bufs_[i];
      if (!b.known) {
        continue;
      }
      const buffer &r = *b.real;
      SIM_CHECK(r.size() == b.model.size() && r.empty() == b.model.empty(), "buffer-size",
                "buffer %zu holds %zu bytes, expected %zu", i, r.size(), b.model.size());
      for (size_t k = 0; k < r.size(); k++) {
        SIM_CHECK(r.data()[k] == static_cast<uint8_t>(b.model[k]) &&
                    r[k] == static_cast<uint8_t>(b.model[k]),
                  "buffer-content", "buffer %zu byte %zu is %02x, expected %02x", i, k, r.data()[k],
                  static_cast<uint8_t>(b.model[k]));
      }
      SIM_CHECK(r.end() - r.begin() == static_cast<std::ptrdiff_t>(r.size()) &&
                  (r.empty() || *r == static_cast<uint8_t>(b.model[0])),
                "buffer-range", "buffer %zu: begin/end disagree with size", i);
    }
    for (size_t i = 0; i < chains_.size(); i++) {
      const Chain &c = chains_[i];
      if (!c.known) {
        continue;
      }
      std::string flat = c.flat();
      const buffers &r = *c.real;
      SIM_CHECK(r.size() == flat.size() && r.empty() == flat.empty(), "chain-size",
                "chain %zu holds %zu bytes, expected %zu", i, r.size(), flat.size());
      for (size_t k = 0; k < flat.size(); k++) {
        SIM_CHECK(r[k] == static_cast<uint8_t>(flat[k]), "chain-content",
                  "chain %zu byte %zu is %02x, expected %02x", i, k, r[k],
                  static_cast<uint8_t>(flat[k]));
      }
      if (!flat.empty()) {
        SIM_CHECK(*r == static_cast<uint8_t>(flat[0]), "chain-content", "chain %zu: first byte", i);
      }
    }
  }

  Ctx &ctx_;
  const MemProfile &p_;
  Bufs bufs_;
  std::vector<Chain> chains_;
  uint64_t next_byte_ = 0;
  bool heavy_ = false;
};

}

void
run_mem(Ctx &ctx, const MemProfile &profile)
{
  Mem mem(ctx, profile);
  mem.run();
}

}
