#include "ref.hpp"

#include <cstring>

namespace ref {

struct HuffCode {
  uint32_t code;
  unsigned bits;
};

#include "ref_tables.inc"

size_t
varint_size(uint64_t value)
{
  if (value < (1ULL << 6)) {
    return 1;
  }
  if (value < (1ULL << 14)) {
    return 2;
  }
  if (value < (1ULL << 30)) {
    return 4;
  }
  return 8;
}

bytes
varint(uint64_t value, unsigned width)
{
  size_t size = varint_size(value);
  if (width > size) {
    size = width;
  }
  bytes out(size, '\0');
  uint64_t v = value;
  for (size_t i = size; i-- > 0;) {
    out[i] = static_cast<char>(v & 0xff);
    v >>= 8;
  }
  uint8_t tag = size == 1 ? 0 : size == 2 ? 1 : size == 4 ? 2 : 3;
  out[0] = static_cast<char>(static_cast<uint8_t>(out[0]) | (tag << 6));
  return out;
}

bool
varint_parse(const bytes &in, size_t &pos, uint64_t &value)
{
  if (pos >= in.size()) {
    return false;
  }
  uint8_t first = static_cast<uint8_t>(in[pos]);
  size_t size = static_cast<size_t>(1) << (first >> 6);
  if (in.size() - pos < size) {
    return false;
  }
  uint64_t v = first & 0x3f;
  for (size_t i = 1; i < size; i++) {
    v = (v << 8) | static_cast<uint8_t>(in[pos + i]);
  }
  pos += size;
  value = v;
  return true;
}

bytes
prefix_int(uint64_t value, unsigned prefix, uint8_t first)
{
  uint64_t max = (1ULL << prefix) - 1;
  bytes out;
  if (value < max) {
    out.push_back(static_cast<char>(first | value));
    return out;
  }
  out.push_back(static_cast<char>(first | max));
  value -= max;
  while (value >= 128) {
    out.push_back(static_cast<char>((value & 0x7f) | 0x80));
    value >>= 7;
  }
  out.push_back(static_cast<char>(value));
  return out;
}

int
prefix_int_parse(const bytes &in, size_t &pos, unsigned prefix, uint64_t &value)
{
  size_t p = pos;
  if (p >= in.size()) {
    return 1;
  }
  uint64_t max = (1ULL << prefix) - 1;
  unsigned __int128 v = static_cast<uint8_t>(in[p++]) & max;
  if (v == max) {
    unsigned shift = 0;
    while (true) {
      if (p >= in.size()) {
        return 1;
      }
      uint8_t b = static_cast<uint8_t>(in[p++]);
      if (shift > 63) {
        if ((b & 0x7f) != 0) {
          return 2;
        }
      } else {
        v += static_cast<unsigned __int128>(b & 0x7f) << shift;
      }
      if (v > UINT64_MAX) {
        return 2;
      }
      shift += 7;
      if ((b & 0x80) == 0) {
        break;
      }
      if (shift > 200) {
        return 2;
      }
    }
  }
  pos = p;
  value = static_cast<uint64_t>(v);
  return 0;
}

size_t
huffman_size(const bytes &s)
{
  size_t bits = 0;
  for (char c : s) {
    bits += huffman_table[static_cast<uint8_t>(c)].bits;
  }
  return (bits + 7) / 8;
}

bytes
huffman(const bytes &s)
{
  bytes out;
  unsigned used = 0; // bits used in the last byte
  for (char c : s) {
    const HuffCode &h = huffman_table[static_cast<uint8_t>(c)];
    for (unsigned i = h.bits; i-- > 0;) {
      if (used == 0) {
        out.push_back('\0');
      }
      if ((h.code >> i) & 1U) {
        out.back() =
          static_cast<char>(static_cast<uint8_t>(out.back()) | (0x80U >> used));
      }
      used = (used + 1) % 8;
    }
  }
  while (used != 0) {
    out.back() =
      static_cast<char>(static_cast<uint8_t>(out.back()) | (0x80U >> used));
    used = (used + 1) % 8;
  }
  return out;
}

namespace {
// Binary trie over the Huffman code; built once.
struct Trie {
  std::vector<int> left, right, symbol;
  Trie()
  {
    add();
    for (int s = 0; s < 257; s++) {
      int node = 0;
      for (unsigned i = huffman_table[s].bits; i-- > 0;) {
        std::vector<int> &side =
          ((huffman_table[s].code >> i) & 1U) ? right : left;
        if (side[static_cast<size_t>(node)] < 0) {
          int fresh = static_cast<int>(symbol.size());
          side[static_cast<size_t>(node)] = fresh;
          add();
          node = fresh;
        } else {
          node = side[static_cast<size_t>(node)];
        }
      }
      symbol[static_cast<size_t>(node)] = s;
    }
  }
  void add()
  {
    left.push_back(-1);
    right.push_back(-1);
    symbol.push_back(-1);
  }
};
}

bool
huffman_parse(const bytes &in, bytes &out)
{
  static const Trie trie;
  out.clear();
  int node = 0;
  unsigned depth = 0;
  bool ones = true;
  for (char c : in) {
    for (int i = 7; i >= 0; i--) {
      bool bit = ((static_cast<uint8_t>(c) >> i) & 1) != 0;
      node = bit ? trie.right[static_cast<size_t>(node)]
                 : trie.left[static_cast<size_t>(node)];
      if (node < 0) {
        return false;
      }
      depth++;
      ones = ones && bit;
      int s = trie.symbol[static_cast<size_t>(node)];
      if (s == 256) {
        return false;
      }
      if (s >= 0) {
        out.push_back(static_cast<char>(s));
        node = 0;
        depth = 0;
        ones = true;
      }
    }
  }
  return depth < 8 && ones;
}

bytes
literal(const bytes &s, unsigned prefix, uint8_t first, bool huff)
{
  if (huff) {
    bytes h = huffman(s);
    return prefix_int(h.size(),
                      prefix,
                      static_cast<uint8_t>(first | (1U << prefix))) +
           h;
  }
  return prefix_int(s.size(), prefix, first) + s;
}

size_t
static_size()
{
  return sizeof(static_table) / sizeof(static_table[0]);
}

Header
static_entry(size_t index)
{
  return Header{ static_table[index].first, static_table[index].second };
}

bytes
field(const Header &h, const FieldOptions &o)
{
  std::vector<size_t> full;
  std::vector<size_t> name;
  for (size_t i = 0; i < static_size(); i++) {
    if (h.name == static_table[i].first) {
      name.push_back(i);
      if (h.value == static_table[i].second) {
        full.push_back(i);
      }
    }
  }
  if (o.allow_indexed && !full.empty()) {
    return prefix_int(full[o.index_choice % full.size()], 6, 0xc0);
  }
  if (o.allow_name_ref && !name.empty()) {
    uint8_t first = static_cast<uint8_t>(0x50 | (o.never_index ? 0x20 : 0));
    return prefix_int(name[o.index_choice % name.size()], 4, first) +
           literal(h.value, 7, 0, o.value_huffman);
  }
  uint8_t first = static_cast<uint8_t>(0x20 | (o.never_index ? 0x10 : 0));
  return literal(h.name, 3, first, o.name_huffman) +
         literal(h.value, 7, 0, o.value_huffman);
}

namespace {
std::string
literal_parse(const bytes &in, size_t &pos, unsigned prefix, bytes &out)
{
  if (pos >= in.size()) {
    return "literal: truncated";
  }
  bool huff = ((static_cast<uint8_t>(in[pos]) >> prefix) & 1U) != 0;
  uint64_t size = 0;
  if (prefix_int_parse(in, pos, prefix, size) != 0) {
    return "literal: bad length";
  }
  if (size > in.size() - pos) {
    return "literal: overruns block";
  }
  bytes raw = in.substr(pos, static_cast<size_t>(size));
  pos += static_cast<size_t>(size);
  if (!huff) {
    out = raw;
    return "";
  }
  if (!huffman_parse(raw, out)) {
    return "literal: bad huffman";
  }
  return "";
}
}

std::string
block_parse(const bytes &block, std::vector<Header> &headers)
{
  size_t pos = 0;
  uint64_t ric = 0;
  uint64_t base = 0;
  if (prefix_int_parse(block, pos, 8, ric) != 0 ||
      prefix_int_parse(block, pos, 7, base) != 0) {
    return "block: truncated prefix";
  }
  if (ric != 0) {
    return "block: nonzero required insert count";
  }
  while (pos < block.size()) {
    uint8_t first = static_cast<uint8_t>(block[pos]);
    if (first & 0x80U) {
      if ((first & 0x40U) == 0) {
        return "block: dynamic index";
      }
      uint64_t index = 0;
      if (prefix_int_parse(block, pos, 6, index) != 0) {
        return "block: bad index";
      }
      if (index >= static_size()) {
        return "block: index out of range";
      }
      headers.push_back(static_entry(static_cast<size_t>(index)));
    } else if (first & 0x40U) {
      if ((first & 0x10U) == 0) {
        return "block: dynamic name reference";
      }
      uint64_t index = 0;
      if (prefix_int_parse(block, pos, 4, index) != 0) {
        return "block: bad name index";
      }
      if (index >= static_size()) {
        return "block: name index out of range";
      }
      Header h{ static_table[index].first, "" };
      std::string e = literal_parse(block, pos, 7, h.value);
      if (!e.empty()) {
        return e;
      }
      headers.push_back(h);
    } else if (first & 0x20U) {
      Header h;
      std::string e = literal_parse(block, pos, 3, h.name);
      if (!e.empty()) {
        return e;
      }
      e = literal_parse(block, pos, 7, h.value);
      if (!e.empty()) {
        return e;
      }
      headers.push_back(h);
    } else {
      return "block: unknown representation";
    }
  }
  return "";
}

bytes
frame_header(uint64_t type, uint64_t size, unsigned tw, unsigned lw)
{
  return varint(type, tw) + varint(size, lw);
}

bytes
frame(uint64_t type, const bytes &payload, unsigned tw, unsigned lw)
{
  return frame_header(type, payload.size(), tw, lw) + payload;
}

std::vector<Frame>
frames_parse(const bytes &in, size_t start, size_t &rest)
{
  std::vector<Frame> out;
  size_t pos = start;
  while (pos < in.size()) {
    size_t p = pos;
    Frame f;
    if (!varint_parse(in, p, f.type) || !varint_parse(in, p, f.size)) {
      rest = in.size() - pos;
      return out;
    }
    f.offset = p;
    size_t available = in.size() - p;
    f.complete = f.size <= available;
    f.payload =
      in.substr(p, f.complete ? static_cast<size_t>(f.size) : available);
    pos = p + f.payload.size();
    out.push_back(std::move(f));
  }
  rest = 0;
  return out;
}

std::string
settings_parse(const bytes &payload, Settings &settings)
{
  size_t pos = 0;
  std::vector<uint64_t> seen;
  while (pos < payload.size()) {
    uint64_t id = 0;
    uint64_t value = 0;
    if (!varint_parse(payload, pos, id) || !varint_parse(payload, pos, value)) {
      return "settings: truncated entry";
    }
    for (uint64_t s : seen) {
      if (s == id) {
        return "settings: duplicate identifier";
      }
    }
    seen.push_back(id);
    switch (id) {
      case 0x6:
        settings.max_header_list_size = value;
        break;
      case 0x9:
        settings.num_placeholders = value;
        break;
      case 0x1:
        settings.qpack_max_table_capacity = value;
        break;
      case 0x7:
        settings.qpack_blocked_streams = value;
        break;
      default:
        break;
    }
  }
  return "";
}

}
