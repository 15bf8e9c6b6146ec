// Reference HTTP/3 (draft, as implemented by bnl) codec: an independent,
// deliberately plain encoder and parser used as the oracle.  Works on
// std::string bytes; shares no code with /repo.
#pragma once

#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace ref {

using bytes = std::string;

struct Header {
  bytes name;
  bytes value;
  bool operator==(const Header &o) const
  {
    return name == o.name && value == o.value;
  }
  bool operator!=(const Header &o) const { return !(*this == o); }
};

enum frame_type : uint64_t {
  DATA = 0x0,
  HEADERS = 0x1,
  PRIORITY = 0x2,
  CANCEL_PUSH = 0x3,
  SETTINGS = 0x4,
  PUSH_PROMISE = 0x5,
  GOAWAY = 0x7,
  MAX_PUSH_ID = 0xd,
  DUPLICATE_PUSH = 0xe
};

inline bool
known_frame(uint64_t type)
{
  switch (type) {
    case DATA:
    case HEADERS:
    case PRIORITY:
    case CANCEL_PUSH:
    case SETTINGS:
    case PUSH_PROMISE:
    case GOAWAY:
    case MAX_PUSH_ID:
    case DUPLICATE_PUSH:
      return true;
    default:
      return false;
  }
}

constexpr uint64_t VARINT_MAX = (1ULL << 62) - 1;

size_t
varint_size(uint64_t value);

// width: 0 (minimal) or 1, 2, 4, 8 (widened to the minimum when too small).
bytes
varint(uint64_t value, unsigned width = 0);

// Returns false when incomplete; advances pos otherwise.
bool
varint_parse(const bytes &in, size_t &pos, uint64_t &value);

bytes
prefix_int(uint64_t value, unsigned prefix, uint8_t first = 0);

// 0 ok, 1 incomplete, 2 invalid (does not fit 64 bits)
int
prefix_int_parse(const bytes &in, size_t &pos, unsigned prefix, uint64_t &value);

size_t
huffman_size(const bytes &s);
bytes
huffman(const bytes &s);
bool
huffman_parse(const bytes &in, bytes &out);

bytes
literal(const bytes &s, unsigned prefix, uint8_t first, bool huff);

size_t
static_size();
Header
static_entry(size_t index);

enum class style { smallest, indexed, name_ref, literal };

// Encode one header field representation.  `index_choice` selects among
// matching static entries.
struct FieldOptions {
  bool allow_indexed = true;
  bool allow_name_ref = true;
  bool name_huffman = false;
  bool value_huffman = false;
  bool never_index = false;
  uint64_t index_choice = 0;
};
bytes
field(const Header &h, const FieldOptions &o);

// Parse a full header block (prefix included).  Empty error on success.
std::string
block_parse(const bytes &block, std::vector<Header> &headers);

bytes
frame(uint64_t type, const bytes &payload, unsigned tw = 0, unsigned lw = 0);
bytes
frame_header(uint64_t type, uint64_t size, unsigned tw = 0, unsigned lw = 0);

// ------------------------------------------------------- stream parse ------
struct Frame {
  uint64_t type = 0;
  uint64_t size = 0;   // declared payload size
  size_t offset = 0;   // offset of the payload
  bool complete = false;
  bytes payload;       // what is there of it
};

// Splits bytes into frames; the last may be incomplete.  `rest` is set to the
// number of trailing bytes that do not even make a frame header.
std::vector<Frame>
frames_parse(const bytes &in, size_t start, size_t &rest);

struct Settings {
  uint64_t max_header_list_size = VARINT_MAX;
  uint64_t num_placeholders = 0;
  uint64_t qpack_max_table_capacity = 0;
  uint64_t qpack_blocked_streams = 0;
};

std::string
settings_parse(const bytes &payload, Settings &settings);

}
