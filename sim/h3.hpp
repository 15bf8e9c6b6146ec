// Shared HTTP/3 harness pieces: wrappers around the real connections and the
// per-stream receive oracle.
#pragma once

#include "core.hpp"
#include "gen.hpp"
#include "net.hpp"
#include "ref.hpp"

#include <bnl/http3/client/connection.hpp>
#include <bnl/http3/server/connection.hpp>

#include <list>
#include <memory>
#include <set>

namespace sim {

using bnl::base::buffer;
using handle_t = bnl::http3::endpoint::stream::request::sender::handle;
namespace h3 = bnl::http3;
namespace quic = bnl::quic;

// Build a library buffer (owned by the code under test's ledger), optionally
// as a slice of a larger shared block, the way a transport would hand it over.
buffer
make_buffer(Ctx &ctx, const std::string &s, bool sliced);

inline std::string
str(const buffer &b)
{
  return std::string(reinterpret_cast<const char *>(b.data()), b.size());
}

inline std::string
str(bnl::base::string_view v)
{
  return std::string(v.data() == nullptr ? "" : v.data(), v.size());
}

const char *
error_name(h3::error e);

// What a receiver must observe for one incoming message, and what it has.
struct StreamOracle {
  uint64_t id = 0;
  // expected (may grow while the run proceeds)
  std::vector<ref::Header> headers;
  bool headers_closed = false; // the header list is final
  std::string body;
  bool ended = false; // sender ended the message (body is final)
  // observed
  size_t got_headers = 0;
  bool got_header_fin = false;
  size_t got_body = 0;
  bool got_body_fin = false;
  bool got_finished = false;
  bool got_error = false;

  const char *who = "";

  void on_event(Ctx &ctx, h3::event &event, bool fin_delivered);
  bool complete() const
  {
    return got_finished && got_headers == headers.size() && headers_closed &&
           got_body == body.size();
  }
};

// Incremental scan of the bytes delivered on a request stream: how much of
// the message is decodable from that prefix.
struct Scanner {
  void feed(const std::string &bytes);
  bool headers_done = false; // whole HEADERS frame delivered
  uint64_t data = 0;         // body bytes delivered
  bool boundary = true;      // at a frame boundary

private:
  std::string head_;
  uint64_t type_ = 0;
  uint64_t left_ = 0;
  bool in_payload_ = false;
};

// Wire conformance of the bytes one endpoint put on a request stream.
void
check_request_wire(const char *who,
                   uint64_t id,
                   const std::string &sent,
                   bool fin,
                   const std::vector<ref::Header> &headers,
                   bool started,
                   const std::string &body,
                   bool finished);

void
check_control_wire(const char *who, const std::string &sent, bool fin);

}
