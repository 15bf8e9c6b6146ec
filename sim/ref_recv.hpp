// Reference receivers: what any correct endpoint must make of a prefix of the
// bytes on a request stream or on the control stream.  Independent of /repo.
#pragma once

#include "ref.hpp"

#include <set>
#include <string>
#include <vector>

namespace ref {

enum class verdict {
  fine,   // a valid prefix: no error may be reported
  doomed, // cannot become valid any more: an error is allowed
  bad     // everything needed to see the error has arrived: it is required
};

class Receiver {
public:
  explicit Receiver(bool server)
    : server_(server)
  {}

  void feed(const bytes &in);
  void fin();

  std::vector<Header> headers; // complete field lines so far
  bool headers_done = false;   // the HEADERS frame is complete
  bytes body;
  bool finished = false;
  verdict state = verdict::fine;
  std::set<std::string> codes; // acceptable errors (empty: any)
  bool unspecified = false;    // no expectation from here on
  bool fin_seen = false;
  std::string why;

private:
  void run();
  bool step();
  bool line();
  bool forbidden(uint64_t type, uint64_t size, size_t at, const char *code);
  void doom(const char *why, std::set<std::string> codes);
  void fail(const char *why, std::set<std::string> codes);
  const char *forbidden_code(uint64_t type) const;

  bool server_;
  bytes buf_;
  enum class stage { head, block, data, skip } stage_ = stage::head;
  bool in_headers_ = true; // the HEADERS frame has not been seen
  bool trailers_ = false;  // trailing HEADERS seen
  bool prefix_ = false;    // field section prefix consumed
  uint64_t left_ = 0;
};

class Control {
public:
  explicit Control(bool server)
    : server_(server)
  {}

  void feed(const bytes &in);

  bool settings_seen = false;
  Settings settings;
  verdict state = verdict::fine;
  std::set<std::string> codes;
  bool unspecified = false;
  std::string why;

private:
  bool step();
  void doom(const char *why, std::set<std::string> codes);
  void fail(const char *why, std::set<std::string> codes);

  bool server_;
  bytes buf_;
  bool typed_ = false;
  bool skipped_ = false;
  uint64_t skip_ = 0;
};

}
