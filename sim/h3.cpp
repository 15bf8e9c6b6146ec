#include "h3.hpp"

namespace sim {

buffer
make_buffer(Ctx &ctx, const std::string &s, bool sliced)
{
  LibScope scope;
  const uint8_t *data = reinterpret_cast<const uint8_t *>(s.data());
  if (!sliced) {
    return buffer(data, s.size());
  }
  bool in = alloc.in_lib;
  alloc.in_lib = false;
  size_t before = ctx.pick(3) == 0 ? ctx.range(0, 6) : ctx.range(0, 30);
  size_t after = ctx.pick(3) == 0 ? 0 : ctx.range(0, 30);
  alloc.in_lib = in;
  buffer parent(before + s.size() + after);
  std::fill(parent.begin(), parent.end(), static_cast<uint8_t>(0xa5));
  std::copy(data, data + s.size(), parent.begin() + before);
  parent.consume(before);
  if (after == 0) {
    return parent;
  }
  return parent.slice(s.size());
}

const char *
error_name(h3::error e)
{
  switch (e) {
    case h3::error::no_error:
      return "no_error";
    case h3::error::internal:
      return "internal";
    case h3::error::wrong_stream:
      return "wrong_stream";
    case h3::error::closed_critical_stream:
      return "closed_critical_stream";
    case h3::error::missing_settings:
      return "missing_settings";
    case h3::error::unexpected_frame:
      return "unexpected_frame";
    case h3::error::malformed_frame:
      return "malformed_frame";
    case h3::error::qpack_decompression_failed:
      return "qpack_decompression_failed";
    case h3::error::incomplete:
      return "incomplete";
    case h3::error::idle:
      return "idle";
    case h3::error::delegate:
      return "delegate";
    case h3::error::not_implemented:
      return "not_implemented";
    case h3::error::varint_overflow:
      return "varint_overflow";
    case h3::error::malformed_header:
      return "malformed_header";
    case h3::error::stream_closed:
      return "stream_closed";
    case h3::error::invalid_handle:
      return "invalid_handle";
  }
  return "?";
}

void
StreamOracle::on_event(Ctx &ctx, h3::event &event, bool fin_delivered)
{
  unsigned long long sid = id;
  SIM_CHECK(!got_finished,
            "event-after-finished",
            "%s stream %llu: event after the message was reported finished",
            who,
            sid);

  switch (event) {
    case h3::event::type::settings:
      fail("wrong-event", "%s stream %llu: settings on a request stream", who, sid);

    case h3::event::type::header: {
      SIM_CHECK(event.header.id == id,
                "wrong-stream-id",
                "%s stream %llu: header event carries id %llu",
                who,
                sid,
                static_cast<unsigned long long>(event.header.id));
      std::string name = str(event.header.header.name());
      std::string value = str(event.header.header.value());
      ctx.ev("event.header", id, got_headers, event.header.fin ? 1 : 0);
      ctx.mix_bytes(name.data(), name.size());
      ctx.mix_bytes(value.data(), value.size());
      ctx.note("%s: %s", name.c_str(), value.size() > 60 ? "(long)" : value.c_str());
      SIM_CHECK(!got_header_fin && got_body == 0,
                "header-order",
                "%s stream %llu: header event after the header list ended",
                who,
                sid);
      SIM_CHECK(got_headers < headers.size(),
                "extra-header",
                "%s stream %llu: header %s (%s) was never sent",
                who,
                sid,
                name.c_str(),
                hex(value).c_str());
      const ref::Header &want = headers[got_headers];
      SIM_CHECK(want.name == name && want.value == value,
                "wrong-header",
                "%s stream %llu: header %zu is {%s: %s}, sent {%s: %s}",
                who,
                sid,
                got_headers,
                hex(name).c_str(),
                hex(value).c_str(),
                hex(want.name).c_str(),
                hex(want.value).c_str());
      got_headers++;
      bool last = headers_closed && got_headers == headers.size();
      SIM_CHECK(event.header.fin == last,
                "wrong-header-fin",
                "%s stream %llu: header %zu of %zu has fin=%d",
                who,
                sid,
                got_headers,
                headers.size(),
                event.header.fin);
      got_header_fin = event.header.fin;
      SIM_COUNT("event.header");
      break;
    }

    case h3::event::type::body: {
      SIM_CHECK(event.body.id == id,
                "wrong-stream-id",
                "%s stream %llu: body event carries id %llu",
                who,
                sid,
                static_cast<unsigned long long>(event.body.id));
      size_t size = event.body.buffer.size();
      ctx.ev("event.body", id, size, event.body.fin ? 1 : 0);
      ctx.mix_bytes(event.body.buffer.data(), size);
      SIM_CHECK(got_header_fin,
                "body-before-headers",
                "%s stream %llu: body event before the header list ended",
                who,
                sid);
      SIM_CHECK(!got_body_fin,
                "body-after-fin",
                "%s stream %llu: body event after one with fin",
                who,
                sid);
      SIM_CHECK(got_body + size <= body.size(),
                "extra-body",
                "%s stream %llu: %zu body bytes at %zu, only %zu were sent",
                who,
                sid,
                size,
                got_body,
                body.size());
      if (size != 0 &&
          body.compare(got_body,
                       size,
                       reinterpret_cast<const char *>(event.body.buffer.data()),
                       size) != 0) {
        fail("wrong-body",
             "%s stream %llu: body bytes at %zu (+%zu) differ",
             who,
             sid,
             got_body,
             size);
      }
      got_body += size;
      got_body_fin = event.body.fin;
      if (event.body.fin) {
        SIM_CHECK(ended && got_body == body.size() && fin_delivered,
                  "premature-fin",
                  "%s stream %llu: body fin after %zu of %zu bytes (ended=%d, "
                  "FIN delivered=%d)",
                  who,
                  sid,
                  got_body,
                  body.size(),
                  ended,
                  fin_delivered);
      }
      SIM_COUNT("event.body");
      break;
    }

    case h3::event::type::finished:
      ctx.ev("event.finished", id);
      SIM_CHECK(event.finished.id == id,
                "wrong-stream-id",
                "%s stream %llu: finished event carries id %llu",
                who,
                sid,
                static_cast<unsigned long long>(event.finished.id));
      SIM_CHECK(got_header_fin && got_headers == headers.size() && ended &&
                  got_body == body.size() && fin_delivered,
                "premature-finished",
                "%s stream %llu: finished after %zu/%zu headers, %zu/%zu body "
                "bytes (ended=%d, FIN delivered=%d)",
                who,
                sid,
                got_headers,
                headers.size(),
                got_body,
                body.size(),
                ended,
                fin_delivered);
      got_finished = true;
      SIM_COUNT("event.finished");
      break;
  }
}

void
Scanner::feed(const std::string &bytes)
{
  size_t i = 0;
  while (i < bytes.size()) {
    if (!in_payload_) {
      head_.push_back(bytes[i++]);
      boundary = false;
      size_t pos = 0;
      uint64_t type = 0;
      uint64_t size = 0;
      if (ref::varint_parse(head_, pos, type) &&
          ref::varint_parse(head_, pos, size)) {
        head_.clear();
        type_ = type;
        left_ = size;
        in_payload_ = size != 0;
        boundary = size == 0;
      }
      continue;
    }
    uint64_t n = std::min<uint64_t>(left_, bytes.size() - i);
    if (type_ == ref::DATA) {
      data += n;
    }
    left_ -= n;
    i += n;
    if (left_ == 0) {
      in_payload_ = false;
      boundary = true;
      if (type_ == ref::HEADERS) {
        headers_done = true;
      }
    }
  }
}

void
check_request_wire(const char *who,
                   uint64_t id,
                   const std::string &sent,
                   bool fin,
                   const std::vector<ref::Header> &headers,
                   bool started,
                   const std::string &body,
                   bool finished)
{
  unsigned long long sid = id;
  SIM_CHECK(started || sent.empty(),
            "wire-before-start",
            "%s stream %llu: %zu bytes on the wire before start",
            who,
            sid,
            sent.size());
  size_t rest = 0;
  std::vector<ref::Frame> frames = ref::frames_parse(sent, 0, rest);
  std::string data;
  bool seen_headers = false;
  for (size_t i = 0; i < frames.size(); i++) {
    const ref::Frame &f = frames[i];
    if (i == 0) {
      SIM_CHECK(f.type == ref::HEADERS,
                "wire-first-frame",
                "%s stream %llu: first frame has type 0x%llx",
                who,
                sid,
                static_cast<unsigned long long>(f.type));
    } else {
      SIM_CHECK(f.type == ref::DATA,
                "wire-frame-type",
                "%s stream %llu: frame %zu has type 0x%llx",
                who,
                sid,
                i,
                static_cast<unsigned long long>(f.type));
    }
    if (f.type == ref::HEADERS && f.complete) {
      std::vector<ref::Header> decoded;
      std::string e = ref::block_parse(f.payload, decoded);
      SIM_CHECK(e.empty(), "wire-headers", "%s stream %llu: %s", who, sid, e.c_str());
      SIM_CHECK(decoded.size() == headers.size(),
                "wire-headers",
                "%s stream %llu: %zu headers on the wire, %zu accepted",
                who,
                sid,
                decoded.size(),
                headers.size());
      for (size_t h = 0; h < headers.size(); h++) {
        SIM_CHECK(decoded[h] == headers[h],
                  "wire-headers",
                  "%s stream %llu: header %zu on the wire is {%s: %s}, accepted "
                  "{%s: %s}",
                  who,
                  sid,
                  h,
                  hex(decoded[h].name).c_str(),
                  hex(decoded[h].value).c_str(),
                  hex(headers[h].name).c_str(),
                  hex(headers[h].value).c_str());
      }
      seen_headers = true;
    }
    if (f.type == ref::DATA) {
      data += f.payload;
    }
  }
  SIM_CHECK(data.size() <= body.size() &&
              body.compare(0, data.size(), data) == 0,
            "wire-body",
            "%s stream %llu: %zu DATA payload bytes are no prefix of the %zu "
            "accepted",
            who,
            sid,
            data.size(),
            body.size());
  if (fin) {
    SIM_CHECK(finished,
              "wire-fin",
              "%s stream %llu: FIN on the wire but the message was not ended",
              who,
              sid);
    SIM_CHECK(rest == 0 && !frames.empty() && frames.back().complete,
              "wire-fin",
              "%s stream %llu: FIN inside a frame",
              who,
              sid);
    SIM_CHECK(seen_headers && data.size() == body.size(),
              "wire-fin",
              "%s stream %llu: FIN after %zu of %zu body bytes",
              who,
              sid,
              data.size(),
              body.size());
  }
}

void
check_control_wire(const char *who, const std::string &sent, bool fin)
{
  SIM_CHECK(!fin, "wire-control", "%s ended its control stream", who);
  if (sent.empty()) {
    return;
  }
  size_t pos = 0;
  uint64_t type = 0;
  if (!ref::varint_parse(sent, pos, type)) {
    return;
  }
  SIM_CHECK(type == 0,
            "wire-control",
            "%s control stream has type 0x%llx",
            who,
            static_cast<unsigned long long>(type));
  size_t rest = 0;
  std::vector<ref::Frame> frames = ref::frames_parse(sent, pos, rest);
  for (size_t i = 0; i < frames.size(); i++) {
    const ref::Frame &f = frames[i];
    SIM_CHECK(i != 0 || f.type == ref::SETTINGS,
              "wire-control",
              "%s: first control frame has type 0x%llx",
              who,
              static_cast<unsigned long long>(f.type));
    SIM_CHECK(i == 0,
              "wire-control",
              "%s: extra control frame of type 0x%llx",
              who,
              static_cast<unsigned long long>(f.type));
    if (f.complete) {
      ref::Settings s;
      std::string e = ref::settings_parse(f.payload, s);
      SIM_CHECK(e.empty(), "wire-control", "%s: %s", who, e.c_str());
      SIM_CHECK(s.qpack_max_table_capacity == 0 && s.qpack_blocked_streams == 0 &&
                  s.num_placeholders == 0 &&
                  s.max_header_list_size == ref::VARINT_MAX,
                "wire-control",
                "%s: advertised settings differ from the defaults",
                who);
    }
  }
}

}
