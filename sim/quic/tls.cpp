#include "tls.hpp"

#include "gen.hpp"

namespace qsim {

bytes
message(uint8_t type, const bytes &body)
{
  bytes out;
  out.push_back(static_cast<char>(type));
  out.push_back(static_cast<char>(body.size() >> 16U));
  out.push_back(static_cast<char>(body.size() >> 8U));
  out.push_back(static_cast<char>(body.size()));
  return out + body;
}

bool
take_message(bytes &in, Message &out, bytes &raw)
{
  if (in.size() < 4) {
    return false;
  }
  size_t n = static_cast<size_t>(static_cast<uint8_t>(in[1])) << 16U |
             static_cast<size_t>(static_cast<uint8_t>(in[2])) << 8U | static_cast<uint8_t>(in[3]);
  if (in.size() < 4 + n) {
    return false;
  }
  out.type = static_cast<uint8_t>(in[0]);
  out.body = in.substr(4, n);
  raw = in.substr(0, 4 + n);
  in.erase(0, 4 + n);
  return true;
}

void
put_field(bytes &out, const bytes &value)
{
  out.push_back(static_cast<char>(value.size() >> 8U));
  out.push_back(static_cast<char>(value.size()));
  out += value;
}

bool
get_field(const bytes &in, size_t &pos, bytes &value)
{
  if (pos + 2 > in.size()) {
    return false;
  }
  size_t n = static_cast<size_t>(static_cast<uint8_t>(in[pos])) << 8U |
             static_cast<uint8_t>(in[pos + 1]);
  pos += 2;
  if (pos + n > in.size()) {
    return false;
  }
  value = in.substr(pos, n);
  pos += n;
  return true;
}

void
Schedule::handshake(const prim::Suite &suite, const bytes &client_random, const bytes &server_random)
{
  secrets.suite = suite;
  shared = prim::prf("shared", { client_random, server_random }, 32);
  secrets.c_hs = prim::prf("c hs traffic", { shared, transcript }, suite.hash);
  secrets.s_hs = prim::prf("s hs traffic", { shared, transcript }, suite.hash);
  secrets.handshake = true;
}

void
Schedule::application()
{
  secrets.c_ap = prim::prf("c ap traffic", { shared, transcript }, secrets.suite.hash);
  secrets.s_ap = prim::prf("s ap traffic", { shared, transcript }, secrets.suite.hash);
  secrets.application = true;
}

bytes
Schedule::finished(bool client) const
{
  return prim::prf("finished", { client ? secrets.c_hs : secrets.s_hs, transcript }, 32);
}

void
TlsServer::recv(int level, const bytes &data)
{
  if (failed) {
    return;
  }
  in_[level] += data;
  Message m;
  bytes raw;
  while (take_message(in_[level], m, raw)) {
    if (level == 0 && m.type == CLIENT_HELLO && !hello_) {
      client_hello(m, raw);
    } else if (level == 1 && m.type == FINISHED && hello_ && !done) {
      if (m.body != expected_finished_) {
        failed = true;
        why = "the client's Finished does not verify";
        return;
      }
      done = true;
    } else {
      failed = true;
      why = "unexpected handshake message";
      return;
    }
  }
}

void
TlsServer::client_hello(const Message &m, const bytes &raw)
{
  hello_ = true;
  size_t pos = 0;
  bytes random;
  if (!get_field(m.body, pos, random) || !get_field(m.body, pos, client_alpn) ||
      !get_field(m.body, pos, client_name) || !get_field(m.body, pos, client_params) ||
      pos != m.body.size()) {
    failed = true;
    why = "malformed ClientHello";
    return;
  }
  schedule.transcript += raw;
  bytes mine = sim::random_bytes(ctx_, 32, 4);
  bytes body;
  put_field(body, mine);
  prim::Suite announced = suite_;
  if (fault_ == TlsFault::suite) {
    announced.id = 0x03001304U;
  }
  bytes id;
  for (int i = 3; i >= 0; i--) {
    id.push_back(static_cast<char>(announced.id >> (8 * i)));
  }
  put_field(body, id);
  bytes hello = message(SERVER_HELLO, body);
  if (fault_ == TlsFault::garbage) {
    hello = message(static_cast<uint8_t>(ctx_.range(100, 200)), body);
  }
  schedule.transcript += hello;
  send(0, hello);
  schedule.handshake(suite_, random, mine);
  secrets(1);
  body.clear();
  put_field(body, fault_ == TlsFault::alpn ? bytes("\x05other") : client_alpn);
  bytes tp = params;
  if (fault_ == TlsFault::params) {
    if (tp.size() > 4 && ctx_.pick(2) != 0) {
      tp.resize(tp.size() - 1);
    } else {
      tp += "\xff";
    }
  }
  put_field(body, tp);
  bytes flight;
  auto add = [&](uint8_t type, const bytes &b) {
    bytes r = message(type, b);
    schedule.transcript += r;
    flight += r;
  };
  add(ENCRYPTED_EXTENSIONS, body);
  add(CERTIFICATE, bytes(certificate, 'c'));
  bytes fin = schedule.finished(false);
  if (fault_ == TlsFault::finished) {
    fin[ctx_.pick(fin.size())] ^= static_cast<char>(1U << ctx_.pick(8));
  }
  add(FINISHED, fin);
  send(fault_ == TlsFault::level ? 0 : 1, flight);
  schedule.application();
  expected_finished_ = schedule.finished(true);
  secrets(2);
}

}
