// C21: every address text up to LEN bytes (after PRE): what is accepted, what it means, and that a refused one leaves nothing open.
#include "../blk.h"
static uint64_t clk; extern "C" uint64_t verif_clock_ns() { return clk += 1000; }
#include "../net.h"
static sockaddr_storage dest; static socklen_t destLen; static unsigned sends;
ssize_t net::onRecv(uint8_t*, size_t, bool&) { errno = EAGAIN; return -1; }
ssize_t net::onSend(const uint8_t*, size_t n, const sockaddr* a, socklen_t l) { sends++; memcpy(&dest, a, l); destLen = l; return n; }
using namespace UDPBlock;
static bool sameText(const char* a, const char* b, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) r = r & (a[i] == b[i]); return r & !a[n]; }
extern "C" void harness() {
  static char t[160]; size_t n = strlen(PRE); memcpy(t, PRE, n); size_t extra = (size_t)sym_concretize(sym_range("length", 0, LEN)); for (size_t i = 0; i < extra; i++) { t[n] = (char)sym_bits("char", 8); sym_assume(t[n] != 0); n++; } 
  if (LONG) { unsigned k = 106 + sym_choose("long", 4); while (n < k) { t[n] = (char)('a' + n % 7); n++; } } t[n] = 0; std::string text(t, n);
  SocketType ty = TYPE == 0 ? SocketType::INET_UDP : TYPE == 1 ? SocketType::INET6_UDP : SocketType::UNIX_DGRAM;
  bool good = true; size_t hostLen = n; uint64_t port = 0;
  if (TYPE != 2) { size_t c = n; for (size_t i = 0; i < n; i++) if (t[i] == ':') c = i; good = c < n; if (good) { hostLen = c; good = c + 1 < n; for (size_t i = c + 1; i < n; i++) { if (t[i] < '0' || t[i] > '9') { good = false; break; } if (port <= 65535) port = port * 10 + (uint64_t)(t[i] - '0'); } if (port > 65535) good = false; } }
  bool textGood = good;
  try { ParsedAddress p = parse_address_string(ty, text); CHECK(textGood, "only a text with a decimal port of at most 65535 is accepted"); if (!textGood) return; CHECK(p.port == port, "the port is the one written"); CHECK(p.address.size() == hostLen && sameText(p.address.c_str(), t, hostLen), "the host is what stands before the last separator"); sym_reach("accepted"); } catch (const std::exception&) { CHECK(!textGood, "every well-formed address is accepted"); sym_reach("refused"); }
  net::nfaults = IOFAULTS; net::goodHost = IOFAULTS || sym_choose("host", 2); for (auto& b : net::hostBytes) b = (uint8_t)sym_bits("host", 8);
  if (sym_choose("side", 2) == 0) {
    bool want = textGood && hostLen > 0 && (TYPE == 2 ? n < sizeof(sockaddr_un::sun_path) : net::goodHost);
    try { auto s = GenericDatagramSocket::make_sender(ty, text); CHECK(want && !net::failed, "only a well-formed destination is accepted"); if (!want) return; uint8_t x = 1; CHECK(s.is_valid() && s.send(&x, 1) == 1 && sends == 1, "an accepted destination can be sent to");
      if (TYPE == 0) { auto* a = (sockaddr_in*)&dest; CHECK(a->sin_family == AF_INET && net::family == AF_INET && destLen >= sizeof *a && ntohs(a->sin_port) == port && !memcmp(&a->sin_addr, net::hostBytes, 4), "items go to the address and port written"); }
      if (TYPE == 1) { auto* a = (sockaddr_in6*)&dest; CHECK(a->sin6_family == AF_INET6 && net::family == AF_INET6 && destLen >= sizeof *a && ntohs(a->sin6_port) == port && !memcmp(&a->sin6_addr, net::hostBytes, 16), "items go to the address and port written"); }
      if (TYPE == 2) { auto* a = (sockaddr_un*)&dest; CHECK(a->sun_family == AF_UNIX && net::family == AF_UNIX && sameText(a->sun_path, t, n), "items go to the path written"); CHECK(!net::unlinks, "a sender removes nothing"); } else CHECK(sameText(net::hostText, t, hostLen), "the host is the one written");
      sym_reach("sender"); } catch (const std::exception&) { CHECK(!want || net::failed, "every well-formed destination is accepted"); }
  } else {
    bool want = textGood && (TYPE == 2 ? n < sizeof(sockaddr_un::sun_path) : 1); unsigned u0 = net::unlinks;
    try { auto s = GenericDatagramSocket::make_receiver(ty, text); CHECK(want && !net::failed, "only a well-formed address is bound"); if (!want) return; CHECK(s.is_valid() && net::binds == 1, "an accepted address is bound once");
      if (TYPE == 0) { auto* a = (sockaddr_in*)&net::bound; CHECK(a->sin_family == AF_INET && net::family == AF_INET && ntohs(a->sin_port) == port, "the port bound is the one written"); }
      if (TYPE == 1) { auto* a = (sockaddr_in6*)&net::bound; CHECK(a->sin6_family == AF_INET6 && net::family == AF_INET6 && ntohs(a->sin6_port) == port, "the port bound is the one written"); }
      if (TYPE == 2) { auto* a = (sockaddr_un*)&net::bound; CHECK(a->sun_family == AF_UNIX && net::family == AF_UNIX && sameText(a->sun_path, t, n), "the path bound is the one written"); u0 = net::unlinks; }
      sym_reach("receiver"); } catch (const std::exception&) { CHECK(!want || net::failed, "every well-formed address is bound"); }
    if (net::binds && TYPE == 2) CHECK(net::unlinks == u0 + (n > 0) && sameText(net::unlinked, t, n), "the path bound is removed at the end"); if (TYPE != 2) CHECK(!net::unlinks, "no file is removed for a network address");
  }
  CHECK(net::opens == net::closes, "no socket stays open"); if (net::failed) sym_reach("failed"); sym_reach("end");
}
