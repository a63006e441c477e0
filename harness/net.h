// Sockets: descriptors, bound and destination addresses, scripted datagrams. Include after blk.h and before the code under test.
#pragma once
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/un.h>
#include <sys/time.h>
#include <unistd.h>
#include <cerrno>
#include <mutex>
#include <sstream>
#include <stdexcept>
#undef close
namespace net {
static unsigned opens, closes, binds, unlinks; static bool isOpen[16]; static int family; static sockaddr_storage bound; static char unlinked[128];
static int nfaults; static bool failed; static bool fault(const char* w) { if (!nfaults || !sym_choose(w, 2)) return false; nfaults--; failed = true; errno = EADDRINUSE; return true; }
static bool ok(int fd) { bool o = fd >= 0 && fd < 16 && isOpen[fd]; CHECK(o, "only an open socket is used"); return o; }
static int n_socket(int f, int t, int) { CHECK(t == SOCK_DGRAM, "a datagram socket"); if (fault("socket")) return -1; if (opens >= 16) return -1; family = f; isOpen[opens] = true; return opens++; }
static int n_close(int fd) { if (ok(fd)) { isOpen[fd] = false; closes++; } return 0; }
static int n_setsockopt(int fd, int, int, const void* p, socklen_t n) { ok(fd); sym_touch(p, n, 0); return fault("setsockopt") ? -1 : 0; }
static int n_bind(int fd, const sockaddr* a, socklen_t n) { ok(fd); if (fault("bind")) return -1; binds++; memcpy(&bound, a, n); return 0; }
static int n_unlink(const char* p) { unlinks++; strncpy(unlinked, p, 127); return 0; }
static bool goodHost = true; static unsigned hosts; static uint8_t hostBytes[16]; static char hostText[160];
static int n_pton(int f, const char* t, void* d) { hosts++; strncpy(hostText, t, 159); if (!goodHost) return 0; memcpy(d, hostBytes, f == AF_INET ? 4 : 16); return 1; }
static ssize_t onRecv(uint8_t* b, size_t n, bool& trunc); static ssize_t onSend(const uint8_t* b, size_t n, const sockaddr* a, socklen_t l);
static ssize_t n_recvmsg(int fd, msghdr* m, int) { if (!ok(fd)) return -1; size_t t = 0; for (size_t i = 0; i < m->msg_iovlen; i++) { sym_touch(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, 1); t += m->msg_iov[i].iov_len; } CHECK(m->msg_iovlen == 1, "one buffer"); bool tr = false; ssize_t r = onRecv((uint8_t*)m->msg_iov[0].iov_base, t, tr); m->msg_flags = tr ? MSG_TRUNC : 0; return r; }
static ssize_t n_recvfrom(int fd, void* b, size_t n, int fl, sockaddr*, socklen_t*) { if (!ok(fd)) return -1; sym_touch(b, n, 1); bool tr = false; ssize_t r = onRecv((uint8_t*)b, n, tr); return r; }
static ssize_t n_sendto(int fd, const void* b, size_t n, int, const sockaddr* a, socklen_t l) { if (!ok(fd)) return -1; sym_touch(b, n, 0); sym_touch(a, l, 0); return onSend((const uint8_t*)b, n, a, l); }
}
#define socket(...) net::n_socket(__VA_ARGS__)
#define close(x) net::n_close(x)
#define setsockopt(...) net::n_setsockopt(__VA_ARGS__)
#define unlink(x) net::n_unlink(x)
#define inet_pton(...) net::n_pton(__VA_ARGS__)
#define recvmsg(...) net::n_recvmsg(__VA_ARGS__)
#define recvfrom(...) net::n_recvfrom(__VA_ARGS__)
#define sendto(...) net::n_sendto(__VA_ARGS__)
static int net_bind(int fd, const sockaddr* a, socklen_t n) { return net::n_bind(fd, a, n); }
#define bind net_bind
#include "desktop_blocks/blob.cpp"
#include "desktop_blocks/udp/shared.cpp"
