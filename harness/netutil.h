// TCP helpers of the harnesses.
#ifndef VERIF_NETUTIL_H
#define VERIF_NETUTIL_H

#include "dap/io.h"
#include "dap/network.h"

#include "mon.h"

#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <sys/socket.h>

namespace netutil {

// Ports of this process alone, below the range the system takes client ports
// from: processes run side by side, also those of different harnesses and checks.
// Each claims a block by holding the block's first port for UDP (no TCP socket is
// disturbed by that) as long as it lives.
constexpr int kFirstPort = 10000, kBlockPorts = 170, kBlocks = 128;
inline int claimPorts() {
  // Not through the wrapped calls: the descriptor is nobody's business.
  int fd = int(syscall(SYS_socket, AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0));
  int start = int(mon::mix(uint64_t(getpid())) % kBlocks);
  for (int k = 0; fd >= 0 && k < kBlocks; k++) {
    int block = (start + k) % kBlocks;
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(uint16_t(kFirstPort + block * kBlockPorts));
    if (syscall(SYS_bind, fd, &a, sizeof a) == 0) {
      return block;
    }
  }
  return start;
}
inline int portBlock() {
  static int block = claimPorts();
  return block;
}
namespace {
// Before anything counts descriptors.
int claimedAtStart __attribute__((unused)) = portBlock();
}  // namespace
inline int randomPort(mon::Rng& r) { return kFirstPort + portBlock() * kBlockPorts + int(r.below(kBlockPorts)); }

// Starts the server on some free port; 0 is never returned.
inline int startServer(mon::Rng& r, dap::net::Server* s, const dap::net::Server::OnConnect& cb) {
  for (int k = 0; k < 200; k++) {
    int p = randomPort(r);
    if (s->start(p, cb)) {
      return p;
    }
  }
  mon::inconclusive("no free port found");
}

// A connected pair: the library's client end and the library's server end.
struct Tcp {
  std::unique_ptr<dap::net::Server> server;
  std::shared_ptr<dap::ReaderWriter> client, peer;
  int port = 0;
};
inline Tcp connectPair(mon::Rng& r) {
  Tcp t;
  t.server = dap::net::Server::create();
  struct Slot {
    mon::Gate g;
    std::shared_ptr<dap::ReaderWriter> c;
  };
  auto slot = std::make_shared<Slot>();
  t.port = startServer(r, t.server.get(), [slot](const std::shared_ptr<dap::ReaderWriter>& c) {
    slot->c = c;
    slot->g.open();
  });
  t.client = dap::net::connect("127.0.0.1", t.port);
  CHECK(bool(t.client), "cannot connect to a server that was started");
  slot->g.wait();
  t.peer = slot->c;
  slot->c.reset();
  CHECK(bool(t.peer), "the server handed over no connection");
  return t;
}

// Raw sockets, for peers that do not use the library.
inline int rawListen(mon::Rng& r, int* port, int backlog = 8) {
  for (int k = 0; k < 200; k++) {
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    int one = 1;
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    *port = randomPort(r);
    a.sin_port = htons(uint16_t(*port));
    if (bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0 && listen(fd, backlog) == 0) {
      return fd;
    }
    close(fd);
  }
  mon::inconclusive("no free port found");
}
inline int rawConnect(int port) {
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  a.sin_port = htons(uint16_t(port));
  if (connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) {
    close(fd);
    return -1;
  }
  return fd;
}

}  // namespace netutil

#endif
