// A TCP port for a server of these harnesses.
#pragma once
#include <arpa/inet.h>
#include <netinet/in.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

namespace {

// A port nobody else of these harnesses uses: the abstract socket name is held while the object lives.
struct Port {
  int fd = -1;
  uint16_t port = 0;
  Port() {
    static uint32_t next = 0;
    if (next == 0) next = static_cast<uint32_t>(getpid()) * 37u;
    for (int tries = 0; tries < 4000; tries++) {
      uint16_t p = static_cast<uint16_t>(20000 + next++ % 12000);
      int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
      sockaddr_un a{};
      a.sun_family = AF_UNIX;
      int n = snprintf(a.sun_path + 1, sizeof(a.sun_path) - 1, "vp-store-%u", p);
      if (bind(s, reinterpret_cast<sockaddr*>(&a), static_cast<socklen_t>(offsetof(sockaddr_un, sun_path) + 1 + n)) != 0) {
        close(s);
        continue;
      }
      int t = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
      int one = 1;
      setsockopt(t, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
      sockaddr_in in{};
      in.sin_family = AF_INET;
      in.sin_port = htons(p);
      in.sin_addr.s_addr = INADDR_ANY;
      bool free_ = bind(t, reinterpret_cast<sockaddr*>(&in), sizeof(in)) == 0 && listen(t, 1) == 0;
      close(t);
      if (!free_) {
        close(s);
        continue;
      }
      fd = s;
      port = p;
      return;
    }
    fprintf(stderr, "no free port\n");
    exit(3);
  }
  ~Port() { close(fd); }
  Port(const Port&) = delete;
};

}  // namespace
