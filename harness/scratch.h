// Scratch directories made and removed by the harness.
#pragma once
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>

namespace vp {

using Bytes = std::vector<uint8_t>;

// A directory of its own for every run; the main process creates it and removes it at the end.
inline std::string& scratchRoot() {
  static std::string s;
  return s;
}
inline void removeTree(const std::string& dir) {  // one level of files and directories made by the harness
  if (dir.find("/vp-scratch.") == std::string::npos) return;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = dir + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) removeTree(p);
      else unlink(p.c_str());
    }
    closedir(d);
  }
  rmdir(dir.c_str());
}
inline void makeScratchRoot() {
  for (const char* base : {"/dev/shm", "/tmp"}) {
    std::string t = std::string(base) + "/vp-scratch.XXXXXX";
    if (mkdtemp(&t[0])) {
      scratchRoot() = t;
      return;
    }
  }
  fprintf(stderr, "no scratch directory\n");
  exit(3);
}
// A fresh path for this process (files of earlier cases are removed).
inline std::string scratchPath(const std::string& name) {
  static pid_t owner = 0;
  static std::string dir;
  if (owner != getpid()) {
    owner = getpid();
    dir = scratchRoot() + "/" + std::to_string(owner);
    mkdir(dir.c_str(), 0700);
  }
  return dir + "/" + name;
}
inline void writeFile(const std::string& path, const Bytes& b) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  size_t done = 0;
  while (done < b.size()) {
    ssize_t k = write(fd, b.data() + done, b.size() - done);
    if (k <= 0) abort();
    done += static_cast<size_t>(k);
  }
  close(fd);
}
inline bool readFile(const std::string& path, Bytes& out) {
  int fd = open(path.c_str(), O_RDONLY);
  if (fd < 0) return false;
  struct stat st;
  fstat(fd, &st);
  out.resize(static_cast<size_t>(st.st_size));
  size_t done = 0;
  while (done < out.size()) {
    ssize_t k = read(fd, out.data() + done, out.size() - done);
    if (k <= 0) break;
    done += static_cast<size_t>(k);
  }
  close(fd);
  return done == out.size();
}

}  // namespace vp
