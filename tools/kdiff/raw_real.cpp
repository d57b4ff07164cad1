// raw_real DIR < plans: for each plan, its changes in DIR, and what the real kernel says of them
#include <cstdio>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
namespace fs = std::filesystem;
void raw_start(std::string const&, std::string const&);
void raw_mark(std::string const&);
void raw_look(std::string const&);
std::string raw_drain();
static void touch(std::string const& p, int fl, bool w) { int f = open(p.c_str(), fl, 0644); if (f >= 0) { if (w && write(f, "x", 1)) {} close(f); } }
static std::map<std::string, int> held;
int main(int, char** argv) {
  std::string r = argv[1], line;
  while (std::getline(std::cin, line)) {
    std::istringstream i(line);
    std::string op, t, v, a, b;
    i >> op >> t >> v >> a >> b;
    if (op != "op") continue;
    std::string A = r + a, B = r + b;
    auto c = [](std::string const& s) { return s.c_str(); };
    if (v == "setup") fs::create_directories(A);
    else if (v == "open") raw_start(r, b);
    else if (v == "mark") raw_mark(a);
    else if (v == "mkdir") mkdir(c(A), 0755);
    else if (v == "create") touch(A, O_CREAT | O_EXCL | O_WRONLY, false);
    else if (v == "write") touch(A, O_WRONLY | O_NOFOLLOW | O_NONBLOCK, true);
    else if (v == "unlink") unlink(c(A));
    else if (v == "rmdir") rmdir(c(A));
    else if (v == "many") for (long k = 0; k < std::stol(a); k++) {
      std::string n = B + std::to_string(k);
      touch(n, O_CREAT | O_EXCL | O_WRONLY, false);
      if (k % 3 == 0) touch(n, O_WRONLY | O_NOFOLLOW | O_NONBLOCK, true);
      if (k % 2 == 0) unlink(c(n));
    }
    else if (v == "look") raw_look(a);
    else if (v == "hold") { if (! held.count(A)) if (int f = open(c(A), O_PATH | O_NOFOLLOW | O_CLOEXEC); f >= 0) held[A] = f; }
    else if (v == "unhold") { if (held.count(A)) close(held[A]), held.erase(A); }
    else if (v == "rename") rename(c(A), c(B));
    else if (v == "xchg") { if (renameat2(AT_FDCWD, c(A), AT_FDCWD, c(B), 2 /* RENAME_EXCHANGE */)) {} }
    else if (v == "link") { if (link(c(A), c(B))) {} }
    else if (v == "symlink") { if (symlink(a.compare(0, 2, "/w") ? c(a) : c(A), c(B))) {} }
    else if (v == "fifo") mkfifo(c(A), 0644);
    else if (v == "chmod") { struct stat s; if (! lstat(c(A), &s) && ! S_ISLNK(s.st_mode)) chmod(c(A), s.st_mode ^ 0100); }
    else if (v == "read") touch(A, O_RDONLY | O_NONBLOCK | O_NOFOLLOW, false);
    else if (v == "drain") { printf("%s--\n", raw_drain().c_str()); fflush(stdout); }
  }
}
