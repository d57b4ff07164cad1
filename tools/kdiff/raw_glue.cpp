#include <cstdio>
#include <cstring>
#include <string>
void raw_start(std::string const&, std::string const&);
void raw_mark(std::string const&);
void raw_look(std::string const&);
std::string raw_drain();
extern "C" {
void sim_quiet(int);
void* sut_open(char const* path, int) { raw_start("", path); return (void*)1; }
int sut_close(void*, int) { return 1; }
void sut_destroy(void*, int) {}
int sut_caps() { return 0; }
void sut_op(char const* v, char const* a, char const*) {
  if (! strcmp(v, "mark")) raw_mark(a);
  if (! strcmp(v, "look")) raw_look(a);
  if (! strcmp(v, "drain")) {
    std::string o = raw_drain();
    sim_quiet(1);
    printf("%s--\n", o.c_str()), fflush(stdout);
    if (! strcmp(a, "end")) __builtin_trap();
    sim_quiet(0);
  }
}
}
