// Between the simulator and the Rust program in sut/rust.
#include "tap.hpp"
#include "json.hpp"
#include <cstdlib>
#include <cstring>
#include <vector>

struct User;
extern "C" {
void sim_fail(char const* cls, char const* msg);
void sim_probe(char const*);
void sim_quiet(int);
User* rs_open(char const*);
int rs_try(unsigned char const*, size_t, int);
int rs_close(User*);
void rs_drop(User*);
int rs_ready(User*);
int rs_poll(User*, int, void (*)(int, unsigned char const*, size_t, int, int, long long, int, unsigned char const*, size_t, unsigned char const*, size_t));
void __cyg_profile_func_enter(void*, void*);
void mcount() { __cyg_profile_func_enter((void*)mcount, nullptr); } // entry of every Rust function
}
namespace {
struct Quiet { Quiet() { sim_quiet(1); } ~Quiet() { sim_quiet(0); } };
struct Mine { int w; User* u; };
std::vector<Mine> users;
void take(int w, unsigned char const* p, size_t n, int effect, int kind, long long t, int has, unsigned char const* a, size_t an, unsigned char const* j, size_t jn) {
  {
    static char const* const ET[] = {"rename", "modify", "create", "destroy", "owner", "other"};
    static char const* const PT[] = {"dir", "file", "hard_link", "sym_link", "watcher", "other"};
    Quiet q;
    std::string s((char const*)j, jn);
    tjson::Value v;
    auto is = [&](char const* k, char type, std::string const& x) { auto* m = v.get(k); return m && m->type == type && m->text == x; };
    if (! tjson::parse(s, v)) sim_fail("json.form", ("the event's JSON is not JSON: " + s.substr(0, 300)).c_str());
    else if (v.type != 'o' || v.members.size() != 5 || ! is("effect_time", 'n', std::to_string(t)) || ! is("path_name", 's', std::string((char const*)p, n))
             || ! (has ? is("associated_path_name", 's', std::string((char const*)a, an)) : is("associated_path_name", 'l', "null"))
             || ! is("effect_type", 's', ET[effect]) || ! is("path_type", 's', PT[kind]))
      sim_fail("json.value", ("the event's JSON says " + s.substr(0, 300)).c_str());
  }
  tap_deliver(w, std::string((char const*)p, n), has, a ? std::string((char const*)a, an) : "", effect, kind, t, TAP_LOSSY);
}
int poll_once(User* u, int w) {
  int r = rs_poll(u, w, take);
  if (r == 2) { sim_fail("bind.end", "the stream ends while its watch is still there"); return 0; }
  return r;
}
} // namespace
extern "C" void* sut_open(char const* path, int w) {
  tap_next(w);
  User* u = rs_open(path);
  if (! u) sim_fail("bind.open", "the watch cannot be made");
  users.push_back({w, u});
  return u;
}
extern "C" int sut_close(void* h, int w) {
  (void)w;
  return rs_close((User*)h);
}
extern "C" void sut_destroy(void* h, int w) {
  if (tap_closed(w)) {
    while (poll_once((User*)h, w)) {}
    tap_empty(w, "after close");
  } else if (tap_waiting(w)) sim_probe("dropped-with-its-events");
  tap_forget(w);
  for (size_t i = 0; i < users.size(); i++) if (users[i].u == h) { users.erase(users.begin() + (long)i); break; }
  rs_drop((User*)h);
}
extern "C" int sut_caps() { return 1 | 2; }
extern "C" int sut_pump() {
  for (size_t i = 0; i < users.size(); i++) if (poll_once(users[i].u, users[i].w)) return 1;
  return 0;
}
extern "C" int sut_pump_ready() {
  for (auto& m : users) if (rs_ready(m.u)) return 1;
  return 0;
}
extern "C" void sut_settled() {
  for (auto& m : users) tap_empty(m.w, "when all is quiet");
}
extern "C" void sut_op(char const* verb, char const* n, char const* k) {
  if (! strcmp(verb, "odd")) {
    int how = TRIAL_REFUSE;
    bool must = true;
    std::string p = odd_path(n, atoi(k), how, must);
    if (p.empty()) return;
    tap_trial(how, p.data(), p.size());
    int r = rs_try((unsigned char const*)p.data(), p.size(), atoi(k) & 1);
    if (r == 2) sim_fail("bind.exception", "try_new panics");
    tap_trial_end(n, r != 1, must, "Err");
    return;
  }
  for (int i = std::atoi(n); i > 0; i--) if (! sut_pump()) return;
}
