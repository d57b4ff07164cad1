// The C++ interface, as a user sees it.
#include "wtr/watcher.hpp"
#include "json.hpp"
#include <memory>
#include <sstream>
#include <string>

extern "C" {
void sim_event_n(int w, char const* path, size_t n, int effect, int kind, long long t,
                 int has_assoc, char const* apath, size_t an, int aeffect, int akind, long long atime);
void sim_fail(char const* cls, char const* msg);
int sim_cfg(char const* k, int d);
}

static std::string digits(long long v) {
  if (v == 0) return "0";
  bool neg = v < 0;
  unsigned long long u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v;
  std::string s;
  for (; u; u /= 10) s.insert(s.begin(), (char)('0' + u % 10));
  return neg ? "-" + s : s;
}
static std::string narrow(std::wstring const& w) {
  std::string s;
  for (wchar_t c : w) s += c < 128 ? (char)c : '?';
  return s;
}
static std::string visible(std::string const& s) {
  std::string o;
  for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c; }
  return o;
}
static void check_text(wtr::event const& e) {
  auto want = digits(e.effect_time);
  auto say = [&](std::string const& how, std::string const& got) {
    sim_fail("time.text", ("effect_time " + want + " as " + how + ": " + visible(got)).c_str());
  };
  if (auto s = wtr::to<std::string>(e.effect_time); s != want) say("narrow text", s);
  if (auto s = narrow(wtr::to<std::wstring>(e.effect_time)); s != want) say("wide text", s);
  auto begins = [&](std::string const& s) { return s.find("\"" + want + "\":{") == 0; };
  if (auto s = wtr::to<std::string>(e); ! begins(s)) say("narrow JSON", s.substr(0, 60));
  std::ostringstream o;
  o << e;
  if (! begins(o.str())) say("streamed JSON", o.str().substr(0, 60));
  bool ascii = true;
  for (unsigned char c : e.path_name.string()) if (c > 127) ascii = false;
  if (e.associated) for (unsigned char c : e.associated->path_name.string()) if (c > 127) ascii = false;
  if (ascii) { // wide paths depend on the locale otherwise
    if (auto s = narrow(wtr::to<std::wstring>(e)); ! begins(s)) say("wide JSON", s.substr(0, 60));
    std::wostringstream w;
    w << e;
    if (! begins(narrow(w.str()))) say("streamed wide JSON", narrow(w.str()).substr(0, 60));
  }
}

// the fields of one JSON object are those of the event
static bool same_fields(tjson::Value const& o, wtr::event const& e) {
  static char const* const ET[] = {"rename", "modify", "create", "destroy", "owner", "other"};
  static char const* const PT[] = {"dir", "file", "hard_link", "sym_link", "watcher", "other"};
  auto p = o.get("path_name"), et = o.get("effect_type"), pt = o.get("path_type");
  return o.type == 'o' && p && p->type == 's' && p->text == e.path_name.string()
      && et && et->type == 's' && et->text == ET[(int)e.effect_type] && pt && pt->type == 's' && pt->text == PT[(int)e.path_type];
}
static void check_json(wtr::event const& e) {
  std::string p = e.path_name.string(), a = e.associated ? e.associated->path_name.string() : "";
  if (! tjson::valid_utf8(p) || ! tjson::valid_utf8(a)) return; // JSON has no way to write these
  auto look = [&](char const* how, std::string const& text) {
    tjson::Value v;
    if (! tjson::parse("{" + text + "}", v)) return sim_fail("json.form", (std::string(how) + " is not JSON: " + visible(text).substr(0, 300)).c_str());
    bool ok = v.members.size() == 1 && v.members[0].first == digits(e.effect_time) && same_fields(v.members[0].second, e);
    if (ok) {
      auto as = v.members[0].second.get("associated");
      ok = e.associated ? as && same_fields(*as, *e.associated) : ! as || as->type == 'l';
    }
    if (! ok) sim_fail("json.value", (std::string(how) + " does not say what the event says: " + visible(text).substr(0, 300)).c_str());
  };
  look("the JSON form", wtr::to<std::string>(e));
  std::ostringstream o;
  o << e;
  look("the streamed JSON form", o.str());
  bool ascii = true;
  for (unsigned char c : p + a) if (c > 127) ascii = false;
  if (! ascii) return;
  look("the wide JSON form", narrow(wtr::to<std::wstring>(e)));
  std::wostringstream w;
  w << e;
  look("the streamed wide JSON form", narrow(w.str()));
}

// an event which is kept is the event it was
static void check_copy(wtr::event const& e) {
  wtr::event c(e);
  auto same = [](wtr::event const& a, wtr::event const& b) {
    return a.path_name == b.path_name && a.effect_type == b.effect_type && a.path_type == b.path_type;
  };
  if (c.effect_time != e.effect_time) sim_fail("time.copy", ("the copy of an event of " + digits(e.effect_time) + " is of " + digits(c.effect_time)).c_str());
  bool ok = same(c, e) && ! c.associated == ! e.associated && (! e.associated || (c.associated != e.associated && same(*c.associated, *e.associated)));
  if (! ok) sim_fail("report.copy", ("the copy of an event says something else: " + visible(wtr::to<std::string>(c)) + " for " + visible(wtr::to<std::string>(e))).c_str());
  else if (e.associated && c.associated->effect_time != e.associated->effect_time) sim_fail("time.copy", "the copy of an associated event has another time");
  if (! (c == e) || c != e) sim_fail("report.copy", "the copy of an event does not compare equal");
}

extern "C" void* sut_open(char const* path, int w) {
  bool text = sim_cfg("text", 0), json = sim_cfg("json", 0);
  return new wtr::watch(path, [w, text, json](wtr::event const& e) {
    if (text) check_text(e);
    if (json) check_json(e);
    check_copy(e);
    std::string p = e.path_name.string(), a;
    if (e.associated) a = e.associated->path_name.string();
    sim_event_n(w, p.data(), p.size(), (int)e.effect_type, (int)e.path_type, e.effect_time,
                e.associated != nullptr, a.data(), a.size(), e.associated ? (int)e.associated->effect_type : -1,
                e.associated ? (int)e.associated->path_type : -1, e.associated ? e.associated->effect_time : 0);
  });
}
extern "C" int sut_close(void* h, int) { return static_cast<wtr::watch*>(h)->close(); }
extern "C" void sut_destroy(void* h, int) { delete static_cast<wtr::watch*>(h); }
#ifndef SUT_CAPS
#define SUT_CAPS 1 | 2
#endif
extern "C" int sut_caps() { return SUT_CAPS; }
