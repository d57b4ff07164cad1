// A strict JSON reader (RFC 8259), for checking what the code under test writes.
#pragma once
#include <string>
#include <utility>
#include <vector>

namespace tjson {
struct Value {
  char type = '?'; // o s n l(iteral)
  std::string text; // string contents (as UTF-8), or the number or literal as written
  std::vector<std::pair<std::string, Value>> members;
  Value const* get(char const* k) const {
    for (auto& m : members) if (m.first == k) return &m.second;
    return nullptr;
  }
};
inline bool valid_utf8(std::string const& s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = (unsigned char)s[i];
    int n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1;
    if (n < 0 || i + (size_t)n >= s.size()) return false;
    for (int k = 1; k <= n; k++) if (((unsigned char)s[i + (size_t)k] & 0xC0) != 0x80) return false;
    if (n == 2 && ((c == 0xE0 && (unsigned char)s[i + 1] < 0xA0) || (c == 0xED && (unsigned char)s[i + 1] > 0x9F))) return false;
    if (n == 3 && ((c == 0xF0 && (unsigned char)s[i + 1] < 0x90) || (c == 0xF4 && (unsigned char)s[i + 1] > 0x8F))) return false;
    i += (size_t)n + 1;
  }
  return true;
}
struct Reader {
  std::string const& s;
  size_t i = 0;
  explicit Reader(std::string const& t) : s(t) {}
  void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++; }
  bool lit(char c) { ws(); if (i < s.size() && s[i] == c) { i++; return true; } return false; }
  static void utf8(std::string& o, unsigned c) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) o += (char)(0xC0 | c >> 6), o += (char)(0x80 | (c & 63));
    else if (c < 0x10000) o += (char)(0xE0 | c >> 12), o += (char)(0x80 | (c >> 6 & 63)), o += (char)(0x80 | (c & 63));
    else o += (char)(0xF0 | c >> 18), o += (char)(0x80 | (c >> 12 & 63)), o += (char)(0x80 | (c >> 6 & 63)), o += (char)(0x80 | (c & 63));
  }
  bool hex4(unsigned& v) {
    v = 0;
    for (int k = 0; k < 4; k++, i++) {
      if (i >= s.size()) return false;
      char c = s[i];
      v = v * 16 + (unsigned)(c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99);
      if (! ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) return false;
    }
    return true;
  }
  bool string(std::string& o) {
    if (! lit('"')) return false;
    while (i < s.size()) {
      unsigned char c = (unsigned char)s[i++];
      if (c == '"') return true;
      if (c < 0x20) return false;
      if (c != '\\') { o += (char)c; continue; }
      if (i >= s.size()) return false;
      c = (unsigned char)s[i++];
      switch (c) {
      case '"': case '\\': case '/': o += (char)c; break;
      case 'b': o += '\b'; break;
      case 'f': o += '\f'; break;
      case 'n': o += '\n'; break;
      case 'r': o += '\r'; break;
      case 't': o += '\t'; break;
      case 'u': {
        unsigned v, w;
        if (! hex4(v)) return false;
        if (v >= 0xD800 && v < 0xDC00) {
          if (i + 1 >= s.size() || s[i] != '\\' || s[i + 1] != 'u') return false;
          i += 2;
          if (! hex4(w) || w < 0xDC00 || w > 0xDFFF) return false;
          v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
        }
        else if (v >= 0xDC00 && v < 0xE000) return false;
        utf8(o, v);
        break;
      }
      default: return false;
      }
    }
    return false;
  }
  bool value(Value& v, int depth = 0) {
    ws();
    if (i >= s.size() || depth > 8) return false;
    if (s[i] == '"') { v.type = 's'; return string(v.text); }
    if (s[i] == '{') {
      v.type = 'o';
      i++;
      if (lit('}')) return true;
      for (;;) {
        std::pair<std::string, Value> m;
        ws();
        if (! string(m.first) || ! lit(':') || ! value(m.second, depth + 1)) return false;
        v.members.push_back(std::move(m));
        if (lit('}')) return true;
        if (! lit(',')) return false;
      }
    }
    size_t b = i;
    for (char const* w : {"null", "true", "false"})
      if (s.compare(i, std::char_traits<char>::length(w), w) == 0) { v.type = 'l'; v.text = w; i += v.text.size(); return true; }
    if (s[i] == '-') i++;
    if (i >= s.size() || s[i] < '0' || s[i] > '9') return false;
    if (s[i] == '0') i++;
    else while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++;
    v.type = 'n';
    v.text = s.substr(b, i - b);
    return true;
  }
};
inline bool parse(std::string const& s, Value& v) {
  Reader r(s);
  if (! r.value(v)) return false;
  r.ws();
  return r.i == s.size();
}
} // namespace tjson
