// Minimal JSON reader (objects, arrays, ints, strings, booleans), enough for the behaviours TLC emits.
#pragma once
#include <map>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
struct JV {
  enum T { NUL, INT, STR, BOOL, ARR, OBJ } t = NUL;
  long i = 0; bool b = false; std::string s; std::vector<JV> a; std::map<std::string, JV> o;
  std::string raw;
  bool has(const std::string& k) const { return t == OBJ && o.count(k); }
  const JV& operator[](const std::string& k) const {
    auto it = o.find(k); if (it == o.end()) throw std::runtime_error("missing key " + k); return it->second; }
  const JV& operator[](size_t k) const { if (k >= a.size()) throw std::runtime_error("index"); return a[k]; }
  size_t size() const { return a.size(); }
  long I(const std::string& k, long d) const { return has(k) ? o.at(k).i : d; }
  std::string S(const std::string& k, const std::string& d) const { return has(k) ? o.at(k).s : d; }
  bool B(const std::string& k, bool d) const { return has(k) ? o.at(k).b : d; }
};
struct JP {
  const char* p; const char* e;
  void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
  JV parse() {
    ws(); const char* st = p; JV v = val(); v.raw = std::string(st, p - st); return v; }
  JV val() {
    ws(); JV v; if (p >= e) throw std::runtime_error("eof");
    if (*p == '{') { const char* st = p; v.t = JV::OBJ; ++p; ws(); if (*p == '}') { ++p; v.raw = "{}"; return v; }
      while (true) { ws(); std::string k = str(); ws(); if (*p != ':') throw std::runtime_error("colon"); ++p; v.o[k] = val(); ws();
        if (*p == ',') { ++p; continue; } if (*p == '}') { ++p; break; } throw std::runtime_error("obj"); }
      v.raw = std::string(st, p - st); return v; }
    if (*p == '[') { v.t = JV::ARR; ++p; ws(); if (*p == ']') { ++p; return v; }
      while (true) { v.a.push_back(val()); ws(); if (*p == ',') { ++p; continue; } if (*p == ']') { ++p; break; } throw std::runtime_error("arr"); }
      return v; }
    if (*p == '"') { v.t = JV::STR; v.s = str(); return v; }
    if (*p == 't') { v.t = JV::BOOL; v.b = true; p += 4; return v; }
    if (*p == 'f') { v.t = JV::BOOL; v.b = false; p += 5; return v; }
    if (*p == 'n') { p += 4; return v; }
    char* q; v.t = JV::INT; v.i = strtol(p, &q, 10); if (q == p) throw std::runtime_error("num"); p = q; return v;
  }
  std::string str() {
    if (*p != '"') throw std::runtime_error("str"); ++p; std::string r;
    while (p < e && *p != '"') { if (*p == '\\') { ++p; } r += *p++; } ++p; return r; }
};
inline JV jparse(const std::string& s) { JP j{s.data(), s.data() + s.size()}; return j.parse(); }

// Output buffer (shared between a forked child and its parent, so that a crash leaves the events so far)
struct OutBuf {
  char* base; size_t cap; size_t* len;
  void put(const char* s, size_t n) { if (*len + n < cap) { __builtin_memcpy(base + *len, s, n); *len += n; } }
  void put(const std::string& s) { put(s.data(), s.size()); }
};
