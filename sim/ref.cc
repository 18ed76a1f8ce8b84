#include "ref.hpp"
#include <cstdlib>
#include <cstring>
#include <climits>
#include <cerrno>

namespace ref {
static std::vector<std::string> lines_of(std::string const &t) {
  std::vector<std::string> r; size_t i = 0;
  while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); r.push_back(t.substr(i, e - i)); i = e + 1; }
  return r;
}
// fields separated by blanks; odd=true if the line uses separators the format does not settle (tabs, inner CR, NUL, blank before CR)
static std::vector<std::string> fields(std::string l, bool &odd) {
  odd = false;
  if (!l.empty() && l.back() == '\r') { l.pop_back(); if (!l.empty() && (l.back() == ' ' || l.back() == '\t')) odd = true; }
  std::vector<std::string> f; std::string cur;
  for (char c : l) {
    if (c == '\t' || c == '\r' || c == '\v' || c == '\f' || c == '\0') odd = true;
    if (c == ' ' || c == '\t') { if (!cur.empty()) f.push_back(cur); cur.clear(); }
    else cur += c;
  }
  if (!cur.empty()) f.push_back(cur);
  if (f.empty()) { // blank line
    bool allblank = true; for (char c : l) allblank = allblank && (c == ' ' || c == '\t' || c == '\r');
    if (allblank) odd = odd && l.find('\t') != std::string::npos;
  }
  return f;
}
enum Tok { GOOD, JUNK, MAYBE };
static Tok real_tok(std::string const &s, double &v) {
  // a plain decimal number
  size_t i = 0, dg = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++dg; }
  if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++dg; } }
  if (!dg) { // no digits at all: definitely not numeric unless it spells inf/nan/hex
    char *e; double x = strtod(s.c_str(), &e); return e == s.c_str() || *e || !std::isfinite(x) ? JUNK : MAYBE; // nan and inf are not numbers
  }
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { size_t j = i + 1, ed = 0; if (j < s.size() && (s[j] == '+' || s[j] == '-')) ++j; while (j < s.size() && isdigit((unsigned char)s[j])) { ++j; ++ed; } if (ed) i = j; }
  if (i != s.size()) { char *e; strtod(s.c_str(), &e); return *e ? JUNK : MAYBE; } // a number with something behind it is none
  errno = 0; v = strtod(s.c_str(), nullptr); if (errno || !std::isfinite(v) || std::fabs(v) > 1e12) return MAYBE;
  return GOOD;
}
static Tok int_tok(std::string const &s, long &v, bool whole = true) {
  size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  size_t dg = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++dg; }
  if (!dg) return JUNK;
  if (i != s.size()) { char *e; strtod(s.c_str(), &e); return whole && *e ? JUNK : MAYBE; }
  v = strtol(s.c_str(), nullptr, 10); // beyond the range: the largest number there is, which names no node
  return GOOD;
}
struct Acc { bool bad = false, open = false; std::string why;
  void b(std::string const &w) { if (!bad && !open) why = w; bad = true; }
  void o(std::string const &w) { if (!open && !bad) why = w; open = true; } };

static Parsed finish(Acc const &a, std::vector<Tri> &t) {
  Parsed p; p.why = a.why;
  if (a.open) { p.m = OPEN; return p; }        // something unsettled came first or along: either outcome
  if (a.bad) { p.m = BAD; return p; }
  if (t.empty()) { p.m = BAD; p.why = "no element"; return p; }
  p.m = WELL; p.tris.swap(t); return p;
}

Parsed parse_rdf(std::string const &text, Pose const &ps) {
  std::vector<V3> nodes; std::vector<Tri> tris; Acc a; int sec = 0; std::vector<long> late;
  for (std::string const &l : lines_of(text)) {
    bool odd; std::vector<std::string> f = fields(l, odd);
    if (f.empty()) { if (odd) a.o("odd blank line"); continue; }
    char c0 = f[0][0];
    if (c0 == '%' || c0 == '#' || c0 == '{') continue;
    if (odd) { a.o("odd separators"); continue; }
    if (f[0] == "[NODES]" || f[0] == "NODES") { sec = 1; if (f.size() > 1) a.o("text after header"); continue; }
    if (f[0] == "[ELEMENTS]" || f[0] == "ELEMENTS") { sec = 2; if (f.size() > 1) a.o("text after header"); continue; }
    if (sec == 0) { a.o("text before the sections"); continue; }
    if (sec == 1) {
      if (f.size() != 4) { a.b("node with " + std::to_string(f.size()) + " fields"); continue; }
      double v[3]; Tok w = GOOD; long id; 
      if (int_tok(f[0], id) != GOOD) a.o("odd node id"); else if (id != long(nodes.size())) a.o("node id out of sequence");
      for (int k = 0; k < 3; ++k) { Tok q = real_tok(f[size_t(k) + 1], v[k]); if (q == JUNK) w = JUNK; else if (q == MAYBE && w == GOOD) w = MAYBE; }
      if (w == JUNK) a.b("non-numeric node"); else if (w == MAYBE) a.o("odd number"); else nodes.push_back(at(ps, V3(v[0], v[1], v[2])));
    } else {
      if (f.size() != 4) { a.b("element with " + std::to_string(f.size()) + " fields"); continue; }
      long ix[3]; double mu = 0; Tok w = GOOD;
      for (int k = 0; k < 3; ++k) { Tok q = int_tok(f[size_t(k)], ix[k]); if (q == JUNK) w = JUNK; else if (q == MAYBE && w == GOOD) w = MAYBE; }
      Tok q = real_tok(f[3], mu); if (q == JUNK) w = JUNK; else if (q == MAYBE && w == GOOD) w = MAYBE;
      if (w == JUNK) { a.b("non-numeric element"); continue; }
      if (w == MAYBE) { a.o("odd number"); continue; }
      if (mu < 0) { a.b("negative friction"); continue; }
      bool ok = true, neg = false; for (int k = 0; k < 3; ++k) { neg = neg || ix[k] < 0; ok = ok && ix[k] >= 0 && ix[k] < long(nodes.size()); }
      if (neg) { a.b("negative index"); continue; }
      if (!ok) { late.push_back(std::max({ix[0], ix[1], ix[2]})); continue; }
      Tri t; for (int k = 0; k < 3; ++k) t.v[k] = nodes[size_t(ix[k])]; t.mu = mu; tris.push_back(t);
    }
  }
  for (long i : late) { if (i < long(nodes.size())) a.o("names a node that comes later"); else a.b("index names no node"); }
  return finish(a, tris);
}

Parsed parse_obj(std::string const &text, double mu, Pose const &ps) {
  std::vector<V3> nodes; std::vector<Tri> tris; Acc a; std::vector<long> late;
  for (std::string const &l : lines_of(text)) {
    bool odd; std::vector<std::string> f = fields(l, odd);
    if (f.empty()) continue;
    if (f[0] == "v") {
      if (odd) { a.o("odd separators"); continue; }
      if (f.size() < 4) { a.b("vertex with missing coordinates"); continue; }
      if (f.size() > 4) { a.o("vertex with extra fields"); continue; }
      double v[3]; Tok w = GOOD;
      for (int k = 0; k < 3; ++k) { Tok q = real_tok(f[size_t(k) + 1], v[k]); if (q == JUNK) w = JUNK; else if (q == MAYBE && w == GOOD) w = MAYBE; }
      if (w == JUNK) a.b("non-numeric vertex"); else if (w == MAYBE) a.o("odd number"); else nodes.push_back(at(ps, V3(v[0], v[1], v[2])));
    } else if (f[0] == "f") {
      if (odd) { a.o("odd separators"); continue; }
      if (f.size() < 4) { a.b("face with missing corners"); continue; }
      if (f.size() > 4) { a.o("polygon"); continue; }
      long ix[3]; Tok w = GOOD;
      for (int k = 0; k < 3; ++k) {
        std::string s = f[size_t(k) + 1]; size_t sl = s.find('/');
        if (sl != std::string::npos) { std::string rest = s.substr(sl); bool plain = true; for (char c : rest) plain = plain && (c == '/' || isdigit((unsigned char)c)); if (!plain) w = MAYBE; s = s.substr(0, sl); }
        Tok q = int_tok(s, ix[k], false); if (q == JUNK) w = JUNK; else if (q == MAYBE && w == GOOD) w = MAYBE;
      }
      if (w == JUNK) { a.b("non-numeric face"); continue; }
      if (w == MAYBE) { a.o("odd number"); continue; }
      bool ok = true, neg = false; for (int k = 0; k < 3; ++k) { neg = neg || ix[k] < 0; ok = ok && ix[k] >= 1 && ix[k] <= long(nodes.size()); }
      if (neg) { a.o("relative index"); continue; }
      if (!ok) { late.push_back(std::min({ix[0], ix[1], ix[2]}) < 1 ? LONG_MAX : std::max({ix[0], ix[1], ix[2]}) - 1); continue; }
      Tri t; for (int k = 0; k < 3; ++k) t.v[k] = nodes[size_t(ix[k] - 1)]; t.mu = mu; tris.push_back(t);
    } else {
      for (char c : f[0]) if (c == '\0' || c == '\r' || c == '\v' || c == '\f') a.o("odd keyword");
      if (odd && l.find_first_not_of(" \t\r\v\f") != std::string::npos && strchr("vf", l[l.find_first_not_of(" \t\r\v\f")])) a.o("odd separators");
    }
  }
  for (long i : late) { if (i < long(nodes.size())) a.o("names a node that comes later"); else a.b("index names no node"); }
  return finish(a, tris);
}
} // namespace ref
