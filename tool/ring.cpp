#include "ring.h"
#include <gmpxx.h>
#include <deque>
#include <map>

namespace {
typedef std::vector<std::pair<uint32_t, int>> Mono; // sorted by unknown, exponents not zero
typedef std::map<Mono, mpz_class> Poly;
struct Rule { Mono lhs; Poly rhs; };
struct Ring { mpz_class p; std::vector<Rule> rules; };
struct El { uint32_t ring; Poly poly; };
std::deque<Ring> rings(1);
std::deque<El> els(1);
std::map<std::pair<uint32_t, Poly>, uint32_t> interned;
std::map<uint32_t, uint32_t> inverses;
uint32_t nvars = 0;

Mono mmul(const Mono &a, const Mono &b, int sign = 1) {
  Mono r;
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) { r.push_back({b[j].first, sign * b[j].second}); j++; }
    else {
      int e = a[i].second + sign * b[j].second;
      if (e) r.push_back({a[i].first, e});
      i++, j++;
    }
  }
  return r;
}
bool divides(const Mono &d, const Mono &m) {
  size_t j = 0;
  for (auto &v : d) {
    while (j < m.size() && m[j].first < v.first) j++;
    if (j == m.size() || m[j].first != v.first || m[j].second < v.second) return false;
  }
  return true;
}
void addTo(Poly &r, const Mono &m, const mpz_class &c, const mpz_class &p) {
  mpz_class &x = r[m];
  x += c;
  mpz_fdiv_r(x.get_mpz_t(), x.get_mpz_t(), p.get_mpz_t());
  if (x == 0) r.erase(m);
}
void normal(uint32_t ring, Poly &q) {
  Ring &R = rings[ring];
  bool again = !R.rules.empty();
  while (again) {
    again = false;
    for (auto it = q.begin(); it != q.end(); ++it) {
      for (Rule &u : R.rules)
        if (divides(u.lhs, it->first)) {
          Mono rest = mmul(it->first, u.lhs, -1);
          mpz_class c = it->second;
          q.erase(it);
          for (auto &t : u.rhs) addTo(q, mmul(t.first, rest), c * t.second, R.p);
          again = true;
          break;
        }
      if (again) break;
    }
  }
}
uint32_t intern(uint32_t ring, Poly &&q) {
  normal(ring, q);
  auto key = std::make_pair(ring, q);
  auto it = interned.find(key);
  if (it != interned.end()) return it->second;
  uint32_t id = (uint32_t)els.size();
  els.push_back({ring, std::move(q)});
  interned[key] = id;
  return id;
}
mpz_class bytes(const std::vector<unsigned char> &be) {
  mpz_class r;
  if (!be.empty()) mpz_import(r.get_mpz_t(), be.size(), 1, 1, 1, 0, be.data());
  return r;
}
Mono content(const Poly &q) { // the greatest product dividing every term
  std::map<uint32_t, std::pair<size_t, int>> lo;
  for (auto &t : q)
    for (auto &v : t.first) {
      auto &x = lo[v.first];
      if (!x.first++ || v.second < x.second) x.second = v.second;
    }
  Mono r;
  for (auto &v : lo) {
    int e = v.second.first < q.size() && v.second.second > 0 ? 0 : v.second.second;
    if (e) r.push_back({v.first, e});
  }
  return r;
}
uint32_t mulEl(uint32_t a, uint32_t b) {
  uint32_t ring = els[a].ring;
  Poly r;
  for (auto &s : els[a].poly)
    for (auto &t : els[b].poly) addTo(r, mmul(s.first, t.first), s.second * t.second, rings[ring].p);
  return intern(ring, std::move(r));
}
}

uint32_t rgNew(const std::vector<unsigned char> &be) {
  rings.push_back({bytes(be), {}});
  return (uint32_t)rings.size() - 1;
}
uint32_t rgVar(uint32_t ring) {
  Poly q;
  q[Mono{{++nvars, 1}}] = 1;
  return intern(ring, std::move(q));
}
uint32_t rgNum(uint32_t ring, const std::vector<unsigned char> &be) {
  Poly q;
  addTo(q, Mono(), bytes(be), rings[ring].p);
  return intern(ring, std::move(q));
}
uint32_t rgOp(int op, uint32_t a, uint32_t b) {
  if (!a || a >= els.size()) return 0;
  uint32_t ring = els[a].ring;
  const mpz_class &p = rings[ring].p;
  if (op == '^') {
    Poly one;
    one[Mono()] = 1;
    uint32_t r = intern(ring, std::move(one));
    for (uint32_t i = 0; i < b; i++) r = mulEl(r, a);
    return r;
  }
  if (op == 's') { // the value up to non-zero squares of unknowns
    Poly q;
    if (els[a].poly.size() != 1) return a;
    Mono m;
    for (auto &v : els[a].poly.begin()->first) if (v.second & 1) m.push_back({v.first, 1});
    q[m] = els[a].poly.begin()->second;
    return intern(ring, std::move(q));
  }
  if (op == '/') {
    if (els[a].poly.empty()) return a;
    auto it = inverses.find(a);
    if (it != inverses.end()) return it->second;
    uint32_t r;
    if (els[a].poly.size() == 1) {
      Poly q;
      mpz_class c;
      mpz_invert(c.get_mpz_t(), els[a].poly.begin()->second.get_mpz_t(), p.get_mpz_t());
      q[mmul(Mono(), els[a].poly.begin()->first, -1)] = c;
      r = intern(ring, std::move(q));
    } else if (content(els[a].poly) != Mono()) {
      Poly q, m;
      Mono c = content(els[a].poly);
      for (auto &t : els[a].poly) q[mmul(t.first, c, -1)] = t.second;
      m[mmul(Mono(), c, -1)] = 1;
      uint32_t i = rgOp('/', intern(ring, std::move(q)), 0);
      r = mulEl(i, intern(ring, std::move(m)));
    } else { // a new unknown i with lead * i -> (1 - rest * i) / coefficient
      r = rgVar(ring);
      Mono iv = els[r].poly.begin()->first;
      auto lead = els[a].poly.begin();
      for (auto t = els[a].poly.begin(); t != els[a].poly.end(); ++t) {
        int d = 0, e = 0;
        for (auto &v : t->first) d += v.second;
        for (auto &v : lead->first) e += v.second;
        if (d >= e) lead = t;
      }
      mpz_class c;
      mpz_invert(c.get_mpz_t(), lead->second.get_mpz_t(), p.get_mpz_t());
      Rule u;
      u.lhs = mmul(lead->first, iv);
      addTo(u.rhs, Mono(), c, p);
      for (auto t = els[a].poly.begin(); t != els[a].poly.end(); ++t)
        if (t != lead) addTo(u.rhs, mmul(t->first, iv), -t->second * c, p);
      rings[ring].rules.push_back(u);
    }
    inverses[a] = r;
    inverses[r] = a;
    return r;
  }
  if (!b || b >= els.size() || els[b].ring != ring) return 0;
  if (op == '*') return mulEl(a, b);
  Poly r = els[a].poly;
  for (auto &t : els[b].poly) addTo(r, t.first, op == '-' ? mpz_class(-t.second) : t.second, p);
  return intern(ring, std::move(r));
}
void rgRule(uint32_t lhs, uint32_t rhs) {
  if (!lhs || !rhs || els[lhs].poly.size() != 1) return;
  Rule u;
  u.lhs = els[lhs].poly.begin()->first;
  u.rhs = els[rhs].poly;
  rings[els[lhs].ring].rules.push_back(u);
}
int rgNumVal(uint32_t a) {
  if (!a || a >= els.size()) return -1;
  if (els[a].poly.empty()) return 0;
  if (els[a].poly.size() != 1 || !els[a].poly.begin()->first.empty() || els[a].poly.begin()->second > 1000000) return -1;
  return (int)els[a].poly.begin()->second.get_si();
}
std::string rgShow(uint32_t a) {
  if (!a || a >= els.size()) return "?";
  std::string s;
  const mpz_class &p = rings[els[a].ring].p;
  for (auto &t : els[a].poly) {
    mpz_class c = t.second;
    if (c > p / 2) c -= p;
    std::string k = c.get_str();
    s += (s.empty() ? "" : " + ") + (k.size() > 12 ? k.substr(0, 10) + ".." : k);
    for (auto &v : t.first) s += "*v" + std::to_string(v.first) + (v.second != 1 ? "^" + std::to_string(v.second) : "");
    if (s.size() > 400) { s += " ..."; break; }
  }
  return s.empty() ? "0" : s;
}
