#include "poly.h"
#include "ai.h"
#include <algorithm>
#include <gmpxx.h>
#include <map>
#include <deque>
#include <set>
#include <unordered_map>

bool polyMode = false;

namespace {
typedef std::vector<std::pair<uint32_t, mpz_class>> Poly; // monomial, coefficient; sorted
// a floor atom satisfies sign * atom + off = floor(flat / 2^k)
struct Atom { bool bit = false; mpz_class lo, hi; int sign = 0; mpz_class off; uint32_t flat = 0; unsigned k = 0; uint32_t flat2 = 0; unsigned k2 = 0; uint32_t def = 0; unsigned dk = 0; };
std::deque<Atom> atoms(1);
std::deque<std::vector<uint32_t>> monos(1); // sorted atoms; 0: the empty product
std::map<std::vector<uint32_t>, uint32_t> monoIds{{{}, 0}};
std::unordered_map<uint64_t, uint32_t> monoProd;

struct PV { uint32_t poly; mpz_class lo, hi; };
std::deque<Poly> polys(1); // references stay valid
std::unordered_multimap<size_t, uint32_t> polyIds;
std::deque<PV> pvs(1);
std::unordered_map<uint32_t, uint32_t> tightest; // polynomial -> value with its narrowest bounds
std::unordered_multimap<size_t, uint32_t> pvIds;

size_t hz(const mpz_class &z) {
  size_t h = mpz_sgn(z.get_mpz_t()) + 7;
  for (size_t i = 0; i < mpz_size(z.get_mpz_t()); i++) h = (h ^ mpz_getlimbn(z.get_mpz_t(), i)) * 0xff51afd7ed558ccdull, h ^= h >> 29;
  return h;
}
uint32_t internPoly(Poly &&p) {
  size_t h = p.size();
  for (auto &t : p) h = (h * 31 + t.first) * 0x9e3779b97f4a7c15ull ^ hz(t.second);
  auto r = polyIds.equal_range(h);
  for (auto i = r.first; i != r.second; ++i) if (polys[i->second] == p) return i->second;
  polys.push_back(std::move(p));
  polyIds.insert({h, (uint32_t)polys.size() - 1});
  return (uint32_t)polys.size() - 1;
}
uint32_t internPV(uint32_t poly, const mpz_class &lo, const mpz_class &hi) {
  size_t h = poly * 0x9e3779b97f4a7c15ull ^ hz(lo) * 3 ^ hz(hi) * 7;
  auto r = pvIds.equal_range(h);
  for (auto i = r.first; i != r.second; ++i) {
    const PV &q = pvs[i->second];
    if (q.poly == poly && q.lo == lo && q.hi == hi) return i->second;
  }
  pvs.push_back({poly, lo, hi});
  pvIds.insert({h, (uint32_t)pvs.size() - 1});
  auto t = tightest.insert({poly, (uint32_t)pvs.size() - 1});
  if (!t.second && hi - lo < pvs[t.first->second].hi - pvs[t.first->second].lo) t.first->second = (uint32_t)pvs.size() - 1;
  return (uint32_t)pvs.size() - 1;
}
uint32_t monoMul(uint32_t a, uint32_t b) {
  if (!a) return b;
  if (!b) return a;
  if (a > b) std::swap(a, b);
  uint64_t key = (uint64_t)a << 32 | b;
  auto it = monoProd.find(key);
  if (it != monoProd.end()) return it->second;
  std::vector<uint32_t> v;
  std::merge(monos[a].begin(), monos[a].end(), monos[b].begin(), monos[b].end(), std::back_inserter(v));
  std::vector<uint32_t> u;
  for (auto x : v) if (u.empty() || u.back() != x || !atoms[x].bit) u.push_back(x); // a bit is its own square
  auto ins = monoIds.insert({u, (uint32_t)monos.size()});
  if (ins.second) monos.push_back(u);
  return monoProd[key] = ins.first->second;
}
uint32_t monoOf(uint32_t atom) {
  auto ins = monoIds.insert({{atom}, (uint32_t)monos.size()});
  if (ins.second) monos.push_back({atom});
  return ins.first->second;
}
Poly konst(const mpz_class &c) { Poly p; if (c != 0) p.push_back({0, c}); return p; }
Poly addMul(const Poly &a, const Poly &b, const mpz_class &k) { // a + k*b
  Poly r;
  r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) { r.push_back({b[j].first, k * b[j].second}); j++; }
    else { mpz_class c = a[i].second + k * b[j].second; if (c != 0) r.push_back({a[i].first, c}); i++; j++; }
  }
  return r;
}
Poly mulPoly(const Poly &a, const Poly &b) {
  std::map<uint32_t, mpz_class> m;
  for (auto &x : a) for (auto &y : b) m[monoMul(x.first, y.first)] += x.second * y.second;
  Poly r;
  for (auto &x : m) if (x.second != 0) r.push_back({x.first, x.second});
  return r;
}
mpz_class two(unsigned k) { mpz_class r; mpz_setbit(r.get_mpz_t(), k); return r; }
mpz_class fdiv(const mpz_class &a, unsigned k) { mpz_class r; mpz_fdiv_q_2exp(r.get_mpz_t(), a.get_mpz_t(), k); return r; }
mpz_class z128(u128 v) { mpz_class r = (unsigned long)(uint64_t)(v >> 64); r <<= 64; r += (unsigned long)(uint64_t)v; return r; }
u128 u128z(const mpz_class &z) { mpz_class lo = z & mpz_class(~0ul), hi = z >> 64; return (u128)mpz_get_ui(hi.get_mpz_t()) << 64 | mpz_get_ui(lo.get_mpz_t()); }

// a = r + 2^k * q with every coefficient of r balanced
void split(const Poly &a, unsigned k, Poly &r, Poly &q) {
  mpz_class h = k ? two(k - 1) : mpz_class(0), m = two(k);
  for (auto &t : a) {
    mpz_class c, d;
    mpz_fdiv_q_2exp(d.get_mpz_t(), mpz_class(t.second + h).get_mpz_t(), k);
    if (k == 0) d = t.second;
    c = t.second - d * m;
    if (c != 0) r.push_back({t.first, c});
    if (d != 0) q.push_back({t.first, d});
  }
}
// Bounds of a polynomial beyond those of its words: a quotient is replaced by
// what it divides, up to a remainder, and what is left is compared with the
// polynomials whose bounds were declared.
typedef std::pair<mpq_class, mpq_class> Range;
std::vector<std::pair<Poly, Range>> declared;
Range monoRange(uint32_t m) {
  mpq_class lo = 1, hi = 1;
  for (auto a : monos[m]) {
    mpq_class l = atoms[a].lo, h = atoms[a].hi, c[4] = {lo * l, lo * h, hi * l, hi * h};
    lo = *std::min_element(c, c + 4);
    hi = *std::max_element(c, c + 4);
  }
  return {lo, hi};
}
void addRange(Range &r, const mpq_class &k, const Range &x) {
  r.first += k * (k >= 0 ? x.first : x.second);
  r.second += k * (k >= 0 ? x.second : x.first);
}
Range plainBound(Poly P) {
  Range acc{0, 0};
  for (auto &d : declared) {
    if (d.first.empty() || P.empty()) continue;
    const auto &lead = d.first.back();
    for (auto &t : P)
      if (t.first == lead.first && mpz_divisible_p(t.second.get_mpz_t(), lead.second.get_mpz_t())) {
        mpz_class k = t.second / lead.second;
        Poly R = addMul(P, d.first, -k);
        if (R.size() < P.size()) { addRange(acc, mpq_class(k), d.second); P = R; }
        break;
      }
  }
  for (auto &t : P) addRange(acc, mpq_class(t.second), monoRange(t.first));
  return acc;
}
Range boundPoly(Poly P) {
  mpz_class scale = 1;
  Range acc{0, 0}, best{0, 0};
  for (bool first = true;; first = false) { // newest quotient that stands alone
    Range r = plainBound(P);
    r.first = (r.first + acc.first) / scale;
    r.second = (r.second + acc.second) / scale;
    best = first ? r : Range{std::max(best.first, r.first), std::min(best.second, r.second)};
    uint32_t top = 0;
    mpz_class c;
    for (auto &t : P) {
      auto &m = monos[t.first];
      if (m.size() == 1 && m[0] > top && atoms[m[0]].sign) top = m[0], c = t.second;
    }
    if (!top) break;
    const Atom &a = atoms[top];
    // atom = sign * ((def - rho) / 2^k - off), 0 <= rho < 2^k
    mpz_class m = two(a.dk), g;
    mpz_gcd(g.get_mpz_t(), m.get_mpz_t(), c.get_mpz_t());
    mpz_class up = m / g, cc = c / g * a.sign; // up * P
    P = addMul(P, Poly{{monoOf(top), c}}, -1);
    for (auto &t : P) t.second *= up;
    scale *= up;
    acc.first *= up;
    acc.second *= up;
    P = addMul(P, polys[a.def], cc);
    addRange(acc, mpq_class(-cc), {0, mpq_class(m - 1)});
    mpz_class k = cc * m * a.off;
    P = addMul(P, konst(k), -1);
  }
  return best;
}
// floor(P / 2^k) with the quotients P was carried from folded in
void flatten(Poly &P, unsigned &k, bool bitsFirst = true) {
  for (;;) {
    uint32_t best = 0;
    bool bestBit = false;
    for (auto &t : P) {
      auto &m = monos[t.first];
      if (m.size() != 1) continue;
      const Atom &a = atoms[m[0]];
      if (!a.sign || t.second != a.sign) continue;
      if (!best || (bitsFirst && a.bit && !bestBit) || ((!bitsFirst || a.bit == bestBit) && m[0] > best)) best = m[0], bestBit = a.bit;
    }
    if (!best) return;
    const Atom &a = atoms[best];
    unsigned ak = bitsFirst ? a.k : a.k2;
    if (k + ak > 4000) return;
    P = addMul(P, Poly{{monoOf(best), a.sign}}, -1);
    P = addMul(P, konst(a.off), -1);
    for (auto &t : P) t.second <<= ak;
    P = addMul(P, polys[bitsFirst ? a.flat : a.flat2], 1);
    k += ak;
  }
}
void define(Atom &a, int sign, const mpz_class &off, Poly P, unsigned k) {
  a.def = internPoly(Poly(P));
  a.dk = k;
  {
    Poly Q = P;
    a.k2 = k;
    flatten(Q, a.k2, false);
    a.flat2 = internPoly(std::move(Q));
  }
  flatten(P, k);
  a.sign = sign;
  a.off = off;
  a.k = k;
  a.flat = internPoly(std::move(P));
}
Poly assign(const Poly &P, const std::map<uint32_t, int> &env) {
  Poly R;
  std::map<uint32_t, mpz_class> acc;
  for (auto &t : P) {
    std::vector<uint32_t> v;
    bool zero = false;
    for (auto a : monos[t.first]) {
      auto it = env.find(a);
      if (it == env.end()) v.push_back(a);
      else if (!it->second) zero = true;
    }
    if (zero) continue;
    uint32_t m = 0;
    for (auto a : v) m = monoMul(m, monoOf(a));
    acc[m] += t.second;
  }
  for (auto &x : acc) if (x.second != 0) R.push_back({x.first, x.second});
  return R;
}
// the definitions of the assigned bits cannot hold together
bool refuted(const std::map<uint32_t, int> &env, const Poly *nonneg = nullptr) {
  std::map<Poly, Range> forms;
  std::vector<std::pair<Poly, Range>> facts;
  for (auto &e : env) {
    const Atom &a = atoms[e.first];
    if (!a.sign) continue;
    for (int way = 0; way < (a.flat2 == a.flat ? 1 : 2); way++) {
      uint32_t flat = way ? a.flat2 : a.flat;
      mpz_class f = a.sign * e.second + a.off, m = two(way ? a.k2 : a.k);
      static std::map<uint32_t, Range> memo; // what holds in every case holds in this one
      auto it = memo.find(flat);
      if (it == memo.end()) it = memo.insert({flat, boundPoly(polys[flat])}).first;
      facts.push_back({assign(polys[flat], env), {std::max(mpq_class(f * m), it->second.first), std::min(mpq_class(f * m + m - 1), it->second.second)}});
      if (facts.back().second.first > facts.back().second.second) return true;
    }
  }
  if (nonneg) {
    Range r{0, mpq_class(two(4096))};
    Poly flat = *nonneg;
    unsigned k = 0;
    flatten(flat, k);
    for (auto &f : facts) { // as a multiple of a fact, up to a bounded rest
      if (env.size() > 4 || f.first.empty() || nonneg->empty()) continue;
      mpz_class a = f.first.back().second, b = nonneg->back().second;
      if (f.first.back().first != nonneg->back().first || a == 0) continue;
      if (a < 0) a = -a, b = -b;
      Poly D;
      for (auto &t : *nonneg) D.push_back({t.first, t.second * a});
      Range d = boundPoly(addMul(D, f.first, -b));
      addRange(d, mpq_class(b), f.second);
      if (d.second < 0) return true;
    }
    facts.push_back({*nonneg, r});
    if (k) facts.push_back({flat, r});
  }
  for (auto &f : facts) {
    Poly P = f.first;
    Range r = f.second;
    mpz_class c = 0;
    if (!P.empty() && P[0].first == 0) { c = P[0].second; P.erase(P.begin()); }
    r.first -= c;
    r.second -= c;
    if (P.empty()) { if (r.first > 0 || r.second < 0) return true; continue; }
    mpz_class g = 0;
    for (auto &t : P) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), t.second.get_mpz_t());
    if (P.back().second < 0) { g = -g; std::swap(r.first, r.second); }
    for (auto &t : P) t.second /= g;
    r.first /= g;
    r.second /= g;
    auto it = forms.find(P);
    if (it == forms.end()) it = forms.insert({P, boundPoly(P)}).first;
    it->second.first = std::max(it->second.first, r.first);
    it->second.second = std::min(it->second.second, r.second);
    if (it->second.first > it->second.second) return true;
  }
  return false;
}
std::map<std::pair<uint32_t, unsigned>, Poly> floors; // (remainder polynomial, k) -> its floor
std::map<uint32_t, std::pair<uint32_t, unsigned>> floorOfAtom;

// floor(P / 2^k)
Poly floorOf(const Poly &P, unsigned k, const mpz_class &lo, const mpz_class &hi) {
  if (k == 0) return P;
  mpz_class fl = fdiv(lo, k), fh = fdiv(hi, k);
  if (fl == fh) return konst(fl);
  if (lo >= -1 && hi <= 0) return P;
  if (fh - fl > 1) {
    mp_bitcnt_t j = k; // common powers of two cancel
    for (auto &t : P) j = std::min(j, mpz_scan1(t.second.get_mpz_t(), 0));
    if (j) {
      Poly R;
      for (auto &t : P) R.push_back({t.first, t.second >> j});
      return floorOf(R, k - (unsigned)j, -fdiv(-lo, (unsigned)j), fdiv(hi, (unsigned)j));
    }
  }
  if (P.size() == 1 && P[0].second == 1 && monos[P[0].first].size() == 1) { // a floor of a floor
    auto it = floorOfAtom.find(monos[P[0].first][0]);
    if (it != floorOfAtom.end()) {
      unsigned j = it->second.second;
      return floorOf(polys[it->second.first], k + j, lo * two(j), hi * two(j) + two(j) - 1);
    }
  }
  if (fl == -1 && fh == 0) { // a sign: any width beyond the value gives the same
    unsigned j = (unsigned)std::max(hi == 0 ? 0 : mpz_sizeinbase(hi.get_mpz_t(), 2), mpz_sizeinbase(mpz_class(-lo - 1).get_mpz_t(), 2));
    if (j < k) k = j;
  }
  if (fh - fl <= 16) { // few values left: look harder
    Range r = boundPoly(P);
    mpz_class l, h;
    mpz_cdiv_q(l.get_mpz_t(), r.first.get_num_mpz_t(), r.first.get_den_mpz_t());
    mpz_fdiv_q(h.get_mpz_t(), r.second.get_num_mpz_t(), r.second.get_den_mpz_t());
    fl = std::max(fl, fdiv(l, k));
    fh = std::min(fh, fdiv(h, k));
    if (fl == fh) return konst(fl);
  }
  Poly A, B;
  split(P, k, A, B);
  if (A.empty()) return B;
  if (!B.empty()) { // what is left may be too small to matter
    Range r{0, 0};
    for (auto &t : A) addRange(r, mpq_class(t.second), monoRange(t.first));
    mpz_class l = fdiv(r.first.get_num(), k), h = fdiv(r.second.get_num(), k);
    if (l == h) return addMul(B, konst(l), 1);
    if (fh - fl > 1 && h - l <= fh - fl) return addMul(B, floorOf(A, k, r.first.get_num(), r.second.get_num()), 1);
  }
  uint32_t a = internPoly(Poly(A));
  auto key = std::make_pair(a, k);
  auto it = floors.find(key);
  if (it != floors.end()) return addMul(it->second, B, 1);
  for (auto t = B.rbegin(); t != B.rend(); ++t) { // all of it may come from one carry
    Poly R = addMul(P, Poly{{t->first, t->second}}, -two(k));
    auto w = tightest.find(internPoly(Poly(R)));
    if (w == tightest.end()) continue;
    mpz_class l = fdiv(pvs[w->second].lo, k), h = fdiv(pvs[w->second].hi, k);
    if (l == h) return addMul(Poly{{t->first, t->second}}, konst(l), 1);
  }
  Atom at;
  at.bit = fh - fl == 1;
  at.lo = at.bit ? mpz_class(0) : fl;
  at.hi = at.bit ? mpz_class(1) : fh;
  if (!at.bit) define(at, 1, 0, P, k);
  else if (fl == -1 && fh == 0) define(at, -1, 0, P, k);
  else define(at, 1, fl, P, k);
  static std::map<std::pair<uint32_t, unsigned>, Poly> flats; // the same number carried another way
  auto same = std::make_pair(at.flat, at.k);
  {
    mp_bitcnt_t j = at.k; // common powers of two cancel
    for (auto &t : polys[at.flat]) j = std::min(j, mpz_scan1(t.second.get_mpz_t(), 0));
    Poly R;
    for (auto &t : polys[at.flat]) R.push_back({t.first, t.second >> j});
    if (j) same = {internPoly(std::move(R)), at.k - (unsigned)j};
  }
  auto known = flats.find(same);
  if (known != flats.end()) {
    floors[key] = addMul(known->second, B, -1);
    return known->second;
  }
  atoms.push_back(at);
  uint32_t id = (uint32_t)atoms.size() - 1;
  Poly F{{monoOf(id), 1}};
  if (fl == -1 && fh == 0) F[0].second = -1;
  else if (at.bit) F = addMul(F, konst(fl), 1);
  else if (B.empty()) floorOfAtom[id] = key;
  floors[key] = addMul(F, B, -1);
  flats[same] = F;
  return F;
}
uint32_t mkPV(Poly &&p, const mpz_class &lo, const mpz_class &hi) {
  if (p.empty()) return internPV(internPoly(std::move(p)), 0, 0);
  if (p.size() == 1 && p[0].first == 0) { mpz_class c = p[0].second; return internPV(internPoly(std::move(p)), c, c); }
  if (p.size() <= 6) { // the terms may say more
    Range r{0, 0};
    for (auto &t : p) addRange(r, mpq_class(t.second), monoRange(t.first));
    return internPV(internPoly(std::move(p)), std::max(lo, mpz_class(r.first.get_num())), std::min(hi, mpz_class(r.second.get_num())));
  }
  return internPV(internPoly(std::move(p)), lo, hi);
}
uint32_t konstPV(const mpz_class &c) { return mkPV(konst(c), c, c); }
// floor as a value
uint32_t pvFloor(uint32_t a, unsigned k) {
  PV v = pvs[a];
  Poly P = polys[v.poly];
  return mkPV(floorOf(P, k, v.lo, v.hi), fdiv(v.lo, k), fdiv(v.hi, k));
}
// unsigned reading of the low w bits
uint32_t unsig(uint32_t a, unsigned w) {
  PV v = pvs[a];
  if (v.lo >= 0 && v.hi < two(w)) return a;
  Poly P = polys[v.poly];
  Poly F = floorOf(P, w, v.lo, v.hi);
  return mkPV(addMul(P, F, -two(w)), 0, two(w) - 1);
}
uint32_t sig(uint32_t a, unsigned w) {
  PV v = pvs[a];
  mpz_class h = two(w - 1);
  if (v.lo >= -h && v.hi < h) return a;
  Poly P = polys[v.poly];
  Poly F = floorOf(addMul(P, konst(h), 1), w, v.lo + h, v.hi + h);
  return mkPV(addMul(P, F, -two(w)), -h, h - 1);
}
bool boolPoly(const Poly &q) {
  auto bits = [](uint32_t m) { for (auto x : monos[m]) if (!atoms[x].bit) return false; return true; };
  if (q.empty()) return true;
  if (q.size() == 1) return q[0].second == 1 && bits(q[0].first);
  return q.size() == 2 && q[0].first == 0 && q[0].second == 1 && q[1].second == -1 && bits(q[1].first);
}
// a word that is all ones or all zeroes: the bit it repeats
bool maskBit(uint32_t a, unsigned w, Poly &c) {
  const PV &v = pvs[a];
  if (v.lo >= -1 && v.hi <= 0) { c = addMul(Poly(), polys[v.poly], -1); return true; }
  Poly r, q;
  split(polys[v.poly], w, r, q);
  c = addMul(Poly(), r, -1);
  return boolPoly(c);
}
bool isBool(uint32_t a) { return pvs[a].lo >= 0 && pvs[a].hi <= 1; }
bool isK(uint32_t a) { return pvs[a].lo == pvs[a].hi; }
bool multOf(uint32_t a, unsigned k) {
  for (auto &t : polys[pvs[a].poly]) if (!mpz_divisible_2exp_p(t.second.get_mpz_t(), k)) return false;
  return true;
}
unsigned bitsOf(const mpz_class &z) { return z == 0 ? 0 : (unsigned)mpz_sizeinbase(z.get_mpz_t(), 2); }
uint32_t sum(uint32_t a, uint32_t b) {
  PV x = pvs[a], y = pvs[b];
  return mkPV(addMul(polys[x.poly], polys[y.poly], 1), x.lo + y.lo, x.hi + y.hi);
}
uint32_t diff(uint32_t a, uint32_t b) {
  PV x = pvs[a], y = pvs[b];
  return mkPV(addMul(polys[x.poly], polys[y.poly], -1), x.lo - y.hi, x.hi - y.lo);
}
uint32_t prod(uint32_t a, uint32_t b) {
  PV x = pvs[a], y = pvs[b];
  mpz_class c[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi};
  return mkPV(mulPoly(polys[x.poly], polys[y.poly]), *std::min_element(c, c + 4), *std::max_element(c, c + 4));
}
// a multiple of g between -g and g
bool vanishes(const Poly &P, const std::map<uint32_t, int> &env) {
  mpz_class g = 0;
  for (auto &t : P) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), t.second.get_mpz_t());
  Range r = boundPoly(P);
  if (r.second >= mpq_class(g)) {
    Poly Q = addMul(P, konst(g), -1);
    if (!refuted(env, &Q)) return false;
  }
  if (r.first <= mpq_class(-g)) {
    Poly Q = addMul(Poly(), addMul(P, konst(g), 1), -1);
    if (!refuted(env, &Q)) return false;
  }
  return true;
}
// the polynomial modulo k with all coefficients multiples of 2^w
Poly lifted(const Poly &P, const mpz_class &k, unsigned w) {
  mpz_class m = two(w), inv, M = k * m;
  Poly R;
  if (!mpz_invert(inv.get_mpz_t(), k.get_mpz_t(), m.get_mpz_t())) return R;
  for (auto &t : P) {
    mpz_class u = -t.second * inv, c;
    mpz_fdiv_r_2exp(u.get_mpz_t(), u.get_mpz_t(), w);
    c = t.second + k * u;
    mpz_fdiv_r(c.get_mpz_t(), c.get_mpz_t(), M.get_mpz_t());
    if (c * 2 > M) c -= M;
    if (c != 0) R.push_back({t.first, c});
  }
  return R;
}
bool vanishesMod(Poly &P, const mpz_class &k, const std::map<uint32_t, int> &env) {
  if (vanishes(P, env)) return true;
  if (k <= 0 || mpz_even_p(k.get_mpz_t())) return false;
  unsigned b = ((unsigned)mpz_sizeinbase(k.get_mpz_t(), 2) + 31) / 32 * 32;
  for (unsigned w = b; w <= b + 64; w += 32) {
    Poly L = lifted(P, k, w);
    if (vanishes(L, env)) { P = L; return true; }
  }
  return false;
}
std::vector<std::pair<std::map<uint32_t, int>, Poly>> zeros; // shown to be zero where the bits are so
// some bit is a factor of the one, and the other vanishes where it is set
bool exclusive(const Poly &p, const Poly &q) {
  if (p.empty()) return true;
  for (auto b : monos[p[0].first]) {
    if (!atoms[b].bit) continue;
    bool all = true;
    for (auto &t : p) if (!std::binary_search(monos[t.first].begin(), monos[t.first].end(), b)) { all = false; break; }
    if (all && assign(q, {{b, 1}}).empty()) return true;
  }
  std::map<uint32_t, size_t> seen; // the bits that select
  for (auto &t : p) for (auto b : monos[t.first]) if (atoms[b].bit) seen[b]++;
  std::vector<uint32_t> v;
  for (auto &s : seen) if (s.second * 4 >= p.size()) v.push_back(s.first);
  if (v.size() >= 1 && v.size() <= 4) {
    bool all = true;
    for (unsigned c = 0; all && c < 1u << v.size(); c++) {
      std::map<uint32_t, int> env;
      for (size_t i = 0; i < v.size(); i++) env[v[i]] = c >> i & 1;
      all = assign(p, env).empty() || assign(q, env).empty() || refuted(env);
    }
    if (all) return true;
  }
  return p.size() * q.size() < 4096 && mulPoly(p, q).empty();
}
// exclusive or of two words, kept until a masked swap resolves it
std::map<uint32_t, std::pair<uint32_t, uint32_t>> xorOf;                     // value -> operands
std::map<uint32_t, std::pair<Poly, std::pair<uint32_t, uint32_t>>> maskedXor; // value -> bit, operands
uint32_t opaque(unsigned w) {
  Atom at;
  at.hi = two(w) - 1;
  atoms.push_back(at);
  return mkPV(Poly{{monoOf((uint32_t)atoms.size() - 1), 1}}, 0, two(w) - 1);
}
std::map<std::pair<uint32_t, uint32_t>, uint32_t> xorMemo;
} // namespace

uint32_t pvConst(u128 v) { return konstPV(z128(v)); }
uint32_t pvVar(u128 lo, u128 hi) {
  if (lo == hi) return pvConst(lo);
  Atom at;
  at.bit = lo == 0 && hi == 1;
  at.lo = z128(lo);
  at.hi = z128(hi);
  atoms.push_back(at);
  return mkPV(Poly{{monoOf((uint32_t)atoms.size() - 1), 1}}, z128(lo), z128(hi));
}
uint32_t pvOf(const AV &a, unsigned w) {
  if (a.obj != O_NONE || (a.lab & L_UNINIT)) return 0;
  if (a.lo == a.hi) return pvConst(a.lo);
  if (!a.sym || a.lo > a.hi) return a.sym;
  PV v = pvs[a.sym];
  if (v.lo < 0 || v.hi >= two(w)) return a.sym;
  mpz_class lo = z128(a.lo), hi = z128(a.hi);
  if (lo <= v.lo && hi >= v.hi) return a.sym;
  return mkPV(Poly(polys[v.poly]), std::max(lo, v.lo), std::min(hi, v.hi));
}
uint32_t pvZext(uint32_t a, unsigned from) { return a ? unsig(a, from) : 0; }
uint32_t pvSext(uint32_t a, unsigned from) { return a ? sig(a, from) : 0; }
uint32_t pvArith(int op, uint32_t a, uint32_t b) {
  if (!a || !b) return 0;
  return op == OP_ADD ? sum(a, b) : op == OP_SUB ? diff(a, b) : prod(a, b);
}
uint32_t pvShlAdd(uint32_t acc, uint32_t a, unsigned shift, unsigned w) {
  if (!acc || !a) return 0;
  return sum(acc, prod(unsig(a, w), konstPV(two(shift))));
}
uint32_t pvSlice(uint32_t a, unsigned pos, unsigned n) {
  if (!a) return 0;
  PV v = pvs[a];
  if (pos == 0 && v.lo >= 0 && v.hi < two(8 * n)) return a;
  uint32_t q = pos ? pvFloor(a, 8 * pos) : a;
  return unsig(q, 8 * n);
}
uint32_t pvCat(const uint32_t *b, unsigned n) {
  uint32_t r = konstPV(0);
  for (unsigned i = 0; i < n; i++) {
    if (!b[i]) return 0;
    r = sum(r, prod(unsig(b[i], 8), konstPV(two(8 * i))));
  }
  return r;
}
static uint32_t pvBin1(int op, uint32_t a, uint32_t b, unsigned w);
uint32_t pvBin(int op, uint32_t a, uint32_t b, unsigned w) {
  uint32_t r = pvBin1(op, a, b, w);
  if (!r && a && b && getenv("PVDBG")) fprintf(stderr, "lost op %d w %u\n  %s\n  %s\n", op, w, pvShow(a).c_str(), pvShow(b).c_str());
  return r;
}
static uint32_t pvBin1(int op, uint32_t a, uint32_t b, unsigned w) {
  if (!a || !b) return 0;
  switch (op) {
  case OP_ADD: return sum(a, b);
  case OP_SUB: return diff(a, b);
  case OP_MUL: return prod(a, b);
  case OP_SHL:
    if (!isK(b) || pvs[b].lo >= w) return 0;
    a = prod(a, konstPV(two((unsigned)mpz_get_ui(pvs[b].lo.get_mpz_t()))));
    return pvs[a].lo >= 0 && pvs[a].hi >= two(w) ? unsig(a, w) : a;
  case OP_LSHR:
    if (!isK(b) || pvs[b].lo >= w) return 0;
    return pvFloor(unsig(a, w), (unsigned)mpz_get_ui(pvs[b].lo.get_mpz_t()));
  case OP_ASHR:
    if (!isK(b) || pvs[b].lo >= w) return 0;
    return pvFloor(sig(a, w), (unsigned)mpz_get_ui(pvs[b].lo.get_mpz_t()));
  case OP_UDIV: case OP_UREM: {
    if (!isK(b)) return 0;
    mpz_class d = pvs[b].lo;
    if (d <= 0 || (d & (d - 1)) != 0) return 0;
    unsigned k = bitsOf(d) - 1;
    uint32_t u = unsig(a, w);
    return op == OP_UDIV ? pvFloor(u, k) : unsig(u, k);
  }
  case OP_AND: {
    if (isK(a)) std::swap(a, b);
    if (isK(b)) {
      mpz_class c = pvs[unsig(b, w)].lo;
      if (c == 0) return konstPV(0);
      uint32_t r = konstPV(0);
      for (unsigned i = 0; i < w;) { // runs of ones
        if (!mpz_tstbit(c.get_mpz_t(), i)) { i++; continue; }
        unsigned j = i;
        while (j < w && mpz_tstbit(c.get_mpz_t(), j)) j++;
        uint32_t q = i ? pvFloor(a, i) : a;
        q = j == w && i == 0 ? a : unsig(q, j - i);
        r = r == konstPV(0) && i == 0 ? q : sum(r, prod(q, konstPV(two(i))));
        i = j;
      }
      return r;
    }
    if (a == b) return a;
    if (isBool(a) && isBool(b)) return mkPV(Poly(polys[pvs[prod(a, b)].poly]), 0, 1);
    Poly c;
    for (int s = 0; s < 2; s++, std::swap(a, b))
      if (maskBit(a, w, c)) {
        uint32_t u = unsig(b, w);
        Poly m = mulPoly(c, polys[pvs[u].poly]);
        uint32_t r = mkPV(std::move(m), 0, pvs[u].hi);
        auto x = xorOf.find(b);
        if (x != xorOf.end()) maskedXor[r] = {c, x->second};
        return r;
      }
    return 0;
  }
  case OP_OR: case OP_XOR: {
    if (isK(a)) std::swap(a, b);
    if (isK(b) && pvs[b].lo == 0) return a;
    if (a == b) return op == OP_OR ? a : konstPV(0);
    if (op == OP_XOR && isK(b) && pvs[unsig(b, w)].lo == two(w) - 1) return diff(konstPV(-1), a);
    if (isBool(a) && isBool(b)) {
      PV x = pvs[a], y = pvs[b];
      Poly m = mulPoly(polys[x.poly], polys[y.poly]);
      if (m.size() > 0 && boundPoly(addMul(polys[x.poly], polys[y.poly], 1)).second < 2) m.clear(); // never both
      return mkPV(addMul(addMul(polys[x.poly], polys[y.poly], 1), m, op == OP_OR ? -1 : -2), 0, 1);
    }
    if (op == OP_XOR)
      for (int s = 0; s < 2; s++, std::swap(a, b)) { // the second half of a masked swap
        auto it = maskedXor.find(b);
        if (it == maskedXor.end()) continue;
        uint32_t p = it->second.second.first, q = it->second.second.second;
        if (a == q) std::swap(p, q);
        if (a != p) continue;
        uint32_t up = unsig(p, w), uq = unsig(q, w);
        Poly d = mulPoly(it->second.first, addMul(polys[pvs[uq].poly], polys[pvs[up].poly], -1));
        return mkPV(addMul(polys[pvs[up].poly], d, 1), std::min(pvs[up].lo, pvs[uq].lo), std::max(pvs[up].hi, pvs[uq].hi));
      }
    uint32_t x = unsig(a, w), y = unsig(b, w);
    for (int s = 0; s < 2; s++, std::swap(x, y)) { // bits that cannot meet
      unsigned k = bitsOf(pvs[y].hi);
      if (multOf(x, k)) return sum(x, y);
    }
    {
      const Poly &p = polys[pvs[x].poly], &q = polys[pvs[y].poly];
      if (exclusive(p, q) || exclusive(q, p)) return mkPV(addMul(p, q, 1), 0, std::max(pvs[x].hi, pvs[y].hi));
    }
    if (op == OP_XOR) {
      auto k = std::minmax(a, b);
      uint32_t &r = xorMemo[{k.first, k.second}];
      if (!r) { r = opaque(w); xorOf[r] = {a, b}; }
      return r;
    }
    return 0;
  }
  }
  return 0;
}
uint32_t pvSelect(uint32_t c, uint32_t a, uint32_t b, unsigned w) {
  if (!c || !a || !b) return 0;
  c = unsig(c, 1);
  a = unsig(a, w);
  b = unsig(b, w);
  Poly d = addMul(polys[pvs[a].poly], polys[pvs[b].poly], -1);
  Poly m = mulPoly(polys[pvs[c].poly], d);
  return mkPV(addMul(polys[pvs[b].poly], m, 1), std::min(pvs[a].lo, pvs[b].lo), std::max(pvs[a].hi, pvs[b].hi));
}
uint32_t pvCmp(int pred, uint32_t a, uint32_t b, unsigned w) {
  if (!a || !b) return 0;
  using P = llvm::CmpInst;
  bool sgn = pred >= P::ICMP_SGT;
  a = sgn ? sig(a, w) : unsig(a, w);
  b = sgn ? sig(b, w) : unsig(b, w);
  auto lt = [&](uint32_t x, uint32_t y) { // -floor((x - y) / 2^w)
    uint32_t d = diff(x, y);
    return diff(konstPV(0), pvFloor(d, w));
  };
  uint32_t one = konstPV(1);
  switch (pred) {
  case P::ICMP_ULT: case P::ICMP_SLT: return lt(a, b);
  case P::ICMP_UGT: case P::ICMP_SGT: return lt(b, a);
  case P::ICMP_UGE: case P::ICMP_SGE: return diff(one, lt(a, b));
  case P::ICMP_ULE: case P::ICMP_SLE: return diff(one, lt(b, a));
  case P::ICMP_EQ: case P::ICMP_NE: {
    uint32_t d = diff(a, b);
    PV v = pvs[d];
    if (v.lo > 0 || v.hi < 0) return konstPV(pred == P::ICMP_NE);
    if (v.lo == 0 && v.hi == 0) return konstPV(pred == P::ICMP_EQ);
    uint32_t ne;
    if (v.lo >= 0 && v.hi <= 1) ne = d;
    else if (v.lo >= -1 && v.hi <= 0) ne = diff(konstPV(0), d);
    else if (v.lo >= 0) ne = diff(one, lt(d, one));
    else if (v.hi <= 0) ne = diff(one, lt(diff(konstPV(0), d), one));
    else {
      static std::map<uint32_t, uint32_t> memo;
      const Poly &p = polys[v.poly];
      uint32_t key = v.poly;
      if (p.back().second < 0) key = internPoly(addMul(Poly(), Poly(p), -1));
      uint32_t &m = memo[key];
      if (!m) m = pvVar(0, 1);
      ne = m;
    }
    return pred == P::ICMP_NE ? ne : diff(one, ne);
  }
  }
  return 0;
}
uint32_t pvBytes(const std::vector<unsigned char> &be) {
  mpz_class z = 0;
  for (auto c : be) z = z * 256 + c;
  return konstPV(z);
}
std::string pvShow(uint32_t a) {
  if (!a) return "?";
  std::string s;
  size_t n = 0;
  for (auto &t : polys[pvs[a].poly]) {
    if (n++ > 6) { s += " ..."; break; }
    s += " " + t.second.get_str(16);
    for (auto x : monos[t.first]) s += ".a" + std::to_string(x);
  }
  return s + " in [" + pvs[a].lo.get_str(16) + "," + pvs[a].hi.get_str(16) + "]";
}
static std::string showPoly(const Poly &P, size_t max) {
  std::string s;
  for (auto &t : P) {
    if (!max--) { s += " ..."; break; }
    s += " " + t.second.get_str(16);
    for (auto x : monos[t.first]) s += ".a" + std::to_string(x);
  }
  return s;
}
static void dumpAtoms() {
  for (size_t i = 1; i < atoms.size(); i++)
    fprintf(stderr, "a%zu%s [%s, %s] sign %d off %s def /2^%u %s\n", i, atoms[i].bit ? " bit" : "", atoms[i].lo.get_str(16).c_str(), atoms[i].hi.get_str(16).c_str(), atoms[i].sign,
            atoms[i].off.get_str(16).c_str(), atoms[i].dk, atoms[i].sign ? showPoly(polys[atoms[i].def], 12).c_str() : ""),
    fprintf(stderr, "   flat /2^%u %s\n   flat /2^%u %s\n", atoms[i].k, showPoly(polys[atoms[i].flat], 12).c_str(), atoms[i].k2, showPoly(polys[atoms[i].flat2], 12).c_str());
}
bool pvIsZeroMod(uint32_t a, uint32_t m, std::string &why) {
  mpz_class k = m ? pvs[m].lo : mpz_class(0);
  size_t bad = 0;
  Poly P, whole = polys[pvs[a].poly];
  std::set<uint32_t> bits;
  for (auto &t : whole) {
    if (k != 0 && mpz_divisible_p(t.second.get_mpz_t(), k.get_mpz_t())) continue;
    P.push_back(t);
    for (auto x : monos[t.first]) if (atoms[x].bit) bits.insert(x);
  }
  if (P.empty()) return true;
  if (getenv("PVDBG")) fprintf(stderr, "to cancel: %s\n", showPoly(P, 30).c_str());
  bits.clear();
  std::set<uint32_t> rest;
  for (auto &t : P)
    for (auto x : monos[t.first]) if (atoms[x].bit) (monos[t.first].size() > 1 ? bits : rest).insert(x);
  for (auto x : bits) rest.erase(x);
  while (bits.size() <= 10) { // every case is either zero or impossible
    std::vector<uint32_t> v(bits.begin(), bits.end());
    bool ok = true;
    std::vector<std::pair<std::map<uint32_t, int>, Poly>> found;
    for (unsigned c = 0; ok && c < 1u << v.size(); c++) {
      std::map<uint32_t, int> env;
      for (size_t i = 0; i < v.size(); i++) env[v[i]] = c >> i & 1;
      Poly Q;
      for (auto &t : assign(P, env)) if (k == 0 || !mpz_divisible_p(t.second.get_mpz_t(), k.get_mpz_t())) Q.push_back(t);
      if (Q.empty()) continue;
      if (refuted(env)) continue;
      if (vanishesMod(Q, k, env)) found.push_back({env, Q});
      else {
        ok = false;
        if (getenv("PVDBG")) {
          Range r = boundPoly(Q);
          fprintf(stderr, "zero case");
          for (auto &e : env) fprintf(stderr, " a%u=%d", e.first, e.second);
          fprintf(stderr, " bound %s %s: %s\n", mpz_class(r.first).get_str(16).c_str(), mpz_class(r.second).get_str(16).c_str(), showPoly(Q, 20).c_str());
        }
      }
    }
    if (ok) { zeros.insert(zeros.end(), found.begin(), found.end()); return true; }
    if (rest.empty()) break;
    bits.insert(*rest.rbegin());
    rest.erase(*rest.rbegin());
  }
  for (auto &t : whole) {
    if (k != 0 && mpz_divisible_p(t.second.get_mpz_t(), k.get_mpz_t())) continue;
    if (bad++ < 4) {
      mpz_class c = t.second;
      if (k != 0) { mpz_fdiv_r(c.get_mpz_t(), c.get_mpz_t(), k.get_mpz_t()); if (c * 2 > k) c -= k; }
      why += " " + c.get_str(16);
      for (auto x : monos[t.first]) why += ".a" + std::to_string(x);
    }
  }
  if (bad && getenv("PVDBG")) dumpAtoms();
  if (bad) why = std::to_string(bad) + " terms remain:" + why;
  return bad == 0;
}
// a <= m in every case that can occur
bool pvBelow(uint32_t a, uint32_t m, std::string &why) {
  Poly P = polys[pvs[a].poly];
  std::set<uint32_t> bits, rest;
  for (auto &t : P)
    for (auto x : monos[t.first]) if (atoms[x].bit) (monos[t.first].size() > 1 ? bits : rest).insert(x);
  for (auto x : bits) rest.erase(x);
  for (;;) { // the newest bits are those of the last carries
    if (bits.size() > 10) break;
    std::vector<uint32_t> v(bits.begin(), bits.end());
    bool ok = true;
    for (unsigned c = 0; ok && c < 1u << v.size(); c++) {
      std::map<uint32_t, int> env;
      for (size_t i = 0; i < v.size(); i++) env[v[i]] = c >> i & 1;
      Poly Q = addMul(assign(P, env), konst(pvs[m].hi + 1), -1); // suppose it is more
      bool out = refuted(env, &Q);
      for (size_t i = 0; !out && i < zeros.size(); i++) {
        bool sub = !zeros[i].second.empty();
        for (auto &e : zeros[i].first) { auto it = env.find(e.first); if (it == env.end() || it->second != e.second) sub = false; }
        if (!sub) continue;
        Poly Z = assign(zeros[i].second, env);
        if (Z.empty()) continue;
        for (auto &t : Q) if (t.first == Z.back().first && mpz_divisible_p(t.second.get_mpz_t(), Z.back().second.get_mpz_t())) {
          Poly R = addMul(Q, Z, -(t.second / Z.back().second));
          out = refuted(env, &R);
          break;
        }
      }
      if (!out) {
        ok = false;
        if (getenv("PVDBG")) {
          Range r = boundPoly(Q);
          fprintf(stderr, "case");
          for (auto &e : env) fprintf(stderr, " a%u=%d", e.first, e.second);
          fprintf(stderr, " bound %s %s: %zu\n", mpz_class(r.first).get_str(16).c_str(), mpz_class(r.second).get_str(16).c_str(), Q.size());
          for (auto &e : env) {
            Poly f = assign(polys[atoms[e.first].flat], env);
            fprintf(stderr, "  a%u off %s k %u flat %zu bits diff from Q %zu sum %zu\n", e.first, atoms[e.first].off.get_str().c_str(), atoms[e.first].k, f.size(), addMul(f, Q, -two(256)).size(), addMul(f, Q, two(256)).size());
          }
        }
      }
    }
    if (ok) return true;
    if (rest.empty()) break;
    bits.insert(*rest.rbegin());
    rest.erase(*rest.rbegin());
  }
  why = "a case may exceed the bound";
  return false;
}
bool pvBounds(uint32_t a, unsigned w, u128 &lo, u128 &hi) {
  const PV &v = pvs[a];
  if (v.lo < 0 || v.hi >= two(w)) return false;
  lo = u128z(v.lo);
  hi = u128z(v.hi);
  return true;
}
size_t pvTerms(uint32_t a) { return polys[pvs[a].poly].size(); }

// a declared bound, and those of the products with the ones declared before
void pvDeclare(uint32_t a, uint32_t lo, uint32_t hi) {
  if (!a || !lo || !hi) return;
  Poly P = polys[pvs[a].poly];
  Range r{mpq_class(pvs[lo].lo), mpq_class(pvs[hi].hi)};
  size_t n = declared.size();
  auto times = [&](const Poly &Q, const Range &q) {
    mpq_class c[4] = {r.first * q.first, r.first * q.second, r.second * q.first, r.second * q.second};
    declared.insert(declared.begin(), {mulPoly(P, Q), {*std::min_element(c, c + 4), *std::max_element(c, c + 4)}});
  };
  std::vector<std::pair<Poly, Range>> old;
  for (auto &d : declared) if (!d.first.empty() && monos[d.first.back().first].size() == 1) old.push_back(d);
  (void)n;
  for (auto &d : old) times(d.first, d.second);
  times(P, r);
  declared.push_back({P, r});
}

// the same number with the best bounds that can be shown
static uint32_t tightened(uint32_t a) {
  static std::map<uint32_t, uint32_t> memo;
  uint32_t &m = memo[a];
  if (m) return m;
  PV v = pvs[a];
  Range r = boundPoly(polys[v.poly]);
  mpz_class l, h;
  mpz_cdiv_q(l.get_mpz_t(), r.first.get_num_mpz_t(), r.first.get_den_mpz_t());
  mpz_fdiv_q(h.get_mpz_t(), r.second.get_num_mpz_t(), r.second.get_den_mpz_t());
  return m = mkPV(Poly(polys[v.poly]), std::max(l, v.lo), std::min(h, v.hi));
}
// quotients and words are taken one word at a time, as the carries of the code are
uint32_t pvQuot(uint32_t a, unsigned k, unsigned w) {
  if (!a) return 0;
  a = tightened(a);
  for (; k; k -= w) a = pvFloor(a, w);
  return a;
}
uint32_t pvWord(uint32_t a, unsigned k, unsigned w) { return a ? unsig(pvQuot(a, k, w), w) : 0; }
